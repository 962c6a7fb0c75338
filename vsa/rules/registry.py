"""R01: names offered to the user lead to their code"""

import ast
import re
import tomllib

from ..framework import fmt_trace
from ..interp import Interp, Policy, State
from ..project import AnalysisBroken
from ..terms import NONE, TRUE, base_name, const, is_const, show, walk
from .names import binding_error
from . import register

EXEC_NAME = re.compile(r"(multi_)?exec_[a-z0-9_]+")
DOTTED = re.compile(r"fluidimage(\.[A-Za-z_]\w*)+")


def prod_modules(ctx):
    return [
        m for m in ctx.p.modules.values()
        if not m.name.rsplit(".", 1)[-1].startswith(("test_", "conftest"))
    ]


def docstrings(tree):
    res = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            res.add(id(n.value))
    return res


def strings(mod):
    doc = docstrings(mod.tree)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(
            n
        ) not in doc:
            yield n


def class_of(ctx, mod, name):
    """class given by a module under a name"""
    seen = set()
    while True:
        t = ctx.p.resolve(mod, name)
        if t[0] == "class":
            return ctx.p.classes_by_qual[t[1]]
        if t[0] == "glob" and (t[1], t[2]) not in seen:
            seen.add((t[1], t[2]))
            mod = ctx.p.modules[t[1]]
            v = mod.globals.get(t[2])
            if isinstance(v, ast.Name):
                name = v.id
                continue
            if isinstance(v, ast.Attribute):
                r = _dotted(ctx, mod, v)
                if r is not None and r[0] == "class":
                    return ctx.p.classes_by_qual[r[1]]
        return None


def _dotted(ctx, mod, n):
    if isinstance(n, ast.Name):
        return ctx.p.resolve(mod, n.id)
    if isinstance(n, ast.Attribute):
        b = _dotted(ctx, mod, n.value)
        return ctx.p.attr_of(b, n.attr) if b is not None else None
    return None


def accepts(cls, call):
    """None if the constructor accepts the arguments of the call"""
    init = cls.find_method("__init__")
    if init is None:
        return None
    seen = []
    while init is not None:
        a = init.node.args
        err = binding_error(init.node, call, 1)
        if err is not None and not (a.kwarg and "is not given" not in err):
            return err
        if a.kwarg is None:
            return None
        # **kwargs given to the next constructor
        seen.append(init)
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        forward = None
        for n in ast.walk(init.node):
            if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute
            ) and n.func.attr == "__init__" and any(
                k.arg is None and isinstance(k.value, ast.Name)
                and k.value.id == a.kwarg.arg for k in n.keywords
            ):
                forward = n
        if forward is None:
            return None
        explicit = [k for k in forward.keywords if k.arg is not None]
        rest = [k for k in call.keywords if k.arg and k.arg not in names]
        call = ast.Call(func=forward.func, args=list(forward.args),
                        keywords=explicit + rest)
        nxt = cls.find_method("__init__", after=init.cls)
        if nxt in seen:
            return None
        init = nxt
    return None


def kwcall(names, npos=0):
    return ast.Call(
        func=ast.Name(id="f", ctx=ast.Load()),
        args=[ast.Constant(value=None)] * npos,
        keywords=[ast.keyword(arg=k, value=ast.Constant(value=None))
                  for k in names],
    )


# ---------------------------------------------------------------- executors


def entry_points(ctx):
    path = ctx.p.repo / "pyproject.toml"
    data = tomllib.loads(path.read_text(encoding="utf-8"))
    proj = data.get("project", {})
    return (
        proj.get("entry-points", {}).get("fluidimage.executors", {}),
        {**proj.get("scripts", {}), **proj.get("gui-scripts", {})},
    )


@register("R01")
def executors(ctx):
    ctx.rule("R01.executors", "each name of executor designates a module which "
             "gives its own executor, with the interface used", 10)
    names, scripts = entry_points(ctx)
    if not names:
        raise AnalysisBroken("no entry points for the executors")
    creations = []
    for mod in prod_modules(ctx):
        for f in list(mod.funcs.values()) + [
            m for c in mod.classes.values() for m in c.methods.values()
        ]:
            vars_ = {
                t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign)
                and isinstance(n.value, ast.Call)
                and base_call(n.value) == "import_executor_class"
                for t in n.targets if isinstance(t, ast.Name)
            }
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and (
                    isinstance(n.func, ast.Name) and n.func.id in vars_
                    or isinstance(n.func, ast.Call)
                    and base_call(n.func) == "import_executor_class"
                ):
                    creations.append((f, n))
    if not creations:
        ctx.maybe("R01.executors", "fluidimage", "no creation of executor found")
    classes = {}
    for name, value in names.items():
        mod = ctx.p.modules.get(value.split(":")[0])
        where = f"pyproject.toml:{name}"
        if not ctx.check(mod is not None, "R01.executors", where, value,
                         f"the module {value} of the executor {name} does not "
                         "exist"):
            continue
        cls = class_of(ctx, mod, "Executor")
        if not ctx.check(
            cls is not None and cls.is_subclass("ExecutorBase"),
            "R01.executors", mod.rel, "Executor",
            f"{mod.name} (executor {name}) does not give a class Executor"
        ):
            continue
        ctx.check(
            cls.module is mod, "R01.executors", mod.rel, "Executor",
            f"the executor {name} is the class {cls.name} of {cls.module.name}, "
            "not the one of its module")
        classes[name] = cls
        comp = cls.find_method("compute")
        ctx.check(
            comp is not None and not any(
                "abstract" in d for d in comp.decorators),
            "R01.executors", mod.rel, f"{cls.name}.compute",
            f"{cls.name} cannot compute: the method compute is "
            + ("missing" if comp is None else "abstract"))
        # abstract methods
        for k in cls.mro():
            for m in k.methods.values():
                if any("abstract" in d for d in m.decorators):
                    impl = cls.find_method(m.name)
                    ctx.check(
                        not any("abstract" in d for d in impl.decorators),
                        "R01.executors", mod.rel, f"{cls.name}.{m.name}",
                        f"{cls.name} cannot be created: the method {m.name} is "
                        "abstract")
        for f, call in creations:
            call2 = ast.Call(func=call.func, args=call.args, keywords=[
                k for k in call.keywords if k.arg is not None])
            err = accepts(cls, call2)
            ctx.check(err is None, "R01.executors", f.short,
                      f"creation of {cls.name}",
                      f"the executor {name} cannot be created: {err}",
                      line=call.lineno)
    for m in prod_modules(ctx):
        for n in strings(m):
            if EXEC_NAME.fullmatch(n.value) and not _key_only(m, n):
                ctx.check(
                    n.value in names, "R01.executors", m.rel, n.value,
                    f"'{n.value}' is not the name of an executor",
                    line=n.lineno)
    # options of the executors created in the sub-processes
    for c in ctx.p.classes_by_qual.values():
        a = c.find_attr("executor_for_multi")
        if a is None or not c.is_subclass("MultiExecutorBase"):
            continue
        v = a[1]
        v = v.value if isinstance(v, ast.Constant) else v
        cls = classes.get(v)
        if cls is None:
            continue
        keys = option_names(c, "kwargs_executor")
        base = ctx.p.find_class("TopologyBase").find_method("compute")
        top = option_names(c, "compute_kwargs") - {"kwargs_executor"}
        if not keys:
            ctx.maybe("R01.executors", c.module.rel, "no option found")
        err = accepts(cls, merge(creations, keys))
        ctx.check(err is None, "R01.executors", c.module.rel,
                  f"options of {cls.name}",
                  f"{c.name}: the options given to {v} are not accepted: {err}")
        err = binding_error(base.node, kwcall(sorted(top)), 1)
        ctx.check(err is None, "R01.executors", c.module.rel,
                  f"options of {base.name}",
                  f"{c.name}: the options given to compute are not accepted: "
                  f"{err}")


def _key_only(mod, n):
    """the string is not used as the name of an executor (key of something
    else)"""
    return False


def merge(creations, keys):
    call = creations[0][1] if creations else kwcall([])
    return ast.Call(
        func=call.func, args=call.args,
        keywords=[k for k in call.keywords if k.arg is not None]
        + kwcall(sorted(keys)).keywords,
    )


def base_call(n):
    f = n.func
    return f.id if isinstance(f, ast.Name) else getattr(f, "attr", None)


def option_names(cls, node):
    """names set in the node of parameters <...>.<node>"""
    res = set()
    for k in cls.mro():
        for f in k.methods.values():
            local = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Attribute
                ) and n.value.attr == node:
                    local |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and base_call(n) == "_set_child":
                    args = list(n.args) + [x.value for x in n.keywords]
                    if args and isinstance(args[0], ast.Constant) and args[
                        0
                    ].value == node:
                        for d in args[1:]:
                            if isinstance(d, ast.Dict):
                                res |= {
                                    x.value for x in d.keys
                                    if isinstance(x, ast.Constant)}
                elif isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store
                ):
                    b = n.value
                    if isinstance(b, ast.Attribute) and b.attr == node or (
                        isinstance(b, ast.Name) and b.id in local
                    ):
                        res.add(n.attr)
    return res


class ChoicePolicy(Policy):
    """the functions which look for the executors are symbols"""

    def should_inline(self, func, interp, st):
        return func.name not in (
            "import_executor_class", "get_executor_names",
        )


def run(ctx, f, args, self_cls=None):
    interp = Interp(ctx.p, ChoicePolicy())
    names = [a.arg for a in f.node.args.args]
    if f.cls is not None and not f.is_static:
        names = names[1:]
    outs = interp.run(
        f, args={n: args.get(n, ("param", n)) for n in names},
        self_term=("obj", "self", (self_cls or f.cls).qual) if f.cls else None,
        st=State(),
    )
    ctx.seen(interp)
    return outs


def is_import(t, name):
    return t[0] == "call" and base_name(t[1]) == "import_executor_class" and (
        t[2][:1] == (name,) or any(v == name for _, v in t[3]))


@register("R01")
def choice(ctx):
    ctx.rule("R01.choice", "the executor which computes is the one which is "
             "asked for; an unknown name is refused", 4)
    f = ctx.p.find_class("TopologyBase").find_method("compute")
    if f is None:
        raise AnalysisBroken("TopologyBase.compute not found")
    P = ("param", "executor")
    for o in run(ctx, f, {}):
        tr = o.st.trace
        ass = {e.a[0]: e.a[1] == TRUE for e in tr if e.kind == "assume"}
        checks = [
            t[2][0] for t, v in ass.items()
            if v and t[0] == "call" and base_name(t[1]) == "isinstance" and t[2]
        ]
        inst = P in checks
        if any(is_const(x) or "supported_multi_executors" in show(x)
               for x in checks):
            # a name is not an executor
            continue
        seq = ass.get(("param", "sequential"))
        none = ass.get(("cmp", "is", P, NONE))
        unknown = any(
            t[0] == "cmp" and (t[1] == "in" and not v or t[1] == "notin" and v)
            and any(x[0] == "call" and base_name(x[1]) == "get_executor_names"
                    for x in walk(t)) for t, v in ass.items())
        if o.kind == "raise":
            continue
        if o.kind != "return":
            continue
        ctx.check(not unknown, "R01.choice", f.short, "unknown name",
                  "a name which is not the one of an executor is accepted",
                  fmt_trace(tr))
        comps = [e for e in tr if e.kind == "call" and e.a[0][0] == "attr"
                 and e.a[0][2] == "compute"]
        if not ctx.check(len(comps) == 1, "R01.choice", f.short, "compute",
                         f"the method compute of {len(comps)} executors is "
                         "called", fmt_trace(tr)):
            continue
        who = comps[0].a[0][1]
        if who[0] == "attr" and who[1][0] == "obj":
            sets = [e for e in tr if e.kind == "setattr" and e.a[0] == who[1]
                    and e.a[1] == who[2]]
            if sets:
                who = sets[-1].a[2]
        if inst:
            ctx.check(who == P, "R01.choice", f.short, "instance",
                      "an executor given as an object does not compute",
                      fmt_trace(tr), comps[0].line)
            continue
        made = [x for x in walk(who) if x[0] == "call" and is_import_any(x[1])]
        if who[0] != "call" or not is_import_any(who[1]):
            if is_const(who) or who[0] == "attr" and not made:
                ctx.bad("R01.choice", f.short, "creation",
                        f"what computes is {show(who)[:60]}, not a new executor",
                        fmt_trace(tr), comps[0].line)
            else:
                ctx.maybe("R01.choice", f.short, show(who)[:60])
            continue
        for k, v in who[3]:
            same = v[0] in ("param", "attr") and v[-1] != k
            ctx.check(
                not same or k == "**", "R01.choice", f.short, f"argument {k}",
                f"the argument {k} of the executor is {show(v)[:50]}",
                fmt_trace(tr))
        imp = who[1]
        name = imp[2][0] if imp[2] else dict(imp[3]).get("name")
        if seq:
            good = name == const("exec_sequential") or name == P and any(
                v and t == ("cmp", "==", P, const("exec_sequential"))
                for t, v in ass.items())
            ctx.check(good, "R01.choice", f.short, "sequential",
                      f"with sequential=True, the executor is {show(name)[:60]}",
                      fmt_trace(tr))
        elif none is False:
            ctx.check(name == P, "R01.choice", f.short, "name",
                      f"the executor created is {show(name)[:60]}, not the one "
                      "which is asked for", fmt_trace(tr))
        elif none:
            ctx.check(
                name != NONE, "R01.choice", f.short, "default",
                "no default executor", fmt_trace(tr))


def is_import_any(t):
    return t[0] == "call" and base_name(t[1]) == "import_executor_class"


# ---------------------------------------------------------------- correlation


def truth_of_name(cond, var, name):
    """value of a condition on a name (None: unknown)"""
    if isinstance(cond, ast.BoolOp):
        vals = [truth_of_name(v, var, name) for v in cond.values]
        if isinstance(cond.op, ast.And):
            if False in vals:
                return False
            return None if None in vals else True
        if True in vals:
            return True
        return None if None in vals else False
    if isinstance(cond, ast.UnaryOp) and isinstance(cond.op, ast.Not):
        v = truth_of_name(cond.operand, var, name)
        return None if v is None else not v
    if isinstance(cond, ast.Call) and isinstance(
        cond.func, ast.Attribute
    ) and isinstance(cond.func.value, ast.Name) and cond.func.value.id == var and (
        len(cond.args) == 1 and isinstance(cond.args[0], ast.Constant)
    ) and cond.func.attr in ("startswith", "endswith"):
        return getattr(name, cond.func.attr)(cond.args[0].value)
    if isinstance(cond, ast.Compare) and len(cond.ops) == 1 and isinstance(
        cond.left, ast.Name
    ) and cond.left.id == var:
        c = cond.comparators[0]
        op = cond.ops[0]
        if isinstance(c, ast.Constant):
            vals = [c.value]
        elif isinstance(c, (ast.Tuple, ast.List, ast.Set)) and all(
            isinstance(x, ast.Constant) for x in c.elts
        ):
            vals = [x.value for x in c.elts]
        else:
            return None
        if isinstance(op, (ast.Eq, ast.In)):
            return name in vals
        if isinstance(op, (ast.NotEq, ast.NotIn)):
            return name not in vals
    return None


def correl_table(ctx, mod):
    """{name: class} or None"""
    v = mod.globals.get("correlation_classes")
    table = {}
    dup = []
    for n in ast.walk(mod.tree):
        # filled elsewhere
        if isinstance(n, ast.Name) and n.id == "correlation_classes" and (
            isinstance(n.ctx, ast.Load)):
            return None, None
    if isinstance(v, ast.Dict):
        for k, x in zip(v.keys, v.values):
            t = _dotted(ctx, mod, x)
            if t is None or t[0] != "class":
                return None, None
            c = ctx.p.classes_by_qual[t[1]]
            if isinstance(k, ast.Constant):
                key = k.value
            else:
                key = tag_of(c)
            if key in table:
                dup.append((key, c, table[key]))
            table[key] = c
        return table, dup
    if isinstance(v, ast.DictComp) and len(v.generators) == 1:
        g = v.generators[0]
        names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        var = names[0] if names else None
        if isinstance(g.iter, (ast.Tuple, ast.List, ast.Set)):
            items = []
            for x in g.iter.elts:
                t = _dotted(ctx, mod, x)
                if t is None or t[0] != "class":
                    return None, None
                c = ctx.p.classes_by_qual[t[1]]
                items.append((c.name, c))
            if g.ifs:
                return None, None
        elif any(isinstance(x, ast.Name) and x.id in ("locals", "globals", "vars")
                 for x in ast.walk(g.iter)):
            items = mod.classes.items()
        else:
            return None, None
        for name, c in items:
            keep = True
            for cond in g.ifs:
                r = truth_of_name(cond, var, name)
                if r is None:
                    other = all(
                        not isinstance(x, ast.Name) or x.id != var
                        for x in ast.walk(cond))
                    if not other:
                        return None, None
                    r = c.is_subclass("CorrelBase")
                keep = keep and r
            if keep:
                key = tag_of(c)
                if key in table:
                    dup.append((key, c, table[key]))
                table[key] = c
        return table, dup
    return None, None


def tag_of(c):
    a = c.find_attr("_tag")
    if a is None:
        return None
    v = a[1]
    return v.value if isinstance(v, ast.Constant) else None


@register("R01")
def correlation(ctx):
    ctx.rule("R01.correl", "each correlation or sub-pixel method leads to its own "
             "code, unknown ones are refused", 12)
    mod = ctx.p.module("calcul.correl")
    table, dup = correl_table(ctx, mod)
    users = [
        f for c in ctx.p.classes_by_qual.values() for f in c.methods.values()
        if any(isinstance(n, ast.Name) and n.id == "correlation_classes"
               and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))
        and f.name == "_init_correl"
    ] or [
        f for f in ctx.p.all_funcs()
        if f.module.name.startswith("fluidimage.works") and any(
            isinstance(n, ast.Name) and n.id == "correlation_classes"
            for n in ast.walk(f.node))
    ]
    if table is None:
        ctx.maybe("R01.correl", mod.rel, "correlation_classes")
        table = {}
    else:
        base = ctx.p.find_class("CorrelBase")
        for key, c, other in dup:
            ctx.bad("R01.correl", mod.rel, f"name of {c.name}",
                    f"{c.name} and {other.name} have the same name {key!r}: "
                    f"{other.name} cannot be selected")
        for c in mod.classes.values():
            # a concrete class which cannot be selected
            if c.is_subclass("CorrelBase") and not c.name.endswith("Base"):
                ctx.check(
                    c in table.values() or c in [d[2] for d in dup],
                    "R01.correl", mod.rel, f"selection of {c.name}",
                    f"the correlation class {c.name} cannot be selected")
        for key, c in table.items():
            ctx.check(isinstance(key, str), "R01.correl", mod.rel,
                      f"name of {c.name}", f"{c.name} has no name")
            a = c.find_attr("_tag")
            ctx.check(
                a is None or not a[0].name.endswith("Base"), "R01.correl",
                mod.rel, f"own name of {c.name}",
                f"{c.name} has no name of its own (it is called {key!r} as the "
                "base class)")
            f = c.find_method("__call__")
            ctx.check(
                f is not None and not any("abstract" in d for d in f.decorators)
                and binding_error(f.node, kwcall([], 2), 1) is None,
                "R01.correl", mod.rel, f"{c.name}.__call__",
                f"{c.name} (method {key!r}) cannot be called with two images")
            for k in c.mro():
                for m in k.methods.values():
                    if any("abstract" in d for d in m.decorators):
                        impl = c.find_method(m.name)
                        ctx.check(
                            not any("abstract" in d for d in impl.decorators),
                            "R01.correl", mod.rel, f"{c.name}.{m.name}",
                            f"{c.name} (method {key!r}) cannot be created: "
                            f"{m.name} is abstract")
            a = c.find_attr("FFTClass")
            if a is not None:
                v = a[1]
                t = _dotted(ctx, a[0].module, v) if isinstance(
                    v, (ast.Name, ast.Attribute)) else None
                ctx.check(
                    t is not None and t[0] in ("class", "glob", "ext"),
                    "R01.correl", mod.rel, f"{c.name}.FFTClass",
                    f"{c.name}: the FFT class does not exist")
    if not users:
        ctx.maybe("R01.correl", mod.rel, "no use of correlation_classes")
    for f in users:
        created = 0
        for o in run(ctx, f, {}):
            tr = o.st.trace
            for e in tr:
                if e.kind != "call":
                    continue
                g = e.a[0]
                if g[0] == "item" and "correlation_classes" in show(g[1]) or (
                    g[0] == "call" and "correlation_classes" in show(g[1])
                    and base_name(g[1]) == "get"
                ):
                    created += 1
                    call = kwcall([k for k, _ in e.a[2]], len(e.a[1]))
                    for key, c in table.items():
                        err = accepts(c, call)
                        ctx.check(err is None, "R01.correl", f.short,
                                  f"creation of {c.name}",
                                  f"the correlation method {key!r} cannot be "
                                  f"created: {err}", line=e.line)
            if o.kind == "raise":
                exc = show(o.val) if o.val is not None else ""
                lost = "KeyError" in exc
                ctx.check(not lost, "R01.correl", f.short, "unknown method",
                          "an unknown correlation method is not refused with an "
                          "explicit error", fmt_trace(tr))
        if not created:
            ctx.maybe("R01.correl", f.short, "no creation found")
    # default values
    for mod2 in prod_modules(ctx):
        if not mod2.name.startswith("fluidimage.works"):
            continue
        for n in ast.walk(mod2.tree):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(
                        v, ast.Constant
                    ):
                        if k.value == "method_correl" and table:
                            ctx.check(
                                v.value in table, "R01.correl", mod2.rel,
                                "default method_correl",
                                f"the default correlation method {v.value!r} "
                                "does not exist", line=n.lineno)
    subpix(ctx)


def subpix(ctx):
    cls = ctx.p.find_class("SubPix")
    a = cls.find_attr("methods")
    f = cls.find_method("compute_subpix")
    if a is None or f is None:
        ctx.maybe("R01.correl", cls.module.rel, "SubPix.methods")
        return
    v = a[1]
    if not isinstance(v, (ast.List, ast.Tuple, ast.Set)) or not all(
        isinstance(x, ast.Constant) for x in v.elts
    ):
        ctx.maybe("R01.correl", cls.module.rel, "SubPix.methods")
        return
    names = [x.value for x in v.elts]
    used = {}
    for name in names:
        n = 0
        values = set()
        for o in run(ctx, f, {"method": const(name)}):
            if o.kind != "return":
                continue
            n += 1
            unb = [x for x in walk(o.val) if x[0] == "unbound"]
            ctx.check(not unb and o.val != NONE, "R01.correl", f.short,
                      f"method {name}",
                      f"the sub-pixel method {name!r} is accepted but computes "
                      "nothing", fmt_trace(o.st.trace))
            values.add(show(o.val))
        ctx.check(n > 0, "R01.correl", f.short, f"method {name} refused",
                  f"the sub-pixel method {name!r} of the list is never computed")
        used[name] = values
    got = run(ctx, f, {"method": const("<unknown>")})
    ctx.check(
        all(o.kind == "raise" for o in got), "R01.correl", f.short,
        "unknown method", "an unknown sub-pixel method is accepted")
    for mod in prod_modules(ctx):
        if not mod.name.startswith(("fluidimage.works", "fluidimage.calcul")):
            continue
        for n in ast.walk(mod.tree):
            pairs = []
            if isinstance(n, ast.Dict):
                pairs = [(k.value, v) for k, v in zip(n.keys, n.values)
                         if isinstance(k, ast.Constant)]
            elif isinstance(n, ast.Call):
                pairs = [(k.arg, k.value) for k in n.keywords]
            elif isinstance(n, (ast.FunctionDef,)):
                pairs = [
                    (x.arg, d) for x, d in zip(
                        reversed(n.args.args), reversed(n.args.defaults))]
            for k, v in pairs:
                if k == "method_subpix" and isinstance(v, ast.Constant):
                    ctx.check(v.value in names, "R01.correl", mod.rel,
                              "default method_subpix",
                              f"the sub-pixel method {v.value!r} does not exist",
                              line=n.lineno)


# ---------------------------------------------------------------- commands


@register("R01")
def commands(ctx):
    ctx.rule("R01.commands", "console commands, modules run by name and options "
             "exist", 12)
    names, scripts = entry_points(ctx)
    for cmd, target in scripts.items():
        m, _, func = target.partition(":")
        mod = ctx.p.modules.get(m)
        ok = mod is not None and ctx.p.resolve(mod, func)[0] in ("func", "class")
        ctx.check(ok, "R01.commands", f"pyproject.toml:{cmd}", target,
                  f"the command {cmd} calls {target} which does not exist")
        if ok:
            t = ctx.p.resolve(mod, func)
            if t[0] == "func":
                err = binding_error(ctx.p.funcs_by_key[t[1]].node, kwcall([]), 0)
                ctx.check(err is None, "R01.commands", mod.rel, func,
                          f"the command {cmd} cannot call {target}: {err}")
    for mod in prod_modules(ctx):
        for n in strings(mod):
            if DOTTED.fullmatch(n.value):
                ctx.check(
                    dotted_exists(ctx, n.value), "R01.commands", mod.rel,
                    n.value, f"{n.value} does not exist", line=n.lineno)
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.List, ast.Tuple)):
                for a, b in zip(n.elts, n.elts[1:]):
                    if isinstance(a, ast.Constant) and a.value == "-m" and (
                        isinstance(b, ast.Constant)
                        and str(b.value).startswith("fluidimage")
                    ):
                        m = ctx.p.modules.get(b.value)
                        ctx.check(
                            m is not None and runs_as_main(ctx, m),
                            "R01.commands", mod.rel, f"-m {b.value}",
                            f"{b.value} cannot be run as a command",
                            line=n.lineno)
    options(ctx)


def runs_as_main(ctx, m):
    if m.is_pkg:
        return m.name + ".__main__" in ctx.p.modules
    for n in m.tree.body:
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test) and any(
            isinstance(x, ast.Call) for s in n.body for x in ast.walk(s)
        ):
            return True
    return False


def dotted_exists(ctx, name):
    if name in ctx.p.modules:
        return True
    parts = name.split(".")
    for i in range(len(parts) - 1, 0, -1):
        m = ctx.p.modules.get(".".join(parts[:i]))
        if m is None:
            # a package without __init__
            if any(k.startswith(".".join(parts[:i]) + ".") for k in
                   ctx.p.modules) and i == len(parts):
                return True
            continue
        t = ctx.p.resolve(m, parts[i])
        return t[0] not in ("undef",)
    return False


def options(ctx):
    """args.<name> given by a parser of the same module"""
    for mod in prod_modules(ctx):
        dests, known = set(), True
        parsers = 0
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and base_call(n) == "add_argument":
                parsers += 1
                dest = None
                for k in n.keywords:
                    if k.arg == "dest" and isinstance(k.value, ast.Constant):
                        dest = k.value.value
                flags = [a.value for a in n.args if isinstance(a, ast.Constant)]
                if len(flags) != len(n.args) or not flags:
                    known = False
                    continue
                if dest is None:
                    long = [x for x in flags if x.startswith("--")]
                    dest = (long or flags)[0].lstrip("-").replace("-", "_")
                dests.add(dest)
        if not parsers or not known:
            continue
        for f in list(mod.funcs.values()) + [
            m for c in mod.classes.values() for m in c.methods.values()
        ]:
            parsed = {
                t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign)
                and isinstance(n.value, ast.Call)
                and base_call(n.value) == "parse_args" for t in n.targets
                if isinstance(t, ast.Name)
            }
            own = {a.arg for a in f.node.args.args if a.arg == "args"}
            stored = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    b = n.value
                    isargs = isinstance(b, ast.Name) and b.id in parsed | own or (
                        isinstance(b, ast.Attribute) and b.attr == "args"
                        and isinstance(b.value, ast.Name) and b.value.id == "self"
                    )
                    if not isargs or n.attr.startswith("_"):
                        continue
                    if isinstance(n.ctx, ast.Store):
                        stored.add(n.attr)
                        continue
                    ctx.check(
                        n.attr in dests | stored, "R01.commands", f.short,
                        f"args.{n.attr}",
                        f"the option {n.attr} is used but the command does not "
                        "accept it", line=n.lineno)


# ---------------------------------------------------------------- works


@register("R01")
def user_modules(ctx):
    ctx.rule("R01.modules", "the user modules give a work and a topology which "
             "can be used; what is written to find a class again is what is read",
             8)
    for mod in prod_modules(ctx):
        if mod.name.count(".") != 1 and not mod.name.startswith(
            ("fluidimage.topologies.", "fluidimage.works.")
        ):
            continue
        for alias, base, methods in (
            ("Topology", "TopologyBase", ("create_default_params",)),
            ("Work", "BaseWork", ("create_default_params",)),
        ):
            t = ctx.p.resolve(mod, alias)
            if t[0] == "undef" or t[0] == "class" and t[1].split(".")[-1] == alias:
                continue
            cls = class_of(ctx, mod, alias)
            if not ctx.check(
                cls is not None and cls.is_subclass(base),
                "R01.modules", mod.rel, alias,
                f"{mod.name}.{alias} is not a {alias.lower()}"
            ):
                continue
            for name in methods:
                ctx.check(
                    cls.find_method(name) is not None, "R01.modules", mod.rel,
                    f"{alias}.{name}", f"{cls.name} has no method {name}")
            if alias == "Topology" and mod.name.count(".") == 1:
                ctx.check(
                    ctx.p.resolve(mod, "Work")[0] != "undef", "R01.modules",
                    mod.rel, "Work", f"{mod.name} gives a topology and no work")
    # class written in the parameters and read by run_from_xml
    for mod in prod_modules(ctx):
        for n in ast.walk(mod.tree):
            if not isinstance(n, ast.Dict):
                continue
            d = {k.value: v for k, v in zip(n.keys, n.values)
                 if isinstance(k, ast.Constant)}
            if "program" in d and ("class" in d or "module" in d):
                for key, attr in (("class", "__name__"),
                                  ("module", "__module__")):
                    v = d.get(key)
                    ok = isinstance(v, ast.Attribute) and v.attr == attr or (
                        isinstance(v, ast.Name) or isinstance(v, ast.Constant))
                    ctx.check(ok, "R01.modules", mod.rel, f"{key} written",
                              f"the {key} of the computation is not written in "
                              "the parameters", line=n.lineno)
                prog = d["program"]
                if isinstance(prog, ast.Constant):
                    names = supported(ctx)
                    if names:
                        ctx.check(
                            prog.value in names, "R01.modules", mod.rel,
                            "program", f"{prog.value!r} is not a program "
                            "supported by run_from_xml", line=n.lineno)
    f = ctx.p.module("run_from_xml").funcs.get("main")
    if f is not None:
        read = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and base_call(n) == "import_class":
                keys = [
                    x.slice.value for a in n.args for x in ast.walk(a)
                    if isinstance(x, ast.Subscript)
                    and isinstance(x.slice, ast.Constant)]
                if len(keys) == 2:
                    ctx.check(
                        keys == ["module", "class"], "R01.modules", f.short,
                        "import_class", "the class of the computation is not the "
                        f"one written in the parameters (read: {keys})",
                        line=n.lineno)
                    read[n] = keys
    # backends
    mod = ctx.p.module("works.preproc")
    names = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            doc = ast.get_docstring(n) or ""
            for m in re.finditer(r"backend\s*:\s*\{([^}]*)\}", doc):
                names |= {
                    x.strip().strip("'\"") for x in m.group(1).split(",")}
        if isinstance(n, ast.FunctionDef):
            for a, d in zip(reversed(n.args.args), reversed(n.args.defaults)):
                if a.arg == "backend" and isinstance(d, ast.Constant):
                    names.add(d.value)
    f = mod.funcs.get("_get_backend_class")
    if f is None or not names:
        ctx.maybe("R01.modules", mod.rel, "backends")
    else:
        arg = f.node.args.args[0].arg
        res = {}
        for name in sorted(x for x in names if isinstance(x, str)):
            outs = run(ctx, f, {arg: const(name)})
            rets = [o.val for o in outs if o.kind == "return"]
            ctx.check(
                rets and all(v[0] in ("class", "ext", "call", "item", "attr")
                             for v in rets),
                "R01.modules", f.short, f"backend {name}",
                f"the backend {name!r} leads to no class")
            for v in rets:
                if v[0] == "class":
                    ctx.check(
                        res.setdefault(v, name) == name, "R01.modules", f.short,
                        f"backend {name} alone",
                        f"the backends {name!r} and {res[v]!r} give the same "
                        "class")
        outs = run(ctx, f, {arg: const("<unknown>")})
        ctx.check(all(o.kind == "raise" for o in outs), "R01.modules", f.short,
                  "unknown backend", "an unknown backend is accepted")


def supported(ctx):
    m = ctx.p.module("run_from_xml")
    v = m.globals.get("supported_programs")
    if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
        return [x.value for x in v.elts if isinstance(x, ast.Constant)]
    return None
