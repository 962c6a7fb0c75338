"""P01: the tools of the preprocessing applied as requested."""

import ast
import math

from ..algebra import A, K, Poly, poly
from ..interp import Interp, Policy, State, const, is_const
from ..project import AnalysisBroken
from . import register

NONE = const(None)


def strings_of(node):
    """names listed by a literal (None: not understood)"""
    if isinstance(node, list):
        node = node[-1] if node else None
    if isinstance(node, (ast.Assign, ast.AnnAssign)):
        node = node.value
    if isinstance(node, (ast.List, ast.Tuple)):
        if all(isinstance(e, ast.Constant) and isinstance(e.value, str)
               for e in node.elts):
            return [e.value for e in node.elts]
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = strings_of(node.left), strings_of(node.right)
        if a is not None and b is not None:
            return a + b
    return None


class Backend:
    def __init__(self, p, cls):
        self.p = p
        self.cls = cls
        self.mod = None
        m = cls.find_method("_get_backend")
        if m is None:
            return
        I = Interp(p, Policy())
        for o in I.run(m, args={}, self_term=("class", cls.qual), st=State()):
            v = I.deref(o.val, o.st)
            if o.kind == "return" and v[0] == "mod":
                self.mod = p.modules.get(v[1])
        self.names = None
        if self.mod is not None:
            self.names = strings_of(self.mod.globals.get("__all__"))
        self.term = ("mod", self.mod.name) if self.mod is not None else None

    def func(self, name):
        return self.mod.funcs.get(name) if self.mod is not None else None

    def params(self, name):
        f = self.func(name)
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]

    def is_list(self, t):
        """term of the list of the tools"""
        return t in (("attr", self.term, "__all__"),
                     ("glob", self.mod.name, "__all__")) or (
            t[0] in ("tuple", "list") and bool(self.names) and
            t[1] == tuple(const(n) for n in self.names))

    def module_dict(self, t):
        return t == ("attr", self.term, "__dict__") or (
            t[0] == "call" and t[1] == ("ext", "vars") and
            t[2][:1] == (self.term,))

    def tool_of(self, t, classes=(), instance=None):
        """name of the tool denoted by a term; ("instance", name) when it is
        got from the instance; None: not understood"""
        if t[0] == "func":
            f = self.p.funcs_by_key.get(t[1])
            if f is not None and f.module is self.mod and \
                    self.mod.funcs.get(f.name) is f:
                return f.name
            return None
        x = n = None
        if t[0] == "item" and is_const(t[2]):
            d, n = t[1], t[2][1]
            if d == ("ext", "__dict__"):    # only read from the backend
                return n
            if d[0] == "attr" and d[2] == "__dict__":
                x = d[1]
            elif d[0] == "call" and d[1] == ("ext", "vars") and d[2]:
                x = d[2][0]
        elif t[0] == "attr":
            x, n = t[1], t[2]
        elif t[0] == "call" and t[1] == ("ext", "getattr") and len(t[2]) > 1 \
                and is_const(t[2][1]):
            x, n = t[2][0], t[2][1][1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
                "get", "__getitem__") and t[2] and is_const(t[2][0]):
            return self.tool_of(("item", t[1][1], t[2][0]), classes, instance)
        if x is None:
            return None
        if x == self.term or x in classes:
            return n
        if x == instance:
            return ("instance", n)
        return None


def backends(p):
    base = p.find_class("PreprocToolsBase")
    if isinstance(base, list):
        base = base[0]
    res = []
    for cls in p.subclasses(base.qual):
        if cls is base:
            continue
        b = Backend(p, cls)
        if b.mod is not None:
            res.append(b)
    return res


class ToolPolicy(Policy):
    """the loops over the list of the tools take the names of this list"""
    max_states = 20000
    soft_states = 4000

    def __init__(self, b, names, P=None):
        self.b = b
        self.names = names
        self.P = P

    def enum_loop(self, it):
        if self.b.is_list(it):
            return [const(n) for n in self.names]
        return None

    def should_inline(self, func, interp, st):
        # the tools themselves are opaque
        return func.module is not self.b.mod

    def on_call(self, I, fv, args, kwargs, st, node):
        b = self.b
        if fv[0] == "attr" and fv[2] == "_make_dict_attribs" and \
                self.P is not None and fv[1][0] in ("item", "attr") and \
                fv[1][1] == self.P:
            n = fv[1][2]
            if is_const(n):
                n = n[1]
            if isinstance(n, str) and b.func(n) is not None:
                t = ("dict", I.uid(node, st))
                st.heap[(t, "#items")] = tuple(
                    (const(k), ("attr", fv[1], k))
                    for k in ["enable"] + b.params(n))
                return [(t, st)]
        if fv in (("ext", "inspect.getcallargs"),) and args:
            n = b.tool_of(args[0])
            if isinstance(n, str) and b.func(n) is not None:
                t = ("dict", I.uid(node, st))
                st.heap[(t, "#items")] = ((const("img"), NONE),) + tuple(
                    (const(k), ("default", n, k)) for k in b.params(n))
                return [(t, st)]
        if fv in (("ext", "sorted"), ("ext", "set"), ("ext", "frozenset")) \
                and args:
            a = I.deref(args[0], st)
            if a[0] in ("tuple", "list") and isinstance(a[1], tuple) and a[1] \
                    and all(is_const(x) for x in a[1]):
                # a set: no defined order (the alphabetical one is taken)
                rev = dict(kwargs).get("reverse") == const(True)
                v = tuple(sorted(a[1], key=lambda x: str(x[1]), reverse=rev))
                return [(("tuple", v), st)]
        return None


def some_tools(b):
    """three tools which are not in alphabetical order"""
    names = [n for n in b.names if b.func(n) is not None]
    for n in names[2:]:
        if n < names[1]:
            return [names[0], names[1], n]
    return names[:3]


@register("P01")
def p01_registry(ctx):
    p = ctx.p
    r = "P01.registry"
    ctx.rule(r, "each tool listed by a backend is one of its functions, which "
             "takes the image first and has default values for all its parameters",
             8)
    seen = {}
    for b in backends(p):
        where = b.cls.name
        if b.mod.name in seen:
            ctx.bad(r, where, b.mod.name,
                    f"{where} uses the functions of {seen[b.mod.name]}")
        seen[b.mod.name] = where
        if b.names is None:
            ctx.maybe(r, where, "__all__", "the list of the tools is not a literal")
            continue
        for n in b.names:
            f = b.func(n)
            if b.names.count(n) > 1:
                ctx.bad(r, where, n, f"{n} is listed twice: applied twice by "
                        "default")
                continue
            if f is None:
                if n in b.mod.globals or n in getattr(b.mod, "imports", {}):
                    ctx.maybe(r, where, n, "not a function of the module")
                else:
                    ctx.bad(r, where, n, f"{b.mod.name}.__all__ contains {n}, "
                            "which is not defined in this module")
                continue
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            ctx.functions.add(f.qual)
            if not names or names[0] != "img":
                ctx.bad(r, f.short, n, "the image is not the first argument")
            elif len(a.defaults) < len(names) or any(
                    d is None for d in a.kw_defaults):
                ctx.bad(r, f.short, n, "argument without default value: the "
                        "default parameters cannot be created")
            elif "enable" in names:
                ctx.bad(r, f.short, n, "the argument 'enable' never reaches the "
                        "tool")
            else:
                ctx.ok(r, f.short, n)


def chain(v, b, classes, self_t, img, copies):
    """applied tools, from the first one: (names, kwargs) or None"""
    res = []
    while v != img:
        if v[0] != "call":
            return None
        if v[1] in copies and v[2]:
            v = v[2][0]
            continue
        n = b.tool_of(v[1], classes, self_t)
        if n is None:
            return None
        args = v[2]
        kw = dict(v[3])
        if args:
            nxt = args[0]
            pos = args[1:]
        else:
            nxt = kw.pop("img", None)
            pos = ()
        if nxt is None:
            return None
        res.append((n, pos, kw))
        v = nxt
    return res[::-1]


COPIES = {("ext", "numpy.asarray"), ("ext", "numpy.array"),
          ("ext", "numpy.asanyarray"), ("ext", "numpy.copy")}


@register("P01")
def p01_apply(ctx):
    p = ctx.p
    r = "P01.apply"
    ctx.rule(r, "apply: the enabled tools of the sequence (of all the tools "
             "without sequence) and only them, once each and in this order, on "
             "the result of the previous one with their own parameters", 8)
    for b in backends(p):
        if not b.names:
            continue
        tools = some_tools(b)
        if len(tools) < 2:
            continue
        f = b.cls.find_method("apply")
        init = b.cls.find_method("__init__")
        if f is None or init is None:
            raise AnalysisBroken(f"{b.cls.name}: no method apply or __init__")
        for label, seq, expected in (
                ("sequence None", None, tools),
                ("given sequence", (tools[-1], tools[0]),
                 [tools[-1], tools[0]])):
            self_t = ("obj", "self", b.cls.qual)
            par = ("sym", "params")
            P = ("attr", par, "tools")
            pol = ToolPolicy(b, tools, P)
            I = Interp(p, pol)
            st = State()
            st.heap[(P, "sequence")] = NONE if seq is None else (
                "tuple", tuple(const(n) for n in seq))
            st.heap[(P, "available_tools")] = (
                "tuple", tuple(const(n) for n in tools))
            a = init.node.args
            pn = [x.arg for x in a.posonlyargs + a.args][1]
            img = ("sym", "img")
            fn = [x.arg for x in f.node.args.args][1]
            sts = [o.st for o in I.run(init, args={pn: par}, self_term=self_t,
                                       st=st) if o.kind in ("next", "return")]
            classes = [("class", b.cls.qual), ("attr", self_t, "__class__"),
                       ("call", ("ext", "type"), (self_t,), (), None)]
            n_paths = 0
            for s in sts[:1]:
                for o in I.run(f, args={fn: img}, self_term=self_t, st=s):
                    if o.kind == "raise":
                        continue
                    n_paths += 1
                    facts = {}
                    for n in tools:
                        for t in (("attr", ("item", P, const(n)), "enable"),
                                  ("attr", ("attr", P, n), "enable")):
                            v = o.st.facts.get(t)
                            if v is None and ("cmp", "is", t, const(True)
                                              ) in o.st.facts:
                                v = o.st.facts[("cmp", "is", t, const(True))]
                            if v is not None:
                                facts[n] = v
                    val = I.deref(o.val, o.st)
                    done = chain(val, b, classes, self_t, img, COPIES)
                    if done is None:
                        if val == NONE or o.kind == "next":
                            ctx.bad(r, f.short, f"{label}: nothing returned",
                                    "apply returns no image on a path")
                        else:
                            ctx.maybe(r, f.short, label,
                                      "the returned value is not understood")
                        continue
                    names = [d[0] for d in done]
                    inst = [n for n in names if isinstance(n, tuple)]
                    if inst:
                        if not stored_static(p, b):
                            ctx.bad(r, f.short, f"{label}: from the instance",
                                    f"{inst[0][1]} is got from the instance: it "
                                    "receives the object instead of the image")
                            continue
                        names = [n[1] if isinstance(n, tuple) else n
                                 for n in names]
                    want = [n for n in expected if facts.get(n)]
                    unknown = [n for n in expected if n not in facts]
                    if unknown and (set(unknown) & set(names)):
                        n = next(x for x in unknown if x in names)
                        ctx.bad(r, f.short, f"{label}: not tested",
                                f"{label}: a tool ({n}) is applied whereas its "
                                "parameter 'enable' is not tested")
                    elif unknown:
                        ctx.bad(r, f.short, f"{label}: tools never reached",
                                f"{label}: {unknown} of the sequence are not "
                                "considered on a path")
                    elif names != want:
                        ctx.bad(r, f.short, f"{label}: tools applied",
                                f"{label}: with {want} enabled (of {expected}), "
                                f"the tools applied are {names}")
                    else:
                        okk = True
                        for n, pos, kw in done:
                            n = n[1] if isinstance(n, tuple) else n
                            okk &= check_kwargs(ctx, r, f, b, P, n, pos, kw,
                                                label, o.st)
                        if okk:
                            ctx.ok(r, f.short, f"{b.cls.name}, {label}: {want}")
            ctx.states += n_paths
            ctx.functions.add(f.qual)


def check_kwargs(ctx, r, f, b, P, n, pos, kw, label, st):
    if pos:
        ctx.maybe(r, f.short, label, "parameters given by position")
        return False
    if "**" in kw and st.heap.get((kw["**"], "#items")) == ():
        kw = {k: v for k, v in kw.items() if k != "**"}
    if "**" in kw:
        ctx.maybe(r, f.short, label, "parameters not enumerated")
        return False
    want = set(b.params(n))
    if set(kw) != want:
        extra, less = sorted(set(kw) - want), sorted(want - set(kw))
        ctx.bad(r, f.short, "parameters of the tools",
                f"{n}: " + (f"unexpected {extra} " if extra else "") + (
                    f"missing {less}" if less else ""))
        return False
    for k, v in kw.items():
        if v not in (("attr", ("item", P, const(n)), k),
                     ("attr", ("attr", P, n), k)):
            ctx.bad(r, f.short, "values of the parameters",
                    f"{n}: the argument {k} is not the parameter {k} of {n}")
            return False
    return True


def stored_static(p, b):
    m = b.cls.find_method("_complete_class_with_tools")
    return m is not None and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
        and n.func.id == "staticmethod" for n in ast.walk(m.node))


@register("P01")
def p01_class(ctx):
    p = ctx.p
    r = "P01.class"
    ctx.rule(r, "each class of tools is completed with the functions of its own "
             "backend, under their names", 2)
    for b in backends(p):
        if not b.names:
            continue
        m = b.cls.find_method("_complete_class_with_tools")
        if m is None:
            ctx.ok(r, b.cls.name, "no dynamic completion")
            continue
        called = False
        for mod in p.modules.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == m.name:
                    v = n.func.value
                    if isinstance(v, ast.Name):
                        t = p.resolve(mod, v.id)
                        if t == ("class", b.cls.qual):
                            called = True
                        elif t[0] != "class":
                            # variable (loop over the classes, class decorator,
                            # __init_subclass__)
                            called = True
                    else:
                        called = True
        if not called:
            ctx.bad(r, b.cls.name, m.name,
                    f"{b.cls.name} is not completed with its tools: apply fails")
            continue
        names = [n for n in b.names if b.func(n) is not None]
        I = Interp(p, ToolPolicy(b, names))
        cterm = ("class", b.cls.qual)
        for o in I.run(m, args={}, self_term=cterm, st=State()):
            if o.kind == "raise":
                continue
            got = {}
            odd = False
            other = None
            for e in o.st.trace:
                if (e.kind == "setattr" and e.a[0] != cterm
                        and e.a[0][0] == "class" and b.func(e.a[1])):
                    other = e.a[0][1]
                elif (e.kind == "call" and e.a[0] == ("ext", "setattr")
                      and e.a[1][0] != cterm and e.a[1][0][0] == "class"):
                    other = e.a[1][0][1]
                if e.kind == "setattr" and e.a[0] == cterm:
                    got[e.a[1]] = e.a[2]
                elif e.kind == "call" and e.a[0] == ("ext", "setattr") and \
                        e.a[1][0] == cterm:
                    k = e.a[1][1]
                    if is_const(k):
                        got[k[1]] = e.a[1][2]
                    else:
                        odd = True
            if other is not None:
                ctx.bad(r, m.short, "class completed",
                        f"the tools of {b.cls.name} are set on another class "
                        f"({other.rpartition('.')[2]}), shared by the backends")
                continue
            if odd or not got:
                ctx.maybe(r, m.short, b.cls.name, "attributes not enumerated")
                continue
            bad = False
            for n in names:
                v = got.get(n)
                if v is not None and v[0] == "call" and v[1] == (
                        "ext", "staticmethod") and v[2]:
                    v = v[2][0]
                if v is None:
                    bad = True
                    ctx.bad(r, m.short, "missing tools",
                            f"{b.cls.name}: {n} is not added to the class")
                    break
                t = b.tool_of(v)
                if t is not None and t != n:
                    bad = True
                    ctx.bad(r, m.short, "name of the tool",
                            f"{b.cls.name}.{n} is {t}")
                    break
            if not bad:
                ctx.ok(r, m.short, b.cls.name)
            ctx.functions.add(m.qual)


@register("P01")
def p01_params(ctx):
    p = ctx.p
    r = "P01.params"
    ctx.rule(r, "the parameters of each tool are the arguments of its function, "
             "with the same default values, and 'enable' (False)", 4)
    for b in backends(p):
        if not b.names:
            continue
        m = b.cls.find_method("create_default_params")
        if m is None:
            raise AnalysisBroken(f"{b.cls.name}.create_default_params")
        alltools = [n for n in b.names if b.func(n) is not None]
        par = ("sym", "params")
        a = [x.arg for x in m.node.args.args]
        ctx.functions.add(m.qual)
        outs = []
        # each tool alone, and two of them
        for tools in [[n] for n in alltools] + [alltools[:2]]:
            I = Interp(p, ToolPolicy(b, tools))
            outs += [(tools, o) for o in I.run(
                m, args={a[-1]: par}, self_term=("class", b.cls.qual),
                st=State()) if o.kind != "raise"]
        ctx.states += len(outs)
        for tools, o in outs:
            got = {}
            listed = None
            order = []
            for e in o.st.trace:
                if e.kind != "call" or e.a[0][0] != "attr" or \
                        e.a[0][2] != "_set_child":
                    continue
                args, kw = e.a[1], dict(e.a[2])
                n = args[0] if args else kw.get("tag")
                at = args[1] if len(args) > 1 else kw.get("attribs")
                if n is None or not is_const(n):
                    continue
                items = None
                if at is not None and at[0] == "dict":
                    items = snapshot(e, at, o.st)
                elif at is not None and at[0] == "cdict":
                    items = at[1]
                if n[1] in tools:
                    got[n[1]] = items
                    order.append(n[1])
                elif items is not None and any(
                        k == const("available_tools") for k, _ in items):
                    listed = dict(items)
            if listed is not None:
                v = listed.get(const("available_tools"))
                if v is not None and not b.is_list(v) and not (
                        v[0] in ("list", "tuple", "call", "comp")):
                    ctx.bad(r, m.short, "available_tools",
                            "the available tools are not the list of the backend")
            if not got:
                ctx.maybe(r, m.short, b.cls.name, "no child for the tools")
                continue
            for n in tools:
                if n not in got:
                    ctx.bad(r, m.short, "tools without parameters",
                            f"{b.cls.name}: no parameters created for {n}")
                    continue
                items = got[n]
                if items is None:
                    ctx.maybe(r, m.short, n, "attributes not enumerated")
                    continue
                d = {k[1]: v for k, v in items if is_const(k)}
                want = set(b.params(n)) | {"enable"}
                if set(d) != want:
                    ctx.bad(r, m.short, "names of the parameters",
                            f"{n}: unexpected {sorted(set(d) - want)}, missing "
                            f"{sorted(want - set(d))}")
                    continue
                if d["enable"] != const(False):
                    ctx.bad(r, m.short, "enable",
                            "the tools are not disabled by default")
                    continue
                wrong = [k for k in b.params(n) if d[k][0] == "default" and
                         d[k] != ("default", n, k)]
                if wrong:
                    ctx.bad(r, m.short, "default values",
                            f"{n}: the default value of {wrong[0]} is the one of "
                            f"{d[wrong[0]][1]}.{d[wrong[0]][2]}")
                    continue
                ctx.ok(r, m.short, f"{b.cls.name}: {n}")


def snapshot(e, t, st):
    items = st.heap.get((t, "#items"))
    return items


def tool_decorators(p):
    """decorators of the tools: function -> tools"""
    res = {}
    for b in backends(p):
        for n in b.names or ():
            f = b.func(n)
            if f is None:
                continue
            for d in f.node.decorator_list:
                if isinstance(d, ast.Name):
                    t = p.resolve(b.mod, d.id)
                    if t[0] == "func" and t[1] in p.funcs_by_key:
                        res.setdefault(p.funcs_by_key[t[1]], []).append(f)
    return res


@register("P01")
def p01_images(ctx):
    p = ctx.p
    r = "P01.images"
    ctx.rule(r, "the decorators of the tools give each image to the tool, with "
             "all its parameters, and put the result at the place of this image",
             4)
    decs = tool_decorators(p)
    for f, tools in decs.items():
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg is None or a.kwarg is None or not names:
            ctx.maybe(r, f.short, "", "not a decorator of functions with any "
                      "arguments")
            continue
        iterates = False
        outs_all = []
        for bykw in (False, True):
            I = Interp(p, Policy())
            st = State()
            d = ("dict", "kwargs")
            img = ("sym", "img")
            st.heap[(d, "#items")] = ((const("k"), ("sym", "v")),) + (
                ((const("img"), img),) if bykw else ())
            args = ("tuple", () if bykw else (img, ("sym", "a1")))
            outs = I.run(f, args={names[0]: ("sym", "tool"), a.vararg.arg: args,
                                  a.kwarg.arg: d}, st=st)
            ctx.states += len(outs)
            for o in outs:
                if o.kind == "raise":
                    continue
                outs_all.append((bykw, I, o))
                if any(e.kind == "iter" and over(e.a[0], img)
                       for e in o.st.trace):
                    iterates = True
        ctx.functions.add(f.qual)
        img = ("sym", "img")
        for bykw, I, o in outs_all:
            judge_images(ctx, r, f, bykw, I, o, img, iterates)


def over(it, img):
    """the loop is over the images"""
    while it[0] == "call" and it[2] and (
            it[1][0] == "ext" and it[1][1] in (
                "enumerate", "zip", "list", "tuple", "iter", "range", "len",
                "numpy.asarray", "numpy.array")):
        for x in it[2]:
            if x == img:
                return True
        it = it[2][0]
    return it == img or (it[0] == "attr" and it[1] == img)


def place(t, img):
    """index of the image in a term (element or index), or None"""
    found = set()

    def walk(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] in ("elem", "idx") and len(x) > 2 and over(x[1], img):
            found.add(x[2])
            return
        if x[0] == "op" or (x[0] == "call" and x[1] != ("ext", "slice")
                            and x[1] not in COPIES):
            sub = set()
            for y in x:
                sub |= place(y, img)
            if sub:
                found.add(("shifted", repr(x)[:40]))
            return
        if x[0] == "item" and x[1] == img:
            walk(x[2])
            if is_const(x[2]):
                found.add(x[2][1])
            return
        for y in x:
            walk(y)
    walk(t)
    return found


def judge_images(ctx, r, f, bykw, I, o, img, iterates):
    label = "keyword" if bykw else "position"
    calls = [e for e in o.st.trace if e.kind == "call"
             and e.a[0] == ("sym", "tool")]
    iters = [e for e in o.st.trace if e.kind == "iter" and over(e.a[0], img)]
    ended = any(e.kind == "exhausted" and over(e.a[0], img)
                for e in o.st.trace)
    val = I.deref(o.val, o.st)
    good = []
    for e in calls:
        args, kw = e.a[1], dict(e.a[2])
        if bykw:
            x = kw.pop("img", None)
            rest = tuple(args)
        else:
            x = args[0] if args else None
            rest = tuple(args[1:])
        if x is None:
            ctx.bad(r, f.short, f"image given by {label}",
                    "the tool is called without image")
            return
        if "**" in kw or any(y[0] == "star" for y in rest):
            ctx.maybe(r, f.short, label, "arguments not enumerated")
            return
        if kw != {"k": ("sym", "v")} or rest != (
                () if bykw else (("sym", "a1"),)):
            ctx.bad(r, f.short, f"parameters ({label})",
                    "parameters of the tool are lost or modified: "
                    f"{len(rest)} by position, {sorted(kw)} by keyword")
            return
        good.append((x, e.a[3]))
    if not iters:
        if ended and iterates and not calls:
            return          # no image
        if not calls:
            ctx.bad(r, f.short, f"no call ({label})",
                    "images are returned without having been processed")
            return
        if len(calls) > 1:
            ctx.bad(r, f.short, f"several calls ({label})",
                    "the tool is applied several times to the same image")
            return
        x, res = good[0]
        if strip(x) != img:
            ctx.bad(r, f.short, f"image ({label})",
                    "the tool does not receive the images")
            return
        two = number_of_dims(o.st.facts, img)
        if iterates and two is False:
            ctx.bad(r, f.short, f"whole series ({label})",
                    "a series of images is given at once to a tool for one image")
            return
        if val == res or (val[0] == "call" and res in val[2]):
            ctx.ok(r, f.short, f"one call ({label})")
        elif val in (NONE, img) or (not inside(res, val) and not any(
                e.kind == "setitem" and inside(res, e.a[2])
                for e in o.st.trace)):
            ctx.bad(r, f.short, f"result ({label})",
                    "the result of the tool is not returned")
        else:
            ctx.maybe(r, f.short, label, "returned value not understood")
        return
    if not ended:
        ctx.bad(r, f.short, f"end of the loop ({label})",
                "the loop stops before the last image")
        return
    idx = []
    for x, res in good:
        k = place(strip(x), img)
        if any(not isinstance(i, int) for i in k):
            ctx.maybe(r, f.short, label, "image not understood")
            return
        if len(k) != 1:
            if strip(x) == img:
                ctx.bad(r, f.short, f"image ({label})",
                        "the whole series is given to the tool for each image")
            else:
                ctx.maybe(r, f.short, label, "image not understood")
            return
        idx.append((next(iter(k)), res))
    n = len(iters)
    if sorted(i for i, _ in idx) != list(range(n)):
        ctx.bad(r, f.short, f"images processed ({label})",
                f"images {sorted(i for i, _ in idx)} processed of {n}")
        return
    by = {res: i for i, res in idx}
    stored = {}
    for e in o.st.trace:
        if e.kind == "setitem" and e.a[2] in by:
            base, key = e.a[0], e.a[1]
            k = place(key, img)
            b = base
            if b[0] == "elem":
                k = {b[2]}
                b = b[1]
            if b[0] == "call" and b[1] == ("ext", "zip"):
                b = b[2][0]
            if b != val and not (val[0] == "call" and b in val[2]):
                continue
            if len(k) != 1:
                ctx.bad(r, f.short, f"place ({label})",
                        "the result for an image is not put at its index")
                return
            if next(iter(k)) != by[e.a[2]]:
                ctx.bad(r, f.short, f"place ({label})",
                        "the result for an image is put at the place of another")
                return
            stored[by[e.a[2]]] = True
    if not stored:
        lst = val[2][0] if val[0] == "call" and val[2] else val
        items = o.st.heap.get((lst, "#items")) if lst[0] == "list" else (
            lst[1] if lst[0] == "tuple" else None)
        if items is not None:
            if [by.get(x) for x in items] == list(range(n)):
                ctx.ok(r, f.short, f"{n} images ({label})")
            else:
                ctx.bad(r, f.short, f"place ({label})",
                        "the results are not those of the images in order")
            return
        if val == img or val == NONE:
            ctx.bad(r, f.short, f"result ({label})",
                    "the results of the tool are not returned")
            return
        ctx.maybe(r, f.short, label, "place of the results not understood")
        return
    if len(stored) != n:
        ctx.bad(r, f.short, f"images stored ({label})",
                f"results stored for {sorted(stored)} of {n} images")
        return
    ctx.ok(r, f.short, f"{n} images ({label})")


def inside(t, x):
    return x == t or (isinstance(x, tuple) and any(inside(t, y) for y in x))


def number_of_dims(facts, img):
    """whether the facts imply only one image (None: not understood)"""
    nd = {("attr", img, "ndim"), ("call", ("ext", "len"), (
        ("attr", img, "shape"),), (), None), ("call", ("ext", "numpy.ndim"), (
            img,), (), None)}
    known = False
    possible = {2, 3}
    for t, v in facts.items():
        if t[0] != "cmp" or ("ndim" not in str(t) and "shape" not in str(t)):
            continue
        a, b = t[2], t[3]
        op = t[1]
        if is_const(a):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not any(a[:3] == x[:3] for x in nd) or not is_const(b) or \
                not isinstance(b[1], int):
            known = None
            continue
        ops = {"==": lambda n: n == b[1], "!=": lambda n: n != b[1],
               "<": lambda n: n < b[1], ">": lambda n: n > b[1],
               "<=": lambda n: n <= b[1], ">=": lambda n: n >= b[1]}
        if op not in ops:
            known = None
            continue
        possible = {n for n in possible if ops[op](n) == v}
    if 3 not in possible:
        return True
    return None if known is None else False


def strip(x):
    while x[0] == "call" and x[1] in COPIES and x[2]:
        x = x[2][0]
    return x


@register("P01")
def p01_dims(ctx):
    """tools which refuse one image are not given images one by one"""
    p = ctx.p
    r = "P01.dims"
    ctx.rule(r, "a tool which receives the images one by one accepts one image",
             4)
    decs = tool_decorators(p)
    for f, tools in decs.items():
        a = f.node.args
        if a.vararg is None:
            continue
        I = Interp(p, Policy())
        st = State()
        d = ("dict", "kwargs")
        st.heap[(d, "#items")] = ()
        img = ("sym", "img")
        names = [x.arg for x in a.posonlyargs + a.args]
        outs = I.run(f, args={names[0]: ("sym", "tool"), a.vararg.arg: (
            "tuple", (img,)), a.kwarg.arg: d}, st=st)
        iterates = any(e.kind == "iter" and over(e.a[0], img)
                       for o in outs for e in o.st.trace)
        for t in tools:
            I = Interp(p, Policy())
            st = State()
            im = ("sym", "image")
            shape = ("tuple", (("sym", "ny"), ("sym", "nx")))
            if not iterates:
                shape = ("tuple", (("sym", "nt"),) + shape[1])
            st.heap[(im, "shape")] = shape
            st.heap[(im, "ndim")] = const(len(shape[1]))
            try:
                outs = I.run(t, args={"img": im}, st=st)
            except AnalysisBroken:
                ctx.maybe(r, t.short, "", "too many paths")
                continue
            ctx.functions.add(t.qual)
            if outs and all(o.kind == "raise" for o in outs):
                ctx.bad(r, t.short, "number of images",
                        f"decorated by {f.name}, {t.name} always fails: it "
                        f"receives an array of {len(shape[1])} dimensions")
            else:
                ctx.ok(r, t.short, f.name)


def half_poly(parity):
    """polynomial form of terms of Ni = 2 h + parity and Nj"""
    H = A("h")

    def floor(q, up=False):
        c = q.d.get((), 0)
        rest = {k: v for k, v in q.d.items() if k}
        if any(v != int(v) for v in rest.values()):
            return None
        rest[()] = math.ceil(c) if up else math.floor(c)
        return Poly(rest)

    def rewrite(t):
        if t == ("sym", "Ni"):
            return K(2) * H + K(parity)
        if t == ("sym", "Nj"):
            return A("Nj")
        if t[0] == "op" and t[1] == "%" and is_const(t[3]) and t[3][1] == 2:
            q = poly(t[2], rewrite)
            c = q.d.get((), 0)
            if all(v % 2 == 0 for k, v in q.d.items() if k):
                return K(c % 2)
        if t[0] == "op" and t[1] == "&" and t[3] == const(1):
            return rewrite(("op", "%", t[2], const(2)))
        if t[0] == "op" and t[1] == "//" and is_const(t[3]) and t[3][1]:
            q = poly(t[2], rewrite)
            return floor(Poly({k: v / t[3][1] for k, v in q.d.items()}))
        if t[0] == "op" and t[1] == ">>" and t[3] == const(1):
            return rewrite(("op", "//", t[2], const(2)))
        if t[0] == "call" and t[1][0] == "ext" and t[2]:
            n = t[1][1]
            if n in ("math.floor", "numpy.floor", "int"):
                return floor(poly(t[2][0], rewrite))
            if n in ("math.ceil", "numpy.ceil"):
                return floor(poly(t[2][0], rewrite), up=True)
            if n == "float":
                return poly(t[2][0], rewrite)
        return None
    return lambda t: Poly({k: v for k, v in poly(t, rewrite).d.items() if v})


def agrees(facts, form):
    """False if a fact about the parity is false, None if not understood"""
    for t, v in facts.items():
        if "Ni" not in str(t):
            continue
        if t[0] == "cmp" and t[1] in ("==", "!=", "<", ">", ">=", "<="):
            d = (form(t[2]) - form(t[3])).const()
            if d is None:
                return None
            val = {"==": d == 0, "!=": d != 0, "<": d < 0, ">": d > 0,
                   ">=": d >= 0, "<=": d <= 0}[t[1]]
        else:
            d = form(t).const()
            if d is None:
                return None
            val = d != 0
        if val != v:
            return False
    return True


class CountPolicy(Policy):
    """numbers of indices of the series"""

    def on_call(self, I, fv, args, kwargs, st, node):
        if fv[0] == "func" and fv[1] is not None:
            f = I.p.funcs_by_key.get(fv[1])
            if f is not None and f.name == "get_Ni_Nj":
                return [(("tuple", (("sym", "Ni"), ("sym", "Nj"))), st)]
        return None


def selection(val):
    """slices of the names and of the images of a returned dictionary"""
    if val[0] != "call" or val[1] != ("ext", "dict") or not val[2]:
        return None
    z = val[2][0]
    if z[0] == "call" and z[1] in (("ext", "list"), ("ext", "tuple")) and z[2]:
        z = z[2][0]
    if z[0] != "call" or z[1] != ("ext", "zip") or len(z[2]) != 2:
        return None
    res = []
    for x in z[2]:
        if x[0] == "item" and x[2][0] == "call" and x[2][1] == (
                "ext", "slice"):
            s = x[2][2]
            res.append((x[1], (NONE,) + s if len(s) == 1 else s))
        elif x[0] == "item" and x[2][0] == "slice":
            res.append((x[1], tuple(x[2][1:])))
        else:
            res.append((x, (NONE, NONE)))
    return res


@register("P01")
def p01_saved(ctx):
    p = ctx.p
    r = "P01.saved"
    ctx.rule(r, "each image of the results has its own name, and the images "
             "saved for the successive series (shifted by one along the first "
             "index) are all the images, once each", 6)
    w = p.find_class("WorkPreproc")
    w = w[0] if isinstance(w, list) else w
    # method which selects the images: the one called with the images
    m = w.find_method("_make_dict_to_save")
    if m is None:
        for x in w.methods.values():
            if any(isinstance(n, ast.Attribute) and n.attr == "nb_series"
                   for n in ast.walk(x.node)) and len(x.node.args.args) == 3:
                m = x
    if m is None:
        ctx.maybe(r, w.name, "", "selection of the images not found")
        return
    ctx.functions.add(m.qual)
    a = [x.arg for x in m.node.args.args][1:]
    serie, images = ("sym", "serie"), ("sym", "images")
    found = {}
    for label, ind, nb in (("single", 0, 1), ("first", 0, 3), ("middle", 1, 3),
                           ("last", 2, 3)):
        I = Interp(p, CountPolicy())
        st = State()
        st.heap[(serie, "ind_serie")] = const(ind)
        st.heap[(serie, "nb_series")] = const(nb)
        outs = I.run(m, args={a[0]: serie, a[1]: images},
                     self_term=("obj", "self", w.qual), st=st)
        ctx.states += len(outs)
        for o in outs:
            if o.kind == "raise":
                continue
            sel = selection(I.deref(o.val, o.st))
            if sel is None:
                ctx.maybe(r, m.short, label, "returned value not understood")
                continue
            (n, sn), (i, si) = sel
            if n != ("attr", serie, "names") or i != images:
                ctx.bad(r, m.short, "names and images",
                        "the dictionary is not made of the names and images of "
                        "the series")
                continue
            for parity in (0, 1):
                form = half_poly(parity)
                ag = agrees(o.st.facts, form)
                if ag is False:
                    continue
                if ag is None:
                    ctx.maybe(r, m.short, label, "condition not understood")
                    continue
                key = lambda s: tuple(  # noqa: E731
                    None if x == NONE else form(x) for x in s)
                kn, ki = key(sn), key(si)
                if kn != ki:
                    ctx.bad(r, m.short, "names and images",
                            f"{label} series: the images are saved under the "
                            "names of other images")
                    continue
                found.setdefault((label, parity), []).append(ki)
    for parity in (0, 1):
        lab = "odd" if parity else "even"
        get = {k[0]: v for k, v in found.items() if k[1] == parity}
        if any(len(v) != 1 for v in get.values()) or len(get) != 4:
            ctx.maybe(r, m.short, lab, "several selections")
            continue
        get = {k: v[0] for k, v in get.items()}
        get = {k: v[:2] if len(v) == 3 and v[2] is None else v
               for k, v in get.items()}
        if any(len(v) != 2 for v in get.values()):
            ctx.maybe(r, m.short, lab, "slices with steps")
            continue
        full = K(2) * A("h") * A("Nj") + K(parity) * A("Nj")

        def start(k):
            return Poly() if get[k][0] is None else get[k][0]

        def end(k):
            return full if get[k][1] is None else get[k][1]
        why = None
        if not start("single").is_zero() or \
                not (end("single") - full).is_zero():
            why = "images of a single series are not saved"
        elif not start("first").is_zero():
            why = "the first images are not saved"
        elif not (end("last") - full).is_zero():
            why = "the last images are not saved"
        else:
            # the series k covers the images shifted by k*Nj
            for x, y in (("first", "middle"), ("middle", "middle"),
                         ("middle", "last"), ("first", "last")):
                d = end(x) - (start(y) + A("Nj"))
                if not d.is_zero():
                    c = (Poly({k: v for k, v in d.d.items() if v}))
                    why = (f"{x} and {y} series: images not saved or saved "
                           f"several times (offset {show_poly(c)})")
                    break
        if why:
            ctx.bad(r, m.short, f"images saved, {lab} number of images", why)
        else:
            for k in get:
                ctx.ok(r, m.short, f"{k} series, {lab}")


def show_poly(q):
    return " + ".join(f"{v:g}" + "".join(f"*{a}" for a in k)
                      for k, v in sorted(q.d.items(), key=str))


@register("P01")
def p01_position(ctx):
    """the position of the series used to select the images is given"""
    p = ctx.p
    r = "P01.position"
    ctx.rule(r, "the positions of the series, from which the images to be saved "
             "are selected, are given where the objects are created", 1)
    w = p.find_class("WorkPreproc")
    w = w[0] if isinstance(w, list) else w
    cls = p.find_class("ArraySerie")
    cls = cls[0] if isinstance(cls, list) else cls
    init = cls.find_method("__init__")
    names = [x.arg for x in init.node.args.args][1:]
    nd = len(init.node.args.defaults)
    need = [n for n in ("ind_serie", "nb_series") if n in names[-nd:]]
    if len(need) != 2:
        ctx.ok(r, init.short, "positions required")
        return
    for f in p.all_funcs():
        if "topologies" not in f.module.name:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            t = None
            if isinstance(n.func, ast.Name):
                t = p.resolve(f.module, n.func.id)
            if t != ("class", cls.qual):
                continue
            ctx.functions.add(f.qual)
            kw = {k.arg for k in n.keywords}
            if None in kw or any(isinstance(x, ast.Starred) for x in n.args):
                ctx.maybe(r, f.short, cls.name, "arguments not enumerated")
                continue
            given = set(names[:len(n.args)]) | kw
            miss = [x for x in need if x not in given]
            if miss:
                ctx.bad(r, f.short, f"{cls.name}({', '.join(miss)} not given)",
                        "each subset is taken for a single series: all its "
                        "images are saved and the files of overlapping subsets "
                        "are written several times (the last one wins)",
                        line=n.lineno)
            else:
                ctx.ok(r, f.short, cls.name)


@register("P01")
def p01_used(ctx):
    """the tools use the image and all their parameters"""
    p = ctx.p
    r = "P01.used"
    ctx.rule(r, "the result of a tool is made from the image on all paths, and "
             "each parameter of the tool is used", 8)
    for b in backends(p):
        for n in b.names or ():
            f = b.func(n)
            if f is None:
                continue
            img = ("sym", "img")
            params = b.params(n)
            I = Interp(p, Policy())
            args = {k: ("sym", k) for k in params}
            args["img"] = img
            try:
                outs = I.run(f, args=args, st=State())
            except AnalysisBroken:
                ctx.maybe(r, f.short, "", "too many paths")
                continue
            ctx.functions.add(f.qual)
            ctx.states += len(outs)
            used = set()
            bad = None
            for o in outs:
                for k in params:
                    if k in used:
                        continue
                    t = ("sym", k)
                    if inside(t, o.val) or any(
                            inside(t, x) for x in o.st.facts) or any(
                            inside(t, e.a) for e in o.st.trace
                            if e.kind not in ("enter", "exit")):
                        used.add(k)
                if o.kind == "raise":
                    continue
                v = I.deref(o.val, o.st)
                if v == NONE or o.kind == "next":
                    bad = ("nothing returned", f"{n} returns nothing on a path")
                elif is_const(v):
                    bad = ("constant returned", f"{n} returns a constant")
            if bad is None:
                miss = [k for k in params if k not in used]
                if miss:
                    bad = (f"{miss[0]} not used",
                           f"the parameter {miss[0]} of {n} has no effect")
            if bad:
                ctx.bad(r, f.short, *bad)
            else:
                ctx.ok(r, f.short, n)
