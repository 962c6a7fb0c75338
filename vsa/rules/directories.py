"""T04: choice of the directory of the results"""

import ast

from ..framework import fmt_trace
from ..interp import Interp, Policy, State
from ..paths import canon, split_path
from ..project import AnalysisBroken
from ..terms import (
    FALSE, NONE, TRUE, const, contains, contains_if, is_const, map_term, mk_fstr,
    show, walk,
)
from . import register

MODES = ("ask", "new_dir", "complete", "recompute", "from_path_indices")
ANSWERS = {"n": "new_dir", "c": "complete", "r": "recompute", "s": "stop"}


class DirPolicy(Policy):
    """the answers of the user are given; the rest is symbolic"""

    unroll = 2
    max_states = 3000

    def __init__(self, answers=()):
        self.answers = answers

    def should_inline(self, func, interp, st):
        return func.module.name.startswith("fluidimage.topologies")

    def on_call(self, interp, fterm, args, kwargs, st, node):
        if is_query(fterm):
            n = st.heap.get(("#queries", "n"), 0)
            st.heap[("#queries", "n")] = n + 1
            a = self.answers[min(n, len(self.answers) - 1)] if self.answers else None
            v = const(a) if a is not None else ("sym", "answer")
            interp.emit(st, "call", (fterm, tuple(args), (), v), node)
            return [(v, st)]
        return None


class DirInterp(Interp):
    """remembers the concatenations made with the path given by the user"""

    def __init__(self, project, policy):
        super().__init__(project, policy)
        self.concat = []

    def binop(self, op, a, b, st):
        if op == "+" and a == ("sym", "path_saving"):
            self.concat.append(show(("tuple", (a, b))))
        return super().binop(op, a, b, st)


def is_query(f):
    n = f[1].split(".")[-1] if f[0] == "ext" else f[1][3] if f[0] == "func" else None
    return n in ("query", "input")


def entry(ctx):
    """the function which chooses the directory"""
    base = ctx.p.find_class("TopologyBase", "topologies.base")
    cands = []
    for f in ctx.p.all_funcs():
        if not f.module.name.startswith("fluidimage.topologies"):
            continue
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        src = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant)
               and isinstance(n.value, str)}
        if f.name == "prepare_path_dir_result":
            return f, names
        if f.cls is None and f.parent is None and {"new_dir", "ask"} <= src:
            cands.append((f, names))
    if not cands:
        raise AnalysisBroken("function choosing the directory of results not found")
    return cands[0]


def strip(t):
    """path without the conversions between str and Path"""
    def f(x):
        if x[0] == "call" and x[1][0] == "ext" and len(x[2]) == 1 and not x[3] and (
                x[1][1].split(".")[-1] in ("str", "Path", "PurePath", "fspath",
                                           "abspath", "realpath", "expanduser",
                                           "normpath")):
            return x[2][0]
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] in (
                "resolve", "absolute", "expanduser", "as_posix") and not x[2]:
            return x[1][1]
        if x[0] == "op" and x[1] == "+":
            return mk_fstr(parts(x[2]) + parts(x[3]))
        if x[0] == "fstr":
            if len(x[1]) == 1 and x[1][0][0] == "fmt" and x[1][0][2] == "":
                return x[1][0][1]
            return mk_fstr(x[1])
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] in (
                "with_name",) and len(x[2]) == 1:
            a = x[2][0]
            if a[0] == "fstr" and a[1] and a[1][0][0] == "fmt" and (
                    a[1][0][1] == ("attr", x[1][1], "name")):
                return mk_fstr(parts(x[1][1]) + tuple(a[1][1:]))
        return x
    for _ in range(4):
        n = map_term(t, f)
        if n == t:
            return t
        t = n
    return t


def parts(t):
    if t[0] == "fstr":
        return t[1]
    if t[0] == "const" and isinstance(t[1], str):
        return (t,)
    return (("fmt", t, "", -1),)


def exists_of(t):
    """the path tested by a term"""
    if t[0] == "call":
        f = t[1]
        if f[0] == "ext" and f[1] in ("os.path.exists", "os.path.isdir",
                                      "os.path.lexists") and t[2]:
            return strip(t[2][0])
        if f[0] == "attr" and f[2] in ("exists", "is_dir"):
            return strip(f[1])
    return None


def known_exists(st, path, tr=None):
    for k, v in st.facts.items():
        p = exists_of(k)
        if p is not None and p == path:
            return v
    return None


def mkdirs(tr):
    for i, e in enumerate(tr):
        if e.kind != "call":
            continue
        f = e.a[0]
        if f[0] == "attr" and f[2] == "mkdir":
            yield i, e, strip(f[1])
        elif f[0] == "ext" and f[1] in ("os.mkdir", "os.makedirs") and e.a[1]:
            yield i, e, strip(e.a[1][0])


def result(o):
    """(path, mode) returned"""
    v = o.val
    if v is not None and v[0] == "tuple" and len(v[1]) == 2:
        return v[1]
    return None


def run(ctx, f, names, how, path, answers=()):
    I = DirInterp(ctx.p, DirPolicy(answers))
    args = [("sym", n) for n in names]
    pos = roles(ctx, f, names)
    args[pos["how"]] = const(how) if isinstance(how, str) else how
    args[pos["path"]] = path
    st = State()
    if not is_const(path):
        st.facts[("cmp", "is", path, NONE)] = False
    outs = I.run(f, args=dict(zip(names, args)), st=st)
    ctx.seen(I)
    return outs, args, pos, I


def roles(ctx, f, names):
    """position of each argument, from the call in _init_path_dir_result"""
    res = {}
    for i, n in enumerate(names):
        if "how" in n:
            res["how"] = i
        elif "postfix" in n:
            res["postfix"] = i
        elif "saving" in n or "result" in n:
            res["path"] = i
        else:
            res["input"] = i
    if set(res) != {"how", "postfix", "path", "input"}:
        raise AnalysisBroken(f"arguments of {f.short} not recognised: {names}")
    return res


@register("T04")
def t04_choice(ctx):
    ctx.rule("T04.mode", "an invalid mode is refused", 1)
    ctx.rule("T04.new", "'new_dir' gives a directory known not to exist, for any "
             "type of path, with a mode that the sub-processes can use as it is", 4)
    ctx.rule("T04.same", "'complete', 'recompute' and 'from_path_indices' use the "
             "requested directory and keep the mode", 6)
    ctx.rule("T04.ask", "'ask' asks if and only if the directory exists, and obeys "
             "the answer (lower or upper case)", 16)
    ctx.rule("T04.created", "the directory which is returned is created (an "
             "existing one is accepted), no other is", 6)
    f, names = entry(ctx)
    w = f.short
    # ---- invalid mode
    outs, *_ = run(ctx, f, names, "an invalid mode", ("sym", "path_saving"))
    ctx.check(outs and all(o.kind == "raise" for o in outs)
              and not any(list(mkdirs(o.st.trace)) for o in outs), "T04.mode", w,
              "invalid mode", "an invalid mode is accepted")
    for given in (True, False):
        path = ("sym", "path_saving") if given else NONE
        lab = "path given" if given else "default path"
        for how in MODES:
            sets = [()]
            if how == "ask":
                sets = [(a,) for k in ANSWERS for a in (k, k.upper())]
                sets += [("?", a) for k in ANSWERS for a in (k, k.upper())]
            for answers in sets:
                outs, args, pos, I = run(ctx, f, names, how, path, answers)
                D0 = wanted(args, pos, given)
                check_outs(ctx, w, lab, how, answers, outs, D0, given, I)


def wanted(args, pos, given):
    if given:
        return strip(args[pos["path"]])
    return strip(mk_fstr(parts(args[pos["input"]]) + (const("."),)
                         + parts(args[pos["postfix"]])))


def check_outs(ctx, w, lab, how, answers, outs, D0, given, I):
    c = f"{lab}, {how}" + (f", answer {answers[-1]!r}" if answers else "")
    if answers and answers[0] == "?":
        c += " after an invalid answer"
    want = ANSWERS[answers[-1].lower()] if answers else how
    n = 0
    asked_paths = 0
    for o in outs:
        tr = o.st.trace
        P = fmt_trace(tr)
        qs = [e for e in tr if e.kind == "call" and is_query(e.a[0])]
        ex0 = known_exists(o.st, D0)
        if how == "ask":
            asked_paths += bool(qs)
            if qs:
                ctx.check(ex0 is True, "T04.ask", w, c + ": asked",
                          "the user is asked although the directory does not "
                          "exist", P)
                ctx.check(
                    len(qs) == len(answers), "T04.ask", w, c + ": questions",
                    f"the user is asked {len(qs)} time(s) with the answer(s) "
                    f"{answers}: the answer {answers[-1]!r} is "
                    + ("accepted too early" if len(qs) < len(answers)
                       else "not accepted"), P)
                if len(qs) != len(answers):
                    continue
            else:
                ctx.check(ex0 is False, "T04.ask", w, c + ": not asked",
                          "the directory may exist and the user is not asked", P)
        else:
            ctx.check(not qs, "T04.ask", w, c + ": asked",
                      "the user is asked although the mode is given", P)
        eff = want if (how != "ask" or qs) else "recompute"
        made = list(mkdirs(tr))
        if eff == "stop":
            stop = o.kind == "raise" and "SystemExit" in str(o.val)
            ctx.check(stop and not made, "T04.ask", w, c + ": stop",
                      "the answer 'stop' does not stop the program", P)
            continue
        if o.kind == "raise":
            ctx.bad("T04.same" if eff != "new_dir" else "T04.new", w, c + ": error",
                    f"raises {show(o.val) if o.val else ''} with the mode "
                    f"'{how}' ({lab})", P)
            continue
        r = result(o)
        if r is None:
            ctx.maybe("T04.same", w, c)
            continue
        n += 1
        path, mode = strip(r[0]), r[1]
        if eff == "new_dir":
            ctx.check(known_exists(o.st, path) is False, "T04.new", w,
                      c + ": exists",
                      f"the mode new_dir gives {show(path)}, which may exist", P)
            ctx.check(mode in (const("recompute"), const("complete")), "T04.new",
                      w, c + ": mode",
                      f"the mode given with the new directory is {show(mode)}: "
                      "another directory will be made by the processes using it", P)
            ctx.check(not I.concat, "T04.new", w, c + ": type",
                      f"the path is concatenated with a string ({I.concat[:1]}): "
                      "this fails when it is a Path", P)
            base = path == D0 or path[0] == "fstr" and path[1][:1] == parts(D0)[:1]
            ctx.check(base or contains(path, D0), "T04.new", w, c + ": place",
                      f"the new directory {show(path)} is not made from the one "
                      f"requested ({show(D0)})", P)
        else:
            ctx.check(path == D0, "T04.same", w, c + ": directory",
                      f"the directory {show(path)} is used instead of the "
                      f"requested one ({show(D0)})", P)
            okm = (const(eff),) if ex0 is not False or how != "ask" else (
                const("recompute"), const("complete"))
            ctx.check(mode in okm, "T04.same", w, c + ": mode",
                      f"the mode becomes {show(mode)} instead of {eff}", P)
        ctx.check([1 for _, e, p in made if p == path], "T04.created", w,
                  c + ": created", f"the directory {show(path)} is not created", P)
        for _, e, p in made:
            ctx.check(p == path or contains(path, p) and p != D0, "T04.created", w,
                      c + ": other", f"the directory {show(p)} is created", P, e.line)
            if p == path and eff != "new_dir" and ex0 is not False:
                ok = ("exist_ok", TRUE) in e.a[2] or ex0 is False
                ctx.check(ok, "T04.created", w, c + ": exist_ok",
                          "an existing directory is refused", P, e.line)
    if how == "ask":
        ctx.check(asked_paths > 0, "T04.ask", w, c + ": never asked",
                  "the user is never asked")
    if want != "stop":
        ctx.check(n > 0, "T04.same" if want != "new_dir" else "T04.new", w,
                  c + ": no result", "no path gives a directory")



def saving_part(t, what):
    """params.saving.<what>"""
    return t[0] == "attr" and t[2] == what and t[1][0] == "attr" and (
        t[1][2] == "saving")


class InitPolicy(Policy):
    unroll = 1
    max_states = 2000

    def __init__(self, avoid):
        self.avoid = avoid

    def should_inline(self, func, interp, st):
        return func.key != self.avoid.key and func.module.name.startswith(
            "fluidimage.topologies") and func.name not in ("__init__",)


@register("T04")
def t04_init(ctx):
    ctx.rule("T04.init", "the topology uses the directory and the mode which were "
             "chosen from its parameters, and its parameters contain this "
             "directory", 4)
    f, names = entry(ctx)
    pos = roles(ctx, f, names)
    n = 0
    for g in ctx.p.all_funcs():
        if g.cls is None or not g.module.name.startswith("fluidimage.topologies"):
            continue
        if not any(isinstance(x, ast.Call) and (
                isinstance(x.func, ast.Name) and x.func.id == f.name
                or isinstance(x.func, ast.Attribute) and x.func.attr == f.name)
                for x in ast.walk(g.node)):
            continue
        if not any(c.name == "TopologyBase" for c in g.cls.mro()):
            continue
        self_t = ("obj", "self", g.cls.qual)
        I = Interp(ctx.p, InitPolicy(f))
        outs = I.run(g, self_term=self_t)
        ctx.seen(I)
        for o in outs:
            if o.kind == "raise":
                continue
            tr = o.st.trace
            P = fmt_trace(tr)
            calls = [e for e in tr if e.kind == "call" and e.a[0][0] == "func"
                     and e.a[0][1] == f.key]
            if not calls:
                continue
            n += 1
            e = calls[-1]
            args = dict(enumerate(e.a[1]))
            for k, v in e.a[2]:
                if k in names:
                    args[names.index(k)] = v
            for role, attr in (("path", "path"), ("postfix", "postfix"),
                               ("how", "how")):
                v = args.get(pos[role])
                ctx.check(v is not None and saving_part(v, attr), "T04.init",
                          g.short, f"argument {role}",
                          f"the {role} given to {f.name} is "
                          f"{show(v) if v else None}, not params.saving.{attr}", P,
                          e.line)
            v = args.get(pos["input"])
            ctx.check(v is not None and not contains_if(
                v, lambda x: x[0] == "attr" and x[2] == "saving"), "T04.init",
                g.short, "argument input", "the input directory is not given", P,
                e.line)
            res = e.a[3]
            sets = {}
            for x in tr:
                if x.kind == "setattr":
                    if x.a[0] == self_t:
                        sets[x.a[1]] = x.a[2]
                    elif x.a[0][0] == "attr" and x.a[0][2] == "saving":
                        sets["saving." + x.a[1]] = x.a[2]
            for attr, i in (("path_dir_result", 0), ("how_saving", 1),
                            ("saving.path", 0)):
                v = sets.get(attr)
                if v is None and attr != "saving.path":
                    v = o.st.heap.get((self_t, attr))
                ctx.check(v is not None and strip(v) == (
                    "item", res, const(i)), "T04.init", g.short, attr,
                    f"{attr} is {show(v) if v else 'not set'} instead of the "
                    f"result of {f.name}", P)
    ctx.check(n > 0, "T04.init", f.short, "caller",
              "no topology uses the function choosing the directory")


@register("T04")
def t04_process(ctx):
    ctx.rule("T04.process", "the processes of a computation receive the directory "
             "and the mode which were chosen, and never ask nor make another "
             "directory", 3)
    # parameters given to the sub-processes
    for c in ctx.p.subclasses("MultiExecutorBase", strict=True):
        for m in c.methods.values():
            calls = [x for x in ast.walk(m.node) if isinstance(x, ast.Attribute)
                     and x.attr == "saving"]
            if not calls:
                continue
            sub_params(ctx, c, m)
    # servers
    for c in ctx.p.subclasses("WorkerServer", strict=True):
        init = c.methods.get("__init__")
        if init is None:
            continue
        names = [a.arg for a in init.node.args.posonlyargs + init.node.args.args]
        if "params" not in names:
            continue
        for how in MODES:
            server(ctx, c, init, how)


class ServerPolicy(Policy):
    unroll = 1
    max_states = 3000

    def should_inline(self, func, interp, st):
        return func.module.name.startswith("fluidimage.executors.servers") and (
            func.name != "__init__")


def server(ctx, c, init, how):
    I = Interp(ctx.p, ServerPolicy())
    st = State()
    sv = ("attr", ("sym", "params"), "saving")
    st.heap[(sv, "how")] = const(how)
    outs = I.run(init, self_term=("obj", "self", c.qual), st=st)
    ctx.seen(I)
    n = 0
    for o in list(outs) + list(I.cuts):
        tr = o.st.trace
        cur = const(how)
        for i, e in enumerate(tr):
            if e.kind == "setattr" and e.a[0] == sv and e.a[1] == "how":
                cur = e.a[2]
            if e.kind == "call" and ("sym", "params") in e.a[1] and contains_if(
                    e.a[0], lambda x: x[0] == "sym" and "topology" in x[1]):
                if any(x.kind == "assume" and "saving" in show(x.a[0])
                       and "hasattr" in show(x.a[0]) and x.a[1] == FALSE
                       for x in tr[:i]):
                    continue
                if any(x.kind in ("except",) for x in tr[:i]):
                    continue
                n += 1
                ctx.check(cur in (const("complete"), const("recompute"),
                                  const("from_path_indices")),
                          "T04.process", init.short, f"server, mode {how}",
                          f"the topology of a server is created with the mode "
                          f"{show(cur)} (mode of the computation: {how})",
                          fmt_trace(tr[: i + 1]), e.line)
    if not n:
        ctx.maybe("T04.process", init.short, "creation of the topology")


def sub_params(ctx, c, m):
    class Pol(Policy):
        unroll = 1
        max_states = 3000

        def should_inline(self, func, interp, st):
            return func.module.name.startswith("fluidimage.executors") and (
                func.name != "__init__")

    self_t = ("obj", "self", c.qual)
    I = Interp(ctx.p, Pol())
    outs = I.run(m, self_term=self_t)
    ctx.seen(I)
    topo = ("attr", self_t, "topology")
    for o in outs:
        if o.kind == "raise":
            continue
        tr = o.st.trace
        P = fmt_trace(tr)
        how = path = None
        for e in tr:
            if e.kind == "setattr" and e.a[0][0] == "attr" and (
                    e.a[0][2] == "saving"):
                if e.a[1] == "how":
                    how = e
                elif e.a[1] == "path":
                    path = e
        without = {k[2][1][1] for k, v in o.st.facts.items()
                   if v is False and k[0] == "call" and k[1] == ("ext", "hasattr")
                   and len(k[2]) == 2 and is_const(k[2][1])}
        if "how_saving" not in without:
            ctx.check(how is not None and how.a[2] == ("attr", topo, "how_saving"),
                      "T04.process", m.short, "mode",
                      "the mode given to the sub-processes is "
                      + (show(how.a[2]) if how else "not the one which was chosen"),
                      P, how.line if how else None)
        if "path_dir_result" not in without:
            ctx.check(path is not None and strip(path.a[2]) in (
                ("attr", topo, "path_dir_result"),
                ("attr", self_t, "path_dir_result")),
                "T04.process", m.short, "directory",
                "the directory given to the sub-processes is "
                + (show(path.a[2]) if path else "not the one of the topology"), P,
                path.line if path else None)


DELETE = {"unlink", "rmdir", "rmtree", "removedirs", "remove"}


@register("T04")
def t04_delete(ctx):
    ctx.rule("T04.delete", "the computations only delete files that they have "
             "made in their own job directory", 2)
    pk = ("fluidimage.topologies", "fluidimage.executors", "fluidimage.works",
          "fluidimage.util", "fluidimage.data_objects.piv",
          "fluidimage.data_objects.preproc")
    for f in ctx.p.all_funcs():
        if not f.module.name.startswith(pk):
            continue
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            fn = x.func
            if not isinstance(fn, ast.Attribute) or fn.attr not in DELETE:
                continue
            target = fn.value
            if isinstance(target, ast.Name) and target.id in ("os", "shutil"):
                if not x.args:
                    continue
                target = x.args[0]
            elif fn.attr == "remove":
                continue  # list.remove
            words = origin(ctx, f, target)
            ok = any("job" in w or "lock" in w or "tmp" in w or "temp" in w
                     for w in words)
            ctx.check(ok, "T04.delete", f.short, ast.unparse(x)[:80],
                      f"{ast.unparse(x)[:80]} deletes something which is not known "
                      "to be a file of the job", None, x.lineno)


def origin(ctx, f, node, depth=0, seen=None):
    """names and strings from which a path is made"""
    seen = seen if seen is not None else set()
    res = set()
    todo = [node]
    for x in ast.walk(node):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            res.add(x.value)
        elif isinstance(x, ast.Attribute):
            res.add(x.attr)
            if isinstance(x.value, ast.Name) and x.value.id == "self" and (
                    f.cls is not None) and x.attr not in seen and depth < 4:
                seen.add(x.attr)
                for c in f.cls.mro():
                    for m in c.methods.values():
                        for a in ast.walk(m.node):
                            if isinstance(a, ast.Assign) and any(
                                    isinstance(t, ast.Attribute)
                                    and t.attr == x.attr for t in a.targets):
                                res |= origin(ctx, m, a.value, depth + 1, seen)
        elif isinstance(x, ast.Name) and x.id not in seen and depth < 6:
            seen.add(x.id)
            for a in ast.walk(f.node):
                if isinstance(a, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == x.id
                        for t in a.targets):
                    res |= origin(ctx, f, a.value, depth + 1, seen)
                elif isinstance(a, (ast.For, ast.comprehension)) and any(
                        isinstance(t, ast.Name) and t.id == x.id
                        for t in ast.walk(a.target)):
                    res |= origin(ctx, f, a.iter, depth + 1, seen)
                elif isinstance(a, ast.withitem) and isinstance(
                        a.optional_vars, ast.Name) and a.optional_vars.id == x.id:
                    res |= origin(ctx, f, a.context_expr, depth + 1, seen)
    return res
