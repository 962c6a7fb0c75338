"""D06: works modify neither their inputs nor shared state."""

import ast

from ..effects import Effects, St, V
from . import register
from ..project import AnalysisBroken
from ..topomodel import graphs, topology_classes

TOOLBOXES = ("works.preproc._toolbox_py", "works.preproc._toolbox_cv")


def isinstance_types(p, func, name):
    """classes of the project tested for a parameter"""
    res = []
    for n in ast.walk(func.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == "isinstance" and len(n.args) == 2 and \
                isinstance(n.args[0], ast.Name) and n.args[0].id == name:
            ts = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [
                n.args[1]]
            for t in ts:
                if isinstance(t, ast.Name):
                    r = p.resolve(func.module, t.id)
                    if r[0] == "class" and r[1] not in res:
                        res.append(r[1])
    return res


class Run:
    """all the per-item functions of one topology"""

    def __init__(self, ctx):
        self.p = ctx.p
        self.E = Effects(ctx.p)
        self.st = St()
        self.objs = {}
        self.entries = []

    def setup(self, fn, *args, **kw):
        self.E.phase = "setup"
        return fn(*args, **kw)

    def obj(self, key, qual, init=True, fields=()):
        if key in self.objs:
            return self.objs[key]
        E = self.E
        E.phase = "setup"
        cls = self.p.classes_by_qual[qual]
        o = E.new_object(cls, None, f"{cls.name}")
        self.objs[key] = o
        m = cls.find_method("__init__")
        if init and m is not None:
            a = m.node.args
            args = [E.external("shared", "params")
                    for x in (a.posonlyargs + a.args)[1:2]]
            E.call_func(m, [o] + args, {}, self.st, m.node)
        for n, v in fields:
            for loc in o.locs:
                self.st.heap[(loc, n)] = v
        return o

    def item(self, func, arg, types=(), key_value=False):
        E, p = self.E, self.p
        E.phase = "item"
        ts = isinstance_types(p, func, arg) or list(types)
        v = None
        for q in ts:
            cls = p.classes_by_qual[q]
            o = E.new_object(cls, func.node, f"{cls.name} ({arg})")
            m = cls.find_method("__init__")
            if m is not None and not types:
                a = m.node.args
                kw = {x.arg: E.external("item", x.arg)
                      for x in a.args[1:] + a.kwonlyargs}
                E.call_func(m, [o], kw, self.st, m.node)
            v = o if v is None else V(v.locs | o.locs, v.taint | o.taint,
                                      kind="obj")
        if v is None:
            v = E.external("item", f"{arg} of {func.name}")
        v = V(v.locs, frozenset({"v"}), v.calls, v.kind)
        if key_value:
            k = V(taint=frozenset({"v"}), kind="num")
            v = E.make_seq([k, v], self.st, func.node, "key and value")
        return v

    def entry(self, func, obj, args, name):
        E = self.E
        E.phase = "call"
        a = ([obj] if obj is not None and not func.is_static else []) + args
        r = E.call_func(func, a, {}, self.st, func.node)
        E.phase = "setup"
        self.entries.append((name, func))
        return r

    def types_of(self, v):
        res = []
        for l in v.locs:
            for q in self.E.types.get(l, ()):
                if q not in res:
                    res.append(q)
        return res


def first_arg(func, bound):
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if bound and not func.is_static:
        names = names[1:]
    return names[0] if names else "item"


def topology_runs(ctx):
    p = ctx.p
    runs = []
    for cls in topology_classes(p):
        R = Run(ctx)
        done = set()
        R.cls = cls
        for g in graphs(ctx, cls):
            qtypes = {}
            # objects stored by the topology
            for w in g.works:
                if not w.per_item:
                    continue
                f = w.func
                obj = func = None
                extra = []
                if f[0] == "bound" and f[1][0] in ("obj", "new"):
                    func = p.funcs_by_key[f[2][1]]
                    t = f[1]
                    q = class_of(p, t)
                    if q is None:
                        continue
                    if t == g.self_t:
                        fields = []
                        for (b, a), v in g.st.heap.items():
                            if b == t:
                                fq = class_of(p, v)
                                if fq is not None and not p.classes_by_qual[
                                        fq].is_subclass("TopologyBase"):
                                    fields.append((a, R.obj(v, fq)))
                                elif v[0] == "bound" and class_of(p, v[1]):
                                    o = R.obj(v[1], class_of(p, v[1]))
                                    fn = p.funcs_by_key[v[2][1]]
                                    fields.append((a, V(calls=[
                                        ("func", fn, o)])))
                        obj = R.obj(t, q, False, fields)
                    else:
                        obj = R.obj(t, q)
                elif f[0] == "func":
                    func = p.funcs_by_key[f[1]]
                elif f[0] == "partial" and f[1][0] == "func":
                    func = p.funcs_by_key[f[1][1]]
                    extra = [V() for _ in f[2]]
                if func is None:
                    continue
                key = (func.key, w.name)
                types = [x for qq in w.inq for x in qtypes.get(qq, ())]
                if key in done:
                    continue
                done.add(key)
                names = [x.arg for x in func.node.args.args]
                if obj is not None and not func.is_static:
                    names = names[1:]
                names = names[len(extra):]
                arg = names[0] if names else "item"
                it = R.item(func, arg, types, w.has("eat key value"))
                r = R.entry(func, obj, extra + [it], w.name)
                for qq in w.outq:
                    qtypes.setdefault(qq, []).extend(R.types_of(r))
        if R.entries:
            runs.append(R)
    return runs


def class_of(p, t):
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "obj" and len(t) > 2 and t[2] in p.classes_by_qual:
        return t[2]
    for x in t[1:]:
        if isinstance(x, str) and x in p.classes_by_qual:
            return x
        if isinstance(x, tuple) and x and x[0] == "class":
            return x[1]
    return None


def pname(path):
    root, rest = path
    r = root[0][1] if isinstance(root[0], tuple) else root[1]
    if isinstance(r, tuple):
        r = r[-1]
    if root[0] == "cls":
        r = f"class {root[1].split('.')[-1]}"
    elif root[0] == "glob":
        r = f"global {root[2]}"
    elif root[0] == "default":
        r = f"default value of {root[2]}"
    s = str(r)
    for x in rest:
        if x == "[]":
            s += "[...]"
        elif isinstance(x, (tuple, int)):
            s += f"[{x[1] if isinstance(x, tuple) else x!r}]"
        else:
            s += f".{x}"
    return s


def related(a, b):
    """one of the paths contains the other"""
    if a[0] != b[0]:
        return False
    n = min(len(a[1]), len(b[1]))
    return a[1][:n] == b[1][:n]


def inside(e, w):
    """the read e belongs to the statement of the write w"""
    n = w.node
    if e.what == "plan":
        return False
    return e.func is w.func and e.node is not None and hasattr(
        e.node, "lineno") and n.lineno <= e.node.lineno <= (
        getattr(n, "end_lineno", n.lineno) or n.lineno)


def trace(e):
    return [f.short for f in e.stack]


def judge(ctx, R, label, rin, rsh, rlz):
    E = R.E
    grp = E.group
    writes = [e for e in E.events if e.kind == "write"]
    reads = [e for e in E.events if e.kind == "read"]
    escapes = [e for e in E.events if e.kind == "escape"]
    seen = set()
    nbad = 0

    def once(*k):
        if k in seen:
            return False
        seen.add(k)
        return True

    for e in writes:
        g = grp.get(e.path[0], "shared")
        where = e.func.short
        if g == "item":
            if e.path[1] and e.path[1][-1] != "[]":
                # attribute of a data object (the mask applied to a couple)
                continue
            if once("in", where, e.what):
                nbad += 1
                ctx.bad(rin, where, f"{e.what}",
                        f"{label}: '{e.what}' modifies {pname(e.path)} received "
                        "as input", trace(e), e.node.lineno)
    shared = [e for e in writes if grp.get(e.path[0], "shared") == "shared"]
    for e in shared:
        if not ("v" in e.taint or e.hist or e.what.startswith(".")):
            continue
        if not ("v" in e.taint or e.hist):
            # containers: the number of elements depends on the history
            if e.path[1] and e.path[1][-1] == "[]":
                pass
            else:
                continue
        rs = [r for r in reads if related(r.path, e.path)
              and not inside(r, e) and not (
                  r.what == "load" and len(e.path[1]) > len(r.path[1]))]
        if e.what.startswith(".") or e.path[1][-1:] == ("[]",):
            # the load of the container for the modification itself
            rs = [r for r in rs if r.node is None or not (
                r.func is e.func and getattr(
                    r.node, "lineno", 0) == e.node.lineno)]
        if not rs:
            continue
        stale = None
        for r in rs:
            common = e.locks & r.locks if e.locks else frozenset()
            if any(x[1:] for x in common):
                if r.seq > e.seq:
                    continue
            # another section of the same lock: a write of this section before
            secs = {x for x in r.locks}
            ok = any(w.seq < r.seq and (w.locks & secs) and related(
                w.path, r.path) and sec_same_lock(w, e) for w in shared)
            if ok:
                continue
            stale = r
            break
        if stale is None:
            continue
        if once("sh", e.func.short, e.what):
            nbad += 1
            ctx.bad(rsh, e.func.short, e.what,
                    f"{label}: {pname(e.path)} is set with what depends on the "
                    f"item ('{e.what}') and read by the processing of the items "
                    f"({stale.func.short}, line "
                    f"{getattr(stale.node, 'lineno', '?')})", trace(e),
                    e.node.lineno)
    for e in escapes:
        if once("esc", e.func.short, pname(e.path)):
            nbad += 1
            ctx.bad(rsh, e.func.short, f"view of {pname(e.path)}",
                    f"{label}: {pname(e.path)} is {e.what}: another thread "
                    "can overwrite it", trace(e), e.node.lineno)
    # lazy initialisations
    groups = {}
    for e in shared:
        for g in e.guards:
            groups.setdefault(g, []).append(e)
    for (attr, gid), es in groups.items():
        mine = [e for e in es if e.path[1] and e.path[1][-1] == attr]
        if not mine:
            continue
        bases = {(e.path[0], e.path[1][:-1]) for e in mine}
        if any(e.locks for e in mine):
            continue
        last = {}
        for e in mine:
            b = (e.path[0], e.path[1][:-1])
            last[b] = min(last.get(b, e.seq), e.seq)
        for e in es:
            b = next((b for b in bases if e.path[0] == b[0] and
                      e.path[1][:len(b[1])] == b[1]), None)
            if b is None or e in mine or e.seq < last[b]:
                continue
            rs = [r for r in reads if related(r.path, e.path) and not any(
                g[1] == gid for g in r.guards)]
            if rs and once("lazy", e.func.short, e.what):
                nbad += 1
                ctx.bad(rlz, e.func.short, e.what,
                        f"{label}: '{e.what}' comes after '{attr}', which tells "
                        "the other threads that the object is ready",
                        trace(e), e.node.lineno)
        if once("lazyok", attr, mine[0].func.short):
            ctx.ok(rlz, mine[0].func.short, f"guard {attr}")
    for name, func in R.entries:
        ctx.ok(rin, func.short, f"{label}: {name}")
        ctx.ok(rsh, func.short, f"{label}: {name}")
    ctx.functions |= E.functions
    ctx.states += E.n_calls
    return nbad


def sec_same_lock(w, e):
    if not e.locks:
        return False
    return bool({x[1] for x in w.locks} & {x[1] for x in e.locks})


_runs = {}


@register("D06")
def d06_works(ctx):
    rin, rsh, rlz = "D06.input", "D06.shared", "D06.lazy"
    ctx.rule(rin, "the functions called for each item do not write in the arrays "
             "and containers they receive", 8)
    ctx.rule(rsh, "what the processing of an item stores outside of its result "
             "does not depend on the item, is not read by the processing, or is "
             "used inside one critical section and copied before its end", 8)
    ctx.rule(rlz, "a lazy initialisation sets the tested attribute last", 1)
    for R in topology_runs(ctx):
        judge(ctx, R, R.cls.name, rin, rsh, rlz)


@register("D06")
def d06_toolbox(ctx):
    p = ctx.p
    r = "D06.toolbox"
    ctx.rule(r, "the filters of the toolboxes do not write in the image and "
             "return a new array", 8)
    for mname in TOOLBOXES:
        mod = p.module(mname)
        for f in mod.funcs.values():
            names = [a.arg for a in f.node.args.args]
            if "img" not in names or f.name.startswith("_"):
                continue
            E = Effects(p)
            st = St()
            E.phase = "item"
            img = E.external("item", "img", kind="arr",
                             taint=frozenset({"v"}))
            E.phase = "call"
            res = E.call_func(f, [], {"img": img}, st, f.node)
            ctx.functions |= E.functions
            bad = False
            for e in E.events:
                if e.kind == "write" and E.grp(e.path) == "item":
                    bad = True
                    ctx.bad(r, e.func.short, e.what,
                            f"'{e.what}' modifies the image given to {f.name}",
                            trace(e), e.node.lineno)
            if res.locs & img.locs:
                bad = True
                ctx.bad(r, f.short, "returned value",
                        f"{f.name} can return the image itself: a modification "
                        "of the result modifies the input")
            if not bad:
                ctx.ok(r, f.short, "")
    # the decorators give the images to the filters
    io = p.module("works.preproc.io")
    for f in io.funcs.values():
        a = f.node.args
        if a.vararg is None or f.name.startswith("_"):
            continue
        E = Effects(p)
        st = St()
        E.phase = "item"
        img = E.external("item", "img", kind="arr", taint=frozenset({"v"}))
        E.phase = "call"
        E.call_func(f, [V(), img], {}, st, f.node)
        E.call_func(f, [V()], {"img": img}, st, f.node)
        ctx.functions |= E.functions
        bad = False
        for e in E.events:
            if e.kind == "write" and E.grp(e.path) == "item":
                bad = True
                ctx.bad(r, e.func.short, e.what,
                        f"'{e.what}' modifies the images given to the tool",
                        trace(e), e.node.lineno)
        if not bad:
            ctx.ok(r, f.short, "")
