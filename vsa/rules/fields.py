"""D05: operations on velocity fields"""

import ast
import itertools

from ..algebra import K, poly
from ..arrays import Swap, canon
from ..framework import fmt_trace
from ..interp import Interp, Policy, State
from ..project import AnalysisBroken
from ..terms import (
    FALSE, NONE, TRUE, const, contains, is_const, map_term, show, walk,
)
from . import register

COMPS = ("vx", "vy", "vz")
OPS = {
    "__add__": ("+", False), "__radd__": ("+", True),
    "__sub__": ("-", False), "__rsub__": ("-", True),
    "__mul__": ("*", False), "__rmul__": ("*", True),
    "__truediv__": ("/", False), "__div__": ("/", False),
    "__rtruediv__": ("/", True),
    "__iadd__": ("+", False), "__isub__": ("-", False),
    "__imul__": ("*", False), "__itruediv__": ("/", False),
}
NUMPY_OPS = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/",
             "true_divide": "/"}
OP_FUNCS = {"operator.add": "+", "operator.sub": "-", "operator.mul": "*",
            "operator.truediv": "/"}
NEW = ("median_filter", "gaussian_filter", "extract", "truncate",
       "extract_square")
MUTATE = ("append", "extend", "insert", "remove", "pop", "clear", "update",
          "sort", "reverse", "fill", "put", "itemset", "partition", "resize",
          "setflags", "__setitem__")
WRITE_FIRST = ("copyto", "put", "place", "putmask", "fill_diagonal")
VIEWS = ("asarray", "asanyarray", "ravel", "reshape", "flip", "fliplr", "flipud",
         "transpose", "swapaxes", "squeeze", "atleast_1d", "atleast_2d",
         "broadcast_to", "view", "ascontiguousarray")


class FieldPolicy(Policy):
    unroll = 1
    max_states = 3000
    n_loop = 1

    def __init__(self, modules, qual, single=True):
        self.modules = modules
        self.qual = qual
        self.single = single
        self.copies = {}

    def should_inline(self, func, interp, st):
        return func.module.name in self.modules and func.name != "__init__"

    def enum_loop(self, it):
        if self.single and it[0] == "call" and it[1] == ("ext", "range"):
            return [("idx", it, 0)] * self.n_loop
        return None

    def on_call(self, interp, fterm, args, kwargs, st, node):
        if fterm in (("ext", "copy.deepcopy"), ("ext", "copy.copy")) and len(
            args
        ) == 1 and args[0][0] == "obj":
            deep = fterm[1].endswith("deepcopy")
            n = ("obj", f"copy:{interp.uid(node, st)}", args[0][2])
            self.copies[n] = (deep, args[0])
            for (b, a), v in list(st.heap.items()):
                if b == args[0]:
                    st.heap[(n, a)] = v
            interp.emit(st, "call", (fterm, tuple(args), (), n), node)
            return [(n, st)]
        return None


def arguments(func):
    a = func.node.args
    return {x.arg: ("param", x.arg) for x in (a.args[1:] + a.kwonlyargs)}


class Fields:
    """one method of a class of fields, all its paths"""

    def __init__(self, ctx, cls, meth, single=True, n_loop=1):
        self.ctx, self.cls, self.meth = ctx, cls, meth
        self.func = cls.methods.get(meth) or ctx.p.find_method(cls.name, meth)
        self.me = ("obj", "self", cls.qual)
        pol = FieldPolicy((cls.module.name,), cls.qual, single)
        pol.n_loop = n_loop
        interp = Interp(ctx.p, pol)
        self.pol = pol
        self.outs = interp.run(self.func, args=arguments(self.func),
                               self_term=self.me, st=State())
        ctx.seen(interp)
        self.init = ctx.p.find_method(cls.name, "__init__")

    @property
    def where(self):
        return self.func.short

    def origin(self, obj):
        """(copied from self, every copy is deep)"""
        deep = False
        while obj in self.pol.copies:
            d, obj = self.pol.copies[obj]
            deep = deep or d
        return obj, deep

    def norm(self, t):
        def f(x):
            if x in self.pol.copies:
                return self.origin(x)[0]
            return x

        return map_term(t, f)

    def is_ctor(self, t):
        """arguments if the term is a new object of the class"""
        if t[0] == "call":
            f = t[1]
            if f[0] == "call" and f[1] == ("ext", "type") and f[2] == (self.me,):
                return t
            if f == ("attr", self.me, "__class__"):
                return t
            if f[0] == "class" and f[1] == self.cls.qual:
                return t
        return None

    def bind(self, t):
        """constructor parameter -> value (None if it cannot be bound)"""
        a = self.init.node.args
        names = [x.arg for x in a.args][1:]
        if any(x[0] == "star" for x in t[2]) or len(t[2]) > len(names):
            return None
        res = dict(zip(names, t[2]))
        for k, v in t[3]:
            if k is None or k == "**":
                return None
            res[k] = v
        n_def = len(a.defaults)
        for name, d in zip(names[len(names) - n_def:], a.defaults):
            res.setdefault(name, ("default", ast.dump(d)))
        return res

    def attrs(self, out):
        """function: attribute of the returned field -> value, or None"""
        r = out.val
        if r is None:
            return None
        heap = out.st.heap
        if r in self.pol.copies:
            o, deep = self.origin(r)
            if o != self.me:
                return None

            def get(name):
                v = heap.get((r, name))
                return self.norm(v) if v is not None else ("attr", self.me, name)

            return get
        if self.is_ctor(r):
            b = self.bind(r)
            if b is None:
                return None

            def get2(name):
                v = heap.get((r, name))
                if v is None:
                    v = b.get(name)
                return self.norm(v) if v is not None else ("unset", name)

            return get2
        return None


def rooted(t, roots):
    """the term is (a view of) something reachable from one of the roots"""
    while True:
        if t in roots:
            return t
        if t[0] == "attr":
            t = t[1]
        elif t[0] in ("item", "elem"):
            t = t[1]
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith(
            "numpy."
        ) and t[1][1].split(".")[-1] in VIEWS and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in VIEWS:
            t = t[1][1]
        else:
            return None


def effects(fl, out):
    """writes of one path on the operands"""
    params = [("param", a.arg) for a in fl.func.node.args.args[1:]
              if a.arg not in ("file", "path", "ax", "event")]
    for ev in out.st.trace:
        base = what = None
        if ev.kind == "setattr":
            base, what = ev.a[0], f"attribute {ev.a[1]}"
            attr = ev.a[1]
            if base in fl.pol.copies:
                continue
            if base == fl.me or base in params or rooted(
                base, [fl.me] + params
            ):
                yield ev, base, what, attr
            continue
        if ev.kind in ("setitem", "delitem"):
            base, what = ev.a[0], "elements"
        elif ev.kind == "iaug":
            base, what = ev.a[1], f"in-place {ev.a[0]}"
            if base[0] not in ("attr", "item", "call", "param"):
                continue
        elif ev.kind == "call":
            f, args, kw = ev.a[0], ev.a[1], ev.a[2]
            if f[0] == "attr" and f[2] in MUTATE:
                base, what = f[1], f".{f[2]}()"
            elif f[0] == "ext" and f[1].split(".")[-1] in WRITE_FIRST and args:
                base, what = args[0], f[1]
            for k, v in kw:
                if k == "out" and v != NONE:
                    base, what = v, "out="
        if base is None:
            continue
        if ev.kind == "iaug" and is_number(fl, ev, out, base):
            continue
        # an attribute of a deep copy belongs to the copy
        b = base
        while b[0] in ("attr", "item"):
            b = b[1]
        if b in fl.pol.copies:
            if fl.origin(b)[1] or fl.norm(base) == base:
                continue
            base = fl.norm(base)
        if rooted(base, [fl.me] + params):
            yield ev, base, what, None


def is_number(fl, ev, out, base):
    """in-place operations on numbers do not modify them"""
    if base[0] == "param":
        return True
    if base[0] == "attr" and base[2] in ("size", "ndim", "dx", "dy"):
        return True
    if base[0] == "item" and base[1][0] == "attr" and base[1][2] == "shape":
        return True
    if base[0] == "call" and base[1] in (("ext", "len"), ("ext", "int"),
                                         ("ext", "float"), ("ext", "min"),
                                         ("ext", "max")):
        return True
    for e in out.st.trace:
        if e is ev:
            break
        if e.kind == "assume" and e.a[1] == TRUE and e.a[0][0] == "call" and e.a[
            0
        ][1] == ("ext", "isinstance") and e.a[0][2][0] == base:
            return True
    return False


def binary(t):
    """(operator, left, right) of an arithmetic operation"""
    if t[0] == "op" and len(t) == 4:
        return t[1], t[2], t[3]
    if t[0] == "call" and t[1][0] == "ext" and len(t[2]) == 2 and not t[3]:
        n = t[1][1]
        if n in OP_FUNCS:
            return OP_FUNCS[n], t[2][0], t[2][1]
        if n.startswith("numpy.") and n[6:] in NUMPY_OPS:
            return NUMPY_OPS[n[6:]], t[2][0], t[2][1]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in OPS and len(
        t[2]
    ) == 1:
        op, refl = OPS[t[1][2]]
        a, b = t[1][1], t[2][0]
        return (op, b, a) if refl else (op, a, b)
    return None


def arith(t):
    """only elementary operations on attributes, parameters, constants"""
    b = binary(t)
    if b:
        return arith(b[1]) and arith(b[2])
    if t[0] == "op" and len(t) == 3:
        return arith(t[2])
    return t[0] in ("attr", "param", "const", "obj")


def number_assumed(out, x, isnum=True):
    """the path assumes that x is (is not) a number"""
    for ev in out.st.trace:
        if ev.kind != "assume":
            continue
        c, val = ev.a[0], ev.a[1] == TRUE
        n = number_test(c, x)
        if n is not None and (n == val) == isnum:
            return True
    return False


def number_test(c, x):
    """True if the condition means 'x is a number', False for the contrary"""
    if c[0] == "not":
        n = number_test(c[1], x)
        return None if n is None else not n
    if c[0] == "call" and c[1] == ("ext", "isinstance") and c[2] and c[2][0] == x:
        k = [y for y in walk(c[2][1])]
        if any(y[0] in ("ext", "mod", "attr") and str(y[-1]).split(".")[-1] in (
            "Number", "Real", "int", "float", "number", "generic") for y in k):
            return True
        if any(y[0] in ("ext", "attr") and str(y[-1]).split(".")[-1] in
               ("ndarray", "VectorFieldOnGrid") for y in k):
            return False
        return None
    if c[0] == "call" and c[1] == ("ext", "numpy.isscalar") and c[2][0] == x:
        return True
    if c[0] == "cmp" and contains(c, x):
        # size or number of dimensions
        for side in (2, 3):
            y = c[side]
            if y in (("attr", x, "size"), ("attr", x, "ndim")) or (
                y[0] == "call" and y[1][0] == "ext" and y[1][1] in
                ("numpy.size", "numpy.ndim") and y[2] == (x,)
            ):
                if c[1] in ("==", "!="):
                    return c[1] == "=="
                if c[1] in ("<", "<="):
                    return side == 2
                return side == 3
    if c[0] == "call" and c[1] == ("ext", "hasattr") and c[2][0] == x:
        return False
    return None


def peel(t, comp, me):
    """layers of functions and selections applied to a quantity of self"""
    layers = []
    base = ("attr", me, comp)
    while t != base:
        if t[0] == "item":
            layers.append(("slice", t[2]))
            t = t[1]
            continue
        if t[0] == "call" and t[1][0] == "ext" and t[2]:
            k = [i for i, a in enumerate(t[2])
                 if any(y[0] == "attr" and y[1] == me and y[2] in
                        COMPS + ("x", "y", "z") for y in walk(a))]
            if not k:
                return None
            i = k[0]
            layers.append((t[1], t[2][:i] + t[2][i + 1:], t[3]))
            t = t[2][i]
            continue
        if t[0] == "attr" and t[1] == me:
            return ("other", t[2], layers[::-1])
        return None
    return ("ok", comp, layers[::-1])


def find_classes(ctx):
    f = ctx.p.find_class("VectorFieldOnGrid")
    a = ctx.p.find_class("ArrayOfVectorFieldsOnGrid")
    if f is None or a is None:
        raise AnalysisBroken("classes of vector fields not found")
    return f, a


def families(ctx):
    f, a = find_classes(ctx)
    out = []
    for c in (f, a):
        out.append(c)
        out += [s for s in ctx.p.subclasses(c.qual) if s != c and s.methods]
    return out


def inplace(func):
    doc = ast.get_docstring(func.node) or ""
    return "inplace" in doc.lower().replace("-", "").replace(" ", "")


@register("D05")
def no_effect(ctx):
    ctx.rule("D05.pure", "an operation of a field (arithmetics, filters, "
             "selection, derived quantities) never writes in the operands: "
             "neither attributes, nor elements of their arrays or lists, "
             "neither in place nor through a view or a shallow copy", 20)
    f, a = find_classes(ctx)
    for cls in (f, a):
        for name, func in sorted(cls.methods.items()):
            if name in ("__init__", "display", "__setitem__", "__delitem__",
                        "append", "extend", "__iter__", "set_timestep",
                        "from_file"):
                continue
            if "classmethod" in func.decorators or "staticmethod" in \
                    func.decorators:
                continue
            if inplace(func) or name.startswith("_init") or name.startswith(
                "__i"
            ):
                continue
            if name.startswith("_") and not name.startswith("__"):
                # helpers are analysed where they are called
                continue
            fl = Fields(ctx, cls, name)
            nb = 0
            for out in fl.outs:
                for ev, base, what, attr in effects(fl, out):
                    if attr is not None and base == fl.me and is_cache(
                        fl, cls, attr
                    ):
                        continue
                    nb += 1
                    ctx.bad("D05.pure", func.short,
                            f"{what} of {show(base, 4)}",
                            f"{cls.name}.{name} modifies its operand: {what} of "
                            f"{show(base, 4)} (the same object is still used by "
                            "the caller)", fmt_trace(out.st.trace), ev.line)
            if not nb:
                ctx.ok("D05.pure", func.short, f"{len(fl.outs)} paths")


def is_cache(fl, cls, attr):
    """an attribute which no other method gives or reads"""
    init = set()
    for m in cls.methods.values():
        if m is fl.func:
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr == attr:
                init.add(n.attr)
    return not init and attr not in COMPS + ("x", "y", "z")


@register("D05")
def arithmetics(ctx):
    ctx.rule("D05.operator", "each operator is applied to each component with "
             "the same component (or the number) of the other operand, in the "
             "right order", 20)
    ctx.rule("D05.new", "each operation returns a new field", 10)
    ctx.rule("D05.carry", "grid and metadata of the result are those of the "
             "field", 10)
    cls, _ = find_classes(ctx)
    for name in OPS:
        func = cls.methods.get(name)
        if func is None:
            continue
        op, refl = OPS[name]
        fl = Fields(ctx, cls, name)
        other = ("param", func.node.args.args[1].arg)
        for out in fl.outs:
            if out.kind != "return":
                continue
            if out.val == ("ext", "NotImplemented"):
                continue
            if not returned_new(ctx, fl, out):
                continue
            get = fl.attrs(out)
            if get is None:
                ctx.maybe("D05.operator", func.short, "shape of the result "
                          + show(out.val, 3))
                continue
            kinds = {}
            for c in COMPS:
                t = get(c)
                mine = ("attr", fl.me, c)
                res = None
                for kind, o in (("number", other), ("field", ("attr", other, c))):
                    if same_op(t, op, (o, mine) if refl else (mine, o)):
                        res = kind
                if res:
                    kinds[c] = res
                    ctx.ok("D05.operator", func.short, f"{c}: {res}")
                elif arith(t) or t in (mine,) or t[0] == "default":
                    ctx.bad("D05.operator", func.short, c,
                            f"{cls.name}.{name}: component {c} of the result is "
                            f"{show(t, 5)} instead of {c} {op} (number or {c} of "
                            "the other field)" + (", reflected" if refl else ""),
                            fmt_trace(out.st.trace), func.node.lineno)
                else:
                    ctx.maybe("D05.operator", func.short,
                              f"{c} = {show(t, 5)}")
            if len(set(kinds.values())) > 1:
                ctx.bad("D05.operator", func.short, "mixed",
                        "components of the result do not use the same kind of "
                        f"operand: {kinds}", fmt_trace(out.st.trace))
            elif kinds:
                k = list(kinds.values())[0]
                if k == "number" and number_assumed(out, other, False) or (
                    k == "field" and number_assumed(out, other, True)
                ):
                    ctx.bad("D05.operator", func.short, f"used as {k}",
                            f"the other operand is used as a {k} when it is not "
                            "one", fmt_trace(out.st.trace))
                else:
                    ctx.ok("D05.operator", func.short, f"kind {k}")
            carried(ctx, fl, out, get, skip=COMPS)


def same_op(t, op, operands):
    a, b = operands
    bi = binary(t)
    if bi and bi[0] == op:
        if (bi[1], bi[2]) == (a, b):
            return True
        if op in "+*" and (bi[2], bi[1]) == (a, b):
            return True
    if op in "+-" and arith(t):
        try:
            e = poly(("op", op, a, b))
            return poly(t) - e == K(0)
        except Exception:
            return False
    return False


def returned_new(ctx, fl, out):
    v = out.val
    ok = v is not None and v != fl.me and v[0] != "param" and not rooted(
        v, [fl.me]
    )
    params = [("param", a.arg) for a in fl.func.node.args.args[1:]]
    ok = ok and v not in params
    return ctx.check(ok, "D05.new", fl.where, f"returns {show(v, 2)}",
                     f"{fl.meth} returns {show(v, 3)}, which is the operand and "
                     "not a new object: modifying the result modifies the "
                     "operand", fmt_trace(out.st.trace, 10))


def metadata(fl):
    """attributes which describe the field"""
    names = [x.arg for x in fl.init.node.args.args][1:]
    names += [x.arg for x in fl.init.node.args.kwonlyargs]
    return [n for n in names if n not in COMPS]


def carried(ctx, fl, out, get, skip=()):
    for n in metadata(fl):
        if n in skip or n == "history":
            continue
        v = get(n)
        me = ("attr", fl.me, n)
        ok = v == me
        if not ok and v[0] == "call" and v[1][0] in ("ext", "attr") and (
            me in v[2] or v[1] == ("attr", me, "copy")
        ) and str(v[1][-1]).split(".")[-1] in ("copy", "deepcopy", "array",
                                               "list", "_make_copy"):
            ok = True
        if not ok and v[0] not in ("default", "unset") and contains(v, me):
            ctx.maybe("D05.carry", fl.where, f"{n} = {show(v, 4)}")
            continue
        ctx.check(ok, "D05.carry", fl.where, n,
                  f"{fl.meth}: {n} of the result is "
                  + ("the default value" if v[0] in ("default", "unset")
                     else show(v, 4))
                  + f" and not the one of the field", fmt_trace(out.st.trace, 8),
                  fl.func.node.lineno)


@register("D05")
def filters(ctx):
    ctx.rule("D05.components", "filters and selections are applied in the same "
             "way to all components (the third one only if it is an array), each "
             "from the same component of the field", 20)
    ctx.rule("D05.grid", "the selection applied to the coordinates x and y is "
             "the one of the second and first indices of the components", 10)
    cls, _ = find_classes(ctx)
    sw = Swap(ctx.p)
    for name in NEW:
        func = cls.methods.get(name)
        if func is None:
            continue
        fl = Fields(ctx, cls, name)
        loops = any(isinstance(n, ast.While) for n in ast.walk(func.node))
        filtered = []
        for out in fl.outs:
            if out.kind != "return":
                continue
            if not returned_new(ctx, fl, out):
                continue
            get = fl.attrs(out)
            if get is None:
                ctx.maybe("D05.components", func.short, show(out.val, 3))
                continue
            layers = {}
            for c in COMPS + ("x", "y", "z"):
                r = peel(get(c), c, fl.me)
                if r is None:
                    ctx.maybe("D05.components", func.short,
                              f"{c} = {show(get(c), 5)}")
                    continue
                if r[0] == "other":
                    ctx.bad("D05.components", func.short, f"{c} from {r[1]}",
                            f"{name}: {c} of the result is computed from {r[1]}",
                            fmt_trace(out.st.trace), func.node.lineno)
                    continue
                layers[c] = r[2]
            if "vx" not in layers or "vy" not in layers:
                continue
            ref = layers["vx"]
            filtered.append(any(x[0] != "slice" for x in ref))
            if loops and not same_turns(layers):
                # not the same number of turns: not a real path
                continue
            for c in ("vy", "vz"):
                if c not in layers:
                    continue
                if c == "vz" and layers[c] != ref and number_assumed(
                    out, ("attr", fl.me, "vz"), True
                ):
                    # a number is kept, or only cut
                    ctx.ok("D05.components", func.short, "vz is a number")
                    continue
                if c == "vz" and any(
                    ev.kind == "assume" and ev.a[1] == FALSE and ev.a[0][0] ==
                    "call" and ev.a[0][1] == ("ext", "hasattr") and ev.a[0][2][
                        1] == const("vz") for ev in out.st.trace
                ):
                    continue
                if c == "vz" and z_exempt(layers[c], ref, out, fl):
                    ctx.ok("D05.components", func.short, "vz kept")
                    continue
                ctx.check(layers[c] == ref, "D05.components", func.short, c,
                          f"{name}: {c} is not treated as vx "
                          f"({lay(layers[c])} / {lay(ref)})",
                          fmt_trace(out.st.trace), func.node.lineno)
            sl = [x[1] for x in ref if x[0] == "slice"]
            for c, k in (("x", 1), ("y", 0)):
                if c not in layers:
                    continue
                mine = [x[1] for x in layers[c] if x[0] == "slice"]
                want = [project(s, k) for s in sl]
                if any(w is None for w in want):
                    ctx.maybe("D05.grid", func.short, f"index {show(sl[0], 3)}")
                    continue
                ctx.check(
                    mine == want and len(mine) == len(layers[c]), "D05.grid",
                    func.short, c,
                    f"{name}: {c} is cut with "
                    f"{[show(m, 4) for m in mine]} but the components are cut "
                    f"along this direction with {[show(w, 4) for w in want]}",
                    fmt_trace(out.st.trace), func.node.lineno)
            slices(ctx, fl, name, sl, out, sw)
            carried(ctx, fl, out, get, skip=COMPS + ("x", "y", "z"))
        if filtered and name.endswith("_filter"):
            ctx.check(any(filtered), "D05.components", func.short, "filtered",
                      f"{name}: vx is not filtered", None, func.node.lineno)


def same_turns(layers):
    ns = [len([x for x in layers[c] if x[0] != "slice"]) for c in COMPS
          if c in layers]
    return len(set(ns)) == 1


def lay(layers):
    return [show(x[1], 4) if x[0] == "slice" else show(x[0], 2)
            for x in layers] or "unchanged"


def z_exempt(mine, ref, out, fl):
    """the third component follows if it is an array"""
    z = ("attr", fl.me, "vz")
    filt = [x for x in ref if x[0] != "slice"]
    cut = [x for x in ref if x[0] == "slice"]
    mf = [x for x in mine if x[0] != "slice"]
    mc = [x for x in mine if x[0] == "slice"]
    # test of the shape after filtering
    small = False
    for ev in out.st.trace:
        if ev.kind != "assume":
            continue
        c = fl.norm(ev.a[0])
        if any(y[0] == "call" and y[1][0] == "ext" and y[1][1] in
               ("numpy.size", "numpy.ndim") and contains(y, z)
               for y in walk(c)) or contains(c, ("attr", z, "size")) or contains(
                   c, ("attr", z, "ndim")):
            n = number_test(c, z)
            if n is None or n == (ev.a[1] == TRUE):
                small = True
    return mf == filt and (mc == cut or small)


def project(s, k):
    if s[0] == "tuple" and len(s[1]) == 2:
        return s[1][k]
    return None


def slices(ctx, fl, name, sl, out, sw):
    """bounds of the selection"""
    for s in sl:
        a, b = project(s, 0), project(s, 1)
        if a is None or a[0] != "slice" or b[0] != "slice":
            continue
        a, b = fl.norm(a), fl.norm(b)
        if name in ("truncate", "median_filter", "gaussian_filter"):
            ctx.check(sw.same(a, b) or a == b, "D05.grid", fl.where, "margins",
                      f"{name}: the margins differ between the directions: "
                      f"{show(a, 6)} / {show(b, 6)}", fmt_trace(out.st.trace, 8),
                      fl.func.node.lineno)
        if name != "extract_square" and name != "extract":
            for t, k, bad in ((a, 1, "x"), (b, 0, "y")):
                wrong = [y for y in walk(t) if y[0] == "item" and y[1][
                    0] == "attr" and y[1][2] == "shape" and y[2] == const(k)]
                wrong += [y for y in walk(t) if y == ("attr", fl.me, bad)]
                ctx.check(not wrong, "D05.grid", fl.where, f"sizes {1 - k}",
                          f"{name}: the bound along direction {1 - k} depends on "
                          f"the size along the other one: {show(t, 6)}",
                          fmt_trace(out.st.trace, 8), fl.func.node.lineno)
        if name == "extract_square":
            try:
                d = poly(("op", "-", a[2], a[1])) - poly(
                    ("op", "-", b[2], b[1]))
                ctx.check(d == K(0), "D05.grid", fl.where, "square",
                          "extract_square: sizes along the two directions are "
                          f"not the same: {show(a, 6)} / {show(b, 6)}",
                          fmt_trace(out.st.trace, 8), fl.func.node.lineno)
            except Exception:
                ctx.maybe("D05.grid", fl.where, "bounds")
        if name == "extract":
            for t, bad in ((a, "x"), (b, "y")):
                ctx.check(
                    not any(y == ("attr", fl.me, bad) for y in walk(t)),
                    "D05.grid", fl.where, f"bounds from {bad}",
                    f"extract: bounds of the other direction computed from {bad}"
                    f": {show(t, 6)}", fmt_trace(out.st.trace, 8),
                    fl.func.node.lineno)


# ---------------------------------------------------------------------
@register("D05")
def arrays_of_fields(ctx):
    ctx.rule("D05.each", "operations on an array of fields apply the operation "
             "of the same name, with the same arguments, once to each field in "
             "order, and return a new array", 10)
    ctx.rule("D05.times", "operations on an array of fields keep its times", 5)
    fcls, cls = find_classes(ctx)
    names = [n for n in list(OPS) + list(NEW) if n in cls.methods]
    for name in names:
        func = cls.methods[name]
        fl = Fields(ctx, cls, name)
        args = [("param", a.arg) for a in func.node.args.args[1:]]
        for out in fl.outs:
            if out.kind != "return":
                continue
            if out.val == ("ext", "NotImplemented"):
                continue
            if not returned_new(ctx, fl, out):
                continue
            its = produced(fl, out)
            if its is None:
                ctx.maybe("D05.each", func.short, show(out.val, 4))
                continue
            n_iter = 0
            for v, e in its:
                n_iter += 1
                good = each_ok(ctx, fl, fcls, name, v, e, args)
                if good is None:
                    ctx.maybe("D05.each", func.short, show(v, 5))
                else:
                    ctx.check(good, "D05.each", func.short, "operation",
                              f"{name}: an element of the result is "
                              f"{show(v, 6)}", fmt_trace(out.st.trace),
                              func.node.lineno)
            if n_iter == 0 and n_elements(fl, out):
                ctx.bad("D05.each", func.short, "lost",
                        f"{name}: a field of the array has no result",
                        fmt_trace(out.st.trace), func.node.lineno)
            get = fl_attr_get(fl, out)
            for t in ("times", "timestep", "unit_time"):
                if not has_attr(cls, t):
                    continue
                v = get(t)
                ctx.check(
                    v == ("attr", fl.me, t) or (v is not None and contains(
                        v, ("attr", fl.me, t))),
                    "D05.times", func.short, t,
                    f"{name}: {t} of the result is "
                    f"{'not set' if v is None else show(v, 4)}",
                    fmt_trace(out.st.trace, 8), func.node.lineno)


def has_attr(cls, name):
    f = cls.methods.get("__init__")
    return f is not None and any(
        isinstance(n, ast.Attribute) and n.attr == name and isinstance(
            n.ctx, ast.Store) for n in ast.walk(f.node))


def fl_attr_get(fl, out):
    r = out.val
    copied = r in fl.pol.copies

    def get(name):
        v = out.st.heap.get((r, name))
        if v is None and copied:
            return ("attr", fl.me, name)
        return fl.norm(v) if v is not None else None

    return get


def n_elements(fl, out):
    return any(ev.kind == "iter" and over_fields(fl, ev.a[0])
               for ev in out.st.trace)


def over_fields(fl, it):
    it = fl.norm(it)
    while it[0] == "call" and it[1] in (("ext", "iter"), ("ext", "list"),
                                        ("ext", "tuple")) and it[2]:
        it = it[2][0]
    return it in (fl.me, ("attr", fl.me, "_list"))


def produced(fl, out):
    """[(value, element)] of the returned array"""
    r = out.val
    res = []
    if fl.is_ctor(r):
        args = list(r[2]) + [v for _, v in r[3]]
        for a in args:
            c = comp_of(a)
            if c is None:
                if a[0] in ("lst", "list", "tuple") and not a[1]:
                    continue
                return None
            elt, its, conds = c
            if len(its) != 1 or not over_fields(fl, its[0]):
                return None
            if conds:
                res.append((("const", "conditional", "str"), its[0]))
            res.append((elt, its[0]))
    elif r in fl.pol.copies:
        lst = out.st.heap.get((r, "_list"))
        c = comp_of(lst) if lst is not None else None
        if c is None:
            return None
        elt, its, conds = c
        return [(fl.norm(elt), its[0])] if len(its) == 1 and over_fields(
            fl, its[0]) else None
    else:
        return None
    cur = None
    for ev in out.st.trace:
        if ev.kind == "iter" and over_fields(fl, ev.a[0]):
            cur = ev.a[0]
        if ev.kind == "call" and ev.a[0][0] == "attr" and ev.a[0][2] in (
            "append", "extend"
        ) and (ev.a[0][1] == r or ev.a[0][1] == ("attr", r, "_list")):
            if ev.a[0][2] == "extend":
                c = comp_of(ev.a[1][0])
                if c is None or len(c[1]) != 1:
                    return None
                res.append((c[0], c[1][0]))
            else:
                res.append((ev.a[1][0], cur))
    return res


def comp_of(t):
    if t is None:
        return None
    while t[0] == "call" and t[1] in (("ext", "list"), ("ext", "tuple")) and len(
        t[2]
    ) == 1:
        t = t[2][0]
    if t[0] == "comp" and t[1] in ("list", "gen", "ListComp", "GeneratorExp"):
        return t[2], t[3] if isinstance(t[3][0], tuple) else (t[3],), t[4]
    if t[0] == "call" and t[1] == ("ext", "map"):
        return None
    return None


def is_elem(fl, t, it):
    return t[0] in ("elem", "idx") and over_fields(fl, t[1]) or (
        t[0] == "elem" and it is not None and t[1] == it)


def each_ok(ctx, fl, fcls, name, v, it, args):
    v = fl.norm(v)
    if name in OPS:
        op, refl = OPS[name]
        b = binary(v)
        if b is None:
            return None
        if b[0] != op:
            return False
        left, right = b[1], b[2]
        e, o = (right, left) if refl else (left, right)
        if is_elem(fl, e, it) and o == args[0]:
            return True
        if op in "+*" and is_elem(fl, o, it) and e == args[0]:
            return True
        if arith_elem(left) and arith_elem(right):
            return False  # other operands, or only a part of the fields
        return None
    if v[0] == "call" and v[1][0] == "attr" and is_elem(fl, v[1][1], it):
        if v[1][2] != name:
            return False
        target = fcls.methods.get(name)
        if target is None:
            return None
        names = [a.arg for a in target.node.args.args][1:]
        bound = dict(zip(names, v[2]))
        bound.update({k: x for k, x in v[3] if k})
        for a in args:
            if a[1] not in names:
                continue
            if bound.get(a[1]) != a:
                return False
        return True
    if v[0] == "elem":
        return False
    if v[0] == "call" and v[1][0] == "attr" and v[1][2] == name and v[1][1][
        0
    ] == "elem" and part_of_fields(fl, v[1][1][1]):
        return False
    return None


def part_of_fields(fl, it):
    return it[0] == "item" and it[2][0] == "slice" and it[2][1:] != (
        NONE, NONE, NONE) and over_fields(fl, it[1])


def arith_elem(t):
    return t[0] in ("elem", "idx", "param", "const", "attr")


@register("D05")
def both_components(ctx):
    ctx.rule("D05.both", "a method which computes new components gives to each "
             "one a value computed from this component", 2)
    for cls in find_classes(ctx):
        for name, func in sorted(cls.methods.items()):
            if name in ("__init__", "display", "from_file") or (
                name.startswith("_") and not name.startswith("__")
            ):
                continue
            if not any(isinstance(n, ast.Attribute) and n.attr in COMPS
                       and isinstance(n.ctx, ast.Store)
                       for n in ast.walk(func.node)):
                continue
            fl = Fields(ctx, cls, name)
            for out in fl.outs:
                last = {}
                for ev in out.st.trace:
                    if ev.kind == "setattr" and ev.a[1] in COMPS:
                        last[(ev.a[0], ev.a[1])] = (ev.a[2], ev)
                for b in dict.fromkeys(b for b, _ in last):
                    if (b, "vx") not in last and (b, "vy") not in last:
                        continue
                    vx, vy = last.get((b, "vx")), last.get((b, "vy"))
                    if vx is None or vy is None:
                        ev = (vx or vy)[1]
                        ctx.bad("D05.both", func.short, "one component",
                                f"{cls.name}.{name} gives a new value to "
                                f"{ev.a[1]} only", fmt_trace(out.st.trace, 8),
                                ev.line)
                        continue
                    ctx.check(vx[0] != vy[0] or is_const(vx[0]), "D05.both",
                              func.short, "same value",
                              f"{cls.name}.{name} gives the same value to vx and "
                              f"vy: {show(vx[0], 5)}", fmt_trace(out.st.trace, 8),
                              vy[1].line)
                    if name == "compute_time_average" and (b, "vz") not in last:
                        ctx.bad("D05.both", func.short, "vz",
                                "the time average of vz is not computed",
                                fmt_trace(out.st.trace, 8), vy[1].line)


@register("D05")
def time_average(ctx):
    ctx.rule("D05.mean", "the time average is the sum of all the fields divided "
             "by their number", 1)
    _, cls = find_classes(ctx)
    func = cls.methods.get("compute_time_average")
    if func is None:
        raise AnalysisBroken("compute_time_average not found")
    fl = Fields(ctx, cls, "compute_time_average")
    for out in fl.outs:
        if out.kind != "return" or out.val is None:
            continue
        v = fl.norm(out.val)
        b = binary(v)
        if b is None:
            ctx.maybe("D05.mean", func.short, show(v, 4))
            continue
        n = b[2]
        while n[0] == "call" and n[1] == ("ext", "float"):
            n = n[2][0]
        is_len = n in [("len", x) for x in (fl.me, ("attr", fl.me, "_list"))] or (
            n[0] == "call" and n[1] == ("ext", "len") and over_fields(fl, n[2][0])
        ) or n[0] == "len" and over_fields(fl, n[1])
        if not is_len and not is_lenish(n, fl):
            ctx.check(b[0] != "/" or not arith(n), "D05.mean", func.short,
                      "divided", f"the sum is divided by {show(n, 4)}",
                      fmt_trace(out.st.trace, 8), func.node.lineno)
            continue
        ctx.check(b[0] == "/", "D05.mean", func.short, "divided",
                  f"{show(v, 4)} is not a mean", fmt_trace(out.st.trace, 8),
                  func.node.lineno)
        lst = ("attr", fl.me, "_list")
        for ev in out.st.trace:
            if ev.kind == "iter":
                it = fl.norm(ev.a[0])
                first = first_used(b[1], fl)
                if first is None:
                    continue
                want = lst if not first else ("item", lst, (
                    "slice", const(1), NONE, NONE))
                ctx.check(it == want or it == ("item", fl.me, want[-1]) and first
                          or it == fl.me and not first,
                          "D05.mean", func.short, "fields",
                          f"fields summed: {show(it, 4)}"
                          + (" and the first one" if first else ""),
                          fmt_trace(out.st.trace, 8), func.node.lineno)


def is_lenish(n, fl):
    return any(y[0] == "len" for y in walk(n)) or any(
        y == ("ext", "len") for y in walk(n))


def first_used(t, fl):
    """the first field is the start of the sum (None: unknown)"""
    while True:
        b = binary(t)
        if b is None:
            break
        t = b[1]
    if t == const(0):
        return False
    for y in walk(t):
        if y[0] == "item" and y[2] == const(0):
            return True
    return None


# ---------------------------------------------------------------------
def const_list(node, cls, env=None):
    """constant folding of a class attribute (lists of names)"""
    allowed = {"list": list, "tuple": tuple, "product": itertools.product,
               "sorted": sorted}

    def ev(n, env):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, (ast.List, ast.Tuple)):
            r = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    r += list(ev(e.value, env))
                else:
                    r.append(ev(e, env))
            return r
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id in cls.class_attrs:
                return ev(cls.class_attrs[n.id], {})
            raise ValueError
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = ev(n.left, env), ev(n.right, env)
            return list(a) + list(b) if not isinstance(a, str) else a + b
        if isinstance(n, ast.JoinedStr):
            return "".join(
                v.value if isinstance(v, ast.Constant) else str(ev(v.value, env))
                for v in n.values)
        if isinstance(n, (ast.GeneratorExp, ast.ListComp)):
            res = []

            def rec(k, env):
                if k == len(n.generators):
                    res.append(ev(n.elt, env))
                    return
                g = n.generators[k]
                for x in ev(g.iter, env):
                    e = dict(env)
                    if isinstance(g.target, ast.Name):
                        e[g.target.id] = x
                    else:
                        for tt, xx in zip(g.target.elts, x):
                            e[tt.id] = xx
                    rec(k + 1, e)

            rec(0, env)
            return res
        if isinstance(n, ast.Call):
            f = n.func
            args = [ev(a, env) for a in n.args]
            if isinstance(f, ast.Attribute) and f.attr == "join":
                return ev(f.value, env).join(args[0])
            nm = f.attr if isinstance(f, ast.Attribute) else f.id
            if nm in allowed:
                return list(allowed[nm](*args))
        raise ValueError

    return ev(node, env or {})


@register("D05")
def saved(ctx):
    ctx.rule("D05.file", "each quantity and each description given to the "
             "constructor of a field is written when the field is saved, read "
             "under the same name and given to the parameter of this name; "
             "quantities which can be None are written only if they are defined "
             "and read only if they are there", 8)
    cls, _ = find_classes(ctx)
    save = cls.methods.get("save")
    load = cls.methods.get("from_file")
    if save is None or load is None:
        raise AnalysisBroken("save or from_file not found")
    pol = FieldPolicy((cls.module.name,), cls.qual, False)
    interp = Interp(ctx.p, pol)
    me = ("obj", "self", cls.qual)
    outs = interp.run(save, args=arguments(save), self_term=me, st=State())
    ctx.seen(interp)
    lists = {}

    def names_of(it):
        """names of the list iterated, from the class attributes"""
        if it[0] == "attr" and (it[1] == me or it[1][0] in (
            "class", "param", "obj")):
            n = it[2]
            if n not in lists:
                c, node = cls.find_attr(n) or (None, None)
                try:
                    lists[n] = const_list(node, cls)
                except Exception:
                    lists[n] = None
            return lists[n]
        if it[0] in ("tuple", "lst") and all(is_const(x) for x in it[1]):
            return [x[1] for x in it[1]]
        return None

    written, unsafe, kinds = {}, {}, {}
    unknown = False
    for out in outs:
        for ev in out.st.trace:
            n = v = None
            if ev.kind == "call" and ev.a[0][0] == "attr" and ev.a[0][
                2] == "create_dataset":
                n = ev.a[1][0] if ev.a[1] else None
                v = dict(ev.a[2]).get("data")
                if v is None and len(ev.a[1]) > 3:
                    v = ev.a[1][3]
                kind = "dataset"
            elif ev.kind == "setitem":
                n, v = ev.a[1], ev.a[2]
                kind = "attribute" if ev.a[0][0] == "attr" and ev.a[0][
                    2] == "attrs" else "dataset"
            if n is None or v is None:
                continue
            for name, val in expand(n, v, names_of):
                if name is None:
                    unknown = True
                    continue
                src = source_name(val, me)
                if src is None:
                    if name not in ("class_name", "module_name"):
                        unknown = True
                    continue
                ctx.check(src == name, "D05.file", save.short,
                          f"{name} <- {src}", f"{name} is written with the value "
                          f"of {src}", fmt_trace(out.st.trace, 6), ev.line)
                written.setdefault(name, set()).add(kind)
                if not not_none(out, ev, v):
                    unsafe[name] = (out, ev)
    interp = Interp(ctx.p, FieldPolicy((cls.module.name,), cls.qual, False))
    outs = interp.run(load, args=arguments(load),
                      self_term=me, st=State())
    ctx.seen(interp)
    read, passed = {}, False
    for out in outs:
        if out.kind != "return":
            continue
        got = {}
        own = False
        for ev in out.st.trace:
            if ev.kind == "setitem" and is_namedict(ev.a[0]):
                for name, val in expand(ev.a[1], ev.a[2], names_of):
                    if name is None:
                        unknown = True
                        continue
                    r = read_name(val)
                    if r is not None:
                        rn = r[0]
                        if rn[0] in ("elem", "idx", "val", "key"):
                            rn = ("const", name, "str")
                        if is_const(rn):
                            own = True
                            got[name] = (rn[1], r[1], ev, out)
        if own:
            for name, x in got.items():
                read.setdefault(name, []).append(x)
    init = ctx.p.find_method(cls.name, "__init__")
    params = [a.arg for a in init.node.args.args][1:]
    if not written or not read:
        raise AnalysisBroken("names of the saved quantities not found")
    ctx.notes.append(f"D05.file: written {sorted(written)}; read {sorted(read)}")
    nones = {"z"} if none_given(load, "z") else set()
    for n in params:
        if n == "params":
            continue
        if unknown and n not in written:
            ctx.maybe("D05.file", save.short, f"{n} written?")
        else:
            ctx.check(n in written, "D05.file", save.short, f"{n} written",
                      f"{n} is not saved in the file", None, save.node.lineno)
        if n in written and not (unknown and n not in read):
            ctx.check(n in read, "D05.file", load.short, f"{n} read",
                      f"{n} is saved but never read back", None,
                      load.node.lineno)
    for n, lst in read.items():
        for rn, kind, ev, out in lst:
            if not known_name(rn, n, written):
                continue
            ctx.check(rn == n, "D05.file", load.short, f"{n} <- {rn}",
                      f"parameter {n} is given what is read under {rn}",
                      None, ev.line)
            ctx.check(kind in written.get(n, ()), "D05.file", load.short,
                      f"{n}: {kind}", f"{n} is read as a {kind} but saved as "
                      f"{sorted(written.get(n, ()))}", None, ev.line)
    for n in nones & set(written):
        if n in unsafe:
            out, ev = unsafe[n]
            ctx.bad("D05.file", save.short, f"{n} None",
                    f"a field whose {n} is None (as the fields of PIV files) "
                    "cannot be saved", fmt_trace(out.st.trace, 6), ev.line)
        else:
            ctx.ok("D05.file", save.short, f"{n} None")
            for rn, kind, ev, out in read.get(n, ()):
                ctx.check(
                    any(e.kind == "assume" and e.a[0][0] == "cmp" and e.a[0][1]
                        in ("in", "not in") for e in out.st.trace) or guarded_read(
                            load),
                    "D05.file", load.short, f"{n} absent",
                    f"{n} is written only if it is defined but always read",
                    None, ev.line)


def guarded_read(load):
    return any(isinstance(n, ast.Compare) and any(
        isinstance(o, (ast.In, ast.NotIn)) for o in n.ops)
        for n in ast.walk(load.node)) or any(
            isinstance(n, ast.Try) for n in ast.walk(load.node)) or any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                and n.func.attr == "get" for n in ast.walk(load.node))


def known_name(rn, n, written):
    return rn in written


def none_given(load, name):
    for n in ast.walk(load.node):
        if isinstance(n, ast.Assign) and isinstance(
            n.value, ast.Constant
        ) and n.value.value is None:
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(
                    t.slice, ast.Constant) and t.slice.value == name:
                    return True
        if isinstance(n, ast.keyword) and n.arg == name and isinstance(
            n.value, ast.Constant) and n.value.value is None:
            return True
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value == name and \
                        isinstance(v, ast.Constant) and v.value is None:
                    return True
    return False


def is_namedict(t):
    return t[0] in ("dict", "dct", "obj", "sym", "uid", "new", "call", "param")


def expand(n, v, names_of):
    """(name, value) for each name of the loop"""
    if is_const(n):
        yield n[1], v
        return
    if n[0] in ("elem", "idx", "val", "key"):
        names = names_of(n[1])
        if names is None:
            yield None, v
            return
        for x in names:
            yield x, ("for", x, v, n)
        return
    yield None, v


def source_name(v, me):
    """name of the attribute of the field from which the value comes"""
    loop = None
    if v[0] == "for":
        _, x, v, loop = v
    for y in walk(v):
        if y[0] == "attr" and y[1] == me and not (
            y[2].startswith("_") or y[2] == "params"
        ):
            return y[2]
        if y[0] == "attr?" and y[1] == me and y[2] == loop:
            return x
        if y[0] == "call" and y[1] == ("ext", "getattr") and y[2][0] == me:
            if y[2][1] == loop:
                return x
            if is_const(y[2][1]):
                return y[2][1][1]
        if y[0] == "item" and y[2] == loop and loop is not None and any(
            z == me for z in walk(y[1])
        ):
            return x
    return None


def not_none(out, ev, v):
    """the value is known to be defined when it is written"""
    for e in out.st.trace:
        if e is ev:
            break
        if e.kind == "assume" and e.a[0][0] == "cmp" and e.a[0][1] in (
            "is", "==", "is not", "!="
        ) and NONE in e.a[0][2:4] and any(x == v for x in e.a[0][2:4]):
            if (e.a[0][1] in ("is", "==")) == (e.a[1] == FALSE):
                return True
    return False


def read_name(val):
    """(name, kind) of what is read in the file"""
    loop = None
    if val[0] == "for":
        _, x, val, loop = val
    for y in walk(val):
        if y[0] == "item" and (y[2] == loop and loop is not None or (
            is_const(y[2]) and isinstance(y[2][1], str)
        )):
            b = y[1]
            n = const(x) if y[2] == loop and loop is not None else y[2]
            if b[0] == "attr" and b[2] == "attrs":
                return n, "attribute"
            return n, "dataset"
        if y[0] == "call" and y[1][0] == "attr" and y[1][2] == "get" and y[2]:
            b = y[1][1]
            n = const(x) if y[2][0] == loop and loop is not None else y[2][0]
            if is_const(n):
                return n, "attribute" if b[0] == "attr" and b[
                    2] == "attrs" else "dataset"
    return None


# ---------------------------------------------------------------------
@register("D05")
def constructor(ctx):
    ctx.rule("D05.init", "the constructor keeps each quantity under its name, "
             "and reverses a coordinate together with all the components along "
             "this direction", 10)
    cls, _ = find_classes(ctx)
    init = cls.methods.get("__init__")
    if init is None:
        raise AnalysisBroken("constructor of the fields not found")
    pol = FieldPolicy((cls.module.name,), cls.qual, False)
    pol.should_inline = lambda f, i, s: f.module is cls.module and not \
        f.name.startswith("_init")
    interp = Interp(ctx.p, pol)
    me = ("obj", "self", cls.qual)
    outs = interp.run(init, args=arguments(init), self_term=me, st=State())
    ctx.seen(interp)
    params = [a.arg for a in init.node.args.args][1:]
    for out in outs:
        if out.kind == "raise":
            continue
        vals = {}
        for n in params:
            v = out.st.heap.get((me, n))
            if v is None:
                ctx.bad("D05.init", init.short, n,
                        f"the constructor does not keep {n}", None,
                        init.node.lineno)
                continue
            vals[n] = v
        axes = {}
        for n, v in vals.items():
            r = flips(v, n)
            if r is None:
                others = [y[1] for y in walk(v) if y[0] == "param"]
                if others and n not in others:
                    ctx.bad("D05.init", init.short, n,
                            f"{n} of the field is {show(v, 4)}",
                            fmt_trace(out.st.trace), init.node.lineno)
                else:
                    ctx.maybe("D05.init", init.short, f"{n} = {show(v, 4)}")
                continue
            axes[n] = r
            if n not in COMPS + ("x", "y", "z"):
                ctx.ok("D05.init", init.short, n)
        if not all(n in axes for n in ("x", "y", "vx", "vy")):
            continue
        want = set()
        if "any" in axes["x"]:
            want.add(1)
        if "any" in axes["y"]:
            want.add(0)
        for n in ("vx", "vy"):
            ctx.check(set(axes[n]) == want and len(axes[n]) == len(want),
                      "D05.init", init.short, f"{n} reversed",
                      f"{n} is reversed along {sorted(map(str, axes[n]))} when "
                      f"the coordinates are reversed along {sorted(want)}",
                      fmt_trace(out.st.trace), init.node.lineno)
        if "vz" in axes:
            ctx.check(set(axes["vz"]) <= want, "D05.init", init.short,
                      "vz reversed", "vz is reversed along "
                      f"{sorted(map(str, axes['vz']))}, coordinates along "
                      f"{sorted(want)}", fmt_trace(out.st.trace),
                      init.node.lineno)


def flips(v, n):
    """axes along which the parameter is reversed"""
    res = []
    while True:
        if v == ("param", n):
            return res
        if v[0] == "call" and v[1][0] == "ext" and v[2]:
            f = v[1][1].split(".")[-1]
            if f == "fliplr":
                res.append(1)
            elif f == "flipud":
                res.append(0)
            elif f == "flip":
                ax = dict(v[3]).get("axis", v[2][1] if len(v[2]) > 1 else None)
                res.append(ax[1] if ax is not None and is_const(ax) else "any")
            elif f in ("list", "tuple", "asarray", "array", "copy", "deepcopy"):
                pass
            else:
                return None
            v = v[2][0]
            continue
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] in (
            "item", "copy", "tolist"
        ):
            v = v[1][1]
            continue
        if v[0] == "item":
            i = v[2]
            rev = ("slice", NONE, NONE, const(-1))
            full = ("slice", NONE, NONE, NONE)
            if i == rev:
                res.append("any" if n in ("x", "y") else 0)
            elif i == ("tuple", (full, rev)):
                res.append(1)
            elif i == ("tuple", (rev, full)):
                res.append(0)
            else:
                return None
            v = v[1]
            continue
        return None
