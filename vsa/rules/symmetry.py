"""D07: symmetry between the two directions of space"""

from ..arrays import Swap
from ..directions import Directions
from ..framework import fmt_trace
from ..interp import Interp, Policy, State
from ..project import AnalysisBroken
from ..terms import TRUE, base_name, is_const, map_term, show
from . import register

MODULES = ("fluidimage.works.piv", "fluidimage.calcul",
           "fluidimage.data_objects.piv", "fluidimage.works.with_mask",
           "fluidimage.works.optical_flow", "fluidimage.postproc.piv",
           "fluidimage.postproc.vector_field")
KINDS = {
    "assign": ("names of one direction (x, columns / y, rows) only receive "
               "quantities of this direction", 200),
    "op": ("quantities of different directions are neither added, subtracted nor "
           "compared (except symmetrically)", 200),
    "index": ("arrays with two dimensions are indexed (y, x), and arrays of one "
              "direction with indices of this direction", 100),
    "call": ("arguments have the direction of the parameters", 20),
    "shape": ("shapes are (number along y, number along x)", 10),
    "layout": ("pairs are produced and used in the same order (x, y) or (y, x)",
               10),
    "test": ("a condition on one direction does not only change the other one",
             1),
}


def in_scope(name):
    return name.startswith(MODULES) and "test" not in name.split(".")[-1] and (
        not name.endswith("thin_plate_spline"))


@register("D07")
def types(ctx):
    for k, (text, floor) in KINDS.items():
        ctx.rule(f"D07.{k}", text, floor)
    d = Directions(ctx.p, in_scope)
    if len(d.funcs) < 30:
        raise AnalysisBroken("modules computing displacements not found")
    d.run()
    bad = {}
    for (where, kind, construct), (msg, line) in d.errors.items():
        bad[kind] = bad.get(kind, 0) + 1
        ctx.bad(f"D07.{kind}", where, construct, msg, None, line)
    for k, n in d.n.items():
        for i in range(n - bad.get(k, 0)):
            ctx.ok(f"D07.{k}", "types", str(i))


# ---------------------------------------------------------------------
TWINS = ("_prepare_with_image", "_init_crop", "_crop_im0", "_crop_im1",
         "_calcul_positions_vectors_subimages", "_pad_images",
         "compute_displacement_from_indices", "_init_shape_crop",
         "compute_indices_from_displacement")


class TwinPolicy(Policy):
    unroll = 1
    max_states = 6000
    soft_states = 80

    def __init__(self, module):
        self.module = module

    def should_inline(self, func, interp, st):
        return func.module.name == self.module and not func.name.startswith(
            "_xy")


ASSOC = ("+", "*", "&", "|")


def norm(t):
    """normal form: operands of associative and commutative operations sorted"""
    def f(x):
        if x[0] == "op" and x[1] in ASSOC:
            out = []

            def flat(y):
                if y[0] == "op" and y[1] == x[1] and len(y) == 4:
                    flat(y[2])
                    flat(y[3])
                elif y[0] == "assoc" and y[1] == x[1]:
                    out.extend(y[2])
                else:
                    out.append(y)
            flat(x)
            return ("assoc", x[1], tuple(sorted(out, key=repr)))
        return x
    return map_term(t, f)


def facts(out, sw=None):
    res = {}
    for ev in out.st.trace:
        if ev.kind == "assume":
            c, v = ev.a[0], ev.a[1] == TRUE
            while c[0] == "not":
                c, v = c[1], not v
            if c[0] == "cmp" and c[1] in ("!=", "is not", ">=", "not in"):
                op = {"!=": "==", "is not": "is", ">=": "<", "not in": "in"}[c[1]]
                c, v = ("cmp", op) + c[2:], not v
            if sw is not None:
                c = sw(c)
            res[norm(c)] = v
        elif ev.kind in ("iter", "exhausted"):
            it = ev.a[0]
            if sw is not None:
                it = sw(it)
            res[("loop", norm(it), str(ev.a[1]))] = ev.kind == "iter"
    return res


def outputs(out, interp, sw=None):
    """what the path produces: attributes, returned value, written elements"""
    f = (lambda t: sw(t)) if sw is not None else (lambda t: t)
    g = sw.name if sw is not None else (lambda n: n)
    res = {}
    writes = set()
    for ev in out.st.trace:
        if ev.kind == "setattr":
            v = interp.deref(ev.a[2], out.st)
            res[("attr", norm(f(ev.a[0])), g(ev.a[1]))] = norm(f(v))
        elif ev.kind == "setitem" and ev.a[0][0] not in ("list", "dict"):
            v = interp.deref(ev.a[2], out.st)
            writes.add(norm(f(("item", ev.a[0], ev.a[1]))) + (norm(f(v)),))
    if writes:
        res[("writes",)] = frozenset(writes)
    if out.kind == "return" and out.val is not None:
        res[("return",)] = norm(f(interp.deref(out.val, out.st)))
    res[("kind",)] = out.kind
    return res


def no_uid(t):
    """calls made in another order are the same calls"""
    def f(x):
        if x[0] == "call" and len(x) > 4:
            return x[:4]
        if x[0] in ("uid", "list", "dict"):
            return ("const", "?", "str")
        return x
    return map_term(t, f)


class TwinSwap(Swap):
    def __call__(self, t):
        if isinstance(t, tuple) and t and t[0] == "item" and is_const(
            t[2]
        ) and t[2][1] in (0, 1) and not isinstance(t[2][1], bool):
            b = t[1]
            flip = ("const", 1 - t[2][1], "int")
            if b[0] == "call" and base_name(b[1]) == "meshgrid" and len(
                b[2]
            ) == 2:
                c = b[:2] + ((self(b[2][1]), self(b[2][0])),) + b[3:]
                return ("item", c, flip)
            if b[0] in ("attr", "param", "sym") and self.name(
                b[-1] if b[0] == "attr" else b[1]
            ) != (b[-1] if b[0] == "attr" else b[1]):
                return ("item", self(b), t[2])
            return ("item", self(b), flip)
        return super().__call__(t)


class NoUid:
    def __init__(self, sw, exchange=False):
        self.sw = sw
        self.exchange = exchange

    def __call__(self, t):
        if self.exchange and t[0] == "tuple" and len(t[1]) % 2 == 0:
            out = []
            for i in range(0, len(t[1]), 2):
                out += [self.sw(t[1][i + 1]), self.sw(t[1][i])]
            return no_uid(("tuple", tuple(out)))
        return no_uid(self.sw(t))

    def name(self, n):
        return self.sw.name(n)


class Ident:
    def __call__(self, t):
        return no_uid(t)

    def name(self, n):
        return n


@register("D07")
def twins(ctx):
    ctx.rule("D07.twin", "exchanging the two directions exchanges the paths of the "
             "function and what they produce", 4)
    swap = TwinSwap(ctx.p)
    sw, sw2, ident = NoUid(swap), NoUid(swap, True), Ident()
    n = 0
    for f in ctx.p.all_funcs():
        if f.name not in TWINS or not f.module.name.startswith(
            ("fluidimage.works.piv", "fluidimage.calcul.correl")
        ) or "abstractmethod" in f.decorators:
            continue
        interp = Interp(ctx.p, TwinPolicy(f.module.name))
        a = f.node.args
        args = {x.arg: ("param", x.arg) for x in a.args + a.kwonlyargs
                if x.arg not in ("self", "cls")}
        me = ("obj", "self", f.cls.qual) if f.cls is not None else None
        outs = interp.run(f, args=args, self_term=me, st=State())
        ctx.seen(interp)
        n += 1
        outs = [o for o in outs if o.kind in ("return", "raise")]
        prod = [(facts(o, ident), outputs(o, interp, ident)) for o in outs]
        twin = [(facts(o, sw), outputs(o, interp, sw), outputs(o, interp, sw2))
                for o in outs]
        conds = {c for p in prod for c in p[0]}
        missing = set()
        for ft, _, _ in twin:
            for c in ft:
                if c not in conds and c[0] != "loop":
                    missing.add(c)
        if missing:
            c = sorted(missing, key=lambda c: (len(repr(c)), repr(c)))[0]
            ctx.bad("D07.twin", f.short, "conditions",
                    f"{f.name} tests a condition for one direction which has no "
                    "counterpart for the other one (expected "
                    f"{show(readable(c), 6)})", None, f.node.lineno)
            continue
        for o, (ft, pt, px) in zip(outs, twin):
            exact = [q for q in prod if q[0] == ft]
            compat = exact or [
                q for q in prod
                if all(q[0].get(c, v) == v for c, v in ft.items())]
            if not compat:
                ctx.maybe("D07.twin", f.short, "no symmetric path")
                continue
            ok = any(similar(q[1], pt, px) for q in compat)
            what = ""
            if not ok:
                q = min((q[1] for q in compat),
                        key=lambda q: len(differences(q, pt)))
                what = describe(q, pt)
            ctx.check(ok, "D07.twin", f.short, "result",
                      f"{f.name}: x and y are not treated in the same way: "
                      f"{what}", fmt_trace(o.st.trace, 10), f.node.lineno)
    if not n:
        raise AnalysisBroken("functions treating the two directions not found")


def similar(a, b, c):
    """each output is one of the two forms of the counterpart"""
    return a.keys() == b.keys() == c.keys() and all(
        a[k] in (b[k], c[k]) for k in a)


def differences(a, b):
    return [k for k in set(a) | set(b) if a.get(k) != b.get(k)]


def readable(t):
    def f(x):
        if x[0] == "assoc":
            r = x[2][0]
            for y in x[2][1:]:
                r = ("op", x[1], r, y)
            return r
        return x
    return map_term(t, f)


def describe(a, b):
    for k in sorted(differences(a, b), key=repr):
        u, v = a.get(k), b.get(k)
        name = k[2] if k[0] == "attr" else k[0]

        def s(t):
            if isinstance(t, tuple):
                return show(readable(t), 5)
            if isinstance(t, frozenset):
                return f"{len(t)} elements written"
            return str(t)
        return f"{name} is {s(u)}, the counterpart gives {s(v)}"
    return ""
