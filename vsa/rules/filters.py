"""D02, D03: detection, removal and description of the wrong vectors"""

from ..algebra import poly
from ..arrays import (
    ArrayPolicy, Swap, contains, contains_if, is_new, selected, strip_int,
    where_cond,
)
from ..framework import fmt_trace
from ..interp import Interp, State
from ..project import AnalysisBroken
from ..terms import (
    FALSE, NONE, TRUE, base_name, const, is_const, map_term, show, walk,
)
from . import register

R = ("param", "piv_results")
LIMITS = {
    # parameter: (quantity, optional)
    "correl_min": ("correlation", False),
    "displacement_max": ("displacement", True),
    "threshold_diff_neighbour": ("difference", True),
}


def is_nan(t):
    return t == ("ext", "numpy.nan") or (
        is_const(t) and isinstance(t[1], float) and t[1] != t[1]
    ) or (
        t[0] == "call" and t[1] == ("ext", "float") and t[2] == (const("nan"),)
    ) or t in (("ext", "math.nan"), ("ext", "numpy.NaN"))


def fix_traces(ctx):
    f = ctx.p.find_method("WorkFIX", "calcul")
    c = ctx.p.find_class("WorkFIX")
    if f is None or c is None:
        raise AnalysisBroken("WorkFIX.calcul not found")
    arg = [a.arg for a in f.node.args.args][1]
    pol = ArrayPolicy()
    pol.raising = {"apply_subpix": ("PIVError",)}
    interp = Interp(ctx.p, pol)
    outs = interp.run(f, args={arg: R}, self_term=("obj", "self", c.qual),
                      st=State())
    ctx.seen(interp)
    res = [o for o in outs if o.kind == "return"]
    if not res:
        raise AnalysisBroken("WorkFIX.calcul never returns")
    return f, res


class Trace:
    """the writes of one path, by quantity of the result"""

    def __init__(self, out):
        self.tr = out.st.trace
        self.fields = {}
        for ev in self.tr:
            if ev.kind == "setattr" and ev.a[0] == R:
                self.fields[ev.a[2]] = ev.a[1]
        self.writes = []  # (position, field, idx, value or None if deleted)
        self.before = {}
        for i, ev in enumerate(self.tr):
            if ev.kind in ("setitem", "delitem"):
                n = self.field(ev.a[0])
                if n is not None:
                    v = self.norm(ev.a[2]) if ev.kind == "setitem" else None
                    self.writes.append((i, n, strip_int(ev.a[1]), v))

    def norm(self, t):
        """the quantities of the result are named"""
        if not self.fields:
            return t
        return map_term(
            t, lambda x: ("attr", R, self.fields[x]) if x in self.fields else x
        )

    def field(self, t):
        if t[0] == "attr" and t[1] == R:
            return t[2]
        return self.fields.get(t)

    def original(self, t):
        """(field, index) if the term is an element of a quantity"""
        if t[0] == "item":
            n = self.field(t[1])
            if n:
                return n, strip_int(t[2])
        return None

    def assumed(self, upto, pred):
        for ev in self.tr[:upto]:
            if ev.kind == "assume" and pred(ev.a[0], ev.a[1] == TRUE):
                return True
        return False


def comparisons(t):
    for x in walk(t):
        if x[0] == "cmp" and x[1] in ("<", "<="):
            yield x


def param_names(t):
    return {x[2] for x in walk(t) if x[0] == "attr" and x[2] in LIMITS}


def root(t):
    """(square, what is squared) for a length given by its square root"""
    if t[0] == "call" and t[1][0] == "ext":
        n = t[1][1].split(".")[-1]
        if n == "sqrt" and len(t[2]) == 1:
            return squares(t[2][0])
        if n == "hypot" and len(t[2]) == 2:
            return t[2]
    if t[0] == "op" and t[1] == "**" and t[3] in (const(0.5),):
        return squares(t[2])
    return None


def squares(t):
    """(a, b) if t is a**2 + b**2"""
    while t[0] == "item" and not is_new(t[1]) and t[1][0] in ("op",):
        t = t[1]
    if t[0] == "op" and t[1] == "+":
        r = []
        for x in (t[2], t[3]):
            if x[0] == "op" and x[1] == "**" and x[3] == const(2):
                r.append(x[2])
            elif x[0] == "op" and x[1] == "*" and x[2] == x[3]:
                r.append(x[2])
            elif x[0] == "call" and x[1][0] == "ext" and x[1][1].split(".")[
                -1
            ] == "square":
                r.append(x[2][0])
            else:
                return None
        return tuple(r)
    return None


def degree(t, name):
    """degree of the parameter in a side of the comparison"""
    if t[0] == "attr" and t[2] == name:
        return 1
    if t[0] == "op" and t[1] == "**" and t[3] == const(2):
        d = degree(t[2], name)
        return 2 * d if d else d
    if t[0] == "op" and t[1] == "*" and t[2] == t[3]:
        d = degree(t[2], name)
        return 2 * d if d else d
    if t[0] == "call" and t[1][0] == "ext" and len(t[2]) == 1:
        n = t[1][1].split(".")[-1]
        d = degree(t[2][0], name)
        if n in ("float", "abs", "float32"):
            return d
        if n == "square" and d:
            return 2 * d
    return None


def judge(tr, cmp_, swap):
    """None (correct), a message, or '?...' if the shape is not known"""
    names = param_names(cmp_)
    if len(names) != 1:
        return "?several thresholds"
    name = next(iter(names))
    quantity = LIMITS[name][0]
    low, high = cmp_[2], cmp_[3]
    in_low, in_high = bool(param_names(low)), bool(param_names(high))
    if in_low and in_high:
        return "?threshold on both sides"
    limit, measured = (low, high) if in_low else (high, low)
    if quantity == "correlation":
        if degree(limit, name) != 1:
            return f"?{name} transformed"
        if measured[0] == "op":
            return "?" + show(measured)
        fields = {x[2] for x in walk(measured) if x[0] == "attr" and x[1] == R}
        wrong = {f for f in fields if f.startswith("delta")}
        if wrong:
            return f"'{name}' is compared with {sorted(wrong)}"
        return None
    d = degree(limit, name)
    if d not in (1, 2):
        return f"?{name} transformed"
    if measured[0] == "item" and is_new(measured[1]):
        vals = [ev.a[2] for ev in tr.tr if ev.kind == "setitem"
                and ev.a[0] == measured[1]]
        vals = [v for v in vals if v[0] != "const"]
    else:
        vals = [measured]
    for v in vals:
        comp = squares(v)
        deg = 2
        if comp is None:
            comp, deg = root(v), 1
        if comp is None:
            fields = {x[2] for x in walk(v) if x[0] == "attr" and x[1] == R}
            if "correls_max" in fields and not any(
                f.startswith("delta") for f in fields
            ):
                return f"'{name}' is compared with a correlation"
            return "?" + show(v)
        if deg != d:
            return (
                f"'{name}' (power {d}) is compared with a length at the "
                f"power {deg}"
            )
        a, b = comp
        if not swap.same(a, b) and not _opposite(swap(a), b):
            return (
                f"the two components compared with '{name}' do not "
                f"correspond: {show(a)[:80]} and {show(b)[:80]}"
            )
        isdiff = contains_if(v, lambda x: x[0] == "call" and x[1][0] == "func"
                             and "neighbo" in x[1][1][3])
        if quantity == "difference" and not isdiff:
            return f"?difference {show(v)[:80]}"
        if quantity == "displacement" and isdiff:
            return f"'{name}' is compared with a difference with neighbours"
    return None


def _opposite(a, b):
    return (poly(a) + poly(b)).is_zero() or (poly(a) - poly(b)).is_zero()


def is_set(term, value, name):
    """the assumption says that the parameter is given"""
    if term[0] == "attr" and term[2] == name:
        return value is True
    if term[0] == "cmp" and term[1] == "is" and term[3] == NONE and term[2][
        0
    ] == "attr" and term[2][2] == name:
        return value is False
    if term[0] == "not":
        return is_set(term[1], not value, name)
    return False


def is_unset(term, value, name):
    if term[0] == "attr" and term[2] == name:
        return value is False
    if term[0] == "cmp" and term[1] == "is" and term[3] == NONE and term[2][
        0
    ] == "attr" and term[2][2] == name:
        return value is True
    if term[0] == "not":
        return is_unset(term[1], not value, name)
    return False


def in_container(term, value, tr, names):
    """fields for which an index is assumed (value True) to be a key"""
    if term[0] == "cmp" and term[1] == "in":
        n = tr.field(term[3])
        if n in names:
            return strip_int(term[2]), value
    if term[0] == "cmp" and term[1] == "==":
        return strip_int(term[2]), value
    return None


@register("D03")
def filters(ctx):
    ctx.rule("D03.pair", "both components of a vector are changed together, "
             "with corresponding values")
    ctx.rule("D03.keep", "the original value of a rejected vector is kept under "
             "its index before it is made invalid, and only then")
    ctx.rule("D03.threshold", "each threshold is compared with the quantity "
             "which it documents, in the right direction and dimension")
    ctx.rule("D03.set", "an optional threshold is used only if it is set, and "
             "it is applied when it is set")
    ctx.rule("D03.select", "vectors are rejected only by selections or errors")
    ctx.rule("D03.replace", "a secondary peak replaces a vector only if it "
             "respects the thresholds; the old vector is kept and its error "
             "is removed with its wrong values")
    f, outs = fix_traces(ctx)
    swap = Swap(ctx.p)
    where = f.short
    seen = set()

    def once(rule, construct, msg, ev, tr):
        if (rule, construct) not in seen:
            seen.add((rule, construct))
            ctx.bad(rule, where, construct, msg, fmt_trace(tr.tr[: ev + 1]),
                    tr.tr[ev].line if ev < len(tr.tr) else None)

    judged = {}
    for o in outs:
        tr = Trace(o)
        check_pairs(ctx, tr, swap, once)
        check_keep(ctx, tr, once)
        # thresholds
        for i, ev in enumerate(tr.tr):
            if ev.kind not in ("call", "assume", "iter", "setitem"):
                continue
            for c in comparisons(ev.a[0] if ev.kind != "call" else ev.a):
                ns = param_names(c)
                if not ns:
                    continue
                key = (c, tuple(sorted(ns)))
                if key not in judged or judged[key] in (None,):
                    r = judge(tr, c, swap)
                    if key not in judged:
                        judged[key] = r
                    if r and not r.startswith("?"):
                        once("D03.threshold", "comparison with "
                             + ", ".join(sorted(ns)), r, i, tr)
                    # direction
                for n in ns:
                    if LIMITS[n][1] and not tr.assumed(
                        i, lambda t, v: is_set(t, v, n)
                    ):
                        once("D03.set", n, f"'{n}' is compared although it "
                             "may not be set", i, tr)
        check_direction(ctx, tr, once)
        check_applied(ctx, tr, once)
        check_replace(ctx, tr, swap, once)
    for (c, ns), r in judged.items():
        if r is None:
            ctx.ok("D03.threshold", where, show(c)[:80])
        elif r.startswith("?"):
            ctx.maybe("D03.threshold", where, r[1:120])
    for rule in ("D03.pair", "D03.keep", "D03.set", "D03.select", "D03.replace"):
        if not any(s[0] == rule for s in seen):
            ctx.ok(rule, where, f"{len(outs)} paths")


def check_pairs(ctx, tr, swap, once):
    for a, b in (("deltaxs", "deltays"), ("deltaxs_wrong", "deltays_wrong")):
        xs = [w for w in tr.writes if w[1] == a]
        ys = [w for w in tr.writes if w[1] == b]

        def cls(w):
            return "deleted" if w[3] is None else "nan" if is_nan(w[3]) else "val"

        left = list(ys)
        for w in xs:
            m = [y for y in left if y[2] == w[2] and cls(y) == cls(w)]
            if not m:
                once("D03.pair", a, f"an element of {a} is changed ({cls(w)}) "
                     f"and the same element of {b} is not", w[0], tr)
                continue
            good = [y for y in m if cls(w) != "val" or swap.same(w[3], y[3])]
            if not good:
                once("D03.pair", f"value of {a}", f"the values written in {a} "
                     f"and {b} do not correspond: {show(w[3])[:100]} and "
                     f"{show(m[0][3])[:100]}", w[0], tr)
                left.remove(m[0])
            else:
                left.remove(good[0])
        for y in left:
            once("D03.pair", b, f"an element of {b} is changed ({cls(y)}) and "
                 f"the same element of {a} is not", y[0], tr)
    for i, ev in enumerate(tr.tr):
        if ev.kind == "iaug" and tr.field(ev.a[1]) in ("deltaxs", "deltays"):
            once("D03.select", "all the vectors", "all the vectors are changed",
                 i, tr)


def check_keep(ctx, tr, once):
    for x, w in (("deltaxs", "deltaxs_wrong"), ("deltays", "deltays_wrong")):
        kept = {}
        nan = {}
        for i, n, idx, v in tr.writes:
            if n == w and v is None:
                kept.pop(idx, None)
            elif n == w:
                o = tr.original(v)
                if o != (x, idx):
                    once("D03.keep", w, f"what is kept in {w} is not the "
                         f"original value of the same vector: {show(v)[:80]}",
                         i, tr)
                if idx in nan:
                    once("D03.keep", w + " after", f"{w} is filled after the "
                         "vector has been made invalid", i, tr)
                for other in list(kept):
                    if other != idx and not _known_new(tr, i, idx, other):
                        once("D03.keep", w + " overwritten", "a vector which is "
                             f"already wrong may be kept again in {w} (its "
                             "original value is lost)", i, tr)
                kept[idx] = i
            elif n == x and v is not None and is_nan(v):
                if idx not in kept and not _known_old(tr, i, idx):
                    once("D03.keep", x, f"{x} is made invalid and its original "
                         f"value is not kept in {w}", i, tr)
                nan[idx] = i
                if selected(idx) is None and not (
                    idx[0] in ("key", "elem", "idx")
                ):
                    once("D03.select", x, f"rejection of {show(idx)[:60]}", i, tr)


def _known_new(tr, upto, idx, other):
    """idx is known not to be in the wrong vectors"""
    for ev in tr.tr[:upto]:
        if ev.kind != "assume":
            continue
        t, v = ev.a[0], ev.a[1] == TRUE
        if t[0] == "cmp" and t[1] in ("==", "in") and v is False and strip_int(
            t[2]
        ) in (idx, other):
            return True
        if t[0] == "cmp" and t[1] == "==" and v is False and strip_int(
            t[3]
        ) in (idx, other):
            return True
    # two elements of the same selection are different
    return idx[0] == other[0] and len(idx) > 2 and idx[:2] == other[:2]


def _known_old(tr, upto, idx):
    for ev in tr.tr[:upto]:
        if ev.kind == "assume" and ev.a[1] == TRUE and ev.a[0][
            0
        ] == "cmp" and ev.a[0][1] in ("==", "in"):
            if strip_int(ev.a[0][2]) == idx or (
                ev.a[0][1] == "==" and strip_int(ev.a[0][3]) == idx
            ):
                return True
    return False


def check_direction(ctx, tr, once):
    """selections of rejected vectors: measured < min, max < measured"""
    for i, ev in enumerate(tr.tr):
        if ev.kind != "setitem" or tr.field(ev.a[0]) != "deltaxs":
            continue
        if not is_nan(ev.a[2]):
            continue
        c = selected(ev.a[1])
        neg = False
        while c is not None and c[0] in ("not",) or (
            c is not None and c[0] == "op" and c[1] == "~"
        ):
            c, neg = c[-1], not neg
        if c is None or c[0] != "cmp" or c[1] not in ("<", "<="):
            continue
        for n in param_names(c):
            low = bool(param_names(c[2]))
            if neg:
                low = not low
            want = LIMITS[n][0] != "correlation"
            if low != want:
                once("D03.threshold", f"direction of {n}", "vectors are "
                     f"rejected when {show(c)[:120]}", i, tr)


def check_applied(ctx, tr, once):
    selections = set()
    for ev in tr.tr:
        if ev.kind in ("iter", "exhausted"):
            c = where_cond(ev.a[0])
            if c is not None:
                selections |= param_names(c)
        elif ev.kind == "setitem":
            c = selected(ev.a[1])
            if c is not None:
                selections |= param_names(c)
        elif ev.kind == "assume":
            c = ev.a[0]
            if c[0] == "cmp" and c[1] in ("<", "<=") and contains(c, R):
                selections |= param_names(c)
    for n, (_, optional) in LIMITS.items():
        if n in selections:
            continue
        if optional and not tr.assumed(len(tr.tr), lambda t, v: is_set(t, v, n)):
            if tr.assumed(len(tr.tr), lambda t, v: is_unset(t, v, n)):
                continue
        once("D03.set", n + " applied", f"a path does not apply '{n}' although "
             "it may be set", len(tr.tr) - 1, tr)


def check_replace(ctx, tr, swap, once):
    for i, n, idx, v in tr.writes:
        if n != "deltaxs" or v is None or is_nan(v):
            continue
        for name, (q, optional) in LIMITS.items():
            if optional and tr.assumed(i, lambda t, v: is_unset(t, v, name)):
                continue
            if not tr.assumed(i, lambda t, v: _respects(t, v, name)):
                once("D03.replace", name, "a secondary peak replaces a vector "
                     f"without being compared with '{name}'", i, tr)
        olds = [w for w in tr.writes if w[1] == "replaced_vectors" and w[2] == idx
                and w[3] is not None]
        if not any(ev.kind == "setitem" and strip_int(ev.a[1]) == idx
                   and _is_replaced(tr, ev.a[0]) for ev in tr.tr[:i]):
            once("D03.replace", "replaced_vectors", "the vector which is "
                 "replaced is not kept", i, tr)
        for w in olds:
            if w[3][0] == "tuple" and len(w[3][1]) >= 2 and swap(
                w[3][1][0]
            ) != w[3][1][1]:
                once("D03.replace", "replaced_vectors", "the components kept "
                     "for a replaced vector do not correspond", w[0], tr)
        # the description of the error disappears with the wrong values
        dels = {w[1] for w in tr.writes if w[3] is None and w[2] == idx}
        want = {"errors", "deltaxs_wrong", "deltays_wrong"}
        if dels and dels != want:
            once("D03.replace", "error removed", "only "
                 f"{sorted(dels)} are removed for a replaced vector", i, tr)
        if not dels and not any(
            ev.kind == "assume" and ev.a[1] == FALSE
            and ev.a[0][0] == "cmp" and ev.a[0][1] in ("in", "==")
            and idx in (strip_int(ev.a[0][2]), strip_int(ev.a[0][3]))
            for ev in tr.tr
        ):
            once("D03.replace", "error kept", "the error of a replaced vector is "
                 "not removed", i, tr)


def _is_replaced(tr, t):
    if t[0] == "attr" and t[2] == "replaced_vectors":
        return True
    return tr.fields.get(t) == "replaced_vectors"


def _respects(t, v, name):
    if t[0] == "not":
        return _respects(t[1], not v, name)
    if t[0] != "cmp" or t[1] not in ("<", "<="):
        return False
    low = name in param_names(t[2])
    high = name in param_names(t[3])
    if not (low or high):
        return False
    # minimum: param < value True ; maximum: param < value False
    if name == "correl_min":
        return low and v is True or high and v is False
    return low and v is False or high and v is True




# ----------------------------------------------------------------------
# D02


def texts_of(t):
    """constant texts of a term (without the parts computed at run time)"""
    if is_const(t) and isinstance(t[1], (str, bytes)):
        return [t[1].decode() if isinstance(t[1], bytes) else t[1]]
    if t[0] == "fstr":
        return [p[1] for p in t[1] if p[0] == "const" and isinstance(p[1], str)]
    return []


def raised_reasons(ctx):
    """(function, explanation or None) for each raise of the dedicated error"""
    import ast

    cls = ctx.p.find_class("PIVError")
    res = {}
    pol = ArrayPolicy()
    pol.inline = ("fluidimage.calcul", "fluidimage.works.piv")
    for f in ctx.p.all_funcs():
        if not any(
            isinstance(n, ast.Call) and (
                isinstance(n.func, ast.Name) and n.func.id == cls.name
                or isinstance(n.func, ast.Attribute) and n.func.attr == cls.name
            )
            for n in ast.walk(f.node)
        ):
            continue
        if f.parent is not None:
            continue
        names = [a.arg for a in f.node.args.args]
        kw = {}
        if f.cls is not None and names:
            kw["self_term"] = ("obj", "self", f.cls.qual)
            names = names[1:]
        interp = Interp(ctx.p, pol)
        outs = interp.run(f, args={n: ("param", n) for n in names}, st=State(),
                          **kw)
        ctx.seen(interp)
        for o in outs:
            if o.kind != "raise" or o.val[1] != cls.name:
                continue
            text, has = None, None
            for ev in o.st.trace:
                if ev.kind == "setattr" and ev.a[1] == "explanation" and ev.a[0][
                    0
                ] in ("obj", "new") and "PIVError" in str(ev.a[0]):
                    text = ev.a[2]
                elif ev.kind == "setitem" and ev.a[1] == const("explanation"):
                    text = ev.a[2]
                elif ev.kind == "setattr" and ev.a[1] == "results":
                    has = ev.a[2]
            res.setdefault((f, text), []).append((has, o))
    return res


class CodePolicy(ArrayPolicy):
    inline = ("fluidimage.data_objects",)

    def enum_loop(self, it):
        if it[0] == "tuple" and len(it[1]) > 2 and all(
            is_const(x) and isinstance(x[1], str) for x in it[1]
        ):
            # only the descriptions of the errors matter
            return [const("errors")] if const("errors") in it[1] else []
        return None


def consistent(t, value, text):
    """True, False or None (unknown) for an assumption about a text"""
    if t[0] == "not":
        r = consistent(t[1], not value, text)
        return r
    r = None
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
        "startswith", "endswith",
    ) and t[2] and t[2][0][0] in ("const", "tuple"):
        pats = t[2][0][1] if t[2][0][0] == "tuple" else (t[2][0],)
        pats = [p for x in pats for p in texts_of(x)]
        r = any(getattr(text, t[1][2])(p) for p in pats)
    elif t[0] == "cmp" and t[1] == "in" and texts_of(t[2]) and not texts_of(t[3]):
        r = texts_of(t[2])[0] in text
    elif t[0] == "cmp" and t[1] == "==" and (texts_of(t[2]) or texts_of(t[3])):
        a, b = (t[2], t[3]) if texts_of(t[3]) else (t[3], t[2])
        if not contains_if(a, lambda x: x[0] in ("sub", "slice", "fstr")
                           or x[0] == "call" and base_name(x[1]) in (
                               "split", "partition", "strip", "lower")):
            r = texts_of(b)[0] == text
    if r is None:
        return None
    return r == value


def code_table(ctx):
    """function text -> set of codes, decided on the paths of the writer"""
    f = ctx.p.find_method("HeavyPIVResults", "_save_in_hdf5_object")
    c = ctx.p.find_class("HeavyPIVResults")
    interp = Interp(ctx.p, CodePolicy())
    names = [a.arg for a in f.node.args.args][1:]
    outs = interp.run(f, args={n: ("param", n) for n in names},
                      self_term=("obj", "self", c.qual), st=State())
    ctx.seen(interp)
    rows = []
    for o in outs:
        arrays = set()
        for ev in o.st.trace:
            if ev.kind == "call" and ev.a[1] and ev.a[1][0] == const("codes"):
                d = dict(ev.a[2]).get("data")
                if d is not None:
                    arrays.add(d)
        for i, ev in enumerate(o.st.trace):
            if ev.kind != "setitem" or ev.a[0] not in arrays:
                continue
            conds = [(e.a[0], e.a[1] == TRUE) for e in o.st.trace[:i]
                     if e.kind == "assume"]
            rows.append((conds, ev.a[2], ev, o))
    if not rows:
        raise AnalysisBroken("the writing of the codes of errors is not found")

    def table(text):
        return {
            code for conds, code, _, _ in rows
            if all(consistent(t, v, text) is not False for t, v in conds)
        }

    generic = table("a reason which does not exist")
    return f, table, generic


def loop_function(ctx):
    """the function which loops over the vectors"""
    for f in ctx.p.all_funcs():
        if f.module.name.startswith("fluidimage.works.piv") and f.cls and (
            f.name == "_loop_vectors"
        ):
            return f
    import ast

    for f in ctx.p.all_funcs():
        if f.module.name.startswith("fluidimage.works.piv") and f.cls and any(
            isinstance(n, ast.Attribute)
            and n.attr == "compute_displacements_from_correl"
            for n in ast.walk(f.node)
        ):
            return f
    raise AnalysisBroken("loop over the vectors not found")


def loop_traces(ctx):
    f = loop_function(ctx)
    pol = ArrayPolicy()
    pol.raising = {
        "compute_displacements_from_correl": ("PIVError",),
        "apply_subpix": ("PIVError",),
    }
    interp = Interp(ctx.p, pol)
    names = [a.arg for a in f.node.args.args][1:]
    outs = interp.run(f, args={n: ("param", n) for n in names},
                      self_term=("obj", "self", f.cls.qual), st=State())
    ctx.seen(interp)
    return f, outs


def reason_words(text):
    import re

    return {w.strip("0123456789").lower() for w in re.split(r"[^A-Za-z0-9]+", text)
            } - {"", "too", "is"}


@register("D02")
def reasons(ctx):
    ctx.rule("D02.code", "each reason has its own code in the result file")
    ctx.rule("D02.text", "the text recorded for a rejected vector is the one of "
             "the threshold which rejects it")
    ctx.rule("D02.record", "each rejection is recorded once, a new reason being "
             "added to the ones which are already recorded")
    ctx.rule("D02.loop", "each failure of the computation of a vector is "
             "recorded under its index with its explanation, and nothing else")
    where_codes, table, generic = code_table(ctx)
    reasons_ = {}  # text -> where it comes from
    for (f, text), cases in raised_reasons(ctx).items():
        if text is None:
            ctx.bad("D02.code", f.short, "no explanation",
                    "an error is raised without explanation",
                    fmt_trace(cases[0][1].st.trace))
            continue
        ts = texts_of(text)
        if not ts:
            ctx.maybe("D02.code", f.short, f"explanation {show(text)[:80]}")
            continue
        reasons_.setdefault(ts[0], f.short)
    # loop over the vectors
    f, outs = loop_traces(ctx)
    check_loop(ctx, f, outs, reasons_)
    # filters
    ffix, fouts = fix_traces(ctx)
    check_texts(ctx, ffix, fouts, reasons_)
    # codes
    by_code = {}
    for text, where in sorted(reasons_.items()):
        codes = table(text)
        if not codes:
            ctx.maybe("D02.code", where_codes.short, f"no code for {text!r}")
            continue
        if len(codes) > 1:
            ctx.maybe("D02.code", where_codes.short,
                      f"several codes for {text!r}")
            continue
        code = next(iter(codes))
        if code in generic:
            ctx.bad("D02.code", where_codes.short, text,
                    f"the reason {text!r} ({where}) has no specific code")
            continue
        prefix = " ".join(text.split()[:3])
        other = by_code.setdefault(code, prefix)
        ctx.check(other == prefix, "D02.code", where_codes.short, text,
                  f"{text!r} and {other!r} have the same code")
        # adding details or another reason does not change the code
        more = table(text + " + another reason (details)")
        ctx.check(more == codes, "D02.code", where_codes.short,
                  text + " with details", f"the code of {text!r} is lost when "
                  "details or another reason are added")


def check_loop(ctx, f, outs, reasons_):
    n = 0
    seen = set()
    for o in outs:
        if o.kind != "return":
            continue
        tr = o.st.trace
        # dictionary of errors: the one in which explanations are stored
        fails = []
        for i, ev in enumerate(tr):
            if ev.kind == "call_raised":
                fails.append((i, "exc"))
        its = [i for i, ev in enumerate(tr) if ev.kind == "iter"]
        if not its:
            continue
        dicts = {}
        for i, ev in enumerate(tr):
            if ev.kind == "setitem" and ev.a[0][0] == "dict":
                dicts.setdefault(ev.a[0], []).append((i, ev))
        recs = [(i, ev) for d in dicts.values() for i, ev in d]
        # other ways to store an item
        others = [
            i for i, ev in enumerate(tr)
            if ev.kind == "call" and ev.a[0][0] == "attr"
            and ev.a[0][1][0] == "dict" and ev.a[0][2] in ("update", "setdefault")
        ]
        n += 1
        lost = [
            ev for ev in tr if ev.kind == "setitem" and ev.a[2] == ("ext",
                                                                    "numpy.nan")
        ]
        if lost and not recs and not others:
            ctx.bad("D02.loop", f.short, "vector given up without reason",
                    "a vector is set to nan and no reason is recorded",
                    fmt_trace(tr), lost[0].line)
        for i, _ in fails:
            nxt = min([j for j, _ in fails if j > i] + [len(tr)])
            r = [ev for j, ev in recs if i < j < nxt]
            good = [ev for ev in r if ev.a[2][0] == "attr"
                    and ev.a[2][2] == "explanation" or texts_of(ev.a[2])]
            if any(i < j < nxt for j in others):
                ctx.maybe("D02.loop", f.short, "record by a method of dict")
                continue
            if len(good) != 1:
                key = ("lost", tr[i].line)
                if key not in seen:
                    seen.add(key)
                    ctx.bad("D02.loop", f.short, "failure not recorded"
                            if not good else "failure recorded twice",
                            "a failure of the computation of a vector is "
                            f"recorded {len(good)} times", fmt_trace(tr), tr[i].line)
            for ev in r:
                if ev.a[2][0] == "attr" and ev.a[2][2] != "explanation":
                    ctx.bad("D02.loop", f.short, "explanation", "what is "
                            f"recorded is {show(ev.a[2])[:80]}", fmt_trace(tr),
                            ev.line)
        first = fails[0][0] if fails else len(tr)
        for j, ev in recs:
            ts = texts_of(ev.a[2])
            if j < first and ts:
                reasons_.setdefault(ts[0], f.short)
                # the vector is given up
            elif j < first:
                ctx.bad("D02.loop", f.short, "error without failure",
                        "an error is recorded although nothing failed",
                        fmt_trace(tr), ev.line)
            if strip_int(ev.a[1])[0] not in ("elem", "idx", "key"):
                ctx.maybe("D02.loop", f.short, "index " + show(ev.a[1])[:60])
    if not any(x.startswith("D02.loop") for x in ctx.findings):
        ctx.ok("D02.loop", f.short, f"{n} paths")


def check_texts(ctx, f, outs, reasons_):
    done = set()
    for o in outs:
        tr = Trace(o)
        groups = {}
        for i, n, idx, v in tr.writes:
            if n == "errors" and v is not None:
                groups.setdefault(idx, []).append((i, v))
        # index -> threshold whose selection it comes from
        for idx, ws in groups.items():
            c = selected(idx)
            if c is None:
                continue
            ns = param_names(c)
            if len(ns) != 1:
                continue
            name = next(iter(ns))
            texts = [t for i, v in ws for t in texts_of(v)]
            texts = [p for t in texts for p in t.split(" + ")
                     if reason_words(p) and not clean(p).startswith("(")]
            alone = [p for i, v in ws for t in texts_of(v) if "+" not in t
                     for p in [t] if reason_words(p)
                     and not clean(p).startswith("(")]
            main = [t for t in alone or texts[-1:] if best_param(t) is not None]
            key = (name, tuple(texts))
            if key in done:
                continue
            done.add(key)
            if not main and texts:
                ctx.maybe("D02.text", f.short, f"text for {name}: {texts}")
                for t in (alone or texts)[:1]:
                    reasons_.setdefault(clean(t), f.short)
            for t in main:
                reasons_.setdefault(clean(t), f.short)
                ctx.check(best_param(t) == name, "D02.text", f.short,
                          f"text for {name}",
                          f"vectors rejected because of '{name}' are described "
                          f"by {t!r}", fmt_trace(tr.tr), tr.tr[ws[0][0]].line)
        # each selected index is recorded
        for i, ev in enumerate(tr.tr):
            if ev.kind != "iter":
                continue
            c = where_cond(ev.a[0])
            if c is None or len(param_names(c)) != 1:
                continue
            mine = [w for idx, ws in groups.items() if selected(idx) == c
                    for w in ws]
            name = next(iter(param_names(c)))
            if not mine and any(
                e.kind == "call" and e.a[0][0] == "attr"
                and e.a[0][2] in ("update", "setdefault")
                and tr.field(e.a[0][1]) == "errors" for e in tr.tr[i:]
            ):
                ctx.maybe("D02.record", f.short, "record by a method of dict")
                continue
            if not mine:
                k = ("none", name)
                if k not in done:
                    done.add(k)
                    ctx.bad("D02.record", f.short, f"{name} not recorded",
                            "no reason is recorded for vectors rejected because "
                            f"of '{name}'", fmt_trace(tr.tr[: i + 20]), ev.line)
                continue
            idx = next(x for x in groups if selected(x) == c)
            old = _known_old(tr, mine[0][0], idx)
            firstv = mine[0][1]
            keeps = contains_if(
                firstv, lambda x: tr.original(x) == ("errors", idx)
            )
            keeps = keeps or any(
                clean(p) and best_param(p) not in (None, name)
                for t in texts_of(firstv) for p in t.split(" + ")
            )
            if old and not keeps:
                k = ("replaced", name)
                if k not in done:
                    done.add(k)
                    ctx.bad("D02.record", f.short, "previous reason lost",
                            "the previous reason of a vector is lost when it is "
                            f"also rejected because of '{name}'",
                            fmt_trace(tr.tr[: mine[0][0] + 1]),
                            tr.tr[mine[0][0]].line)
            # later additions keep what is recorded
            for j, v in mine[1:]:
                if not contains_if(
                    v, lambda x: tr.original(x) == ("errors", idx)
                ) and not any(t in "".join(texts_of(v)) for t in texts_of(firstv)):
                    k = ("again", name)
                    if k not in done:
                        done.add(k)
                        ctx.bad("D02.record", f.short, "reason overwritten",
                                "the reason of a vector is overwritten",
                                fmt_trace(tr.tr[: j + 1]), tr.tr[j].line)
    if not any(x.startswith("D02.record") for x in ctx.findings):
        ctx.ok("D02.record", f.short, f"{len(outs)} paths")


def clean(t):
    t = t.strip()
    while t.startswith("+"):
        t = t[1:].strip()
    return t


def best_param(text):
    """threshold named by a text"""
    words = reason_words(clean(text))
    score = {
        n: len(words & reason_words(n.replace("_", " "))) for n in LIMITS
    }
    best = max(score.values())
    if not best or list(score.values()).count(best) > 1:
        return None
    return max(score, key=score.get)
