"""C01: contract of the correlation methods, failures of one window"""

import ast

from ..algebra import poly
from ..arrays import ArrayPolicy
from ..framework import fmt_trace
from ..interp import Interp, State, TooManyStates
from ..project import AnalysisBroken
from ..terms import (
    FALSE, NONE, TRUE, const, contains_if, is_const, map_term, show, walk,
)
from . import register
from .filters import loop_function, loop_traces

MOD = "fluidimage.calcul"
SCALARS = {"sqrt", "sum", "norm", "linalg.norm", "vdot", "float", "nansum",
           "mean", "std", "prod", "float64", "float32"}
ARRAYS = {"empty", "zeros", "ascontiguousarray", "correlate2d", "correlate",
          "empty_like", "zeros_like", "fftshift", "array", "copy", "roll",
          "asarray", "ifft", "ifft2", "irfft2", "fftconvolve", "flip"}


class CorrelPolicy(ArrayPolicy):
    inline = (MOD,)

    def __init__(self, boosted=False, exclude=()):
        self.boosted = boosted
        self.exclude = exclude

    def should_inline(self, func, interp, st):
        if func.name in self.exclude:
            return False
        return func.module.name.startswith(MOD) and (
            self.boosted or not is_boosted(func))


def is_boosted(f):
    return "boost" in f.decorators


def execute(ctx, f, cls=None, boosted=False, args=None, exclude=()):
    interp = Interp(ctx.p, CorrelPolicy(boosted, exclude))
    a = {x.arg: ("param", x.arg) for x in f.node.args.args + f.node.args.kwonlyargs
         if x.arg not in ("self", "cls")}
    a.update(args or {})
    self_term = ("obj", "self", (cls or f.cls).qual) if f.cls is not None else None
    st = State()
    outs = interp.run(f, args=a, self_term=self_term, st=st)
    ctx.seen(interp)
    for o in outs:
        if o.val is not None:
            o.val = interp.deref(o.val, o.st)
    return outs


def backends(ctx):
    """concrete classes of correlation"""
    base = ctx.p.find_class("CorrelBase")
    res = []
    for c in ctx.p.subclasses(base.qual):
        call = c.find_method("__call__")
        if call is None or any("abstract" in d for d in call.decorators):
            continue
        res.append((c, call))
    if not res:
        raise AnalysisBroken("no correlation class found")
    return base, res


def subpix_class(ctx):
    return ctx.p.find_class("SubPix")


# -- kinds of values ----------------------------------------------------
def fname(t):
    f = t[1]
    if f[0] == "ext":
        return f[1].split(".")[-1]
    if f[0] == "attr":
        return f[2]
    if f[0] == "func":
        return f[1].split(".")[-1]
    return ""


def kind(t):
    """'scalar', 'array' or None"""
    if is_const(t):
        return "scalar"
    if t[0] == "call":
        n = fname(t)
        if n in SCALARS:
            kws = {k for k, _ in t[3]}
            return "scalar" if "axis" not in kws and not (
                n == "sum" and len(t[2]) > 1) else None
        if "energy" in n or n.startswith("_norm"):
            return "scalar"
        if n in ARRAYS:
            return "array"
        return None
    if t[0] == "op":
        ks = {kind(t[2]), kind(t[3])}
        if "array" in ks:
            return "array"
        return "scalar" if "scalar" in ks else None
    if t[0] == "item":
        if any(x[0] == "slice" for x in walk(t[2])):
            return kind(t[1])
        return None
    if t[0] == "attr" and t[2] in ("real", "T"):
        return kind(t[1])
    if t[0] == "attr" and t[2] == "size":
        return "scalar"
    return None


@register("C01")
def methods(ctx):
    ctx.rule("C01.call", "every correlation method returns the correlation map and "
             "its normalisation (in this order), on every path", 8)
    ctx.rule("C01.init", "every correlation method can be created with the "
             "arguments given by the works", 8)
    ctx.rule("C01.inverse", "the conversions between displacements and indices are "
             "inverse of each other, no displacement corresponding to the "
             "indices returned by get_indices_no_displacement", 4)
    base, classes = backends(ctx)
    for c, call in classes:
        names = [a.arg for a in call.node.args.args]
        if len(names) != 3 and not (
            len(names) > 3 and len(names) - len(call.node.args.defaults) <= 3
        ):
            ctx.bad("C01.call", call.short, c.name + "(im0, im1)",
                    f"{c.name} cannot be called with two images")
            continue
        outs = execute(ctx, call, c, boosted=True)
        good = True
        for o in outs:
            if o.kind == "raise":
                continue
            v = o.val
            if v is None or v == NONE or v[0] == "tuple" and len(v[1]) != 2 or (
                kind(v) == "array"
            ):
                ctx.bad("C01.call", call.short, c.name,
                        f"{c.name} does not return the correlation and the norm: "
                        f"{show(v, 3) if v else v}", fmt_trace(o.st.trace))
                good = False
                continue
            if v[0] != "tuple":
                continue
            k0, k1 = kind(v[1][0]), kind(v[1][1])
            if k0 == "scalar" or k1 == "array":
                ctx.bad("C01.call", call.short, c.name,
                        f"{c.name} returns the {'norm' if k0 == 'scalar' else 'map'}"
                        " at the place of the other value: "
                        f"{show(v, 4)[:150]}", fmt_trace(o.st.trace))
                good = False
        if good:
            ctx.ok("C01.call", call.short, c.name)
    creations(ctx, base, classes)
    inverse(ctx, base, classes)


def creations(ctx, base, classes):
    """calls correlation_classes[method](...)"""
    n = 0
    for m in ctx.p.modules.values():
        fs = list(m.funcs.values())
        for c in m.classes.values():
            fs += list(c.methods.values())
        for f in fs:
            names = set()
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and isinstance(
                    s.targets[0], ast.Name
                ) and registry(ctx, f, s.value):
                    names.add(s.targets[0].id)
            for s in ast.walk(f.node):
                if not isinstance(s, ast.Call):
                    continue
                if isinstance(s.func, ast.Name) and s.func.id in names or registry(
                    ctx, f, s.func
                ):
                    n += 1
                    for c, _ in classes:
                        bind(ctx, f, s, c)
    if not n:
        ctx.maybe("C01.init", base.qual, "no creation found")


def registry(ctx, f, e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and (
        e.func.attr == "get"
    ):
        v = e.func.value
    elif isinstance(e, ast.Subscript):
        v = e.value
    else:
        return False
    return isinstance(v, ast.Name) and v.id == "correlation_classes"


def bind(ctx, f, call, c):
    init = c.find_method("__init__")
    a = init.node.args
    names = [x.arg for x in a.args][1:]
    kwonly = [x.arg for x in a.kwonlyargs]
    given = names[: len(call.args)] + [k.arg for k in call.keywords if k.arg]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(
        k.arg is None for k in call.keywords
    ):
        ctx.maybe("C01.init", f.short, f"arguments given to {c.name}")
        return
    unknown = [k.arg for k in call.keywords if k.arg not in names + kwonly]
    if a.kwarg is not None:
        unknown = []
    if len(call.args) > len(names) and a.vararg is None:
        unknown.append("too many positional arguments")
    required = names[: len(names) - len(a.defaults)]
    missing = [x for x in required if x not in given]
    ctx.check(not unknown and not missing, "C01.init", f.short, c.name,
              f"{c.name} is created with unknown arguments {unknown}, without "
              f"{missing}")


def inverse(ctx, base, classes):
    done = set()
    for c, _ in classes:
        to_d = c.find_method("compute_displacement_from_indices")
        to_i = c.find_method("compute_indices_from_displacement")
        zero = c.find_method("get_indices_no_displacement")
        if to_d is None or to_i is None or zero is None:
            raise AnalysisBroken("conversions of displacements not found")
        k = (to_d.key, to_i.key, zero.key)
        if k in done:
            continue
        done.add(k)

        def values(f, a, b):
            ns = [x.arg for x in f.node.args.args][1:3]
            res = [o.val for o in execute(ctx, f, c, args=dict(zip(ns, (a, b))))
                   if o.kind == "return"]
            return [v[1] for v in res if v and v[0] == "tuple"]

        x, y = ("param", "ix"), ("param", "iy")
        for d in values(to_d, x, y):
            for i in values(to_i, *d):
                ctx.check(
                    poly(i[0]) == poly(x) and poly(i[1]) == poly(y),
                    "C01.inverse", to_i.short, "indices of the displacement",
                    f"indices ({show(i[0])}, {show(i[1])}) from the displacement "
                    "of (ix, iy)")
        for z in [o.val for o in execute(ctx, zero, c) if o.kind == "return"]:
            if z is None or z[0] != "tuple":
                continue
            for d in values(to_d, z[1][1], z[1][0]):
                for j in (0, 1):
                    ctx.check(poly(d[j]).is_zero(), "C01.inverse", zero.short,
                              f"no displacement along {'xy'[j]}",
                              f"displacement {show(d[j])} for the indices of no "
                              "displacement")
        for m in ctx.p.modules.values():
            g = m.funcs.get("compute_indices_from_displacement")
            if g is None:
                continue
            ns = [a.arg for a in g.node.args.args]
            for z in [o.val for o in execute(ctx, zero, c) if o.kind == "return"]:
                for d in values(to_d, x, y):
                    for o in execute(ctx, g, args=dict(zip(ns, (d[0], d[1], z)))):
                        if o.kind != "return" or o.val[0] != "tuple":
                            continue
                        i = o.val[1]
                        ctx.check(
                            poly(i[0]) == poly(x) and poly(i[1]) == poly(y),
                            "C01.inverse", g.short, "indices of the displacement",
                            f"indices ({show(i[0])}, {show(i[1])}) from the "
                            "displacement of (ix, iy)")


# -- search of the peaks ------------------------------------------------
def searches(t):
    """opaque calls of boosted functions from which the term is computed"""
    res = set()

    def rec(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "call" and x[1][0] == "func":
            res.add(x)
            return
        if x[0] == "call" and x[1][0] == "attr":
            for y in x[2]:
                rec(y)
            return
        for y in x[1:]:
            if isinstance(y, tuple):
                rec(y)

    rec(t)
    return res


def raw(t):
    """index given by a search (not a displacement)"""
    while t[0] == "call" and fname(t) in ("int", "round", "int32") and t[2]:
        t = t[2][0]
    return t[0] == "item" and t[1][0] == "call"


def results_of(o):
    exc = o.val
    if exc[2] is not None and exc[2][0] == "obj":
        return exc[2], o.st.heap.get((exc[2], "results"))
    return None, None


@register("C01")
def peaks(ctx):
    ctx.rule("C01.results", "an error of the search of the peak gives the "
             "displacement and the correlation used in place of the result", 1)
    ctx.rule("C01.peak", "a displacement and the correlation returned with it "
             "come from the same peak", 1)
    ctx.rule("C01.blank", "a peak is hidden, to search another one, with a window "
             "containing it, which does not start before the array", 2)
    ctx.rule("C01.raise", "no exception but the dedicated one depends on the "
             "content of the window", 3)
    base, classes = backends(ctx)
    done = set()
    for c, _ in [(base, None)] + classes:
        f = c.find_method("compute_displacements_from_correl")
        if f is None:
            raise AnalysisBroken("compute_displacements_from_correl not found")
        inner = tuple(
            g.key for g in (c.find_method("compute_displacement_from_indices"),
                            c.find_method("_compute_indices_max")) if g)
        if (f.key, inner) in done:
            continue
        done.add((f.key, inner))
        outs = execute(ctx, f, c)
        for o in outs:
            if o.kind == "raise" and o.val[1] == "PIVError":
                obj, r = results_of(o)
                if obj is None:
                    ctx.maybe("C01.results", f.short, "unknown error raised")
                    continue
                if r is None or r[0] != "tuple" or len(r[1]) != 3:
                    ctx.bad("C01.results", f.short, "results",
                            "the error leaves the search of the peak without its "
                            "results" + (f" ({show(r, 3)})" if r else ""),
                            fmt_trace(o.st.trace))
                    continue
                triple(ctx, f, o, r[1], "C01.results")
            elif o.kind == "raise":
                data_exception(ctx, f, o)
            elif o.kind == "return":
                v = o.val
                if v is None or v[0] != "tuple" or len(v[1]) != 4:
                    ctx.bad("C01.peak", f.short, "return",
                            "the displacement, the correlation and the other "
                            f"peaks are not returned: {show(v, 3) if v else v}",
                            fmt_trace(o.st.trace))
                    continue
                triple(ctx, f, o, v[1][:3], "C01.peak")
            for ev in o.st.trace:
                if ev.kind == "bad_unpack":
                    ctx.bad("C01.raise", f.short, "unpacking",
                            f"{len(ev.a[0][1])} values are unpacked in "
                            f"{ev.a[1][1]} variables", fmt_trace(o.st.trace),
                            ev.line)
                if ev.kind == "call" and ev.a[0][0] == "attr" and ev.a[0][
                    2
                ] == "append" and len(ev.a[1]) == 1:
                    t = ev.a[1][0]
                    if t[0] == "tuple" and len(t[1]) == 3:
                        triple(ctx, f, o, t[1], "C01.peak")
                if ev.kind == "setitem":
                    blank(ctx, f, o, ev)
    # functions called with the content of the windows
    for m in ctx.p.modules.values():
        if m.name not in (MOD + ".correl", MOD + ".subpix"):
            continue
        for g in m.funcs.values():
            if not is_boosted(g):
                continue
            try:
                outs = execute(ctx, g, boosted=True)
            except TooManyStates:
                ctx.maybe("C01.raise", g.short, "too many paths")
                continue
            bad = False
            for o in outs:
                if o.kind == "raise":
                    bad |= data_exception(ctx, g, o)
            if not bad:
                ctx.ok("C01.raise", g.short, "no exception")


def triple(ctx, f, o, r, rule):
    dx, dy, cm = r
    if raw(dx) or raw(dy):
        ctx.bad(rule, f.short, "displacement",
                f"indices are given instead of a displacement: {show(dx, 4)}, "
                f"{show(dy, 4)}", fmt_trace(o.st.trace))
        return
    sx, sy, sc = searches(dx), searches(dy), searches(cm)
    if not sx or not sy:
        ctx.maybe(rule, f.short, f"displacement {show(dx, 4)[:60]}")
        return
    # the correlation is 0 when the norm is 0
    if sx != sy or sc and sc != sx:
        ctx.bad(rule, f.short, "same peak",
                "the displacement and the correlation come from different searches",
                fmt_trace(o.st.trace))
        return
    ctx.ok(rule, f.short, "same peak")


def blank(ctx, f, o, ev):
    idx = ev.a[1]
    if idx[0] != "tuple" or len(idx[1]) != 2 or not all(
        x[0] == "slice" for x in idx[1]
    ):
        return
    for j, s in enumerate(idx[1]):
        lo, hi = s[1], s[2]
        if lo == NONE or hi == NONE:
            continue
        axis = "rows" if j == 0 else "columns"
        inner, clipped = lo, False
        if lo[0] == "call" and fname(lo) in ("max", "maximum") and len(
            lo[2]
        ) == 2 and const(0) in lo[2]:
            inner = lo[2][1] if lo[2][0] == const(0) else lo[2][0]
            clipped = True
        elif lo[0] == "call":
            ctx.maybe("C01.blank", f.short, f"start {show(lo, 4)[:60]}")
            continue
        if hi[0] == "call" and fname(hi) in ("min", "minimum"):
            c = [x for x in hi[2] if any(searches(x)) and not (
                x[0] == "attr" or x[0] == "item" and x[1][0] == "attr")]
            hi = c[0] if len(c) == 1 else hi
        if not clipped:
            p = poly(lo)
            if any(v < 0 for v in p.d.values()) and not bounded(o, lo, ev):
                ctx.bad("C01.blank", f.short, f"start along the {axis}",
                        f"the start of the window can be negative "
                        f"({show(lo, 4)[-60:]}): nothing would be hidden",
                        fmt_trace(o.st.trace), ev.line)
                continue
        mid = poly(inner) + poly(hi) - poly(const(1))
        # twice the index of the peak
        items = [a for a in mid.atoms() if raw(a)]
        if len(mid.d) == 1 and len(items) == 1 and list(mid.d.values()) == [2]:
            k = items[0][2]
            ctx.check(k == const(j), "C01.blank", f.short, f"along the {axis}",
                      f"the {axis} hidden are chosen with the other index",
                      fmt_trace(o.st.trace), ev.line)
        elif items:
            ctx.bad("C01.blank", f.short, f"around the peak along the {axis}",
                    "the window hidden is not centered on the peak: "
                    f"{show(lo, 4)[:80]} : {show(hi, 4)[:80]}",
                    fmt_trace(o.st.trace), ev.line)
        else:
            ctx.maybe("C01.blank", f.short, f"window {show(lo, 4)[:60]}")


def bounded(o, lo, until=None):
    """lower bound: 0 or more for a path condition"""
    for diff in facts(o, until):
        d = poly(lo) - diff
        if d.const() is not None and d.const() >= 0:
            return True
    return False


def facts(o, until=None):
    """polynomials known to be positive or zero on the path"""
    for ev in o.st.trace:
        if ev is until:
            break
        if ev.kind != "assume":
            continue
        c, val = ev.a[0], ev.a[1] == TRUE
        while c[0] == "not":
            c, val = c[1], not val
        if c[0] != "cmp" or c[1] not in ("<", "<=", ">", ">="):
            continue
        op, a, b = c[1], c[2], c[3]
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        d = poly(b) - poly(a)
        if op == "<":
            yield d - poly(const(1)) if val else -d
        else:
            yield d if val else -d - poly(const(1))


def config_only(c):
    """no content of arrays in the condition"""
    def geometry(x):
        if x[0] == "attr" and x[2] in ("shape", "size", "ndim", "dtype"):
            return const(0)
        return x

    c = map_term(c, geometry)
    return not contains_if(
        c, lambda x: x[0] == "param" or x[0] in ("elem", "idx") or (
            x[0] == "call" and x[1][0] == "func"))


def data_exception(ctx, f, o):
    """is the exception raised for the content of a window?"""
    if o.val[1] == "PIVError":
        return False
    conds = [ev for ev in o.st.trace if ev.kind == "assume"]
    fails = [ev for ev in o.st.trace if ev.kind in ("assert_fail", "raise")]
    if fails and not conds or conds and not config_only(conds[-1].a[0]):
        g = fails[-1].func if fails and getattr(fails[-1], "func", None) else f
        where = getattr(g, "short", f.short)
        ctx.bad("C01.raise", where, o.val[1],
                f"{o.val[1]} is raised for some windows ("
                + (show(conds[-1].a[0], 4)[:80] if conds else "always") + "): the "
                "other vectors would not be computed", fmt_trace(o.st.trace),
                fails[-1].line if fails else None)
        return True
    ctx.ok("C01.raise", f.short, o.val[1])
    return False


# -- sub-pixel ----------------------------------------------------------
@register("C01")
def subpix(ctx):
    ctx.rule("C01.method", "each sub-pixel method computes a displacement around "
             "the peak, on every path", 4)
    ctx.rule("C01.nan", "a result of a sub-pixel method which is not finite is not "
             "returned", 3)
    ctx.rule("C01.bounds", "the neighbourhood of the peak used by the sub-pixel "
             "methods is tested to be in the correlation map", 2)
    ctx.rule("C01.apply", "the sub-pixel refinement gives the displacement of the "
             "refined indices", 1)
    c = subpix_class(ctx)
    f = c.find_method("compute_subpix")
    v = c.class_attrs.get("methods")
    if f is None or not isinstance(v, (ast.List, ast.Tuple, ast.Dict)):
        raise AnalysisBroken("sub-pixel methods not found")
    elts = v.keys if isinstance(v, ast.Dict) else v.elts
    for e in elts:
        if isinstance(e, ast.Constant):
            one_method(ctx, c, f, e.value)
    base, classes = backends(ctx)
    g = base.find_method("apply_subpix")
    if g is None:
        raise AnalysisBroken("apply_subpix not found")
    for o in execute(ctx, g, base, exclude=(f.name,)):
        calls = [ev for ev in o.st.trace if ev.kind == "call"
                 and fname(("call", ev.a[0])) == f.name]
        if o.kind != "return" or o.val is None or o.val[0] != "tuple" or len(
            o.val[1]
        ) != 2:
            continue
        if not calls:
            ctx.bad("C01.apply", g.short, "no sub-pixel method",
                    "the displacement is not refined on a path",
                    fmt_trace(o.st.trace))
            continue
        r = calls[-1].a[3]
        args = list(calls[-1].a[1])
        names = [a.arg for a in f.node.args.args][1:]
        got = dict(zip(names, args)) | dict(calls[-1].a[2])
        dx, dy = ("param", "dx"), ("param", "dy")
        ps = [("param", a.arg) for a in g.node.args.args][1:3]
        for j, d in enumerate(o.val[1]):
            ix = got.get("ix" if j == 0 else "iy")
            if ix is None:
                continue
            # index - refined index + displacement
            delta = poly(d) - poly(ps[j]) - (
                poly(ix) - poly(("item", r, const(j))))
            ctx.check(delta.is_zero(), "C01.apply", g.short,
                      f"displacement along {'xy'[j]}",
                      f"displacement {show(d, 5)[:80]} for the index "
                      f"{show(ix, 4)[:60]}", fmt_trace(o.st.trace))


def one_method(ctx, c, f, name):
    names = [a.arg for a in f.node.args.args][1:]
    if "method" not in names:
        raise AnalysisBroken("argument method of compute_subpix")
    outs = execute(ctx, f, c, args={"method": const(name), "nsubpix":
                                    ("attr", ("obj", "self", c.qual), "n")})
    n = 0
    finite = {}
    for o in outs:
        if o.kind != "return" or infeasible(o, name):
            if o.kind == "raise" and not infeasible(o, name):
                data_exception(ctx, f, o)
            continue
        v = o.val
        if v is None or v[0] != "tuple" or len(v[1]) != 2:
            if v is not None and v[0] == "call" and fname(v) == f.name:
                continue
            ctx.bad("C01.method", f.short, name,
                    f"returns {show(v, 3) if v else v}", fmt_trace(o.st.trace))
            continue
        n += 1
        for j, t in enumerate(v[1]):
            p = ("param", names[1 + j])
            d = poly(t) - poly(p)
            if contains_if(t, lambda x: x[0] == "unbound"):
                ctx.bad("C01.method", f.short, name,
                        f"no displacement is computed for method {name!r}",
                        fmt_trace(o.st.trace))
            elif p in d.atoms():
                ctx.bad("C01.method", f.short, f"{name} along {'xy'[j]}",
                        "the result is not the index of the peak plus the "
                        f"displacement: {show(t, 4)[:80]}",
                        fmt_trace(o.st.trace))
            else:
                ctx.ok("C01.method", f.short, f"{name} along {'xy'[j]}")
            tested(ctx, f, o, t, d, name, finite)
        bounds(ctx, f, o, name, names)
    if not n:
        ctx.bad("C01.method", f.short, name, f"method {name!r} never returns")
    for name, (ok, o) in finite.items():
        ctx.check(ok, "C01.nan", f.short, name,
                  f"with the method {name!r}, nan can be returned without error",
                  fmt_trace(o.st.trace) if o else None)


def infeasible(o, name):
    for ev in o.st.trace:
        if ev.kind == "assume" and ev.a[0][0] == "cmp" and ev.a[0][1] in (
            "in", "not in"
        ) and const(name) in ev.a[0][2:3]:
            if (ev.a[0][1] == "in") != (ev.a[1] == TRUE):
                return True
    return False


def tested(ctx, f, o, t, d, name, finite):
    """a comparison which is false for nan leads to the return"""
    atoms = d.atoms()
    if not any(contains_if(a, divides) or divides(a) for a in atoms):
        return
    ok = False
    for ev in o.st.trace:
        if ev.kind != "assume":
            continue
        c, val = ev.a[0], ev.a[1] == TRUE
        while c[0] == "not":
            c, val = c[1], not val
        inner = set(walk(c))
        if not any(a in inner for a in atoms):
            continue
        if c[0] == "cmp" and c[1] in ("<", "<=", ">", ">=", "==") and val:
            ok = True
        if c[0] == "call" and fname(c) == "isnan" and not val:
            ok = True
        if c[0] == "call" and fname(c) in ("isfinite", "all") and val:
            ok = True
    old = finite.get(name, (True, None))
    finite[name] = (old[0] and ok, old[1] if not old[0] else (
        None if ok else o))


def divides(x):
    return x[0] == "op" and x[1] in ("/", "//") or (
        x[0] == "item" and x[1][0] == "call" and x[1][1][0] == "func")


def bounds(ctx, f, o, name, names):
    """lower and upper tests of the indices of the peak"""
    reads = any(
        contains_if(t, lambda x: x[0] == "slice" or x[0] == "call" and x[1][
            0] == "func") for t in o.val[1])
    if not reads:
        return
    for j in (0, 1):
        p = ("param", names[1 + j])
        lower = upper = False
        for d in facts(o):
            k = d.d.get((p,), 0)
            shape = any(contains_if(a, lambda x: x[0] == "attr" and x[
                2] == "shape") for a in d.atoms())
            c = d.d.get((), 0)
            if k > 0 and not shape and c <= 0:
                lower = True
            if k < 0 and shape and c <= -1:
                upper = True
        ctx.check(lower, "C01.bounds", f.short, f"{names[1 + j]} from below",
                  f"{name}: nothing ensures that the neighbourhood of the peak "
                  f"starts in the array ({names[1 + j]})", fmt_trace(o.st.trace))
        ctx.check(upper, "C01.bounds", f.short, f"{names[1 + j]} from above",
                  f"{name}: nothing ensures that the neighbourhood of the peak "
                  f"stops in the array ({names[1 + j]})", fmt_trace(o.st.trace))


# -- the dedicated error --------------------------------------------------
@register("C01")
def errors(ctx):
    ctx.rule("C01.error", "the dedicated error carries the explanation given", 1)
    c = ctx.p.find_class("PIVError")
    f = c.find_method("__init__")
    if f is None:
        raise AnalysisBroken("PIVError.__init__")
    self_term = ("obj", "self", c.qual)
    text = ("sym", "text")
    interp = Interp(ctx.p, CorrelPolicy())
    args = {}
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs][1:]
    if "explanation" in names:
        args = {n: ("param", n) for n in names}
        args["explanation"] = text
    elif f.node.args.kwarg is None:
        ctx.bad("C01.error", f.short, "explanation",
                "the error cannot be created with an explanation")
        return
    outs = creation(ctx, interp, c, text)
    for o in outs:
        if o.kind != "return":
            ctx.bad("C01.error", f.short, "creation",
                    f"the creation of the error raises {o.val[1]}",
                    fmt_trace(o.st.trace))
            continue
        last = None
        for ev in o.st.trace:
            if ev.kind == "setattr" and ev.a[1] == "explanation":
                last = ev.a[2]
            if ev.kind == "setitem" and ev.a[0][0] == "attr" and ev.a[0][
                2
            ] == "__dict__" and ev.a[1] == const("explanation"):
                last = ev.a[2]
            if ev.kind == "call" and fname(("call", ev.a[0])) in (
                "update", "setattr"
            ) and contains_if(("tuple", tuple(ev.a[1]) + tuple(
                    v for _, v in ev.a[2])), lambda x: x == text):
                last = text
        if last is None or last[0] == "call":
            ctx.maybe("C01.error", f.short, "explanation not followed")
            continue
        ctx.check(last == text, "C01.error", f.short, "explanation",
                  f"the explanation is {show(last, 3)} and not the one given",
                  fmt_trace(o.st.trace))


def creation(ctx, interp, c, text):
    """paths of PIVError(explanation=text)"""
    f = next((g for g in ctx.p.all_funcs() if g.module.name == MOD + ".correl"
              and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                      and n.func.id == c.name and any(
                          k.arg == "explanation" for k in n.keywords)
                      for n in ast.walk(g.node))), None)
    if f is None:
        raise AnalysisBroken("creation of PIVError not found")
    outs = []
    a = {x.arg: ("param", x.arg) for x in f.node.args.args if x.arg != "self"}
    for o in interp.run(f, args=a, self_term=("obj", "self", f.cls.qual)
                        if f.cls else None, st=State()):
        if not any(ev.kind == "new" for ev in o.st.trace):
            continue
        i = next(i for i, ev in enumerate(o.st.trace) if ev.kind == "new")
        ev = o.st.trace[i]
        given = dict(ev.a[2]).get("explanation")
        if given is None:
            continue
        o.kind = "return"
        o.st.trace = tuple(replace(e, given, text) for e in o.st.trace[i:])
        outs.append(o)
    ctx.seen(interp)
    return outs


def replace(ev, old, new):
    import copy

    e = copy.copy(ev)
    try:
        e.a = tuple(sub(x, old, new) for x in ev.a)
    except AttributeError:
        return ev
    return e


def sub(x, old, new):
    if x == old:
        return new
    if isinstance(x, tuple):
        return tuple(sub(y, old, new) for y in x)
    return x


# -- the loop over the vectors ------------------------------------------
@register("C01")
def loop(ctx):
    ctx.rule("C01.loop", "for each vector, all results are set, whatever happens "
             "to its windows", 3)
    ctx.rule("C01.value", "the result of a vector is the displacement found or the "
             "values given by the error, each component at its place", 2)
    ctx.rule("C01.only", "an error for a vector does not leave the loop", 1)
    ctx.rule("C01.pad", "images are padded enough for all windows", 2)
    f, outs = loop_traces(ctx)
    written = {}
    iters = []
    for o in outs:
        if o.kind == "raise":
            if any(ev.kind == "iter" for ev in o.st.trace):
                ctx.check(False, "C01.only", f.short, o.val[1],
                          f"{o.val[1]} for one vector stops the computation of "
                          "the others", fmt_trace(o.st.trace))
            continue
        ctx.ok("C01.only", f.short, "path")
        left = [ev for ev in o.st.trace if ev.kind == "iter"]
        if left and not any(
            ev.kind == "exhausted" and ev.a[0] == left[0].a[0]
            for ev in o.st.trace
        ):
            ctx.bad("C01.only", f.short, "break", "the loop over the vectors is "
                    "left before the last vector", fmt_trace(o.st.trace))
        for vec, evs in iterations(o):
            sets = {}
            for ev in evs:
                if ev.kind == "setitem" and uninitialised(ev.a[0]) and ev.a[
                    1
                ] == vec:
                    sets[ev.a[0]] = ev
                    written.setdefault(ev.a[0], set()).add(shape(ev.a[2]))
            iters.append((o, evs, vec, sets))
    if not written:
        raise AnalysisBroken("results of the vectors not found")
    # a result array is the one written on a path of success
    place = {}
    for o, evs, vec, sets in iters:
        for arr, ev in sets.items():
            s = shape(ev.a[2])
            if s[0] in ("found", "subpix") and s[1] is not None:
                place.setdefault(arr, set()).add(s[1])
    for o, evs, vec, sets in iters:
        for arr in written:
            name = names_of(arr, o)
            if arr not in sets and not fname(arr).startswith("empty"):
                continue
            if arr not in sets:
                ctx.bad("C01.loop", f.short, name,
                        f"{name} is not set for a vector (its content is "
                        "arbitrary)", fmt_trace(o.st.trace))
                continue
            ctx.ok("C01.loop", f.short, name)
            s = shape(sets[arr].a[2])
            ps = place.get(arr, set())
            if s[0] == "error":
                if s[1] is not None and len(ps) == 1:
                    ctx.check(s[1] in ps, "C01.value", f.short, name,
                              f"{name} is given the value {s[1]} of the error "
                              f"and the value {min(ps)} of the result",
                              fmt_trace(o.st.trace), sets[arr].line)
        for arr, ps in place.items():
            if len(ps) > 1:
                ctx.bad("C01.value", f.short, names_of(arr, o),
                        f"different components {sorted(ps)} are written in the "
                        "same array", fmt_trace(o.st.trace))
            else:
                ctx.ok("C01.value", f.short, names_of(arr, o))
    padding(ctx, f, outs)


def uninitialised(t):
    return t[0] == "call" and fname(t) in ("empty", "empty_like", "zeros", "full",
                                           "zeros_like", "full_like")


def names_of(arr, o):
    for fr, env in o.st.env.items():
        for n, v in env.items():
            if v == arr:
                return n
    v = o.val
    if v is not None and v[0] == "tuple":
        for i, x in enumerate(v[1]):
            if x == arr or contains_if(x, lambda y: y == arr):
                return f"result {i}"
    return "array"


def shape(t):
    """origin of the value of a result"""
    if t[0] == "item" and is_const(t[2]):
        b = t[1]
        if b[0] == "call" and fname(b) == "compute_displacements_from_correl":
            return ("found", t[2][1])
        if b[0] == "call" and fname(b) == "apply_subpix":
            return ("subpix", t[2][1])
        if b[0] == "attr" and b[2] == "results":
            return ("error", t[2][1])
    return ("other", None)


def iterations(o):
    """(index of the vector, events) of each iteration of the loop"""
    tr = o.st.trace
    starts = [i for i, ev in enumerate(tr) if ev.kind == "iter"]
    for k, i in enumerate(starts):
        end = starts[k + 1] if k + 1 < len(starts) else len(tr)
        evs = tr[i + 1: end]
        vec = None
        for ev in evs:
            if ev.kind == "setitem" and uninitialised(ev.a[0]):
                vec = ev.a[1]
                break
        yield vec, evs


def padding(ctx, f, outs):
    """np.pad(image, widths) and the windows taken in it"""
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        for ev in o.st.trace:
            terms = [ev.a[3]] if ev.kind == "call" and len(ev.a) > 3 else []
            for t in terms:
                for x in walk(t):
                    if x[0] == "item" and x[1][0] == "call" and fname(
                        x[1]
                    ) == "pad" and x[2][0] == "tuple" and all(
                        s[0] == "slice" for s in x[2][1]
                    ):
                        n += window(ctx, f, o, x)
    if not n:
        ctx.maybe("C01.pad", f.short, "windows in padded images not found")
        ctx.maybe("C01.pad", f.short, "windows in padded images not found")


def flat(t):
    if t[0] in ("tuple", "lst"):
        for y in t[1]:
            yield from flat(y)
    else:
        yield t


def window(ctx, f, o, x):
    widths = set()
    given = x[1][2][1]
    items = o.st.heap.get((given, "#items"))
    given = ("tuple", items) if items is not None else given
    for w in walk(given):
        if w[0] == "call" and fname(w) == "max":
            widths.add(w)
    for s in x[2][1]:
        for b in s[1:3]:
            for a in poly(b).atoms():
                if a[0] == "call" and fname(a) in ("max", "amax"):
                    widths.add(a)
                for w in walk(a):
                    if w[0] == "call" and fname(w) == "max":
                        widths.add(w)
    if len(widths) != 1:
        return 0
    w = widths.pop()
    leaves = set(flat(given))
    ctx.check(leaves <= {w} or any(y[0] not in ("const", "call") for y in leaves),
              "C01.pad", f.short, "sides", "the images are not padded by the same "
              f"width on all sides: {show(given, 4)[:80]}", fmt_trace(o.st.trace))
    known = {y for y in walk(("tuple", w[2])) if y[0] == "attr"}
    for s in x[2][1]:
        for b in s[1:3]:
            for a in poly(b).atoms():
                # size of the window
                if a[0] == "item" and a[1][0] == "attr" and is_const(a[2]):
                    size = a[1]
                    if size[2].endswith("1") and ("attr", size[1], size[2][
                        :-1] + "0") in known:
                        ctx.ok("C01.pad", f.short, size[2])
                        continue
                    ctx.check(size in known, "C01.pad", f.short, size[2],
                              f"the width of the padding does not take into "
                              f"account {size[2]}: windows at the border would "
                              "be out of the image", fmt_trace(o.st.trace))
    return 1
