"""D04: coordinates in the masked image and in the original image"""

import ast
import re

from ..algebra import poly
from ..framework import fmt_trace
from ..interp import Interp, Policy, State
from ..project import AnalysisBroken
from ..terms import (
    FALSE, NONE, TRUE, base_name, const, contains, is_const, map_term, show, walk,
)
from . import register

TO_ORIG = re.compile(r"orig.*from.*mask")
TO_MASK = re.compile(r"mask.*from.*orig")
POSITIONS = re.compile(r"^_?(i?[xy]s|i?[xy]vecs|i?[xy]s_\w+|i?[xy]vecs_\w+|[xy]s1d)$")
GRID = re.compile(r"^i[xy]vecs(_grid)?$")
STORED = re.compile(r"^(i?[xy]s|i[xy]vecs)(_approx|_final|_smooth)?$")
PASS = ("copy", "astype", "flatten", "ravel", "reshape", "round", "T",
        "float", "array", "asarray", "ascontiguousarray", "vstack", "stack",
        "column_stack", "append", "concatenate", "meshgrid", "transpose",
        "atleast_1d", "squeeze", "array_split")


def direction(func):
    n = func.name
    if TO_ORIG.search(n):
        return "orig"
    if TO_MASK.search(n):
        return "masked"
    return None


def conversions(ctx):
    res = [f for f in ctx.p.all_funcs() if direction(f) and f.cls is not None
           and len(f.node.args.args) == 3]
    if len({direction(f) for f in res}) < 2:
        raise AnalysisBroken("conversions between images not found")
    return res


class MaskPolicy(Policy):
    unroll = 1
    soft_states = 60
    max_states = 4000

    def __init__(self, modules, stop=()):
        self.modules = tuple(modules)
        self.stop = stop

    def should_inline(self, func, interp, st):
        return func.module.name.startswith(self.modules) and direction(
            func) is None and func.name not in self.stop


def args_of(func):
    a = func.node.args
    return {x.arg: ("param", x.arg) for x in (a.args + a.kwonlyargs)
            if x.arg not in ("self", "cls")}


def run(ctx, func, policy, cls=None, self_term=None):
    interp = Interp(ctx.p, policy)
    if self_term is None:
        q = (cls or func.cls)
        self_term = ("obj", "self", q.qual) if q is not None else None
    outs = interp.run(func, args=args_of(func), self_term=self_term, st=State())
    ctx.seen(interp)
    return outs


# ---------------------------------------------------------------------
def start_of(t):
    """number of the direction if the term is the start of its slice"""
    if t[0] == "attr" and t[2] == "start" and t[1][0] == "item" and is_const(
        t[1][2]
    ):
        return t[1][2][1], t[1][1]
    return None


def falsy_start(out, i):
    for ev in out.st.trace:
        if ev.kind != "assume":
            continue
        c, val = ev.a[0], ev.a[1] == TRUE
        neg = False
        while c[0] == "not":
            c, neg = c[1], not neg
        val = val != neg
        if c[0] == "cmp" and c[1] in ("is", "==", "is not", "!="):
            x = c[2] if c[3] == NONE else c[3] if c[2] == NONE else None
            if x is None:
                if const(0) in (c[2], c[3]) and c[1] in ("==", "!="):
                    x = c[2] if c[3] == const(0) else c[3]
                else:
                    continue
            undefined = (c[1] in ("is", "==")) == val
        else:
            x, undefined = c, not val
        if not undefined:
            continue
        if x[0] == "attr" and x[2] == "strcrop" or x[0] == "attr" and x[
            2
        ] == "mask":
            return True
        s = start_of(x)
        if s and s[0] == i:
            return True
    return False


def offset(t, p):
    """polynomial t - p"""
    return poly(("op", "-", t, p))


@register("D04")
def conversion_functions(ctx):
    ctx.rule("D04.offset", "the conversions between the masked and the original "
             "images add (to the original) or subtract (to the masked) to x the "
             "start of the slice of the columns and to y the start of the slice "
             "of the rows, for all cases, and nothing else", 8)
    for f in conversions(ctx):
        sign = 1 if direction(f) == "orig" else -1
        stop = [g.name for g in ctx.p.all_funcs() if "strcrop" in g.name]
        outs = run(ctx, f, MaskPolicy((f.module.name,), stop))
        xs, ys = [("param", a.arg) for a in f.node.args.args[1:3]]
        sources = set()
        for out in outs:
            if out.kind != "return":
                continue
            v = out.val
            if v is None or v[0] != "tuple" or len(v[1]) != 2:
                ctx.maybe("D04.offset", f.short, f"returns {show(v, 3)}")
                continue
            for t, p, i, name in ((v[1][0], xs, 1, "x"), (v[1][1], ys, 0, "y")):
                if t == p or poly(t) == poly(p):
                    ctx.check(
                        falsy_start(out, i), "D04.offset", f.short,
                        f"{name} unchanged",
                        f"{name} is not converted although the start of its "
                        "slice is defined", fmt_trace(out.st.trace),
                        f.node.lineno)
                    continue
                try:
                    d = poly(t) - poly(p)
                except Exception:
                    ctx.maybe("D04.offset", f.short, show(t, 4))
                    continue
                other = [x for x in walk(t) if x[0] == "attr"
                         and x[2] in ("stop", "step") and x[1][0] == "item"]
                if other:
                    ctx.bad("D04.offset", f.short, name,
                            f"{name} becomes {show(t, 5)}",
                            fmt_trace(out.st.trace), f.node.lineno)
                    continue
                starts = [x for x in walk(t) if start_of(x)]
                if not starts:
                    if any(x[0] in ("call", "item") for x in walk(t)):
                        ctx.maybe("D04.offset", f.short, show(t, 4))
                    else:
                        ctx.bad("D04.offset", f.short, name,
                                f"{name} becomes {show(t, 4)}", None,
                                f.node.lineno)
                    continue
                s = starts[0]
                k, src = start_of(s)
                sources.add(src)
                e = poly(s)
                ok = k == i and (d - e if sign > 0 else d + e) == poly(const(0))
                ctx.check(ok, "D04.offset", f.short, name,
                          f"{name} of the "
                          + ("original" if sign > 0 else "masked")
                          + f" image is {show(t, 5)}: expected {name} "
                          + ("+" if sign > 0 else "-")
                          + f" the start of the slice number {i}",
                          fmt_trace(out.st.trace), f.node.lineno)
        for s in sources:
            ok = any(x[0] == "attr" and x[2] == "strcrop" for x in walk(s))
            ctx.check(ok, "D04.offset", f.short, "slices",
                      f"offsets are those of {show(s, 4)} and not of the mask",
                      None, f.node.lineno)


@register("D04")
def crop(ctx):
    ctx.rule("D04.crop", "the image is cut with the slices (in order) of the "
             "mask from which the offsets of the coordinates are computed, "
             "once, and only if a mask is defined", 4)
    parse = [f for f in ctx.p.all_funcs() if "strcrop" in f.name
             and f.cls is None]
    if not parse:
        raise AnalysisBroken("function parsing strcrop not found")
    parser = parse[0]
    check_parser(ctx, parser)
    cls = ctx.p.find_class("ArrayCouple")
    if cls is None:
        raise AnalysisBroken("ArrayCouple not found")
    me = ("obj", "self", cls.qual)
    n = 0
    for name in ("apply_mask", "get_arrays", "__init__"):
        f = cls.methods.get(name)
        if f is None:
            continue
        pol = MaskPolicy((f.module.name,), [parser.name, "_load", "imread",
                                            "_read_image", "read_images",
                                            "_compute_name_from_names"])
        cut = {}
        for out in run(ctx, f, pol, cls):
            if out.kind != "return":
                continue
            masks = [("attr", me, "params_mask"), ("param", "params_mask")]
            val = out.st.heap.get((me, "arrays"))
            if val is None:
                if name == "apply_mask":
                    ctx.check(
                        same_mask(out, masks), "D04.crop", f.short, "no effect",
                        "apply_mask returns without cutting the images",
                        fmt_trace(out.st.trace), f.node.lineno)
                continue
            n += 1
            if name != "get_arrays":
                got = out.st.heap.get((me, "params_mask"))
                ctx.check(got == masks[1], "D04.crop", f.short, "params_mask",
                          f"{name}: the mask which is used is not stored",
                          fmt_trace(out.st.trace), f.node.lineno)
            crops = list(cuts(val, parser))
            opaque = any(x[0] == "call" and "mask" in base_name(x[1])
                         for x in walk(val))
            its = next((x[3] for x in walk(val) if x[0] == "comp"), None)
            cut[its] = cut.get(its) or bool(crops) or opaque
            defined = strcrop_defined(out, masks)
            if defined is not False and not nothing_kept(out, val):
                if not crops:
                    if opaque:
                        ctx.maybe("D04.crop", f.short, show(val, 4))
                        continue
                    ctx.bad("D04.crop", f.short, "not cut",
                            f"{name}: the images are not cut although a mask is "
                            f"defined ({show(val, 4)})",
                            fmt_trace(out.st.trace), f.node.lineno)
                    continue
            if defined is False and crops:
                ctx.bad("D04.crop", f.short, "cut",
                        f"{name}: images cut without mask",
                        fmt_trace(out.st.trace), f.node.lineno)
            for c in crops:
                good, why = good_cut(c, parser)
                if good is None:
                    ctx.maybe("D04.crop", f.short, why)
                else:
                    ctx.check(good, "D04.crop", f.short, "slices",
                              f"{name}: {why}", fmt_trace(out.st.trace),
                              f.node.lineno)
            if not crops:
                ctx.ok("D04.crop", f.short, "no mask")
            if nested(val, parser):
                ctx.bad("D04.crop", f.short, "twice",
                        f"{name}: images are cut twice",
                        fmt_trace(out.st.trace), f.node.lineno)
            if name == "apply_mask" and crops and contains(
                val, ("attr", me, "arrays")
            ):
                ctx.check(
                    unmasked_before(out, me), "D04.crop", f.short, "masked twice",
                    "apply_mask cuts images which have already been cut",
                    fmt_trace(out.st.trace), f.node.lineno)
        for its, ok in cut.items():
            ctx.check(ok, "D04.crop", f.short, "never cut",
                      f"{name}: the images are never cut, whatever the mask",
                      None, f.node.lineno)
    if not n:
        raise AnalysisBroken("images of a couple never stored")


def unmasked_before(out, me):
    pm = ("attr", me, "params_mask")
    for ev in out.st.trace:
        if ev.kind == "assume" and ev.a[0][0] == "cmp" and set(
            ev.a[0][2:4]) == {pm, NONE}:
            isnone = (ev.a[0][1] in ("is", "==")) == (ev.a[1] == TRUE)
            if isnone:
                return True
        if ev.kind == "assume" and ev.a[0] == pm and ev.a[1] == FALSE:
            return True
    return False


def nothing_kept(out, val):
    """no array was considered on this path"""
    return val in (("tuple", ()), ("lst", ()))


def same_mask(out, masks):
    """the path is for images already cut with this mask (or no mask)"""
    for ev in out.st.trace:
        if ev.kind == "assume" and ev.a[0][0] == "cmp":
            c, val = ev.a[0], ev.a[1] == TRUE
            if set(c[2:4]) == set(masks):
                return (c[1] in ("is", "==")) == val
            if set(c[2:4]) == {masks[1], NONE} and (
                c[1] in ("is", "==")) == val:
                return True
    return strcrop_defined(out, masks) is False


def strcrop_defined(out, masks):
    res = None
    for ev in out.st.trace:
        if ev.kind != "assume":
            continue
        c, val = ev.a[0], ev.a[1] == TRUE
        neg = False
        while c[0] == "not":
            c, neg = c[1], not neg
        val = val != neg
        if c[0] == "cmp" and c[1] in ("is", "==", "is not", "!=") and NONE in c[
            2:4
        ]:
            x = c[2] if c[3] == NONE else c[3]
            val = (c[1] in ("is not", "!=")) == val
        else:
            x = c
        if x[0] == "attr" and x[2] == "strcrop" and x[1] in masks:
            res = val
        elif x in masks and not val:
            res = False
    return res


def from_parser(t, parser):
    return any(
        x[0] == "call" and base_name(x[1]) == parser.name for x in walk(t)
    )


def cuts(t, parser):
    for x in walk(t):
        if x[0] == "item" and from_parser(x[2], parser):
            yield x


def nested(t, parser):
    return any(any(True for _ in cuts(c[1], parser)) for c in cuts(t, parser))


def good_cut(c, parser):
    i = c[2]
    if i[0] == "call" and base_name(i[1]) == parser.name:
        ok = any(x[0] == "attr" and x[2] == "strcrop" for x in i[2])
        return ok, f"slices of {show(i, 4)}"
    if i[0] == "tuple":
        ks = []
        for e in i[1]:
            if e[0] == "item" and is_const(e[2]) and e[1][0] == "call" and \
                    base_name(e[1][1]) == parser.name:
                ks.append(e[2][1])
            elif any(x[0] == "item" and x[2][0] == "const" for x in walk(e)):
                ks += [x[2][1] for x in walk(e)
                       if x[0] == "item" and x[1][0] == "call" and is_const(x[2])
                       ][:1]
        if ks == [0, 1]:
            return True, ""
        if len(ks) == 2:
            return False, f"the slices are used in the order {ks}"
    if i[0] == "item" and i[2] == ("slice", NONE, NONE, const(-1)) or (
        i[0] == "call" and base_name(i[1]) in ("tuple", "list") and any(
            x[0] == "call" and base_name(x[1]) == "reversed" for x in walk(i))
    ):
        return False, "the slices are reversed"
    return None, show(i, 4)


def check_parser(ctx, f):
    """slices in the order of the text, with the numbers of the text"""
    outs = run(ctx, f, MaskPolicy((f.module.name,)))
    for out in outs:
        if out.kind != "return":
            continue
        v = out.val
        seen = [v] + [ev.a[0] for ev in out.st.trace if ev.kind == "assume"] + [
            ev.a[1][0] for ev in out.st.trace if ev.kind == "call"
                      and ev.a[0][0] == "attr" and ev.a[0][2] == "append"
                      and ev.a[1]]
        bad = None
        for t in seen:
            for x in walk(t):
                if x[0] == "cmp" and x[1] in ("<", ">", "<=", ">="):
                    bad = f"depends on the values: {show(x, 4)}"
                if x[0] == "call" and base_name(x[1]) in ("reversed", "sorted"):
                    bad = "the order of the parts is changed"
                if x[0] == "item" and x[2] == ("slice", NONE, NONE, const(-1)):
                    bad = "the order of the parts is changed"
                if x[0] == "call" and base_name(x[1]) == "insert":
                    bad = "the order of the parts is changed"
                if x[0] == "op" and x[1] in "+-*" and any(
                    y[0] == "call" and base_name(y[1]) == "int"
                    for y in walk(x)
                ) and not any(y[0] == "call" and base_name(y[1]) == "slice"
                              for y in walk(x)):
                    bad = f"the numbers of the text are changed ({show(x, 4)})"
                if x[0] == "call" and base_name(x[1]) == "split" and x[2] and \
                        is_const(x[2][0]) and x[2][0][1] not in (",", ":", ", "):
                    bad = f"the text is split at {x[2][0][1]!r}"
                if x[0] == "call" and base_name(x[1]) == "insert":
                    bad = "the order of the parts is changed"
                if x[0] == "item" and x[2][0] == "slice" and x[1][
                    0
                ] == "call" and base_name(x[1][1]) == "split":
                    bad = f"parts of the text are ignored ({show(x, 4)})"
        ctx.check(bad is None, "D04.crop", f.short, "parse", f"{f.name}: {bad}",
                  fmt_trace(out.st.trace), f.node.lineno)


# ---------------------------------------------------------------------
class Frames:
    """image in which positions are expressed"""

    def __init__(self, ctx, out, me, results=()):
        self.ctx, self.out, self.me = ctx, out, me
        self.results = set(results)
        self.errors = []

    def frame(self, t, depth=0):
        """'orig', 'masked' or None"""
        if depth > 40:
            return None
        k = t[0]
        if k == "item":
            b = t[1]
            if b[0] == "call":
                n = base_name(b[1])
                if TO_ORIG.search(n) or TO_MASK.search(n):
                    want, new = ("masked", "orig") if TO_ORIG.search(n) else (
                        "orig", "masked")
                    for a in b[2]:
                        f = self.frame(a, depth + 1)
                        if f is not None and f != want:
                            self.errors.append(
                                f"{n} is applied to positions which are already "
                                f"in the {'original' if f == 'orig' else f} "
                                f"image: {show(a, 4)}")
                    if is_const(t[2]) and len(b[2]) == 2 and t[2][1] in (0, 1):
                        self.letters(t[2][1], b[2], n)
                    return new
                if n == "_loop_vectors":
                    return "masked" if is_const(t[2]) and t[2][1] in (
                        2, 3) else None
                if n == "_calcul_positions_vectors_subimages":
                    return "masked"
            return self.frame(b, depth + 1)
        if k == "attr":
            if t[1] == self.me and GRID.match(t[2]):
                return "masked"
            if t[1] != self.me and STORED.match(t[2]) and not t[2].startswith(
                "deltas"
            ):
                if t[1] in self.results or t[1][0] in ("param", "obj", "new",
                                                       "call"):
                    if t[1][0] == "param" or t[1] in self.results:
                        return "orig"
                # grid of another work
                if GRID.match(t[2]):
                    return "masked"
                return None
            if t[1] != self.me and GRID.match(t[2]):
                return "masked"
            if t[2] == "T":
                return self.frame(t[1], depth + 1)
            return None
        if k == "op":
            fs = {self.frame(x, depth + 1) for x in t[2:4] if isinstance(x, tuple)}
            fs.discard(None)
            if len(fs) == 1:
                return fs.pop()
            if len(fs) == 2:
                self.errors.append(
                    "positions of the masked and original images are combined: "
                    + show(t, 4))
            return None
        if k == "list":
            items = self.out.st.heap.get((t, "#items"))
            return self.common(items or (), t, depth)
        if k in ("tuple", "lst"):
            return self.common(t[1], t, depth)
        if k == "call":
            n = base_name(t[1])
            if n in PASS:
                if t[1][0] == "attr" and n not in ("append",):
                    return self.frame(t[1][1], depth + 1)
                return self.common(t[2], t, depth)
        return None

    def common(self, ts, t, depth):
        fs = {self.frame(x, depth + 1) for x in ts}
        fs.discard(None)
        if len(fs) == 2:
            self.errors.append("positions of the masked and original images "
                               "together: " + show(t, 4))
        return fs.pop() if len(fs) == 1 else None

    def letters(self, i, args, n):
        """x and y in the order of the parameters"""
        ls = [letter(a) for a in args]
        if ls == ["y", "x"]:
            self.errors.append(f"{n} is given y then x: "
                               + ", ".join(show(a, 3) for a in args))


def letter(t):
    while True:
        if t[0] == "attr":
            n = t[2].lstrip("_i")
            if n[:1] in "xy":
                return n[0]
            return None
        if t[0] == "item":
            if t[1][0] == "call":
                return None
            t = t[1]
        elif t[0] == "call" and t[1][0] == "attr":
            t = t[1][1]
        else:
            return None


@register("D04")
def stored_positions(ctx):
    ctx.rule("D04.stored", "each position stored in the results is expressed in "
             "the original image: converted exactly once", 8)
    ctx.rule("D04.frame", "positions used together (interpolation: data and "
             "grid) are expressed in the same image", 4)
    base = next((c for c in {f.cls.qual: f.cls for f in conversions(ctx)
                             }.values()), None)
    classes = [base] + list(ctx.p.subclasses(base.qual))
    seen = set()
    n_store = 0
    for cls in classes:
        for name in ("calcul", "apply_interp"):
            f = cls.find_method(name)
            if f is None or f.cls is None or (f.short, cls.qual) in seen or (
                "dummy" in f.short
            ):
                continue
            if f.cls.qual != cls.qual and (f.short, f.cls.qual) in seen:
                continue
            seen.add((f.short, cls.qual))
            if not uses_frames(ctx, f):
                continue
            mods = (f.module.name, base.module.name)
            pol = MaskPolicy(mods, ["_loop_vectors", "_init_correl",
                                    "_prepare_with_image", "_pad_images",
                                    "_complete_result"]
                             + (["apply_interp"] if name == "calcul" else [])
                             + (["calcul"] if name != "calcul" else []))
            pol.raising = {}
            outs = run(ctx, f, pol, cls)
            me = ("obj", "self", cls.qual)
            for out in outs:
                results = {("param", a.arg) for a in f.node.args.args
                           if "result" in a.arg}
                fr = Frames(ctx, out, me, results)
                n_store += one_path(ctx, f, out, fr, me)
    if not n_store:
        raise AnalysisBroken("stored positions not found")
    # the positions given back by the loop on vectors are the ones of the grid
    for f in ctx.p.all_funcs():
        if f.name != "_calcul_positions_vectors_subimages" or f.cls is None:
            continue
        pol = MaskPolicy((f.module.name,))
        for out in run(ctx, f, pol):
            if out.kind != "return" or out.val is None or out.val[0] != "tuple":
                continue
            fr = Frames(ctx, out, ("obj", "self", f.cls.qual))
            for v in out.val[1][:2]:
                k = fr.frame(v)
                ctx.check(k != "orig" and not fr.errors, "D04.frame", f.short,
                          "positions", "positions computed from the masked "
                          f"image are converted too early: {show(v, 4)}",
                          fmt_trace(out.st.trace, 8), f.node.lineno)


def uses_frames(ctx, f):
    src = ast.dump(f.node)
    return TO_ORIG.search(src) or "HeavyPIVResults" in src or TO_MASK.search(src)


def one_path(ctx, f, out, fr, me):
    n = 0
    pos, tps = None, {}
    for ev in out.st.trace:
        if ev.kind == "setattr" and STORED.match(ev.a[1]) and ev.a[0] != me:
            n += stored(ctx, f, fr, ev, ev.a[1], ev.a[2], out)
        if ev.kind == "setattr" and ev.a[0] in fr.results:
            # later reads give this value
            pass
        if ev.kind == "setitem":
            b = ev.a[0]
            # parts of stored positions
            k = fr.frame(b)
            v = fr.frame(ev.a[2])
            flush(ctx, f, fr, ev, out)
            if k and v:
                ctx.check(k == v, "D04.frame", f.short, "element",
                          f"positions of the {v} image are put among positions "
                          f"of the {k} image: {show(ev.a[2], 4)}",
                          fmt_trace(out.st.trace, 8), ev.line)
        if ev.kind in ("call", "new"):
            fn = ev.a[0]
            name = base_name(fn) if isinstance(fn, tuple) else str(fn).split(
                ".")[-1]
            args, kw = ev.a[1], dict(ev.a[2])
            if name.endswith("PIVResults"):
                cls = ctx.p.find_class(name)
                init = ctx.p.find_method(name, "__init__") if cls else None
                if init is None:
                    continue
                names = [a.arg for a in init.node.args.args][1:]
                bound = dict(zip(names, args))
                bound.update(kw)
                for k, v in bound.items():
                    if k is not None and STORED.match(k) and v != NONE:
                        n += stored(ctx, f, fr, ev, k, v, out)
            elif name in ("griddata", "interp2d") and len(args) >= 3:
                same(ctx, f, fr, ev, out, args[0], args[2])
            elif name.startswith("ThinPlateSpline"):
                tps["centers"] = args[0] if args else kw.get("centers")
            elif name == "init_with_new_positions":
                new = args[0] if args else kw.get("new_positions")
                if tps.get("centers") is not None and new is not None:
                    same(ctx, f, fr, ev, out, tps["centers"], new)
            elif name.startswith("mean_neighbors") and len(args) == 4:
                same(ctx, f, fr, ev, out, args[2], args[3])
    return n


def flush(ctx, f, fr, ev, out):
    for e in dict.fromkeys(fr.errors):
        ctx.bad("D04.stored", f.short, e.split(":")[0], e,
                fmt_trace(out.st.trace, 8), ev.line)
    fr.errors.clear()


def same(ctx, f, fr, ev, out, a, b):
    ka, kb = fr.frame(a), fr.frame(b)
    flush(ctx, f, fr, ev, out)
    if ka is None or kb is None:
        ctx.maybe("D04.frame", f.short, f"{show(a, 3)} / {show(b, 3)}")
        return
    ctx.check(ka == kb, "D04.frame", f.short, "interpolation",
              f"data are located in the {ka} image, the grid in the {kb} one: "
              f"{show(a, 5)} / {show(b, 4)}", fmt_trace(out.st.trace, 10),
              ev.line)


def stored(ctx, f, fr, ev, name, v, out):
    k = fr.frame(v)
    flush(ctx, f, fr, ev, out)
    if k is None and not any(
        x[0] == "call" and (TO_ORIG.search(base_name(x[1])) or TO_MASK.search(
            base_name(x[1]))) for x in walk(v)
    ):
        # positions which come directly from the computation on the images
        if any(x[0] == "call" and base_name(x[1]) in ("get_arrays",)
               for x in walk(v)):
            k = "masked"
    if k is None:
        ctx.maybe("D04.stored", f.short, f"{name} = {show(v, 4)}")
        return 1
    ctx.check(k == "orig", "D04.stored", f.short, name,
              f"{name} stored in the results is a position in the masked image "
              f"({show(v, 5)})", fmt_trace(out.st.trace, 10), ev.line)
    want = "x" if name.lstrip("i").startswith("x") else "y"
    if v[0] == "item" and is_const(v[2]) and v[1][0] == "call" and TO_ORIG.search(
        base_name(v[1][1])
    ):
        ctx.check(v[2][1] == (0 if want == "x" else 1), "D04.stored", f.short,
                  f"{name} direction", f"{name} is given {show(v, 4)}",
                  fmt_trace(out.st.trace, 10), ev.line)
    return 1


# ---------------------------------------------------------------------
@register("D04")
def masked_before_use(ctx):
    ctx.rule("D04.images", "works with masks compute from images cut with their "
             "own mask", 2)
    base = conversions(ctx)[0].cls
    done = set()
    for cls in [base] + list(ctx.p.subclasses(base.qual)):
        f = cls.methods.get("calcul")
        if f is None or f.short in done:
            continue
        done.add(f.short)
        src = ast.dump(f.node)
        if "get_arrays" not in src:
            continue
        pol = MaskPolicy((f.module.name,), ["_loop_vectors", "apply_interp",
                                            "_prepare_with_image",
                                            "_complete_result"])
        for out in run(ctx, f, pol, cls):
            if out.kind != "return":
                continue
            masked = {}
            for ev in out.st.trace:
                if ev.kind != "call" or ev.a[0][0] not in ("attr", "bound"):
                    continue
                n = base_name(ev.a[0])
                if n == "apply_mask":
                    masked[ev.a[0][1]] = ev.a[1][0] if ev.a[1] else None
                if n == "get_arrays":
                    b = ev.a[0][1]
                    if b[0] == "attr" and b[2] == "couple":
                        # couple of the results of the previous pass
                        ctx.ok("D04.images", f.short, "previous pass")
                        continue
                    m = masked.get(b)
                    ok = m is not None and m[0] == "attr" and m[2] == "mask"
                    ctx.check(ok, "D04.images", f.short, "mask",
                              f"{f.name} uses images of the couple which have "
                              "not been cut with the mask of the parameters",
                              fmt_trace(out.st.trace, 10), ev.line)


def reverses(t):
    rev = False
    while True:
        if t[0] == "item" and t[2] == ("slice", NONE, NONE, const(-1)):
            rev, t = not rev, t[1]
        elif t[0] == "call" and base_name(t[1]) == "reversed" and t[2]:
            rev, t = not rev, t[2][0]
        elif t[0] == "call" and base_name(t[1]) in ("tuple", "list") and t[2]:
            t = t[2][0]
        else:
            return rev


@register("D04")
def grids(ctx):
    ctx.rule("D04.grid", "grids computed without the images (post-processing) "
             "are computed for the size of the masked image and expressed in "
             "the original image", 1)
    n = 0
    for f in ctx.p.all_funcs():
        if "postproc" not in f.module.name or f.cls is not None:
            continue
        src = ast.dump(f.node)
        if "_prepare_with_image" not in src:
            continue
        n += 1
        pol = MaskPolicy((f.module.name,), [
            g.name for g in ctx.p.all_funcs() if "strcrop" in g.name])
        for out in run(ctx, f, pol, None, self_term=None):
            if out.kind != "return" or out.val is None:
                continue
            nomask = any(
                ev.kind == "assume" and any(
                    x[0] == "attr" and x[2] == "strcrop"
                    for x in walk(ev.a[0])) and (
                        (ev.a[0][0] == "cmp" and (ev.a[0][1] in ("is", "==")) ==
                         (ev.a[1] == TRUE)) or (ev.a[0][0] != "cmp" and
                                                ev.a[1] == FALSE))
                for ev in out.st.trace)
            for ev in out.st.trace:
                if ev.kind == "call" and base_name(
                    ev.a[0]) == "_prepare_with_image":
                    shape = dict(ev.a[2]).get("imshape")
                    if shape is None:
                        shape = ev.a[1][-1] if ev.a[1] else None
                    if shape is None or nomask:
                        continue
                    raw = shape[0] == "param" or shape[0] == "attr" and shape[
                        2] == "shape_images" or (
                            shape[0] == "item" and not any(
                                x[0] == "attr" and x[2] == "strcrop"
                                for x in walk(shape)))
                    ctx.check(not raw, "D04.grid", f.short, "shape",
                              "the grid is computed for the size of the original "
                              "image although the vectors are computed on the "
                              "masked image", fmt_trace(out.st.trace, 10),
                              ev.line)
                    for z in walk(shape):
                        if z[0] == "call" and base_name(z[1]) == "zip":
                            rev = {reverses(a) for a in z[2]}
                            ctx.check(len(rev) == 1, "D04.grid", f.short,
                                      "shape order", "shape and slices are in "
                                      f"different orders: {show(z, 5)}",
                                      fmt_trace(out.st.trace, 10), ev.line)
            v = out.val
            fr = Frames(ctx, out, None)
            if v[0] == "tuple":
                for t in v[1]:
                    k = fr.frame(t)
                    if k is None:
                        ctx.maybe("D04.grid", f.short, show(t, 4))
                    else:
                        ctx.check(k == "orig" or nomask, "D04.grid", f.short,
                                  "frame", "the grid which is returned is "
                                  f"expressed in the masked image: {show(t, 4)}",
                                  fmt_trace(out.st.trace, 10), f.node.lineno)
            elif v[0] == "call" and TO_ORIG.search(base_name(v[1])):
                ks = [fr.frame(a) for a in v[2]]
                ctx.check("orig" not in ks, "D04.grid", f.short, "frame",
                          "the grid is converted twice", None, f.node.lineno)
            else:
                ctx.maybe("D04.grid", f.short, show(v, 4))
            flush(ctx, f, fr, out.st.trace[-1] if len(out.st.trace) else None,
                  out) if fr.errors else None
    if not n:
        raise AnalysisBroken("grids of the post-processing not found")
