"""E07: the parts of a split computation cover every item exactly once"""

from ..algebra import A, K, divmod_identity, poly
from ..framework import fmt_trace
from ..interp import Interp, Policy
from ..project import AnalysisBroken
from ..terms import (
    NONE, TRUE, const, contains, contains_if, is_const, map_term, mk_len, show,
    strip_uid, subst, walk,
)
from . import register
from .executors import is_multi, model

MOD = "fluidimage.topologies.splitters"


class NoInline(Policy):
    """policy where the given functions (names) stay opaque"""

    def __init__(self, names=(), unroll=2):
        self.names = set(names)
        self.unroll = unroll

    def should_inline(self, func, interp, st):
        return func.name not in self.names


def call_name(t):
    if t[0] != "call":
        return None
    f = t[1]
    if f[0] in ("func",):
        return f[1][3].split(".")[-1]
    if f[0] == "bound":
        return f[2][1][3].split(".")[-1]
    if f[0] == "attr":
        return f[2]
    if f[0] == "ext":
        return f[1].split(".")[-1]
    return None


# ----------------------------------------------------------------------
# arithmetic of the split
# ----------------------------------------------------------------------
I_ = ("sym", "#i")


def fix_index(t, k):
    """replace the elements of range(...) / indices of iteration by k"""

    def f(x):
        if x[0] == "elem" and x[1][0] == "call" and x[1][1] == ("ext", "range"):
            if len(x[1][2]) == 1:
                return k if k is not None else const(x[2])
        if x[0] == "idx":
            return k if k is not None else const(x[2])
        return x

    return map_term(t, f)


class Split:
    """algebra of one split function: N items, P parts"""

    def __init__(self, n, p):
        self.n, self.p = n, p
        self.q = ("op", "//", n, p)
        self.r = ("op", "%", n, p)

    def rewrite(self, t):
        if t == self.p or t == self.n:
            return A(t)
        if t[0] == "item" and t[1][0] == "call" and (
            t[1][1] == ("ext", "divmod")
        ) and t[2] in (const(0), const(1)) and len(t[1][2]) == 2:
            a, b = t[1][2]
            return self.poly(("op", "//" if t[2] == const(0) else "%", a, b))
        if t[0] == "op" and t[1] == "//":
            a, b = self.poly(t[2]), self.poly(t[3])
            if b == A(self.p):
                if a == A(self.n):
                    return A(self.q)
                if a.is_zero():
                    return K(0)
                if a == A(self.n) * A(self.p):
                    return A(self.n)
                c = a.coef(self.n)
                if c is not None and not c[0].is_zero():
                    return A(("op", "//", ("poly", frozenset(a.d.items())),
                              self.p))
        if t[0] == "op" and t[1] == "%":
            a, b = self.poly(t[2]), self.poly(t[3])
            if a == A(self.n) and b == A(self.p):
                return A(self.r)
        if t[0] == "call" and t[1] == ("ext", "min") and len(t[2]) == 2:
            a, b = self.poly(t[2][0]), self.poly(t[2][1])
            for x, y in ((a, b), (b, a)):
                if y == A(self.r):
                    if x.is_zero():
                        return K(0)
                    if x == A(self.p):
                        return A(self.r)
            key = tuple(sorted((frozenset(a.d.items()), frozenset(b.d.items())),
                               key=repr))
            return A(("min", key))
        if t[0] == "call" and t[1] == ("ext", "len") and strip_uid(t) == self.n:
            return A(self.n)
        return None

    def poly(self, t):
        p = poly(t, self.rewrite)
        return divmod_identity(p, self.n, self.q, self.r, self.p)

    def zero(self, a, b):
        return (self.poly(a) - self.poly(b)).is_zero()

    def known(self, p):
        """only atoms whose algebra is known"""
        for a in p.atoms():
            if a[0] in ("sym", "min", "elem", "idx"):
                continue
            if a in (self.n, self.q, self.r, self.p):
                continue
            if a[0] == "op" and a[1] == "//":
                continue
            return False
        return True


def total(sp, t, st, trace):
    """sum of a list of sizes as a polynomial or None"""
    # element-wise modifications
    extra = K(0)
    for e in trace:
        if e.kind == "setitem" and e.a[0] == t:
            old = ("item", t, e.a[1])
            inc = sp.poly(e.a[2]) - sp.poly(old)
            idx = e.a[1]
            if not (idx[0] == "elem" and idx[1][0] == "call"
                    and idx[1][1] == ("ext", "range") and len(idx[1][2]) == 1):
                return None
            if inc.const() is None:
                return None
            if idx[2] == 0:
                extra = extra + inc * sp.poly(idx[1][2][0])
    def base(x):
        if x[0] == "op" and x[1] == "+":
            a, b = base(x[2]), base(x[3])
            return None if a is None or b is None else a + b
        if x[0] == "op" and x[1] == "*":
            for l, n in ((x[2], x[3]), (x[3], x[2])):
                items = st.heap.get((l, "#items")) if l[0] == "list" else None
                if items is not None:
                    s = K(0)
                    for y in items:
                        s = s + sp.poly(y)
                    return s * sp.poly(n)
        if x[0] == "comp" and len(x[3]) == 1 and not x[4]:
            it = x[3][0]
            if it[0] == "call" and it[1] == ("ext", "range") and len(it[2]) == 1:
                return sum_over(sp, x[2], it[2][0])
        return None

    b = base(t)
    if b is None:
        return None
    # modifications must be on every element of the range: the loop has been
    # seen (iterations) or is empty on this path
    return divmod_identity(b + extra, sp.n, sp.q, sp.r, sp.p)


def empty_loops(sp, p, trace):
    """use the fact that range(x) is empty (x == 0) for the loops which are not
    entered on this path"""
    for e in trace:
        if e.kind == "exhausted" and e.a[1] == const(0):
            it = e.a[0]
            if it[0] == "call" and it[1] == ("ext", "range") and len(it[2]) == 1:
                x = sp.poly(it[2][0])
                if len(x.atoms()) == 1:
                    at = next(iter(x.atoms()))
                    ca = x.coef(at)
                    if ca is not None and ca[0].const() and (
                        ca[1].const() is not None
                    ):
                        p = p.subst(at, K(-ca[1].const() / ca[0].const()))
    return p


def sum_over(sp, expr, n):
    """sum of expr over range(n): expr = a + b*[i < c]"""
    p = sp.poly(expr)
    tot = K(0)
    for mono, c in p.d.items():
        ind = [a for a in mono if a[0] == "cmp"]
        others = [a for a in mono if a[0] != "cmp"]
        if any(contains_if(a, lambda x: x[0] in ("elem", "idx")) for a in others):
            return None
        m = K(c)
        for a in others:
            m = m * A(a)
        if not ind:
            tot = tot + m * sp.poly(n)
        elif len(ind) == 1 and ind[0][1] == "<" and ind[0][2][0] == "elem" and (
            sp.poly(ind[0][3]) == A(sp.r)
        ) and sp.poly(n) == A(sp.p):
            tot = tot + m * A(sp.r)
        else:
            return None
    return divmod_identity(tot, sp.n, sp.q, sp.r, sp.p)


def check_parts(ctx, rule, f, sp, items, st, trace, start, step, end, unit):
    """items: list of (a, b) of the successive parts; closed form if one symbolic
    part (a(i), b(i)) is given with unit=number of parts"""
    where = f.short
    path = fmt_trace(trace)

    def verdict(p, construct, msg):
        if p.is_zero():
            ctx.ok(rule, where, construct)
            return True
        if sp.known(p):
            ctx.bad(rule, where, construct, msg, path)
        else:
            ctx.maybe(rule, where, construct)
        return False

    conc = [(fix_index(a, None), fix_index(b, None)) for a, b in items]
    if not contains_if(items[0][0], lambda x: x[0] == "elem" and x[2] == "*"):
        verdict(sp.poly(conc[0][0]) - sp.poly(start), "first part",
                f"the first part starts at {show(conc[0][0])} and not at the "
                "first item")
    for k in range(len(conc) - 1):
        verdict(sp.poly(conc[k + 1][0]) - sp.poly(conc[k][1]),
                "consecutive parts",
                f"a part starts at {show(conc[k + 1][0])} whereas the previous "
                f"one stops at {show(conc[k][1])}")
    # sizes
    sizes = [sp.poly(b) - sp.poly(a) for a, b in items]
    facts = {strip_uid(k): v for k, v in st.facts.items()}
    k = len(items) - 1
    a, b = items[k]
    iters = [e for e in trace if e.kind == "iter"]
    elems = {x for s in sizes for at in s.atoms() for x in walk(at)
             if x[0] == "elem"}
    lists = {x[1] for x in elems if not (
        x[1][0] == "call" and x[1][1] == ("ext", "range"))}
    if lists:
        if len(lists) != 1:
            return ctx.maybe(rule, where, "several lists of sizes")
        lst = lists.pop()
        for kk, s in enumerate(sizes):
            want = sp.poly(("elem", lst, kk)) * sp.poly(step)
            verdict(s - want, "size of a part",
                    "the size of a part is not the number given by the list of "
                    "sizes multiplied by the step")
        tot = total(sp, lst, st, trace)
        if tot is None:
            ctx.maybe(rule, where, "sum of the sizes " + show(lst))
        else:
            verdict(empty_loops(sp, tot - A(sp.n), trace), "total",
                    "the sizes of the parts do not sum to the number of items")
        return
    # closed form A(i): a(i), b(i) with B(i) = A(i + 1)
    rng = {x[1] for p in (items[k][0], items[k][1]) for x in walk(p)
           if x[0] == "elem"}
    prev = [x for p in items[k] for x in walk(p)
            if x[0] in ("elem", "idx") and x[2] != k and x[2] != "*"]
    if rng and not prev:
        r = rng.pop()
        n = r[2][0]
        aa = fix_index(a, I_)
        bb = fix_index(b, I_)
        nxt = subst(aa, {I_: ("op", "+", I_, const(1))})
        verdict(sp.poly(nxt) - sp.poly(bb), "consecutive parts (closed form)",
                f"a part starts at {show(nxt)} whereas the previous one stops at "
                f"{show(bb)}")
        a0 = subst(aa, {I_: const(0)})
        an = subst(aa, {I_: n})
        verdict(sp.poly(a0) - sp.poly(start), "first part (closed form)",
                "the first part does not start at the first item")
        verdict(sp.poly(an) - sp.poly(end), "total",
                f"the last part stops at {show(an)} and not after the last item")
        return
    # sizes decided by a test on the index: q + 1 if i < r else q
    okk = True
    for kk, s in enumerate(sizes):
        done = False
        for t, v in facts.items():
            th = threshold(sp, t, v, kk)
            if th is None:
                continue
            done = True
            big, limit = th
            want = (A(sp.q) + K(1 if big else 0)) * sp.poly(step)
            verdict(divmod_identity(s - want, sp.n, sp.q, sp.r, sp.p),
                    "size of a part",
                    "the sizes of the parts do not sum to the number of items")
            verdict(limit - A(sp.r), "number of bigger parts",
                    "the number of parts with one more item is not the "
                    "remainder of the division")
        if not done:
            # literal sum
            cmps = [x for at in s.atoms() for x in walk(at) if x[0] == "cmp"]
            if cmps:
                tot = None
                for e in iters:
                    it = e.a[0]
                    if it[0] == "call" and it[1] == ("ext", "range"):
                        tot = sum_over(sp, ("op", "-", items[kk][1],
                                            items[kk][0]), it[2][0])
                if tot is not None:
                    verdict(tot - A(sp.n) * sp.poly(step), "total",
                            "the sizes of the parts do not sum to the number of "
                            "items")
                    done = True
        okk = okk and done
    if not okk:
        ctx.maybe(rule, where, "sum of the sizes")


def threshold(sp, t, v, k):
    """(the test says i < limit, limit) for a test of the index i of a part"""
    if t[0] != "cmp" or t[1] not in ("<", "<="):
        return None

    def is_index(x):
        return x[0] in ("elem", "idx") and x[2] == k

    if is_index(t[2]):
        # i < x or i <= x
        lim = sp.poly(t[3])
        return v, lim + K(1 if t[1] == "<=" else 0)
    if is_index(t[3]):
        # x < i or x <= i
        lim = sp.poly(t[2])
        return not v, lim + K(1 if t[1] == "<" else 0)
    return None


def tuple_items(v, st):
    if v[0] == "tuple":
        return v[1]
    if v[0] == "list":
        return st.heap.get((v, "#items"))
    return None


def parts_of(o):
    """(list of part terms, symbolic?) of a returned list of parts"""
    v = o.val
    if v[0] == "list":
        return o.st.heap.get((v, "#items")), False
    if v[0] == "tuple":
        return v[1], False
    if v[0] == "comp":
        return (v[2],), True
    if v[0] == "call" and v[1] in (("ext", "list"), ("ext", "tuple")) and v[2]:
        w = v[2][0]
        if w[0] == "comp":
            return (w[2],), True
    return None, False


def split_functions(ctx, p):
    """functions which compute the ranges and the lists of indices"""
    res = {}
    for c in p.subclasses("SplitterCompleteAware", strict=True):
        f = c.find_method("__init__")
        I = Interp(p, NoInline(("split_range", "split_list")))
        outs = I.run(f, self_term=("obj", "self", c.qual))
        ctx.seen(I)
        res[c.qual] = (c, f, outs)
    return res


@register("E07")
def e07_arithmetic(ctx):
    p = ctx.p
    ctx.rule("E07.ranges", "a range is split in consecutive, disjoint parts, the "
             "first one starts at the start and their sizes sum to the number of "
             "items", 4)
    ctx.rule("E07.lists", "a list is split in consecutive, disjoint slices which "
             "cover it", 3)
    f = p.find_func(MOD, "split_range")
    names = [a.arg for a in f.node.args.args]
    if len(names) < 4:
        raise AnalysisBroken("split_range has less than 4 arguments")
    start, stop, step, num = [("sym", n) for n in names[:4]]
    n_items = mk_len(("call", ("ext", "range"), (start, stop, step), (), None))
    I = Interp(p, NoInline(unroll=3))
    outs = I.run(f)
    ctx.seen(I)
    n = 0
    for o in outs:
        if o.kind == "return":
            n += check_range_out(ctx, f, o, n_items, start, step, num)
    if not n:
        ctx.maybe("E07.ranges", f.short, "form of the result")
    f = p.find_func(MOD, "split_list")
    names = [a.arg for a in f.node.args.args]
    seq, num = [("sym", n) for n in names[:2]]
    n_items = mk_len(seq)
    I = Interp(p, NoInline(unroll=3))
    outs = I.run(f)
    ctx.seen(I)
    n = 0
    for o in outs:
        if o.kind == "return":
            n += check_list_out(ctx, f, o, n_items, seq, num)
    if not n:
        ctx.maybe("E07.lists", f.short, "form of the result")


def find_parts_number(t, cands):
    """the number of parts used: second operand of the division of N"""
    for x in walk(t):
        if x[0] == "op" and x[1] in ("//", "%"):
            return x[3]
        if x[0] == "call" and x[1] == ("ext", "divmod") and len(x[2]) == 2:
            return x[2][1]
    return None


def clean_uid(t):
    return map_term(t, lambda x: x[:4] + (None,)
                    if x[0] == "call" and len(x) == 5 and x[1][0] == "ext" else x)


def check_range_out(ctx, f, o, n_items, start, step, num):
    parts, symbolic = parts_of(o)
    if parts is None:
        return 0
    if not symbolic and len(parts) < 2:
        return 0
    sp = Split(n_items, num)
    items = []
    for x in parts:
        t = tuple_items(x, o.st)
        if t is None or len(t) != 3:
            return 0
        a, b, s = [clean_uid(y) for y in t]
        if not ctx.check(
            sp.zero(s, step), "E07.ranges", f.short, "step",
            f"the step of a part is {show(s)} instead of {show(step)}",
            fmt_trace(o.st.trace)
        ):
            return 1
        items.append((a, b))
    end = ("op", "+", start, ("op", "*", n_items, step))
    check_parts(ctx, "E07.ranges", f, sp, items, o.st, o.st.trace, start, step,
                end, None)
    nb_of_parts(ctx, "E07.ranges", f, o, sp, parts, symbolic)
    return 1


def nb_of_parts(ctx, rule, f, o, sp, parts, symbolic):
    """the parts are made for all the indices of range(P)"""
    its = [e.a[0] for e in o.st.trace if e.kind == "iter"] + (
        list(o.val[3]) if symbolic and o.val[0] == "comp" else [])
    for it in its:
        if it[0] == "call" and it[1] == ("ext", "enumerate") and it[2]:
            it = it[2][0]


def check_list_out(ctx, f, o, n_items, seq, num):
    parts, symbolic = parts_of(o)
    if parts is None:
        return 0
    if any(
        t == seq and not v for t, v in o.st.facts.items()
    ) or any(t[0] == "cmp" and v and n_items in t[2:] and const(0) in t[2:]
             for t, v in o.st.facts.items()):
        # nothing to split: only empty parts
        for x in parts:
            t = tuple_items(x, o.st)
            ctx.check(
                t is not None and len(t) == 0, "E07.lists", f.short,
                "empty sequence", "an empty list is split in non empty parts",
                fmt_trace(o.st.trace))
        return 1
    if not symbolic and len(parts) < 2:
        return 0
    items = []
    for x in parts:
        x = clean_uid(x)
        if not (x[0] == "item" and x[1] == seq and x[2][0] == "slice"):
            ctx.maybe("E07.lists", f.short, "part " + show(x))
            return 0
        sl = x[2][1:]
        if sl[2] not in (NONE, const(1)):
            ctx.bad("E07.lists", f.short, "step", "the parts are not made of "
                    "consecutive items", fmt_trace(o.st.trace))
            return 1
        items.append((sl[0] if sl[0] != NONE else const(0),
                      sl[1] if sl[1] != NONE else n_items))
    nb = None
    for a, b in items:
        nb = nb or find_parts_number(a, None) or find_parts_number(b, None)
    sp = Split(n_items, nb if nb is not None else num)
    if nb is not None and nb != num:
        mins = nb[0] == "call" and nb[1] == ("ext", "min") and set(nb[2]) == {
            num, n_items}
        facts = o.st.facts
        if not mins:
            if nb == n_items:
                mins = True
            else:
                ctx.maybe("E07.lists", f.short, "number of parts " + show(nb))
    check_parts(ctx, "E07.lists", f, sp, items, o.st, o.st.trace, const(0),
                const(1), n_items, nb)
    return 1


# ----------------------------------------------------------------------
# what is split and what is given to the processes
# ----------------------------------------------------------------------
@register("E07")
def e07_splitters(ctx):
    p = ctx.p
    ctx.rule("E07.whole", "what a splitter splits is the whole computation: the "
             "start, stop and step of the series (or first slicing tuple), or "
             "the list of indices to be computed; with one part per process", 4)
    for c, f, outs in split_functions(ctx, p).values():
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            n += check_whole(ctx, c, f, o)
        ctx.check(n > 0, "E07.whole", f"{f.short}", f"{c.name}: nothing split",
                  f"{c.name} does not split anything")


def attr_val(o, name, cls):
    t = ("obj", "self", cls.qual)
    return o.st.heap.get((t, name))


def check_whole(ctx, c, f, o):
    ranges = attr_val(o, "ranges", c)
    lists = attr_val(o, "indices_lists", c)
    nexp = attr_val(o, "num_expected_results", c)
    where = f"{c.module.rel}:{c.name}.__init__"
    path = fmt_trace(o.st.trace)
    nproc = [("sym", "num_processes"), ("attr", ("obj", "self", c.qual),
                                       "num_processes")]
    n = 0
    both = [x for x in (ranges, lists) if x is not None and x != NONE]
    ctx.check(len(both) == 1, "E07.whole", where, "ranges or lists",
              "after the creation of a splitter, exactly one of ranges and "
              "indices_lists has to be set", path)
    for v in both:
        if call_name(v) not in ("split_range", "split_list"):
            ctx.maybe("E07.whole", where, "computed by " + show(v))
            continue
        n += 1
        args = list(v[2]) + [x for _, x in v[3]]
        ctx.check(args[-1] in nproc, "E07.whole", where, "number of parts",
                  f"the computation is split in {show(args[-1])} parts instead of "
                  "the number of processes", path)
        if call_name(v) == "split_range" and len(args) == 4:
            a = args[:3]
            if all(x[0] == "attr" for x in a):
                good = len({x[1] for x in a}) == 1 and [x[2] for x in a] == [
                    "ind_start", "ind_stop", "ind_step"]
            elif all(x[0] == "item" for x in a):
                good = len({strip_uid(x[1]) for x in a}) == 1 and [
                    x[2] for x in a] == [const(0), const(1), const(2)]
                t0 = a[0][1]
                good = good and t0[0] == "item" and t0[2] == const(0) and (
                    contains_if(t0, lambda x: x[0] == "call"
                                and call_name(x) == "get_slicing_tuples"))
                if good:
                    check_other_indices(ctx, c, where, o, t0[1], path)
            else:
                good = None
                for x, name in zip(a, ("ind_start", "ind_stop", "ind_step")):
                    px = poly(x)
                    at = [y for y in px.atoms() if y[0] == "attr"]
                    if x[0] == "op" and len(at) == 1 and at[0][2] == name and (
                        (px - A(at[0])).const()
                    ):
                        good = False
            if good is None:
                ctx.maybe("E07.whole", where, "bounds " + show(v))
            else:
                ctx.check(good, "E07.whole", where, "bounds",
                          "the range which is split is not (start, stop, step) of "
                          f"the series: {show(v)}", path)
        elif call_name(v) == "split_list":
            lst = args[0]
            a_ok = lst == ("sym", "indices_to_be_computed") or call_name(
                lst) == "compute_indices_to_be_computed"
            if lst == ("sym", "indices_to_be_computed"):
                a_ok = any(
                    t == ("cmp", "is", lst, NONE) and v2 is False
                    or t == lst and v2 is True
                    for t, v2 in o.st.facts.items())
            ctx.check(a_ok, "E07.whole", where, "list of indices",
                      f"the list which is split is {show(lst)} instead of the "
                      "indices to be computed", path)
            ctx.check(nexp is not None and strip_uid(nexp) == strip_uid(
                mk_len(lst)), "E07.whole", where, "number of expected results",
                "the number of expected results is not the number of indices "
                "which are split", path)
    return n


def segments(trace, pred):
    """(iterable, n, events of this iteration) for the loops selected"""
    res = []
    cur = None
    for e in trace:
        if e.kind in ("iter", "exhausted") and pred(e.a[0]):
            if cur is not None:
                res.append(cur)
            cur = None
            if e.kind == "iter":
                cur = (e.a[0], e.a[1][1], [])
            continue
        if cur is not None:
            cur[2].append(e)
    if cur is not None:
        res.append(cur)
    return res


def parts_iter(name):
    def pred(it):
        while it[0] == "call" and it[1] == ("ext", "enumerate") and it[2]:
            it = it[2][0]
        return it[0] == "attr" and it[2] == name

    return pred


def base_iter(it):
    while it[0] == "call" and it[1] == ("ext", "enumerate") and it[2]:
        it = it[2][0]
    return it


def known_empty(seg, part):
    """the part is known to be empty from a test of this iteration"""
    for e in seg:
        if e.kind != "assume":
            continue
        t, v = e.a[0], e.a[1] == TRUE
        if t == part and not v:
            return True
        if not v and t[0] == "call" and t[1] == ("ext", "range") and contains(
            t, part
        ):
            return True
        if t[0] == "cmp" and contains(t, part):
            lens = [x for x in t[2:] if x[0] == "call" and x[1] == ("ext", "len")]
            if lens and const(0) in t[2:]:
                if t[1] == "==" and v:
                    return True
                if t[1] == "<" and not v and t[2] == const(0):
                    return True
                if t[1] == "<=" and v and t[3] == const(0):
                    return True
            # start == stop, start >= stop
            its = [x for x in t[2:] if x[0] == "item" and x[1] == part]
            if len(its) == 2 and t[1] == "==" and v:
                return True
    return False


def has_part(t, part):
    return contains(t, part)


def check_other_indices(ctx, c, where, o, tuples, path):
    """the slices of the other indices are given back unchanged"""
    self_t = ("obj", "self", c.qual)
    used = subset_attrs(ctx, c)
    if used is None:
        return
    if not used:
        ctx.bad("E07.whole", where, "slices of the other indices",
                "the subsets given to the processes do not contain the slices of "
                "the other indices of the images", path)
    for name in sorted(used):
        v = o.st.heap.get((self_t, name))
        if v is None:
            ctx.bad("E07.whole", where, f"{name} not set", f"{name} is used in "
                    "the subset given to the processes but not set", path)
            continue
        good = other_indices_ok(v, tuples, o.st.facts)
        if good is None:
            ctx.maybe("E07.whole", where, f"{name}: {show(v)}")
        else:
            ctx.check(good, "E07.whole", where, "slices of the other indices",
                      f"{name} (slices of the other indices of the images) is "
                      f"{show(v)}: it does not reproduce the slices of the "
                      "series", path)


def subset_attrs(ctx, c):
    """attributes of the splitter which are used in the subsets"""
    f = c.find_method("_iter_over_new_params_from_ranges") or c.find_method(
        "iter_over_new_params")
    if f is None:
        return None
    self_t = ("obj", "self", c.qual)
    I = Interp(ctx.p, NoInline())
    res = set()
    for o in I.run(f, self_term=self_t) + I.cuts:
        for e in o.st.trace:
            if e.kind == "setattr" and e.a[1] == "str_subset":
                v = e.a[2]
                found = {
                    x[2] for x in walk(v)
                    if x[0] == "attr" and x[1] == self_t and x[2] != "ranges"
                }
                res |= found
                if not found and not (
                    v[0] == "join" or v[0] == "fstr" and len(v[1]) == 1
                    or all(x[0] == "const" or x[1][0] == "item" for x in (
                        v[1] if v[0] == "fstr" else ()))
                ):
                    return None  # not recognised
    return res


def other_indices_ok(v, tuples, facts):
    n = mk_len(tuples)
    if v == const(""):
        for t, val in facts.items():
            if t[0] == "cmp" and strip_uid(n) in (strip_uid(t[2]),
                                                  strip_uid(t[3])):
                if (t[1], val) == ("==", True) and const(1) in t[2:]:
                    return True
                if t[1] == "<" and t[2] == const(1) and not val:
                    return True
                if t[1] == "<" and t[3] == const(2) and val:
                    return True
                if t[1] == "<=" and t[3] == const(1) and val:
                    return True
                if t[1] == "<=" and t[2] == const(2) and not val:
                    return True
            if t[0] == "item" and strip_uid(t[1]) == strip_uid(tuples) and (
                    val is False):
                return True
        return False
    rest = ("item", tuples, ("slice", const(1), NONE, NONE))
    for x in walk(v):
        if x[0] == "slice" and x != rest[2]:
            return False
        if x[0] == "comp" and x[4]:
            return False
    if v[0] != "fstr" or len(v[1]) != 2 or v[1][0] != const(","):
        return None
    j = v[1][1][1]
    if j[0] != "join" or j[2][0] != "comp":
        return None
    if j[1] != const(","):
        return False
    comp = j[2]
    if tuple(map(strip_uid, comp[3])) != (strip_uid(rest),):
        return None
    j2 = comp[2]
    if j2[0] != "join" or j2[2][0] != "comp":
        return None
    if j2[1] != const(":"):
        return False
    el = ("elem", rest, "*")
    if tuple(map(strip_uid, j2[2][3])) != (strip_uid(el),):
        return None
    leaf = strip_uid(j2[2][2])
    good = strip_uid(("fstr", (("fmt", ("elem", el, "*"), "", -1),)))
    return True if leaf == good else None


@register("E07")
def e07_params(ctx):
    p = ctx.p
    ctx.rule("E07.params", "each non empty part is given to exactly one set of "
             "parameters (range, or file of indices written for this part)", 4)
    ctx.rule("E07.files", "the file of indices of a part is written with all its "
             "indices, one per line, under the name given to its process", 2)
    for c in p.subclasses("SplitterCompleteAware", strict=True):
        f = c.find_method("iter_over_new_params")
        I = Interp(p, NoInline())
        outs = I.run(f, self_term=("obj", "self", c.qual)) + I.cuts
        ctx.seen(I)
        given = set()
        for name in ("ranges", "indices_lists"):
            n = 0
            for o in outs:
                if o.kind != "return":
                    continue
                for it, k, seg in segments(o.st.trace, parts_iter(name)):
                    n += 1
                    check_params(ctx, c, name, base_iter(it), k, seg, given)
            ctx.check(n > 0, "E07.params", f"{c.module.rel}:{c.name}",
                      f"{name} never used",
                      f"{c.name}: no parameters are made from {name}")
        # the files of indices
        f = c.find_method("save_indices_files")
        if f is None:
            raise AnalysisBroken("save_indices_files not found")
        I = Interp(p, NoInline())
        outs = I.run(f, self_term=("obj", "self", c.qual)) + I.cuts
        ctx.seen(I)
        written = set()
        for o in outs:
            if o.kind != "return":
                continue
            dirs = attr_val(o, "_path_dir_indices", c)
            for it, k, seg in segments(o.st.trace, parts_iter("indices_lists")):
                check_file(ctx, c, f, base_iter(it), k, seg, written, o)
            ctx.check(dirs is not None and dirs[0] == "sym", "E07.files",
                      f.short, "directory", "the directory of the files is not "
                      "remembered", fmt_trace(o.st.trace))
        ctx.check(
            bool(given) and given <= written, "E07.files",
            f"{c.module.rel}:{c.name}", "names",
            f"names of the files read ({sorted(map(show, given))}) and written "
            f"({sorted(map(show, written))})")


def norm_name(t):
    """relative name of a file in its directory"""
    def f(x):
        if x[0] == "idx":
            return ("idx", None, 0)
        if x[0] == "fmt" and x[2] in ("03", "03d"):
            return x[:2] + ("03",) + x[3:]
        return x

    if t[0] == "op" and t[1] == "/":
        return map_term(t[3], f)
    return map_term(t, f)


def elements_in_order(vals, part):
    return vals == [("item", part, const(i)) for i in range(3)]


def check_params(ctx, c, name, it, k, seg, given):
    part = ("elem", it, k)
    where = f"{c.module.rel}:{c.name}.iter_over_new_params"
    path = fmt_trace(seg)
    ys = [e for e in seg if e.kind == "yield"]
    if known_empty(seg, part):
        # giving an empty part to a process or not does not matter
        if not ys:
            ctx.ok("E07.params", where, "empty part")
            return
    if not ctx.check(len(ys) == 1, "E07.params", where,
                     f"{len(ys)} parameters for a part of {name}",
                     f"{len(ys)} sets of parameters are made for one non empty "
                     f"part of {name}", path):
        return
    y = ys[0].a[0]
    sets = {}
    for e in seg[: seg.index(ys[0])]:
        if e.kind == "setattr" and contains(e.a[0], y):
            sets[e.a[1]] = e.a[2]
    if name == "ranges":
        if "str_subset" in sets:
            v = sets["str_subset"]
            good = subset_ok(v, part)
            if good is None:
                ctx.maybe("E07.params", where, "str_subset " + show(v))
            else:
                ctx.check(good, "E07.params", where, "subset",
                          f"the subset given to a process is {show(v)} instead of "
                          "the range of its part", path)
        else:
            vals = [sets.get(n) for n in ("ind_start", "ind_stop", "ind_step")]
            ctx.check(
                elements_in_order(vals, part), "E07.params", where, "range",
                "ind_start, ind_stop and ind_step given to a process are not the "
                "ones of its part: " + ", ".join(
                    "missing" if v is None else show(v) for v in vals), path)
    else:
        v = sets.get("path_indices_file")
        if ctx.check(v is not None, "E07.params", where, "no file of indices",
                     "no file of indices is given to a process", path):
            ctx.check(contains_if(v, lambda x: x[0] == "idx" and x[2] == k),
                      "E07.params", where, "name of the file",
                      "the name of the file of indices does not depend on the "
                      "part", path)
            given.add(norm_name(v))
        # the topology has to read the file
        how = [
            e for e in seg if e.kind == "setattr" and e.a[1] == "how"
        ]
        for e in how:
            ctx.check(e.a[2] == const("from_path_indices"), "E07.params", where,
                      "mode", "the process is not asked to read the file of "
                      "indices", path)


def subset_ok(v, part):
    """'a:b:c' + rest: the three numbers of the part in order"""
    if v[0] != "fstr":
        return None
    parts = v[1]
    p0 = parts[0]
    if p0[0] == "fmt" and p0[1][0] == "join":
        j = p0[1]
        comp = j[2]
        if j[1] == const(":") and comp[0] == "comp" and comp[3] == (part,):
            el = comp[2]
            ok = el in (
                ("fstr", (("fmt", ("elem", part, "*"), "", -1),)),
            ) or (el[0] == "call" and el[2] == (("elem", part, "*"),))
            return ok and not comp[4]
        return False if j[1] != const(":") else None
    txt = []
    for q in parts:
        txt.append(q[1] if q[0] == "const" else
                   "{%s}" % q[1][2][1] if q[1][0] == "item" and q[1][1] == part
                   and is_const(q[1][2]) else "?")
    s = "".join(map(str, txt))
    if s.startswith("{0}:{1}:{2}"):
        return True
    if "?" in s.split(",")[0]:
        return None
    return False


def check_file(ctx, c, f, it, k, seg, written, o):
    part = ("elem", it, k)
    where = f"{c.module.rel}:{c.name}.save_indices_files"
    path = fmt_trace(seg)
    wr = [
        e for e in seg if e.kind == "call" and e.a[0][0] == "attr"
        and e.a[0][2] in ("write_text", "write", "writelines")
    ]
    if known_empty(seg, part):
        ctx.ok("E07.files", where, "empty part")
        return
    if not ctx.check(bool(wr), "E07.files", where, "not written",
                     "the file of indices of a non empty part is not written",
                     path):
        return
    if any(e.a[0][2] == "write_text" for e in wr):
        ctx.check(len(wr) == 1, "E07.files", where, "written twice",
                  "the file of indices is written more than once", path)
        e = wr[0]
        written.add(norm_name(e.a[0][1]))
        name, content = e.a[0][1], e.a[1][0]
        ctx.check(contains_if(name, lambda x: x[0] == "idx" and x[2] == k),
                  "E07.files", where, "name of the file",
                  "the name of the file does not depend on the part", path)
        joins = [x for x in walk(content) if x[0] == "join"]
        good = False
        if len(joins) == 1:
            j = joins[0]
            comp = j[2]
            good = (
                j[1] == const("\n") and comp[0] == "comp" and comp[3] == (part,)
                and not comp[4]
                and contains(comp[2], ("elem", part, "*"))
            )
        elif not joins:
            ctx.maybe("E07.files", where, "content " + show(content))
            return
        ctx.check(good, "E07.files", where, "content",
                  "the file does not contain one line per index of the part: "
                  + show(content), path)
    else:
        ops = [e for e in seg if e.kind == "call" and e.a[0] == ("ext", "open")
               or e.kind == "call" and e.a[0][0] == "attr"
               and e.a[0][2] == "open"]
        for e in ops:
            t = e.a[1][0] if e.a[0][0] == "ext" else e.a[0][1]
            written.add(norm_name(t))
        inner = [e for e in seg if contains(e.a[1] if e.kind == "call" else (),
                                            part)]
        if not inner and not any(
            e.kind in ("iter", "exhausted") and e.a[0] == part for e in seg
        ):
            ctx.bad("E07.files", where, "content", "the indices of the part are "
                    "not written", path)
        else:
            ctx.ok("E07.files", where, "content")


# ----------------------------------------------------------------------
def reading_funcs(p):
    """functions which read the file of indices"""
    import ast

    res = []
    for f in p.all_funcs():
        if any(isinstance(n, ast.Attribute) and n.attr == "path_indices_file"
               and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)):
            res.append(f)
    return res


@register("E07")
def e07_reading(ctx):
    p = ctx.p
    ctx.rule("E07.read", "a sub-process reads all the lines of its file of "
             "indices and computes exactly these indices", 2)
    n = 0
    for f in reading_funcs(p):
        if f.module.name.endswith("splitters"):
            continue
        I = Interp(p, NoInline())
        slf = ("obj", "self", f.cls.qual) if f.cls is not None else None
        outs = I.run(f, self_term=slf)
        ctx.seen(I)
        for o in outs:
            if o.kind != "return":
                continue
            ops = [
                e for e in o.st.trace if e.kind == "call"
                and contains_if(e.a[0][1] if e.a[0][0] == "attr" else e.a[1],
                                lambda x: x[0] == "attr"
                                and x[2] == "path_indices_file")
                and (e.a[0] == ("ext", "open") or e.a[0][0] == "attr"
                     and e.a[0][2] in ("read_text", "open"))
            ]
            for e in ops:
                n += 1
                file_t = e.a[3]
                users = [
                    x for e2 in o.st.trace for a in e2.a if isinstance(a, tuple)
                    for x in walk(a) if x[0] == "comp" and contains(
                        ("tuple", x[3]), file_t) and not contains_if(
                        ("tuple", x[3]), lambda y: y[0] == "elem"
                        and contains(y, file_t))
                ]
                its = [e2 for e2 in o.st.trace if e2.kind in ("iter", "exhausted")
                       and contains(e2.a[0], file_t)]
                for u in users:
                    cut = contains_if(("tuple", u[3]), lambda x: x[0] == "slice")
                    real = [
                        c for c in u[4] if not is_line_test(c, u, file_t)]
                    ctx.check(
                        not cut and not real, "E07.read",
                        f.short, "lines dropped", "some lines of the file of "
                        "indices are ignored: " + show(u), fmt_trace(o.st.trace),
                        e.line)
                    ctx.check(
                        contains_if(u[2], lambda x: x[0] == "elem"),
                        "E07.read", f.short, "content of the lines",
                        "the indices do not come from the lines of the file",
                        fmt_trace(o.st.trace), e.line)
                for e2 in its:
                    ctx.check(not contains_if(
                        e2.a[0], lambda x: x[0] == "item" and x[2][0] == "slice"
                        and contains(x[1], file_t) and not contains_if(
                            x[1], lambda y: y[0] == "elem"
                            and contains(y, file_t))),
                              "E07.read", f.short, "lines dropped",
                              "some lines of the file of indices are ignored",
                              fmt_trace(o.st.trace), e.line)
                ctx.check(bool(users or its), "E07.read", f.short, "not read",
                          "the lines of the file of indices are not used",
                          fmt_trace(o.st.trace), e.line)
                modes = [
                    t for t, v in o.st.facts.items() if v and t[0] == "cmp"
                    and const("from_path_indices") in t[2:]]
                ctx.check(bool(modes), "E07.read", f.short, "mode",
                          "the file of indices is read in another mode than "
                          "'from_path_indices'", fmt_trace(o.st.trace), e.line)
    if not n:
        raise AnalysisBroken("no function reads the files of indices")


def is_line_test(c, u, file_t):
    """a condition which only drops empty lines"""
    for x in walk(c):
        if x[0] == "cmp" and any(
            is_const(y) and y[1] not in ("", "\n", None, 0) for y in x[2:]
        ):
            return False
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] not in (
            "strip", "rstrip", "lstrip"
        ):
            return False
    return True


# ----------------------------------------------------------------------
@register("E07")
def e07_launch(ctx):
    ctx.rule("E07.launch", "a multi-process executor starts exactly one process "
             "per non empty part, with the part itself", 6)
    m = model(ctx)
    for c in m.classes:
        if not is_multi(m, c):
            continue
        f = c.find_method("_start_processes")
        if f is None:
            raise AnalysisBroken(f"{c.name}: no method _start_processes")
        pol = LaunchPolicy(("split_list", "split_range"))
        I = Interp(m.p, pol)
        outs = I.run(f, self_term=("obj", "self", c.qual)) + I.cuts
        ctx.seen(I)
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            tr = o.st.trace
            for name in ("ranges", "indices_lists"):
                for it, k, seg in segments(tr, parts_iter(name)):
                    n += 1
                    check_launch(ctx, m, c, f, name, base_iter(it), k, seg)
            for it, k, seg in segments(tr, lambda t: call_name(
                    base_iter(t)) == "iter_over_new_params"):
                n += 1
                check_launch_params(ctx, m, c, f, base_iter(it), k, seg, o)
            for it, k, seg in segments(tr, lambda t: call_name(
                    base_iter(t)) == "split_list"):
                n += 1
                check_launch_queue(ctx, m, c, f, base_iter(it), k, seg, o)
        ctx.check(n > 0, "E07.launch", f.short, "no parts",
                  f"{c.name}: the processes are not started from the parts")


class LaunchPolicy(NoInline):
    """one representative work, queue, key... in the inner loops"""

    def enum_loop(self, it):
        b = base_iter(it)
        if call_name(b) in ("split_list", "iter_over_new_params") or (
            b[0] == "attr" and b[2] in ("ranges", "indices_lists")
        ):
            return None
        if b[0] in ("attr", "elem") or b[0] == "call" and call_name(b) in (
            "list", "items", "keys", "values", "copy"
        ):
            x = ("elem", b, 0)
            if b[0] == "attr" and b[2] == "works" and not contains_if(
                b, lambda y: y[0] == "call" and call_name(y) == "deepcopy"
            ):
                # shallow copies of a topology share their works
                x = ("sym", "work")
            if it[0] == "call" and it[1] == ("ext", "enumerate"):
                return (("tuple", (("idx", b, 0), x)),)
            if b[0] == "call" and call_name(b) == "items":
                return (("tuple", (("key", b[1][1], 0), ("val", b[1][1], 0))),)
            return (x,)
        return None

    def keep(self, ev):
        return ev.kind not in ("enter", "exit")


def started(seg):
    """processes started in a list of events: (creation event)"""
    res = []
    for e in seg:
        if e.kind != "call":
            continue
        ft = e.a[0]
        if ft == ("ext", "subprocess.Popen"):
            res.append(e)
        elif ft[0] == "attr" and ft[2] == "start" and contains_if(
            ft[1], lambda x: x[0] == "call" and call_name(x) == "Process"
        ):
            cre = [e2 for e2 in seg if e2.kind == "call" and e2.a[3] == ft[1]]
            res.append(cre[0] if cre else e)
    return res


def check_launch(ctx, m, c, f, name, it, k, seg):
    part = ("elem", it, k)
    where = f"{f.short} ({name})"
    path = fmt_trace(seg)
    st = started(seg)
    if known_empty(seg, part) and not st:
        ctx.ok("E07.launch", where, "empty part")
        return
    if not ctx.check(len(st) == 1, "E07.launch", where, f"{len(st)} processes",
                     f"{len(st)} processes are started for one non empty part",
                     path):
        return
    before = seg[: seg.index(st[0])]
    sets = {e.a[1]: e.a[2] for e in before if e.kind == "setattr"}
    if name == "ranges":
        vals = [sets.get(n) for n in ("ind_start", "ind_stop", "ind_step")]
        ctx.check(elements_in_order(vals, part), "E07.launch", where, "range",
                  "ind_start, ind_stop and ind_step of the series of a process "
                  "are not the ones of its part: " + ", ".join(
                      "missing" if v is None else show(v) for v in vals), path)
        objs = {e.a[0] for e in before if e.kind == "setattr"
                and e.a[1].startswith("ind_")}
    else:
        calls = [e for e in before if e.kind == "call" and e.a[0][0] == "attr"
                 and e.a[0][2] == "set_index_series"]
        ctx.check(bool(calls) and calls[-1].a[1] == (part,), "E07.launch", where,
                  "indices", "the indices given to the series of a process are "
                  "not the ones of its part", path)
        objs = {e.a[0][1] for e in calls[-1:]}
    # the series belongs to the topology of the process
    args = [x for _, x in st[0].a[2]] + list(st[0].a[1])
    for s in objs:
        topo = s[1] if s[0] == "attr" else s
        ok = any(contains(a, topo) for a in args)
        while not ok and topo[0] == "call" and topo[1] == ("ext", "copy.copy"):
            # a shallow copy shares its series with the original
            topo = topo[2][0]
            ok = any(contains(a, topo) for a in args)
        ctx.check(ok, "E07.launch", where, "topology", "the topology given to the process is not the one "
                  "which got the part", path)


def check_launch_params(ctx, m, c, f, it, k, seg, o):
    part = ("elem", it, k)
    where = f.short
    path = fmt_trace(seg)
    st = started(seg)
    if not ctx.check(len(st) == 1, "E07.launch", where, f"{len(st)} processes",
                     f"{len(st)} processes are started for one set of parameters",
                     path):
        return
    saves = [
        e for e in seg[: seg.index(st[0])] if e.kind == "call"
        and e.a[0][0] == "attr" and e.a[0][1] == part
        and e.a[0][2] == "_save_as_xml"
    ]
    if not ctx.check(len(saves) >= 1, "E07.launch", where, "not saved",
                     "the parameters of a process are not saved before it is "
                     "started", path):
        return
    s = saves[-1]
    pth = s.a[1][0] if s.a[1] else dict(s.a[2]).get("path_file", NONE)
    cmd = st[0].a[1][0] if st[0].a[1] else NONE
    items = tuple_items(cmd, o.st) or ()
    ctx.check(any(contains(x, pth) for x in items), "E07.launch", where,
              "file of parameters", "the file given to the process is not the "
              "one where its parameters are saved", path)
    ctx.check(contains_if(pth, lambda x: x[0] == "idx" and x[2] == k),
              "E07.launch", where, "name of the file",
              "the files of parameters of the processes have the same name", path)
    # later modifications would not be seen
    for e in seg[seg.index(s):]:
        if e.kind == "setattr" and contains(e.a[0], part):
            ctx.bad("E07.launch", where, "modified after the saving",
                    "the parameters are modified after having been saved", path)
    for name, want in (("index_process", lambda v: v[0] == "idx" and v[2] == k),
                       ("path_log", lambda v: contains_if(
                           v, lambda x: x[0] == "idx" and x[2] == k))):
        vals = [e.a[2] for e in seg[: seg.index(s)] if e.kind == "setattr"
                and e.a[1] == name]
        ctx.check(bool(vals) and want(vals[-1]), "E07.launch", where, name,
                  f"{name} given to a process is not the one of this process",
                  path)


def check_launch_queue(ctx, m, c, f, it, k, seg, o):
    part = ("elem", it, k)
    where = f.short + " (first queue)"
    path = fmt_trace(seg)
    st = started(seg)
    if known_empty(seg, part) and not st:
        ctx.ok("E07.launch", where, "empty part")
        return
    # (what the process gets: rule E07.graph)
    ctx.check(len(st) == 1, "E07.launch", where, f"{len(st)} processes",
              f"{len(st)} processes are started for one part", path)
