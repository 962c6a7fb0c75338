"""T05: combination of the images in couples and subsets"""

from ..framework import fmt_trace
from ..interp import Interp, Policy
from ..terms import (
    FALSE, NONE, TRUE, contains, contains_if, is_const, show, walk,
)
from ..topomodel import graphs, topology_classes
from . import register
from .topologies import (
    GROW, SHRINK, callee, global_like, is_exc_test, is_reader, ops_on, peel,
    queue_index, removals, stores, value_of, work_func,
)


def norm(t, w, wf):
    """items of queues designated by key: q[key(q, i)] is val(q, i)"""
    return t


def combiners(ctx):
    """(graph, work, function, index of the names, index of the arrays)"""
    done = set()
    for c in topology_classes(ctx.p):
        for g in graphs(ctx, c):
            for w in g.works:
                if not w.has("global") or w.has("one shot"):
                    continue
                if len(w.inq) < 2 or not w.outq:
                    continue
                wf = work_func(ctx, g, w)
                if wf is None:
                    continue
                key = (wf.func.key, c.qual if wf.func.cls is None else
                       wf.func.cls.qual, len(w.inq))
                if key in done:
                    continue
                done.add(key)
                yield g, w, wf


def truth(e):
    """(term, value) of an assume event, negations removed"""
    t, v = e.a[0], e.a[1] == TRUE
    while t[0] == "not":
        t, v = t[1], not v
    return t, v


def availability(t, w, wf):
    """(queue, name or ('all', names)) if the term tests that a name is a key of
    an input queue"""
    if t[0] == "cmp" and t[1] == "in":
        q = queue_index(w, wf, peel(t[3]), "in")
        if q is not None:
            return q, t[2]
    if t[0] == "forall":
        inner = t[1]
        if inner[0] == "cmp" and inner[1] == "in":
            q = queue_index(w, wf, peel(inner[3]), "in")
            if q is not None:
                src = t[2]
                if isinstance(src, tuple) and src and not isinstance(
                        src[0], str):
                    src = src[0]
                return q, ("all", src)
    if t[0] == "call" and t[1][0] == "attr" and len(t[2]) == 1 and (
            t[1][2] in ("__contains__", "issubset")):
        q = queue_index(w, wf, peel(t[1][1]), "in")
        if q is not None and t[1][2] == "__contains__":
            return q, t[2][0]
        if t[1][2] == "issubset":
            q = queue_index(w, wf, peel(t[2][0]), "in")
            if q is not None:
                return q, ("all", t[1][1])
    return None


def need_test(t, w, wf):
    """(queue of names, name) if the term tests that a name is still needed"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "is_name_in_values" and (
            len(t[2]) == 1):
        q = queue_index(w, wf, t[1][1], "in")
        if q is not None:
            return q, t[2][0]
    if t[0] == "exists" or t[0] == "forall" and t[1][0] == "not":
        c = t[1][1] if t[0] == "forall" else t[1]
        src = t[2]
        if isinstance(src, tuple) and src and not isinstance(src[0], str):
            src = src[0]
        q = queue_index(w, wf, peel(src), "in")
        if c[0] == "cmp" and c[1] == "in" and q is not None and contains_if(
                c[3], lambda x: x[0] in ("elem", "val")):
            return q, c[2]
    return None


def need_of(e, w, wf):
    """(queue, name, needed) for a branch on the remaining need"""
    t, v = truth(e)
    nt = need_test(t, w, wf)
    if nt is None:
        return None
    if t[0] == "forall":
        v = not v
    return nt + (v,)


def iteration_segments(tr, w, wf):
    """parts of a trace, one per iteration on a queue: (queue, index, start,
    stop)"""
    res = []
    for i, e in enumerate(tr):
        if e.kind == "iter":
            q = queue_index(w, wf, peel(e.a[0]), "in")
            n = e.a[1]
            for s in res:
                if s[5] is e.node and s[3] is None:
                    s[3] = i
            res.append([q, n, i, None, None, e.node])
        elif e.kind == "exhausted":
            for s in res:
                if s[5] is e.node and s[3] is None:
                    s[3] = i
    for s in res:
        if s[3] is None:
            s[3] = len(tr)
    return [(q, n, a, b) for q, n, a, b, _, _ in res if q is not None]


def num(n):
    return n[1] if isinstance(n, tuple) else n


def key_of(w, wf, q, n):
    """test for: the key of the n-th iteration on the queue q"""
    def test(t):
        return (t[0] == "key" and queue_index(w, wf, peel(t[1]), "in") == q
                and num(t[2]) == num(n)) or (
            t[0] == "elem" and queue_index(w, wf, peel(t[1]), "in") == q)
    return test


def is_val(t, w, wf, q):
    """the term is the couple (subset) of names of an iteration"""
    if t[0] == "val":
        return queue_index(w, wf, peel(t[1]), "in") == q
    if t[0] == "item":
        return queue_index(w, wf, t[1], "in") == q and t[2][0] in ("key", "elem")
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("pop", "get"):
        return queue_index(w, wf, t[1][1], "in") == q
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("tuple", "list") and (
            len(t[2]) == 1):
        return is_val(t[2][0], w, wf, q)
    return False


def name_pos(t, w, wf, N):
    """position of a name in the couple; 'each' for an element of the subset"""
    if t[0] == "item" and is_val(t[1], w, wf, N) and is_const(t[2]):
        return t[2][1]
    if t[0] == "elem" and is_val(t[1], w, wf, N):
        return "each"
    return None


def array_pos(t, w, wf, N):
    """(queue, position) for an array designated by a name of the couple"""
    if t[0] == "item":
        q = queue_index(w, wf, t[1], "in")
        if q is not None and q != N:
            p = name_pos(t[2], w, wf, N)
            if p is not None:
                return q, p
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("pop", "get") and t[2]:
        q = queue_index(w, wf, t[1][1], "in")
        if q is not None and q != N:
            p = name_pos(t[2][0], w, wf, N)
            if p is not None:
                return q, p
    return None


def order_of_arrays(t, w, wf, N):
    """positions of the arrays in a tuple or list of arrays, 'same' if it is the
    order of the names, None if unknown"""
    if t[0] in ("tuple", "lst"):
        res = [array_pos(x, w, wf, N) for x in t[1]]
        if None in res:
            return None
        return [p for _, p in res]
    if t[0] == "comp":
        src = t[3]
        while isinstance(src, tuple) and src and not isinstance(src[0], str):
            src = src[0]
        p = array_pos(t[2], w, wf, N)
        if p is None:
            return None
        if t[4]:
            return "filtered"
        if is_val(src, w, wf, N):
            return "same"
        if src[0] == "call" and src[1][0] == "ext" and src[1][1] in (
                "reversed", "sorted"):
            return "reordered"
        return None
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("tuple", "list") and (
            len(t[2]) == 1):
        return order_of_arrays(t[2][0], w, wf, N)
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in (
            "reversed", "sorted") and len(t[2]) >= 1:
        return "reordered"
    return None


def order_of_names(t, w, wf, N):
    if is_val(t, w, wf, N):
        return "same"
    if t[0] == "item" and t[2][0] == "slice" and is_val(t[1], w, wf, N):
        return "reordered"
    if t[0] in ("tuple", "lst"):
        res = [name_pos(x, w, wf, N) for x in t[1]]
        return None if None in res else res
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in (
            "reversed", "sorted"):
        return "reordered"
    return None


def names_queue(w, wf):
    """index of the queue whose values are names of items of another queue"""
    cnt = {}
    for o in wf.outs + wf.cuts:
        for e in o.st.trace:
            for t in e.a:
                if not isinstance(t, tuple):
                    continue
                for x in walk(t):
                    if x[0] == "item" and len(x) > 2:
                        b = queue_index(w, wf, x[1], "in")
                        if b is None:
                            continue
                        for i in range(len(w.inq)):
                            if i != b and value_of(x[2], w, wf, i):
                                cnt[i] = cnt.get(i, 0) + 1
    return max(cnt, key=cnt.get) if cnt else None


@register("T05")
def t05_make(ctx):
    ctx.rule("T05.available", "arrays are taken only when they are known to be in "
             "the queue", 8)
    ctx.rule("T05.once", "a couple (subset) is made exactly when all its images are "
             "available and its names are removed with it", 8)
    ctx.rule("T05.key", "the couple is stored under its key", 4)
    ctx.rule("T05.order", "arrays and names of a couple are in the order of the "
             "series and the serie is the one of the couple", 4)
    ctx.rule("T05.discard", "an array is discarded if and only if no remaining "
             "couple (subset) needs it", 6)
    n = 0
    for g, w, wf in combiners(ctx):
        N = names_queue(w, wf)
        if N is None:
            one_to_one(ctx, g, w, wf)
            continue
        n += 1
        for o in wf.outs:
            if o.kind == "raise":
                continue
            check_path(ctx, g, w, wf, N, o)
        if len(w.inq) == 2:
            check_discard(ctx, g, w, wf, N)
        else:
            check_used(ctx, g, w, wf, N)
    if n == 0:
        ctx.broken.append("no work making couples of arrays found")


def seg_of(segs, i, q):
    """the innermost iteration on q at the position i"""
    best = None
    for s in segs:
        if s[0] == q and s[2] < i < s[3]:
            if best is None or s[2] > best[2]:
                best = s
    return best


def check_path(ctx, g, w, wf, N, o):
    tr = o.st.trace
    segs = iteration_segments(tr, w, wf)
    known = []  # (position, queue, name or ('all', names))
    refused = []
    for i, e in enumerate(tr):
        if e.kind == "assume":
            t, v = truth(e)
            a = availability(t, w, wf)
            if a is not None:
                (known if v else refused).append((i,) + a)
    rem = removals(w, wf, tr)
    deps = stores(w, wf, tr)
    P = lambda i: fmt_trace(tr[: i + 1])

    # availability of what is taken
    seen = set()
    for i, e in enumerate(tr):
        if e.kind in ("assume", "enter", "exit"):
            continue
        for t in e.a:
            if not isinstance(t, tuple):
                continue
            for x in walk(t):
                if x[0] != "item":
                    continue
                q = queue_index(w, wf, x[1], "in")
                if q is None or (x, i) in seen:
                    continue
                seen.add((x, i))
                k = x[2]
                if k[0] == "key" and queue_index(
                        w, wf, peel(k[1]), "in") == q:
                    ctx.ok("T05.available", wf.where, show(x))
                    continue
                if k[0] == "elem" and queue_index(
                        w, wf, peel(k[1]), "in") == q:
                    ctx.ok("T05.available", wf.where, show(x))
                    continue
                if q == N:
                    continue
                ok = any(
                    p < i and kq == q and (
                        n == k or same_elem(n, k) or (n[0] == "all" and k[0] in ("elem", "item")
                                   and k[1] == n[1])
                        or (n[0] == "all" and same_names(n[1], k)))
                    for p, kq, n in known)
                if not ok and (other_test(tr[:i], w, wf, N, q) or any(
                        y.kind == "exhausted" and is_val(y.a[0], w, wf, N)
                        and num(y.a[1]) == 0 for y in tr[:i])):
                    ctx.maybe("T05.available", wf.where, show(x))
                    continue
                ctx.check(ok, "T05.available", wf.where, f"{g.cls.name}: "
                          f"{show(x)}",
                          f"'{w.name}' takes {show(x)} without knowing that it is "
                          "available", P(i), e.line)
    for s in segs:
        if s[0] != N:
            continue
        _, n, a, b = s
        d = [x for x in deps if a < x[0] < b and not is_forward(x, w, wf, N)]
        r = [x for x in rem if a < x[0] < b and x[2] == N]
        label = f"{g.cls.name}: iteration"
        miss = [x for x in refused if a < x[0] < b]
        taken = [x for x in d]
        if not taken:
            if not miss and other_test(tr[a:b], w, wf, N):
                ctx.maybe("T05.once", wf.where, label + " without couple")
                continue
            ctx.check(miss or cut_short(tr, a, b), "T05.once", wf.where,
                      label + " without couple",
                      f"'{w.name}' does not make a couple although its images are "
                      "not known to be missing", P(min(b, len(tr) - 1)))
            ctx.check(not r, "T05.once", wf.where, label + " lost",
                      f"'{w.name}' removes the names of a couple which is not made",
                      P(min(b, len(tr) - 1)))
            continue
        ctx.check(len(taken) == 1, "T05.once", wf.where, label + " twice",
                  f"'{w.name}' makes a couple several times",
                  P(min(b, len(tr) - 1)))
        ctx.check(len(r) == 1, "T05.once", wf.where, label + " names kept",
                  f"the names of a couple are removed {len(r)} time(s) from the "
                  f"queue '{g.qname(w.inq[N])}' when the couple is made",
                  P(min(b, len(tr) - 1)))
        for x in r:
            ctx.check(x[3] is None or key_of(w, wf, N, n)(x[3]), "T05.once",
                      wf.where, label + " other names",
                      f"'{w.name}' makes a couple but removes the names "
                      f"{show(x[3]) if x[3] else ''}", P(x[0]), x[1].line)
        for i, e, j, k, v in taken:
            same_key = k is not None and (
                key_of(w, wf, N, n)(k)
                or (len(w.inq) > 2 and name_pos(k, w, wf, N) is not None))
            ctx.check(same_key, "T05.key", wf.where, f"{g.cls.name}: key",
                      f"'{w.name}' stores a couple under "
                      f"{show(k) if k else 'no key'}, which is not its key",
                      P(i), e.line)
            check_order(ctx, g, w, wf, N, n, tr, i, e, v)


def other_test(tr, w, wf, N, q=None):
    """a condition on the names of the couple and on a queue of arrays which is
    not understood"""
    for e in tr:
        if e.kind != "assume":
            continue
        t = e.a[0]
        if availability(truth(e)[0], w, wf) or need_test(t, w, wf):
            continue
        if contains_if(t, is_exc_test):
            continue
        u = truth(e)[0]
        if u[0] == "exists" and u[1][0] == "cmp" or (
                u[0] == "forall" and u[1][0] == "not" and u[1][1][0] == "cmp"):
            continue  # some of the images
        ns = contains_if(t, lambda x: is_val(x, w, wf, N) if x[0] in (
            "val", "item", "call") else False)
        qs = contains_if(t, lambda x: x[0] in ("sym", "item") and queue_index(
            w, wf, x, "in") not in (None, N))
        if ns and qs:
            return True
    return False


def same_names(src, k):
    """all(x in q for x in names) then q[names[i]]"""
    return k[0] in ("elem", "item") and k[1] == src


def same_elem(n, k):
    return n[0] == k[0] == "elem" and n[1] == k[1]


def cut_short(tr, a, b):
    return any(e.kind in ("raise", "return") for e in tr[a:b])


def is_forward(x, w, wf, N):
    """an item of an input queue given as it is to the next queue, under its name
    (not a couple), besides a couple"""
    i, e, j, k, v = x
    if len(w.outq) < 2:
        return False
    return v[0] == "item" and queue_index(w, wf, v[1], "in") is not None and (
        v[2] == k) and j != couple_queue(w, wf)


def couple_queue(w, wf):
    """index of the output queue in which tuples of two arrays are stored"""
    for o in wf.outs:
        for i, e, j, k, v in stores(w, wf, o.st.trace):
            if v[0] in ("tuple", "lst", "obj"):
                return j
    return None


def new_of(tr, i, v):
    for e in reversed(tr[:i]):
        if e.kind == "new" and v in e.a:
            return e
    return None


def check_order(ctx, g, w, wf, N, n, tr, i, e, v):
    P = fmt_trace(tr[: i + 1])
    lab = f"{g.cls.name}: order"
    if v[0] == "obj":
        ev = new_of(tr, i, v)
        if ev is None:
            ctx.maybe("T05.order", wf.where, "construction of the couple")
            return
        kw = dict(ev.a[2])
        arrays, names, serie = (kw.get(x) for x in ("arrays", "names", "serie"))
        if names is None and ev.a[1]:
            names = ev.a[1][0]
        if arrays is None and len(ev.a[1]) > 1:
            arrays = ev.a[1][1]
        oa = order_of_arrays(arrays, w, wf, N) if arrays is not None else None
        on = order_of_names(names, w, wf, N) if names is not None else None
        for what, od in (("arrays", oa), ("names", on)):
            if od is None:
                ctx.maybe("T05.order", wf.where, f"{what} of the couple")
                continue
            ok = od == "same" or (isinstance(od, list)
                                  and od == list(range(len(od))))
            ctx.check(ok, "T05.order", wf.where, f"{lab} of {what}",
                      f"the {what} of the couple are not those of the series in "
                      f"their order ({od})", P, e.line)
        if serie is not None:
            ok = contains_if(serie, lambda x: key_of(w, wf, N, n)(x))
            for x in walk(serie):
                if x[0] == "call" and x[1][0] == "attr" and (
                        x[1][2] == "get_serie_from_index") and x[2]:
                    ok = key_of(w, wf, N, n)(x[2][0])
            ctx.check(ok, "T05.order", wf.where, f"{lab}: serie",
                      f"the serie of the couple ({show(serie)}) does not "
                      "correspond to its key", P, e.line)
        else:
            ctx.maybe("T05.order", wf.where, "serie of the couple")
    elif v[0] in ("tuple", "lst"):
        od = order_of_arrays(v, w, wf, N)
        first = first_couple(tr, i, w, wf, N)
        if od is None:
            ctx.maybe("T05.order", wf.where, "arrays of the couple")
        else:
            ok = od == list(range(len(od))) or (first and set(od) <= {0, 1})
            ctx.check(ok, "T05.order", wf.where, f"{lab} of arrays",
                      f"the arrays of the couple are not in the order of the "
                      f"series ({od})", P, e.line)
    else:
        # error forwarded
        t = v
        ok = contains_if(t, lambda x: array_pos(x, w, wf, N) is not None) or (
            array_pos(t, w, wf, N) is not None)
        exc = any(says_exception(x) for x in tr[:i])
        ctx.check(ok and exc, "T05.order", wf.where, f"{g.cls.name}: stored value",
                  f"'{w.name}' stores {show(t)} as a couple", P, e.line)


def says_exception(e):
    """the branch where a value is an exception"""
    if e.kind != "assume":
        return False
    t, v = truth(e)
    if not contains_if(t, is_exc_test):
        return False
    if t[0] == "forall" and t[1][0] == "not":
        return not v
    return v


def first_couple(tr, i, w, wf, N):
    """the two names of the couple are the same"""
    for e in tr[:i]:
        if e.kind == "assume" and e.a[1] == TRUE and e.a[0][0] == "cmp" and (
                e.a[0][1] in ("is", "==")):
            a = name_pos(e.a[0][2], w, wf, N)
            b = name_pos(e.a[0][3], w, wf, N)
            if a is not None and b is not None and a != b:
                return True
    return False


def one_to_one(ctx, g, w, wf):
    """items of two queues with the same key are taken together"""
    for o in wf.outs:
        tr = o.st.trace
        rem = removals(w, wf, tr)
        for i, e, j, k, v in stores(w, wf, tr):
            ks = {(x[2], x[3]) for x in rem}
            ctx.check({q for q, x in ks if x == k} == set(range(len(w.inq))),
                      "T05.once", wf.where, f"{g.cls.name}: {show(k)}",
                      f"'{w.name}' stores {show(k)} without removing it from its "
                      "input queues", fmt_trace(tr[: i + 1]), e.line)
            used = [x for x in walk(v) if x[0] == "key"]


def check_discard(ctx, g, w, wf, N):
    B = 1 - N
    for o in wf.outs:
        if o.kind == "raise":
            continue
        tr = o.st.trace
        segs = iteration_segments(tr, w, wf)
        rem = removals(w, wf, tr)
        tests = []
        for i, e in enumerate(tr):
            if e.kind == "assume":
                nt = need_of(e, w, wf)
                if nt is not None and nt[0] == N:
                    tests.append((i, e, nt[1], nt[2]))
        for i, e, q, k, v in rem:
            if q != B:
                continue
            s = seg_of(segs, i, N)
            # last removal of names before this discard
            dn = [x[0] for x in rem if x[2] == N and x[0] < i
                  and (s is None or x[0] > s[2])]
            good = [t for t in tests if t[0] < i and t[2] == k and not t[3]
                    and (not dn or position_of_call(tr, t) > max(dn))]
            ctx.check(good and dn, "T05.discard", wf.where,
                      f"{g.cls.name}: discard",
                      f"'{w.name}' discards an array ({show(k) if k else ''}) "
                      "without knowing that no remaining couple needs it (tested "
                      "after its own names have been removed)",
                      fmt_trace(tr[: i + 1]), e.line)
        for i, e, k, v in tests:
            gone = any(x[2] == B and x[3] == k and x[0] > i for x in rem)
            if not v:
                ctx.check(gone, "T05.discard", wf.where, f"{g.cls.name}: kept",
                          f"'{w.name}' keeps an array ({show(k)}) that no "
                          "remaining couple needs", fmt_trace(tr))
        # every array of a couple which is made is tested
        for i, e, j, k, v in stores(w, wf, tr):
            s = seg_of(segs, i, N)
            if s is None:
                continue
            used = set()
            for t in (x for y in tr[s[2]: i + 1] for x in y.a
                      if isinstance(x, tuple)):
                for x in walk(t):
                    p = array_pos(x, w, wf, N)
                    if p is not None:
                        used.add(x[2])
                    if x[0] == "cmp":
                        a = availability(x, w, wf)
                        if a is not None and a[0] == B and name_pos(
                                a[1], w, wf, N) is not None:
                            used.add(a[1])
            loop = [x for x in segs if x[0] == B and s[2] < x[2] < s[3]] or any(
                y.kind == "exhausted" and queue_index(
                    w, wf, peel(y.a[0]), "in") == B for y in tr[i: s[3] + 1])
            names_loop = any(
                y.kind in ("iter", "exhausted") and all_names(
                    y.a[0], w, wf, N) for y in tr[i: s[3] + 1])
            if loop or names_loop:
                ctx.ok("T05.discard", wf.where, "all arrays tested")
                continue
            if o.kind == "raise":
                continue
            for u in used:
                if name_pos(u, w, wf, N) == "each":
                    if {name_pos(t[2], w, wf, N) for t in tests} >= {0, 1}:
                        continue
                done = any(t[2] == u and t[0] > s[2] and t[0] < s[3]
                           for t in tests)
                ctx.check(done, "T05.discard", wf.where,
                          f"{g.cls.name}: {show(u)} not tested",
                          f"'{w.name}' makes a couple but never discards its "
                          f"array {show(u)}", fmt_trace(tr[: s[3]]))


def check_used(ctx, g, w, wf, N):
    """several queues of arrays: what is taken for a couple is removed"""
    for o in wf.outs:
        if o.kind == "raise":
            continue
        tr = o.st.trace
        segs = iteration_segments(tr, w, wf)
        rem = removals(w, wf, tr)
        for i, e, j, k, v in stores(w, wf, tr):
            s = seg_of(segs, i, N)
            if s is None:
                continue
            for x in walk(v):
                p = array_pos(x, w, wf, N)
                if p is None:
                    continue
                gone = any(r[2] == p[0] and r[3] is not None
                           and name_pos(r[3], w, wf, N) == p[1]
                           and s[2] < r[0] < s[3] for r in rem)
                ctx.check(gone, "T05.discard", wf.where,
                          f"{g.cls.name}: {show(x)} kept",
                          f"'{w.name}' makes a couple with {show(x)} but leaves it "
                          "in its queue", fmt_trace(tr[: s[3]]))


def all_names(t, w, wf, N):
    """the loop is on all the names of the couple"""
    if is_val(t, w, wf, N):
        return True
    if t[0] == "item" and t[2][0] == "slice" and is_val(t[1], w, wf, N):
        lo, hi, st = t[2][1:]
        return lo in (NONE, ("const", 0, "int")) and st == NONE and (
            not is_const(hi) or hi == NONE or hi[1] >= 2)
    if t[0] == "call" and t[1][0] == "ext" and len(t[2]) == 1 and t[1][1] in (
            "set", "tuple", "list", "sorted", "reversed", "frozenset"):
        return all_names(t[2][0], w, wf, N)
    return False


def position_of_call(tr, test):
    """position of the evaluation of the test (not of the branch)"""
    i, e, k, v = test
    t, _ = truth(e)
    for j in range(i, -1, -1):
        if tr[j].kind == "call" and tr[j].a[3] == t:
            return j
    return i


@register("T05")
def t05_need(ctx):
    ctx.rule("T05.need", "the test of the remaining need looks for the name in all "
             "the couples (subsets) of the queue", 1)
    cls = ctx.p.find_class("Queue", "topologies.base")
    f = cls.find_method("is_name_in_values") if cls else None
    if f is None:
        ctx.maybe("T05.need", "topologies/base.py", "is_name_in_values not found")
        return

    class P(Policy):
        unroll = 2

    I = Interp(ctx.p, P())
    self_t = ("obj", "self", cls.qual)
    outs = I.run(f, self_term=self_t)
    ctx.seen(I)
    nm = ("sym", [a.arg for a in f.node.args.args][1])
    for o in outs:
        if o.kind != "return":
            continue
        tr = o.st.trace
        found = any(
            e.kind == "assume" and truth(e)[1] and is_member(truth(e)[0], nm)
            for e in tr)
        tested = [e for e in tr if e.kind == "assume" and is_member(
            truth(e)[0], nm)]
        its = [e for e in tr if e.kind == "iter"]
        over = all(over_values(e.a[0], self_t) for e in its)
        v = o.val
        if v[0] in ("exists", "forall") or (v[0] == "not"):
            u = v[1] if v[0] == "not" else v
            ok = u[0] in ("exists", "forall") and contains(u, nm)
            if ok:
                ctx.ok("T05.need", f.short, "any(...)")
            else:
                ctx.maybe("T05.need", f.short, show(v))
            continue
        if v not in (TRUE, FALSE):
            if is_member(v, nm) and its and not any(
                    e.kind == "exhausted" for e in tr):
                ctx.bad("T05.need", f.short, "first couple",
                        "the name is only looked for in the first couples of the "
                        "queue", fmt_trace(tr))
            else:
                ctx.maybe("T05.need", f.short, f"returns {show(v)}")
            continue
        if v == TRUE:
            ctx.check(found, "T05.need", f.short, "True",
                      "a name is said to be needed although it is not in a couple",
                      fmt_trace(tr))
        else:
            full = any(e.kind == "exhausted" for e in tr)
            ctx.check(not found and full and len(tested) >= len(its)
                      and not any(truth(e)[1] for e in tested), "T05.need",
                      f.short, "False",
                      "a name is said not to be needed although a couple may "
                      "contain it", fmt_trace(tr))
        ctx.check(over, "T05.need", f.short, "iteration",
                  "the names are not looked for in the values of the queue",
                  fmt_trace(tr))


def is_member(t, nm):
    if t[0] != "cmp":
        return False
    if t[1] == "in":
        return t[2] == nm and t[3][0] in ("val", "elem", "item", "call")
    if t[1] == "==":
        other = t[3] if t[2] == nm else t[2]
        return nm in (t[2], t[3]) and other[0] == "elem"
    return False


def over_values(t, self_t):
    if contains_if(t, lambda x: x[0] in ("slice", "op", "const")):
        return False
    if contains_if(t, lambda x: x[0] == "call" and x[1][0] == "attr"
                   and x[1][2] == "keys"):
        return False
    return True


@register("T05")
def t05_fill(ctx):
    ctx.rule("T05.fill", "the names of each serie and the paths of its images are "
             "given to the graph, under the same names", 2)
    for c in topology_classes(ctx.p):
        g = graphs(ctx, c)[0]
        comb = None
        for w in g.works:
            if w.has("global") and not w.has("one shot") and len(w.inq) > 1 and (
                    w.outq):
                comb = w
        if comb is None:
            continue
        wfc = work_func(ctx, g, comb)
        N = names_queue(comb, wfc) if wfc else None
        if N is None:
            continue
        for w in g.producers(comb.inq[N]):
            wf = work_func(ctx, g, w)
            if wf is None or w.per_item:
                continue
            check_fill(ctx, g, w, wf, comb.inq[N])


def inside(tr, pos, i):
    """the event pos is in the iteration which starts at i"""
    end = next((j for j in range(i + 1, len(tr))
                if tr[j].kind in ("iter", "exhausted")
                and tr[j].node is tr[i].node), len(tr))
    return i < pos < end and in_body(tr[pos], tr[i])


def in_body(e, loop):
    """the event is in the statement of the loop (it may have been left by a
    break)"""
    if e.func is not loop.func or loop.node is None:
        return True
    return loop.line <= e.line <= (getattr(loop.node, "end_lineno", None)
                                   or 10 ** 9)


def check_fill(ctx, g, w, wf, nq):
    iN = w.outq.index(nq)
    readers = [x for x in g.works if x.per_item and is_reader(ctx, g, x)]
    iP = [i for i, q in enumerate(w.outq) if any(q in x.inq for x in readers)]
    # the loops on the series in which the names are stored
    loops, path_loops = set(), set()
    for o in wf.outs:
        tr = o.st.trace
        for x in stores(w, wf, tr):
            for i in reversed(range(x[0])):
                if tr[i].kind == "iter" and is_series(tr[i].a[0]) and inside(
                        tr, x[0], i):
                    if x[2] == iN:
                        loops.add(id(tr[i].node))
                    elif x[2] in iP:
                        path_loops.add(id(tr[i].node))
                    break
    ctx.check(loops, "T05.fill", wf.where, f"{g.cls.name}: loop",
              f"'{w.name}' does not give the names of all series") if any(
        x[2] == iN for o in wf.outs for x in stores(w, wf, o.st.trace)) else (
        ctx.maybe("T05.fill", wf.where, "names"))
    for o in wf.outs:
        if o.kind == "raise":
            continue
        tr = o.st.trace
        sts = stores(w, wf, tr)
        for i, e in enumerate(tr):
            if e.kind != "iter" or id(e.node) not in loops:
                continue
            stop = next((j for j in range(i + 1, len(tr))
                         if tr[j].kind in ("iter", "exhausted")
                         and tr[j].node is e.node), len(tr))
            dn = [x for x in sts if i < x[0] < stop and x[2] == iN
                  and in_body(x[1], e)]
            ctx.check(len(dn) == 1, "T05.fill", wf.where,
                      f"{g.cls.name}: names of a serie",
                      f"'{w.name}' gives the names of a serie {len(dn)} time(s)",
                      fmt_trace(tr[:stop]))
            for x in dn:
                k, v = x[3], x[4]
                if k is not None and k[0] == "idx":
                    ctx.bad("T05.fill", wf.where, f"{g.cls.name}: key of names",
                            f"'{w.name}' stores the names of a serie under its "
                            "position in the series, which is not its index",
                            fmt_trace(tr[: x[0] + 1]), x[1].line)
                    continue
                if v[0] != "call" or k is None or k[0] != "key":
                    ctx.maybe("T05.fill", wf.where, f"names {show(v)}")
                    continue
                ok = (
                    v[1][0] == "attr" and v[1][2] == "get_name_arrays"
                    and v[1][1][0] == "val" and v[1][1][1:] == k[1:])
                ctx.check(ok, "T05.fill", wf.where, f"{g.cls.name}: names",
                          f"'{w.name}' stores the names {show(v)} under "
                          f"{show(k) if k else ''}: not the names and the key of "
                          "the same serie", fmt_trace(tr[: x[0] + 1]), x[1].line)
            if iP and id(e.node) in path_loops:
                check_paths(ctx, g, w, wf, tr, i, stop, sts, iP, dn)
        if iP and not path_loops:
            for x in sts:
                if x[2] in iP and x[3] is not None:
                    ctx.check(contains(x[4], x[3]) and x[4] != x[3]
                              or paired(x[3], x[4]),
                              "T05.fill", wf.where, f"{g.cls.name}: path",
                              f"'{w.name}' stores {show(x[4])} under "
                              f"{show(x[3])}", fmt_trace(tr[: x[0] + 1]),
                              x[1].line)


def is_series(t):
    while t[0] == "call" and t[1][0] == "ext" and t[1][1] == "enumerate":
        t = t[2][0]
    t = peel(t)
    return t[0] == "attr" and t[2] == "series"


def paired(k, v):
    return (
        k[0] == "item" and v[0] == "item" and k[1] == v[1]
        and is_const(k[2]) and is_const(v[2]) and (k[2][1], v[2][1]) == (0, 1)
    )


def check_paths(ctx, g, w, wf, tr, i, stop, sts, iP, dn):
    if not dn:
        return
    inner = [j for j in range(i + 1, stop)
             if tr[j].kind in ("iter", "exhausted")]
    direct = [x for x in sts if x[2] in iP]
    if not any(i < x[0] < stop for x in direct) and not inner:
        ctx.bad("T05.fill", wf.where, f"{g.cls.name}: paths",
                f"'{w.name}' gives the names of a serie but no path",
                fmt_trace(tr[:stop]))
        return
    for x in direct:
        k, v = x[3], x[4]
        if not i < x[0] < stop or k is None:
            continue
        same = paired(k, v) or contains(v, k) and k != v
        src = contains_if(k, lambda y: y[0] == "call" and y[1][0] == "attr"
                          and y[1][2] == "get_name_path_arrays")
        if not src:
            ctx.maybe("T05.fill", wf.where, f"paths {show(v)}")
            continue
        ctx.check(same, "T05.fill", wf.where, f"{g.cls.name}: path",
                  f"'{w.name}' stores {show(v)} under {show(k)}: not the name and "
                  "the path of the same image", fmt_trace(tr[: x[0] + 1]),
                  x[1].line)
    for j in inner:
        if tr[j].kind != "iter":
            continue
        if not contains_if(tr[j].a[0], lambda y: y[0] == "call"
                           and y[1][0] == "attr"
                           and y[1][2] == "get_name_path_arrays"):
            continue
        end = next((m for m in range(j + 1, len(tr))
                    if tr[m].kind in ("iter", "exhausted")
                    and tr[m].node is tr[j].node), stop)
        got = [x for x in direct if j < x[0] < end]
        conds = [e for e in tr[j:end] if e.kind == "assume"]
        redundant = any(
            truth(e)[1] and truth(e)[0][0] == "cmp" and truth(e)[0][1] == "in"
            and queue_index(w, wf, peel(truth(e)[0][3]), "out") in iP
            for e in conds)
        ctx.check(got or redundant, "T05.fill", wf.where,
                  f"{g.cls.name}: image skipped",
                  f"'{w.name}' does not give the path of an image of a serie",
                  fmt_trace(tr[:end]))


# -------------------------------------------------- E03: works combining inputs


def error_queues(g, w):
    """indices of the input queues which can contain errors: those filled by
    works treating one item at a time"""
    return {i for i, q in enumerate(w.inq)
            if any(x.per_item for x in g.producers(q))}


def queue_item(t, w, wf, qs):
    """index of the queue of errors if the term is a value of this queue"""
    if t[0] == "item":
        q = queue_index(w, wf, t[1], "in")
        if q in qs:
            return q
        if t[1][0] == "call" and t[1][1][0] == "attr" and t[1][1][2] in (
                "pop_first_item", "popitem") and is_const(t[2]) and (
                t[2][1] in (1, -1)):
            q = queue_index(w, wf, t[1][1][1], "in")
            if q in qs:
                return q
    if t[0] == "val":
        q = queue_index(w, wf, peel(t[1]), "in")
        if q in qs:
            return q
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("pop", "get"):
        q = queue_index(w, wf, t[1][1], "in")
        if q in qs:
            return q
    if t[0] == "elem" and t[1][0] == "call" and t[1][1][0] == "attr" and (
            t[1][1][2] == "values"):
        q = queue_index(w, wf, peel(t[1]), "in")
        if q in qs:
            return q
    return None


def error_uses(t, w, wf, qs, stored):
    """values of the queues of errors used in a term otherwise than as they are;
    stored: the term is given to something which keeps it"""
    res = set()

    def rec(x, above):
        if not isinstance(x, tuple) or not x:
            return
        if not isinstance(x[0], str):
            for y in x:
                rec(y, above)
            return
        if x[0] == "const":
            return
        if queue_item(x, w, wf, qs) is not None:
            if above:
                res.add(x)
            return
        if is_exc_test(x) or x[0] == "cmp" and x[1] in ("is", "in"):
            return
        if x[0] == "call" and x[1][0] == "ext" and x[1][1] in (
                "type", "str", "repr", "id", "len", "print", "isinstance"):
            return
        if x[0] in ("attr", "item"):
            rec(x[1], True)
            return
        if x[0] in ("bin", "unary", "cmp", "call"):
            for y in x[1:]:
                rec(y, True)
            return
        if x[0] in ("tuple", "lst", "dct", "set"):
            for y in x[1:]:
                rec(y, above or stored)
            return
        if x[0] == "comp":
            # elements kept, or filtered by the condition
            if any(contains_if(y, is_exc_test) for y in x[4:]
                   if isinstance(y, tuple)):
                return
            rec(x[2], above or stored)
            return
        for y in x[1:]:
            rec(y, above)

    rec(t, False)
    return res


def tested_values(e, w, wf, qs):
    """terms tested by isinstance(., Exception) in a branch, and whether they
    are known not to be errors"""
    t, v = truth(e)
    args = [x[2][0] for x in walk(t) if is_exc_test(x)]
    if not args:
        return [], None
    if is_exc_test(t) or t[0] == "exists":
        return args, not v
    if t[0] == "forall":
        neg = t[1][0] == "not"
        if neg:
            return args, v
        return args, None
    if t[0] == "comp":
        return args, not v
    return args, None


def covers(u, V):
    if u == V:
        return True
    if u[0] == "elem":
        src = u[1]
        while isinstance(src, tuple) and src and not isinstance(src[0], str):
            src = src[0]
        if src[0] in ("tuple", "lst") and V in src[1]:
            return True
        if src[0] == "comp" and src[2] == V:
            return True
        if V[0] == "item" and src[0] == "comp" and src[2][0] == "item" and (
                src[2][1] == V[1]):
            names = src[3]
            while names and not isinstance(names[0], str):
                names = names[0]
            return V[2][0] in ("elem", "item") and V[2][1] == names
    return False


@register("E03")
def e03_global(ctx):
    ctx.rule("E03.global", "a work which acts on whole queues never uses a value "
             "of a queue filled by another work before knowing that it is not an "
             "error, and an error is forwarded or logged", 4)
    done = set()
    n = 0
    for c in topology_classes(ctx.p):
        for g in graphs(ctx, c):
            for w in g.works:
                if w.per_item or w.has("one shot"):
                    continue
                qs = error_queues(g, w)
                wf = work_func(ctx, g, w)
                if not qs or wf is None:
                    continue
                key = (wf.func.key, g.cls.qual, tuple(sorted(qs)))
                if key in done:
                    continue
                done.add(key)
                n += 1
                for o in wf.outs + wf.cuts:
                    check_errors(ctx, g, w, wf, qs, o.st.trace)
    ctx.check(n > 0, "E03.global", "topologies", "none",
              "no work combining the results of other works found")


def empty_before(tr, i, V):
    """the collection of which V is an element is known to be empty"""
    for e in tr[:i]:
        if e.kind == "exhausted" and num(e.a[1]) == 0:
            src = e.a[0]
            if covers(("elem", src), V) or V[0] == "item" and (
                    V[2] == ("elem", src)):
                return True
    return False


def check_errors(ctx, g, w, wf, qs, tr):
    tests = []
    for i, e in enumerate(tr):
        if e.kind == "assume":
            args, ok = tested_values(e, w, wf, qs)
            for u in args:
                tests.append((i, u, ok))
    for i, e in enumerate(tr):
        if e.kind in ("enter", "exit", "iter", "exhausted"):
            continue
        uses = set()
        if e.kind == "assume":
            if contains_if(e.a[0], is_exc_test):
                continue
            uses |= error_uses(e.a[0], w, wf, qs, False)
        elif e.kind == "new":
            for x in e.a[1:]:
                if isinstance(x, tuple):
                    uses |= error_uses(("tuple", x), w, wf, qs, True)
        elif e.kind == "setitem":
            uses |= error_uses(e.a[2], w, wf, qs, True)
        elif e.kind == "call":
            f = e.a[0]
            if f[0] == "attr":
                # method of the value, or value kept in a list
                if queue_item(f[1], w, wf, qs) is not None:
                    uses.add(f[1])
                kept = f[2] in GROW
                for x in e.a[1:3]:
                    if isinstance(x, tuple):
                        uses |= error_uses(x, w, wf, qs, kept)
            else:
                logs = f[0] == "ext" and f[1] in (
                    "isinstance", "type", "str", "repr", "len", "print", "all",
                    "any", "list", "tuple", "next", "iter", "bool")
                for x in e.a[1:3]:
                    if isinstance(x, tuple):
                        uses |= error_uses(
                            x if logs else ("tuple", x), w, wf, qs, not logs)
        else:
            for x in e.a:
                if isinstance(x, tuple):
                    uses |= error_uses(x, w, wf, qs, False)
        for V in uses:
            known = [ok for p, u, ok in tests if p < i and covers(u, V)]
            loose = [ok for p, u, ok in tests if p < i and not covers(u, V) and (
                u[0] == "elem" or contains(u, V)) and not contains_if(
                    u, lambda x: x[0] == "slice")]
            lab = f"{g.cls.name}: {show(V)}"
            if True in known:
                ctx.ok("E03.global", wf.where, lab)
            elif empty_before(tr, i, V):
                continue
            elif (loose or None in known) and False not in known:
                ctx.maybe("E03.global", wf.where, lab)
            else:
                ctx.bad("E03.global", wf.where, lab,
                        f"'{w.name}' uses {show(V)}, which can be the error of a "
                        "previous work, as if it was a result",
                        fmt_trace(tr[: i + 1]), e.line)
    for p, u, ok in tests:
        if ok is not False:
            continue
        if queue_item(u, w, wf, qs) is None and u[0] != "elem":
            continue
        said = False
        for e in tr[p + 1:]:
            if e.kind == "iter" and p > tr.index(e):
                break
            if e.kind == "call" and callee(e) in (
                    "error", "exception", "warning", "critical", "log_error",
                    "log_exception", "print"):
                said = True
            if e.kind == "setitem" and queue_index(
                    w, wf, e.a[0], "out") is not None:
                said = True
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in GROW and (
                    queue_index(w, wf, e.a[0][1], "out") is not None):
                said = True
            if e.kind == "raise":
                said = True
        ctx.check(said, "E03.global", wf.where, f"{g.cls.name}: error {show(u)}",
                  f"'{w.name}' neither forwards nor logs the error {show(u)}",
                  fmt_trace(tr), tr[p].line)


@register("E03")
def e03_read(ctx):
    ctx.rule("E03.read", "the function of the library which reads the images "
             "never returns None in place of an image (the readers of fluiddyn "
             "return None for a file that cannot be decoded)", 1)
    for f in ctx.p.all_funcs():
        if f.name != "imread" or f.cls is not None or f.parent is not None or (
                not f.module.name.startswith("fluidimage.util")):
            continue
        I = Interp(ctx.p, Policy())
        outs = I.run(f)
        ctx.seen(I)
        for o in outs:
            if o.kind == "raise":
                continue
            v = o.val
            ok = v is not None and v != NONE and (
                o.st.facts.get(("cmp", "is", v, NONE)) is False
                or I._not_none(v, o.st))
            ctx.check(ok, "E03.read", f.short, f"returns {show(v)}",
                      "the result of the reader is returned without knowing that "
                      "it is not None: an unreadable image is not reported as an "
                      "error", fmt_trace(o.st.trace))
