"""T01, T05, E03: graphs of the topologies and works acting on queues"""

import ast

from ..framework import fmt_trace
from ..interp import Event, Interp, Policy, State
from ..terms import (
    FALSE, NONE, TRUE, const, contains, contains_if, is_const, map_term, mk_item, mk_not,
    show, strip_uid, walk,
)
from ..topomodel import graphs, topology_classes
from . import register
from .results import appended

SHRINK = {"pop", "popitem", "pop_first_item", "clear", "popleft"}
GROW = {"append", "insert", "extend", "update", "setdefault"}


class WorkPolicy(Policy):
    """functions of works: the helpers of the topologies are followed, the
    queues, constructors and numerical functions are opaque"""

    unroll = 1
    soft_states = 60
    max_states = 6000

    def should_inline(self, func, interp, st):
        return (
            func.module.name.startswith("fluidimage.topologies")
            and not func.is_gen
            and func.name != "__init__"
            and (func.cls is None or func.cls.name not in ("Queue", "QueueList"))
        )


class WFunc:
    """the function of a work, its parameters and abstract paths"""

    def __init__(self, ctx, g, w, func, self_t, bound):
        self.func, self.self_t = func, self_t
        names = [a.arg for a in func.node.args.posonlyargs + func.node.args.args]
        if func.cls is not None and not func.is_static:
            names = names[1:]
        self.params = [("sym", n) for n in names[bound:]]
        I = Interp(ctx.p, WorkPolicy())
        self.outs = I.run(func, self_term=self_t)
        self.cuts = I.cuts
        for o in list(self.outs) + list(self.cuts):
            o.st.trace = [normal_event(e) for e in o.st.trace]
        self.I = I
        ctx.seen(I)
        self.where = func.short

    @property
    def paths(self):
        return [o for o in self.outs if o.kind != "raise"]


def normal_event(e):
    if e.kind in ("enter", "exit"):
        return e
    a = tuple(map_term(x, normal_term) if isinstance(x, tuple) else x
              for x in e.a)
    if e.kind == "assume":
        t, v = a[0], a[1]
        while t[0] == "not":
            t, v = t[1], (FALSE if v == TRUE else TRUE)
        # [x for x in s if c] is empty: not c for all x
        if t[0] == "comp" and v == FALSE and t[4] and t[1] in ("list", "set"):
            cond = t[4]
            if not isinstance(cond[0], str):
                cond = cond[0] if len(cond) == 1 else None
            if cond is not None:
                t, v = ("forall", mk_not(cond), t[3]), TRUE
        elif t[0] == "comp" and v == TRUE and t[4] and t[1] in ("list", "set"):
            cond = t[4]
            if not isinstance(cond[0], str):
                cond = cond[0] if len(cond) == 1 else None
            if cond is not None:
                t, v = ("forall", mk_not(cond), t[3]), FALSE
        a = (t, v) + a[2:]
    return Event(e.kind, a, e.node, e.func, e.facts, e.stack)


def normal_term(t):
    """equivalent forms of the same value"""
    if t[0] == "item":
        # q[k] for k in q: the value of the iteration
        if t[2][0] == "key" and t[2][1] == t[1]:
            return ("val",) + t[2][1:]
        # [f(x) for x in s][0] is f(s[0])
        if t[1][0] == "comp" and t[1][1] in ("list", "gen") and not t[1][4] and (
                is_const(t[2]) and isinstance(t[2][1], int)):
            src = t[1][3]
            if src and not isinstance(src[0], str):
                if len(src) > 1:
                    return t
                src = src[0]
            return map_term(
                t[1][2], lambda x: mk_item(src, t[2])
                if x[0] == "elem" and x[1] == src else x)
    if t[0] == "cmp" and t[1] == "<=":
        a, b = as_set(t[2]), as_set(t[3])
        if a is not None and b is not None:
            return ("forall", ("cmp", "in", ("elem", a), b), a)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "issubset" and (
            len(t[2]) == 1) and as_set(t[1][1]) is not None:
        a = as_set(t[1][1])
        return ("forall", ("cmp", "in", ("elem", a), t[2][0]), a)
    return t


def as_set(t):
    if t[0] == "call" and t[1] in (("ext", "set"), ("ext", "frozenset")) and (
            len(t[2]) == 1):
        return t[2][0]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "keys":
        return t[1][1]
    return None


_funcs = {}


def work_func(ctx, g, w):
    """the function of a work when it is in the project"""
    t, bound = w.func, 0
    if t[0] == "partial":
        bound = len(t[2])
        t = t[1]
    self_t = None
    if t[0] == "bound":
        self_t, t = t[1], t[2]
    if t[0] != "func":
        return None
    key = (id(ctx.p), t[1], self_t, bound)
    if key not in _funcs:
        f = next((f for f in ctx.p.all_funcs() if f.key == t[1]), None)
        try:
            _funcs[key] = WFunc(ctx, g, w, f, self_t, bound) if f else None
        except Exception as err:  # too large: opaque
            ctx.notes.append(f"{w.name}: {err}")
            _funcs[key] = None
    return _funcs[key]


def queue_index(w, wf, t, which):
    """index of the queue designated by a term in the function of a work"""
    k = 0 if which == "in" else 1
    if len(wf.params) <= k:
        return None
    base = wf.params[k]
    multi = w.in_multi if which == "in" else w.out_multi
    n = len(w.inq if which == "in" else w.outq)
    if not multi:
        return 0 if t == base and n else None
    if t[0] == "item" and t[1] == base and is_const(t[2]) and isinstance(
            t[2][1], int):
        i = t[2][1]
        return i if i >= 0 else i + n
    return None


def out_base(wf):
    return wf.params[1] if len(wf.params) > 1 else None


def ops_on(w, wf, tr, which, names, stores=False):
    """(position, event, index of the queue, key, value) of the modifications"""
    for i, e in enumerate(tr):
        if stores and e.kind == "setitem":
            q = queue_index(w, wf, e.a[0], which)
            if q is not None:
                yield i, e, q, e.a[1], e.a[2]
        elif not stores and e.kind == "delitem":
            q = queue_index(w, wf, e.a[0], which)
            if q is not None:
                yield i, e, q, e.a[1], ("item", e.a[0], e.a[1])
        elif e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in names:
            q = queue_index(w, wf, e.a[0][1], which)
            if q is not None:
                args = e.a[1]
                yield i, e, q, (args[0] if args else None), e.a[3]


def removals(w, wf, tr):
    return list(ops_on(w, wf, tr, "in", SHRINK))


def stores(w, wf, tr, which="out"):
    return list(ops_on(w, wf, tr, which, GROW, stores=True))


def global_like(w):
    return w.has("global") or w.has("one shot")


def drains(ctx, g, w):
    """indices of the input queues that a work empties"""
    if w.per_item:
        return set(range(len(w.inq)))
    if w.has("one shot"):
        return set()
    wf = work_func(ctx, g, w)
    if wf is None:
        return None
    return {q for o in wf.outs for _, _, q, _, _ in removals(w, wf, o.st.trace)
            } | {q for o in wf.cuts
                 for _, _, q, _, _ in removals(w, wf, o.st.trace)}


def fills(ctx, g, w, which="out"):
    """indices of the queues in which a work stores"""
    if w.per_item:
        return set(range(len(w.outq))) if which == "out" else set()
    wf = work_func(ctx, g, w)
    if wf is None:
        return None
    return {q for o in wf.outs + wf.cuts
            for _, _, q, _, _ in stores(w, wf, o.st.trace, which)}


def where_of(g):
    init = g.cls.find_method("__init__")
    return f"{init.module.rel}:{g.cls.name}.__init__"


def is_reader(ctx, g, w):
    """the work reads an image"""
    t = w.func
    f = t[2] if t[0] == "bound" else t
    if f[0] == "func":
        if f[1][3] == "imread":
            return True
        wf = work_func(ctx, g, w)
        if wf is not None and w.per_item:
            return any(
                e.kind == "call" and callee(e) in ("imread", "imread_h5")
                for o in wf.outs for e in o.st.trace)
    return f[0] == "ext" and f[1].split(".")[-1] == "imread"


def callee(e):
    f = e.a[0]
    if f[0] == "attr":
        return f[2]
    if f[0] == "ext":
        return f[1].split(".")[-1]
    if f[0] == "func":
        return f[1][3]
    if f[0] == "bound":
        return f[2][1][3]
    return None


def is_user_func(w):
    """user image-to-image function"""
    return contains_if(
        w.func, lambda x: x[0] == "attr" and "im2im" in x[2]
        or x[0] == "func" and "im2im" in x[1][3])


@register("T01")
def t01_graph(ctx):
    ctx.rule("T01.queues", "each queue of each graph is filled by a work, emptied "
             "by exactly one work, and belongs to the topology", 20)
    ctx.rule("T01.reach", "each work can receive items from the first works of "
             "the graph and each item ends in a work without output queue", 20)
    ctx.rule("T01.order", "images are read first, then given to the optional user "
             "function, processed, and saved last", 10)
    n = 0
    for c in topology_classes(ctx.p):
        for g in graphs(ctx, c):
            n += 1
            check_graph(ctx, g)
    ctx.check(n > 0, "T01.queues", "topologies", "no graph", "no graph found")


def check_graph(ctx, g):
    where = where_of(g)
    lab = g.label() or "default graph"
    opaque = set()
    filled = {q: [] for q in g.queues}
    emptied = {q: [] for q in g.queues}
    read = {q: [] for q in g.queues}
    for w in g.works:
        for q in w.inq + w.outq:
            ctx.check(q in g.queues, "T01.queues", where,
                      f"queue of {w.name}",
                      f"the work '{w.name}' uses a queue which is not in the list "
                      f"of queues of the topology ({lab})")
        fo = fills(ctx, g, w)
        fi = fills(ctx, g, w, "in")
        dr = drains(ctx, g, w)
        if fo is None or dr is None:
            opaque.add(w.name)
            fo = set(range(len(w.outq)))
            fi = set()
            dr = set(range(len(w.inq)))
        for i, q in enumerate(w.outq):
            if q in filled and i in fo:
                filled[q].append(w)
        for i, q in enumerate(w.inq):
            if q not in filled:
                continue
            read[q].append(w)
            if i in (fi or ()):
                filled[q].append(w)
            if i in dr:
                emptied[q].append(w)
    for q in g.queues:
        nm = g.qname(q)
        ctx.check(filled[q], "T01.queues", where, f"queue {nm} not filled",
                  f"no work fills the queue '{nm}' ({lab})")
        ctx.check(read[q], "T01.queues", where, f"queue {nm} not read",
                  f"no work reads the queue '{nm}': its items stay there and the "
                  f"execution never ends ({lab})")
        if read[q]:
            ctx.check(
                emptied[q] or any(w.name in opaque for w in read[q]),
                "T01.queues", where, f"queue {nm} not emptied",
                f"no work removes items from the queue '{nm}' ({lab})")
        names = [w.name for w in emptied[q]]
        ctx.check(len(names) <= 1, "T01.queues", where,
                  f"queue {nm} emptied twice",
                  f"several works ({', '.join(names)}) take the items of the queue "
                  f"'{nm}': each item is given to one of them only ({lab})")

    # reachability
    live = set()
    full = set()
    while True:
        size = len(live) + len(full)
        for w in g.works:
            if not w.inq or any(q in full for q in w.inq):
                live.add(id(w))
                full |= {q for q in g.queues if w in filled[q]}
        if size == len(live) + len(full):
            break
    for w in g.works:
        ctx.check(id(w) in live, "T01.reach", where, f"work {w.name}",
                  f"the work '{w.name}' can not receive any item ({lab})")
    done = set()
    while True:
        size = len(done)
        for q in g.queues:
            for w in emptied[q]:
                if (not w.outq and not (
                        global_like(w) and any(w in filled[x] and x != q
                                               for x in g.queues))) or any(
                        x in done for x in g.queues if w in filled[x]):
                    done.add(q)
                elif not w.outq and global_like(w):
                    done.add(q)
        if len(done) == size:
            break
    for q in g.queues:
        if emptied[q]:
            ctx.check(q in done, "T01.reach", where, f"queue {g.qname(q)}",
                      f"the items of the queue '{g.qname(q)}' never reach the end "
                      f"of the graph ({lab})")
    # cycles made of works treating one item at a time
    nxt = {}
    for w in g.works:
        if w.per_item:
            nxt[id(w)] = [x for q in w.outq for x in g.works
                          if x.per_item and q in x.inq]
    for w in g.works:
        if not w.per_item:
            continue
        seen, todo, cyc = set(), list(nxt[id(w)]), False
        while todo:
            x = todo.pop()
            if x is w:
                cyc = True
            if id(x) not in seen:
                seen.add(id(x))
                todo.extend(nxt[id(x)])
        ctx.check(not cyc, "T01.reach", where, f"cycle through {w.name}",
                  f"the items treated by '{w.name}' come back to it ({lab})")

    # order
    readers = [w for w in g.works if w.per_item and is_reader(ctx, g, w)]
    if not ctx.check(readers, "T01.order", where, "no reading work",
                     f"no work of the graph reads the images ({lab})"):
        return
    for w in readers:
        for q in w.inq:
            for x in filled[q]:
                ctx.check(x.has("one shot"), "T01.order", where,
                          f"input of {w.name}",
                          f"the work '{w.name}' which reads images takes what "
                          f"'{x.name}' returns ({lab})")
    for w in g.works:
        if is_user_func(w) and w.per_item:
            src = [x for q in w.inq for x in filled[q]]
            ctx.check(src and all(x in readers for x in src), "T01.order", where,
                      f"input of {w.name}",
                      f"the user function ('{w.name}') does not receive the images "
                      f"which are read, but what "
                      f"{', '.join(x.name for x in src)} returns ({lab})")
            ctx.check(w.has("eat key value"), "T01.order", where,
                      f"argument of {w.name}",
                      f"the user function ('{w.name}') has to be called with "
                      f"(name, image) ({lab})")
        if not w.outq and w.per_item:
            src = [x for q in w.inq for x in filled[q]]
            ctx.check(not any(x in readers for x in src), "T01.order", where,
                      f"input of {w.name}",
                      f"the last work ('{w.name}') takes the images as they are "
                      f"read, before any processing ({lab})")


@register("T01")
def t01_optional(ctx):
    ctx.rule("T01.optional", "when an optional step is active, the works which "
             "took its input take its output", 3)
    for c in topology_classes(ctx.p):
        gs = graphs(ctx, c)
        for g in gs:
            for h in gs:
                extra = [w for w in h.works
                         if w.name not in {x.name for x in g.works}]
                same = [w for w in g.works
                        if w.name in {x.name for x in h.works}]
                if len(extra) != 1 or len(same) != len(g.works):
                    continue
                check_optional(ctx, g, h, extra[0])
        # the step is there whenever the user gives a function
        if any(is_user_func(w) for g in gs for w in g.works):
            for g in gs:
                none = any(
                    contains_if(k, lambda x: x[0] == "attr" and x[2] == "im2im")
                    and (v is True or v == TRUE) == (k[0] in ("is", "eq", "not")
                                                     or "None" in show(k))
                    for k, v in g.facts.items())
                has = any(is_user_func(w) for w in g.works)
                ctx.check(has or none, "T01.optional", where_of(g),
                          "user function",
                          "the function given by the user is not applied when "
                          f"{g.label()}")


def check_optional(ctx, g, h, w):
    where = where_of(h)
    names = {x.name: x for x in h.works}
    if not w.per_item or len(w.inq) != 1 or len(w.outq) != 1:
        ctx.maybe("T01.optional", where, f"{w.name}: several queues")
        return
    a, b = w.inq[0], w.outq[0]
    nm = h.qname(a)
    others = [x.name for x in h.consumers(a) if x is not w]
    ctx.check(not others, "T01.optional", where, f"{w.name}: input",
              f"'{', '.join(others)}' takes the items of the queue '{nm}' besides "
              f"the optional step '{w.name}' ({h.label()})")
    for x in g.works:
        y = names[x.name]
        for i, q in enumerate(x.inq):
            if g.qname(q) != nm:
                continue
            ctx.check(i < len(y.inq) and y.inq[i] == b, "T01.optional", where,
                      f"{w.name}: output",
                      f"'{x.name}' does not take what the optional step "
                      f"'{w.name}' returns ({h.label()})")
    # the other connections do not change
    for x in g.works:
        y = names[x.name]
        for qs, rs, what in ((x.inq, y.inq, "input"), (x.outq, y.outq, "output")):
            qa = [g.qname(q) for q in qs]
            ra = [nm if q == b and what == "input" else h.qname(q) for q in rs]
            ctx.check(qa == ra, "T01.optional", where, f"{x.name}: {what}",
                      f"the {what} of '{x.name}' depends on the optional step "
                      f"'{w.name}': {ra} instead of {qa} ({h.label()})")


# ---------------------------------------------------------------------
# contents of the queues
def shape_of(t):
    """number of items of a tuple, 'obj' for an object, None if unknown"""
    if t is None:
        return None
    if t[0] in ("tuple", "lst"):
        return len(t[1])
    if t[0] == "obj":
        return "obj"
    return None


def usage(wf):
    """how the argument of a per-item function is used: number of items if it is
    unpacked, 'attr' if it is used as an object"""
    if not wf.params:
        return None
    P = wf.params[0]
    idx, attr = set(), set()
    terms = []
    for o in wf.outs + wf.cuts:
        for e in o.st.trace:
            terms.extend(x for x in e.a if isinstance(x, tuple))
        if o.val is not None:
            terms.append(o.val)
        terms.extend(o.st.heap.values())
        for d in o.st.env.values():
            terms.extend(v for v in d.values() if isinstance(v, tuple))
    for t in set(terms):
        for x in walk(t):
            if x[0] == "item" and x[1] == P and is_const(x[2]):
                if isinstance(x[2][1], int):
                    idx.add(x[2][1])
            elif x[0] == "attr" and x[1] == P:
                attr.add(x[2])
    if attr:
        return "attr"
    if idx:
        return max(idx) + 1
    return None


def unpack_size(wf):
    """size of the tuple the function unpacks its argument in (a, b = arg)"""
    n = None
    P = wf.params[0][1] if wf.params else None
    for x in ast.walk(wf.func.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and (
                x.value.id == P):
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(
                        isinstance(e, ast.Starred) for e in t.elts):
                    n = len(t.elts)
    return n


def contents(ctx, g, q):
    """shapes of the values deposited in a queue"""
    res = set()
    for w in g.producers(q):
        if w.per_item and (is_reader(ctx, g, w) or is_user_func(w)):
            res.add("image")
            continue
        wf = work_func(ctx, g, w)
        if wf is None:
            res.add(None)
            continue
        if w.per_item:
            for o in wf.outs:
                if o.kind == "return":
                    res.add(shape_of(o.val))
        else:
            for o in wf.outs:
                for _, e, i, k, v in stores(w, wf, o.st.trace):
                    if i < len(w.outq) and w.outq[i] == q:
                        if is_exception_value(o.st.trace, v):
                            continue
                        res.add(shape_of(v))
    return res


def is_exception_value(tr, v):
    return any(
        e.kind == "assume" and e.a[1] == TRUE and is_exc_test(e.a[0], v)
        for e in tr)


def is_exc_test(t, v=None):
    """isinstance(v, Exception)"""
    return (
        t[0] == "call" and t[1] == ("ext", "isinstance") and len(t[2]) == 2
        and contains_if(t[2][1], lambda x: x[0] == "ext" and x[1].split(".")[-1]
                        in ("Exception", "BaseException"))
        and (v is None or t[2][0] == v)
    )


@register("T01")
def t01_contents(ctx):
    ctx.rule("T01.contents", "a work receives what its function expects: (key, "
             "value) if it asks for it, the tuples or objects deposited by the "
             "previous work, the right number of queues", 20)
    for c in topology_classes(ctx.p):
        done = set()
        for g in graphs(ctx, c):
            for w in g.works:
                wf = work_func(ctx, g, w)
                if wf is None:
                    continue
                if global_like(w):
                    check_queue_args(ctx, g, w, wf)
                    continue
                use = unpack_size(wf) or usage(wf)
                eat = w.has("eat key value")
                if eat:
                    ctx.check(use == 2, "T01.contents", wf.where,
                              f"{c.name}: argument of {w.name}",
                              f"the work '{w.name}' is called with (key, value) "
                              "but its function does not expect a couple")
                    continue
                if use is None:
                    ctx.ok("T01.contents", wf.where, w.name)
                    continue
                for q in w.inq:
                    for s in contents(ctx, g, q):
                        if s is None:
                            ok = True
                            if use not in ("attr",):
                                ctx.maybe("T01.contents", wf.where,
                                          f"{w.name}: content of "
                                          f"{g.qname(q)} unknown")
                                continue
                        elif s == "image":
                            # arrays have attributes
                            ok = use == "attr" or unpack_size(wf) is None
                        elif s == "obj":
                            ok = use == "attr"
                        elif use == "attr":
                            ok = False
                        else:
                            ok = use == s or (
                                unpack_size(wf) is None and use <= s)
                        ctx.check(ok, "T01.contents", wf.where,
                                  f"{c.name}: argument of {w.name}",
                                  f"the work '{w.name}' expects {use} but the "
                                  f"queue '{g.qname(q)}' contains {s}")


@register("T01")
def t01_roles(ctx):
    ctx.rule("T01.roles", "a queue whose values are names of items of another "
             "queue is filled with names, the works which read images are given "
             "paths", 8)
    for c in topology_classes(ctx.p):
        for g in graphs(ctx, c):
            for w in g.works:
                if global_like(w) and len(w.inq) > 1:
                    roles(ctx, g, w)
                elif w.per_item and is_reader(ctx, g, w):
                    for q in w.inq:
                        paths_of_reader(ctx, g, w, q)


def roles(ctx, g, w):
    wf = work_func(ctx, g, w)
    if wf is None:
        return
    names = set()
    for o in wf.outs + wf.cuts:
        for e in o.st.trace:
            for t in e.a:
                if not isinstance(t, tuple):
                    continue
                for x in walk(t):
                    if x[0] == "item" and len(x) > 2:
                        b = queue_index(w, wf, x[1], "in")
                        if b is None:
                            continue
                        for i in range(len(w.inq)):
                            if i != b and value_of(x[2], w, wf, i):
                                names.add((i, b))
    for i, b in sorted(names):
        q = w.inq[i]
        for x in g.producers(q):
            ctx.check(not x.per_item, "T01.roles", where_of(g),
                      f"{w.name}: {g.qname(q)}",
                      f"'{w.name}' takes the values of its input queue {i} for "
                      f"names of items of its input queue {b}, but it is given "
                      f"the queue '{g.qname(q)}' which contains what '{x.name}' "
                      f"returns")
    if not names:
        ctx.ok("T01.roles", where_of(g), w.name)


def value_of(t, w, wf, i):
    """the term is (part of) a value of the queue i"""
    def test(x):
        return x[0] in ("val", "elem") and queue_index(
            w, wf, peel(x[1]), "in") == i
    return contains_if(t, test)


def peel(t):
    """the queue behind q.items(), tuple(q), list(q.values())..."""
    while True:
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
                "items", "values", "keys", "copy"):
            t = t[1][1]
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in (
                "tuple", "list", "sorted", "iter", "reversed") and t[2]:
            t = t[2][0]
        elif t[0] in ("items", "iterof"):
            t = t[1]
        else:
            return t


def paths_of_reader(ctx, g, w, q):
    for x in g.producers(q):
        if x.per_item:
            continue
        wf = work_func(ctx, g, x)
        if wf is None:
            continue
        for o in wf.outs:
            for _, e, i, k, v in stores(x, wf, o.st.trace):
                if i < len(x.outq) and x.outq[i] == q:
                    several = v[0] in ("tuple", "lst", "list") or (
                        v[0] == "call" and v[1][0] == "attr"
                        and v[1][2] == "get_name_arrays")
                    ctx.check(not several, "T01.roles", wf.where,
                              f"{w.name}: {g.qname(q)}",
                              f"'{x.name}' stores {show(v)} in the queue "
                              f"'{g.qname(q)}' of paths read by '{w.name}'")


def check_queue_args(ctx, g, w, wf):
    """indices of the queues used by the function of a global work"""
    for which, qs, multi in (("in", w.inq, w.in_multi),
                             ("out", w.outq, w.out_multi)):
        k = 0 if which == "in" else 1
        if len(wf.params) < 2:
            ctx.bad("T01.contents", wf.where, f"{w.name}: arguments",
                    f"the function of '{w.name}' has to take the input and output "
                    "queues")
            return
        P = wf.params[k]
        used = set()
        stored = False
        for o in wf.outs + wf.cuts:
            for e in o.st.trace:
                for t in e.a:
                    if isinstance(t, tuple):
                        for x in walk(t):
                            if x[0] == "item" and x[1] == P and is_const(x[2]) and (
                                    isinstance(x[2][1], int)):
                                used.add(x[2][1])
                if e.kind == "setitem" and e.a[0] == P:
                    stored = True
        if multi:
            bad = [i for i in used if not -len(qs) <= i < len(qs)]
            ctx.check(not bad and not stored, "T01.contents", wf.where,
                      f"{g.cls.name}: {which}put queues of {w.name}",
                      f"the function of '{w.name}' is given {len(qs)} {which}put "
                      f"queues but uses " + (
                          f"the queue number {bad}" if bad else "them as one queue"))
            un = unpack_of(wf, P[1])
            if un is not None:
                ctx.check(un == len(qs), "T01.contents", wf.where,
                          f"{g.cls.name}: number of {which}put queues of {w.name}",
                          f"the function of '{w.name}' is given {len(qs)} "
                          f"{which}put queues but expects {un}")
        elif len(qs) == 1:
            ctx.check(not used, "T01.contents", wf.where,
                      f"{g.cls.name}: {which}put queue of {w.name}",
                      f"the function of '{w.name}' is given one {which}put queue "
                      "but uses it as a tuple of queues")


def unpack_of(wf, name):
    for x in ast.walk(wf.func.node):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and (
                x.value.id == name):
            for t in x.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and not any(
                        isinstance(e, ast.Starred) for e in t.elts):
                    return len(t.elts)
    return None
