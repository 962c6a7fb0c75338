"""E01 … E06, E09: rules about the executors"""

import ast

from ..exmodel import (
    WORK, ExecModel, delta, item_events, linear, relevant_functions,
)
from ..framework import fmt_trace
from ..interp import Interp, Out, Policy, State
from ..items import (
    assumes, deposits, eats_key, func_calls, is_exc_test, out_is_none, pops,
    queue_of, remote_calls, same, stop_if_error, truth_of,
)
from ..project import AnalysisBroken
from ..terms import (
    FALSE, NONE, TRUE, const, contains, contains_if, is_const, mk_item, show,
    strip_uid, walk,
)
from . import register

_models = {}


def model(ctx):
    m = _models.get(id(ctx.p))
    if m is None:
        m = ExecModel(ctx)
        _models.clear()
        _models[id(ctx.p)] = m
    m.ctx = ctx
    return m


def fshort(ev):
    f = ev.func
    return f.short if f is not None else "?"


def rshort(m, root):
    f = m.func_of(root.fterm)
    return f.short if f is not None else "?"


def simple_executors(m):
    """executors which run the works themselves"""
    return [c for c in m.classes if not is_multi(m, c)]


def is_multi(m, c):
    return any(k.name.startswith("MultiExecutor") or k.find_method(
        "_start_processes") for k in [c])


def all_roots(m):
    seen = set()
    for c in simple_executors(m):
        for r in m.roots(c):
            f = m.func_of(r.fterm)
            yield c, r, f


_outs = {}


def outs_of(m, r, unroll=1, extra=(), keepmode="item"):
    key = (id(r), unroll, extra, keepmode)
    if key not in _outs:
        _outs[key] = m.run_root(
            r, keep=item_events(m.dynamic) if keepmode == "item" else term_keep(m),
            unroll=unroll, extra=extra
        )
    return _outs[key]


def item_paths(m):
    """(class, root, item, out, end) for each item of each abstract path"""
    seen = set()
    for c, r, f in all_roots(m):
        for o in outs_of(m, r):
            tr = o.st.trace
            ps = pops(tr)
            for n, it in enumerate(ps):
                end = ps[n + 1].idx if n + 1 < len(ps) else len(tr)
                yield c, r, it, o, end, n + 1 < len(ps)


# --------------------------------------------------------------------- E01
@register("E01")
def e01_items(ctx):
    ctx.rule("E01.call", "on each path from the removal of an item which is not "
             "an error, the function of the work is called exactly once, with "
             "this item (and its key iff the work asks for it)", 8)
    ctx.rule("E01.error", "an item which is an exception is never given to the "
             "function and is forwarded unchanged", 8)
    ctx.rule("E01.deposit", "the result is stored exactly once under the key of "
             "the item if the work has an output queue", 8)
    m = model(ctx)
    nb = {}
    for c, r, it, o, end, more in item_paths(m):
        complete = more or o.kind in ("return", "next")
        raised = o.kind == "raise"
        check_item(ctx, m, c, r, it, o, end, complete, raised)
        nb[c.name] = nb.get(c.name, 0) + 1
    for c in simple_executors(m):
        ctx.check(
            nb.get(c.name, 0) > 0, "E01.call",
            f"{c.module.rel}:{c.name}", "items",
            f"{c.name}: no task removes items from the input queues and "
            "processes them",
        )


def check_item(ctx, m, c, r, it, o, end, complete, raised):
    tr = o.st.trace
    W, key, obj = it.work, it.key, it.obj
    where = rshort(m, r)
    # the function which runs the item
    exc = truth_of(tr, is_exc_test(obj), it.idx, end)
    other_test = any(
        contains(t, obj) and not is_exc_test(obj)(t)
        for t, _, _ in assumes(tr, it.idx, end)
    )
    fc = func_calls(tr, W, it.idx, end)
    rc = remote_calls(tr, W, it.idx, end)
    sc = server_sends(m, tr, W, it, end)
    dep = deposits(tr, W, it.idx, end)
    none = out_is_none(tr, W)
    path = lambda: fmt_trace(tr[it.idx:end])
    spawned = [
        ev for ev in tr[it.idx:end]
        if ev.kind == "spawn" and any(contains(a, it.origin) for a in ev.a)
    ]
    if spawned:
        ctx.maybe("E01.call", where, "item handed to another task")
        return
    if exc is True:
        ok = not fc and not rc and not sc
        ctx.check(ok, "E01.error", where, "call with an error",
                  "an item which is an error is given to the function of the "
                  "work", path(), it.ev.line)
        if not complete:
            return
        if none is True:
            ctx.check(not dep, "E01.error", where, "deposit without queue",
                      "deposit in an output queue known to be None", path(),
                      it.ev.line)
        else:
            ok = len(dep) == 1 and dep[0][2] == key and dep[0][3] == obj
            if not dep and none is None:
                ok = False
            ctx.check(ok, "E01.error", where, "forwarding of an error",
                      "an item which is an error is not forwarded exactly once "
                      "and unchanged under its key to the output queue",
                      path(), it.ev.line)
        return
    n_calls = len(fc) + len(sc) + (1 if rc else 0)
    if exc is None:
        if n_calls and not other_test:
            ctx.bad("E01.error", where, "call without test of errors",
                    "the function of the work is called with an item which may "
                    "be an error", path(), it.ev.line)
        elif other_test:
            ctx.maybe("E01.error", where, "unrecognised test of the item")
            return
    if not complete and not raised:
        return
    if raised and n_calls == 0 and exc is False:
        # e.g. the process could not be started: the computation is aborted
        ctx.ok("E01.call", where, "aborted")
        return
    if n_calls != 1:
        if exc is None and n_calls == 0 and o.kind == "raise":
            return
        ctx.bad("E01.call", where, f"{min(n_calls, 2)} calls",
                f"the function of the work is called {n_calls} times for an "
                "item removed from the input queue", path(), it.ev.line)
        return
    # argument
    eat = None
    for t, b, _ in assumes(tr):
        if contains_if(t, lambda x: (x[0] == "attr" and x[1] == W and "eat" in
                                     str(x[2])) or x == const("eat key value")):
            eat = b
    pair = ("tuple", (key, obj))
    results = []
    if fc:
        i, ev = fc[0]
        args = ev.a[1]
        arg = args[0] if len(args) == 1 and not ev.a[2] else ("tuple", args)
        check_arg(ctx, where, arg, key, obj, eat, path, ev)
        raised_here = [
            (o_.a, j) for j, o_ in enumerate(tr[i:end], i)
            if o_.kind == "call_raised" and o_.a[0] == ev.a[0]
        ]
        results = [ev.a[3]]
        if raised_here:
            uid = ev.a[3][4]
            results = [("exc", "AnyException", uid)]
    elif rc:
        results = check_remote(ctx, m, it, tr, rc, end, where, eat, path)
        if results is None:
            return
    else:
        results = check_server(ctx, m, it, tr, sc, end, where, path)
        if results is None:
            return
    if raised:
        # E04: the computation is aborted on purpose
        if len(dep) > 1:
            ctx.bad("E01.deposit", where, "several deposits",
                    "several results stored for one item", path())
        return
    if none is True:
        ctx.check(not dep, "E01.deposit", where, "deposit without queue",
                  "deposit in an output queue known to be None", path())
        return
    if len(dep) != 1:
        ctx.bad("E01.deposit", where, f"{min(len(dep), 2)} deposits",
                f"{len(dep)} results stored in the output queue for one item"
                + ("" if none is not None else
                   " on a path where the output queue may exist"),
                path(), it.ev.line)
        return
    _, dev, dk, dv = dep[0]
    ctx.check(dk == key, "E01.deposit", where, "key of the result",
              f"the result is stored under {show(dk)} instead of the key of the "
              "item", path(), dev.line)
    ctx.check(
        any(dv == v for v in results), "E01.deposit", where,
        "value of the result",
        f"what is stored ({show(dv)[:120]}) is not what the function returned "
        "or raised for this item", path(), dev.line)
    ctx.check(none is False, "E01.deposit", where, "unguarded deposit",
              "deposit on a path where the output queue may be None", path(),
              dev.line)


def check_arg(ctx, where, arg, key, obj, eat, path, ev):
    pair = ("tuple", (key, obj))
    if arg == pair:
        ctx.check(eat is True, "E01.call", where, "argument (key, value)",
                  "the function receives (key, value) though the work did not "
                  "ask for it", path(), ev.line)
    elif arg == obj:
        ctx.check(eat is False, "E01.call", where, "argument value",
                  "the function receives the value only though the work asked "
                  "for (key, value) (or without looking at it)", path(), ev.line)
    else:
        ctx.bad("E01.call", where, "argument",
                f"the function receives {show(arg)[:120]}, which is not the item",
                path(), ev.line)


_target_cache = {}


def check_target(ctx, m, target, argkinds):
    """the function run in the process calls func(obj) once and sends the
    result (or the exception) once on the connection"""
    ckey = (target, tuple(argkinds))
    if ckey in _target_cache:
        return _target_cache[ckey]
    f = m.func_of(target)
    if f is None:
        _target_cache[ckey] = None
        return None
    names = [a.arg for a in f.node.args.args]
    if f.cls is not None:
        names = names[1:]
    args = {}
    for n, k in zip(names, argkinds):
        args[n] = ("sym", {"func": "func", "arg": "arg", "conn": "conn"}.get(k, n))
    I = Interp(m.p, m.policy(unroll=1))
    outs = I.run(f, args=args)
    ctx.seen(I)
    ok = True
    for o in outs + I.cuts:
        tr = o.st.trace
        calls = [e for e in tr if e.kind == "call" and e.a[0] == ("sym", "func")]
        sends = [
            e for e in tr if e.kind == "call" and e.a[0][0] == "attr"
            and e.a[0][2] == "send" and e.a[0][1] == ("sym", "conn")
        ]
        good = (
            len(calls) == 1 and calls[0].a[1] == (("sym", "arg"),)
            and len(sends) == 1 and o.kind == "return"
        )
        if good:
            v = calls[0].a[3]
            raised = any(e.kind == "call_raised" for e in tr)
            exp = ("exc", "AnyException", v[4]) if raised else v
            good = sends[0].a[1] == (exp,)
        ctx.check(good, "E01.call", f.short, "process target",
                  "the function run in the process must call the function of "
                  "the work once with the item and send back exactly once its "
                  "result or its exception", fmt_trace(tr))
        ok = ok and good
    _target_cache[ckey] = ok
    return ok


def check_remote(ctx, m, it, tr, rc, end, where, eat, path):
    """returns the terms accepted as result"""
    W = it.work
    # only the last started process counts; the previous ones are terminated
    for (i, ev, target, items), nxt in zip(rc, rc[1:]):
        term = any(
            e.kind == "call" and e.a[0] == ("attr", ev.a[3], "terminate")
            for e in tr[i:nxt[0]]
        )
        ctx.check(term, "E01.call", where, "retry without terminate",
                  "a second process is started for the same item though the "
                  "first one was not terminated", path(), ev.line)
    i, ev, target, items = rc[-1]
    if target == ("attr", W, "func_or_cls"):
        ctx.maybe("E01.call", where, "function of the work as process target")
        return None
    kinds = []
    conn = None
    for a in items:
        if a == ("attr", W, "func_or_cls"):
            kinds.append("func")
        elif a == it.obj or a == ("tuple", (it.key, it.obj)):
            kinds.append("arg")
            check_arg(ctx, where, a, it.key, it.obj, eat, path, ev)
        elif conn is None and a[0] == "item" and a[1][0] == "call" and (
            is_const(a[2])
        ):
            kinds.append("conn")
            conn = a
        else:
            kinds.append("other")
    if kinds.count("arg") != 1:
        ctx.bad("E01.call", where, "argument of the process",
                "the process does not receive the item", path(), ev.line)
        return None
    if conn is None:
        ctx.maybe("E01.call", where, "no connection found")
        return None
    if check_target(ctx, m, target, kinds) is None:
        ctx.maybe("E01.call", where, "unknown process target")
        return None
    return recv_result(ctx, tr, it, end, where, conn, path, i)


def recv_result(ctx, tr, it, end, where, conn, path, start):
    recvs = [
        e for e in tr[start:end] if e.kind == "call" and e.a[0][0] == "attr"
        and e.a[0][2] == "recv"
    ]
    good = [
        e for e in recvs
        if e.a[0][1][0] == "item" and conn[0] == "item"
        and e.a[0][1][1] == conn[1] and e.a[0][1] != conn
    ]
    if len(recvs) == 1 and not good:
        ctx.bad("E01.deposit", where, "connection",
                "the result is not received from the other end of the "
                "connection given to the process", path(), recvs[0].line)
        return None
    return [e.a[3] for e in good[:1]] or [("none",)]


# -- servers
def server_sends(m, tr, W, it, end):
    res = []
    for i, ev in enumerate(tr[it.idx:end], it.idx):
        if ev.kind == "call" and ev.a[0][0] == "attr" and ev.a[0][2] == "send":
            if len(ev.a[1]) == 1 and ev.a[1][0][0] == "tuple" and contains(
                ev.a[1][0], it.obj
            ):
                res.append((i, ev, ev.a[1][0][1]))
    return res


_server_cache = {}


def server_model(ctx, m):
    """what the server does with a message: positions in the message"""
    if id(m) in _server_cache:
        return _server_cache[id(m)]
    cls = None
    for mod in m.p.modules.values():
        for k in mod.classes.values():
            if k.name.startswith("WorkerServer") and any(
                "recv" in ast.dump(f.node) for f in k.methods.values()
            ):
                cls = k
    if cls is None:
        raise AnalysisBroken("class of the servers not found")
    info = dict(cls=cls, runs=[], replies=[], receives=[])
    for name, f in sorted(cls.methods.items()):
        if not f.is_async:
            continue
        I = Interp(m.p, m.policy(unroll=1))
        outs = I.run(f, self_term=("obj", "self", cls.qual)) + I.cuts
        ctx.seen(I)
        info.setdefault("methods", {})[name] = outs
        for o in outs:
            tr = o.st.trace
            rec = [i for i, e in enumerate(tr) if e.kind == "call"
                   and e.a[0][0] == "attr" and e.a[0][2] == "recv"]
            for i in rec:
                info["receives"].append((f, o, i))
            runs = [
                i for i, e in enumerate(tr) if e.kind == "call"
                and e.a[0][0] == "attr" and e.a[0][2] == "func_or_cls"
            ]
            for i in runs:
                info["runs"].append((f, o, i))
            sends = [
                i for i, e in enumerate(tr) if e.kind == "call"
                and e.a[0][0] == "attr" and e.a[0][2] == "send"
            ]
            for i in sends:
                info["replies"].append((f, o, i))
    _server_cache[id(m)] = info
    return info


def list_pop(tr, start, end):
    """message taken from a list attribute: (index, list term, value)"""
    res = []
    for i, e in enumerate(tr[start:end], start):
        if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in (
            "pop", "popleft", "get", "get_nowait"
        ):
            res.append((i, e.a[0][1], e.a[3]))
    return res


def appends(tr, start, end):
    return [
        (i, e.a[0][1], e.a[1][0]) for i, e in enumerate(tr[start:end], start)
        if e.kind == "call" and e.a[0][0] == "attr"
        and e.a[0][2] in ("append", "put", "put_nowait") and e.a[1]
    ]


def check_server(ctx, m, it, tr, sc, end, where, path):
    i, ev, sent = sc[0]
    W = it.work
    info = server_model(ctx, m)
    pos = {}
    for n, t in enumerate(sent):
        if t == ("attr", W, "name"):
            pos["name"] = n
        elif t == it.key:
            pos["key"] = n
        elif t == it.obj:
            pos["obj"] = n
        elif t[0] == "item" and t[1][0] == "call":
            pos["conn"] = n
    if set(pos) != {"name", "key", "obj", "conn"}:
        ctx.bad("E01.call", where, "message to the server",
                f"the message sent to the server {show(('tuple', sent))[:150]} "
                "does not contain the name of the work, the key, the value of "
                "the item and a connection", path(), ev.line)
        return None
    if check_server_side(ctx, m, info, pos) is None:
        return None
    conn = sent[pos["conn"]]
    r = recv_result(ctx, tr, it, end, where, conn, path, i)
    if r is None or r == [("none",)]:
        return r
    return [mk_item(r[0], const(info["ret_pos"]))]


def check_server_side(ctx, m, info, pos):
    if "checked" in info:
        return info["checked"]
    info["checked"] = None
    cls = info["cls"]
    src_list = ret_list = None
    # 1. the function of the work is called with the content of the message
    if not info["runs"]:
        ctx.bad("E01.call", cls.module.rel + ":" + cls.name, "no call",
                "the server never calls the function of the works")
        return None
    for f, o, i in info["runs"]:
        tr = o.st.trace
        e = tr[i]
        ps = list_pop(tr, 0, i)
        if not ps:
            ctx.maybe("E01.call", f.short, "message not found")
            continue
        _, src_list, msg = ps[-1]
        g = lambda k: mk_item(msg, const(pos[k]))
        W = e.a[0][1]
        ctx.check(
            W[0] == "item" and W[1][0] == "attr" and W[1][2] == "works_dict"
            and W[2] == g("name"), "E01.call", f.short, "work of the message",
            "the server does not use the work named in the message",
            fmt_trace(tr), e.line)
        eat = None
        for t, b, _ in assumes(tr, 0, i):
            if contains_if(t, lambda x: x[0] == "attr" and "eat" in str(x[2])):
                eat = b
        arg = e.a[1][0] if len(e.a[1]) == 1 else ("tuple", e.a[1])
        check_arg(ctx, f.short, arg, g("key"), g("obj"), eat,
                  lambda: fmt_trace(tr), e)
        # each message is run once
        n = len([x for x in tr if x.kind == "call" and x.a[0] == e.a[0]])
        ctx.check(n == 1, "E01.call", f.short, "calls in the server",
                  f"{n} calls for one message", fmt_trace(tr), e.line)
        if o.kind == "raise":
            ctx.bad("E01.deposit", f.short, "exception lost",
                    "an exception of the function of the work stops the server",
                    fmt_trace(tr), e.line)
            continue
        if o.kind == "cut" and tr[-1].kind != "cut":
            continue
        raised = any(
            x.kind == "call_raised" and x.a[0] == e.a[0] for x in tr[i:]
        )
        exp = ("exc", "AnyException", e.a[3][4]) if raised else e.a[3]
        ap = [a for a in appends(tr, i, len(tr)) if contains(a[2], exp)]
        ok = len(ap) == 1 and ap[0][2][0] == "tuple" and exp in ap[0][2][1]
        ctx.check(ok, "E01.deposit", f.short, "result kept by the server",
                  "the result (or the exception) is not kept exactly once to be "
                  "sent back", fmt_trace(tr), e.line)
        if not ok:
            return None
        ret_list = ap[0][1]
        back = ap[0][2][1]
        p2 = {}
        for n, t in enumerate(back):
            if t == exp:
                p2["result"] = n
            for k in pos:
                if t == g(k):
                    p2[k] = n
        if info.setdefault("back", p2) != p2:
            ctx.bad("E01.deposit", f.short, "positions of the results",
                    "results and exceptions are not kept at the same position",
                    fmt_trace(tr), e.line)
    # 2. replies
    back = info.get("back")
    if back is None:
        return None
    nrep = 0
    for f, o, i in info["replies"]:
        tr = o.st.trace
        e = tr[i]
        ps = [p for p in list_pop(tr, 0, i) if p[1] == ret_list]
        if not ps:
            continue
        nrep += 1
        msg = ps[-1][2]
        ctx.check(e.a[0][1] == mk_item(msg, const(back.get("conn", -1))),
                  "E01.deposit", f.short, "connection of the reply",
                  "the result is not sent on the connection of its message",
                  fmt_trace(tr), e.line)
        items = e.a[1][0][1] if e.a[1] and e.a[1][0][0] == "tuple" else (
            e.a[1][:1])
        want = mk_item(msg, const(back["result"]))
        ok = want in items and sum(
            1 for x in tr if x.kind == "call" and x.a[0] == e.a[0]) == 1
        ctx.check(ok, "E01.deposit", f.short, "content of the reply",
                  "the result is not sent back exactly once", fmt_trace(tr),
                  e.line)
        if want in items:
            rp = items.index(want)
            if info.setdefault("ret_pos", rp) != rp:
                ctx.bad("E01.deposit", f.short, "position", "inconsistent reply")
    if not nrep:
        ctx.bad("E01.deposit", cls.module.rel + ":" + cls.name, "no reply",
                "the server never sends the results back")
        return None
    # 3. what is received is put in the list of messages
    for f, o, i in info["receives"]:
        tr = o.st.trace
        val = tr[i].a[3]
        if o.kind == "raise":
            continue
        ap = [a for a in appends(tr, i, len(tr)) if a[2] == val]
        ctrl = any(
            e.kind == "setattr" and contains(e.a[2], val) for e in tr[i:]
        )
        ok = (len(ap) == 1 and ap[0][1] == src_list and not ctrl) or (
            not ap and ctrl
        )
        ctx.check(ok, "E01.call", f.short, "message received",
                  "a message received by the server is not kept exactly once in "
                  "the list of the messages to be processed", fmt_trace(tr),
                  tr[i].line)
    info["checked"] = True
    return True


@register("E01")
def e01_global(ctx):
    ctx.rule("E01.global", "global and one-shot works are called with their own "
             "input and output queues", 3)
    m = model(ctx)
    for c, r, f in all_roots(m):
        for o in outs_of(m, r):
            tr = o.st.trace
            for i, e in enumerate(tr):
                if e.kind != "call" or e.a[0][0] != "attr" or (
                    e.a[0][2] != "func_or_cls"
                ):
                    continue
                W = e.a[0][1]
                if [p for p in pops(tr[:i]) if p.work == W]:
                    continue
                args = list(e.a[1])
                kw = dict(e.a[2])
                if len(args) == 1 and not kw:
                    ctx.bad("E01.call", fshort(e), "item not removed",
                            "the function of a work is called with something "
                            "which was not removed from its input queue",
                            fmt_trace(tr[:i + 1]), e.line)
                    continue
                i_ = args[0] if args else kw.get("input_queue")
                o_ = args[1] if len(args) > 1 else kw.get("output_queue")
                ok = (
                    (i_ == ("attr", W, "input_queue") or i_ == NONE)
                    and o_ == ("attr", W, "output_queue")
                )
                ctx.check(ok, "E01.global", fshort(e), "arguments",
                          f"global work called with ({show(i_ or NONE)}, "
                          f"{show(o_ or NONE)}) instead of its own queues",
                          fmt_trace(tr[:i + 1]), e.line)


def eval_bool(t, val):
    """truth of a term for an assignment of atoms (val: term -> bool|None)"""
    if t[0] == "const":
        return bool(t[1])
    if t[0] == "not":
        r = eval_bool(t[1], val)
        return None if r is None else not r
    if t[0] in ("and", "or"):
        rs = [eval_bool(x, val) for x in t[1]]
        if t[0] == "and":
            if any(r is False for r in rs):
                return False
            return None if None in rs else True
        if any(r is True for r in rs):
            return True
        return None if None in rs else False
    return val(t)


@register("E01")
def e01_selection(ctx):
    """each work is either one shot or executed on items, never both"""
    ctx.rule("E01.selection", "every work of the topology is taken in charge "
             "exactly once: one-shot works once, the others by the loops", 2)
    p = ctx.p
    base = p.find_class("ExecutorBase")
    m = model(ctx)
    # classification: run with a topology made of two abstract works, one of
    # each kind, and see which ones are taken
    kinds = {
        "nil": NONE, "io": const("io"), "global": const("global"),
        "one": const("one shot"), "eat": const("eat key value"),
        "globone": ("tuple", (const("global"), const("one shot"))),
        "ioeat": ("tuple", (const("io"), const("eat key value"))),
    }
    works = {k: ("sym", "work#" + k) for k in kinds}
    Work = p.find_class("Work", "topologies.base")

    class Pol(type(m.policy())):
        def type_of(self, term, interp, st):
            if term in works.values():
                return Work
            return super().type_of(term, interp, st)

    def policy():
        return Pol(p, None, 1, m.dynamic)

    def start_state(self_t):
        st = State()
        lst = ("list", ("uid", 1, 0))
        st.heap[(lst, "#items")] = tuple(works.values())
        topo = ("sym", "topology")
        st.heap[(topo, "works")] = lst
        for k, w in works.items():
            st.heap[(w, "kind")] = kinds[k]
            st.heap[(w, "name")] = const("work " + k)
            st.heap[(w, "name_no_space")] = const("work_" + k)
        st.heap[(self_t, "topology")] = topo
        return st, topo

    from ..project import ClassInfo
    for c in simple_executors(m):
        self_t = ("obj", "self", c.qual)
        st, topo = start_state(self_t)
        init = c.find_method("__init__")
        I = Interp(p, policy())
        I.policy._keep = lambda ev: ev.kind in ("setitem", "call")
        outs = I.run(init, args={"topology": topo}, self_term=self_t, st=st)
        ctx.seen(I)
        sel = set()
        for o in outs:
            if o.kind != "return":
                continue
            lst = o.st.heap.get((self_t, "works"))
            items = I.items_of(lst, o.st) if lst else None
            sel.add(items)
        if len(sel) != 1 or None in sel:
            ctx.maybe("E01.selection", init.short, "list of works not found")
            continue
        looped = list(sel.pop())
        # one shot works
        f = c.find_method("exec_one_shot_works")
        if f is None:
            ctx.maybe("E01.selection", init.short, "one shot works not found")
            continue
        I = Interp(p, policy())
        I.policy._keep = lambda ev: ev.kind in ("call",)
        st, topo = start_state(self_t)
        outs = I.run(f, self_term=self_t, st=st)
        for o in outs:
            called = [
                e.a[0][1] for e in o.st.trace
                if e.a[0][0] == "attr" and e.a[0][2] == "func_or_cls"
            ]
            for k, w in works.items():
                n = looped.count(w) + called.count(w)
                ok = n == 1 and (w in called) == ("one" in k)
                ctx.check(
                    ok, "E01.selection", f.short if "one" in k else base.module.rel
                    + ":ExecutorBase.__init__", f"kind {show(kinds[k])}",
                    f"a work of kind {show(kinds[k])} is taken in charge {n} "
                    f"times (loops: {looped.count(w)}, one shot: "
                    f"{called.count(w)})")


@register("E01")
def e01_table(ctx):
    """one launching function per work, bound to this work"""
    ctx.rule("E01.table", "each work selected by an asynchronous executor gets "
             "its own launching function (no late binding of the loop variable, "
             "no collision of names)", 3)
    m = model(ctx)
    p = ctx.p
    works = [("sym", "work#A"), ("sym", "work#B")]
    Work = p.find_class("Work", "topologies.base")

    class Pol(type(m.policy())):
        def type_of(self, term, interp, st):
            if term in works:
                return Work
            return super().type_of(term, interp, st)

    for c in simple_executors(m):
        f = c.find_method("define_functions")
        if f is None or not any(r.kind == "task" for r in m.roots(c)):
            continue
        for kinds in [(k1, k2) for k1 in ("none", "io", "global")
                      for k2 in ("none", "io", "global")]:
            self_t = ("obj", "self", c.qual)
            st = State()
            lst = ("list", ("uid", 1, 0))
            st.heap[(lst, "#items")] = tuple(works)
            st.heap[(self_t, "works")] = lst
            for w, k in zip(works, kinds):
                st.heap[(w, "kind")] = NONE if k == "none" else const(k)
                st.heap[(w, "name")] = const("name " + w[1])
            I = Interp(p, Pol(p, lambda ev: ev.kind == "setitem", 1, m.dynamic))
            outs = I.run(f, self_term=self_t, st=st)
            ctx.seen(I)
            for o in outs:
                if o.kind != "return":
                    continue
                sets = [e for e in o.st.trace if e.a[2][0] in ("func", "partial",
                                                               "bound")]
                keys = [e.a[1] for e in sets]
                ok = len(sets) == 2 and len(set(keys)) == 2
                ctx.check(ok, "E01.table", f.short, "one function per work",
                          f"{len(set(keys))} launching functions registered for "
                          "two works")
                if not ok:
                    continue
                for w, k, e in zip(works, kinds, sets):
                    # run the function: which work does it use?
                    used = works_used(m, p, Pol, e.a[2], o.st, works)
                    if not used:
                        ctx.maybe("E01.table", f.short, "work not identified")
                        continue
                    ctx.check(
                        used == {w}, "E01.table", f.short,
                        f"work of the launching function ({k})",
                        "the launching function registered for a work uses the "
                        "queues of another one (late binding of the loop "
                        "variable?)")


def works_used(m, p, Pol, fterm, st0, works):
    I = Interp(p, Pol(p, lambda ev: ev.kind in ("assume", "call", "spawn"), 1,
                      m.dynamic))
    I.frame_count = 20000
    st = State()
    st.env = {k: dict(v) for k, v in st0.env.items()}
    st.heap = dict(st0.heap)
    f = m.func_of(fterm)
    args = ()
    if fterm[0] == "partial":
        args = fterm[2]
        fterm = fterm[1]
    if fterm[0] == "bound":
        outs = I.call_function(f, None, (fterm[1],) + tuple(args), {}, st, f.node)
    else:
        outs = I.call_function(f, fterm[2], tuple(args), {}, st, f.node)
    used = set()
    for o in outs + I.cuts:
        for e in o.st.trace:
            for w in works:
                if any(contains(t, ("attr", w, "input_queue")) or t == w
                       for t in e.a):
                    used.add(w)
    return used


# --------------------------------------------------------------------- E02
STOP_ATTRS = ("_has_to_stop",)


def is_stop_atom(t):
    return t[0] == "attr" and t[2] in ("_has_to_stop", "_has_to_continue")


def stop_requested(t, b):
    """does the fact (t is b) mean that a stop was requested"""
    if t[0] == "vol":
        return (t[2] == "_has_to_stop" and b) or (
            t[2] == "_has_to_continue" and not b)
    return (t[0] == "attr" and t[2] == "_has_to_stop" and b) or (
        t[0] == "attr" and t[2] == "_has_to_continue" and not b
    )


def about_stop(t):
    return (t[0] == "attr" and t[2] in ("_has_to_stop", "_has_to_continue")) or (
        t[0] == "vol" and t[2] in ("_has_to_stop", "_has_to_continue")
    ) or (t[0] == "call" and t[1][0] == "attr" and t[1][2] == "is_set")


def counter_name(t):
    """attribute of self read by a term (also after a havoc)"""
    if t[0] == "attr":
        return t[2]
    if t[0] == "vol":
        return t[2]
    return None


def zero_names(t, b):
    """names of the counters which are known to be 0 when fact t is b"""
    def names(x):
        n = counter_name(x)
        if n is not None:
            return {n}
        if x[0] == "op" and x[1] == "+":
            a, c = names(x[2]), names(x[3])
            return (a | c) if a and c else set()
        if x[0] == "call" and x[1] == ("ext", "max"):
            r = set()
            for y in x[2]:
                r |= names(y)
            return r
        return set()

    if t[0] in ("attr", "vol"):
        return names(t) if not b else set()
    if t[0] == "op" and not b:
        return names(t)
    if t[0] == "cmp":
        op, x, y = t[1:]
        if op == "==" and y == const(0) and b:
            return names(x)
        if op == "==" and x == const(0) and b:
            return names(y)
        if op == "<" and y == const(1) and b:
            return names(x)
        if op == "<=" and y == const(0) and b:
            return names(x)
        if op == "<" and x == const(0) and not b:
            return names(y)
        if op == "<=" and x == const(1) and not b:
            return names(y)
    return set()


def nonzero_known(t, b):
    """names of counters known to be non zero"""
    if t[0] in ("attr", "vol") and b:
        return {counter_name(t)}
    if t[0] == "cmp" or t[0] == "op":
        return zero_names(t, not b) if t[0] == "cmp" and t[1] == "==" else (
            zero_names(t, not b)
        )
    return set()


def mentions_queues(t):
    return contains_if(t, lambda x: x[0] == "attr" and x[2] == "queues")


def queues_empty_fact(t):
    """+1: the fact (if true) says that all queues are empty, -1: if false"""
    if t[0] == "forall" and mentions_queues(t):
        body = t[1]
        if body[0] == "not" and body[1][0] == "elem":
            return 1
        if body[0] == "cmp" and body[1] == "==" and const(0) in body[2:] and any(
            x[0] == "call" and x[1] == ("ext", "len") for x in body[2:]
        ):
            return 1
        return 0
    if t[0] == "cmp" and t[1] == "==" and t[3] == const(0):
        x = t[2]
        if x[0] == "call" and x[1] == ("ext", "sum") and mentions_queues(x) and (
            contains_if(x, lambda y: y[0] == "call" and y[1] == ("ext", "len"))
        ):
            return 1
    if t[0] == "call" and t[1] == ("ext", "sum") and mentions_queues(t):
        return -1
    return 0


class Idle:
    """knowledge about the state of the executor in some facts"""

    def __init__(self, facts, trace=()):
        self.empty = None
        self.zero = set()
        self.nonzero = set()
        self.workers = None
        self.unknown = []
        self.stop = None
        self.unocc = set()
        for t, b in facts.items():
            q = queues_empty_fact(t)
            if q:
                self.empty = b if q > 0 else not b
                continue
            if about_stop(t):
                self.stop = stop_requested(t, b)
                continue
            if t[0] == "forall" and contains_if(
                t, lambda x: x[0] == "attr" and x[2] == "workers"
            ):
                body = t[1]
                if body[0] == "attr":
                    if b:
                        self.unocc.add(body[2])
                    self.workers = b if self.workers is not False else False
                else:
                    z = zero_names(body, True)
                    if z:
                        if b:
                            self.unocc |= z
                        self.workers = b
                    else:
                        self.unknown.append((t, b))
                continue
            z = zero_names(t, b)
            if z:
                self.zero |= z
                continue
            nz = nonzero_known(t, b)
            if nz:
                self.nonzero |= nz
                continue
            if mentions_queues(t) or contains_if(
                t, lambda x: x[0] == "attr" and x[2] == "workers"
            ):
                # element of a loop over the queues
                if t[0] == "elem" and mentions_queues(t[1]):
                    if b:
                        self.empty = False
                    continue
                if t[0] == "attr" and t[1][0] == "elem":
                    if not b:
                        self.workers = False
                    else:
                        self.unocc.add(t[2])
                    continue
                self.unknown.append((t, b))
        # explicit loops over the queues / the workers
        last = None
        for ev in trace:
            if ev.kind == "exhausted":
                it = ev.a[0]
                if mentions_queues(it) and self.empty is None:
                    n = ev.a[1][1]
                    ok = all(
                        facts.get(("elem", it, k)) is False for k in range(n)
                    )
                    if ok:
                        self.empty = True


def term_keep(m):
    base = item_events(m.dynamic)
    return lambda ev: base(ev) or ev.kind in ("exhausted", "iter")


@register("E02")
def e02_terminator(ctx):
    ctx.rule("E02.stop-when-done", "the executor decides to stop by itself only "
             "when all queues are known to be empty and all counters of "
             "in-flight items to be zero", 2)
    ctx.rule("E02.done-then-stop", "when the queues are empty and nothing is in "
             "flight, the executor decides to stop (no other condition)", 2)
    m = model(ctx)
    for c in simple_executors(m):
        roots = m.roots(c)
        if not any(r.kind == "task" for r in roots):
            continue
        req = markers(ctx, m, c)
        found = False
        for r in roots:
            outs = outs_of(m, r, keepmode="term")
            loops = {}
            for o in outs:
                tr = o.st.trace
                for i, e in enumerate(tr):
                    if e.kind == "setattr" and e.a[1] in STOP_ATTRS and (
                        e.a[2] == TRUE
                    ):
                        found = True
                        k = Idle(e.facts, tr[:i])
                        where = rshort(m, r)
                        if k.unknown and k.empty is None:
                            ctx.maybe("E02.stop-when-done", where, "unrecognised "
                                      f"test {show(k.unknown[0][0])[:80]}")
                            continue
                        ctx.check(
                            k.empty is True, "E02.stop-when-done", where,
                            "queues not tested",
                            "the execution is stopped on a path where the queues "
                            "are not known to be all empty", fmt_trace(tr[:i + 1]),
                            e.line)
                        for kind, name in sorted(req):
                            ok = name in (k.zero if kind == "self" else k.unocc)
                            ctx.check(
                                ok, "E02.stop-when-done", where,
                                f"{name} not tested",
                                f"the execution is stopped on a path where {name} "
                                "is not known to be free of in-flight items",
                                fmt_trace(tr[:i + 1]), e.line)
        ctx.check(found, "E02.done-then-stop", f"{c.module.rel}:{c.name}",
                  "end of the execution",
                  f"{c.name}: no task sets the flag which ends the execution")
        # converse
        for r in roots:
            outs = outs_of(m, r, keepmode="term")
            if not any(
                e.kind == "setattr" and e.a[1] in STOP_ATTRS and e.a[2] == TRUE
                for o in outs for e in o.st.trace
            ):
                continue
            for o in outs:
                tr = o.st.trace
                for seg in iterations(tr):
                    if any(e.kind == "setattr" and e.a[1] in STOP_ATTRS
                           for e in seg):
                        ctx.ok("E02.done-then-stop", rshort(m, r), "sets")
                        continue
                    # facts known during this iteration, before it gives the
                    # hand back
                    facts = {}
                    for e in seg:
                        if e.kind in ("await", "thread"):
                            break
                        facts.update(e.facts)
                    k = Idle(facts, seg)
                    falsified = (
                        k.empty is False or k.nonzero or k.workers is False
                        or k.stop or k.unknown
                    )
                    ctx.check(
                        bool(falsified), "E02.done-then-stop", rshort(m, r),
                        "iteration which does not stop",
                        "an iteration does not end the execution though nothing "
                        "shows that there is still something to do "
                        "(the execution may never end)", fmt_trace(seg),
                        seg[0].line)


def iterations(tr):
    """complete iterations (loop event .. before the next loop/cut of the same
    loop)"""
    res = []
    by = {}
    for i, e in enumerate(tr):
        if e.kind in ("loop", "cut"):
            if id(e.node) in by:
                res.append(tr[by[id(e.node)]:i + (0 if e.kind == "loop" else 0)])
            by[id(e.node)] = i
            if e.kind == "cut":
                by.pop(id(e.node), None)
    return [s for s in res if s]


def item_roots(m, c):
    for r in m.roots(c):
        outs = outs_of(m, r)
        if any(pops(o.st.trace) for o in outs):
            yield r, outs


def markers(ctx, m, c):
    """in-flight markers really used by the tasks of a class: counters of self
    incremented before an item is waited for, flags/counters of workers"""
    res = set()
    for r, outs in item_roots(m, c):
        if r.kind == "main":
            continue
        per_self, per_worker = None, None
        cand_s, cand_w = set(), set()
        any_wait = False
        for o in outs:
            tr = o.st.trace
            for it in pops(tr):
                for i, e in enumerate(tr):
                    if e.kind == "setattr" and e.a[1].startswith("nb_") and (
                        delta(e.a[2], e.a[3]) == 1
                    ):
                        if e.a[0][0] == "obj":
                            cand_s.add(e.a[1])
                        else:
                            cand_w.add(e.a[1])
                    if e.kind == "setattr" and e.a[0][0] != "obj" and (
                        e.a[2] == FALSE
                    ):
                        cand_w.add(e.a[1])
        for n in cand_s:
            res.add(("self", n))
        if not cand_s and cand_w:
            # one marker of the workers is enough: a flag if there is one
            flags = sorted(n for n in cand_w if n.startswith("is_"))
            res.add(("worker", flags[0] if flags else sorted(cand_w)[0]))
    return res


@register("E02")
def e02_inflight(ctx):
    ctx.rule("E02.in-flight", "between the removal of an item and the storage of "
             "its result, whenever other tasks may run the in-flight marker "
             "tested by the end condition is set", 8)
    ctx.rule("E02.balance", "in-flight counters are back to their previous value "
             "on every path of the task of an item", 8)
    ctx.rule("E02.already-taken", "an item already taken by another task is not "
             "an error", 3)
    m = model(ctx)
    for c in simple_executors(m):
        for r, outs in item_roots(m, c):
            if r.kind == "main":
                continue
            where = rshort(m, r)
            for o in outs:
                if o.kind == "cut":
                    continue
                check_inflight(ctx, m, where, o)


def marker_state(tr, i):
    """counters raised and flags lowered before event i"""
    tot = {}
    flags = {}
    for e in tr[:i]:
        if e.kind != "setattr":
            continue
        base, attr, new, old = e.a
        d = delta(new, old)
        if d is not None and d != 0 and (attr.startswith("nb_")):
            tot[(base, attr)] = tot.get((base, attr), 0) + d
        elif new in (TRUE, FALSE):
            flags[(base, attr)] = new == TRUE
    return tot, flags


def check_inflight(ctx, m, where, o):
    tr = o.st.trace
    path = lambda: fmt_trace(tr)
    for e in tr:
        if e.kind == "call_raised" and e.a[2] == const("KeyError"):
            ctx.check(
                o.kind == "return", "E02.already-taken", where,
                "item already taken",
                "an item taken by another task makes this task (and the whole "
                "execution) fail", path(), e.line)
    for it in pops(tr):
        W = it.work
        dep = [d[0] for d in deposits(tr, W, it.idx)]
        end = dep[0] if dep else len(tr)
        for i in range(it.idx + 1, end):
            e = tr[i]
            if e.kind not in ("await", "thread"):
                continue
            if e.kind == "await" and not dep and not any(
                x.kind == "call" and x.a[0][0] == "attr"
                and x.a[0][2] in ("func_or_cls",) for x in tr[i:]
            ) and not any(x.kind in ("thread",) for x in tr[i:i + 1]):
                # nothing left to be done for this item
                done = [
                    j for j, x in enumerate(tr) if x.kind == "call"
                    and x.a[0][0] == "attr" and x.a[0][2] in (
                        "func_or_cls", "recv")
                ]
                if done and done[-1] < i:
                    continue
            tot, flags = marker_state(tr, i)
            held = any(v >= 1 for v in tot.values()) or any(
                v is False and k[1] != "is_available" for k, v in flags.items()
            )
            ctx.check(
                held, "E02.in-flight", where, "item in flight without marker",
                "the item is removed from the queue, is not yet stored in the "
                "next one and no in-flight marker is set while other tasks may "
                "run: the execution can be considered as done too early",
                path(), e.line)
    tot, flags = marker_state(tr, len(tr))
    if o.kind == "return":
        bad = {k: v for k, v in tot.items() if v != 0}
        ctx.check(
            not bad, "E02.balance", where,
            "unbalanced " + ",".join(sorted({k[1] for k in bad}) or ["-"]),
            "counters not balanced at the end of the task: "
            + ", ".join(f"{show(k[0])}.{k[1]} {v:+d}" for k, v in bad.items()),
            path(), tr[-1].line if tr else None)
        # no temporary negative value / early release
        run = {}
        for e in tr:
            if e.kind == "setattr" and e.a[1].startswith("nb_"):
                d = delta(e.a[2], e.a[3])
                if d is None:
                    ctx.maybe("E02.balance", where, f"{e.a[1]} assigned")
                    continue
                run[(e.a[0], e.a[1])] = run.get((e.a[0], e.a[1]), 0) + d
                ctx.check(run[(e.a[0], e.a[1])] >= 0, "E02.balance", where,
                          f"{e.a[1]} released twice",
                          f"{e.a[1]} is decremented more than incremented",
                          path(), e.line)


@register("E02")
def e02_workers(ctx):
    ctx.rule("E02.worker-release", "a server reserved for an item is made "
             "available again on every path, and declared unoccupied if and only "
             "if it has no item left", 2)
    m = model(ctx)
    for c in simple_executors(m):
        roots = m.roots(c)
        # flags lowered when the worker is chosen
        lowered = {}
        for r in roots:
            for o in outs_of(m, r):
                tr = o.st.trace
                for i, e in enumerate(tr):
                    if e.kind != "spawn" or len(e.a) < 3:
                        continue
                    f = m.func_of(e.a[0])
                    if f is None:
                        continue
                    for x in tr[:i]:
                        if x.kind == "setattr" and x.a[0] == e.a[2] and (
                            x.a[2] == FALSE
                        ):
                            lowered.setdefault(f.key, set()).add(x.a[1])
        for r, outs in item_roots(m, c):
            if r.kind == "main":
                continue
            where = rshort(m, r)
            low = lowered.get(m.func_of(r.fterm).key, set())
            for o in outs:
                if o.kind != "return":
                    continue
                check_release(ctx, where, o.st.trace, low, o.st.facts)


def is_worker_set(e):
    """event which modifies the state of a worker given as argument"""
    return e.kind == "setattr" and e.a[0][0] == "sym"


def check_release(ctx, where, tr, lowered, final):
    tot, flags = marker_state(tr, len(tr))
    for n in lowered:
        ok = any(k[1] == n and v for k, v in flags.items())
        ctx.check(ok, "E02.worker-release", where, f"{n} not restored",
                  f"a worker reserved ({n} = False) for this task is "
                  "never made available again on this path", fmt_trace(tr))
    for i, e in enumerate(tr):
        if not is_worker_set(e):
            continue
        # unoccupied only if no item
        if e.a[2] == TRUE and e.a[1] not in lowered:
            z = set()
            for t, b in e.facts.items():
                z |= zero_names_expr(t, b)
            ctx.check(bool(z), "E02.worker-release", where,
                      f"{e.a[1]} set unconditionally",
                      f"{e.a[1]} is set though the worker may still have items "
                      "to process", fmt_trace(tr), e.line)
        # decremented: if no item left, declared unoccupied
        if delta(e.a[2], e.a[3]) == -1:
            was = any(
                is_worker_set(x) and x.a[2] == FALSE and x.a[1] not in lowered
                for x in tr[:i]
            )
            if not was:
                continue
            rest = tr[i + 1:]
            zs = [(t, b) for t, b in final.items() if touches_count(t, e)]
            zero = [t for t, b in zs if zero_names_expr(t, b)]
            setu = any(
                is_worker_set(x) and x.a[2] == TRUE and x.a[1] not in lowered
                for x in rest
            )
            if setu:
                ctx.ok("E02.worker-release", where, "declared unoccupied")
            elif zs and not zero:
                ctx.ok("E02.worker-release", where, "items left")
            else:
                ctx.bad("E02.worker-release", where, "unoccupied not set",
                        "a worker without items left is not declared unoccupied",
                        fmt_trace(tr), e.line)


def touches_count(t, e):
    """the fact is about the new value of the counter"""
    return t[0] in ("cmp", "op", "attr", "vol") and contains(t, e.a[2])


def zero_names_expr(t, b):
    """like zero_names for expressions such as (counter - 1)"""
    if t[0] == "cmp" and t[1] == "==" and b and t[3] == const(0):
        if contains_if(t[2], lambda x: counter_name(x) is not None):
            return {n for n in [counter_name(x) for x in walk(t[2])] if n}
    if t[0] == "cmp" and not b and t[1] == "<" and t[2] == const(0):
        return {n for n in [counter_name(x) for x in walk(t[3])] if n}
    if t[0] == "cmp" and b and t[1] == "<=" and t[3] == const(0):
        return {n for n in [counter_name(x) for x in walk(t[2])] if n}
    if t[0] in ("op", "attr", "vol") and not b:
        return {n for n in [counter_name(x) for x in walk(t)]
                if n and n.startswith("nb_")}
    return set()


@register("E02")
def e02_sequential(ctx):
    ctx.rule("E02.sequential", "the main loop of a sequential executor ends if "
             "and only if all the queues are empty (or a stop is requested)", 2)
    m = model(ctx)
    for c in simple_executors(m):
        for r in m.roots(c):
            if r.kind != "main":
                continue
            where = rshort(m, r)
            outs = outs_of(m, r, keepmode="term")
            for o in outs:
                tr = o.st.trace
                if o.kind == "return":
                    k = Idle(o.st.facts, tr)
                    if k.unknown and k.empty is None:
                        ctx.maybe("E02.sequential", where, "unrecognised test")
                        continue
                    ctx.check(k.empty is True or k.stop is True,
                              "E02.sequential", where, "end of the loop",
                              "the loop ends though the queues are not known to "
                              "be all empty", fmt_trace(tr))
                elif o.kind == "raise":
                    pass
                loops = [e for e in tr if e.kind in ("loop", "cut")]
                if loops and isinstance(loops[0].node, ast.While):
                    e = loops[0]
                    k = Idle(e.facts, tr[:tr.index(e)])
                    ctx.check(k.empty is not True, "E02.sequential", where,
                              "loop with empty queues",
                              "the loop goes on though all queues are empty",
                              fmt_trace(tr[:3]), e.line)


@register("E02")
def e02_checkpoints(ctx):
    ctx.rule("E02.checkpoint", "each iteration of each loop of an asynchronous "
             "task gives the hand back to the event loop", 8)
    m = model(ctx)

    def loops_of(outs, where):
        for o in outs:
            tr = o.st.trace
            by = {}
            for i, e in enumerate(tr):
                if e.kind in ("loop", "cut"):
                    if not isinstance(e.node, ast.While):
                        continue
                    j = by.get(id(e.node))
                    if j is not None:
                        ok = any(
                            x.kind in ("await", "thread") for x in tr[j:i]
                        )
                        ctx.check(
                            ok, "E02.checkpoint", where, "loop without checkpoint",
                            "an iteration of this loop never gives the hand back "
                            "to the other tasks (busy loop)",
                            fmt_trace(tr[j:i + 1]), e.line)
                    by[id(e.node)] = i

    for c in simple_executors(m):
        for r in m.roots(c):
            if r.kind == "task":
                loops_of(outs_of(m, r), rshort(m, r))
    try:
        info = server_model(ctx, m)
    except AnalysisBroken:
        return
    for name, outs in info.get("methods", {}).items():
        loops_of(outs, info["cls"].methods[name].short)


# ----------------------------------------------------------- E05, E02.launch
def counters_of(m, c):
    """item root -> counter of self incremented before the first await"""
    res = {}
    for r, outs in item_roots(m, c):
        for o in outs:
            for e in o.st.trace:
                if e.kind in ("await", "thread"):
                    break
                if e.kind == "setattr" and e.a[0][0] == "obj" and (
                    delta(e.a[2], e.a[3]) == 1
                ):
                    res.setdefault(m.func_of(r.fterm).qual, set()).add(e.a[1])
    return res


def lt_max(t, b, names, maxname):
    """fact 'counter < max' (True), its negation (False) or None"""
    def is_c(x):
        return counter_name(x) in names

    def is_m(x):
        return counter_name(x) == maxname

    if t[0] == "cmp":
        op, x, y = t[1:]
        if op == "<" and is_c(x) and is_m(y):
            return b
        if op == "<=" and is_m(x) and is_c(y):
            return not b
        if op == "==" and ((is_c(x) and is_m(y)) or (is_m(x) and is_c(y))):
            return False if b else None
    return None


def out_room(t, b, W, maxname="nb_items_queue_max"):
    q = ("attr", W, "output_queue")

    def is_len(x):
        return x[0] == "call" and x[1] == ("ext", "len") and x[2] == (q,)

    def is_m(x):
        return counter_name(x) == maxname

    if t[0] == "cmp":
        op, x, y = t[1:]
        if op == "<" and is_len(x) and is_m(y):
            return b
        if op == "<=" and is_m(x) and is_len(y):
            return not b
    if t == ("cmp", "is", q, NONE) and b:
        return True
    return None


def spawned_work(e):
    for a in e.a[1:]:
        if a == WORK or a[0] in ("elem",):
            return a
    return None


@register("E05")
def e05_limits(ctx):
    ctx.rule("E05.spawn", "where a task is started for a work: input queue not "
             "empty, number of running tasks of this kind under the maximum, "
             "output queue absent or under its maximum", 8)
    m = model(ctx)
    for c in simple_executors(m):
        counters = counters_of(m, c)
        for r in m.roots(c):
            if r.kind != "task":
                continue
            where = rshort(m, r)
            for o in outs_of(m, r):
                tr = o.st.trace
                last = 0
                for i, e in enumerate(tr):
                    if e.kind != "spawn" or not e.a:
                        continue
                    f = m.func_of(e.a[0])
                    W = spawned_work(e)
                    if f is None or W is None:
                        continue
                    own = counters.get(f.qual, set())
                    worker_arg = len(e.a) > 2
                    facts = dict(e.facts)
                    if worker_arg:
                        # conditions checked since the previous start
                        for x in tr[last:i]:
                            if x.kind == "assume":
                                facts[x.a[0]] = x.a[1] == TRUE
                    path = fmt_trace(tr[last:i + 1])
                    last = i
                    ctx.check(
                        facts.get(("attr", W, "input_queue")) is True
                        or any(
                            (t == ("cmp", "==", ("call", ("ext", "len"),
                                   (("attr", W, "input_queue"),), (), None),
                                   const(0)) and not b)
                            for t, b in facts.items()
                        ),
                        "E05.spawn", where, "input queue",
                        "a task is started though the input queue of the work is "
                        "not known to contain an item", path, e.line)
                    if not worker_arg:
                        ok = any(
                            lt_max(t, b, own, "nb_max_workers") is True
                            for t, b in facts.items()
                        )
                        ctx.check(
                            ok, "E05.spawn", where, "number of workers",
                            "a task is started though the number of running tasks "
                            f"of this kind ({', '.join(sorted(own)) or 'not counted'})"
                            " is not known to be under nb_max_workers", path,
                            e.line)
                    ok = any(
                        out_room(t, b, W) is True for t, b in facts.items()
                    )
                    ctx.check(
                        ok, "E05.spawn", where, "output queue",
                        "a task is started though the output queue is not known "
                        "to be absent or to hold less than nb_items_queue_max "
                        "items", path, e.line)


@register("E02")
def e02_launch(ctx):
    ctx.rule("E02.launch", "a launching loop waits only if there is nothing to "
             "launch or if a limit is reached", 6)
    m = model(ctx)
    for c in simple_executors(m):
        allc = set()
        for s in counters_of(m, c).values():
            allc |= s
        for r in m.roots(c):
            if r.kind != "task":
                continue
            outs = outs_of(m, r)

            def acts(seg):
                return any(
                    e.kind == "spawn" or (
                        e.kind == "call" and e.a[0][0] == "attr"
                        and e.a[0][2] == "func_or_cls")
                    for e in seg
                )

            if not any(acts(o.st.trace) for o in outs):
                continue
            if any(pops(o.st.trace) for o in outs):
                continue
            where = rshort(m, r)
            for o in outs:
                tr = o.st.trace
                for seg in iterations(tr):
                    if acts(seg):
                        continue
                    facts = dict(seg[0].facts)
                    for e in seg:
                        if e.kind == "assume":
                            facts[e.a[0]] = e.a[1] == TRUE
                    good = False
                    for t, b in facts.items():
                        if t[0] == "attr" and t[2] == "input_queue" and not b:
                            good = True
                        elif t[0] == "forall" and contains_if(
                            t, lambda x: x[0] == "attr" and x[2] == "input_queue"
                        ) and b:
                            good = True
                        elif lt_max(t, b, allc, "nb_max_workers") is False:
                            good = True
                        elif contains_if(t, lambda x: x[0] == "attr" and x[2] ==
                                         "output_queue") and out_room(
                            t, b, outq_work(t)
                        ) is False:
                            good = True
                        elif contains_if(t, lambda x: x[0] == "attr" and x[2] in
                                         ("workers", "is_available")):
                            good = True
                        elif stop_requested(t, b):
                            good = True
                    ctx.check(good, "E02.launch", where, "wait without reason",
                              "the launching loop waits though an item can be "
                              "processed and no limit is reached",
                              fmt_trace(seg), seg[0].line)


def outq_work(t):
    for x in walk(t):
        if x[0] == "attr" and x[2] == "output_queue":
            return x[1]
    return None


@register("E05")
def e05_servers(ctx):
    ctx.rule("E05.server", "the server chosen for a job is available, has less "
             "pending items than the limit, is the least loaded one, and is "
             "reserved when chosen", 1)
    m = model(ctx)
    for c in simple_executors(m):
        for r in m.roots(c):
            if r.kind != "task":
                continue
            for o in outs_of(m, r, extra=("is_available",)):
                tr = o.st.trace
                for i, e in enumerate(tr):
                    if e.kind != "spawn" or len(e.a) < 3:
                        continue
                    w = e.a[2]
                    where = rshort(m, r)
                    comps = [x for x in walk(w) if x[0] == "comp"]
                    if not comps:
                        ctx.maybe("E05.server", where, "choice of the server not "
                                  "recognised: " + show(w)[:80])
                        continue
                    conds = [y for x in comps for y in x[4]]
                    flat = []
                    for y in conds:
                        flat += list(y[1:]) if y[0] == "and" else [y]
                    avail = any(
                        y[0] == "attr" and y[2] == "is_available" for y in flat
                    )
                    lim = any(
                        y[0] == "cmp" and y[1] == "<" and y[2][0] == "attr"
                        and y[2][2].startswith("nb_") for y in flat
                    ) or any(
                        y[0] == "not" and y[1][0] == "cmp" and y[1][1] == "<="
                        and y[1][3][0] == "attr" and y[1][3][2].startswith("nb_")
                        for y in flat
                    )
                    ctx.check(avail, "E05.server", where, "availability",
                              "the server is not chosen among the available ones",
                              fmt_trace(tr[:i + 1]), e.line)
                    ctx.check(lim, "E05.server", where, "limit",
                              "the server is not chosen among those which have "
                              "less items than the limit", fmt_trace(tr[:i + 1]),
                              e.line)
                    s = show(w, 12)
                    least = any(
                        x[0] == "call" and (
                            (x[1][0] == "ext" and x[1][1] in (
                                "numpy.argmin", "min", "sorted"))
                            or (x[1][0] == "attr" and x[1][2] in (
                                "argmin", "index"))
                        ) for x in walk(w)
                    )
                    ctx.check(least and not contains_if(
                        w, lambda x: x[0] == "ext" and "argmax" in x[1]),
                        "E05.server", where, "least loaded",
                        "the server is not the least loaded one",
                        fmt_trace(tr[:i + 1]), e.line)
                    reserved = any(
                        x.kind == "setattr" and x.a[0] == w and x.a[1] ==
                        "is_available" and x.a[2] == FALSE for x in tr[:i]
                    )
                    ctx.check(reserved, "E05.server", where, "reservation",
                              "the chosen server is not marked as unavailable: it "
                              "can be chosen for several jobs at once",
                              fmt_trace(tr[:i + 1]), e.line)


# --------------------------------------------------------------- E03, E04
def report_keep(m):
    base = item_events(m.dynamic)
    names = ("open", "write", "write_text", "writelines", "mkdir", "print",
             "format_exception", "format_exc", "print_exception", "makedirs")

    def keep(ev):
        if base(ev):
            return True
        if ev.kind == "call":
            ft = ev.a[0]
            return ft[0] in ("attr", "ext") and str(
                ft[2] if ft[0] == "attr" else ft[1]).split(".")[-1] in names
        return False

    return keep


_rep = {}


def report_outs(m, r):
    k = id(r)
    if k not in _rep:
        _rep[k] = m.run_root(r, keep=report_keep(m),
                             extra=("path_dir_exceptions",))
    return _rep[k]


def failures(m, tr, W, start, end):
    """errors of the function of the work on a path: (index, term, kind)"""
    res = []
    for i, e in enumerate(tr[start:end], start):
        if e.kind == "call_raised" and e.a[0] == ("attr", W, "func_or_cls"):
            call = tr[i - 1] if i else None
            for x in tr[i:end]:
                if x.kind == "except":
                    res.append((i, x.a[0], "raised"))
                    break
            else:
                res.append((i, None, "raised"))
        elif e.kind == "assume" and e.a[1] == TRUE:
            t = e.a[0]
            if t[0] == "call" and t[1] == ("ext", "isinstance") and t[2] and (
                contains_if(t[2][0], lambda x: x[0] == "attr" and x[2] == "recv")
            ):
                res.append((i, t[2][0], "received"))
    return res


def base_name(ft):
    if ft[0] == "attr":
        return ft[2]
    if ft[0] == "ext":
        return ft[1].split(".")[-1]
    return None


def reported(tr, i, end, err, W, key):
    """None if the error is well reported in tr[i:end], else what is missing"""
    opened = None
    why = "the error is not written in any file"
    mk = None
    for e in tr[i:end]:
        if e.kind != "call":
            continue
        n = base_name(e.a[0])
        if n in ("mkdir", "makedirs"):
            mk = e
        tgt = None
        if n == "open":
            mode = dict(e.a[2]).get("mode")
            pos = e.a[1][1:] if e.a[0][0] == "ext" else e.a[1]
            path = e.a[1][0] if e.a[0][0] == "ext" and e.a[1] else (
                e.a[0][1] if e.a[0][0] == "attr" else None)
            mode = mode or (pos[0] if pos else const("r"))
            if path is None or not contains_if(
                path, lambda x: x[0] == "attr" and x[2] == "path_dir_exceptions"
            ):
                continue
            if not (is_const(mode) and set(str(mode[1])) & set("wax")):
                why = "the file of the error is not opened for writing"
                continue
            opened = (path, e.a[3], e)
        elif n == "write_text" and e.a[0][0] == "attr":
            path = e.a[0][1]
            if contains_if(path, lambda x: x[0] == "attr" and x[2] ==
                           "path_dir_exceptions"):
                opened = (path, None, e)
        else:
            continue
        if opened is None:
            continue
        path = opened[0]
        if not contains_if(path, lambda x: x[0] == "attr" and x[1] == W
                           and str(x[2]).startswith("name")):
            why = "the name of the file does not contain the name of the work"
            opened = None
            continue
        if key is not None and not contains(path, key):
            why = "the name of the file does not contain the key of the item"
            opened = None
            continue
        if mk is not None:
            kws = dict(mk.a[2])
            if kws.get("exist_ok") != TRUE:
                guarded = contains_if(
                    ("tuple", tuple(mk.facts)), lambda x: x[0] == "attr" and
                    x[2] in ("exists", "is_dir"))
                if not guarded:
                    return ("the directory of the reports is created without "
                            "exist_ok: a second error makes the report fail")
        # what is written
        for w in tr[tr.index(opened[2]):end]:
            if w.kind == "call" and base_name(w.a[0]) in (
                "write", "write_text", "writelines", "print", "print_exception"
            ):
                if contains(("tuple", w.a[1]), err) or contains(
                    ("tuple", tuple(v for _, v in w.a[2])), err
                ) or contains_if(("tuple", w.a[1]), lambda x: x[0] == "ext"
                                 and x[1].endswith("format_exc")):
                    return None
        why = "the report does not describe the exception"
    return why


@register("E03")
def e03_report(ctx):
    ctx.rule("E03.contained", "an exception of the function of a work never "
             "leaves the task of the item unless stop_if_error", 6)
    ctx.rule("E03.report", "it is described in a file of the directory of the "
             "exceptions named after the work and the item", 6)
    ctx.rule("E03.replace", "it takes the place of the result of the item", 6)
    m = model(ctx)
    for c in simple_executors(m):
        seen_failure = False
        for r in m.roots(c):
            outs = report_outs(m, r)
            if not any(pops(o.st.trace) for o in outs):
                continue
            where = rshort(m, r)
            servers = any(
                server_sends(m, o.st.trace, it.work, it, None)
                for o in outs for it in pops(o.st.trace)
            )
            f_here = False
            for o in outs:
                tr = o.st.trace
                ps = pops(tr)
                for n, it in enumerate(ps):
                    more = n + 1 < len(ps)
                    end = ps[n + 1].idx if more else len(tr)
                    W = it.work
                    fl = failures(m, tr, W, it.idx, end)
                    if not fl:
                        continue
                    f_here = seen_failure = True
                    i, err, kind = fl[0]
                    stop = stop_if_error(tr[i:end])
                    if err is None:
                        ctx.bad("E03.contained", where, "exception not caught",
                                "an exception of the function of the work is not "
                                "caught: it stops the other items",
                                fmt_trace(tr[it.idx:end]), tr[i].line)
                        continue
                    if o.kind == "cut" and not more:
                        continue
                    if o.kind == "raise" and not more:
                        ctx.check(
                            stop is True, "E03.contained", where,
                            "exception raised",
                            "an exception of the function of the work is raised "
                            "out of the task though it was not asked to stop at "
                            "the first error", fmt_trace(tr[it.idx:end]),
                            tr[i].line)
                    else:
                        ctx.ok("E03.contained", where, "caught")
                        none = out_is_none(tr, W)
                        dep = deposits(tr, W, i, end)
                        if none is not True:
                            ctx.check(
                                len(dep) == 1 and dep[0][3] == err,
                                "E03.replace", where, "result of a failed item",
                                "the exception does not take the place of the "
                                "result in the output queue",
                                fmt_trace(tr[it.idx:end]), tr[i].line)
                    why = reported(tr, i, end, err, W, it.key)
                    ctx.check(why is None, "E03.report", where,
                              "report of the error", f"{why}",
                              fmt_trace(tr[it.idx:end]), tr[i].line)
            if servers and not f_here:
                ctx.bad("E03.report", where, "errors of the servers",
                        "an exception of the function of a work executed by a "
                        "server is not recognised by the parent process, thus not "
                        "reported in the directory of the exceptions")
            elif not f_here:
                ctx.check(
                    not any(func_calls(o.st.trace, it.work) for o in outs
                            for it in pops(o.st.trace)),
                    "E03.contained", where, "failures",
                    "no path handles the failure of the function of the work")
        ctx.check(seen_failure, "E03.contained", f"{c.module.rel}:{c.name}",
                  "failures", f"{c.name}: no path handles the failures of works")


@register("E04")
def e04_stop(ctx):
    ctx.rule("E04.stop-if-error", "with stop_if_error, the exception is raised "
             "out of the task after the report, or the option is refused at the "
             "creation of the executor", 6)
    m = model(ctx)
    for c in m.classes:
        refused = refuses_stop(ctx, m, c)
        if refused:
            ctx.ok("E04.stop-if-error", c.name, "refused at creation")
            continue
        where0 = f"{c.module.rel}:{c.name}"
        if is_multi(m, c):
            ctx.bad("E04.stop-if-error", where0, "option ignored",
                    f"{c.name} accepts stop_if_error but cannot honour it")
            continue
        # the option has to be stored
        for r in m.roots(c):
            outs = report_outs(m, r)
            if not any(pops(o.st.trace) for o in outs):
                continue
            where = rshort(m, r)
            for o in outs:
                tr = o.st.trace
                ps = pops(tr)
                for n, it in enumerate(ps):
                    more = n + 1 < len(ps)
                    end = ps[n + 1].idx if more else len(tr)
                    fl = failures(m, tr, it.work, it.idx, end)
                    if not fl or fl[0][1] is None:
                        continue
                    i, err, kind = fl[0]
                    stop = stop_if_error(tr[i:end])
                    if o.kind == "cut" and not more:
                        continue
                    if stop is None:
                        ctx.bad("E04.stop-if-error", where, "option not tested",
                                "after a failure, stop_if_error is not taken into "
                                "account", fmt_trace(tr[it.idx:end]), tr[i].line)
                    elif stop:
                        ok = o.kind == "raise" and not more and (
                            o.val == err or o.val == ("exc", "Exception", err)
                        )
                        ctx.check(
                            ok, "E04.stop-if-error", where, "not raised",
                            "with stop_if_error the exception of the work is not "
                            "raised out of the task",
                            fmt_trace(tr[it.idx:end]), tr[i].line)
                        ctx.check(
                            reported(tr, i, end, err, it.work, it.key) is None,
                            "E04.stop-if-error", where, "not reported",
                            "with stop_if_error the exception is not reported "
                            "before being raised", fmt_trace(tr[it.idx:end]),
                            tr[i].line)


def init_outs(m, c):
    f = c.find_method("__init__")
    keep = lambda ev: ev.kind in ("setattr", "raise", "assume")
    I = Interp(m.p, m.policy(keep))
    I.policy.prune = relevant_functions(m.p, ("stop_if_error",), only=True)
    outs = I.run(f, self_term=("obj", "self", c.qual))
    m.ctx.seen(I)
    return f, outs


def refuses_stop(ctx, m, c):
    """True if the creation fails when stop_if_error is true; otherwise checks
    that the option is stored"""
    f, outs = init_outs(m, c)
    S = ("sym", "stop_if_error")
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    if "stop_if_error" not in names:
        ctx.bad("E04.stop-if-error", f.short, "no option",
                f"{c.name} does not accept stop_if_error")
        return True
    normal = [
        o for o in outs if o.kind == "return" and o.st.facts.get(S) is not False
    ]
    if not normal:
        return True
    for o in normal:
        val = None
        for e in o.st.trace:
            if e.kind == "setattr" and e.a[1] == "stop_if_error":
                val = e.a[2]
        if val is None:
            val = o.st.heap.get((("obj", "self", c.qual), "stop_if_error"))
        ok = val == S or (val == TRUE and o.st.facts.get(S) is True)
        ctx.check(ok, "E04.stop-if-error", f.short, "option lost",
                  f"{c.name}: the value of stop_if_error is not stored")
    return False


# ------------------------------------------------------------ compute paths
_comp = {}
COMPUTE_EXTRA = ("stdout", "stderr", "_log_file", "_path_lockfile", "errors",
                 "_poll_return_code", "exitcode", "poll", "workers", "terminate",
                 "num_expected_results")


def of_interest(x):
    return is_code(x) or x == const("time_end.txt") or (
        x[0] == "attr" and x[2] in (
            "_path_lockfile", "workers", "processes", "platform", "_log_file")
    ) or x in (("ext", "sys.platform"),)


def compute_outs(m, c, extra=COMPUTE_EXTRA):
    k = (c.qual, extra)
    if k not in _comp:
        f = c.find_method("compute")
        if f is None:
            raise AnalysisBroken(f"{c.name}.compute not found")
        def keep(ev):
            if ev.kind in ("raise", "spawn"):
                return True
            if ev.kind == "loop":
                return not any(
                    x in ("__init__", "_init_compute") for x in (ev.func.name,)
                )
            if ev.kind == "setattr":
                return ev.a[1] in ("stdout", "stderr")
            if ev.kind in ("assume", "iter", "exhausted"):
                return contains_if(ev.a[0], of_interest)
            if ev.kind == "call":
                return base_name(ev.a[0]) in (
                    "close", "unlink", "terminate", "signal", "remove",
                ) or contains_if(("tuple", (ev.a[0],) + ev.a[1]), of_interest)
            return False

        I = Interp(m.p, m.policy(keep))
        I.policy.prune = relevant_functions(m.p, extra, only=True)
        # the works themselves are analysed elsewhere
        loops = set()
        if not is_multi(m, c):
            ml = m.main_loop(c)
            if ml.name != "compute":
                loops.add(ml.key)
        I.policy.prune -= loops
        outs = I.run(f, self_term=("obj", "self", c.qual))
        m.ctx.seen(I)
        _comp[k] = (f, outs, I.cuts)
    return _comp[k]


@register("E04")
def e04_codes(ctx):
    ctx.rule("E04.return-codes", "a sub-process which ended is considered as "
             "successful only if its return code is known to be 0; otherwise "
             "compute raises, after having released its resources", 4)
    m = model(ctx)
    n = 0
    for c in m.classes:
        if not is_multi(m, c):
            continue
        f, outs, cuts = compute_outs(m, c)
        where = f.short
        for o in outs:
            tr = o.st.trace
            codes = {}
            for t, b, e in assumes(tr):
                if t[0] == "cmp" and t[1] == "is" and t[3] == NONE and not b and (
                    is_code(t[2])
                ):
                    codes[t[2]] = e
            failed = False
            unsure = None
            for x, e in codes.items():
                z = None
                for t, b, _ in assumes(tr):
                    if t == ("cmp", "==", x, const(0)):
                        z = b
                    elif t == x:
                        z = not b
                if z is False:
                    failed = True
                elif z is None:
                    unsure = e
            n += len(codes)
            path = fmt_trace(tr, 12)
            if o.kind == "return":
                ctx.check(not failed, "E04.return-codes", where,
                          "failure not escalated",
                          "compute returns normally though a sub-process failed",
                          path)
                ctx.check(unsure is None, "E04.return-codes", where,
                          "code not compared with 0",
                          "a sub-process which ended is considered as successful "
                          "though its return code may be non-zero", path,
                          unsure.line if unsure else None)
            elif o.kind == "raise" and codes:
                ctx.check(failed or unsure is not None, "E04.return-codes", where,
                          "raise without failure",
                          "compute raises though no sub-process failed", path)
                if failed:
                    ctx.check(restored(tr), "E04.return-codes", where,
                              "raise before release",
                              "the exception is raised before the standard "
                              "streams are restored", path)
                    ctx.check(unlocked(tr), "E04.return-codes", where,
                              "raise before unlock",
                              "the exception is raised before the lock file of "
                              "the job is removed", path)
    ctx.check(n > 0, "E04.return-codes", "executors", "return codes",
              "the return codes of the sub-processes are never looked at")


def is_code(t):
    return (t[0] == "attr" and t[2] in ("exitcode", "returncode")) or (
        t[0] == "call" and base_name(t[1]) in ("poll", "wait", "_poll_return_code")
    )


def std_state(tr, name):
    last = None
    for e in tr:
        if e.kind == "setattr" and e.a[0] in (("ext", "sys"), ("mod", "sys")) and (
            e.a[1] == name
        ):
            last = e.a[2]
    return last


def restored(tr, saved=None):
    for name in ("stdout", "stderr"):
        v = std_state(tr, name)
        if v is None or v[0] != "attr" or v[1][0] != "obj":
            return False
        if saved is not None and v[2] not in saved.get(name, {v[2]}):
            return False
    return True


def is_lock(t):
    return contains_if(t, lambda x: x[0] == "attr" and x[2] == "_path_lockfile")


def lock_tests(tr):
    for t, b, e in assumes(tr):
        if t[0] == "call" and base_name(t[1]) in ("exists", "is_file") and (
            is_lock(t)
        ):
            yield b, e


def lock_created(tr):
    def lock(t):
        return t[0] == "attr" and t[2] == "_path_lockfile" or (
            t[0] in ("call", "op") and is_lock(t) and not contains_if(
                t, lambda x: x[0] == "attr" and x[2] in ("with_name", "parent"))
        )

    return any(
        e.kind == "call" and base_name(e.a[0]) in ("open", "touch", "write_text")
        and (any(lock(a) for a in e.a[1][:1]) or (
            e.a[0][0] == "attr" and lock(e.a[0][1])))
        for e in tr
    )


def unlocked(tr):
    if not lock_created(tr):
        return True
    removed = any(
        e.kind == "call" and base_name(e.a[0]) in ("unlink", "remove")
        and (is_lock(e.a[0]) or any(is_lock(a) for a in e.a[1]))
        for e in tr
    )
    tests = list(lock_tests(tr))
    gone = bool(tests) and len(tests) > 1 and tests[-1][0] is False
    return removed or gone


@register("E06")
def e06_release(ctx):
    ctx.rule("E06.streams", "on each return path of compute, sys.stdout and "
             "sys.stderr are set back to the streams recorded when the executor "
             "was created, before they were replaced", 8)
    ctx.rule("E06.log-closed", "on each return path of compute, the log file is "
             "closed", 8)
    ctx.rule("E06.lock", "on each return path of compute where the lock file was "
             "created, it is removed and the end time is written; an existing "
             "lock file is refused", 8)
    ctx.rule("E06.servers", "all the servers are told to terminate", 1)
    m = model(ctx)
    for c in m.classes:
        f, outs, cuts = compute_outs(m, c)
        saved, ini = saved_streams(ctx, m, c)
        where = f.short
        ctx.check(
            all(saved.get(n) for n in ("stdout", "stderr")), "E06.streams",
            ini.short, "streams not recorded",
            f"{c.name}: the standard streams are not recorded before being "
            "replaced")
        nret = 0
        for o in outs:
            tr = o.st.trace
            path = fmt_trace([e for e in tr if e.kind in (
                "assume", "setattr", "raise")], 14)
            if o.kind != "return":
                continue
            nret += 1
            ctx.check(restored(tr, saved), "E06.streams", where,
                      "streams not restored",
                      f"{c.name}.compute returns without having restored the "
                      "standard streams", path)
            closed = any(
                e.kind == "call" and base_name(e.a[0]) == "close"
                and e.a[0][0] == "attr" and e.a[0][1][0] == "attr"
                and e.a[0][1][2] == "_log_file" for e in tr
            )
            ctx.check(closed, "E06.log-closed", where, "log file not closed",
                      f"{c.name}.compute returns without having closed the log "
                      "file", path)
            ctx.check(unlocked(tr), "E06.lock", where, "lock not removed",
                      f"{c.name}.compute returns though the lock file of the job "
                      "may still exist", path)
            if lock_created(tr):
                tests = list(lock_tests(tr))
                if tests and tests[-1][0]:
                    ctx.check(
                        any(e.kind == "call" and contains_if(
                            ("tuple", (e.a[0],) + e.a[1]),
                            lambda x: x == const("time_end.txt"))
                            and base_name(e.a[0]) in ("write_text", "open")
                            for e in tr),
                        "E06.lock", where, "end time",
                        "the end time of the job is not recorded", path)
                ctx.check(bool(tests) and tests[0][0] is False, "E06.lock", where,
                          "existing lock",
                          "a job directory which is already locked is not refused",
                          path)
            check_servers(ctx, m, c, where, tr, path)
        ctx.check(nret > 0, "E06.streams", where, "no return",
                  f"{c.name}.compute never returns")


def check_servers(ctx, m, c, where, tr, path):
    if not any(
        isinstance(n, ast.Attribute) and n.attr == "workers"
        and isinstance(n.ctx, ast.Store)
        for k in c.mro() for f in k.methods.values() for n in ast.walk(f.node)
    ):
        return
    def workers(t):
        return contains_if(t, lambda x: x[0] == "attr" and x[2] == "workers")

    exhausted = any(
        e.kind == "exhausted" and workers(e.a[0]) and e.a[1] == const(0)
        for e in tr[-40:]
    )
    term = any(
        e.kind == "call" and base_name(e.a[0]) == "terminate" and workers(e.a[0])
        for e in tr
    ) or any(
        e.kind == "call" and e.a[0][0] == "attr" and workers(e.a[0])
        and base_name(e.a[0]) in ("set",) for e in tr
    )
    # a loop over the workers followed by a termination of each of them
    its = [e for e in tr if e.kind == "iter" and workers(e.a[0])]
    last_sites = {}
    for i, e in enumerate(tr):
        if e.kind in ("iter", "exhausted") and workers(e.a[0]):
            last_sites[e.line] = i
    ok = term
    if not ok:
        # no worker on this path: a loop over them must still exist
        ok = any(
            e.kind == "exhausted" and workers(e.a[0]) and e.a[1] == const(0)
            for e in tr
        ) and len(last_sites) >= 2
    ctx.check(ok, "E06.servers", where, "servers not terminated",
              "the servers are not told to terminate", path)


def saved_streams(ctx, m, c):
    """attributes of self holding the initial values of sys.stdout/stderr"""
    f = c.find_method("__init__")
    keep = lambda ev: ev.kind == "setattr"
    I = Interp(m.p, m.policy(keep))
    I.policy.prune = relevant_functions(
        m.p, ("stdout", "stderr", "_log_file"), only=True)
    outs = I.run(f, self_term=("obj", "self", c.qual))
    ctx.seen(I)
    res = {}
    for name in ("stdout", "stderr"):
        init = ("attr", ("mod", "sys"), name)
        per = []
        for o in outs:
            if o.kind != "return":
                continue
            vals = {}
            for e in o.st.trace:
                if e.a[0][0] == "obj" and e.a[0][1] == "self":
                    vals[e.a[1]] = e.a[2]
            per.append({k for k, v in vals.items() if v in (
                init, ("ext", "sys." + name), ("attr", ("ext", "sys"), name))})
        res[name] = set.intersection(*per) if per else set()
    return res, f


# --------------------------------------------------------------------- E09
STOP_VALUE = {"_has_to_stop": True, "_has_to_continue": False}


def fact_running(facts):
    """the facts say that no stop is requested"""
    return any(
        about_stop(t) and stop_requested(t, b) is False for t, b in facts.items()
    )


@register("E09")
def e09_never_reset(ctx):
    ctx.rule("E09.never-reset", "once the executor is created, the request to "
             "stop is only ever set", 4)
    m = model(ctx)
    if True:
        for f in m.p.all_funcs():
            if not f.module.name.startswith("fluidimage.executors"):
                continue
            own = set(map(id, own_nodes(f.node)))
            for n in ast.walk(f.node):
                if not isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    continue
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tgts:
                    if not (isinstance(t, ast.Attribute) and t.attr in STOP_VALUE):
                        continue
                    v = n.value
                    if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                        good = v.value == STOP_VALUE[t.attr] or (
                            f.name == "__init__" and id(n) in own)
                        ctx.check(
                            good, "E09.never-reset", f.short,
                            f"{t.attr} = {v.value}",
                            f"{t.attr} is set back to {v.value}: a request to stop "
                            "received before is forgotten", line=n.lineno)
                    else:
                        txt = ast.unparse(v)
                        if t.attr in txt and isinstance(v, ast.BoolOp):
                            ctx.ok("E09.never-reset", f.short, txt)
                        else:
                            ctx.maybe("E09.never-reset", f.short, txt)
    # in the constructors: reset before the handler is registered
    for c in m.classes:
        f, outs = init_signal_outs(m, c)
        for o in outs:
            if o.kind != "return":
                continue
            reg = None
            for i, e in enumerate(o.st.trace):
                if is_registration(e):
                    reg = i if reg is None else reg
                if reg is not None and e.kind == "setattr" and (
                    e.a[1] in STOP_VALUE and e.a[0][0] == "obj"
                ):
                    ctx.check(
                        e.a[2] == const(STOP_VALUE[e.a[1]]), "E09.never-reset",
                        f.short, "reset after registration",
                        "the request to stop is reset after the handler of the "
                        "signal is registered", line=e.line)


def own_nodes(fnode):
    """nodes of a function without the ones of the nested functions"""
    todo = list(ast.iter_child_nodes(fnode))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


STOP_SIGNALS = (const(12), ("attr", ("mod", "signal"), "SIGUSR2"),
                ("ext", "signal.SIGUSR2"))


def is_registration(e):
    return (
        e.kind == "call" and e.a[0] == ("ext", "signal.signal")
        and len(e.a[1]) == 2 and e.a[1][0] in STOP_SIGNALS
    )


_sig = {}


def init_signal_outs(m, c):
    if c.qual not in _sig:
        f = c.find_method("__init__")
        keep = lambda ev: ev.kind in ("setattr", "assume") or is_registration(ev)
        I = Interp(m.p, m.policy(keep))
        I.policy.prune = relevant_functions(
            m.p, ("signal", "_has_to_stop"), only=True)
        outs = I.run(f, self_term=("obj", "self", c.qual))
        m.ctx.seen(I)
        _sig[c.qual] = (f, outs)
    return _sig[c.qual]


def win32(o):
    return any(
        b and t[0] == "cmp" and const("win32") in t[2:]
        for t, b in o.st.facts.items()
    )


@register("E09")
def e09_handlers(ctx):
    ctx.rule("E09.handler", "each executor registers, when it is created, a "
             "handler of the signal 12 which sets the request to stop", 8)
    ctx.rule("E09.transmit", "the handler of a multi-process executor sends the "
             "signal to each of its processes", 2)
    m = model(ctx)
    for c in m.classes:
        f, outs = init_signal_outs(m, c)
        done = False
        for o in outs:
            if o.kind != "return" or win32(o):
                continue
            done = True
            regs = [e for e in o.st.trace if is_registration(e)]
            ctx.check(bool(regs), "E09.handler", f.short, "no handler",
                      f"{c.name}: no handler is registered for the signal 12",
                      fmt_trace(o.st.trace, 6))
            for e in regs[-1:]:
                handler_sets(ctx, m, c, f, e.a[1][1], o.st)
        ctx.check(done, "E09.handler", f.short, "creation",
                  f"{c.name} is never created")
        if is_multi(m, c):
            f, outs, cuts = compute_outs(m, c)
            n = 0
            for o in outs:
                if o.kind != "return" or win32(o):
                    continue
                starts = [i for i, e in enumerate(o.st.trace)
                          if e.kind == "loop"]
                if not starts:
                    continue
                regs = [e for e in o.st.trace[:starts[0]] if is_registration(e)]
                ctx.check(bool(regs), "E09.transmit", f.short, "no handler",
                          "no handler transmitting the request to the processes "
                          "is registered before waiting for them")
                if regs and n == 0:
                    n += 1
                    handler_sets(ctx, m, c, f, regs[-1].a[1][1], o.st, True)


def handler_sets(ctx, m, c, f, h, st0, transmit=False):
    func = m.func_of(h)
    if func is None:
        ctx.maybe("E09.handler", f.short, "unknown handler " + show(h))
        return
    I = Interp(m.p, m.policy(None))
    st = State()
    st.env = {k: dict(v) for k, v in st0.env.items()}
    I.frame_count = 20000
    args = (("sym", "signum"), ("sym", "frame"))
    if h[0] == "bound":
        outs = I.call_function(func, h[2][2], (h[1],) + args, {}, st, func.node)
    else:
        clo = h[2]
        outs = I.call_function(func, clo, args, {}, st, func.node)
    ctx.seen(I)
    rule = "E09.transmit" if transmit else "E09.handler"
    for o in outs:
        tr = o.st.trace
        path = fmt_trace(tr)
        ok = o.kind == "return" and any(
            e.kind == "setattr" and e.a[1] in STOP_VALUE
            and e.a[2] == const(STOP_VALUE[e.a[1]])
            and e.a[0][0] == "obj" for e in tr
        )
        ctx.check(ok, rule, func.short, "request not recorded",
                  "the handler of the signal does not record the request to stop",
                  path)
        if transmit:
            its = [
                (i, e) for i, e in enumerate(tr) if e.kind == "iter"
                and contains_if(e.a[0], lambda x: x[0] == "attr"
                                and x[2] == "processes")
            ]
            ex = any(
                e.kind == "exhausted" and contains_if(
                    e.a[0], lambda x: x[0] == "attr" and x[2] == "processes")
                for e in tr
            )
            ctx.check(bool(its) or ex, "E09.transmit", func.short, "processes",
                      "the request is not transmitted to the processes", path)
            kills = [
                e for e in tr if e.kind == "call" and base_name(e.a[0]) in
                ("kill", "send_signal")
            ]
            for i, e in its:
                good = [
                    k for k in kills if contains_if(
                        ("tuple", (k.a[0],) + k.a[1]),
                        lambda x: x[0] in ("elem", "val", "item") and contains(
                            x, e.a[0]) or x == ("elem", e.a[0]))
                    or contains_if(("tuple", (k.a[0],) + k.a[1]),
                                   lambda x: x[0] == "attr"
                                   and x[2] == "processes")
                ]
                sig = [
                    k for k in good if k.a[1] and (
                        k.a[1][-1] == ("sym", "signum")
                        or k.a[1][-1] in STOP_SIGNALS)
                ]
                ctx.check(bool(good), "E09.transmit", func.short, "no kill",
                          "a process does not receive the signal", path)
                ctx.check(bool(sig) or not good, "E09.transmit", func.short,
                          "other signal", "the processes receive another signal",
                          path)


@register("E09")
def e09_loops(ctx):
    ctx.rule("E09.loops", "each iteration of each waiting or launching loop tests "
             "the request to stop", 10)
    ctx.rule("E09.no-new-work", "no work is started between the moment when the "
             "request is seen and the end of the loop, and a work is started "
             "only in an iteration which tested the request", 6)
    m = model(ctx)

    def starts(e):
        if e.kind == "spawn":
            return True
        return e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in (
            "func_or_cls", "popitem")

    def look(outs, where, kind):
        for o in outs:
            tr = o.st.trace
            for seg, last in iterations2(tr):
                if not isinstance(seg[0].node, ast.While):
                    continue
                tested = any(
                    e.kind == "assume" and about_stop(e.a[0]) for e in seg
                ) or fact_running(last.facts) or fact_running(seg[0].facts)
                ctx.check(tested, "E09.loops", where,
                          "loop without test of the request",
                          "an iteration of this loop does not test the request to "
                          "stop: it may go on after the request",
                          fmt_trace(seg), seg[0].line)
                seen = fact_running(seg[0].facts)
                for e in seg:
                    if e.kind == "assume" and about_stop(e.a[0]):
                        r = stop_requested(e.a[0], e.a[1] == TRUE)
                        seen = seen or r is False
                    if starts(e):
                        ctx.check(seen, "E09.no-new-work", where,
                                  "work started without test",
                                  "a work is started in an iteration which did "
                                  "not test the request to stop before",
                                  fmt_trace(seg), e.line)
            asked = False
            for e in tr:
                if e.kind == "assume" and about_stop(e.a[0]):
                    if stop_requested(e.a[0], e.a[1] == TRUE):
                        asked = True
                elif e.kind in ("await", "thread"):
                    pass
                elif asked and starts(e):
                    ctx.bad("E09.no-new-work", where, "work started after a stop",
                            "a work is started though the request to stop was "
                            "seen", fmt_trace(tr), e.line)

    for c in simple_executors(m):
        for r in m.roots(c):
            if r.kind == "task" and any(
                pops(o.st.trace) for o in outs_of(m, r)
            ):
                continue
            look(outs_of(m, r), rshort(m, r), r.kind)
    try:
        info = server_model(ctx, m)
    except AnalysisBroken:
        return
    for name, outs in info.get("methods", {}).items():
        f = info["cls"].methods[name]
        for o in outs:
            for seg, last in iterations2(o.st.trace):
                if not isinstance(seg[0].node, ast.While):
                    continue
                tested = any(
                    e.kind == "assume" and about_stop(e.a[0]) for e in seg
                ) or fact_running(last.facts) or fact_running(seg[0].facts)
                ctx.check(tested, "E09.loops", f.short,
                          "loop without test of the request",
                          "an iteration of this loop of the servers does not test "
                          "the request to stop", fmt_trace(seg), seg[0].line)


def iterations2(tr):
    """(events of an iteration, event starting the next one)"""
    res = []
    by = {}
    for i, e in enumerate(tr):
        if e.kind in ("loop", "cut"):
            if id(e.node) in by:
                res.append((tr[by[id(e.node)]:i], e))
            by[id(e.node)] = i
            if e.kind == "cut":
                by.pop(id(e.node), None)
    return [s for s in res if s[0]]
