"""What happens to each item taken from a queue (per-item typestate).

From the abstract paths of the tasks of an executor, the events concerning one
item (removed from the input queue, handed to the function of the work,
deposited in the output queue) are collected and classified.
"""

from .exmodel import WORK
from .terms import (
    FALSE, NONE, TRUE, const, contains, contains_if, is_const, mk_item, show,
    strip_uid, walk,
)


def queue_of(term, which):
    """W if term is W.<which>"""
    if term[0] == "attr" and term[2] == which:
        return term[1]
    return None


class Item:
    def __init__(self, work, key, obj, ev, idx, origin):
        self.work = work
        self.key = key
        self.obj = obj
        self.ev = ev
        self.idx = idx
        self.origin = origin  # term of the removal


def pops(trace):
    """items removed from the input queue of a work"""
    res = []
    for i, ev in enumerate(trace):
        if ev.kind == "call":
            ft, args, kws, val = ev.a
            if ft[0] != "attr":
                continue
            W = queue_of(ft[1], "input_queue")
            if W is None:
                continue
            if i + 1 < len(trace) and trace[i + 1].kind == "call_raised" and (
                trace[i + 1].a[0] == ft
            ):
                continue
            if ft[2] == "popitem":
                res.append(Item(W, mk_item(val, const(0)), mk_item(val, const(1)),
                                ev, i, val))
            elif ft[2] == "pop" and args:
                res.append(Item(W, args[0], val, ev, i, val))
        elif ev.kind == "delitem":
            W = queue_of(ev.a[0], "input_queue")
            if W is not None:
                res.append(Item(W, ev.a[1], mk_item(ev.a[0], ev.a[1]), ev, i,
                                ev.a[1]))
    return res


def same(a, b):
    return strip_uid(a) == strip_uid(b)


def func_calls(trace, W, start=0, end=None):
    """direct calls of W.func_or_cls"""
    res = []
    for i, ev in enumerate(trace[start:end], start):
        if ev.kind == "call" and ev.a[0] == ("attr", W, "func_or_cls"):
            res.append((i, ev))
    return res


def remote_calls(trace, W, start=0, end=None):
    """W.func_or_cls given to a process or a thread as argument of a function"""
    res = []
    f = ("attr", W, "func_or_cls")
    for i, ev in enumerate(trace[start:end], start):
        if ev.kind != "call" or ev.a[0] == f:
            continue
        kws = dict(ev.a[2])
        target = kws.get("target")
        args = kws.get("args")
        if target is None or args is None:
            continue
        items = args[1] if args[0] == "tuple" else ()
        if target == f:
            res.append((i, ev, target, items))
        elif f in items:
            res.append((i, ev, target, items))
    return res


def deposits(trace, W, start=0, end=None):
    res = []
    for i, ev in enumerate(trace[start:end], start):
        if ev.kind == "setitem" and queue_of(ev.a[0], "output_queue") == W:
            res.append((i, ev, ev.a[1], ev.a[2]))
        elif ev.kind == "call" and ev.a[0][0] == "attr" and (
            queue_of(ev.a[0][1], "output_queue") == W
        ):
            name = ev.a[0][2]
            if name in ("__setitem__", "setdefault") and len(ev.a[1]) == 2:
                res.append((i, ev, ev.a[1][0], ev.a[1][1]))
            elif name == "update":
                res.append((i, ev, None, None))
    return res


def assumes(trace, start=0, end=None):
    for ev in trace[start:end]:
        if ev.kind == "assume":
            yield ev.a[0], ev.a[1] == TRUE, ev


def truth_of(trace, pred, start=0, end=None):
    """last assumed truth of a term satisfying pred (None if not tested)"""
    r = None
    for t, b, _ in assumes(trace, start, end):
        if pred(t):
            r = b
    return r


def is_exc_test(obj):
    def pred(t):
        return (
            t[0] == "call" and t[1] == ("ext", "isinstance") and t[2]
            and t[2][0] == obj
        )
    return pred


def out_is_none(trace, W, start=0, end=None):
    q = ("attr", W, "output_queue")
    r = truth_of(trace, lambda t: t == ("cmp", "is", q, NONE), start, end)
    return r


def stop_if_error(trace):
    return truth_of(trace, lambda t: t[0] == "attr" and t[2] == "stop_if_error")


def eats_key(trace, W):
    return truth_of(trace, lambda t: t == ("attr", W, "_eat_key_value"))
