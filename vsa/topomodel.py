"""Graphs of the topologies, extracted from their constructors.

The constructor of each topology class is interpreted (add_queue and add_work
included, processing classes opaque); each abstract path gives one graph:
queues, works and what they are connected to.
"""

import ast

from .interp import Interp, Out, Policy, State
from .project import AnalysisBroken
from .terms import NONE, TRUE, FALSE, const, contains_if, is_const, show, walk


class TopoPolicy(Policy):
    unroll = 1
    max_states = 20000

    def __init__(self, project, only=None):
        self.p = project
        self.names = {"Work", "Queue", "QueueList"}

    def should_inline(self, func, interp, st):
        if func.cls is None:
            # helper functions of the modules of the topologies
            return func.parent is not None or (
                func.module.name.startswith("fluidimage.topologies")
                and any(
                    isinstance(n, ast.Attribute) and n.attr in (
                        "add_queue", "add_work", "queues", "works")
                    for n in ast.walk(func.node)
                )
            )
        if func.cls.name in self.names:
            return True
        if not any(c.name == "TopologyBase" for c in func.cls.mro()):
            return False
        if func.name == "__init__":
            return True
        return any(
            isinstance(n, ast.Attribute) and n.attr in (
                "add_queue", "add_work", "queues", "works", "works_dict",
                "results",
            )
            for n in ast.walk(func.node)
        )

    def keep(self, ev):
        return ev.kind in ("raise",)


class GWork:
    def __init__(self, term, name, func, inq, outq, kind, line, multi=(0, 0)):
        self.in_multi, self.out_multi = multi
        self.term = term
        self.name = name
        self.func = func
        self.inq = inq  # tuple of queue terms
        self.outq = outq
        self.kind = kind  # tuple of strings
        self.line = line

    def __repr__(self):
        return f"<{self.name}: {len(self.inq)}->{len(self.outq)} {self.kind}>"

    def has(self, k):
        return any(k in x for x in self.kind)

    @property
    def per_item(self):
        return not (self.has("global") or self.has("one shot"))


class Graph:
    def __init__(self, cls, queues, works, facts, st, self_t, interp):
        self.cls = cls
        self.queues = queues
        self.works = works
        self.facts = facts
        self.st = st
        self.self_t = self_t
        self.interp = interp

    def qname(self, q):
        n = self.st.heap.get((q, "name"))
        return n[1] if n is not None and is_const(n) else show(q)

    @property
    def options(self):
        """the branches of the constructor which give this graph"""
        res = []
        for k, v in self.facts.items():
            if contains_if(k, lambda t: t[0] == "attr"):
                res.append((k, v))
        return res

    def label(self):
        return ", ".join(
            f"{show(k)}={v}" for k, v in sorted(self.options, key=repr)
        )

    def producers(self, q):
        return [w for w in self.works if q in w.outq]

    def consumers(self, q):
        return [w for w in self.works if q in w.inq]


def topology_classes(p):
    base = p.find_class("TopologyBase", "topologies.base")
    res = []
    for c in p.subclasses("TopologyBase", strict=True):
        init = c.find_method("__init__")
        if init is None or init.cls is base:
            continue
        if not uses_works(p, c):
            continue
        res.append(c)
    if len(res) < 4:
        raise AnalysisBroken("less than 4 topology classes found")
    return res


def uses_works(p, c):
    for k in c.mro():
        if k.name == "TopologyBase":
            continue
        for f in k.methods.values():
            if any(isinstance(n, ast.Attribute) and n.attr == "add_work"
                   for n in ast.walk(f.node)):
                return True
    return False


def queues_of(t, I, st):
    if t is None or t == NONE:
        return ()
    items = I.items_of(t, st) if t[0] in ("tuple", "list", "lst") else None
    if items is not None:
        return tuple(items)
    return (t,)


def is_several(t, I, st):
    """the work is given a tuple (or list) of queues"""
    return t[0] in ("tuple", "list", "lst") and I.items_of(t, st) is not None


_graphs = {}


def graphs(ctx, cls):
    key = (id(ctx.p), cls.qual)
    if key in _graphs:
        return _graphs[key]
    p = ctx.p
    I = Interp(p, TopoPolicy(p))
    self_t = ("obj", "self", cls.qual)
    outs = I.run(cls.find_method("__init__"), self_term=self_t)
    ctx.seen(I)
    res = []
    raised = 0
    for o in outs:
        if o.kind == "raise":
            raised += 1
            continue
        st = o.st
        wl = st.heap.get((self_t, "works"))
        ql = st.heap.get((self_t, "queues"))
        works = I.items_of(wl, st) if wl is not None else None
        queues = I.items_of(ql, st) if ql is not None else None
        if works is None or queues is None:
            raise AnalysisBroken(f"graph of {cls.name} not found")
        ws = []
        for w in works:
            g = lambda a: st.heap.get((w, a), I.get_attr(w, a, st))
            nm = g("name")
            kd = g("kind")
            if kd == NONE:
                kinds = ()
            elif is_const(kd):
                kinds = (kd[1],)
            else:
                its = queues_of(kd, I, st)
                kinds = tuple(x[1] for x in its if is_const(x))
            ws.append(GWork(w, nm[1] if is_const(nm) else show(nm),
                            g("func_or_cls"), queues_of(g("input_queue"), I, st),
                            queues_of(g("output_queue"), I, st), kinds, 0,
                            tuple(is_several(g(a), I, st) for a in (
                                "input_queue", "output_queue"))))
        res.append(Graph(cls, tuple(queues), ws, dict(st.facts), st, self_t, I))
    _graphs[key] = res
    return res
