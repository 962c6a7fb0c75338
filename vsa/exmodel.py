"""Model of the executors, extracted from the source.

Discovers, for each executor class, the functions which run as asynchronous
tasks (closures stored in the table of async functions, functions started in
the nursery, transitively) and provides their abstract paths.
"""

import ast

from .interp import Event, Interp, Out, Policy, State
from .project import AnalysisBroken, ClassInfo
from .terms import (
    FALSE, NONE, TRUE, const, contains, contains_if, is_const, show, walk,
)

WORK = ("sym", "work")


class ExecPolicy(Policy):
    unroll = 1
    keep_kinds = None

    def __init__(self, project, keep=None, unroll=1, dynamic=()):
        self.p = project
        self.Work = project.find_class("Work", "topologies.base")
        self.Queue = project.find_class("Queue", "topologies.base")
        self.Worker = project.find_class("WorkerMultiprocessing")
        self._keep = keep
        self.unroll = unroll
        self.dynamic = set(dynamic)
        self.self_term = None

    prune = None

    def should_inline(self, func, interp, st):
        if self.prune is None or func.parent is not None:
            return True
        if func.is_async or func.is_gen or func.name == "__init__":
            return True
        return func.key in self.prune

    def keep(self, ev):
        if self._keep is not None:
            return self._keep(ev)
        return True

    def type_of(self, term, interp, st):
        k = term[0]
        if term == WORK:
            return self.Work
        if term == ("sym", "worker"):
            return self.Worker
        if k == "sym" and term[1] == "available_worker":
            return self.Worker
        if k in ("elem", "val"):
            it = term[1]
            if _mentions_attr(it, "works"):
                return self.Work
            if _mentions_attr(it, "workers"):
                return self.Worker
        if k == "item":
            if _mentions_attr(term[1], "works_dict"):
                return self.Work
            if _mentions_attr(term[1], "workers") or _mentions_attr(
                term[1], "works"
            ):
                return (
                    self.Worker
                    if _mentions_attr(term[1], "workers")
                    else self.Work
                )
        if k == "attr" and term[2] in ("input_queue", "output_queue"):
            base = term[1]
            if base == WORK or self.type_of(base, interp, st) is self.Work:
                return self.Queue
        if k == "call" and term[1] == ("sym", "nothing"):
            return None
        return None

    def volatile(self, t):
        if t[0] in ("forall",):
            return True
        if t[0] == "attr" and t[2] in ("input_queue", "output_queue"):
            return True
        if t[0] == "cmp" and t[1] != "is":
            return any(
                (x[0] == "call" and x[1] == ("ext", "len"))
                or (x[0] == "attr" and x[2] in self.dynamic)
                or x[0] == "vol"
                for x in walk(t)
            )
        if t[0] == "attr" and t[2] in self.dynamic:
            return True
        if t[0] in ("vol", "elem"):
            return True
        return False

    def after_await(self, interp, st):
        n = st.counts.get("#await", 0)
        st.counts["#await"] = n + 1
        for k in list(st.heap):
            if k[1] in self.dynamic:
                st.heap[k] = ("vol", k[0], k[1], n)

    def may_raise(self, fterm, args, kwargs, st, node, interp):
        if fterm[0] == "attr":
            if fterm[2] == "func_or_cls" and len(args) == 1:
                return ("AnyException",)
            if fterm[2] in ("popitem",):
                if st.facts.get(fterm[1]) is True:
                    return ()
                return ("KeyError",)
        if fterm == ("sym", "func"):
            return ("AnyException",)
        return ()

    def on_call(self, interp, fterm, args, kwargs, st, node):
        if fterm == ("ext", "trio.run") and args:
            out = []
            for v, s in interp.call(args[0], tuple(args[1:]), {}, st, node):
                if v[0] == "coro":
                    f = interp.p.funcs_by_key[v[1][1]]
                    for o in interp.call_function(
                        f, v[1][2], v[2], dict(v[3]), s, node
                    ):
                        if o.kind == "raise":
                            interp._raise(o.val, o.st)
                        else:
                            out.append((o.val, o.st))
                else:
                    out.append((v, s))
            return out
        if fterm[0] == "attr" and fterm[2] == "start_soon":
            interp.emit(st, "spawn", tuple(args), node)
            return [(NONE, st)]
        if fterm[0] == "attr" and fterm[2] == "partial":
            return None
        return None


def _mentions_attr(t, name):
    return any(x[0] == "attr" and x[2] == name for x in walk(t))


def executor_classes(p):
    """classes registered as `Executor = Cls` in the modules of executors"""
    res = []
    for m in p.modules.values():
        if not m.name.startswith("fluidimage.executors"):
            continue
        node = m.globals.get("Executor")
        if isinstance(node, ast.Name):
            t = p.resolve(m, node.id)
            if t[0] == "class":
                res.append(p.classes_by_qual[t[1]])
    if len(res) < 6:
        raise AnalysisBroken("less than 6 executor classes found")
    return res


def dynamic_attrs(p):
    """attributes written outside of __init__ by executors, servers, workers"""
    res = set()
    for m in p.modules.values():
        if not m.name.startswith("fluidimage.executors"):
            continue
        funcs = list(m.funcs.values())
        for c in m.classes.values():
            funcs += c.methods.values()
        for f in funcs:
            skip = f.name == "__init__"
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if not skip:
                        res.add(n.attr)
                    elif n.attr == "_has_to_stop":
                        res.add(n.attr)
    return res - {"nursery", "t_start", "input_queue", "output_queue"}


_CALL_NAMES = {
    "popitem", "pop", "popleft", "func_or_cls", "append", "send", "recv",
    "terminate", "put", "get", "put_nowait", "get_nowait", "update",
    "__setitem__", "setdefault", "clear", "set", "is_set", "cancel", "kill",
}
_TERM_ATTRS = {
    "input_queue", "output_queue", "stop_if_error", "queues", "workers",
    "_has_to_stop", "_has_to_continue", "kind",
}


RELEVANT = {
    "input_queue", "output_queue", "func_or_cls", "queues", "popitem", "send",
    "recv", "terminate", "_has_to_stop", "_has_to_continue", "is_available",
    "is_unoccupied", "nb_items_to_process", "_eat_key_value", "conn",
    "stop_if_error", "event_has_to_stop", "to_be_processed", "to_be_resent",
    "start_soon", "kind",
}


def relevant_functions(p, extra=(), only=False):
    """functions which may, transitively, act on the items or on the state of
    the executor (closure over the names of functions)"""
    names = set(extra) if only else RELEVANT | set(extra)
    funcs = list(p.all_funcs())
    uses = {}
    calls = {}
    for f in funcs:
        a, c = set(), set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                a.add(n.attr)
                c.add(n.attr)
            elif isinstance(n, ast.Name):
                c.add(n.id)
        uses[f.key] = bool(a & names) or not only and any(
            x.startswith("nb_working") for x in a
        )
        calls[f.key] = c
    rel = {k for k, v in uses.items() if v}
    byname = {}
    for f in funcs:
        byname.setdefault(f.name, []).append(f.key)
        if f.name == "__init__" and f.cls is not None:
            byname.setdefault(f.cls.name, []).append(f.key)
    changed = True
    while changed:
        changed = False
        relnames = {n for n, ks in byname.items() if any(k in rel for k in ks)}
        relnames -= {"__init__", "compute", "main"}
        for f in funcs:
            if f.key not in rel and calls[f.key] & relnames:
                rel.add(f.key)
                changed = True
    return rel


def item_events(dynamic):
    """events kept when items are followed"""
    _cache = {}

    def relevant(t):
        r = _cache.get(t)
        if r is None:
            r = any(
                (x[0] == "attr" and (
                    x[2] in _TERM_ATTRS or "eat" in str(x[2])
                    or str(x[2]).startswith("nb_")
                    or str(x[2]).startswith("is_")
                ))
                or (x[0] == "attr" and x[2] in dynamic)
                or (x[0] == "call" and x[1] == ("ext", "isinstance"))
                or x == ("const", "eat key value", "str")
                for x in walk(t)
            )
            _cache[t] = r
        return r

    def keep(ev):
        k = ev.kind
        if k in ("await", "thread", "spawn", "raise", "call_raised", "delitem",
                 "loop", "cut", "coro_dropped", "except"):
            return True
        if k == "setattr":
            return ev.a[1] in dynamic or ev.a[1] == "t_start"
        if k == "setitem":
            return relevant(ev.a[0])
        if k == "assume":
            return relevant(ev.a[0])
        if k == "call":
            ft = ev.a[0]
            if ft[0] == "attr":
                return ft[2] in _CALL_NAMES or relevant(ft[1])
            if ft[0] == "sym":
                return True
            return any(a == "target" for a, _ in ev.a[2])
        return False

    return keep


class Root:
    def __init__(self, cls, fterm, args, st, origin, kind):
        self.cls = cls
        self.fterm = fterm
        self.args = args
        self.st = st
        self.origin = origin  # event that spawned it or None
        self.kind = kind
        self.parent = None


class ExecModel:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.p
        self.dynamic = dynamic_attrs(self.p)
        self.classes = executor_classes(self.p)
        self._roots = {}
        self._rel = {}

    # -- running -------------------------------------------------------
    def func_of(self, fterm):
        if fterm[0] == "bound":
            return self.p.funcs_by_key[fterm[2][1]]
        if fterm[0] == "func":
            return self.p.funcs_by_key[fterm[1]]
        if fterm[0] == "partial":
            return self.func_of(fterm[1])
        return None

    def policy(self, keep=None, unroll=1):
        return ExecPolicy(self.p, keep, unroll, self.dynamic)

    def relevant(self, extra=()):
        k = tuple(sorted(extra))
        if k not in self._rel:
            self._rel[k] = relevant_functions(self.p, extra)
        return self._rel[k]

    def main_loop(self, cls):
        """the method with the main loop of a sequential executor"""
        todo = ["compute"]
        seen = set()
        while todo:
            n = todo.pop(0)
            if n in seen:
                continue
            seen.add(n)
            f = cls.find_method(n)
            if f is None:
                continue
            if any(isinstance(x, ast.While) for x in ast.walk(f.node)) and (
                f.key in self.relevant()
            ):
                return f
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(
                    x.value, ast.Name
                ) and x.value.id == "self":
                    todo.append(x.attr)
        return cls.find_method("compute")

    def run_root(self, root, keep=None, unroll=1, policy=None, extra=None):
        I = Interp(self.p, policy or self.policy(keep, unroll))
        if extra is not None:
            I.policy.prune = self.relevant(extra)
        st = State()
        st.env = {k: dict(v) for k, v in root.st.env.items()}
        I.frame_count = 10000
        fterm, args = root.fterm, tuple(root.args)
        while fterm[0] == "partial":
            args = tuple(fterm[2]) + args
            fterm = fterm[1]
        f = self.func_of(fterm)
        if fterm[0] == "bound":
            outs = I.call_function(f, fterm[2][2], (fterm[1],) + args, {}, st, f.node)
        else:
            outs = I.call_function(f, fterm[2], args, {}, st, f.node)
        self.ctx.seen(I)
        return outs + I.cuts

    def run_method(self, cls, name, keep=None, unroll=1, args=None, policy=None):
        m = cls.find_method(name)
        if m is None:
            raise AnalysisBroken(f"{cls.name}.{name} not found")
        I = Interp(self.p, policy or self.policy(keep, unroll))
        outs = I.run(m, args=args, self_term=("obj", "self", cls.qual))
        self.ctx.seen(I)
        return outs + I.cuts

    # -- async tasks ------------------------------------------------------
    def is_async(self, cls):
        return any(r.kind == "task" for r in self.roots(cls))

    def roots(self, cls):
        if cls.qual in self._roots:
            return self._roots[cls.qual]
        keep = lambda ev: ev.kind in ("setitem", "spawn")
        roots = []
        seen = set()
        self_t = ("obj", "self", cls.qual)

        def add(fterm, args, st, origin, parent=None):
            f = self.func_of(fterm)
            if f is None:
                return
            key = (f.qual, tuple(show(a) for a in args))
            if key in seen:
                return
            seen.add(key)
            r = Root(cls, fterm, args, st, origin, "task")
            r.parent = parent
            roots.append(r)
            todo.append(r)

        todo = []
        # table of the async functions, filled when the executor is created
        try:
            outs = self.run_method(cls, "__init__", keep)
        except AnalysisBroken:
            outs = []
        table = []
        for o in outs:
            if o.kind != "return":
                continue
            for ev in o.st.trace:
                if ev.kind == "setitem" and ev.a[2][0] in ("func", "bound", "partial"):
                    table.append((ev.a[2], o.st, ev))
        # tasks started by compute
        outs = self.run_method(cls, "compute", keep)
        base = State()
        uses_table = False
        for o in outs:
            for ev in o.st.trace:
                if ev.kind == "spawn" and ev.a:
                    if ev.a[0][0] in ("func", "bound", "partial"):
                        add(ev.a[0], ev.a[1:], o.st, ev)
                    else:
                        uses_table = True
        if uses_table:
            pol = self.policy()

            def is_work(v):
                return (
                    isinstance(v, tuple)
                    and v[0] in ("elem", "val", "item", "sym")
                    and (v == WORK or pol.type_of(v, None, None) is pol.Work)
                )

            for ft, st, ev in table:
                f = self.func_of(ft)
                args = ()
                st2 = State()
                st2.env = {k: dict(v) for k, v in st.env.items()}
                for fr in st2.env.values():
                    for n, v in list(fr.items()):
                        if n == "work" or is_work(v):
                            fr[n] = WORK
                if f is not None and f.parent is not None:
                    a = f.node.args
                    names = [x.arg for x in a.args]
                    dflt = dict(zip(names[len(names) - len(a.defaults):],
                                    a.defaults))
                    clo = ft[2] if ft[0] == "func" else None
                    if isinstance(clo, tuple):
                        clo = clo[1]
                    frame = st.env.get(clo, {})
                    args = tuple(
                        WORK
                        if n == "work" or (
                            isinstance(dflt.get(n), ast.Name)
                            and is_work(frame.get(dflt[n].id, NONE))
                        )
                        else ("sym", n)
                        for n in names
                    )
                add(ft, args, st2, ev)
        while todo:
            r = todo.pop()
            try:
                outs = self.run_root(r, keep, 1)
            except AnalysisBroken:
                continue
            for o in outs:
                for ev in o.st.trace:
                    if ev.kind == "spawn" and ev.a and ev.a[0][0] in (
                        "func", "bound", "partial",
                    ):
                        args = ev.a[1:]
                        f = self.func_of(ev.a[0])
                        names = [a.arg for a in f.node.args.args]
                        if f.cls is not None:
                            names = names[1:]
                        args = tuple(
                            a if a[0] == "sym" or contains_if(
                                a, lambda t: t[0] == "attr"
                                and t[2] == "input_queue"
                            ) else ("sym", "worker")
                            for n, a in zip(names, args)
                        )
                        st2 = o.st
                        add(ev.a[0], args, st2, ev, r)
        if not roots:
            # sequential executor: the computation itself
            r = Root(cls, ("bound", self_t, ("func", self.main_loop(cls).key,
                                            None)), (), State(), None, "main")
            roots.append(r)
        self._roots[cls.qual] = roots
        return roots


def linear(t):
    """linear form {atom: coef} of an arithmetic term"""
    if t[0] == "const" and isinstance(t[1], (int, float)):
        return {1: t[1]}
    if t[0] == "op" and t[1] in "+-":
        a, b = linear(t[2]), linear(t[3])
        s = 1 if t[1] == "+" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v != 0}
    if t[0] == "neg":
        return {k: -v for k, v in linear(t[1]).items()}
    return {t: 1}


def delta(new, old):
    """constant difference new - old or None"""
    r = linear(("op", "-", new, old))
    if not r:
        return 0
    if list(r) == [1]:
        return r[1]
    return None
