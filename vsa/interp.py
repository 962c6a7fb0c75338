"""Path-sensitive abstract interpreter over the Python syntax tree.

A forward dataflow analysis in the style of property simulation: the abstract
state of a program point is a *set* of (symbolic environment, symbolic heap,
branch facts, event history) tuples.  Values are symbolic def-use terms (value
numbering), no concrete execution and no solver is involved.  Loops are
analysed for 0..K iterations (K is in the policy, and reported as a bound);
project functions are analysed in the context of their call sites, everything
else is opaque and appears as a ``call`` event.
"""

import ast
import builtins

from .atomic import temporary_writer
from .project import AnalysisBroken, ClassInfo, FuncInfo, Project
from .terms import (
    NONE, TRUE, FALSE, UNKNOWN, const, is_const, mk_attr, mk_binop, mk_cmp,
    mk_not, mk_fstr, mk_item, mk_len, const_fold_method, strip_uid, truth_const,
)


class Event:
    __slots__ = ("kind", "a", "node", "func", "facts", "stack")

    def __init__(self, kind, a, node=None, func=None, facts=None, stack=()):
        self.kind = kind
        self.a = a
        self.node = node
        self.func = func
        self.facts = facts
        self.stack = stack

    def key(self):
        return (self.kind, self.a)

    def __eq__(self, other):
        return self.kind == other.kind and self.a == other.a and (
            self.node is other.node
        )

    def __hash__(self):
        return hash((self.kind, self.a, id(self.node)))

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        if self.func is None:
            return f"?:{self.line}"
        return f"{self.func.module.rel}:{self.line} in {self.func.qual.split('.')[-1] if self.func.cls is None else self.func.cls.name + '.' + self.func.name}"

    def __repr__(self):
        from .terms import show

        return f"{self.kind}({', '.join(show(x) for x in self.a)})"


class Trace(tuple):
    """event history with an incrementally computed hash"""

    h = 0

    def add(self, ev):
        t = Trace(tuple(self) + (ev,))
        t.h = hash((self.h, ev))
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other or (
            self.h == other.h and tuple.__eq__(self, other)
        )

    def __ne__(self, other):
        return not self == other


EMPTY = Trace()


def renumber(t, it, n):
    """element n of a comprehension: its term for the any element "*" of it"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] in ("elem", "idx", "key", "val") and t[2] == "*" and (
        t[1] == it or t[1] in it
    ):
        return t[:2] + (n,)
    return tuple(renumber(x, it, n) for x in t)


class State:
    __slots__ = ("env", "heap", "facts", "trace", "counts", "pending", "exc")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.trace = EMPTY
        self.counts = {}
        self.pending = None
        self.exc = ()

    def copy(self):
        s = State()
        s.env = {k: dict(v) for k, v in self.env.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.counts = dict(self.counts)
        s.pending = self.pending
        s.exc = self.exc
        return s

    def key_nofacts(self):
        return (
            frozenset(
                (k, frozenset(v.items())) for k, v in self.env.items()
            ),
            frozenset(self.heap.items()),
            self.trace,
            self.exc,
            self.pending,
        )


class Out:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind = kind
        self.val = val
        self.st = st


class Policy:
    """Rule-specific parameters of the analysis"""

    max_depth = 12
    unroll = 2
    max_states = 4000
    soft_states = 200
    range_enum = 4
    track_unbound = False
    transparent_writers = True

    def should_inline(self, func, interp, st):
        return True

    def may_raise(self, fterm, args, kwargs, st, node, interp):
        return ()

    def keep(self, ev):
        return True

    def type_of(self, term, interp, st):
        return None

    def on_call(self, interp, fterm, args, kwargs, st, node):
        return None

    def volatile(self, term):
        return False

    def enum_loop(self, it):
        return None

    def on_compare(self, interp, op, a, b, st):
        """value of a comparison (None: default)"""

    def on_item(self, interp, base, idx, st):
        """value of base[idx] (None: default)"""

    def after_await(self, interp, st):
        """called at each point where other tasks may run"""


_BINOP = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&",
    ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}
_CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
    ast.NotIn: "not in",
}

PURE_BUILTINS = {
    "abs", "min", "max", "sum", "str", "int", "float", "repr", "round",
    "isinstance", "issubclass", "type", "id", "hash", "callable", "divmod",
    "zip", "enumerate", "range", "map", "filter", "sorted", "reversed", "iter",
    "complex", "ord", "chr", "frozenset", "slice", "vars", "dir", "format",
    "bin", "pow", "property",
}

_TRUE_CALLS = {
    ("ext", "multiprocessing.Process"), ("ext", "threading.Thread"),
    ("ext", "subprocess.Popen"), ("ext", "multiprocessing.Pipe"),
    ("ext", "multiprocessing.Event"),
}

_MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "update", "add",
    "discard", "sort", "reverse", "popitem", "setdefault", "popleft",
    "appendleft",
}


# bounds of the number of paths: larger with --tier thorough
SCALE = 1


class TooManyStates(AnalysisBroken):
    pass


class Interp:
    def __init__(self, project: Project, policy: Policy):
        self.p = project
        self.policy = policy
        self.sinks = []
        self.stack = []  # call stack of (FuncInfo, frame id, callsite)
        self.frame_count = 0
        self.hooks = []  # generator yield hooks (frame id -> hook)
        self.n_states = 0
        self.widened = 0
        self.inlined = set()
        self.opaque_calls = set()
        self.unbound = []
        self.cuts = []
        self.glob_cache = {}

    # -------------------------------------------------------------- utils
    @property
    def cur(self):
        return self.stack[-1]

    @property
    def func(self):
        return self.stack[-1][0]

    @property
    def frame(self):
        return self.stack[-1][1]

    def emit(self, st, kind, a, node):
        ev = Event(
            kind, a, node, self.func if self.stack else None, None,
            tuple(s[0] for s in self.stack[1:]),
        )
        if self.policy.keep(ev):
            ev.facts = dict(st.facts)
            st.trace = st.trace.add(ev)
        return ev

    def uid(self, node, st):
        base = (
            self.func.module.name, getattr(node, "lineno", 0),
            getattr(node, "col_offset", 0), getattr(node, "end_col_offset", 0),
            tuple(s[2] for s in self.stack[1:]),
        )
        n = st.counts.get(base, 0)
        st.counts[base] = n + 1
        return ("uid", hash(base) & 0xFFFFFFFF, n)

    def _raise(self, exc, st):
        self.sinks[-1].append((exc, st))

    # ------------------------------------------------------- entry points
    def new_self(self, cls, name="self"):
        return ("obj", name, cls.qual)

    def run(self, func, args=None, self_term=None, st=None, kwargs=None):
        """Analyse a function from symbolic arguments; returns list of Out"""
        if st is None:
            st = State()
        node = func.node
        fid = self._new_frame()
        st.env[fid] = {}
        env = st.env[fid]
        args = dict(args or {})
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and not func.is_static:
                env[n] = (
                    self_term
                    if self_term is not None
                    else ("obj", "self", func.cls.qual)
                )
            elif n in args:
                env[n] = args[n]
            else:
                env[n] = ("sym", n)
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, ("sym", "*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, ("sym", "**" + a.kwarg.arg))
        return self._exec_function(func, fid, st, node)

    def _new_frame(self):
        self.frame_count += 1
        return self.frame_count

    def _exec_function(self, func, fid, st, callsite):
        self.stack.append(
            (func, fid, (getattr(callsite, "lineno", 0),
                         getattr(callsite, "col_offset", 0)))
        )
        self.sinks.append([])
        try:
            node = func.node
            if isinstance(node, ast.Lambda):
                outs = [Out("return", v, s) for v, s in self.eval(node.body, st)]
            else:
                outs = self.exec_block(node.body, st)
            outs = [
                Out("return", NONE, o.st) if o.kind == "next" else o for o in outs
            ]
            for exc, s in self.sinks[-1]:
                outs.append(Out("raise", exc, s))
        finally:
            self.sinks.pop()
            self.stack.pop()
        return outs

    # --------------------------------------------------------- statements
    def exec_block(self, body, st):
        states = [st]
        done = []
        for stmt in body:
            nxt = []
            for s in states:
                for o in self.exec_stmt(stmt, s):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            states = self._merge(nxt)
            if not states:
                break
        return done + [Out("next", None, s) for s in states]

    def _merge(self, states):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.key_nofacts(), []).append(s)
        res = []
        for g in groups.values():
            s = g[0]
            if len(g) > 1:
                facts = s.facts
                for o in g[1:]:
                    facts = {
                        k: v for k, v in facts.items() if o.facts.get(k) == v
                    }
                s.facts = facts
            res.append(s)
        if len(res) > SCALE * self.policy.soft_states:
            res = self._widen(res)
        if len(res) > SCALE * self.policy.max_states:
            raise TooManyStates(
                f"too many abstract states in {self.func.qual} ({len(res)})"
            )
        self.n_states += len(res)
        return res

    def _widen(self, states):
        """join the states that have the same event history"""
        groups = {}
        for s in states:
            groups.setdefault((s.trace, s.exc, s.pending), []).append(s)
        res = []
        for g in groups.values():
            s = g[0]
            for o in g[1:]:
                s.facts = {
                    k: v for k, v in s.facts.items() if o.facts.get(k) == v
                }
                for fid in list(s.env):
                    if fid not in o.env:
                        continue
                    fr, fo = s.env[fid], o.env[fid]
                    for n in list(fr):
                        if n not in fo:
                            fr[n] = ("phi", fid, n)
                        elif fo[n] != fr[n]:
                            fr[n] = ("phi", fid, n)
                    for n in fo:
                        if n not in fr:
                            fr[n] = ("phi", fid, n)
                for fid in o.env:
                    if fid not in s.env:
                        s.env[fid] = dict(o.env[fid])
                for k in list(s.heap):
                    if k not in o.heap:
                        if k[1] == "#items":
                            continue
                        s.heap[k] = ("phi", k)
                    elif o.heap[k] != s.heap[k]:
                        s.heap[k] = None if k[1] == "#items" else ("phi", k)
                for k in o.heap:
                    if k not in s.heap:
                        s.heap[k] = (
                            o.heap[k] if k[1] == "#items" else ("phi", k)
                        )
                for k, v in o.counts.items():
                    if s.counts.get(k, 0) < v:
                        s.counts[k] = v
            res.append(s)
        self.widened += len(states) - len(res)
        return res

    def exec_stmt(self, stmt, st):
        m = getattr(self, "st_" + type(stmt).__name__, None)
        if m is None:
            return [Out("next", None, st)]
        self.sinks.append([])
        try:
            outs = m(stmt, st)
        finally:
            raised = self.sinks.pop()
        for exc, s in raised:
            outs.append(Out("raise", exc, s))
        return outs

    def st_Expr(self, stmt, st):
        if isinstance(stmt.value, ast.Constant):
            return [Out("next", None, st)]
        outs = []
        for v, s in self.eval(stmt.value, st):
            if v[0] == "coro":
                self.emit(s, "coro_dropped", (v,), stmt)
            outs.append(Out("next", None, s))
        return outs

    def st_Pass(self, stmt, st):
        return [Out("next", None, st)]

    def st_Assign(self, stmt, st):
        outs = []
        for v, s in self.eval(stmt.value, st):
            states = [s]
            for t in stmt.targets:
                nxt = []
                for s2 in states:
                    nxt += self.assign(t, v, s2)
                states = nxt
            outs += [Out("next", None, s2) for s2 in states]
        return outs

    def st_AnnAssign(self, stmt, st):
        if stmt.value is None:
            return [Out("next", None, st)]
        outs = []
        for v, s in self.eval(stmt.value, st):
            outs += [Out("next", None, s2) for s2 in self.assign(stmt.target, v, s)]
        return outs

    def st_AugAssign(self, stmt, st):
        op = _BINOP[type(stmt.op)]
        outs = []
        load = _as_load(stmt.target)
        for old, s in self.eval(load, st):
            for rhs, s2 in self.eval(stmt.value, s):
                self.emit(s2, "iaug", (op, old, rhs), stmt)
                if old[0] == "list" and op == "+":
                    self._list_extend(old, rhs, s2)
                    outs.append(Out("next", None, s2))
                    continue
                v = self.binop(op, old, rhs, s2)
                for s3 in self.assign(stmt.target, v, s2, aug=True):
                    outs.append(Out("next", None, s3))
        return outs

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
            return [st]
        if isinstance(t, ast.Attribute):
            res = []
            for base, s in self.eval(t.value, st):
                self.set_attr(base, t.attr, v, s, t)
                res.append(s)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for base, s in self.eval(t.value, st):
                for idx, s2 in self.eval(t.slice, s):
                    self.set_item(base, idx, v, s2, t)
                    res.append(s2)
            return res
        if isinstance(t, (ast.Tuple, ast.List)):
            states = [st]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.items_of(v, st)
            if v[0] == "tuple" and not star and len(v[1]) != len(t.elts):
                self.emit(st, "bad_unpack", (v, const(len(t.elts))), t)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    if items is not None:
                        after = len(t.elts) - i - 1
                        sub = ("tuple", items[i: len(items) - after])
                    else:
                        sub = mk_item(v, ("slice", const(i), NONE, NONE))
                    e = e.value
                elif items is not None and not star and i < len(items):
                    sub = items[i]
                elif items is not None and star and i < star[0] and i < len(items):
                    sub = items[i]
                elif items is not None and star and i > star[0]:
                    sub = items[i - len(t.elts)]
                else:
                    k = i if not star or i < star[0] else i - len(t.elts)
                    sub = self.get_item(v, const(k), st, t)
                nxt = []
                for s in states:
                    nxt += self.assign(e, sub, s)
                states = nxt
            return states
        return [st]

    def store_name(self, name, v, st):
        func = self.func
        decl = self._decls(func)
        if name in decl["global"]:
            st.heap[(("glob", func.module.name), name)] = v
            self.emit(st, "setglobal", (("glob", func.module.name, name), v), None)
            return
        fid = self.frame
        if name in decl["nonlocal"]:
            fid = self._lookup_frame(name, st, skip_first=True) or fid
        st.env[fid][name] = v

    def _decls(self, func):
        d = getattr(func, "_decls", None)
        if d is None:
            d = {"global": set(), "nonlocal": set(), "locals": set()}
            if not isinstance(func.node, ast.Lambda):
                stack = list(func.node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, ast.Global):
                        d["global"].update(n.names)
                    elif isinstance(n, ast.Nonlocal):
                        d["nonlocal"].update(n.names)
                    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                                        ast.ClassDef)):
                        d["locals"].add(n.name)
                        continue
                    elif isinstance(n, ast.Lambda):
                        continue
                    elif isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)
                    ):
                        d["locals"].add(n.id)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        d["locals"].add(n.name)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        for a in n.names:
                            d["locals"].add((a.asname or a.name).split(".")[0])
                    elif isinstance(
                        n, (ast.ListComp, ast.SetComp, ast.DictComp,
                            ast.GeneratorExp)
                    ):
                        # own scope (walrus ignored)
                        continue
                    stack.extend(ast.iter_child_nodes(n))
            a = func.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                d["locals"].add(x.arg)
            if a.vararg:
                d["locals"].add(a.vararg.arg)
            if a.kwarg:
                d["locals"].add(a.kwarg.arg)
            d["locals"] -= d["global"] | d["nonlocal"]
            func._decls = d
        return d

    def set_attr(self, base, attr, v, st, node):
        base = self._canon_base(base)
        cls = self.class_of(base, st)
        if cls is not None:
            setter = cls.find_method(attr + ".setter")
            if setter is not None:
                self.emit(st, "setattr", (base, attr, v, UNKNOWN), node)
                for o in self.call_function(setter, None, (base, v), {}, st, node):
                    pass
                return
        if v[0] == "lambda_cls":
            v = UNKNOWN
        old = st.heap.get((base, attr), ("attr", base, attr))
        st.heap[(base, attr)] = v
        self._invalidate(st, base, attr)
        self.emit(st, "setattr", (base, attr, v, old), node)

    def _invalidate(self, st, base, attr):
        pass

    def set_item(self, base, idx, v, st, node):
        base0 = base
        if base[0] in ("list", "dict"):
            items = st.heap.get((base, "#items"))
            if items is not None:
                if base[0] == "dict":
                    if idx[0] == "const" or not any(
                        k[0] == "const" for k, _ in items
                    ) or True:
                        items = tuple((k, x) for k, x in items if k != idx)
                        st.heap[(base, "#items")] = items + ((idx, v),)
                elif idx[0] == "const" and isinstance(idx[1], int) and (
                    -len(items) <= idx[1] < len(items)
                ):
                    lst = list(items)
                    lst[idx[1]] = v
                    st.heap[(base, "#items")] = tuple(lst)
                else:
                    st.heap[(base, "#items")] = None
        else:
            st.heap[(base, ("item", strip_uid(idx)))] = v
        self.emit(st, "setitem", (base0, idx, v), node)

    def st_Delete(self, stmt, st):
        states = [st]
        targets, todo = [], list(stmt.targets)
        while todo:
            t = todo.pop(0)
            if isinstance(t, (ast.Tuple, ast.List)):
                todo[:0] = t.elts
            else:
                targets.append(t)
        for t in targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s.env[self.frame].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for base, s1 in self.eval(t.value, s):
                        for idx, s2 in self.eval(t.slice, s1):
                            if base[0] == "dict":
                                items = s2.heap.get((base, "#items"))
                                if items is not None:
                                    s2.heap[(base, "#items")] = tuple(
                                        (k, x) for k, x in items if k != idx
                                    )
                            if base[0] == "list":
                                items = s2.heap.get((base, "#items"))
                                if items is not None:
                                    lst = None
                                    if is_const(idx) and isinstance(
                                        idx[1], int
                                    ) and -len(items) <= idx[1] < len(items):
                                        lst = list(items)
                                        del lst[idx[1]]
                                        lst = tuple(lst)
                                    s2.heap[(base, "#items")] = lst
                            s2.heap.pop((base, ("item", strip_uid(idx))), None)
                            self.emit(s2, "delitem", (base, idx), stmt)
                            excs = self.policy.may_raise(
                                ("delitem",), (base, idx), {}, s2, stmt, self
                            )
                            for e in excs:
                                self._raise(("exc", e, self.uid(stmt, s2)),
                                            s2.copy())
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for base, s1 in self.eval(t.value, s):
                        s1.heap.pop((base, t.attr), None)
                        self.emit(s1, "delattr", (base, t.attr), stmt)
                        nxt.append(s1)
                else:
                    nxt.append(s)
            states = nxt
        return [Out("next", None, s) for s in states]

    def st_Return(self, stmt, st):
        if stmt.value is None:
            return [Out("return", NONE, st)]
        return [Out("return", v, s) for v, s in self.eval(stmt.value, st)]

    def st_Break(self, stmt, st):
        return [Out("break", None, st)]

    def st_Continue(self, stmt, st):
        return [Out("continue", None, st)]

    def st_Raise(self, stmt, st):
        outs = []
        if stmt.exc is None:
            exc = st.exc[-1] if st.exc else ("exc", "RuntimeError", None)
            self.emit(st, "raise", (exc,), stmt)
            return [Out("raise", exc, st)]
        for v, s in self.eval(stmt.exc, st):
            exc = self._as_exc(v)
            self.emit(s, "raise", (exc,), stmt)
            outs.append(Out("raise", exc, s))
        return outs

    def _as_exc(self, v):
        if v[0] == "exc":
            return v
        if v[0] == "ext":
            return ("exc", v[1], None)
        if v[0] == "class":
            return ("exc", v[1].split(".")[-1], None)
        if v[0] == "call" and v[1][0] in ("ext",):
            return ("exc", v[1][1], v[2])
        if v[0] == "obj":
            return ("exc", v[2].split(".")[-1], v)
        return ("exc", "Exception", v)

    def st_Assert(self, stmt, st):
        outs = []
        for truth, s in self.cond(stmt.test, st):
            if truth:
                outs.append(Out("next", None, s))
            else:
                exc = ("exc", "AssertionError", None)
                self.emit(s, "assert_fail", (exc,), stmt)
                outs.append(Out("raise", exc, s))
        return outs

    def st_If(self, stmt, st):
        outs = []
        for truth, s in self.cond(stmt.test, st):
            outs += self.exec_block(stmt.body if truth else stmt.orelse, s)
        return self._merge_outs(outs)

    def _merge_outs(self, outs):
        nxt = self._merge([o.st for o in outs if o.kind == "next"])
        return [o for o in outs if o.kind != "next"] + [
            Out("next", None, s) for s in nxt
        ]

    def st_While(self, stmt, st):
        outs = []
        states = [st]
        for it in range(self.policy.unroll + 1):
            nxt = []
            for s in states:
                for truth, s2 in self.cond(stmt.test, s):
                    if not truth:
                        outs += self.exec_block(stmt.orelse, s2)
                        continue
                    if it == self.policy.unroll:
                        self.emit(s2, "cut", (), stmt)
                        self.cuts.append(Out("cut", None, s2))
                        continue
                    self.emit(s2, "loop", (const(it),), stmt)
                    for o in self.exec_block(stmt.body, s2):
                        if o.kind in ("next", "continue"):
                            self._loop_volatile(o.st)
                            nxt.append(o.st)
                        elif o.kind == "break":
                            outs.append(Out("next", None, o.st))
                        else:
                            outs.append(o)
            states = self._merge(nxt)
            if not states:
                break
        return self._merge_outs(outs)

    def _loop_volatile(self, st):
        for k in [k for k in st.facts if self.policy.volatile(k)]:
            del st.facts[k]

    def st_For(self, stmt, st):
        outs = []
        for it, s in self.eval(stmt.iter, st):
            outs += self._for_over(stmt, it, s)
        return self._merge_outs(outs)

    st_AsyncFor = st_For

    def _for_over(self, stmt, it, st):
        # project generators: analyse the body at every yield
        if it[0] == "gen":
            return self._for_gen(stmt, it, st)
        items = self.enum_items(it, st)
        if items is not None:
            outs = []
            states = [st]
            for x in items:
                nxt = []
                for s in states:
                    for s2 in self.assign(stmt.target, x, s):
                        for o in self.exec_block(stmt.body, s2):
                            if o.kind in ("next", "continue"):
                                nxt.append(o.st)
                            elif o.kind == "break":
                                outs.append(Out("next", None, o.st))
                            else:
                                outs.append(o)
                states = self._merge(nxt)
            for s in states:
                outs += self.exec_block(stmt.orelse, s)
            return outs
        outs = []
        states = [st]
        for n in range(self.policy.unroll + 1):
            nxt = []
            for s in states:
                # exhausted
                if not (n == 0 and (
                    self.nonempty_range(it) or self.known_nonempty(it, s)
                ) or endless(it)):
                    s_end = s.copy()
                    self.emit(s_end, "exhausted", (it, const(n)), stmt)
                    outs += self.exec_block(stmt.orelse, s_end)
                if n == self.policy.unroll:
                    if endless(it):
                        self.emit(s, "cut", (), stmt)
                        self.cuts.append(Out("cut", None, s))
                    continue
                x = self.elem(it, n)
                self.emit(s, "iter", (it, const(n)), stmt)
                for s2 in self.assign(stmt.target, x, s):
                    for o in self.exec_block(stmt.body, s2):
                        if o.kind in ("next", "continue"):
                            nxt.append(o.st)
                        elif o.kind == "break":
                            outs.append(Out("next", None, o.st))
                        else:
                            outs.append(o)
            states = self._merge(nxt)
            if not states:
                break
        return outs

    def known_nonempty(self, it, st):
        while it[0] == "call" and it[1] in (
            ("ext", "enumerate"), ("ext", "list"), ("ext", "tuple"),
            ("ext", "sorted"), ("ext", "reversed"), ("ext", "iter"),
        ) and it[2]:
            it = it[2][0]
        if it[0] in ("list", "dict", "const", "tuple"):
            return False
        return st.facts.get(it) is True

    def nonempty_range(self, it):
        if it[0] == "call" and it[1] == ("ext", "range") and all(
            is_const(x) and isinstance(x[1], int) for x in it[2]
        ):
            return len(range(*[x[1] for x in it[2]])) > 0
        return False

    def _for_gen(self, stmt, gen, st):
        caller = list(self.stack)

        def hook(v, s):
            saved = self.stack
            self.stack = list(caller)
            try:
                res = []
                for s2 in self.assign(stmt.target, v, s):
                    res += self.exec_block(stmt.body, s2)
            finally:
                self.stack = saved
            out = []
            for o in res:
                if o.kind in ("next", "continue"):
                    out.append(Out("next", NONE, o.st))
                else:
                    o.st.pending = (o.kind, o.val)
                    out.append(Out("raise", ("exc", "GeneratorExit", None), o.st))
            return out

        outs = []
        for o in self._run_gen(gen, st, hook, stmt):
            if o.kind == "raise" and o.st.pending is not None and (
                o.val[1] == "GeneratorExit"
            ):
                kind, val = o.st.pending
                o.st.pending = None
                if kind == "break":
                    outs.append(Out("next", None, o.st))
                else:
                    outs.append(Out(kind, val, o.st))
            elif o.kind == "return":
                outs += self.exec_block(stmt.orelse, o.st)
            else:
                outs.append(o)
        return outs

    def _run_gen(self, gen, st, hook, node):
        _, fterm, args, kwargs = gen
        func = self.p.funcs_by_key[fterm[1]]
        self.hooks.append(hook)
        try:
            return self.call_function(
                func, fterm[2], args, dict(kwargs), st, node, as_gen=True
            )
        finally:
            self.hooks.pop()

    def elem(self, it, n):
        if it[0] == "call" and it[1] == ("ext", "enumerate") and it[2]:
            start = it[2][1] if len(it[2]) > 1 else const(0)
            idx = ("idx", it[2][0], n)
            if start != const(0):
                idx = ("op", "+", idx, start)
            return ("tuple", (idx, self.elem(it[2][0], n)))
        if it[0] == "call" and it[1] == ("ext", "zip"):
            return ("tuple", tuple(self.elem(x, n) for x in it[2]))
        if it[0] == "call" and it[1] == ("ext", "range"):
            return ("elem", it, n)
        if it[0] == "call" and it[1] in (
            ("ext", "list"), ("ext", "tuple"), ("ext", "reversed"),
            ("ext", "iter"), ("ext", "sorted"),
        ) and len(it[2]) == 1:
            return self.elem(it[2][0], n)
        if it[0] == "call" and it[1][0] == "attr" and not it[2]:
            if it[1][2] == "items":
                d = it[1][1]
                return ("tuple", (("key", d, n), ("val", d, n)))
            if it[1][2] == "keys":
                return ("key", it[1][1], n)
            if it[1][2] == "values":
                return ("val", it[1][1], n)
        if it[0] == "comp" and it[4] == ():
            if len(it[3]) == 1 and n != "*":
                return renumber(it[2], it[3][0], n)
            return it[2]
        return ("elem", it, n)

    def enum_items(self, it, st, limit=64):
        """concrete list of element terms when statically known"""
        r = self.policy.enum_loop(it)
        if r is not None:
            return r
        items = self.items_of(it, st)
        if items is not None:
            return items if len(items) <= limit else None
        if it[0] == "call" and it[1] == ("ext", "range") and all(
            is_const(x) and isinstance(x[1], int) for x in it[2]
        ):
            r = range(*[x[1] for x in it[2]])
            if len(r) <= self.policy.range_enum:
                return tuple(const(i) for i in r)
        if it[0] == "call" and it[1] == ("ext", "enumerate") and it[2]:
            sub = self.enum_items(it[2][0], st)
            if sub is not None:
                k0 = 0
                if len(it[2]) > 1 and is_const(it[2][1]):
                    k0 = it[2][1][1]
                return tuple(
                    ("tuple", (const(i + k0), x)) for i, x in enumerate(sub)
                )
        if it[0] == "call" and it[1] == ("ext", "zip"):
            subs = [self.enum_items(x, st) for x in it[2]]
            if subs and all(s is not None for s in subs):
                return tuple(("tuple", x) for x in zip(*subs))
        if it[0] == "call" and it[1] in (
            ("ext", "list"), ("ext", "tuple"), ("ext", "iter"),
            ("ext", "reversed"), ("ext", "sorted"), ("ext", "set"),
        ) and len(it[2]) == 1:
            sub = self.enum_items(it[2][0], st)
            if sub is not None:
                if it[1][1] == "reversed":
                    sub = tuple(reversed(sub))
                return sub
        if it[0] == "call" and it[1][0] == "attr" and not it[2]:
            d = it[1][1]
            if d[0] == "dict":
                items = st.heap.get((d, "#items"))
                if items is not None:
                    if it[1][2] == "items":
                        return tuple(("tuple", (k, v)) for k, v in items)
                    if it[1][2] == "keys":
                        return tuple(k for k, v in items)
                    if it[1][2] == "values":
                        return tuple(v for k, v in items)
        return None

    def items_of(self, v, st):
        if v[0] in ("tuple", "set"):
            return v[1]
        if v[0] == "list":
            return st.heap.get((v, "#items"))
        if v[0] == "dict":
            items = st.heap.get((v, "#items"))
            return None if items is None else tuple(k for k, _ in items)
        if is_const(v) and isinstance(v[1], (tuple, list)):
            return tuple(const(x) for x in v[1])
        if is_const(v) and isinstance(v[1], str) and len(v[1]) <= 4:
            return tuple(const(c) for c in v[1])
        return None

    def st_FunctionDef(self, stmt, st):
        f = self._nested(stmt)
        st.env[self.frame][stmt.name] = (
            "func", f.key, self._closure(stmt, st)
        )
        return [Out("next", None, st)]

    def _closure(self, node, st):
        """frame of the closure, with the defaults evaluated at definition"""
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        pairs += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
                  if d is not None]
        vals = []
        for n, d in pairs:
            if isinstance(d, (ast.Name, ast.Attribute)):
                r = self.eval(d, st)
                if len(r) == 1:
                    vals.append((n, r[0][0]))
        if vals:
            return ("clo", self.frame, tuple(vals))
        return self.frame

    st_AsyncFunctionDef = st_FunctionDef

    def _nested(self, node):
        key = (
            self.func.module.name, node.lineno, node.col_offset,
            getattr(node, "name", "<lambda>"),
        )
        f = self.p.funcs_by_key.get(key)
        if f is None:
            f = FuncInfo(node, self.func.module, None, self.func)
            f.owner_cls = getattr(self.func, "owner_cls", None) or self.func.cls
            self.p.funcs_by_key[key] = f
        return f

    def st_ClassDef(self, stmt, st):
        st.env[self.frame][stmt.name] = ("localclass", stmt.name)
        return [Out("next", None, st)]

    def st_Import(self, stmt, st):
        for a in stmt.names:
            if a.asname:
                st.env[self.frame][a.asname] = ("mod", a.name)
            else:
                n = a.name.split(".")[0]
                st.env[self.frame][n] = ("mod", n)
        return [Out("next", None, st)]

    def st_ImportFrom(self, stmt, st):
        base = self.func.module._abs(stmt.module, stmt.level)
        for a in stmt.names:
            t = self.p.attr_of(("mod", base), a.name)
            st.env[self.frame][a.asname or a.name] = t
        return [Out("next", None, st)]

    def st_With(self, stmt, st):
        return self._with_items(stmt, list(stmt.items), st)

    st_AsyncWith = st_With

    def _with_items(self, stmt, items, st):
        if not items:
            return self.exec_block(stmt.body, st)
        item, rest = items[0], items[1:]
        outs = []
        for cm, s in self.eval(item.context_expr, st):
            if cm[0] == "gen" and self._is_cm(cm):
                caller = list(self.stack)

                def hook(v, s1, caller=caller):
                    saved = self.stack
                    self.stack = list(caller)
                    try:
                        states = [s1]
                        if item.optional_vars is not None:
                            states = self.assign(item.optional_vars, v, s1)
                        res = []
                        for s2 in states:
                            res += self._with_items(stmt, rest, s2)
                    finally:
                        self.stack = saved
                    out = []
                    for o in res:
                        if o.kind == "raise":
                            out.append(o)
                        else:
                            if o.kind != "next":
                                o.st.pending = (o.kind, o.val)
                            out.append(Out("next", NONE, o.st))
                    return out

                for o in self._run_gen(cm, s, hook, stmt):
                    if o.kind == "return":
                        if o.st.pending is not None:
                            kind, val = o.st.pending
                            o.st.pending = None
                            outs.append(Out(kind, val, o.st))
                        else:
                            outs.append(Out("next", None, o.st))
                    else:
                        outs.append(o)
                continue
            cls = self.class_of(cm, s)
            enter = cls.find_method("__enter__") if cls else None
            exit_ = cls.find_method("__exit__") if cls else None
            if enter is not None and exit_ is not None and (
                self.policy.should_inline(enter, self, s)
            ):
                ents = []
                for o in self.call_function(enter, None, (cm,), {}, s, stmt):
                    if o.kind == "raise":
                        self._raise(o.val, o.st)
                    else:
                        ents.append((o.val, o.st))
                for v, s1 in ents:
                    states = [s1]
                    if item.optional_vars is not None:
                        states = self.assign(item.optional_vars, v, s1)
                    for s2 in states:
                        for o in self._with_items(stmt, rest, s2):
                            args = (cm, NONE, NONE, NONE)
                            if o.kind == "raise":
                                args = (cm, ("ext", o.val[1]), o.val, UNKNOWN)
                            for o2 in self.call_function(
                                exit_, None, args, {}, o.st, stmt
                            ):
                                if o2.kind == "raise":
                                    self._raise(o2.val, o2.st)
                                elif o.kind == "raise" and (
                                    o2.val == TRUE
                                ):
                                    outs.append(Out("next", None, o2.st))
                                else:
                                    outs.append(Out(o.kind, o.val, o2.st))
                continue
            val = ("enter", cm)
            if self.policy.transparent_writers and cm[0] == "call" and \
                    cm[1][0] == "func":
                g = self.p.funcs_by_key.get(cm[1][1])
                if g is not None and temporary_writer(g) and (cm[2] or cm[3]):
                    val = cm[2][0] if cm[2] else cm[3][0][1]
            if cm[0] == "call" and cm[1] in (("ext", "open"),):
                val = cm
            if cm[0] == "call" and cm[1][0] == "ext" and cm[1][1].startswith(
                ("h5py.", "h5netcdf.")
            ):
                val = cm
            self.emit(s, "with_enter", (cm,), stmt)
            states = [s]
            if item.optional_vars is not None:
                states = self.assign(item.optional_vars, val, s)
            for s2 in states:
                for o in self._with_items(stmt, rest, s2):
                    self.emit(o.st, "with_exit", (cm, const(o.kind)), stmt)
                    if (
                        o.kind == "raise"
                        and cm[0] == "call"
                        and cm[1] == ("ext", "contextlib.suppress")
                    ):
                        r = self._exc_match(o.val, cm[2])
                        if r is not False:
                            outs.append(Out("next", None, o.st.copy()))
                        if r is not True:
                            outs.append(o)
                        continue
                    outs.append(o)
        return outs

    def _is_cm(self, gen):
        return self.p.funcs_by_key[gen[1][1]].is_contextmanager

    def st_Try(self, stmt, st):
        body = self.exec_block(stmt.body, st)
        outs = []
        for o in body:
            if o.kind == "raise":
                outs += self._handle(stmt, o)
            elif o.kind == "next":
                outs += self.exec_block(stmt.orelse, o.st)
            else:
                outs.append(o)
        outs = self._merge_outs(outs)
        if stmt.finalbody:
            fin = []
            for o in outs:
                for f in self.exec_block(stmt.finalbody, o.st):
                    if f.kind == "next":
                        fin.append(Out(o.kind, o.val, f.st))
                    else:
                        fin.append(f)
            outs = fin
        return self._merge_outs(outs)

    st_TryStar = st_Try

    def _handle(self, stmt, o):
        outs = []
        cur = o
        for h in stmt.handlers:
            if h.type is None:
                match = True
            else:
                types = None
                for t, s in self.eval(h.type, cur.st.copy()):
                    types = t
                ts = types[1] if types and types[0] == "tuple" else (types,)
                match = self._exc_match(cur.val, ts)
            if match is False:
                continue
            s = cur.st if match is True else cur.st.copy()
            s.exc = s.exc + (cur.val,)
            if h.name:
                v = cur.val
                if v[0] == "exc" and v[2] is not None and v[2][0] == "obj":
                    v = v[2]
                s.env[self.frame][h.name] = v
            self.emit(s, "except", (cur.val,), h)
            for r in self.exec_block(h.body, s):
                r.st.exc = r.st.exc[:-1]
                if h.name:
                    r.st.env.get(self.frame, {}).pop(h.name, None)
                outs.append(r)
            if match is True:
                return outs
        outs.append(cur)
        return outs

    def _exc_match(self, exc, types):
        """True / False / None (maybe)"""
        name = exc[1].split(".")[-1]
        res = False
        for t in types:
            if t is None:
                return None
            if t[0] == "ext":
                tn = t[1].split(".")[-1]
            elif t[0] == "class":
                tn = t[1].split(".")[-1]
            else:
                return None
            if tn == "BaseException":
                return True
            if name == "AnyException":
                if tn == "Exception":
                    return True
                res = None
                continue
            a = self._exc_mro(name)
            if tn in a:
                return True
            b = self._exc_mro(tn)
            if name in b:
                res = None
        return res

    def _exc_mro(self, name):
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return {k.__name__ for k in c.__mro__}
        try:
            ci = self.p.find_class(name)
        except AnalysisBroken:
            if name in ("Cancelled", "KeyboardInterrupt"):
                return {name, "BaseException"}
            return {name, "Exception", "BaseException"}
        out = set()
        for k in ci.mro():
            out.add(k.name)
        for b in ci.external_bases():
            out |= self._exc_mro(b.split(".")[-1])
        return out

    def st_Match(self, stmt, st):
        outs = []
        for v, s in self.eval(stmt.subject, st):
            cur = [s]
            for case in stmt.cases:
                nxt = []
                for s1 in cur:
                    if isinstance(case.pattern, ast.MatchValue):
                        c = None
                        for pv, s2 in self.eval(case.pattern.value, s1):
                            c = mk_cmp("==", v, pv)
                            for truth, s3 in self.fork(c, s2):
                                if truth:
                                    outs += self.exec_block(case.body, s3)
                                else:
                                    nxt.append(s3)
                    elif isinstance(case.pattern, ast.MatchAs) and (
                        case.pattern.pattern is None
                    ) and case.guard is None:
                        if case.pattern.name:
                            s1.env[self.frame][case.pattern.name] = v
                        outs += self.exec_block(case.body, s1)
                    else:
                        s2 = s1.copy()
                        for n in ast.walk(case.pattern):
                            nm = getattr(n, "name", None)
                            if isinstance(nm, str):
                                s2.env[self.frame][nm] = UNKNOWN
                        outs += self.exec_block(case.body, s2)
                        nxt.append(s1)
                cur = nxt
            outs += [Out("next", None, s1) for s1 in cur]
        return self._merge_outs(outs)

    # ------------------------------------------------------- conditions
    def cond(self, node, st):
        """evaluate a condition: list of (bool, state)"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            res = []
            states = [st]
            for i, e in enumerate(node.values):
                nxt = []
                for s in states:
                    for truth, s2 in self.cond(e, s):
                        if truth != is_and:
                            res.append((truth, s2))
                        elif i == len(node.values) - 1:
                            res.append((truth, s2))
                        else:
                            nxt.append(s2)
                states = nxt
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(not t, s) for t, s in self.cond(node.operand, st)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            res = []
            states = [st]
            left = node.left
            for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
                sub = ast.copy_location(ast.Compare(left, [op], [right]), node)
                nxt = []
                for s in states:
                    for t, s2 in self.cond(sub, s):
                        if not t:
                            res.append((False, s2))
                        elif i == len(node.ops) - 1:
                            res.append((True, s2))
                        else:
                            nxt.append(s2)
                states = nxt
                left = right
            return res
        res = []
        for v, s in self.eval(node, st):
            res += self.fork(v, s, node)
        return res

    def fork(self, v, st, node=None):
        v, neg = self.truth_term(v, st)
        t = self.known_truth(v, st)
        if t is not None:
            return [(t != neg, st)]
        s2 = st.copy()
        st.facts[v] = True
        s2.facts[v] = False
        self.emit(st, "assume", (v, TRUE), node)
        self.emit(s2, "assume", (v, FALSE), node)
        return [(not neg, st), (neg, s2)]

    def truth_term(self, v, st):
        """canonical atom of the truth value of v, and whether it is negated"""
        neg = False
        while True:
            if v[0] == "not":
                v = v[1]
                neg = not neg
            elif v[0] == "call" and v[1] in (("ext", "bool"), ("ext", "len")) and (
                len(v[2]) == 1
            ):
                v = v[2][0]
            elif v[0] == "cmp" and v[1] == "==" and const(0) in v[2:] and any(
                _is_len(x) for x in v[2:]
            ):
                v = [x for x in v[2:] if _is_len(x)][0][2][0]
                neg = not neg
            elif v[0] == "cmp" and v[1] == "<" and v[2] == const(0) and _is_len(
                v[3]
            ):
                v = v[3][2][0]
            elif v[0] == "cmp" and v[1] == "<" and v[3] == const(1) and _is_len(
                v[2]
            ):
                v = v[2][2][0]
                neg = not neg
            elif v[0] == "cmp" and v[1] == "<=" and v[2] == const(1) and _is_len(
                v[3]
            ):
                v = v[3][2][0]
            elif v[0] == "cmp" and v[1] == "<=" and v[3] == const(0) and _is_len(
                v[2]
            ):
                v = v[2][2][0]
                neg = not neg
            else:
                return v, neg

    def known_truth(self, v, st):
        t = truth_const(v)
        if t is not None:
            return t
        if v in st.facts:
            return st.facts[v]
        if v[0] in ("list", "dict"):
            items = st.heap.get((v, "#items"))
            if items is not None:
                return bool(items)
        if v[0] in ("obj", "func", "class", "bound", "mod", "exc", "coro",
                    "partial", "super", "coro", "gen"):
            return True
        if v[0] == "call" and v[1] in _TRUE_CALLS:
            return True
        if v[0] == "cmp":
            op, a, b = v[1:]
            if op == "is":
                if b == NONE and self._not_none(a, st):
                    return False
                if a == b and a[0] in ("call", "list", "dict", "obj", "sym"):
                    return True
                if a != b and (a[0] in ("list", "dict") or b[0] in (
                    "list", "dict")):
                    return False
                if a != b and _is_fresh(a) and _is_fresh(b):
                    return False
                if a == NONE and b == NONE:
                    return True
                if st.facts.get(("cmp", "==", a, b)) and b == NONE:
                    return True
                if b == NONE and st.facts.get(a) is True:
                    return False
            if op == "==":
                # x == c1 known true, then x == c2 is false
                if is_const(b):
                    for k, t in st.facts.items():
                        if (
                            t and k[0] == "cmp" and k[1] == "==" and k[2] == a
                            and is_const(k[3]) and k[3] != b
                        ):
                            return False
                if is_const(b) and st.facts.get(("cmp", "is", a, NONE)) and (
                    b[1] is not None
                ):
                    return False
            if op == "<=" :
                r = st.facts.get(("cmp", "<", b, a))
                if r is not None:
                    return not r
                if st.facts.get(("cmp", "<", a, b)):
                    return True
            if op == "<":
                r = st.facts.get(("cmp", "<=", b, a))
                if r is not None:
                    return not r
            if op == "in" and is_const(a) is False:
                items = self.items_of(b, st)
                if items is not None:
                    vals = [
                        self.known_truth(mk_cmp("==", a, x), st) for x in items
                    ]
                    if any(t is True for t in vals):
                        return True
                    if vals and all(t is False for t in vals):
                        return False
        if st.facts.get(("cmp", "is", v, NONE)):
            return False
        return self.extra_truth(v, st)

    def extra_truth(self, v, st):
        return None

    def _not_none(self, a, st):
        if a[0] in ("obj", "func", "class", "tuple", "list", "dict", "set",
                    "fstr", "bound", "mod", "exc", "partial", "gen", "coro",
                    "comp", "cmp", "not"):
            return True
        if is_const(a):
            return a[1] is not None
        if a[0] == "op":
            return True
        for k, t in st.facts.items():
            # isinstance(a, SomeClass)
            if t is True and k[0] == "call" and k[1] == ("ext", "isinstance") and (
                    len(k[2]) == 2 and k[2][0] == a and k[2][1][0] in (
                        "ext", "class")):
                return True
        return False

    # ------------------------------------------------------- expressions
    def eval(self, node, st):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            return [(UNKNOWN, st)]
        return m(node, st)

    def eval_seq(self, nodes, st):
        """evaluate several expressions: list of (tuple of values, state)"""
        res = [((), st)]
        for n in nodes:
            nxt = []
            for vals, s in res:
                if isinstance(n, ast.Starred):
                    for v, s2 in self.eval(n.value, s):
                        items = self.items_of(v, s2)
                        if items is not None:
                            nxt.append((vals + tuple(items), s2))
                        else:
                            nxt.append((vals + (("star", v),), s2))
                else:
                    for v, s2 in self.eval(n, s):
                        nxt.append((vals + (v,), s2))
            res = nxt
        return res

    def ev_Constant(self, node, st):
        return [(const(node.value), st)]

    def ev_Name(self, node, st):
        return [(self.load_name(node.id, st, node), st)]

    def _lookup_frame(self, name, st, skip_first=False):
        func, fid = self.func, self.frame
        first = True
        while True:
            if not (first and skip_first) and name in st.env.get(fid, {}):
                return fid
            first = False
            parent = st.env.get(fid, {}).get("#parent")
            if parent is None:
                return None
            fid = parent[1]

    def load_name(self, name, st, node=None):
        func = self.func
        decl = self._decls(func)
        if name not in decl["global"]:
            fid = self._lookup_frame(name, st)
            if fid is not None:
                return st.env[fid][name]
            if name in decl["locals"] and not self._in_comp(st):
                self.emit(st, "unbound", (const(name),), node)
                return ("unbound", name)
            # enclosing function's local not yet in env
        key = (("glob", func.module.name), name)
        if key in st.heap:
            return st.heap[key]
        t = self.p.resolve(func.module, name)
        if t[0] == "glob":
            return self.load_global(t, st)
        if t[0] == "undef":
            self.emit(st, "undef", (const(name),), node)
        return t

    def _in_comp(self, st):
        return False

    def load_global(self, t, st):
        key = (("glob", t[1]), t[2])
        if key in st.heap:
            return st.heap[key]
        if t in self.glob_cache:
            return self.glob_cache[t]
        mod = self.p.modules[t[1]]
        node = mod.globals.get(t[2])
        v = t
        if node is not None and not self._assigned_elsewhere(mod, t[2]):
            v2 = self._const_expr(node, mod)
            if v2 is not None:
                v = v2
        self.glob_cache[t] = v
        return v

    def _assigned_elsewhere(self, mod, name):
        n = 0
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Global) and name in x.names:
                return True
            if isinstance(x, ast.Assign):
                for tt in x.targets:
                    if isinstance(tt, ast.Name) and tt.id == name and (
                        tt.col_offset == 0 or x.col_offset == 4
                    ):
                        if x in mod.tree.body or any(
                            x in getattr(b, "body", [])
                            for b in mod.tree.body
                            if isinstance(b, (ast.If, ast.Try))
                        ):
                            n += 1
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (
                isinstance(x.func.value, ast.Name)
                and x.func.value.id == name
                and x.func.attr in _MUTATORS
            ):
                return True
        return n > 1

    def _const_expr(self, node, mod):
        try:
            val = ast.literal_eval(node)
        except (ValueError, TypeError, SyntaxError, MemoryError):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and (
                node.func.id in ("dict",) and not node.args
            ):
                try:
                    val = {
                        k.arg: ast.literal_eval(k.value) for k in node.keywords
                    }
                except (ValueError, TypeError):
                    return None
            else:
                return None
        return self.lit(val)

    def lit(self, val):
        if isinstance(val, (tuple, list)):
            return ("tuple", tuple(self.lit(x) for x in val))
        if isinstance(val, dict):
            return (
                "cdict",
                tuple((self.lit(k), self.lit(v)) for k, v in val.items()),
            )
        if isinstance(val, (set, frozenset)):
            return ("set", tuple(self.lit(x) for x in sorted(val, key=repr)))
        return const(val)

    def ev_Attribute(self, node, st):
        res = []
        for base, s in self.eval(node.value, st):
            res += self.get_attr_forks(base, node.attr, s, node)
        return res

    def get_attr_forks(self, base, attr, st, node):
        cls = self.class_of(base, st)
        if cls is not None and (base, attr) not in st.heap:
            m = cls.find_method(attr)
            if m is not None and m.is_property and self._ok_inline(m, st):
                out = []
                for o in self.call_function(m, None, (base,), {}, st, node):
                    if o.kind == "raise":
                        self._raise(o.val, o.st)
                    else:
                        out.append((o.val, o.st))
                return out
        return [(self.get_attr(base, attr, st, node), st)]

    def _canon_base(self, base):
        return base

    def get_attr(self, base, attr, st, node=None):
        if base[0] in ("mod", "ext"):
            if base[0] == "ext" and (base, attr) in st.heap:
                return st.heap[(base, attr)]
            t = self.p.attr_of(base, attr)
            if t[0] == "glob":
                return self.load_global(t, st)
            if (base, attr) in st.heap:
                return st.heap[(base, attr)]
            return t
        if base[0] == "super":
            _, cls_qual, obj = base
            after = self.p.classes_by_qual[cls_qual]
            cls = self.class_of(obj, st) or after
            m = cls.find_method(attr, after=after)
            if m is not None:
                return ("bound", obj, ("func", m.key, None))
            return ("attr", base, attr)
        if (base, attr) in st.heap:
            return st.heap[(base, attr)]
        cls = self.class_of(base, st)
        if cls is None and base[0] == "class":
            cls = self.p.classes_by_qual.get(base[1])
            if cls is not None:
                m = cls.find_method(attr)
                if m is not None:
                    if m.is_classmethod:
                        return ("bound", base, ("func", m.key, None))
                    return ("func", m.key, None)
        if cls is not None:
            m = cls.find_method(attr)
            if m is not None and not m.is_property:
                if m.is_static:
                    return ("func", m.key, None)
                if m.is_classmethod:
                    return ("bound", ("class", cls.qual), ("func", m.key, None))
                return ("bound", base, ("func", m.key, None))
            ca = cls.find_attr(attr)
            if ca is not None:
                c, vnode = ca
                if base[0] == "class" or not self._inst_assigned(cls, attr):
                    v = self._const_expr(vnode, c.module)
                    if v is not None:
                        return v
                    if isinstance(vnode, ast.Name):
                        t = self.p.resolve(c.module, vnode.id)
                        if t[0] in ("class", "func"):
                            return t
        return ("attr", base, attr)

    def _inst_assigned(self, cls, attr):
        cache = getattr(cls, "_inst_assigned_cache", None)
        if cache is None:
            cache = set()
            for c in cls.mro():
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store
                        ):
                            cache.add(n.attr)
            cls._inst_assigned_cache = cache
        return attr in cache

    def class_of(self, term, st):
        if term[0] == "obj":
            return self.p.classes_by_qual.get(term[2])
        if term[0] in ("const", "tuple", "list", "dict", "op", "cmp", "func",
                       "class", "mod", "ext", "bound"):
            return None
        return self.policy.type_of(term, self, st)

    def ev_Subscript(self, node, st):
        res = []
        for base, s in self.eval(node.value, st):
            for idx, s2 in self.eval(node.slice, s):
                res.append((self.get_item(base, idx, s2, node), s2))
        return res

    def get_item(self, base, idx, st, node=None):
        r = self.policy.on_item(self, base, idx, st)
        if r is not None:
            return r
        if base[0] in ("tuple", "list"):
            items = self.items_of(base, st)
            if items is not None and is_const(idx) and isinstance(idx[1], int):
                if -len(items) <= idx[1] < len(items):
                    return items[idx[1]]
            if items is not None and idx[0] == "slice" and all(
                is_const(x) for x in idx[1:]
            ):
                sl = slice(*[x[1] for x in idx[1:]])
                try:
                    return ("tuple", tuple(items[sl]))
                except TypeError:
                    pass
        if base[0] == "dict":
            items = st.heap.get((base, "#items"))
            if items is not None:
                for k, v in reversed(items):
                    if k == idx:
                        return v
        if base[0] == "cdict":
            for k, v in base[1]:
                if k == idx:
                    return v
        k = (base, ("item", strip_uid(idx)))
        if k in st.heap:
            return st.heap[k]
        return mk_item(base, idx)

    def ev_Slice(self, node, st):
        parts = [node.lower, node.upper, node.step]
        res = [((), st)]
        for p in parts:
            nxt = []
            for vals, s in res:
                if p is None:
                    nxt.append((vals + (NONE,), s))
                else:
                    for v, s2 in self.eval(p, s):
                        nxt.append((vals + (v,), s2))
            res = nxt
        return [(("slice",) + vals, s) for vals, s in res]

    def ev_Tuple(self, node, st):
        return [(("tuple", vals), s) for vals, s in self.eval_seq(node.elts, st)]

    def ev_Set(self, node, st):
        return [(("set", vals), s) for vals, s in self.eval_seq(node.elts, st)]

    def ev_List(self, node, st):
        res = []
        for vals, s in self.eval_seq(node.elts, st):
            res.append((self.new_list(vals, s, node), s))
        return res

    def new_list(self, vals, st, node):
        t = ("list", self.uid(node, st))
        if any(v[0] == "star" for v in vals):
            st.heap[(t, "#items")] = None
        else:
            st.heap[(t, "#items")] = tuple(vals)
        return t

    def ev_Dict(self, node, st):
        res = [((), st)]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for pairs, s in res:
                if k is None:
                    for vv, s2 in self.eval(v, s):
                        if vv[0] == "dict" and s2.heap.get((vv, "#items")):
                            nxt.append((pairs + s2.heap[(vv, "#items")], s2))
                        elif vv[0] == "cdict":
                            nxt.append((pairs + vv[1], s2))
                        else:
                            nxt.append((pairs + ((("star", vv), vv),), s2))
                else:
                    for kk, s1 in self.eval(k, s):
                        for vv, s2 in self.eval(v, s1):
                            nxt.append((pairs + ((kk, vv),), s2))
            res = nxt
        out = []
        for pairs, s in res:
            t = ("dict", self.uid(node, s))
            s.heap[(t, "#items")] = pairs
            out.append((t, s))
        return out

    def ev_BinOp(self, node, st):
        res = []
        op = _BINOP[type(node.op)]
        for a, s in self.eval(node.left, st):
            for b, s2 in self.eval(node.right, s):
                res.append((self.binop(op, a, b, s2), s2))
        return res

    def binop(self, op, a, b, st):
        if op == "+" and (a[0] in ("list", "tuple") and b[0] in ("list", "tuple")):
            ia, ib = self.items_of(a, st), self.items_of(b, st)
            if ia is not None and ib is not None:
                if a[0] == "tuple":
                    return ("tuple", tuple(ia) + tuple(ib))
                t = ("list", ("uid", hash((a, b)) & 0xFFFFFFFF, 0))
                st.heap[(t, "#items")] = tuple(ia) + tuple(ib)
                return t
        return mk_binop(op, a, b)

    def ev_UnaryOp(self, node, st):
        res = []
        for v, s in self.eval(node.operand, st):
            if isinstance(node.op, ast.Not):
                t, neg = self.truth_term(v, s)
                k = self.known_truth(t, s)
                if k is not None:
                    res.append((const((not k) if not neg else k), s))
                else:
                    res.append((mk_not(v), s))
            elif isinstance(node.op, ast.USub):
                if is_const(v) and isinstance(v[1], (int, float)):
                    res.append((const(-v[1]), s))
                else:
                    res.append((("neg", v), s))
            elif isinstance(node.op, ast.UAdd):
                res.append((v, s))
            else:
                res.append((("inv", v), s))
        return res

    def ev_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        res = []
        states = [st]
        for i, e in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in states:
                if last:
                    res += self.eval(e, s)
                    continue
                for v, s2 in self.eval(e, s):
                    for truth, s3 in self.fork(v, s2, e):
                        if truth != is_and:
                            boolish = v[0] in ("not", "cmp", "forall", "exists") or (
                                v[0] == "call" and v[1] in (
                                    ("ext", "isinstance"), ("ext", "bool"),
                                    ("ext", "hasattr"),
                                )
                            )
                            res.append((const(truth) if boolish else v, s3))
                        else:
                            nxt.append(s3)
            states = nxt
        return res

    def ev_Compare(self, node, st):
        if len(node.ops) > 1:
            return [(const(t), s) for t, s in self.cond(node, st)]
        res = []
        op = _CMP[type(node.ops[0])]
        for a, s in self.eval(node.left, st):
            for b, s2 in self.eval(node.comparators[0], s):
                res.append((self.compare(op, a, b, s2), s2))
        return res

    def compare(self, op, a, b, st):
        r = self.policy.on_compare(self, op, a, b, st)
        if r is not None:
            return r
        if op in ("in", "not in"):
            items = self.items_of(b, st)
            if b[0] == "cdict":
                items = tuple(k for k, _ in b[1])
            if items is not None:
                if a in items:
                    return const(op == "in")
                if is_const(a) and all(is_const(x) for x in items):
                    return const((a in items) == (op == "in"))
                if len(items) == 1 and b[0] != "star" and items[0][0] != "star":
                    t = mk_cmp("==", a, items[0])
                    return t if op == "in" else mk_not(t)
        if op in ("==", "!=", "is", "is not"):
            t, neg = self.truth_term(mk_cmp("is" if op[:2] == "is" else "==",
                                            a, b), st)
            k = self.known_truth(t, st)
            if k is not None:
                r = k != neg
                return const(r if op in ("==", "is") else not r)
        v = mk_cmp(op, a, b)
        t, neg = self.truth_term(v, st)
        if t in st.facts:
            return const(st.facts[t] != neg)
        return v

    def ev_IfExp(self, node, st):
        res = []
        for t, s in self.cond(node.test, st):
            res += self.eval(node.body if t else node.orelse, s)
        return res

    def ev_JoinedStr(self, node, st):
        res = [((), st)]
        for p in node.values:
            nxt = []
            for parts, s in res:
                if isinstance(p, ast.Constant):
                    nxt.append((parts + (const(p.value),), s))
                else:
                    spec = ""
                    if p.format_spec is not None:
                        try:
                            spec = "".join(
                                x.value if isinstance(x, ast.Constant) else "{}"
                                for x in p.format_spec.values
                            )
                        except AttributeError:
                            spec = "?"
                    conv = p.conversion
                    for v, s2 in self.eval(p.value, s):
                        nxt.append((parts + (("fmt", v, spec, conv),), s2))
            res = nxt
        return [(mk_fstr(parts), s) for parts, s in res]

    def ev_FormattedValue(self, node, st):
        return self.eval(node.value, st)

    def ev_Lambda(self, node, st):
        f = self._nested(node)
        return [(("func", f.key, self.frame), st)]

    def ev_NamedExpr(self, node, st):
        res = []
        for v, s in self.eval(node.value, st):
            self.store_name(node.target.id, v, s)
            res.append((v, s))
        return res

    def ev_Starred(self, node, st):
        return [(("star", v), s) for v, s in self.eval(node.value, st)]

    def ev_Await(self, node, st):
        res = []
        for v, s in self.eval(node.value, st):
            if v[0] == "coro":
                func = self.p.funcs_by_key[v[1][1]]
                for o in self.call_function(
                    func, v[1][2], v[2], dict(v[3]), s, node, awaited=True
                ):
                    if o.kind == "raise":
                        self._raise(o.val, o.st)
                    else:
                        res.append((o.val, o.st))
            else:
                self.emit(s, "await", (v,), node)
                self._after_await(s)
                res.append((v, s))
        return res

    def _after_await(self, st):
        self.policy.after_await(self, st)
        for k in [k for k in st.facts if self.policy.volatile(k)]:
            del st.facts[k]

    def ev_Yield(self, node, st):
        vals = [(NONE, st)] if node.value is None else self.eval(node.value, st)
        res = []
        for v, s in vals:
            gen_frame = s.env.get(self.frame, {}).get("#gen")
            if gen_frame:
                hook = self.hooks[gen_frame - 1]
                for o in hook(v, s):
                    if o.kind == "raise":
                        self._raise(o.val, o.st)
                    else:
                        res.append((NONE, o.st))
            else:
                self.emit(s, "yield", (self.deref(v, s),), node)
                res.append((("sent", self.uid(node, s)), s))
        return res

    def ev_YieldFrom(self, node, st):
        res = []
        for v, s in self.eval(node.value, st):
            if v[0] == "gen":
                gen_frame = s.env.get(self.frame, {}).get("#gen")
                if gen_frame:
                    hook = self.hooks[gen_frame - 1]
                else:
                    caller = list(self.stack)

                    def hook(val, s1):
                        self.emit(s1, "yield", (self.deref(val, s1),), node)
                        return [Out("next", NONE, s1)]

                for o in self._run_gen(v, s, hook, node):
                    if o.kind == "raise":
                        self._raise(o.val, o.st)
                    else:
                        res.append((o.val, o.st))
            else:
                self.emit(s, "yield_from", (v,), node)
                res.append((UNKNOWN, s))
        return res

    # comprehension -----------------------------------------------------
    def _comp(self, node, st, kind, elts):
        """evaluate a comprehension to a term (events of one iteration)"""
        fid = self.frame
        saved = dict(st.env[fid])

        def rec(gens, states):
            """states: list of (list of item tuples or None...)"""
            if not gens:
                return [((), s) for s in states]

        # exact unrolling when the (single) iterable is statically known
        gens = node.generators
        for it, s in self.eval(gens[0].iter, st):
            items = self.enum_items(it, s)
            if items is not None and len(gens) == 1:
                acc = [((), s)]
                for x in items:
                    nxt = []
                    for vals, s1 in acc:
                        for s2 in self.assign(gens[0].target, x, s1):
                            conds = [(True, s2)]
                            for c in gens[0].ifs:
                                cc = []
                                for t, s3 in conds:
                                    if not t:
                                        cc.append((t, s3))
                                    else:
                                        cc += self.cond(c, s3)
                                conds = cc
                            for t, s3 in conds:
                                if not t:
                                    nxt.append((vals, s3))
                                    continue
                                for vs, s4 in self.eval_seq(elts, s3):
                                    nxt.append((vals + (vs,), s4))
                    acc = nxt
                out = []
                for vals, s1 in acc:
                    self._restore_comp(s1, fid, saved, node)
                    out.append((("exact", vals), s1))
                yield from out
                continue
            # symbolic: one representative iteration
            states = [(s, ())]
            iters = []
            conds_all = []
            cur = s
            ok = True
            its = [it]
            for gi, g in enumerate(gens):
                if gi > 0:
                    r = self.eval(g.iter, cur)
                    v, cur = r[0]
                    its.append(v)
                r = self.assign(g.target, self.elem(its[gi], "*"), cur)
                cur = r[0]
                for c in g.ifs:
                    r = self._quiet_eval(c, cur)
                    conds_all.append(r)
                    # inside, the condition holds
                    t, neg = self.truth_term(r, cur)
                    if self.known_truth(t, cur) is None:
                        cur.facts[t] = not neg
                        conds_fact = t
            facts_before = dict(st.facts)
            vals = self.eval_seq(elts, cur)
            alts = []
            for vs, s4 in vals:
                if vs not in alts:
                    alts.append(vs)
            s4 = vals[0][1] if vals else cur
            if len(vals) > 1:
                # keep events of all alternatives in separate states
                pass
            for vs, s4 in vals if len(alts) > 1 and len(vals) <= 4 else vals[:1]:
                for k in list(s4.facts):
                    if k not in facts_before and k not in s.facts:
                        pass
                self._restore_comp(s4, fid, saved, node)
                yield (
                    (
                        "sym",
                        vs if len(alts) == 1 else vs,
                        tuple(its),
                        tuple(conds_all),
                    ),
                    s4,
                )

    def _quiet_eval(self, node, st):
        if isinstance(node, ast.BoolOp):
            op = "and" if isinstance(node.op, ast.And) else "or"
            return (op,) + tuple(self._quiet_eval(v, st) for v in node.values)
        r = self.eval(node, st.copy())
        return r[0][0] if r else UNKNOWN

    def _restore_comp(self, st, fid, saved, node):
        names = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            if n in saved:
                st.env[fid][n] = saved[n]
            else:
                st.env[fid].pop(n, None)

    def ev_ListComp(self, node, st):
        res = []
        for r, s in self._comp(node, st, "list", [node.elt]):
            if r[0] == "exact":
                res.append((self.new_list([v[0] for v in r[1]], s, node), s))
            else:
                res.append((("comp", "list", r[1][0], r[2], r[3]), s))
        return res

    def ev_GeneratorExp(self, node, st):
        res = []
        for r, s in self._comp(node, st, "gen", [node.elt]):
            if r[0] == "exact":
                res.append((("tuple", tuple(v[0] for v in r[1])), s))
            else:
                res.append((("comp", "gen", r[1][0], r[2], r[3]), s))
        return res

    def ev_SetComp(self, node, st):
        res = []
        for r, s in self._comp(node, st, "set", [node.elt]):
            if r[0] == "exact":
                res.append((("set", tuple(v[0] for v in r[1])), s))
            else:
                res.append((("comp", "set", r[1][0], r[2], r[3]), s))
        return res

    def ev_DictComp(self, node, st):
        res = []
        for r, s in self._comp(node, st, "dict", [node.key, node.value]):
            if r[0] == "exact":
                t = ("dict", self.uid(node, s))
                s.heap[(t, "#items")] = tuple((k, v) for k, v in r[1])
                res.append((t, s))
            else:
                res.append((("comp", "dict", ("tuple", r[1]), r[2], r[3]), s))
        return res

    # calls ---------------------------------------------------------------
    def ev_Call(self, node, st):
        res = []
        f = node.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            func = self.func
            cls = func.cls or getattr(func, "owner_cls", None)
            if cls is not None:
                names = func.node.args.args
                self_t = UNKNOWN
                fr = None
                if func.cls is not None and names:
                    self_t = st.env[self.frame].get(names[0].arg, UNKNOWN)
                else:
                    self_t = self.load_name("self", st, node)
                return [(("super", cls.qual, self_t), st)]
        for fv, s in self.eval(f, st):
            pos = node.args
            for args, s2 in self.eval_seq(pos, s):
                kws = [((), s2)]
                for k in node.keywords:
                    nxt = []
                    for ks, s3 in kws:
                        for v, s4 in self.eval(k.value, s3):
                            if k.arg is None:
                                if v[0] == "dict" and s4.heap.get((v, "#items")):
                                    add = tuple(
                                        (kk[1], vv)
                                        for kk, vv in s4.heap[(v, "#items")]
                                        if is_const(kk)
                                    )
                                    nxt.append((ks + add, s4))
                                elif v[0] == "cdict":
                                    nxt.append(
                                        (ks + tuple((kk[1], vv) for kk, vv in v[1]),
                                         s4)
                                    )
                                else:
                                    nxt.append((ks + (("**", v),), s4))
                            else:
                                nxt.append((ks + ((k.arg, v),), s4))
                    kws = nxt
                for ks, s3 in kws:
                    res += self.call(fv, args, dict(ks), s3, node)
        return res

    def _ok_inline(self, func, st):
        if len(self.stack) > self.policy.max_depth:
            return False
        if sum(1 for s in self.stack if s[0] is func) >= 2:
            return False
        if self.policy.transparent_writers and temporary_writer(func):
            # what is written in the temporary file is the file (see T03)
            return False
        return self.policy.should_inline(func, self, st)

    def call(self, fv, args, kwargs, st, node):
        r = self.policy.on_call(self, fv, args, kwargs, st, node)
        if r is not None:
            return r
        # partial
        if fv[0] == "partial":
            kw = dict(fv[3])
            kw.update(kwargs)
            return self.call(fv[1], fv[2] + tuple(args), kw, st, node)
        if fv == ("ext", "functools.partial") and args:
            return [(("partial", args[0], tuple(args[1:]),
                      tuple(sorted(kwargs.items()))), st)]
        # trio thread helper: calls its argument
        if fv in (("ext", "trio.to_thread.run_sync"),
                  ("ext", "anyio.to_thread.run_sync")) and args:
            self.emit(st, "thread", (args[0],) + tuple(args[1:]), node)
            self._after_await(st)
            out = []
            for v, s in self.call(args[0], tuple(args[1:]), {}, st, node):
                out.append((v, s))
            return out
        if fv[0] == "bound":
            f = self.p.funcs_by_key[fv[2][1]]
            return self._call_project(
                f, fv[2][2], (fv[1],) + tuple(args), kwargs, st, node, fv
            )
        if fv[0] == "func":
            f = self.p.funcs_by_key[fv[1]]
            return self._call_project(f, fv[2], tuple(args), kwargs, st, node, fv)
        if fv[0] == "class":
            return self._construct(fv, args, kwargs, st, node)
        if fv[0] == "ext":
            if fv[1] in ("sys.exit", "exit", "quit"):
                self.emit(st, "call", (fv, tuple(args), (), NONE), node)
                self._raise(("exc", "SystemExit", self.uid(node, st)), st)
                return []
            r = self._builtin(fv, args, kwargs, st, node)
            if r is not None:
                return r
        if fv[0] == "attr":
            r = self._method(fv, args, kwargs, st, node)
            if r is not None:
                return r
        return self.opaque(fv, args, kwargs, st, node)

    def opaque(self, fv, args, kwargs, st, node, raises=None):
        res = []
        uid = self.uid(node, st)
        kws = tuple(sorted(kwargs.items(), key=lambda kv: kv[0]))
        val = ("call", fv, tuple(self.deref_shallow(a, st) for a in args), kws, uid)
        ev = self.emit(st, "call", (fv, tuple(args), kws, val), node)
        self.opaque_calls.add((self.func.qual, getattr(node, "lineno", 0)))
        excs = (
            self.policy.may_raise(fv, args, kwargs, st, node, self)
            if raises is None
            else raises
        )
        for e in excs:
            s2 = st.copy()
            self.emit(s2, "call_raised", (fv, tuple(args), const(e)), node)
            self._raise(("exc", e, uid), s2)
        res.append((val, st))
        # opaque callee may mutate lists/dicts passed as argument
        for a in list(args) + [v for _, v in kws]:
            if a[0] in ("list", "dict") and not _pure_callee(fv):
                if a[0] == "list":
                    st.heap[(a, "#items")] = st.heap.get((a, "#items"))
        return res

    def deref_shallow(self, a, st):
        return a

    def deref(self, v, st, depth=6):
        """expand list/dict references to their contents"""
        if depth == 0:
            return v
        if v[0] == "list":
            items = st.heap.get((v, "#items"))
            if items is None:
                return ("list?", v[1])
            return ("lst", tuple(self.deref(x, st, depth - 1) for x in items))
        if v[0] == "dict":
            items = st.heap.get((v, "#items"))
            if items is None:
                return ("dict?", v[1])
            return (
                "dct",
                tuple(
                    (self.deref(k, st, depth - 1), self.deref(x, st, depth - 1))
                    for k, x in items
                ),
            )
        if v[0] == "tuple":
            return ("tuple", tuple(self.deref(x, st, depth - 1) for x in v[1]))
        if v[0] in ("op", "cmp", "not", "item", "call", "attr", "fstr", "neg"):
            return tuple(
                self.deref(x, st, depth - 1)
                if isinstance(x, tuple) and x and isinstance(x[0], str)
                and x[0] in ("list", "dict", "tuple", "op", "call", "item",
                             "attr", "cmp", "not", "neg")
                else (
                    tuple(
                        self.deref(y, st, depth - 1)
                        if isinstance(y, tuple) and y and isinstance(y[0], str)
                        else y
                        for y in x
                    )
                    if isinstance(x, tuple) and x and isinstance(x[0], tuple)
                    and v[0] == "call"
                    else x
                )
                for x in v
            )
        return v

    def _call_project(self, f, closure, args, kwargs, st, node, fv):
        if f.is_async:
            return [(("coro", ("func", f.key, closure), tuple(args),
                      tuple(sorted(kwargs.items()))), st)]
        if f.is_gen:
            if self._ok_inline(f, st):
                return [(("gen", ("func", f.key, closure), tuple(args),
                          tuple(sorted(kwargs.items()))), st)]
            return self.opaque(fv, args, kwargs, st, node)
        if not self._ok_inline(f, st):
            if fv[0] == "bound":
                return self.opaque(("attr", fv[1], f.name), args[1:], kwargs, st,
                                   node)
            return self.opaque(fv, args, kwargs, st, node)
        res = []
        for o in self.call_function(f, closure, args, kwargs, st, node):
            if o.kind == "raise":
                self._raise(o.val, o.st)
            else:
                res.append((o.val, o.st))
        return res

    def call_function(
        self, f, closure, args, kwargs, st, node, as_gen=False, awaited=False
    ):
        self.inlined.add(f.qual)
        fid = self._new_frame()
        env = {}
        dflts = {}
        if isinstance(closure, tuple):
            _, closure, dflts = closure
            dflts = dict(dflts)
        if closure is not None:
            env["#parent"] = ("frame", closure)
        if as_gen:
            env["#gen"] = len(self.hooks)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        rest = []
        star = False
        for i, v in enumerate(args):
            if v[0] == "star":
                star = True
                for n in names[i:]:
                    env[n] = mk_item(v[1], const(names.index(n) - i))
                break
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        extra = {}
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in allnames:
                env[k] = v
            else:
                extra[k] = v
        # defaults
        defaults = a.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in env:
                if "**" in extra:
                    env[n] = ("maybe", n, extra["**"])
                elif n in dflts:
                    env[n] = dflts[n]
                else:
                    env[n] = self._default(d, f, closure, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = dflts.get(x.arg) or self._default(d, f, closure, st)
                continue
            if False:
                env[x.arg] = self._default(d, f, closure, st)
        for n in allnames:
            env.setdefault(n, ("sym", n) if not extra else ("maybe", n))
        if a.vararg:
            env[a.vararg.arg] = ("tuple", tuple(rest))
        if a.kwarg:
            t = ("dict", self.uid(node, st))
            st.heap[(t, "#items")] = tuple(
                (const(k), v) for k, v in extra.items() if k != "**"
            ) if "**" not in extra else None
            if "**" in extra and len(extra) == 1:
                t = extra["**"]
            env[a.kwarg.arg] = t
        st.env[fid] = env
        self.emit(st, "enter", (("func", f.key, None), tuple(args)), node)
        outs = self._exec_function(f, fid, st, node)
        for o in outs:
            if o.kind in ("return", "raise"):
                self.stack.append((f, fid, (0, 0)))
                self.emit(
                    o.st, "exit", (("func", f.key, None), const(o.kind),
                                   o.val if o.val is not None else NONE), node
                )
                self.stack.pop()
                if not self._frame_escapes(f):
                    o.st.env.pop(fid, None)
        return outs

    def _frame_escapes(self, f):
        r = getattr(f, "_escapes", None)
        if r is None:
            r = any(
                isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
                for n in ast.walk(f.node)
                if n is not f.node
            )
            f._escapes = r
        return r

    def _default(self, d, f, closure, st):
        try:
            return self.lit(ast.literal_eval(d))
        except (ValueError, TypeError, SyntaxError):
            pass
        if isinstance(d, ast.Name):
            if closure is not None and d.id in st.env.get(closure, {}):
                return st.env[closure][d.id]
            return self.p.resolve(f.module, d.id)
        return ("default", f.qual, ast.unparse(d))

    def _construct(self, fv, args, kwargs, st, node):
        cls = self.p.classes_by_qual[fv[1]]
        obj = ("obj", self.uid(node, st), cls.qual)
        init = cls.find_method("__init__")
        self.emit(
            st, "new", (fv, tuple(args), tuple(sorted(kwargs.items())), obj), node
        )
        if init is not None and self._ok_inline(init, st):
            res = []
            for o in self.call_function(
                init, None, (obj,) + tuple(args), kwargs, st, node
            ):
                if o.kind == "raise":
                    self._raise(o.val, o.st)
                else:
                    res.append((obj, o.st))
            return res
        return [(obj, st)]

    def _builtin(self, fv, args, kwargs, st, node):
        name = fv[1]
        if name in ("any", "all") and len(args) == 1:
            return self._quant(name, args[0], st, node)
        if name == "bool" and len(args) == 1:
            t, neg = self.truth_term(args[0], st)
            k = self.known_truth(t, st)
            if k is not None:
                return [(const(k != neg), st)]
            return [(("call", fv, tuple(args), (), None), st)]
        if name == "len" and len(args) == 1:
            items = self.items_of(args[0], st)
            if items is not None and not any(x[0] == "star" for x in items):
                return [(const(len(items)), st)]
            if args[0][0] == "cdict":
                return [(const(len(args[0][1])), st)]
            return [(mk_len(args[0]), st)]
        if name == "hasattr" and len(args) == 2 and is_const(args[1]):
            base, attr = args[0], args[1][1]
            if (base, attr) in st.heap:
                return [(TRUE, st)]
            cls = self.class_of(base, st)
            if cls is not None and cls.find_method(attr) is not None:
                return [(TRUE, st)]
            return [(("call", fv, tuple(args), (), None), st)]
        if name == "getattr" and len(args) >= 2:
            if is_const(args[1]):
                if len(args) == 2:
                    return self.get_attr_forks(args[0], args[1][1], st, node)
                v = self.get_attr(args[0], args[1][1], st, node)
                if v[0] != "attr":
                    return [(v, st)]
                s2 = st.copy()
                has = ("call", ("ext", "hasattr"), (args[0], args[1]), (), None)
                out = []
                k = st.facts.get(has)
                if k is not False:
                    st.facts[has] = True
                    out.append((v, st))
                if k is not True:
                    s2.facts[has] = False
                    out.append((args[2], s2))
                return out
            return [(("attr?", args[0], args[1]), st)]
        if name == "setattr" and len(args) == 3:
            if is_const(args[1]):
                self.set_attr(args[0], args[1][1], args[2], st, node)
            else:
                self.emit(st, "setattr?", (args[0], args[1], args[2]), node)
            return [(NONE, st)]
        if name == "isinstance" and len(args) == 2:
            r = self._isinstance(args[0], args[1], st)
            if r is not None:
                return [(const(r), st)]
            return [(("call", fv, tuple(args), (), None), st)]
        if name in ("list", "tuple", "set", "dict") and not kwargs:
            if not args:
                if name == "list":
                    return [(self.new_list((), st, node), st)]
                if name == "dict":
                    t = ("dict", self.uid(node, st))
                    st.heap[(t, "#items")] = ()
                    return [(t, st)]
                return [((name, ()) , st)]
            items = self.enum_items(args[0], st) if name != "dict" else None
            if items is not None:
                if name == "list":
                    return [(self.new_list(items, st, node), st)]
                return [((name, tuple(items)), st)]
            return [(("call", fv, tuple(args), (), None), st)]
        if name == "dict" and kwargs and not args:
            t = ("dict", self.uid(node, st))
            st.heap[(t, "#items")] = (
                None if "**" in kwargs else
                tuple((const(k), v) for k, v in kwargs.items())
            )
            return [(t, st)]
        if name == "str" and len(args) == 1:
            return [(mk_fstr((("fmt", args[0], "", -1),)), st)]
        if name in PURE_BUILTINS:
            if name in ("min", "max") and all(
                is_const(a) and isinstance(a[1], (int, float)) for a in args
            ) and len(args) > 1:
                return [(const(getattr(builtins, name)(*[a[1] for a in args])), st)]
            if name in ("int", "abs", "float") and len(args) == 1 and is_const(
                args[0]
            ):
                try:
                    return [(const(getattr(builtins, name)(args[0][1])), st)]
                except Exception:
                    pass
            if name in ("map", "filter", "sorted"):
                return None
            excs = self.policy.may_raise(fv, args, kwargs, st, node, self)
            for e in excs:
                self._raise(("exc", e, self.uid(node, st)), st.copy())
            if name in ("zip", "enumerate") and "start" in kwargs:
                args = tuple(args) + (kwargs.pop("start"),)
            return [
                (("call", fv, tuple(args),
                  tuple(sorted(kwargs.items())), None), st)
            ]
        if name == "print":
            return self.opaque(fv, args, kwargs, st, node)
        if hasattr(builtins, name):
            c = getattr(builtins, name)
            if isinstance(c, type) and issubclass(c, BaseException):
                return [(("exc", name, ("tuple", tuple(args))), st)]
        return None

    def _isinstance(self, v, t, st):
        names = []
        for x in (t[1] if t[0] == "tuple" else (t,)):
            if x[0] in ("ext", "class"):
                names.append(x[1].split(".")[-1])
            else:
                return None
        key = ("call", ("ext", "isinstance"), (v, t), (), None)
        if key in st.facts:
            return st.facts[key]
        if v[0] == "exc":
            mro = self._exc_mro(v[1].split(".")[-1]) | (
                {"Exception"} if v[1] == "AnyException" else set()
            )
            return any(n in mro for n in names)
        if v[0] == "obj":
            c = self.p.classes_by_qual.get(v[2])
            if c is not None:
                return any(c.is_subclass(n) for n in names)
        if v[0] == "const":
            for n in names:
                k = getattr(builtins, n, None)
                if isinstance(k, type) and isinstance(v[1], k):
                    return True
            if all(hasattr(builtins, n) for n in names):
                return False
        if v[0] in ("tuple", "list", "dict", "set", "fstr"):
            nm = {"fstr": "str"}.get(v[0], v[0])
            if nm in names:
                return True
            if all(hasattr(builtins, n) for n in names):
                return False
        return None

    def _quant(self, name, arg, st, node):
        """any()/all() in a canonical form"""
        if arg[0] == "call" and arg[1] in (("ext", "list"), ("ext", "tuple")) and (
            len(arg[2]) == 1
        ):
            arg = arg[2][0]
        items = self.items_of(arg, st)
        if items is not None:
            # fold over known items
            res = []
            states = [st]
            for x in items:
                nxt = []
                for s in states:
                    for t, s2 in self.fork(x, s, node):
                        if t == (name == "any"):
                            res.append((const(name == "any"), s2))
                        else:
                            nxt.append(s2)
                states = nxt
            res += [(const(name == "all"), s) for s in states]
            return res
        if arg[0] == "comp" and arg[1] in ("list", "gen", "set") and not arg[4]:
            body, neg = self.truth_term(arg[2], st)
            its = arg[3]
        elif arg[0] == "comp" and arg[1] in ("list", "gen", "set"):
            body, neg = ("compcond", arg[2], arg[4]), False
            its = arg[3]
        elif arg[0] == "call" and arg[1] == ("ext", "map") and len(arg[2]) == 2:
            e = self.elem(arg[2][1], "*")
            body, neg = self.truth_term(("call", arg[2][0], (e,), (), None), st)
            its = (arg[2][1],)
        else:
            body, neg = self.elem(arg, "*"), False
            its = (arg,)
        # all(b) -> forall(b) ; any(b) -> not forall(not b)
        if name == "all":
            v = ("forall", body if not neg else ("not", body), its)
            return [(v, st)]
        v = ("not", ("forall", ("not", body) if not neg else body, its))
        return [(v, st)]

    def _list_extend(self, lst, rhs, st):
        items = st.heap.get((lst, "#items"))
        new = self.items_of(rhs, st)
        if items is not None and new is not None:
            st.heap[(lst, "#items")] = tuple(items) + tuple(new)
        else:
            st.heap[(lst, "#items")] = None

    def _method(self, fv, args, kwargs, st, node):
        base, name = fv[1], fv[2]
        if name == "update" and (
            (base[0] == "attr" and base[2] == "__dict__")
            or (base[0] == "call" and base[1] == ("ext", "vars") and base[2])
        ):
            obj = base[1] if base[0] == "attr" else base[2][0]
            pairs = []
            for a in args:
                items = st.heap.get((a, "#items")) if a[0] == "dict" else (
                    a[1] if a[0] == "cdict" else None)
                if items is None or not all(is_const(k) for k, _ in items):
                    return None
                pairs += [(k[1], v) for k, v in items]
            pairs += list(kwargs.items())
            for k, v in pairs:
                self.set_attr(obj, k, v, st, node)
            return [(NONE, st)]
        if base[0] == "list":
            items = st.heap.get((base, "#items"))
            if name == "append" and len(args) == 1:
                st.heap[(base, "#items")] = (
                    None if items is None else items + (args[0],)
                )
                self.emit(st, "call", (fv, tuple(args), (), NONE), node)
                return [(NONE, st)]
            if name == "extend" and len(args) == 1:
                self._list_extend(base, args[0], st)
                self.emit(st, "call", (fv, tuple(args), (), NONE), node)
                return [(NONE, st)]
            if name == "insert" and len(args) == 2 and items is not None and (
                args[0] == const(0)
            ):
                st.heap[(base, "#items")] = (args[1],) + items
                self.emit(st, "call", (fv, tuple(args), (), NONE), node)
                return [(NONE, st)]
            if name == "pop" and items and not kwargs and (
                not args or args[0] in (const(0), const(-1))
            ) and not any(x[0] == "star" for x in items):
                n = -1 if not args else args[0][1]
                st.heap[(base, "#items")] = (
                    items[:-1] if n == -1 else items[1:]
                )
                self.emit(st, "call", (fv, tuple(args), (), items[n]), node)
                return [(items[n], st)]
            if name in _MUTATORS:
                st.heap[(base, "#items")] = () if name == "clear" else None
        elif base[0] == "dict":
            items = st.heap.get((base, "#items"))
            if name in ("items", "keys", "values") and not args:
                return [(("call", fv, (), (), None), st)]
            if name == "get" and items is not None and args:
                for k, v in reversed(items):
                    if k == args[0]:
                        return [(v, st)]
                if is_const(args[0]) and all(is_const(k) for k, _ in items):
                    return [(args[1] if len(args) > 1 else NONE, st)]
            if name == "pop" and items is not None and args and all(
                is_const(k) for k, _ in items
            ) and is_const(args[0]):
                found = [v for k, v in items if k == args[0]]
                if found or len(args) > 1:
                    v = found[-1] if found else args[1]
                    st.heap[(base, "#items")] = tuple(
                        (k, x) for k, x in items if k != args[0])
                    self.emit(st, "call", (fv, tuple(args), (), v), node)
                    return [(v, st)]
            if name == "update" and items is not None:
                add = ()
                ok = True
                for a in args:
                    if a[0] == "dict" and st.heap.get((a, "#items")) is not None:
                        add += st.heap[(a, "#items")]
                    elif a[0] == "cdict":
                        add += a[1]
                    else:
                        ok = False
                add += tuple((const(k), v) for k, v in kwargs.items())
                if ok:
                    keys = {k for k, _ in add}
                    st.heap[(base, "#items")] = tuple(
                        (k, v) for k, v in items if k not in keys
                    ) + add
                else:
                    st.heap[(base, "#items")] = None
                self.emit(
                    st, "call",
                    (fv, tuple(args), tuple(sorted(kwargs.items())), NONE), node
                )
                return [(NONE, st)]
            if name in _MUTATORS:
                st.heap[(base, "#items")] = () if name == "clear" else None
        elif base[0] == "cdict":
            if name in ("items", "keys", "values") and not args:
                sel = {
                    "items": lambda k, v: ("tuple", (k, v)),
                    "keys": lambda k, v: k,
                    "values": lambda k, v: v,
                }[name]
                return [(("tuple", tuple(sel(k, v) for k, v in base[1])), st)]
            if name == "get" and args:
                for k, v in base[1]:
                    if k == args[0]:
                        return [(v, st)]
        elif is_const(base) and isinstance(base[1], str):
            v = const_fold_method(base, name, args, kwargs)
            if v is not None:
                return [(v, st)]
            if name == "join" and len(args) == 1:
                items = self.items_of(args[0], st)
                if items is not None:
                    parts = []
                    for i, x in enumerate(items):
                        if i:
                            parts.append(base)
                        parts.append(("fmt", x, "", -1))
                    return [(mk_fstr(tuple(parts)), st)]
                return [(("join", base, self.deref(args[0], st)), st)]
        if name in ("items", "keys", "values") and not args:
            return [(("call", fv, (), (), None), st)]
        return None


def endless(it):
    return it[0] == "call" and it[1] in (
        ("ext", "itertools.count"), ("ext", "itertools.cycle"),
        ("ext", "itertools.repeat")) and len(it[2]) < (
            2 if it[1][1].endswith("repeat") else 3)


def _pure_callee(fv):
    return False


def _is_fresh(v):
    """a new object, created by this call"""
    return v[0] == "call" and len(v) == 5 and v[4] is not None and v[1] in (
        ("ext", "copy.copy"), ("ext", "copy.deepcopy"))


def _is_len(v):
    return v[0] == "call" and v[1] == ("ext", "len")


def _as_load(node):
    import copy

    n = copy.copy(node)
    n.ctx = ast.Load()
    return n
