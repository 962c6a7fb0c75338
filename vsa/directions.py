"""Typing of quantities by direction of space (x or y).

A units-like inference on the syntax tree: names with a counterpart in the other
direction (ixvec/iyvec, nx/ny, ...) have the type of their direction, shapes of
images are the sequence (y, x), and types flow through assignments, sequences,
comprehensions, calls and returns, attributes and parameters (flow insensitive,
whole set of modules, fixed point). Then each construct is checked.
"""

import ast
import re

from .arrays import Swap

KEEP_METHODS = {"copy", "astype", "flatten", "ravel", "min", "max", "mean", "item",
                "tolist", "round", "squeeze", "sum", "clip", "transpose",
                "reshape"}
KEEP_FUNCS = {"round", "abs", "int", "float", "floor", "ceil", "array", "asarray",
              "ascontiguousarray", "rint", "around", "unique", "sorted", "fabs",
              "sum", "mean", "median", "nansum", "nanmean", "nanmin", "nanmax",
              "vstack", "stack", "column_stack", "hstack", "tuple", "list", "int32", "int64",
              "float32", "float64", "array_split", "flip", "copy", "ravel",
              "absolute", "sign", "cumsum", "trunc", "squeeze", "atleast_1d"}
JOIN_FUNCS = {"range", "arange", "linspace", "append", "clip", "maximum",
              "minimum", "roll", "insert", "searchsorted", "digitize"}
SHAPED = {"zeros", "empty", "ones", "full", "reshape", "resize", "ndindex",
          "broadcast_to"}
SKIP_METHODS = {"copy", "get", "append", "format", "join", "split", "items", "keys",
                "values", "update", "pop", "close", "open", "write", "read",
                "save", "load", "add", "extend", "index", "count", "setdefault"}
XY = ("X", "Y")
OTHER = {"X": "Y", "Y": "X"}


def seq(ts):
    ts = tuple(ts)
    return ("seq", ts) if any(t is not None for t in ts) and len(ts) < 12 else None


def is_seq(t):
    return isinstance(t, tuple) and t[0] == "seq"


def weak(t):
    return isinstance(t, tuple) and t[0] == "weak"


def strip(t):
    return None if weak(t) else t


def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if is_seq(a) and is_seq(b) and len(a[1]) == len(b[1]):
        return ("seq", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if is_seq(a) and b in XY and set(a[1]) <= {b, None}:
        return a
    if is_seq(b) and a in XY and set(b[1]) <= {a, None}:
        return b
    return "T"


def conflict(a, b):
    """two layouts of a pair which contradict each other"""
    if not (is_seq(a) and is_seq(b) and len(a[1]) == len(b[1])):
        return False
    return any(x in XY and y in XY and x != y for x, y in zip(a[1], b[1]))


def uniform(t):
    """X, Y or None for a type or a sequence of only one direction"""
    if weak(t):
        return t[1]
    if t in XY:
        return t
    if is_seq(t):
        s = {uniform(x) for x in t[1]}
        if len(s) == 1:
            return s.pop()
    return None


class Directions:
    def __init__(self, project, modules):
        self.p = project
        self.swap = Swap(project)
        self.funcs = []
        self.mods = [m for m in project.modules.values() if modules(m.name)]
        self.by_name = {}
        for m in self.mods:
            fs = list(m.funcs.values())
            for c in m.classes.values():
                fs += list(c.methods.values())
            for f in fs:
                self.funcs.append(f)
                self.by_name.setdefault(f.name, []).append(f)
        self.env = {}
        self.origin = {}
        self.report = False
        self.errors = {}
        self.n = dict(assign=0, op=0, index=0, call=0, shape=0, layout=0, test=0)
        self._letters = {}
        self.local = {}
        self.generic = set()
        for f in self.funcs:
            names = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    names.add(n.id)
            self.local[f.key] = names
            # parameter of a function which is called for both directions
            for a in f.node.args.args + f.node.args.kwonlyargs:
                if self.letter(a.arg) and self.swap.name(a.arg) not in names:
                    self.generic.add((f.key, a.arg))

    # -- names -----------------------------------------------------------
    def letter(self, n):
        if n in self._letters:
            return self._letters[n]
        res = None
        o = self.swap.name(n)
        if re.search(r"d[A-Za-z]{1,2}d[xyXY]|d[xy][UVuvxy]", n):
            o = n
        if o != n and len(o) == len(n):
            i = next(i for i in range(len(n)) if n[i] != o[i])
            res = "X" if n[i] in "xX" else "Y"
            rest = n[:i] + "_" + n[i + 1:]
            if self.swap.name(rest) != rest:
                res = None
            # another letter of direction: dxUy
            low = rest.lower()
            other = "y" if res == "X" else "x"
            for j, c in enumerate(low):
                if c == other and not Swap._word(rest, j) and (
                    j == 0 or not low[j - 1].isalpha() or j + 1 == len(low)
                    or not low[j + 1].isalpha()
                ):
                    res = None
        self._letters[n] = res
        return res

    def set(self, key, t, node=None, what=""):
        t = strip(t)
        if t is None:
            return
        old = self.env.get(key)
        if self.report:
            return
        new = join(old, t)
        if new != old:
            self.origin.setdefault(key, []).append(
                (self.f.short, getattr(node, "lineno", 0), t))
            self.env[key] = new
            self.changed = True

    def run(self):
        for _ in range(12):
            self.changed = False
            for f in self.funcs:
                self.function(f)
            if not self.changed:
                break
        self.report = True
        for f in self.funcs:
            self.function(f)

    # -- statements ------------------------------------------------------
    def function(self, f):
        self.f = f
        self.over = {}
        self.block(f.node.body)

    def err(self, kind, node, construct, msg):
        if self.report:
            self.errors.setdefault(
                (self.f.short, kind, construct),
                (msg, getattr(node, "lineno", None)))

    def count(self, kind):
        if self.report:
            self.n[kind] += 1

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            t = self.ty(s.value)
            for target in s.targets:
                self.bind(target, t, s, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ty(s.value), s, s.value)
        elif isinstance(s, ast.AugAssign):
            a = self.ty(ast_load(s.target))
            b = self.ty(s.value)
            t = self.binop(s.op, a, b, s, s.target, s.value)
            self.bind(s.target, t, s, s.value)
        elif isinstance(s, ast.For):
            self.bind_iter(s.target, s.iter, s)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.ty(s.test)
            self.block(s.body)
        elif isinstance(s, ast.If):
            self.ty(s.test)
            self.test(s)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ty(i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                t = self.ty(s.value)
                self.ret(t, s)
        elif isinstance(s, (ast.Expr, ast.Raise, ast.Assert)):
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.ty(e)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            pass

    def ret(self, t, s):
        key = ("r", self.f.key)
        if is_seq(t):
            self.count("layout")
            for g in self.by_name.get(self.f.name, ()):
                if (g.cls is None) != (self.f.cls is None):
                    continue
                if g.cls is not None and not related(g.cls, self.f.cls):
                    continue
                o = self.env.get(("r", g.key))
                if conflict(o, t) or is_seq(o) and "T" in o[1] and (
                    len(o[1]) == len(t[1])):
                    self.err("layout", s, "return",
                             f"returns ({order(t)}) whereas {g.short} returns "
                             f"({order(o)})")
        self.set(key, t)

    def test(self, s):
        """a condition on one direction only which modifies the other one"""
        if len(s.body) > 2 or len(s.orelse) > 2 or any(
            isinstance(b, (ast.If, ast.For, ast.Return)) for b in s.orelse
        ):
            return
        letters = set()
        for n in ast.walk(s.test):
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
                rep, self.report = self.report, False
                ch, self.changed = getattr(self, "changed", False), False
                t = self.ty(n)
                self.report, self.changed = rep, ch
                if t in XY:
                    letters.add(t)
        if len(letters) != 1:
            return
        d = letters.pop()
        got, last = set(), None
        for b in s.body + s.orelse:
            if isinstance(b, (ast.Assign, ast.AugAssign)):
                ts = b.targets if isinstance(b, ast.Assign) else [b.target]
                got |= {self.target_letter(t) for t in ts}
                last = ts[0]
        if last is None or any(
            isinstance(c, ast.Constant) and c.value is None
            for c in ast.walk(s.test)
        ) and not any(isinstance(c, ast.Subscript) for c in ast.walk(s.test)):
            return
        self.count("test")
        if got == {OTHER[d]}:
            self.err("test", s, ast.unparse(last),
                     f"a condition on {d.lower()} ({ast.unparse(s.test)[:60]}) "
                     f"modifies {ast.unparse(last)}")

    def target_letter(self, t):
        rep, self.report = self.report, False
        ch, self.changed = getattr(self, "changed", False), False
        r = self.ty(ast_load(t))
        self.report, self.changed = rep, ch
        return uniform(r)

    def attr_key(self, t):
        if isinstance(t.value, ast.Name) and t.value.id == "self" and (
            self.f.cls is not None
        ):
            return ("a", root(self.f.cls), t.attr)
        if isinstance(t.value, ast.Name) and t.value.id != "self":
            return ("o", "", t.attr)
        return None

    # -- binding ---------------------------------------------------------
    def bind(self, target, t, node, value=None):
        if isinstance(target, (ast.Name, ast.Attribute)):
            name = target.id if isinstance(target, ast.Name) else target.attr
            d = self.letter(name)
            if isinstance(target, ast.Name) and (
                self.f.key, name) in self.generic:
                return
            if d is not None:
                self.count("assign")
                u = uniform(t)
                if u is not None and u != d:
                    self.err("assign", node, name,
                             f"{name} ({d.lower()}) is given a value of "
                             f"direction {u.lower()}"
                             + (f": {ast.unparse(value)[:80]}"
                                if value is not None else ""))
                return
            if "shape" in name:
                self.count("assign")
                if is_seq(t) and len(t[1]) == 2 and (
                    uniform(t[1][0]) == "X" or uniform(t[1][1]) == "Y"
                ):
                    self.err("shape", node, name, f"{name} is given (x, y)"
                             + (f": {ast.unparse(value)[:80]}"
                                if value is not None else ""))
                return
            if isinstance(target, ast.Name):
                if target.id in self.over:
                    return
                self.set(("l", self.f.key, target.id), t)
            else:
                key = self.attr_key(target)
                if key is None:
                    return
                old = self.env.get(key)
                if is_seq(t) and is_seq(old) and len(old[1]) == len(t[1]):
                    self.count("layout")
                    if "T" in old[1] and not ("T" in t[1]):
                        self.err("layout", node, target.attr,
                                 f"{target.attr} is given ({order(t)}) here and "
                                 "the opposite order elsewhere")
                self.set(key, t)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            if is_seq(t) and len(t[1]) == n:
                vals = value.elts if isinstance(
                    value, (ast.Tuple, ast.List)) and len(
                        value.elts) == n else [value] * n
                for e, x, v in zip(target.elts, t[1], vals):
                    self.bind(e, x, node, v)
            else:
                u = t if t in XY or weak(t) else None
                for e in target.elts:
                    self.bind(e, u, node, value)
        elif isinstance(target, ast.Subscript):
            b = self.ty(ast_load(target))
            u = uniform(t)
            self.count("assign")
            if b in XY and u is not None and b != u:
                self.err("assign", node, ast.unparse(target),
                         f"{ast.unparse(target)} ({b.lower()}) is given a value "
                         f"of direction {u.lower()}")
        elif isinstance(target, ast.Starred):
            pass

    def elem(self, it):
        """type of the elements of an iterable"""
        t = self.ty(it)
        if is_seq(t):
            r = None
            for x in t[1]:
                r = join(r, x)
            return None if r == "T" else r
        return strip(t)

    def bind_iter(self, target, it, node):
        self.bind(target, self.iter_type(it), node, None)

    def iter_type(self, it):
        if isinstance(it, ast.Call):
            n = callee(it)
            if n == "enumerate" and it.args:
                return seq((None, self.iter_type(it.args[0])))
            if n == "zip":
                return seq(self.iter_type(a) for a in it.args)
            if n == "ndenumerate":
                for a in it.args:
                    self.ty(a)
                return seq((seq(("Y", "X")), None))
            if n == "ndindex":
                for a in it.args:
                    self.ty(a)
                return seq(("Y", "X"))
            if n == "product":
                return seq(self.iter_type(a) for a in it.args)
        return self.elem(it)

    # -- expressions -----------------------------------------------------
    def ty(self, e):
        m = getattr(self, "_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ty(c)
        return None

    def _Constant(self, e):
        return None

    def _Lambda(self, e):
        return None

    def _Name(self, e):
        if e.id in self.over:
            return self.over[e.id]
        if e.id not in self.local[self.f.key]:
            return None
        d = self.letter(e.id)
        if (self.f.key, e.id) in self.generic:
            return None
        if d:
            return d
        if "shape" in e.id:
            return seq(("Y", "X"))
        t = self.env.get(("l", self.f.key, e.id))
        return None if t == "T" else t

    def _Attribute(self, e):
        b = self.ty(e.value)
        d = self.letter(e.attr)
        if d:
            return d
        if "shape" in e.attr:
            if b in XY or is_seq(b):
                return None
            return seq(("Y", "X"))
        if e.attr == "T":
            return b
        if isinstance(e.value, ast.Name) and e.value.id == "self" and (
            self.f.cls is not None
        ):
            t = self.env.get(("a", root(self.f.cls), e.attr))
        else:
            k = ("o", "", e.attr)
            if k in self.env and isinstance(e.value, ast.Name):
                return None if self.env[k] == "T" else self.env[k]
            ks = [k for k in self.env if k[0] == "a" and k[2] == e.attr]
            t = self.env[ks[0]] if len(ks) == 1 else None
        return None if t == "T" else t

    def _Subscript(self, e):
        b = self.ty(e.value)
        s = e.slice
        if isinstance(s, ast.Tuple):
            ts = [self.index(x) for x in s.elts]
            if is_seq(b) and len(s.elts) == 2:
                k = int_const(s.elts[0])
                if k is not None and -len(b[1]) <= k < len(b[1]):
                    return b[1][k]
                if full(s.elts[0]) or isinstance(s.elts[0], ast.Slice):
                    return b
                return None
            if len(ts) == 2:
                self.count("index")
                if ts[0] == "X" or ts[1] == "Y":
                    self.err("index", e, ast.unparse(e)[:80],
                             f"indices in the order (x, y): "
                             f"{ast.unparse(e)[:100]}")
            return b if b in XY else None
        if isinstance(s, ast.Slice):
            self.index(s)
            if is_seq(b):
                lo, hi, st = (int_const(x) if x is not None else None
                              for x in (s.lower, s.upper, s.step))
                try:
                    return seq(b[1][slice(lo, hi, st)])
                except ValueError:
                    return None
            return b
        i = self.ty(s)
        if is_seq(b):
            k = int_const(s)
            if k is not None and -len(b[1]) <= k < len(b[1]):
                return b[1][k]
            return uniform(b)
        if b in XY:
            self.count("index")
            if i in XY and i != b:
                self.err("index", e, ast.unparse(e)[:80],
                         f"{ast.unparse(e.value)} ({b.lower()}) is indexed with "
                         f"{ast.unparse(s)} ({i.lower()})")
            return b
        return None

    def index(self, x):
        if isinstance(x, ast.Slice):
            ts = {uniform(self.ty(y)) for y in (x.lower, x.upper) if y is not None}
            ts.discard(None)
            if len(ts) == 2:
                self.err("index", x, ast.unparse(x)[:60],
                         f"bounds of different directions: {ast.unparse(x)}")
            return ts.pop() if len(ts) == 1 else None
        return uniform(strip(self.ty(x)))

    def _BinOp(self, e):
        return self.binop(e.op, self.ty(e.left), self.ty(e.right), e, e.left,
                          e.right)

    def binop(self, op, a, b, node, left, right):
        a, b = strip(a), strip(b)
        if isinstance(op, (ast.Add, ast.Sub)):
            self.count("op")
            if is_seq(a) and is_seq(b):
                if isinstance(op, ast.Add):
                    return None
                if len(a[1]) == len(b[1]):
                    return seq(self.binop(op, x, y, node, left, right)
                               for x, y in zip(a[1], b[1]))
                return None
            if is_seq(a) and b is None or is_seq(b) and a is None:
                return a if is_seq(a) else b
            if a in XY and b in XY and a != b:
                if self.counterpart(left, right):
                    return None
                self.err("op", node, ast.unparse(node)[:80],
                         f"quantities of x and y are combined: "
                         f"{ast.unparse(node)[:100]}")
                return None
            return a if a in XY else b if b in XY else None
        if isinstance(op, (ast.Mult,)):
            if a in XY and b in XY:
                return None
            if is_seq(a) and b is None:
                return a
            if is_seq(b) and a is None:
                return b
            return a if a in XY else b if b in XY else None
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if a in XY and b is None:
                return a
            if is_seq(a) and b is None:
                return a
            return None
        return None

    def counterpart(self, a, b):
        return self.swap_src(a) == ast.unparse(b) or ast.unparse(
            a) == self.swap_src(b)

    def swap_src(self, e):
        class T(ast.NodeTransformer):
            def __init__(s, sw):
                s.sw = sw

            def visit_Name(s, n):
                return ast.Name(s.sw.name(n.id), n.ctx)

            def visit_Attribute(s, n):
                return ast.Attribute(s.visit(n.value), s.sw.name(n.attr), n.ctx)

            def visit_Subscript(s, n):
                k = int_const(n.slice)
                if k in (0, 1):
                    return ast.Subscript(s.visit(n.value), ast.Constant(1 - k),
                                         n.ctx)
                return s.generic_visit(n)

        return ast.unparse(T(self.swap).visit(ast.parse(
            ast.unparse(e), mode="eval").body))

    def _UnaryOp(self, e):
        t = self.ty(e.operand)
        return None if isinstance(e.op, ast.Not) else t

    def _Compare(self, e):
        parts = [e.left] + e.comparators
        ts = [self.ty(x) for x in parts]
        for i, op in enumerate(e.ops):
            a, b = uniform(strip(ts[i])), uniform(strip(ts[i + 1]))
            if a in XY and b in XY:
                self.count("op")
                if a != b and not self.counterpart(parts[i], parts[i + 1]) and (
                    not isinstance(op, (ast.In, ast.NotIn))
                ):
                    self.err("op", e, ast.unparse(e)[:80],
                             f"a quantity of {a.lower()} is compared to a "
                             f"quantity of {b.lower()}: {ast.unparse(e)[:100]}")
            if conflict(ts[i], ts[i + 1]):
                self.err("layout", e, ast.unparse(e)[:80],
                         f"comparison of ({order(ts[i])}) with "
                         f"({order(ts[i + 1])}): {ast.unparse(e)[:100]}")
        return None

    def _BoolOp(self, e):
        r = None
        for x in e.values:
            r = join(r, strip(self.ty(x)))
        return None if r == "T" else r

    def _IfExp(self, e):
        self.ty(e.test)
        r = join(self.ty(e.body), self.ty(e.orelse))
        return None if r == "T" else r

    def _Tuple(self, e):
        ts = []
        for x in e.elts:
            t = self.ty(x.value if isinstance(x, ast.Starred) else x)
            if isinstance(x, ast.Starred):
                if is_seq(t):
                    ts += t[1]
                    continue
                return None
            ts.append(t)
        return seq(ts)

    _List = _Tuple

    def _NamedExpr(self, e):
        t = self.ty(e.value)
        self.bind(e.target, t, e, e.value)
        return t

    def _GeneratorExp(self, e):
        if len(e.generators) != 1:
            return None
        g = e.generators[0]
        t = self.iter_zip(g.iter)
        old = dict(self.over)
        try:
            if is_seq(t) and not g.ifs:
                out = []
                for x in t[1]:
                    self.bind_over(g.target, x)
                    out.append(self.ty(e.elt))
                return seq(out)
            self.bind_over(g.target, strip(t))
            for c in g.ifs:
                self.ty(c)
            return self.ty(e.elt)
        finally:
            self.over = old

    _ListComp = _GeneratorExp
    _SetComp = _GeneratorExp

    def _DictComp(self, e):
        return None

    def iter_zip(self, it):
        """sequence of the types of the successive elements"""
        if isinstance(it, ast.Call) and callee(it) == "zip":
            ts = [self.ty(a) for a in it.args]
            lens = {len(t[1]) for t in ts if is_seq(t)}
            if len(lens) == 1:
                n = lens.pop()
                return ("seq", tuple(
                    ("seq", tuple(t[1][i] if is_seq(t) else None for t in ts))
                    for i in range(n)))
            return None
        if isinstance(it, ast.Call) and callee(it) == "enumerate" and it.args:
            t = self.ty(it.args[0])
            if is_seq(t):
                return ("seq", tuple(("seq", (None, x)) for x in t[1]))
            return None
        return self.ty(it)

    def bind_over(self, target, t):
        if isinstance(target, ast.Name):
            self.over[target.id] = self.letter(target.id) or t
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, x in enumerate(target.elts):
                self.bind_over(x, t[1][i] if is_seq(t) and i < len(
                    t[1]) else None)

    # -- calls -----------------------------------------------------------
    def _Call(self, e):
        n = callee(e)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                t = self.ty(a.value)
                if is_seq(t):
                    args += [(a.value, x) for x in t[1]]
                else:
                    args.append((a, "*"))
            else:
                args.append((a, self.ty(a)))
        kws = [(k.arg, k.value, self.ty(k.value)) for k in e.keywords]
        base = None
        if isinstance(e.func, ast.Attribute):
            base = self.ty(e.func.value)
        star = any(t == "*" for _, t in args)
        ts = [t for _, t in args]
        if not star:
            r = self.library(e, n, args, kws, base)
            if r is not NotImplemented:
                return r
        cands = self.candidates(e)
        ret = None
        if cands:
            for g, skip in cands:
                names = [a.arg for a in g.node.args.args][skip:]
                bound = []
                if not star:
                    bound = list(zip(names, args))
                bound += [(k, (v, t)) for k, v, t in kws if k is not None]
                for name, (v, t) in bound:
                    self.argument(e, g, name, v, t)
                ret = join(ret, self.env.get(("r", g.key)))
            if ret is None:
                return self.unknown(
                    n, ts + [t for _, _, t in kws])
            return None if ret == "T" else ret
        for k, v, t in kws:
            if k is not None and self.letter(k) and uniform(t) == OTHER[
                self.letter(k)
            ]:
                self.err("call", e, f"{n}({k})",
                         f"argument {k} of {n} is given "
                         f"{ast.unparse(v)[:60]} ({uniform(t).lower()})")
        return self.unknown(n, ts)

    def unknown(self, n, ts):
        """what is computed from one direction only is not given to the other"""
        if n.endswith("_like") or n in ("isinstance", "str", "repr", "print"):
            return None
        us = {strip(t) for t in ts if t != "*"} - {None}
        if len(us) == 1:
            u = us.pop()
            if u in XY:
                return ("weak", u)
        return None

    def argument(self, e, g, name, v, t):
        if (g.key, name) in self.generic:
            return
        d = self.letter(name)
        u = uniform(t)
        if d is not None:
            self.count("call")
            if u is not None and u != d:
                self.err("call", e, f"{g.name}({name})",
                         f"parameter {name} of {g.name} is given "
                         f"{ast.unparse(v)[:60]} ({u.lower()})")
            return
        key = ("l", g.key, name)
        old = self.env.get(key)
        if "shape" in name:
            self.count("call")
            if is_seq(t) and len(t[1]) == 2 and (
                uniform(t[1][0]) == "X" or uniform(t[1][1]) == "Y"
            ):
                self.err("shape", e, f"{g.name}({name})",
                         f"parameter {name} of {g.name} is given (x, y): "
                         f"{ast.unparse(v)[:60]}")
            return
        if is_seq(t) and is_seq(old) and len(old[1]) == len(t[1]):
            self.count("layout")
            if "T" in old[1]:
                self.err("layout", e, f"{g.name}({name})",
                         f"parameter {name} of {g.name} is given ({order(t)}) "
                         "here and the opposite order elsewhere")
        self.set(key, t)

    def library(self, e, n, args, kws, base):
        ts = [t for _, t in args]
        if n == "len" and args:
            return ("weak", ts[0]) if ts[0] in XY else None
        if n == "meshgrid":
            if len(ts) == 2:
                self.count("shape")
                ij = any(k == "indexing" and isinstance(v, ast.Constant)
                         and v.value == "ij" for k, v, _ in kws)
                us = [uniform(t) for t in ts]
                bad = ("X", "Y") if ij else ("Y", "X")
                if us[0] == bad[0] or us[1] == bad[1]:
                    self.err("shape", e, "meshgrid",
                             f"{ast.unparse(e)[:80]}: rows would be along x")
                return seq(ts)
            return None
        if n in SHAPED and (args or kws):
            shape = None
            if isinstance(e.func, ast.Attribute) and n in ("reshape", "resize") \
                    and not self.is_module(e.func.value):
                shape = ts[0] if len(ts) == 1 else seq(ts)
            elif n == "reshape" and len(ts) > 1:
                shape = ts[1]
                base = ts[0]
            elif ts:
                shape = ts[0]
            for k, _, t in kws:
                if k == "shape":
                    shape = t
            self.count("shape")
            if is_seq(shape) and len(shape[1]) == 2:
                us = [uniform(t) for t in shape[1]]
                if us[0] == "X" or us[1] == "Y":
                    self.err("shape", e, ast.unparse(e)[:60],
                             f"shape (x, y): {ast.unparse(e)[:100]}")
            return base if n == "reshape" and base in XY else None
        if n == "griddata" and self.external(e) and len(ts) >= 3:
            self.count("layout")
            if conflict(ts[0], ts[2]):
                self.err("layout", e, "griddata",
                         f"points ({order(ts[0])}) and new points "
                         f"({order(ts[2])}): {ast.unparse(e)[:80]}")
            return None
        if n == "unravel_index":
            return seq(("Y", "X"))
        if self.candidates(e):
            return NotImplemented
        if n in KEEP_METHODS and isinstance(
            e.func, ast.Attribute
        ) and not self.is_module(e.func.value):
            return strip(base)
        if n in ("max", "min") and len(ts) > 1 or n in JOIN_FUNCS:
            r = None
            us = [strip(t) for t in ts]
            if n in ("max", "min", "maximum", "minimum"):
                us = [uniform(t) for t in us]
            ks = {t for t in us if t in XY}
            if len(ks) == 2:
                self.count("op")
                if n in ("max", "min", "maximum", "minimum"):
                    srcs = sorted(ast.unparse(a) for a, _ in args)
                    try:
                        sym = sorted(self.swap_src(a) for a, _ in args)
                    except Exception:
                        sym = srcs
                    if srcs == sym:
                        return None
                if n != "insert":
                    self.err("op", e, ast.unparse(e)[:80],
                             f"quantities of x and y together: "
                             f"{ast.unparse(e)[:100]}")
                return None
            for t in us:
                r = join(r, t)
            return r if r in XY else None
        if n in ("max", "min") and len(ts) == 1:
            return ts[0] if ts[0] in XY else None
        if n in KEEP_FUNCS and ts:
            return strip(ts[0]) if not (n == "len") else None
        if n in ("reversed",) and ts:
            return seq(ts[0][1][::-1]) if is_seq(ts[0]) else ts[0]
        return NotImplemented

    def is_module(self, x):
        if isinstance(x, ast.Name):
            r = self.p.resolve(self.f.module, x.id)
            return r[0] in ("mod", "ext") and x.id not in self.local[self.f.key]
        if isinstance(x, ast.Attribute):
            return self.is_module(x.value)
        return False

    def external(self, e):
        return isinstance(e.func, ast.Attribute) and self.is_module(e.func.value)

    def candidates(self, e):
        """[(function, number of implicit parameters)]"""
        fn = e.func
        if isinstance(fn, ast.Name):
            if fn.id in self.local[self.f.key]:
                return []
            r = self.p.resolve(self.f.module, fn.id)
            if r[0] == "func":
                g = self.p.funcs_by_key.get(r[1])
                return [(g, 0)] if g in self.funcs else []
            if r[0] == "class":
                c = self.p.classes_by_qual.get(r[1])
                g = c.find_method("__init__") if c else None
                return [(g, 1)] if g in self.funcs else []
            return []
        if isinstance(fn, ast.Attribute):
            if self.is_module(fn.value):
                r = None
                if isinstance(fn.value, ast.Name):
                    m = self.p.resolve(self.f.module, fn.value.id)
                    r = self.p.attr_of(m, fn.attr)
                if r and r[0] == "func":
                    g = self.p.funcs_by_key.get(r[1])
                    return [(g, 0)] if g in self.funcs else []
                return []
            if isinstance(fn.value, ast.Call) and callee(fn.value) == "super" and (
                self.f.cls is not None
            ):
                g = self.f.cls.find_method(fn.attr, after=self.f.cls)
                return [(g, 1)] if g in self.funcs else []
            if isinstance(fn.value, ast.Name) and fn.value.id not in self.local[
                self.f.key
            ]:
                r = self.p.resolve(self.f.module, fn.value.id)
                if r[0] == "class":
                    c = self.p.classes_by_qual.get(r[1])
                    g = c.find_method(fn.attr) if c else None
                    return [(g, 0 if "staticmethod" in g.decorators or not
                             g.node.args.args or g.node.args.args[0].arg == "self"
                             else 1)] if g in self.funcs else []
            if fn.attr in SKIP_METHODS or fn.attr.startswith("__"):
                return []
            own = isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls")
            if own and self.f.cls is not None:
                # class kept in an attribute
                res = []
                for c in self.classes_of_attr(fn.attr):
                    g = c.find_method("__init__")
                    if g in self.funcs:
                        res.append((g, 1))
                if res:
                    return res
            fs = [g for g in self.by_name.get(fn.attr, ()) if g.cls is not None]
            if own and self.f.cls is not None:
                fs = [g for g in fs if related(g.cls, self.f.cls)]
            return [(g, 0 if "staticmethod" in g.decorators else 1) for g in fs]
        return []

    def classes_of_attr(self, attr):
        out = []
        for m in self.mods:
            for c in m.classes.values():
                v = c.class_attrs.get(attr)
                if isinstance(v, ast.Name):
                    r = self.p.resolve(m, v.id)
                    if r[0] == "class":
                        out.append(self.p.classes_by_qual[r[1]])
        return out


def root(c):
    return c.mro()[-1].qual


def related(a, b):
    return a in b.mro() or b in a.mro()


def order(t):
    return ", ".join(
        (x.lower() if isinstance(x, str) else "?") if x is not None else "."
        for x in t[1]) if is_seq(t) else str(t)


def callee(e):
    f = e.func
    if isinstance(f, ast.Name):
        return f.id
    if isinstance(f, ast.Attribute):
        return f.attr
    return ""


def int_const(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        k = int_const(e.operand)
        return -k if k is not None else None
    return None


def full(e):
    return isinstance(e, ast.Slice) and e.lower is None and e.upper is None


def ast_load(t):
    return ast.parse(ast.unparse(t), mode="eval").body
