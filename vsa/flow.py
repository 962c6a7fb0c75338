"""Definite assignment of local variables, path by path, on the syntax tree.

A state is (assigned names, facts); a fact is (key of a condition, truth).  The
facts correlate the branches of a function (``if c: x = ...`` followed by
``if c: use(x)``).  ``for`` loops are assumed to have at least one iteration
(the zero-iteration case is not decided here); a statement of a ``try`` body can
be interrupted before its end.
"""

import ast

MAX_STATES = 256


def _path(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _path(n.value)
        return b and b + "." + n.attr
    return None


def _names(n):
    return frozenset(x.id for x in ast.walk(n) if isinstance(x, ast.Name))


def _const(n):
    return isinstance(n, ast.Constant) or (
        isinstance(n, ast.UnaryOp) and isinstance(n.operand, ast.Constant)
    )


class Fact:
    """value set of an expression: truthy/falsy, None, constants"""


def cond_atoms(n, truth):
    """disjunction of conjunctions [(key, names, truth), ...] of a condition"""
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return cond_atoms(n.operand, not truth)
    if isinstance(n, ast.BoolOp):
        conj = isinstance(n.op, ast.And) == truth
        if conj:
            res = [()]
            for v in n.values:
                res = [a + b for a in res for b in cond_atoms(v, truth)]
                if len(res) > 32:
                    return [()]
            return res
        res = []
        prev = [()]
        for v in n.values:
            res += [a + b for a in prev for b in cond_atoms(v, truth)]
            prev = [a + b for a in prev for b in cond_atoms(v, not truth)]
            if len(res) + len(prev) > 32:
                return [()]
        return res
    if isinstance(n, ast.Constant):
        return [()] if bool(n.value) == truth else []
    if isinstance(n, ast.NamedExpr):
        return cond_atoms(n.value, truth)
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        op, left, right = n.ops[0], n.left, n.comparators[0]
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        t = truth != neg
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if _const(left) and not _const(right):
                left, right = right, left
            if _const(right):
                return [(("val", ast.dump(left), (ast.dump(right),), t,
                          _names(left)),)]
            k = sorted([ast.dump(left), ast.dump(right)])
            return [(("cond", "==".join(k), None, t, _names(n)),)]
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(right, (ast.Tuple, ast.List, ast.Set)) and all(
                _const(e) for e in right.elts
            ):
                return [(("val", ast.dump(left),
                          tuple(ast.dump(e) for e in right.elts), t,
                          _names(left)),)]
            return [(("cond", ast.dump(left) + " in " + ast.dump(right), None,
                      t, _names(n)),)]
        comp = {ast.Lt: ("<", False), ast.GtE: ("<", True),
                ast.Gt: ("<s", False), ast.LtE: ("<s", True)}.get(type(op))
        if comp:
            o, ng = comp
            a, b = ast.dump(left), ast.dump(right)
            if o == "<s":
                a, b = b, a
            return [(("cond", a + "<" + b, None, truth != ng, _names(n)),)]
    if (
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
        and n.func.id == "bool" and len(n.args) == 1
    ):
        return cond_atoms(n.args[0], truth)
    return [(("truth", ast.dump(n), None, truth, _names(n)),)]


NONE = ast.dump(ast.Constant(None))
FALSY = {ast.dump(ast.Constant(v)) for v in (None, False, 0, "", 0.0)}


def _falsy_dump(d):
    return d in FALSY


class State:
    __slots__ = ("asg", "facts")

    def __init__(self, asg, facts):
        self.asg = asg  # frozenset of names
        self.facts = facts  # frozenset of atoms

    def key(self):
        return (self.asg, self.facts)

    def assign(self, *names):
        ns = frozenset(names)
        return State(
            self.asg | ns, frozenset(f for f in self.facts if not f[4] & ns)
        )

    def assume(self, atom):
        """None if contradictory"""
        kind, key, vals, t, names = atom
        facts = self.facts
        if kind == "cond":
            for f in facts:
                if f[0] == "cond" and f[1] == key and f[3] != t:
                    return None
        elif kind == "truth":
            for f in facts:
                if f[1] != key:
                    continue
                if f[0] == "truth" and f[3] != t:
                    return None
                if f[0] == "val" and f[3]:
                    if t and all(_falsy_dump(v) for v in f[2]):
                        return None
                    if not t and all(not _falsy_dump(v) for v in f[2]):
                        return None
        else:
            pos = None
            neg = set()
            for f in facts:
                if f[1] != key:
                    continue
                if f[0] == "val":
                    if f[3]:
                        pos = set(f[2]) if pos is None else pos & set(f[2])
                    else:
                        neg |= set(f[2])
                elif f[0] == "truth" and t:
                    ok = [v for v in vals if _falsy_dump(v) != f[3]]
                    if not ok:
                        return None
            if t:
                pos = set(vals) if pos is None else pos & set(vals)
            else:
                neg |= set(vals)
            if pos is not None:
                if not pos - neg:
                    return None
        return State(self.asg, facts | {atom})

    def with_cond(self, node, truth):
        out = []
        for conj in cond_atoms(node, truth):
            s = self
            for atom in conj:
                s = s.assume(atom)
                if s is None:
                    break
            if s is not None:
                out.append(s)
        return out


def dedup(states):
    seen = {}
    for s in states:
        seen.setdefault(s.key(), s)
    res = list(seen.values())
    if len(res) > MAX_STATES:
        # too many facts: merge the states which assign the same names
        by = {}
        for s in res:
            if s.asg in by:
                by[s.asg] = State(s.asg, by[s.asg].facts & s.facts)
            else:
                by[s.asg] = s
        res = list(by.values())
    return res


class Out:
    def __init__(self):
        self.normal = []
        self.brk = []
        self.cont = []
        self.exc = []  # (state, kind) kind: "raise" explicit, "any"


def noreturn_call(n):
    if not isinstance(n, ast.Call):
        return False
    p = _path(n.func)
    return p in ("sys.exit", "exit", "quit", "os._exit", "os.abort")


def can_raise(node):
    for n in ast.walk(node):
        if isinstance(
            n, (ast.Call, ast.Subscript, ast.Attribute, ast.Import,
                ast.ImportFrom, ast.BinOp, ast.Await, ast.Yield, ast.For)
        ):
            return True
    return False


class Analyser:
    """analyse one function body; ``report(name, node, path_dependent)``"""

    def __init__(self, locals_, params, report, noreturn=lambda call: False):
        self.locals = locals_
        self.params = params
        self.report = report
        self.noreturn = noreturn
        self.found = {}

    def run(self, body):
        st = State(frozenset(self.params), frozenset())
        return self.block(body, [st])

    # -- expressions ---------------------------------------------------
    def use(self, name, node, st):
        if name in self.locals and name not in st.asg:
            self.found.setdefault(name, []).append(node)
            self.report(name, node)

    def expr(self, n, states):
        """evaluate the loads of an expression; returns states"""
        if n is None:
            return states
        out = []
        for s in states:
            out += self._expr(n, s)
        return dedup(out)

    def _expr(self, n, s):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.use(n.id, n, s)
                # reported once per path
                if n.id in self.locals and n.id not in s.asg:
                    s = s.assign(n.id)
            return [s]
        if isinstance(n, ast.BoolOp):
            conj = isinstance(n.op, ast.And)
            cur = [s]
            done = []
            for i, v in enumerate(n.values):
                nxt = []
                for x in cur:
                    for y in self._expr(v, x):
                        if i < len(n.values) - 1:
                            done += y.with_cond(v, not conj)
                            nxt += y.with_cond(v, conj)
                        else:
                            nxt.append(y)
                cur = nxt
            # the truth of the parts is not kept (joined with the whole)
            return dedup(
                [State(x.asg, s.facts) for x in done + cur]
            )
        if isinstance(n, ast.IfExp):
            out = []
            for x in self._expr(n.test, s):
                for y in x.with_cond(n.test, True):
                    out += [State(z.asg, s.facts) for z in self._expr(n.body, y)]
                for y in x.with_cond(n.test, False):
                    out += [State(z.asg, s.facts) for z in self._expr(n.orelse, y)]
            return dedup(out)
        if isinstance(n, ast.NamedExpr):
            return [x.assign(n.target.id) for x in self._expr(n.value, s)]
        if isinstance(n, ast.Lambda):
            cur = [s]
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                cur = self.expr(d, cur)
            return cur
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            bound = set()
            cur = [s]
            for g in n.generators:
                cur = self._sub(g.iter, cur, bound)
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        bound.add(t.id)
                for c in g.ifs:
                    cur = self._sub(c, cur, bound)
            parts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            for p in parts:
                cur = self._sub(p, cur, bound)
            return cur
        cur = [s]
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.keyword, ast.FormattedValue, ast.Slice)):
                cur = self.expr(c, cur)
        return cur

    def _sub(self, node, states, bound):
        """expression of a comprehension: its own variables are bound"""
        saved = self.locals
        self.locals = self.locals - bound
        try:
            return self.expr(node, states)
        finally:
            self.locals = saved

    def targets(self, t, states):
        if isinstance(t, ast.Name):
            return [s.assign(t.id) for s in states]
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                states = self.targets(e, states)
            return states
        if isinstance(t, ast.Starred):
            return self.targets(t.value, states)
        states = self.expr(t, states)
        if isinstance(t, ast.Attribute):
            p = ast.dump(ast.Attribute(t.value, t.attr, ast.Load()))
            states = [
                State(s.asg, frozenset(f for f in s.facts if p not in f[1]))
                for s in states
            ]
        return states

    # -- statements ----------------------------------------------------
    def block(self, body, states):
        out = Out()
        cur = states
        for st in body:
            if not cur:
                break
            o = self.stmt(st, cur)
            out.brk += o.brk
            out.cont += o.cont
            out.exc += o.exc
            cur = dedup(o.normal)
        out.normal = cur
        out.brk = dedup(out.brk)
        out.cont = dedup(out.cont)
        return out

    def stmt(self, n, states):
        o = Out()
        simple = not isinstance(
            n, (ast.If, ast.For, ast.AsyncFor, ast.While, ast.Try, ast.With,
                ast.AsyncWith, ast.FunctionDef, ast.AsyncFunctionDef,
                ast.ClassDef, ast.Pass, ast.Match)
        )
        if simple and can_raise(n) and not isinstance(n, ast.Raise):
            kind = "import" if isinstance(n, (ast.Import, ast.ImportFrom)) else "any"
            o.exc += [(s, kind) for s in states]
        if isinstance(n, ast.Expr):
            o.normal = self.expr(n.value, states)
            if noreturn_call(n.value) or (
                isinstance(n.value, ast.Call) and self.noreturn(n.value)
            ):
                o.normal = []
        elif isinstance(n, ast.Assign):
            states = self.expr(n.value, states)
            for t in n.targets:
                states = self.targets(t, states)
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                states = self._value_fact(n.targets[0], n.value, states)
            o.normal = states
        elif isinstance(n, ast.AugAssign):
            t = n.target
            if isinstance(t, ast.Name):
                for s in states:
                    self.use(t.id, t, s)
            else:
                states = self.expr(t, states)
            states = self.expr(n.value, states)
            o.normal = self.targets(t, states) if isinstance(t, ast.Name) else states
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                states = self.expr(n.value, states)
                states = self.targets(n.target, states)
                if isinstance(n.target, ast.Name):
                    states = self._value_fact(n.target, n.value, states)
            o.normal = states
        elif isinstance(n, ast.Return):
            self.expr(n.value, states)
        elif isinstance(n, ast.Raise):
            states = self.expr(n.exc, states)
            states = self.expr(n.cause, states)
            o.exc += [(s, "raise") for s in states]
        elif isinstance(n, ast.Assert):
            states = self.expr(n.test, states)
            for s in states:
                for x in s.with_cond(n.test, False):
                    self.expr(n.msg, [x])
                o.normal += s.with_cond(n.test, True)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    for s in states:
                        self.use(t.id, t, s)
                    states = [
                        State(s.asg - {t.id}, s.facts) for s in states
                    ]
                else:
                    states = self.expr(t, states)
            o.normal = states
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            names = [
                a.asname or a.name.split(".")[0] for a in n.names if a.name != "*"
            ]
            o.normal = [s.assign(*names) for s in states]
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                states = self.expr(d, states)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                    states = self.expr(d, states)
            o.normal = [s.assign(n.name) for s in states]
        elif isinstance(n, ast.If):
            states = self.expr(n.test, states)
            st, sf = [], []
            for s in states:
                st += s.with_cond(n.test, True)
                sf += s.with_cond(n.test, False)
            a = self.block(n.body, dedup(st))
            b = self.block(n.orelse, dedup(sf))
            o = self._merge(a, b)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            states = self.expr(n.iter, states)
            o = self._loop(n, states, test=None)
        elif isinstance(n, ast.While):
            o = self._loop(n, states, test=n.test)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            suppress = False
            for it in n.items:
                states = self.expr(it.context_expr, states)
                o.exc += [(s, "any") for s in states]
                if it.optional_vars is not None:
                    states = self.targets(it.optional_vars, states)
                ce = it.context_expr
                if isinstance(ce, ast.Call) and (_path(ce.func) or "").split(
                    "."
                )[-1] == "suppress":
                    suppress = True
            b = self.block(n.body, states)
            if suppress:
                b.normal = dedup(b.normal + [s for s, _ in b.exc])
                b.exc = []
            o = self._merge(o, b)
        elif isinstance(n, ast.Try):
            o = self._try(n, states)
        elif isinstance(n, ast.Match):
            o = self._match(n, states)
        elif isinstance(n, ast.Break):
            o.brk = list(states)
        elif isinstance(n, ast.Continue):
            o.cont = list(states)
        else:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    states = self.expr(c, states)
            o.normal = states
        o.normal = dedup(o.normal)
        if len(o.exc) > 4 * MAX_STATES:
            o.exc = o.exc[: 4 * MAX_STATES]
        return o

    def _value_fact(self, target, value, states):
        d = ast.dump(ast.Name(target.id, ast.Load()))
        names = frozenset([target.id])
        if _const(value):
            return [
                x
                for s in states
                for x in [s.assume(("val", d, (ast.dump(value),), True, names))]
                if x is not None
            ]
        if isinstance(value, (ast.List, ast.Dict, ast.Tuple, ast.Set)):
            n = len(value.keys if isinstance(value, ast.Dict) else value.elts)
            return [
                x
                for s in states
                for x in [s.assume(("truth", d, None, n > 0, names))]
                if x is not None
            ]
        if isinstance(value, (ast.JoinedStr, ast.Lambda)):
            return [
                x
                for s in states
                for x in [s.assume(("val", d, (NONE,), False, names))]
                if x is not None
            ]
        # a flag computed from a condition: flag = (cond)
        if isinstance(value, (ast.Compare, ast.UnaryOp, ast.BoolOp)) and not (
            target.id in _names(value)
        ):
            out = []
            for s in states:
                for truth in (True, False):
                    for x in s.with_cond(value, truth):
                        y = x.assume(("truth", d, None, truth, names))
                        if y is not None:
                            out.append(y)
            return dedup(out) or states
        return states

    def _merge(self, a, b):
        o = Out()
        o.normal = a.normal + b.normal
        o.brk = a.brk + b.brk
        o.cont = a.cont + b.cont
        o.exc = a.exc + b.exc
        return o

    def _loop(self, n, states, test):
        o = Out()
        infinite = isinstance(test, ast.Constant) and bool(test.value)
        exits = []
        brks = []
        cur = states
        seen = set()
        first = True
        for _ in range(4):
            if test is not None:
                cur = self.expr(test, cur)
                ent = []
                for s in cur:
                    ent += s.with_cond(test, True)
                    if not infinite:
                        exits += s.with_cond(test, False)
            else:
                ent = cur
                if not first:
                    exits += cur
            ent = [s for s in dedup(ent) if s.key() not in seen]
            seen |= {s.key() for s in ent}
            if not ent:
                break
            if test is None:
                ent = self.targets(n.target, ent)
            b = self.block(n.body, dedup(ent))
            brks += b.brk
            o.exc += b.exc
            cur = dedup(b.normal + b.cont)
            first = False
        else:
            if test is None:
                exits += cur
        e = self.block(n.orelse, dedup(exits))
        o.normal = dedup(e.normal + brks)
        o.brk = e.brk
        o.cont = e.cont
        o.exc += e.exc
        return o

    def _try(self, n, states):
        o = Out()
        body = self.block(n.body, states)
        has_import = any(
            isinstance(x, (ast.Import, ast.ImportFrom))
            for s in n.body for x in ast.walk(s)
        )
        outs = []
        if n.orelse:
            e = self.block(n.orelse, body.normal)
            body_exc = body.exc
            normal = e.normal
            outs.append(e)
            o.brk += body.brk + e.brk
            o.cont += body.cont + e.cont
            pending = list(e.exc)
        else:
            body_exc = body.exc
            normal = list(body.normal)
            o.brk += body.brk
            o.cont += body.cont
            pending = []
        for h in n.handlers:
            tname = ast.unparse(h.type) if h.type is not None else "BaseException"
            if has_import and tname in (
                "ImportError", "ModuleNotFoundError",
                "(ImportError, ModuleNotFoundError)",
            ):
                hs = [s for s, k in body_exc if k == "import"]
            else:
                hs = [s for s, k in body_exc]
            hs = dedup(hs)
            if h.name:
                hs = [s.assign(h.name) for s in hs]
            b = self.block(h.body, hs)
            if h.name:
                b.normal = [
                    State(s.asg - {h.name}, s.facts) for s in b.normal
                ]
                b.brk = [State(s.asg - {h.name}, s.facts) for s in b.brk]
                b.cont = [State(s.asg - {h.name}, s.facts) for s in b.cont]
            normal += b.normal
            o.brk += b.brk
            o.cont += b.cont
            pending += b.exc
        catch_all = any(
            h.type is None
            or ast.unparse(h.type) in ("BaseException", "Exception")
            for h in n.handlers
        )
        if not catch_all:
            pending += body_exc
        if n.finalbody:
            f = self.block(n.finalbody, dedup(normal))
            fb = self.block(n.finalbody, dedup(o.brk))
            fc = self.block(n.finalbody, dedup(o.cont))
            # interrupted executions (also the returns) go through it
            fe = self.block(n.finalbody, dedup([s for s, _ in pending]))
            o.normal = f.normal
            o.brk = fb.normal + f.brk + fb.brk + fc.brk + fe.brk
            o.cont = fc.normal + f.cont + fb.cont + fc.cont + fe.cont
            o.exc = [(s, "any") for s in fe.normal] + f.exc + fe.exc
        else:
            o.normal = normal
            o.exc = pending
        o.normal = dedup(o.normal)
        return o

    def _match(self, n, states):
        o = Out()
        states = self.expr(n.subject, states)
        rest = True
        for c in n.cases:
            names = [
                x.name for x in ast.walk(c.pattern)
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name
            ]
            st = [s.assign(*names) if names else s for s in states]
            if c.guard is not None:
                st = self.expr(c.guard, st)
                st = [y for s in st for y in s.with_cond(c.guard, True)]
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                rest = False
            o = self._merge(o, self.block(c.body, dedup(st)))
        if rest:
            o.normal = o.normal + list(states)
        return o


def local_names(fnode):
    """(names local to the function, parameters)"""
    a = fnode.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        params.append(a.vararg.arg)
    if a.kwarg:
        params.append(a.kwarg.arg)
    loc = set(params)
    outer = set()
    stack = list(fnode.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            stack += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    loc.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            outer |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != "*":
                    loc.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        stack += list(ast.iter_child_nodes(n))
    return loc - outer, params
