"""Parameters: what is declared by default and where its parts go.

`Defaults` executes (abstractly) the functions which create the default
parameters and gives a tree; `Flow` propagates the parts of the parameters
through attributes, variables and calls (flow insensitive, one concrete class
at a time) and records what is read."""

import ast
import re

from .project import ClassInfo


class Node:
    def __init__(self, path):
        self.path = path
        self.children = {}
        self.leaves = {}
        self.open = False
        self.docs = []

    def walk(self):
        yield self
        for c in self.children.values():
            yield from c.walk()

    def get(self, path):
        n = self
        for i, name in enumerate(path):
            if name in n.children:
                n = n.children[name]
            else:
                return None
        return n

    def declares(self, name):
        return name in self.children or name in self.leaves


def const_str(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    return None


def try_protects(handler):
    names = []
    if handler.type is None:
        return True
    types = handler.type.elts if isinstance(handler.type, ast.Tuple) else [
        handler.type]
    for t in types:
        names.append(ast.unparse(t).split(".")[-1])
    return bool({"AttributeError", "Exception", "BaseException"} & set(names))


class Resolver:
    def __init__(self, project):
        self.p = project

    def glob(self, mod, name):
        t = self.p.resolve(mod, name)
        return self.term(t)

    def term(self, t):
        if t[0] == "func":
            return ("F", self.p.funcs_by_key[t[1]])
        if t[0] == "class":
            return ("C", self.p.classes_by_qual[t[1]])
        if t[0] == "mod":
            return ("mod", t[1])
        if t[0] == "glob":
            mod = self.p.modules.get(t[1])
            n = mod.globals.get(t[2]) if mod else None
            v = getattr(n, "value", n)
            if isinstance(v, ast.Name) and v.id != t[2]:
                return self.glob(mod, v.id)
        return ("?",)


class Defaults(Resolver):
    """tree of the default parameters of a class"""

    def __init__(self, project, cls):
        super().__init__(project)
        self.cls = cls
        self.root = None
        self.depth = 0
        self.sites = {}
        f = cls.find_method("create_default_params")
        self.ok = False
        if f is not None:
            r = self.call(f, cls, {}, {})
            if isinstance(r, Node):
                self.root = r
                self.ok = True

    def call(self, f, cls, args, kw):
        if self.depth > 12 or not isinstance(
            f.node, (ast.FunctionDef, ast.AsyncFunctionDef)
        ):
            return None
        env = {}
        names = [a.arg for a in f.node.args.args]
        if f.cls is not None and not f.is_static and names:
            env[names[0]] = ("C", cls)
            names = names[1:]
        for i, v in args.items():
            if i < len(names):
                env[names[i]] = v
        for k, v in kw.items():
            env[k] = v
        for a, d in zip(reversed(f.node.args.args), reversed(
                f.node.args.defaults)):
            if a.arg not in env:
                env[a.arg] = ("expr", d)
        self.depth += 1
        saved = getattr(self, "frame", None)
        self.frame = (f, cls)
        try:
            return self.block(f.node.body, env)
        finally:
            self.frame = saved
            self.depth -= 1

    def block(self, body, env):
        res = None
        for s in body:
            if isinstance(s, ast.Return):
                return self.ev(s.value, env) if s.value is not None else None
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        env[t.id] = v
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                v = self.ev(s.value, env)
                if isinstance(s.target, ast.Name):
                    env[s.target.id] = v
            elif isinstance(s, ast.Expr):
                self.ev(s.value, env)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for name in ("body", "orelse", "finalbody"):
                    r = self.block(getattr(s, name, []) or [], env)
                    res = res or r
                for h in getattr(s, "handlers", []):
                    self.block(h.body, env)
        return res

    def dict_names(self, v, env):
        """names and values of a dictionary of attributes"""
        if isinstance(v, tuple) and v and v[0] == "expr":
            v = v[1]
        if isinstance(v, tuple) and v and v[0] == "dict":
            return v[1]
        if isinstance(v, ast.Dict):
            res = {}
            for k, x in zip(v.keys, v.values):
                if k is None:
                    sub = self.dict_names(self.ev(x, env), env)
                    if sub is None:
                        return None
                    res.update(sub)
                elif const_str(k) is None:
                    return None
                else:
                    res[k.value] = x
            return res
        if isinstance(v, ast.Call) and isinstance(
            v.func, ast.Name
        ) and v.func.id == "dict" and not v.args and all(
            k.arg for k in v.keywords
        ):
            return {k.arg: k.value for k in v.keywords}
        return None

    def ev(self, n, env):
        if n is None:
            return None
        f, cls = self.frame
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            return self.glob(f.module, n.id)
        if isinstance(n, ast.Attribute):
            b = self.ev(n.value, env)
            if isinstance(b, Node):
                return b.children.get(n.attr, ("?",))
            return self.attr(b, n.attr)
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env)
            if isinstance(b, Node):
                s = self.string(n.slice, env)
                return b.children.get(s, ("?",)) if s else ("?",)
            return ("?",)
        if isinstance(n, ast.Call):
            return self.ev_call(n, env)
        if isinstance(n, (ast.Dict,)):
            d = self.dict_names(n, env)
            return ("dict", d) if d is not None else ("expr", n)
        return ("expr", n)

    def attr(self, b, name):
        if not isinstance(b, tuple) or not b:
            return ("?",)
        if b[0] == "C" and isinstance(b[1], ClassInfo):
            m = b[1].find_method(name)
            if m is not None:
                return ("M", m, b[1])
            a = b[1].find_attr(name)
            if a is not None:
                k, v = a
                v = getattr(v, "value", v)
                if isinstance(v, ast.Name):
                    return self.glob(k.module, v.id)
                if isinstance(v, ast.Attribute):
                    return self.dotted(k.module, v)
            return ("?",)
        if b[0] == "super":
            m = b[1].find_method(name, after=b[2])
            return ("M", m, b[1]) if m is not None else ("?",)
        if b[0] == "mod":
            return self.term(self.p.attr_of(("mod", b[1]), name))
        return ("?",)

    def dotted(self, mod, n):
        if isinstance(n, ast.Name):
            return self.glob(mod, n.id)
        return self.attr(self.dotted(mod, n.value), n.attr) if isinstance(
            n, ast.Attribute) else ("?",)

    def ev_call(self, n, env):
        f, cls = self.frame
        if isinstance(n.func, ast.Name):
            if n.func.id == "super":
                return ("super", cls, f.cls)
            if n.func.id == "type" and len(n.args) == 1:
                return self.ev(n.args[0], env)
            if n.func.id == "ParamContainer":
                return Node(())
            if n.func.id == "dict":
                d = self.dict_names(n, env)
                return ("dict", d) if d is not None else ("expr", n)
        if isinstance(n.func, ast.Attribute):
            if n.func.attr == "ParamContainer":
                return Node(())
            b = self.ev(n.func.value, env)
            if isinstance(b, Node):
                return self.api(b, n, env)
        fv = self.ev(n.func, env)
        args = {i: self.ev(a, env) for i, a in enumerate(n.args)}
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords if k.arg}
        if isinstance(fv, tuple) and fv:
            if fv[0] == "F":
                return self.call(fv[1], None, args, kw)
            if fv[0] == "M":
                return self.call(fv[1], fv[2], args, kw)
        return ("?",)

    def string(self, n, env):
        if n is None:
            return None
        s = const_str(n)
        if s is None and isinstance(n, (ast.Name, ast.Attribute)):
            v = self.ev(n, env)
            if isinstance(v, tuple) and v and v[0] == "expr":
                s = const_str(v[1])
        return s

    def api(self, node, n, env):
        name = n.func.attr
        kw = {k.arg: k.value for k in n.keywords}
        arg = list(n.args)

        def get(i, key):
            return arg[i] if len(arg) > i else kw.get(key)

        f, _ = self.frame
        if name == "_set_child":
            tag = self.string(get(0, "tag"), env)
            if tag is None:
                node.open = True
                return Node(node.path + ("*",))
            child = node.children.setdefault(tag, Node(node.path + (tag,)))
            attribs = get(1, "attribs")
            if attribs is not None:
                self.add(child, attribs, env)
            doc = self.string(get(2, "doc"), env)
            if doc:
                child.docs.append((doc, f, n))
            return child
        if name == "_set_attrib":
            key = self.string(get(0, "key"), env)
            if key is None:
                node.open = True
            else:
                node.leaves[key] = (f, get(1, "value"), n)
        elif name == "_set_attribs":
            self.add(node, get(0, "d"), env)
        elif name in ("_set_doc", "_add_doc"):
            doc = self.string(get(0, "doc"), env)
            if doc:
                node.docs.append((doc, f, n))
        return None

    def add(self, node, expr, env):
        d = self.dict_names(self.ev(expr, env), env)
        if d is None:
            d = self.dict_names(expr, env)
        if d is None:
            node.open = True
            return
        f, _ = self.frame
        for k, v in d.items():
            node.leaves[k] = (f, v, expr)


def doc_names(text):
    """names of the parameters described in a documentation"""
    for m in re.finditer(r"^- ([A-Za-z_]\w*(?:, [A-Za-z_]\w*)*)[ ]*:", text,
                         re.M):
        yield from m.group(1).split(", ")


# ---------------------------------------------------------------- propagation


# what gives the values of all the parameters of a node
WHOLE = {"__dict__", "_make_dict_attribs", "_make_dict", "_make_dict_tree",
         "_get_key_attribs", "_key_attribs"}
COPIES = {"deepcopy", "copy"}


class Flow(Resolver):
    def __init__(self, project, cls, tree, roots):
        """roots: names of the parameters of __init__ which are the root"""
        super().__init__(project)
        self.cls, self.tree = cls, tree
        self.vars = {}
        self.attrs = {}
        self.rets = {}
        self.ctxs = {}
        self.reads = {}
        self.undeclared = {}
        self.used = {}
        self.renamed = {}
        self.subtree = {}
        self.parents = {}
        self.edges = {}
        self.cur = None
        init = cls.find_method("__init__")
        self.changed = True
        if init is None:
            return
        self.add_class(cls)
        ctx = (init, cls)
        for name in roots:
            self.put(self.vars, (ctx, name), {("P", ())})
        rounds = 0
        while self.changed and rounds < 30:
            self.changed = False
            rounds += 1
            for ctx in list(self.ctxs):
                self.analyse(ctx)
        self.rounds = rounds
        # functions which are reached from the methods of the class
        stack = [c for c in self.ctxs if c[1] is cls]
        self.reached = set(stack)
        while stack:
            for c in self.edges.get(stack.pop(), ()):
                if c not in self.reached:
                    self.reached.add(c)
                    stack.append(c)

    def edge(self, f, cls):
        self.edges.setdefault(self.cur, set()).add((f, cls))

    # ------------------------------------------------------------------

    def put(self, table, key, vals):
        old = table.get(key, frozenset())
        new = old | frozenset(vals)
        if new != old:
            table[key] = new
            self.changed = True

    def add_ctx(self, f, cls):
        if (f, cls) not in self.ctxs and isinstance(
            f.node, (ast.FunctionDef, ast.AsyncFunctionDef)
        ):
            self.ctxs[(f, cls)] = True
            self.changed = True

    def add_class(self, cls):
        """every method of the class may be called"""
        done = set()
        for k in cls.mro():
            for name, f in k.methods.items():
                if f.is_classmethod and name in (
                    "create_default_params",
                ) or name.startswith("_complete_params") or name.startswith(
                    "_add_default_params"
                ):
                    continue
                if name in done and name != "__init__":
                    continue
                done.add(name)
                self.add_ctx(f, cls)

    # ------------------------------------------------------------------

    def analyse(self, ctx):
        f, cls = ctx
        self.cur = ctx
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and not f.is_static and names and cls is not None:
            kind = "C" if f.is_classmethod else "O"
            self.put(self.vars, (ctx, names[0]), {(kind, cls)})
        if id(f.node) not in self.parents:
            par = {}
            for n in ast.walk(f.node):
                for c in ast.iter_child_nodes(n):
                    par[c] = n
            self.parents[id(f.node)] = par
        self.par = self.parents[id(f.node)]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.assign(t, n.value, ctx)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assign(n.target, n.value, ctx)
            elif isinstance(n, ast.NamedExpr):
                self.assign(n.target, n.value, ctx)
            elif isinstance(n, ast.Return) and n.value is not None:
                self.put(self.rets, ctx, self.ev(n.value, ctx))
            elif isinstance(n, ast.Call):
                self.ev(n, ctx)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                vals = self.ev(n, ctx)
                self.note_use(n, vals, ctx)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                vals = self.ev(n, ctx)
                self.note_use(n, vals, ctx)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                self.note_use(n, self.ev(n, ctx), ctx)

    def assign(self, target, value, ctx):
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(
                value.elts
            ) == len(target.elts):
                for t, v in zip(target.elts, value.elts):
                    self.assign(t, v, ctx)
            return
        vals = self.ev(value, ctx)
        if isinstance(target, ast.Name):
            self.put(self.vars, (ctx, target.id), vals)
            self.rename(target.id, value, vals, ctx)
        elif isinstance(target, ast.Attribute):
            base = self.ev(target.value, ctx)
            for b in base:
                if b[0] == "O":
                    self.put(self.attrs, (b[1], target.attr), vals)
            if not any(b[0] == "P" for b in base):
                self.rename(target.attr, value, vals, ctx)

    def rename(self, name, value, vals, ctx):
        """a leaf kept under the name of another one"""
        leaves = {v[1] for v in vals if v[0] == "P" and v[1]}
        if len(leaves) != 1 or len(vals) != 1:
            return
        (path,) = leaves
        node = self.tree.get(path[:-1])
        if node is None or path[-1] not in node.leaves:
            return
        if name != path[-1] and name in node.leaves and not self.default_of(
            name, value
        ):
            self.renamed[(path, name, ctx[0].short)] = (ctx, value)

    def default_of(self, name, value):
        """the other parameter is only used when this one is not given: the
        value of this one is tested"""
        cur = value
        while cur in self.par:
            up = self.par[cur]
            test = None
            if isinstance(up, (ast.If, ast.IfExp, ast.While)):
                test = up.test
            elif isinstance(up, ast.BoolOp):
                test = up
            if test is not None and any(
                isinstance(x, ast.Name) and x.id == name
                or isinstance(x, ast.Attribute) and x.attr == name
                for x in ast.walk(test)
            ):
                return True
            cur = up
        return False

    # ------------------------------------------------------------------

    def protected(self, n, ctx, name):
        f = ctx[0]
        cur = n
        while cur in self.par:
            up = self.par[cur]
            if isinstance(up, ast.Try) and cur in up.body and any(
                try_protects(h) for h in up.handlers
            ):
                return True
            cur = up
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(
                x.func, ast.Name
            ) and x.func.id == "hasattr" and len(x.args) == 2 and const_str(
                x.args[1]
            ) == name:
                return True
            if isinstance(x, ast.Compare) and const_str(x.left) == name:
                return True
        return False

    def part(self, path, name, n, ctx, protected=False):
        """read of a part of the parameters"""
        if name.startswith("_"):
            if name in WHOLE:
                self.subtree.setdefault(path, []).append((ctx, n))
            return set()
        node = self.tree.get(path)
        if node is None:
            # attribute of the value of a leaf
            return set()
        full = path + (name,)
        if node.declares(name):
            self.reads.setdefault(full, []).append((ctx, n))
            return {("P", full)}
        if node.open:
            return set()
        self.undeclared.setdefault((full, ctx[0].short), (
            ctx, n, protected or self.protected(n, ctx, name)))
        return set()

    def ev(self, n, ctx):
        f, cls = ctx
        if isinstance(n, ast.Name):
            if (ctx, n.id) in self.vars:
                return self.vars[(ctx, n.id)]
            p = f.parent
            while p is not None:
                for (c, name), v in list(self.vars.items()):
                    if name == n.id and isinstance(c, tuple) and c[0] is p:
                        return v
                p = p.parent
            if self._local(f, n.id):
                return frozenset()
            t = self.glob(f.module, n.id)
            return frozenset() if t[0] == "?" else frozenset({t})
        if isinstance(n, ast.Attribute):
            res = set()
            for b in self.ev(n.value, ctx):
                res |= self.attr(b, n.attr, n, ctx)
            return frozenset(res)
        if isinstance(n, ast.Subscript):
            res = set()
            for b in self.ev(n.value, ctx):
                if b[0] == "P" and self.tree.get(b[1]) is not None:
                    name = const_str(n.slice)
                    if name is None:
                        self.subtree.setdefault(b[1], []).append((ctx, n))
                    else:
                        res |= self.part(b[1], name, n, ctx)
            return frozenset(res)
        if isinstance(n, ast.Call):
            return self.call(n, ctx)
        if isinstance(n, ast.IfExp):
            return self.ev(n.body, ctx) | self.ev(n.orelse, ctx)
        if isinstance(n, ast.BoolOp):
            res = frozenset()
            for v in n.values:
                res |= self.ev(v, ctx)
            return res
        if isinstance(n, ast.NamedExpr):
            return self.ev(n.value, ctx)
        if isinstance(n, ast.Await):
            return self.ev(n.value, ctx)
        return frozenset()

    def _local(self, f, name):
        key = id(f.node)
        cache = self.__dict__.setdefault("_locals", {})
        if key not in cache:
            s = set()
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                s.add(x.arg)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    s.add(x.id)
            cache[key] = s
        return name in cache[key]

    def attr(self, b, name, n, ctx):
        if b[0] == "P":
            return self.part(b[1], name, n, ctx)
        if b[0] == "O":
            res = set(self.attrs.get((b[1], name), ()))
            m = b[1].find_method(name)
            if m is not None:
                if m.is_property:
                    self.add_ctx(m, b[1])
                    self.edge(m, b[1])
                    return res | set(self.rets.get((m, b[1]), ()))
                res.add(("M", m, b[1]))
                self.edge(m, b[1])
            elif not res:
                res |= self.class_attr(b[1], name)
            return res
        if b[0] == "C":
            m = b[1].find_method(name)
            if m is not None:
                self.edge(m, b[1])
                return {("M", m, b[1])}
            return self.class_attr(b[1], name)
        if b[0] == "super":
            m = b[1].find_method(name, after=b[2])
            if m is not None:
                self.edge(m, b[1])
            return {("M", m, b[1])} if m is not None else set()
        if b[0] == "mod":
            t = self.term(self.p.attr_of(("mod", b[1]), name))
            return set() if t[0] == "?" else {t}
        return set()

    def class_attr(self, cls, name):
        a = cls.find_attr(name)
        if a is None:
            return set()
        k, v = a
        v = getattr(v, "value", v)
        if isinstance(v, ast.Name):
            t = self.glob(k.module, v.id)
            return set() if t[0] == "?" else {t}
        return set()

    def call(self, n, ctx):
        f, cls = ctx
        if isinstance(n.func, ast.Name):
            name = n.func.id
            if name == "super":
                return frozenset({("super", cls, f.cls)}) if cls is not None and (
                    f.cls is not None) else frozenset()
            if name in ("getattr", "hasattr") and len(n.args) >= 2:
                s = const_str(n.args[1])
                res = set()
                for b in self.ev(n.args[0], ctx):
                    if b[0] == "P" and self.tree.get(b[1]) is not None:
                        if s is None:
                            self.subtree.setdefault(b[1], []).append((ctx, n))
                        elif name == "getattr" or self.tree.get(
                            b[1]).declares(s):
                            res |= self.part(
                                b[1], s, n, ctx,
                                protected=name == "hasattr" or len(n.args) > 2)
                    elif s is not None and name == "getattr":
                        res |= self.attr(b, s, n, ctx)
                return frozenset(res) if name == "getattr" else frozenset()
            if name == "type" and len(n.args) == 1:
                return frozenset(
                    ("C", b[1]) for b in self.ev(n.args[0], ctx) if b[0] == "O")
        fn = n.func
        if isinstance(fn, ast.Attribute) and fn.attr in COPIES or isinstance(
            fn, ast.Name
        ) and fn.id in COPIES:
            if len(n.args) == 1:
                return self.ev(n.args[0], ctx)
        res = set()
        targets = self.ev(fn, ctx)
        known = False
        for t in targets:
            if t[0] == "C":
                known = True
                self.add_class(t[1])
                init = t[1].find_method("__init__")
                if init is not None:
                    self.edge(init, t[1])
                    self.bind(init, t[1], n, ctx, skip=1)
                res.add(("O", t[1]))
            elif t[0] == "M":
                known = True
                m, c = t[1], t[2]
                self.add_ctx(m, c)
                skip = 0 if m.is_static else 1
                # method called on its class, the object being given
                if not m.is_static and not m.is_classmethod and isinstance(
                    fn, ast.Attribute
                ) and any(b[0] == "C" for b in self.ev(fn.value, ctx)):
                    skip = 0
                self.bind(m, c, n, ctx, skip=skip)
                res |= set(self.rets.get((m, c), ()))
            elif t[0] == "F":
                known = True
                self.add_ctx(t[1], None)
                self.edge(t[1], None)
                self.bind(t[1], None, n, ctx, skip=0)
                res |= set(self.rets.get((t[1], None), ()))
        if not known:
            for k in n.keywords:
                if k.arg:
                    self.rename(k.arg, k.value, self.ev(k.value, ctx), ctx)
            for a in list(n.args) + [k.value for k in n.keywords]:
                for b in self.ev(a, ctx):
                    if b[0] == "P" and b[1] and self.tree.get(
                        b[1]
                    ) is not None:
                        self.subtree.setdefault(b[1], []).append((ctx, n))
        return frozenset(res)

    def bind(self, f, cls, n, ctx, skip):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        ctx2 = (f, cls)
        for i, x in enumerate(n.args):
            if isinstance(x, ast.Starred) or i >= len(names):
                break
            vals = self.ev(x, ctx)
            self.put(self.vars, (ctx2, names[i]), vals)
            self.rename(names[i], x, vals, ctx)
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        for k in n.keywords:
            vals = self.ev(k.value, ctx)
            if k.arg in allowed:
                self.put(self.vars, (ctx2, k.arg), vals)
            if k.arg:
                self.rename(k.arg, k.value, vals, ctx)

    # ------------------------------------------------------------------

    def passes(self, n, ctx):
        """the value is only given to a variable, an attribute or a parameter
        of a function of the project: it is followed there"""
        up = self.par.get(n)
        if isinstance(up, ast.keyword):
            call, key = self.par.get(up), up.arg
        else:
            call, key = up, None
        if isinstance(up, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and (
            up.value is n
        ):
            return True
        if isinstance(up, (ast.Tuple, ast.List)) and isinstance(
            self.par.get(up), ast.Assign
        ) and isinstance(self.par[up].targets[0], (ast.Tuple, ast.List)):
            return True
        if isinstance(up, ast.Return):
            return True
        if isinstance(up, ast.IfExp) and up.test is not n:
            return self.passes(up, ctx)
        if isinstance(up, ast.BoolOp):
            return False
        if isinstance(up, ast.Expr):
            return True
        if isinstance(up, ast.Attribute) and up.value is n:
            return True
        if isinstance(call, ast.Call) and call.func is not n:
            t = self.ev(call.func, ctx)
            if any(x[0] in ("C", "M", "F") for x in t):
                return self._bound_somewhere(call, n, key, t)
        return False

    def _bound_somewhere(self, call, n, key, targets):
        for x in targets:
            if x[0] == "C":
                f = x[1].find_method("__init__")
            elif x[0] in ("M", "F"):
                f = x[1]
            else:
                continue
            if f is None:
                return False
            if f.node.args.vararg or f.node.args.kwarg:
                return False
            a = f.node.args
            if key is not None and key not in {
                y.arg for y in a.posonlyargs + a.args + a.kwonlyargs
            }:
                return False
        return True

    def note_use(self, n, vals, ctx):
        for v in vals:
            if v[0] != "P":
                continue
            if self.tree.get(v[1]) is not None:
                continue
            if not self.passes(n, ctx):
                self.used.setdefault(v[1], []).append((ctx, n))
