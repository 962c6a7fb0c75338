"""X01: no code path uses something that does not exist."""

import ast
import builtins
import importlib
import re
import sys

from .. import external
from ..flow import Analyser, local_names
from ..project import ClassInfo, FuncInfo
from . import register

GENERATED = ("__pythran__", "__python__", "__numba__", "__cython__")

TRIO_ASYNC = {
    "trio.sleep", "trio.sleep_until", "trio.sleep_forever",
    "trio.to_thread.run_sync", "trio.lowlevel.checkpoint",
    "trio.lowlevel.cancel_shielded_checkpoint", "trio.lowlevel.wait_readable",
    "trio.lowlevel.wait_writable", "trio.run_process",
}


def modules(p):
    return [
        m for m in p.modules.values()
        if not any(g in m.name.split(".") for g in GENERATED)
    ]


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + "." + n.attr
    return None


# ---------------------------------------------------------------- scopes
class Scope:
    def __init__(self, node, mod, parent, qual, cls=None):
        self.node = node
        self.mod = mod
        self.parent = parent
        self.qual = qual
        self.cls = cls  # class (qual) whose method this is
        self.is_class = isinstance(node, ast.ClassDef)
        self.is_func = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        if self.is_func:
            self.locals, self.params = local_names(node)
        elif self.is_class:
            fake = ast.FunctionDef(
                name=node.name, body=node.body, decorator_list=[],
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                   kw_defaults=[], defaults=[]),
            )
            self.locals, self.params = local_names(fake)
        else:
            self.locals, self.params = set(), []

    @property
    def where(self):
        return f"{self.mod.rel}:{self.qual or '<module>'}"

    def lookup_chain(self):
        """scopes in which a free name is searched"""
        s = self.parent
        while s is not None:
            if s.is_func:
                yield s
            s = s.parent


def module_names(mod):
    fake = ast.FunctionDef(
        name="m", body=mod.tree.body, decorator_list=[],
        args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                           kw_defaults=[], defaults=[]),
    )
    names, _ = local_names(fake)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global):
            names |= set(n.names)
    return names


MODULE_ATTRS = {
    "__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__",
    "__loader__", "__builtins__", "__class__", "__module__", "__qualname__",
    "__annotations__", "__dict__",
}


def all_scopes(mod):
    """every class and function scope of a module"""
    res = []

    def visit(node, parent, qual, cls):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f"{qual}.{n.name}" if qual else n.name
                owner = cls if (parent is not None and parent.is_class) else None
                s = Scope(n, mod, parent, q, owner)
                res.append(s)
                visit(n, s, q, cls)
            elif isinstance(n, ast.ClassDef):
                q = f"{qual}.{n.name}" if qual else n.name
                s = Scope(n, mod, parent, q)
                res.append(s)
                visit(n, s, q, q)
            else:
                visit(n, parent, qual, cls)

    visit(mod.tree, None, "", None)
    return res


def own_nodes(node):
    """nodes of a scope, without the bodies of the nested scopes (but with
    their decorators, defaults and bases)"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack += n.decorator_list + n.args.defaults
            stack += [d for d in n.args.kw_defaults if d is not None]
            continue
        if isinstance(n, ast.ClassDef):
            stack += n.decorator_list + n.bases + [k.value for k in n.keywords]
            continue
        stack += list(ast.iter_child_nodes(n))


def annotation_nodes(node):
    ids = set()
    for n in ast.walk(node):
        anns = []
        if isinstance(n, ast.AnnAssign):
            anns.append(n.annotation)
        elif isinstance(n, ast.arg) and n.annotation is not None:
            anns.append(n.annotation)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns:
            anns.append(n.returns)
        for a in anns:
            ids |= {id(x) for x in ast.walk(a)}
    return ids


def inner_bound(node):
    """names bound by the comprehensions and lambdas of a scope, per node"""
    res = {}

    def visit(n, bound):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in n.generators:
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        b.add(t.id)
            bound = b
        elif isinstance(n, ast.Lambda):
            b = set(bound)
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                b.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    b.add(x.arg)
            bound = b
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for c in n.decorator_list:
                visit(c, bound)
            if not isinstance(n, ast.ClassDef):
                for c in n.args.defaults + n.args.kw_defaults:
                    if c is not None:
                        visit(c, bound)
            else:
                for c in n.bases:
                    visit(c, bound)
            return
        if isinstance(n, ast.Name):
            res[id(n)] = n.id in bound
        for c in ast.iter_child_nodes(n):
            visit(c, bound)

    for n in node.body:
        visit(n, frozenset())
    return res


def star_names(p, mod, seen=None):
    """names of star imports, None if a star import is external"""
    seen = seen or set()
    res = set()
    for base in mod.stars:
        if base in seen:
            continue
        seen.add(base)
        if base in p.modules:
            m = p.modules[base]
            res |= module_names(m)
            sub = star_names(p, m, seen)
            if sub is None:
                return None
            res |= sub
        else:
            return None
    return res


def rule_global(ctx):
    ctx.rule(
        "X01.name",
        "every name which is read is a local variable, a variable of an "
        "enclosing function, a name of the module or a builtin", 300,
    )
    p = ctx.p
    for mod in modules(p):
        names = module_names(mod) | MODULE_ATTRS | set(dir(builtins))
        st = star_names(p, mod)
        if st is None:
            continue
        names |= st
        anns = annotation_nodes(mod.tree)
        lazy_ann = any(
            isinstance(n, ast.ImportFrom) and n.module == "__future__"
            and any(a.name == "annotations" for a in n.names)
            for n in mod.tree.body
        )
        scopes = all_scopes(mod)
        mscope = Scope(mod.tree, mod, None, "")
        for s in [mscope] + scopes:
            known = set(names) | s.locals
            for q in s.lookup_chain():
                known |= q.locals
            if s.is_class and s.parent is not None:
                known |= s.parent.locals
            bound = inner_bound(s.node)
            missing = {}
            n_names = 0
            for n in own_nodes(s.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                    n_names += 1
                    if lazy_ann and id(n) in anns:
                        continue
                    if bound.get(id(n)):
                        continue
                    if n.id not in known:
                        missing.setdefault(n.id, n)
            for name, n in missing.items():
                ctx.bad(
                    "X01.name", s.where, name,
                    f"the name '{name}' is not defined", line=n.lineno,
                )
            if not missing:
                ctx.ok("X01.name", s.where, f"{n_names} names")


# ---------------------------------------------------------------- imports
def rule_imports(ctx):
    ctx.rule(
        "X01.import",
        "what is imported from a module of fluidimage exists there (also for "
        "imports inside functions, and attributes of imported modules)", 150,
    )
    p = ctx.p
    for mod in modules(p):
        protected = {
            id(x)
            for t in ast.walk(mod.tree) if isinstance(t, ast.Try)
            and any(
                h.type is None or ast.unparse(h.type) in (
                    "ImportError", "ModuleNotFoundError", "Exception")
                for h in t.handlers
            )
            for b in t.body for x in ast.walk(b)
        }
        for n in ast.walk(mod.tree):
            if id(n) in protected and isinstance(n, (ast.Import, ast.ImportFrom)):
                if not any(
                    (mod._abs(n.module, n.level) if isinstance(n, ast.ImportFrom)
                     else a.name) in p.modules for a in n.names
                ):
                    continue
            if isinstance(n, ast.ImportFrom):
                base = mod._abs(n.module, n.level)
                if base.split(".")[0] != "fluidimage":
                    continue
                if base not in p.modules:
                    if not _compiled(p, base):
                        ctx.bad("X01.import", mod.rel, base,
                                f"import from {base}, which does not exist",
                                line=n.lineno)
                    continue
                for a in n.names:
                    if a.name == "*":
                        continue
                    ok = (
                        base + "." + a.name in p.modules
                        or a.name in exported(p, p.modules[base])
                        or a.name in MODULE_ATTRS
                        or _compiled(p, base + "." + a.name)
                    )
                    ctx.check(
                        ok, "X01.import", mod.rel, f"{base}.{a.name}",
                        f"{a.name} is imported from {base} but is not defined "
                        "there", line=n.lineno,
                    )
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split(".")[0] == "fluidimage":
                        ctx.check(
                            a.name in p.modules or _compiled(p, a.name),
                            "X01.import", mod.rel, a.name,
                            f"the module {a.name} does not exist",
                            line=n.lineno,
                        )
        # __all__
        v = mod.globals.get("__all__")
        if isinstance(v, (ast.List, ast.Tuple)):
            for e in v.elts:
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    ctx.check(
                        e.value in exported(p, mod)
                        or mod.name + "." + e.value in p.modules,
                        "X01.import", mod.rel, f"__all__:{e.value}",
                        f"'{e.value}' of __all__ is not defined",
                        line=e.lineno,
                    )


def _compiled(p, name):
    parts = name.split(".")
    base = p.root.joinpath(*parts[1:])
    if base.is_dir():
        return True
    d = base.parent
    if not d.is_dir():
        return False
    if base.name.startswith("_version"):
        return True
    return any(
        f.name.split(".")[0] == base.name and f.suffix in (".so", ".pyx", ".pyd")
        for f in d.iterdir()
    )


_exp = {}


def exported(p, mod):
    k = id(mod)
    if k not in _exp:
        _exp[k] = (mod, module_names(mod) | (star_names(p, mod) or set()))
    return _exp[k][1]


def external_star(p, mod):
    return star_names(p, mod) is None


# ---------------------------------------------------------------- unbound
def rule_unbound(ctx):
    ctx.rule(
        "X01.bound",
        "on every path of a function (branches correlated by their conditions, "
        "statements of try bodies interrupted, loops with at least one "
        "iteration) a local variable is assigned before it is read", 500,
    )
    p = ctx.p
    for mod in modules(p):
        seqs = {}
        for name, v in mod.globals.items():
            if isinstance(v, (ast.List, ast.Tuple, ast.Set)) and all(
                isinstance(e, ast.Constant) for e in v.elts
            ) and _assigned_once(mod.tree, name):
                seqs[name] = v
        mfake = ast.FunctionDef(
            name="<module>", body=mod.tree.body, decorator_list=[],
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                               kw_defaults=[], defaults=[]),
        )
        cseqs = {}
        for c in mod.classes.values():
            d = {
                "self." + k: v for k, v in c.class_attrs.items()
                if isinstance(v, (ast.List, ast.Tuple, ast.Set))
                and all(isinstance(e, ast.Constant) for e in v.elts)
                and not any(
                    isinstance(n, ast.Attribute) and n.attr == k
                    and not isinstance(n.ctx, ast.Load)
                    for m in modules(p) for n in ast.walk(m.tree)
                )
            }
            if d:
                for f in c.methods.values():
                    cseqs[id(f.node)] = d
        items = [("<module>", mfake)] + [
            (s.qual, s.node) for s in all_scopes(mod) if s.is_func
        ]
        for qual, node in items:
            loc, par = local_names(node)
            if qual == "<module>":
                loc = loc - set(dir(builtins)) - MODULE_ATTRS
            found = {}
            body = _inline_sequences(node, {**seqs, **cseqs.get(id(node), {})},
                                     loc)
            an = Analyser(
                loc, par, lambda name, n: found.setdefault(name, n)
            )
            an.run(body)
            where = f"{mod.rel}:{qual}"
            for name, n in found.items():
                ctx.bad(
                    "X01.bound", where, name,
                    f"'{name}' can be read before it is assigned",
                    line=n.lineno,
                )
            if not found:
                ctx.ok("X01.bound", where, f"{len(loc)} variables")


def _assigned_once(tree, name):
    k = 0
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == name and not isinstance(
            n.ctx, ast.Load
        ):
            k += 1
    return k == 1


class _Seq(ast.NodeTransformer):
    def __init__(self, seqs, loc):
        self.seqs = {k: v for k, v in seqs.items() if k not in loc}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = n.comparators[0]
            if dotted(c) in self.seqs:
                return ast.copy_location(
                    ast.Compare(n.left, n.ops, [self.seqs[dotted(c)]]), n
                )
        return n


def _inline_sequences(node, seqs, loc):
    if not seqs or node.name == "<module>":
        return node.body
    import copy

    used = {dotted(n) for n in ast.walk(node)
            if isinstance(n, (ast.Name, ast.Attribute))}
    if not used & set(seqs):
        return node.body
    return [
        _Seq(seqs, loc).visit(copy.deepcopy(s)) for s in node.body
    ]


# ---------------------------------------------------------------- classes
_BUILTIN_BASES = {}


def external_members(base):
    """attributes of a base class of the standard library, None if unknown"""
    if base in _BUILTIN_BASES:
        return _BUILTIN_BASES[base]
    res = None
    name = base.split(".")
    obj = None
    if len(name) == 1 and hasattr(builtins, name[0]):
        obj = getattr(builtins, name[0])
    else:
        root = name[0]
        if root in sys.stdlib_module_names and root not in ("tkinter",):
            try:
                obj = importlib.import_module(root)
                for part in name[1:]:
                    try:
                        obj = getattr(obj, part)
                    except AttributeError:
                        obj = importlib.import_module(
                            obj.__name__ + "." + part
                        )
            except Exception:
                obj = None
    if isinstance(obj, type):
        try:
            res = set(dir(obj))
            if issubclass(obj, BaseException):
                res |= {"args", "__cause__", "__traceback__", "__notes__"}
            if hasattr(obj, "__init__") and obj.__module__ not in ("abc",):
                # attributes set by the constructor are unknown, except for
                # builtins
                if obj.__module__ not in ("builtins", "abc", "enum"):
                    res = None
        except Exception:
            res = None
    _BUILTIN_BASES[base] = res
    return res


class Members:
    """what is known of the attributes of the instances of the classes"""

    def __init__(self, p):
        self.p = p
        self.loose = {}
        self.own = {}
        self.dynamic = {}
        self.guarded = set()
        self.attr_types = {}
        for mod in modules(p):
            for s in all_scopes(mod):
                if s.is_func:
                    self._scan_func(mod, s)
        for mod in p.modules.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if not (isinstance(n.value, ast.Name)
                            and n.value.id in ("self", "cls")):
                        self.loose.setdefault(n.attr, mod.rel)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    if n.func.id in ("hasattr", "getattr", "setattr") and len(
                        n.args
                    ) > 1:
                        a = n.args[1]
                        if isinstance(a, ast.Constant):
                            if n.func.id == "setattr":
                                self.loose.setdefault(a.value, mod.rel)
                            elif n.func.id == "hasattr" or len(n.args) > 2:
                                self.guarded.add(a.value)
                if isinstance(n, ast.Try):
                    if any(
                        h.type is None or "AttributeError" in ast.unparse(h.type)
                        or ast.unparse(h.type) in ("Exception", "BaseException")
                        for h in n.handlers
                    ):
                        for st in n.body:
                            for x in ast.walk(st):
                                if isinstance(x, ast.Attribute):
                                    if any(
                                        h.type is not None and "AttributeError"
                                        in ast.unparse(h.type)
                                        for h in n.handlers
                                    ):
                                        self.guarded.add(x.attr)

    def _class_of(self, s):
        """class whose 'self' is visible in this scope"""
        q = s
        while q is not None:
            if q.cls is not None:
                return self.p.classes_by_qual.get(q.mod.name + "." + q.cls), q
            q = q.parent
        return None, None

    def _scan_func(self, mod, s):
        cls, meth = self._class_of(s)
        if cls is None:
            return
        if not meth.params:
            return
        self_name = meth.params[0]
        own = self.own.setdefault(cls.qual, set())
        types = self.attr_types.setdefault(cls.qual, {})
        for n in own_nodes(s.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                if n.value.id == self_name and isinstance(n.ctx, ast.Store):
                    own.add(n.attr)
            if (
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                and n.func.id == "setattr" and n.args
                and isinstance(n.args[0], ast.Name)
                and n.args[0].id in (self_name, "cls")
                and not isinstance(n.args[1], ast.Constant)
            ):
                self.dynamic[cls.qual] = True
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                if isinstance(n.value, ast.Name) and n.value.id == self_name:
                    self.dynamic.setdefault(cls.qual, False)
                    self.dynamic[cls.qual] = True
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in targets:
                    for e, v in _pairs(t, n.value):
                        if (
                            isinstance(e, ast.Attribute)
                            and isinstance(e.value, ast.Name)
                            and e.value.id == self_name
                        ):
                            types.setdefault(e.attr, []).append((mod, v))
            elif isinstance(n, (ast.AugAssign, ast.For, ast.With)):
                tt = (
                    [n.target] if not isinstance(n, ast.With)
                    else [i.optional_vars for i in n.items if i.optional_vars]
                )
                for t in tt:
                    for e in ast.walk(t):
                        if isinstance(e, ast.Attribute):
                            types.setdefault(e.attr, []).append((mod, None))

    def related(self, cls):
        res = list(cls.mro())
        for c in self.p.classes_by_qual.values():
            if cls in c.mro():
                res += c.mro()
        return list(dict.fromkeys(res))

    def known(self, cls):
        """(names, complete): attributes of the instances of cls"""
        names = set(dir(object))
        complete = True
        dyn = False
        for c in self.related(cls):
            names |= set(c.methods) | set(c.class_attrs)
            for sub in c.node.body:
                for x in ast.walk(sub) if not isinstance(
                    sub, (ast.FunctionDef, ast.AsyncFunctionDef)
                ) else ():
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
                if isinstance(sub, ast.AnnAssign) and isinstance(
                    sub.target, ast.Name
                ):
                    names.add(sub.target.id)
            names |= self.own.get(c.qual, set())
            dyn = dyn or self.dynamic.get(c.qual, False)
            if "__getattr__" in c.methods or "__getattribute__" in c.methods:
                complete = False
            if c.node.decorator_list or c.node.keywords:
                pass
            for b in c.bases:
                if not isinstance(b, ClassInfo):
                    ext = external_members(_abs_name(self.p, c, b))
                    if ext is None:
                        complete = False
                    else:
                        names |= ext
        return names, complete, dyn


def _pairs(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            for a, b in zip(t.elts, v.elts):
                yield from _pairs(a, b)
        else:
            for a in t.elts:
                yield from _pairs(a, None)
    else:
        yield t, v


def _abs_name(p, cls, base):
    root = base.split(".")[0]
    t = p.resolve(cls.module, root)
    for part in base.split(".")[1:]:
        t = p.attr_of(t, part)
    if t[0] in ("ext", "mod"):
        return t[1]
    return "?"


# ---------------------------------------------------------------- types
class Typer:
    """the class of simple expressions, when it is certain"""

    def __init__(self, p, members):
        self.p = p
        self.members = members
        self._attr = {}
        self._memo = {}

    def resolve(self, scope, n):
        """term of a Name or Attribute naming a global thing"""
        if isinstance(n, ast.Name):
            q = scope
            while q is not None:
                if (q.is_func or q is scope) and n.id in q.locals:
                    return self._local_import(q, n.id)
                q = q.parent
            return self.p.resolve(scope.mod, n.id)
        if isinstance(n, ast.Attribute):
            t = self.resolve(scope, n.value)
            if t is None:
                return None
            if t[0] in ("mod", "ext"):
                return self.p.attr_of(t, n.attr)
            return None
        return None

    def _local_import(self, scope, name):
        """a local name which is only bound by one import or def"""
        hits = []
        for n in own_nodes(scope.node):
            if isinstance(n, ast.Name) and n.id == name and not isinstance(
                n.ctx, ast.Load
            ):
                return None
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                return None
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        hits.append((n, a))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        hits.append((n, a))
            elif isinstance(
                n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
            ) and n.name == name:
                hits.append((n, None))
        if name in scope.params or len(hits) != 1:
            return None
        n, a = hits[0]
        if isinstance(n, ast.ImportFrom):
            base = scope.mod._abs(n.module, n.level)
            if base + "." + a.name in self.p.modules:
                return ("mod", base + "." + a.name)
            if base in self.p.modules:
                return self.p.resolve(self.p.modules[base], a.name)
            return ("ext", base + "." + a.name)
        if isinstance(n, ast.Import):
            return ("mod", a.name if a.asname else a.name.split(".")[0])
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ("localfunc", n)
        return None

    def self_class(self, scope):
        """(class, name of self) for a method or a function inside a method"""
        cls, meth = self.members._class_of(scope)
        if cls is None or not meth.params:
            return None, None, None
        decs = [ast.unparse(d) for d in meth.node.decorator_list]
        if "staticmethod" in decs:
            return None, None, None
        name = meth.params[0]
        q = scope
        while q is not meth:
            if name in q.locals:
                return None, None, None
            q = q.parent
        # reassigned self
        for n in own_nodes(meth.node):
            if isinstance(n, ast.Name) and n.id == name and not isinstance(
                n.ctx, ast.Load
            ):
                return None, None, None
        kind = "cls" if "classmethod" in decs or meth.node.name in (
            "__new__", "__init_subclass__", "__class_getitem__"
        ) else "self"
        return cls, name, kind

    def type_of(self, scope, n, depth=0):
        """("inst", cls) | ("cls", cls) | ("mod", module) | None"""
        if depth > 4 or n is None:
            return None
        key = (id(scope), id(n))
        if key not in self._memo:
            self._memo[key] = (scope, n, self._type_of(scope, n, depth))
        return self._memo[key][2]

    def _type_of(self, scope, n, depth):
        if isinstance(n, ast.Name):
            cls, name, kind = self.self_class(scope)
            if cls is not None and n.id == name:
                return ("inst" if kind == "self" else "cls", cls)
            for q in [scope] + list(scope.lookup_chain()):
                if n.id in q.locals:
                    return self._local_type(q, n.id, depth)
            t = self.p.resolve(scope.mod, n.id)
            return self._global_type(t, depth)
        if isinstance(n, ast.Attribute):
            b = self.type_of(scope, n.value, depth + 1)
            if b is not None:
                if b[0] == "mod":
                    return self._global_type(
                        self.p.attr_of(("mod", b[1].name), n.attr), depth
                    )
                if b[0] == "inst":
                    return self.attr_type(b[1], n.attr, depth + 1)
            return None
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == "super":
                return None
            t = self.resolve(scope, n.func)
            if t is not None and t[0] == "class":
                c = self.p.classes_by_qual[t[1]]
                if c.find_method("__new__") is None:
                    return ("inst", c)
            b = self.type_of(scope, n.func, depth + 1)
            if b is not None and b[0] == "cls":
                return ("inst", b[1])
            return None
        if isinstance(n, ast.Await):
            return None
        return None

    def _global_type(self, t, depth):
        if t is None:
            return None
        if t[0] == "class":
            return ("cls", self.p.classes_by_qual[t[1]])
        if t[0] == "mod" and t[1] in self.p.modules:
            return ("mod", self.p.modules[t[1]])
        return None

    def _local_type(self, scope, name, depth):
        if not scope.is_func:
            return None
        if name in scope.params:
            a = scope.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.arg == name and x.annotation is not None:
                    # not reassigned
                    for n in own_nodes(scope.node):
                        if isinstance(n, ast.Name) and n.id == name and \
                                not isinstance(n.ctx, ast.Load):
                            return None
                    ann = x.annotation
                    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                        try:
                            ann = ast.parse(ann.value, mode="eval").body
                        except SyntaxError:
                            return None
                    t = self.resolve(scope, ann)
                    if t is not None and t[0] == "class":
                        return ("inst", self.p.classes_by_qual[t[1]])
            return None
        t = self._local_import(scope, name)
        if t is not None:
            return self._global_type(t, depth)
        vals = []
        for n in own_nodes(scope.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in targets:
                    for e, v in _pairs(t, n.value):
                        if isinstance(e, ast.Name) and e.id == name:
                            vals.append(v)
            elif isinstance(n, ast.Name) and n.id == name and isinstance(
                n.ctx, (ast.Store, ast.Del)
            ):
                vals.append("store")
            elif isinstance(n, ast.ExceptHandler) and n.name == name:
                return None
        exprs = [v for v in vals if v != "store"]
        if not exprs or None in exprs:
            return None
        # every store is one of these assignments
        if vals.count("store") != len(exprs):
            return None
        res = None
        for v in exprs:
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            t = self.type_of(scope, v, depth + 1)
            if t is None or (res is not None and t != res):
                return None
            res = t
        return res

    def attr_type(self, cls, attr, depth):
        key = (cls.qual, attr)
        if key in self._attr:
            return self._attr[key]
        self._attr[key] = None
        res = None
        if attr in self.members.loose:
            return None
        hits = []
        for c in self.members.related(cls):
            if attr in c.methods or attr in c.class_attrs:
                return None
            hits += self.members.attr_types.get(c.qual, {}).get(attr, [])
        for mod, v in hits:
            if v is None:
                return None
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            fake = Scope(mod.tree, mod, None, "")
            t = None
            if isinstance(v, ast.Call):
                t = self.type_of(fake, v, depth + 1)
            if t is None or t[0] != "inst" or (res is not None and t != res):
                return None
            res = t
        self._attr[key] = res
        return res


def method_impls(p, members, cls, name, owner=None):
    """methods that a call on an instance of cls (or of a subclass) can run"""
    res = {}
    m = cls.find_method(name)
    if m is not None:
        res[m.key] = m
    return list(res.values())


# ---------------------------------------------------------------- attributes
def rule_attrs(ctx):
    ctx.rule(
        "X01.attr",
        "the methods and attributes read on objects, classes and modules of "
        "fluidimage exist (defined in the class, its bases or subclasses, or "
        "set somewhere)", 800,
    )
    ctx.rule(
        "X01.call",
        "the arguments given to functions, methods and constructors of "
        "fluidimage are accepted by them", 400,
    )
    ctx.rule(
        "X01.await",
        "coroutines are awaited or given to the event loop, and only "
        "coroutines are", 20,
    )
    p = ctx.p
    mem = Members(p)
    ty = Typer(p, mem)
    known = {}
    for mod in modules(p):
        mscope = Scope(mod.tree, mod, None, "")
        for s in [mscope] + all_scopes(mod):
            parents = {}
            for n in own_nodes(s.node):
                for c in ast.iter_child_nodes(n):
                    parents[id(c)] = n
            for n in own_nodes(s.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    _check_attr(ctx, mem, ty, known, s, n, parents)
                if isinstance(n, ast.Call):
                    _check_call(ctx, mem, ty, s, n)
                    _check_coroutine(ctx, mem, ty, s, n, parents)
                if isinstance(n, ast.Await):
                    _check_awaited(ctx, mem, ty, s, n)


def _check_attr(ctx, mem, ty, known, s, n, parents):
    b = ty.type_of(s, n.value)
    if (
        isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name)
        and n.value.func.id == "super" and not n.value.args
    ):
        cls, _, _ = ty.self_class(s)
        if cls is None:
            return
        if any(
            not isinstance(x, ClassInfo)
            and external_members(_abs_name(ctx.p, c, x)) is None
            for c in cls.mro() for x in c.bases
        ):
            return
        found = cls.find_method(n.attr, after=cls)
        if found is None:
            # mixins: in the MRO of a subclass
            for c in ctx.p.classes_by_qual.values():
                if cls in c.mro() and c.find_method(n.attr, after=cls):
                    found = True
        if found is None:
            ext = set(dir(object))
            for c in cls.mro():
                for x in c.bases:
                    if not isinstance(x, ClassInfo):
                        ext |= external_members(_abs_name(ctx.p, c, x)) or set()
            found = n.attr in ext or any(
                n.attr in c.class_attrs for c in cls.mro()[1:]
            ) or None
        ctx.check(
            found is not None, "X01.attr", s.where, f"super().{n.attr}",
            f"no base of {cls.name} has a method {n.attr}", line=n.lineno,
        )
        return
    if b is None:
        return
    if b[0] == "mod":
        m = b[1]
        if external_star(ctx.p, m):
            return
        ok = (
            n.attr in exported(ctx.p, m)
            or m.name + "." + n.attr in ctx.p.modules
            or n.attr in MODULE_ATTRS
            or n.attr in dir(sys)
            or _compiled(ctx.p, m.name + "." + n.attr)
        )
        ctx.check(
            ok, "X01.attr", s.where, f"{m.name}.{n.attr}",
            f"the module {m.name} has no attribute {n.attr}", line=n.lineno,
        )
        return
    cls = b[1]
    if cls.qual not in known:
        known[cls.qual] = mem.known(cls)
    names, complete, dyn = known[cls.qual]
    if not complete:
        return
    if b[0] == "cls":
        names = names | set(dir(type))
    par = parents.get(id(n))
    called = isinstance(par, ast.Call) and par.func is n
    if n.attr in names or n.attr in mem.loose:
        ctx.ok("X01.attr", s.where, n.attr)
        return
    if dyn and not called:
        return
    if n.attr in mem.guarded and not called:
        return
    ctx.bad(
        "X01.attr", s.where, f"{ast.unparse(n)}",
        f"no attribute '{n.attr}' in {cls.name} (nor in its bases and "
        "subclasses)", line=n.lineno,
    )


def rule_external(ctx):
    ctx.rule(
        "X01.ext",
        "what is used from the standard library and from the installed "
        "packages (as far as their sources or stubs tell) exists", 300,
    )
    p = ctx.p
    ty = Typer(p, Members(p))
    for mod in modules(p):
        mscope = Scope(mod.tree, mod, None, "")
        guardedn = set()
        for t in ast.walk(mod.tree):
            if isinstance(t, ast.Try) and t.handlers:
                for b in t.body:
                    guardedn |= {id(x) for x in ast.walk(b)}
                if any(
                    h.type is not None and any(
                        e in ast.unparse(h.type)
                        for e in ("ImportError", "AttributeError")
                    )
                    for h in t.handlers
                ):
                    # alternatives for other versions
                    for h in t.handlers:
                        for b in h.body:
                            guardedn |= {id(x) for x in ast.walk(b)}
        for s in [mscope] + all_scopes(mod):
            for n in own_nodes(s.node):
                if id(n) in guardedn:
                    continue
                if isinstance(n, ast.ImportFrom):
                    base = mod._abs(n.module, n.level)
                    if base.split(".")[0] == "fluidimage":
                        continue
                    names = external.names_of(base)
                    if names is None:
                        continue
                    for a in n.names:
                        if a.name != "*":
                            ctx.check(
                                a.name in names, "X01.ext", s.where,
                                f"{base}.{a.name}",
                                f"{a.name} does not exist in {base}",
                                line=n.lineno,
                            )
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    t = ty.resolve(s, n.value)
                    if t is None or t[0] not in ("mod", "ext"):
                        continue
                    if t[1].split(".")[0] == "fluidimage":
                        continue
                    if t[0] == "ext" and external.find(t[1]) is None and (
                        t[1].split(".")[0] not in sys.stdlib_module_names
                        or "." not in t[1] and t[1] not in sys.modules
                    ):
                        continue
                    names = external.names_of(t[1])
                    if names is None:
                        continue
                    ctx.check(
                        n.attr in names, "X01.ext", s.where,
                        f"{t[1]}.{n.attr}",
                        f"{n.attr} does not exist in {t[1]}", line=n.lineno,
                    )


def rule_unknown(ctx):
    ctx.rule(
        "X01.unknown",
        "an attribute which is read is defined somewhere: in fluidimage, or at "
        "least mentioned in the standard library or in an installed package", 300,
    )
    p = ctx.p
    uni = external.universe()
    if uni is None:
        ctx.maybe("X01.unknown", "site-packages", "no installed packages found")
        return
    known = set()
    idre = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")
    for mod in p.modules.values():
        known |= module_names(mod)
        for n in ast.walk(mod.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                known.add(n.name)
            elif isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                known.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                if idre.match(n.value):
                    known.add(n.value)
            elif isinstance(n, ast.ClassDef):
                pass
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                known.add(n.id)
            elif isinstance(n, ast.keyword) and n.arg:
                known.add(n.arg)
    for mod in modules(p):
        roots = {
            (mod._abs(n.module, n.level) if isinstance(n, ast.ImportFrom)
             else a.name).split(".")[0]
            for n in ast.walk(mod.tree)
            if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names
        }
        # compiled libraries, and names coming from files of other programs
        if (
            not all(r == "fluidimage" or external.installed(r) for r in roots)
            or roots & {"cv2", "qtpy"} or "calibration" in mod.name
            or "_opencv" in mod.src or "qtpy" in mod.src or "QtWidgets" in mod.src
            or "uvmat" in mod.name
            or "uvmat" in mod.src and "xml" in mod.src.lower()
        ):
            ctx.notes.append(f"X01.unknown not applied to {mod.rel}")
            continue
        for s in [Scope(mod.tree, mod, None, "")] + all_scopes(mod):
            n_ok = 0
            for n in own_nodes(s.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    if n.attr in known or n.attr in uni:
                        n_ok += 1
                    else:
                        ctx.bad(
                            "X01.unknown", s.where, n.attr,
                            f"nothing defines an attribute '{n.attr}' "
                            f"({ast.unparse(n)[:80]})", line=n.lineno,
                        )
            if n_ok:
                ctx.ok("X01.unknown", s.where, f"{n_ok} attributes")


# ---------------------------------------------------------------- calls
OK_DECORATORS = re.compile(
    r"^(staticmethod|classmethod|property|cached_property|abstractmethod"
    r"|functools\.\w+|abc\.\w+|boost|contextmanager|contextlib\.\w+|override"
    r"|lru_cache.*|cache|\w+\.setter|total_ordering)$"
)


def _sig_ok(func):
    return all(OK_DECORATORS.match(d) for d in func.decorators)


def binding_error(fnode, call, skip, extra_pos=0):
    """None or a message; skip: number of implicit first arguments"""
    a = fnode.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    n_req = len(pos) - len(a.defaults)
    posonly = {x.arg for x in a.posonlyargs}
    names = pos[skip:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n_pos = sum(not isinstance(x, ast.Starred) for x in call.args) + extra_pos
    if a.vararg is None and n_pos > len(names):
        return f"{n_pos} positional arguments given, at most {len(names)} accepted"
    kwonly = [x.arg for x in a.kwonlyargs]
    given = set(names[:n_pos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return f"argument '{k.arg}' given twice"
        if k.arg not in (set(names) - posonly) | set(kwonly) and a.kwarg is None:
            return f"argument '{k.arg}' is not accepted"
        given.add(k.arg)
    if not star and not dstar:
        for i, nm in enumerate(pos):
            if i >= skip and i < n_req and nm not in given:
                return f"the argument '{nm}' is not given"
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in given:
                return f"the argument '{x.arg}' is not given"
    return None


def callee_of(ctx, mem, ty, s, f):
    """[(FuncInfo or node, implicit args, label)] that the expression f calls"""
    p = ctx.p
    if isinstance(f, ast.Name) or (
        isinstance(f, ast.Attribute) and ty.type_of(s, f.value) is None
    ):
        t = ty.resolve(s, f)
        if t is None and isinstance(f, ast.Name):
            b = ty.type_of(s, f)
            if b is not None and b[0] == "cls":
                t = ("class", b[1].qual)
        if t is None:
            return []
        if t[0] == "func":
            fi = p.funcs_by_key[t[1]]
            return [(fi, 0, fi.short)] if _sig_ok(fi) else []
        if t[0] == "localfunc":
            if t[1].decorator_list:
                return []
            return [(t[1], 0, t[1].name)]
        if t[0] == "class":
            return _ctor(p, p.classes_by_qual[t[1]])
        return []
    if not isinstance(f, ast.Attribute):
        return []
    if (
        isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
        and f.value.func.id == "super"
    ):
        cls, _, kind = ty.self_class(s)
        if cls is None:
            return []
        m = cls.find_method(f.attr, after=cls)
        if m is None or not _sig_ok(m):
            return []
        # cooperative calls: other classes can be in between
        return [(m, 0 if m.is_static else 1, m.short)]
    b = ty.type_of(s, f.value)
    if b is None:
        return []
    if b[0] == "mod":
        t = p.attr_of(("mod", b[1].name), f.attr)
        if t[0] == "func":
            fi = p.funcs_by_key[t[1]]
            return [(fi, 0, fi.short)] if _sig_ok(fi) else []
        if t[0] == "class":
            return _ctor(p, p.classes_by_qual[t[1]])
        return []
    cls = b[1]
    if any(
        f.attr in mem.own.get(c.qual, ()) for c in mem.related(cls)
    ) or f.attr in mem.loose:
        return []
    res = {}
    todo = [cls]
    if isinstance(f.value, ast.Name) and b[0] == "inst":
        # self: the method run is the one of the class of the object
        todo += [
            c for c in p.classes_by_qual.values()
            if cls in c.mro() and _runs(mem, c, s)
        ]
    for c in todo:
        m = c.find_method(f.attr)
        if m is None or not _sig_ok(m) or m.is_property:
            continue
        skip = 0 if m.is_static else 1
        if b[0] == "cls" and not m.is_classmethod and not m.is_static:
            skip = 0
        res[m.key] = (m, skip, m.short)
    return list(res.values())


def _runs(mem, c, scope):
    """the method which encloses scope is the one of the class c"""
    _, meth = mem._class_of(scope)
    if meth is None:
        return False
    m = c.find_method(meth.node.name)
    return m is not None and m.node is meth.node


def _ctor(p, c):
    for k in c.mro():
        if "__new__" in k.methods:
            return []
        if "__init__" in k.methods:
            m = k.methods["__init__"]
            return [(m, 1, m.short)] if _sig_ok(m) else []
        if k.node.decorator_list or k.node.keywords:
            return []
        if any(not isinstance(b, ClassInfo) for b in k.bases):
            return []
    return []


def _node(fi):
    return fi.node if isinstance(fi, FuncInfo) else fi


SPAWN = {
    "start_soon": 1, "run_sync": 1, "partial": 1,
}


def _check_call(ctx, mem, ty, s, n):
    for fi, skip, label in callee_of(ctx, mem, ty, s, n.func):
        err = binding_error(_node(fi), n, skip)
        ctx.check(
            err is None, "X01.call", s.where,
            f"{ast.unparse(n.func)} -> {label}", f"call of {label}: {err}",
            line=n.lineno,
        )
    # functions given to the event loop with their arguments
    if isinstance(n.func, ast.Attribute) and n.func.attr in (
        "start_soon", "run_sync"
    ) or dotted(n.func) in ("trio.run", "partial", "functools.partial"):
        if n.args and not isinstance(n.args[0], ast.Starred):
            for fi, skip, label in callee_of(ctx, mem, ty, s, n.args[0]):
                fake = ast.Call(func=n.args[0], args=n.args[1:], keywords=(
                    n.keywords if "partial" in (dotted(n.func) or "") else []
                ))
                part = "partial" in (dotted(n.func) or "")
                err = binding_error(_node(fi), fake, skip)
                if part and err and "not given" in err:
                    err = None
                ctx.check(
                    err is None, "X01.call", s.where,
                    f"{ast.unparse(n.func)}({ast.unparse(n.args[0])}) -> {label}",
                    f"call of {label}: {err}", line=n.lineno,
                )
                isasync = isinstance(_node(fi), ast.AsyncFunctionDef)
                attr = n.func.attr if isinstance(n.func, ast.Attribute) else ""
                if attr in ("start_soon", "run") and not part:
                    ctx.check(
                        isasync, "X01.await", s.where,
                        f"{ast.unparse(n.func)}({ast.unparse(n.args[0])})",
                        f"{label} is given to the event loop but is not a "
                        "coroutine function", line=n.lineno,
                    )
                elif attr == "run_sync":
                    ctx.check(
                        not isasync, "X01.await", s.where,
                        f"{ast.unparse(n.func)}({ast.unparse(n.args[0])})",
                        f"{label} is a coroutine function, run in a thread it "
                        "does nothing", line=n.lineno,
                    )


def _is_coroutine(fi):
    node = _node(fi)
    if not isinstance(node, ast.AsyncFunctionDef):
        return False
    if isinstance(fi, FuncInfo):
        if fi.is_gen or any("contextmanager" in d for d in fi.decorators):
            return False
    return True


def _check_coroutine(ctx, mem, ty, s, n, parents):
    name = None
    for fi, skip, label in callee_of(ctx, mem, ty, s, n.func):
        if _is_coroutine(fi):
            name = label
    if name is None:
        t = ty.resolve(s, n.func)
        if t is not None and t[0] in ("ext", "mod") and t[1] in TRIO_ASYNC:
            name = t[1]
    if name is None:
        return
    par = parents.get(id(n))
    if isinstance(par, ast.Await):
        ctx.ok("X01.await", s.where, ast.unparse(n.func))
        return
    if isinstance(par, (ast.Return, ast.Assign, ast.withitem)):
        if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(
            par.targets[0], ast.Name
        ):
            v = par.targets[0].id
            used = [
                x for x in ast.walk(s.node)
                if isinstance(x, ast.Name) and x.id == v
                and isinstance(x.ctx, ast.Load)
            ]
            if used:
                ctx.maybe("X01.await", s.where, f"{v} = {ast.unparse(n.func)}(...)")
                return
        else:
            ctx.maybe("X01.await", s.where, ast.unparse(n.func))
            return
    ctx.bad(
        "X01.await", s.where, ast.unparse(n.func),
        f"the coroutine {name} is not awaited", line=n.lineno,
    )


def _check_awaited(ctx, mem, ty, s, n):
    v = n.value
    if not isinstance(v, ast.Call):
        return
    for fi, skip, label in callee_of(ctx, mem, ty, s, v.func):
        node = _node(fi)
        if isinstance(node, ast.AsyncFunctionDef):
            continue
        rets = [
            x.value for x in ast.walk(node)
            if isinstance(x, ast.Return) and x.value is not None
        ]
        if node.name == "__init__" or not rets or all(
            isinstance(r, (ast.Constant, ast.BinOp, ast.Compare, ast.Tuple,
                           ast.List, ast.Dict))
            for r in rets
        ):
            ctx.bad(
                "X01.await", s.where, "await " + ast.unparse(v.func),
                f"{label} is awaited but is not a coroutine function",
                line=n.lineno,
            )


for _rule in (rule_global, rule_imports, rule_unbound, rule_attrs, rule_external,
              rule_unknown):
    register("X01")(_rule)
