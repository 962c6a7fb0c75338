"""Project index: modules, classes (with MRO), functions, name resolution.

Everything is read from the working tree of /repo at every run; nothing of
fluidimage is imported or executed.
"""

import ast
import builtins
import os
from pathlib import Path

REPO = Path(os.environ.get("VSA_REPO", "/repo"))
PKG = "fluidimage"


class AnalysisBroken(Exception):
    """The analysed code cannot be found or understood (exit code 2)."""


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.qual = module.name + "." + name
        self.methods = {}
        self.class_attrs = {}
        self.bases = []
        self._mro = None

    def __repr__(self):
        return f"<class {self.qual}>"

    def mro(self):
        if self._mro is None:
            seqs = [b.mro() for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            res = [self]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in o[1:] for o in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[c for c in s if c is not cand] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = res
        return self._mro

    def external_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassInfo)]
        return out

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def is_subclass(self, name):
        return any(c.name == name for c in self.mro()) or any(
            b.split(".")[-1] == name for b in self.external_bases()
        )


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        if parent is not None:
            self.qual = f"{parent.qual}.<locals>.{self.name}"
            if self.name == "<lambda>":
                self.qual += f"@{node.lineno}:{node.col_offset}"
        elif cls is not None:
            self.qual = f"{cls.qual}.{self.name}"
        else:
            self.qual = f"{module.name}.{self.name}"
            if self.name == "<lambda>":
                self.qual += f"@{node.lineno}:{node.col_offset}"
        self.key = (module.name, node.lineno, node.col_offset, self.name)
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = False
        self.decorators = []
        if not isinstance(node, ast.Lambda):
            self.is_gen = _has_yield(node)
            for dec in node.decorator_list:
                self.decorators.append(ast.unparse(dec))

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(
            d in ("property", "cached_property", "functools.cached_property")
            for d in self.decorators
        )

    @property
    def is_contextmanager(self):
        return any(d.split(".")[-1] == "contextmanager" for d in self.decorators)

    def __repr__(self):
        return f"<func {self.qual}>"

    @property
    def short(self):
        """file:function, as used in reports and known-findings keys"""
        q = self.qual
        if q.startswith(self.module.name + "."):
            q = q[len(self.module.name) + 1:]
        return f"{self.module.rel}:{q}"


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(
            n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
        ):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        self.src = path.read_text(encoding="utf-8")
        self.tree = ast.parse(self.src, filename=str(path))
        self.imports = {}
        self.stars = []
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self.is_pkg = path.name == "__init__.py"

    def _abs(self, module, level):
        if level == 0:
            return module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        if module:
            parts = parts + module.split(".")
        return ".".join(parts)


class Project:
    def __init__(self, repo=None):
        self.repo = Path(repo) if repo else REPO
        self.root = self.repo / "src" / PKG
        if not self.root.is_dir():
            raise AnalysisBroken(f"{self.root} not found")
        self.modules = {}
        self.funcs_by_key = {}
        self.classes_by_qual = {}
        for path in sorted(self.root.rglob("*.py")):
            rel = path.relative_to(self.repo / "src").as_posix()
            parts = rel[:-3].split("/")
            if parts[-1] == "__init__":
                parts = parts[:-1]
            if parts[-1].startswith("test_") or parts[-1] == "conftest":
                continue
            name = ".".join(parts)
            try:
                mod = Module(name, path, "src/" + rel)
            except SyntaxError as err:
                raise AnalysisBroken(f"syntax error in {rel}: {err}")
            self.modules[name] = mod
        for mod in self.modules.values():
            self._index(mod)
        for mod in self.modules.values():
            for cls in mod.classes.values():
                cls.bases = [self._resolve_base(mod, b) for b in cls.node.bases]

    # ------------------------------------------------------------------
    def _index(self, mod):
        def visit_body(body, top=True):
            for node in body:
                if isinstance(node, ast.Import):
                    for a in node.names:
                        if a.asname:
                            mod.imports[a.asname] = ("mod", a.name)
                        else:
                            mod.imports[a.name.split(".")[0]] = (
                                "mod",
                                a.name.split(".")[0],
                            )
                elif isinstance(node, ast.ImportFrom):
                    base = mod._abs(node.module, node.level)
                    for a in node.names:
                        if a.name == "*":
                            mod.stars.append(base)
                        else:
                            mod.imports[a.asname or a.name] = (
                                "from",
                                base,
                                a.name,
                            )
                elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = FuncInfo(node, mod)
                    mod.funcs[node.name] = f
                    self.register(f)
                elif isinstance(node, ast.ClassDef):
                    c = ClassInfo(node.name, mod, node)
                    mod.classes[node.name] = c
                    self.classes_by_qual[c.qual] = c
                    for sub in node.body:
                        self._index_class_stmt(c, sub, mod)
                elif isinstance(node, ast.Assign):
                    for t in node.targets:
                        if isinstance(t, ast.Name):
                            mod.globals[t.id] = node.value
                        elif isinstance(t, ast.Tuple):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    mod.globals[e.id] = None
                elif isinstance(node, ast.AnnAssign):
                    if isinstance(node.target, ast.Name):
                        mod.globals[node.target.id] = node.value
                elif isinstance(node, (ast.If, ast.Try, ast.With)):
                    for field in ("body", "orelse", "finalbody"):
                        visit_body(getattr(node, field, []), False)
                    for h in getattr(node, "handlers", []):
                        visit_body(h.body, False)
                elif isinstance(node, (ast.For, ast.While)):
                    if isinstance(node, ast.For):
                        for n in ast.walk(node.target):
                            if isinstance(n, ast.Name):
                                mod.globals[n.id] = None
                    visit_body(node.body, False)

        visit_body(mod.tree.body)

    def _index_class_stmt(self, c, sub, mod):
        if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(sub, mod, c)
            if any(d.endswith(".setter") for d in f.decorators):
                c.methods.setdefault(sub.name + ".setter", f)
            else:
                c.methods[sub.name] = f
            self.register(f)
        elif isinstance(sub, ast.Assign):
            for t in sub.targets:
                if isinstance(t, ast.Name):
                    c.class_attrs[t.id] = sub.value
        elif isinstance(sub, ast.AnnAssign) and sub.value is not None:
            if isinstance(sub.target, ast.Name):
                c.class_attrs[sub.target.id] = sub.value
        elif isinstance(sub, ast.If):
            for s in sub.body + sub.orelse:
                self._index_class_stmt(c, s, mod)

    def register(self, f):
        self.funcs_by_key[f.key] = f

    def _resolve_base(self, mod, node):
        dotted = ast.unparse(node)
        t = self.resolve(mod, dotted.split(".")[0])
        for part in dotted.split(".")[1:]:
            t = self.attr_of(t, part)
        if t[0] == "class":
            return self.classes_by_qual[t[1]]
        return dotted

    # ------------------------------------------------------------------
    def resolve(self, mod, name, _seen=None):
        """Resolve a global name in a module to a term"""
        _seen = _seen or set()
        if (mod.name, name) in _seen:
            return ("ext", f"{mod.name}.{name}")
        _seen.add((mod.name, name))
        if name in mod.funcs:
            f = mod.funcs[name]
            return ("func", f.key, None)
        if name in mod.classes:
            return ("class", mod.classes[name].qual)
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == "mod":
                return ("mod", imp[1])
            full = imp[1] + "." + imp[2]
            if full in self.modules:
                sub = self.modules.get(imp[1])
                if sub is None or (
                    imp[2] not in sub.funcs and imp[2] not in sub.classes
                    and imp[2] not in sub.globals
                ):
                    return ("mod", full)
            if imp[1] in self.modules:
                return self.resolve(self.modules[imp[1]], imp[2], _seen)
            return ("ext", full)
        if name in mod.globals:
            return ("glob", mod.name, name)
        for base in mod.stars:
            if base in self.modules:
                t = self.resolve(self.modules[base], name, _seen)
                if t[0] != "undef":
                    return t
        if hasattr(builtins, name):
            return ("ext", name)
        if name in ("__file__", "__name__", "__doc__", "__path__"):
            return ("glob", mod.name, name)
        if mod.stars and any(b not in self.modules for b in mod.stars):
            return ("ext", f"{mod.name}.{name}")
        return ("undef", mod.name, name)

    def attr_of(self, t, attr):
        if t[0] == "mod":
            full = t[1] + "." + attr
            if full in self.modules:
                m = self.modules.get(t[1])
                if m is None or attr not in m.imports:
                    return ("mod", full)
            if t[1] in self.modules:
                r = self.resolve(self.modules[t[1]], attr)
                if r[0] == "undef":
                    return ("ext", full)
                return r
            return ("ext", full)
        if t[0] == "ext":
            return ("ext", t[1] + "." + attr)
        return ("attr", t, attr)

    # ------------------------------------------------------------------
    def module(self, name):
        try:
            return self.modules[PKG + "." + name if not name.startswith(PKG) else name]
        except KeyError:
            raise AnalysisBroken(f"module {name} not found")

    def find_class(self, name, module=None):
        cands = [
            c
            for c in self.classes_by_qual.values()
            if c.name == name
            and (module is None or c.module.name == PKG + "." + module)
        ]
        if not cands:
            cands = [c for c in self.classes_by_qual.values() if c.name == name]
        if not cands:
            raise AnalysisBroken(f"class {name} not found")
        return cands[0]

    def find_func(self, module, name):
        mod = self.module(module)
        t = self.resolve(mod, name)
        if t[0] == "func":
            return self.funcs_by_key[t[1]]
        for m in self.modules.values():
            if name in m.funcs:
                return m.funcs[name]
        raise AnalysisBroken(f"function {module}.{name} not found")

    def find_method(self, cls, name):
        if isinstance(cls, str):
            cls = self.find_class(cls)
        m = cls.find_method(name)
        if m is None:
            raise AnalysisBroken(f"method {cls.name}.{name} not found")
        return m

    def all_funcs(self):
        for mod in self.modules.values():
            yield from mod.funcs.values()
            for c in mod.classes.values():
                yield from c.methods.values()

    def subclasses(self, name, strict=False):
        return [
            c
            for c in self.classes_by_qual.values()
            if any(name in (b.name, b.qual) for b in c.mro()[(1 if strict else 0):])
        ]
