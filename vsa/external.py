"""Names exported by installed packages, read from their sources or stubs
(nothing of them is imported, except modules of the standard library)."""

import ast
import glob
import importlib
import sys
from pathlib import Path

_cache = {}


def _site():
    res = []
    for pat in ("/opt/venv/lib/python3*/site-packages",):
        res += [Path(p) for p in sorted(glob.glob(pat))]
    return res


def _bound(tree):
    names = set()
    stars = []
    dynamic = False
    stack = list(tree.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            if n.name == "__getattr__":
                dynamic = True
            continue
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == "*":
                    stars.append((n.module, n.level))
                else:
                    names.add(a.asname or a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                names.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif n.id in ("globals", "vars", "locals", "exec", "setattr"):
                dynamic = True
        stack += list(ast.iter_child_nodes(n))
    return names, stars, dynamic


def find(name):
    """path of the source of a module of an installed package"""
    parts = name.split(".")
    for site in _site():
        base = site.joinpath(*parts)
        for cand in (
            base / "__init__.pyi", base / "__init__.py",
            base.with_name(base.name + ".pyi"), base.with_name(base.name + ".py"),
        ):
            if cand.is_file():
                return cand
    return None


def names_of(name, depth=0):
    """set of names, or None when they are not known"""
    if name in _cache:
        return _cache[name]
    _cache[name] = None
    root = name.split(".")[0]
    res = None
    if root in sys.stdlib_module_names:
        if root not in ("tkinter", "this", "antigravity", "idlelib", "turtle"):
            try:
                res = set(dir(importlib.import_module(name)))
            except Exception:
                res = None
        _cache[name] = res
        return res
    path = find(name)
    if path is None or depth > 6:
        return None
    try:
        tree = ast.parse(path.read_text(encoding="utf-8"))
    except (SyntaxError, UnicodeDecodeError):
        return None
    names, stars, dynamic = _bound(tree)
    if dynamic:
        return None
    if path.stem == "__init__":
        for f in path.parent.iterdir():
            if f.is_dir() or f.suffix in (".py", ".pyi", ".so"):
                names.add(f.name.split(".")[0])
        pkg = name
    else:
        pkg = name.rpartition(".")[0]
    for mod, level in stars:
        if level:
            base = pkg
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = base + ("." + mod if mod else "")
        else:
            full = mod
        sub = names_of(full, depth + 1)
        if sub is None:
            return None
        names |= sub
    # attributes set from outside the module
    names |= {"__file__", "__name__", "__doc__", "__path__", "__version__",
              "__dict__", "__spec__", "__package__"}
    _cache[name] = names
    return names


_universe = None
_ident = None


def universe():
    """every identifier which appears in the installed packages or in the
    standard library; None without installed packages"""
    global _universe
    if _universe is not None:
        return _universe or None
    import builtins
    import os
    import re
    import sysconfig

    ident = re.compile(rb"[A-Za-z_][A-Za-z0-9_]*")
    sites = _site()
    if not sites:
        _universe = set()
        return None
    names = set()
    for root in [str(s) for s in sites] + [sysconfig.get_paths()["stdlib"]]:
        for d, dirs, files in os.walk(root):
            dirs[:] = [
                x for x in dirs
                if x not in ("tests", "test", "__pycache__", "site-packages",
                             "dist-packages", "idlelib")
                and not x.startswith("fluidimage")
            ]
            for f in files:
                if f.endswith((".py", ".pyi")):
                    with open(os.path.join(d, f), "rb") as file:
                        names.update(ident.findall(file.read()))
    res = {n.decode() for n in names} | set(dir(builtins))
    for mod in ("os", "io", "time", "_socket", "_thread", "select", "signal"):
        try:
            res |= set(dir(importlib.import_module(mod)))
        except ImportError:
            pass
    for t in (str, bytes, int, float, complex, list, tuple, dict, set,
              frozenset, type, object, BaseException, OSError, property,
              memoryview, bytearray, slice, range):
        res |= set(dir(t))
    _universe = res
    return res


def installed(root):
    return root in sys.stdlib_module_names or find(root) is not None or any(
        (s / root).is_dir() for s in _site()
    ) or any(list(s.glob(root + ".*")) for s in _site())
