"""Context managers which give a temporary path and rename the file at the end."""

import ast

RENAMES = {"replace", "rename", "renames", "move", "link"}


def is_rename(call):
    """call of the syntax tree renaming a file"""
    f = call.func
    if not isinstance(f, ast.Attribute) or f.attr not in RENAMES:
        return isinstance(f, ast.Name) and f.id in ("move", "rename")
    # "text".replace(old, new) is not a renaming
    if f.attr == "replace" and len(call.args) == 2:
        return isinstance(f.value, ast.Name) and f.value.id == "os"
    return True


def temporary_writer(func):
    """context manager which gives a path (what it does is checked by T03)"""
    res = getattr(func, "_temporary_writer", None)
    if res is None:
        res = bool(
            func.is_contextmanager and func.node.args.args
            and any(isinstance(n, ast.Call) and is_rename(n)
                    for n in ast.walk(func.node))
            and any(isinstance(n, ast.Yield) and n.value is not None
                    for n in ast.walk(func.node)))
        func._temporary_writer = res
    return res


def writes_files(p, func, _seen=None):
    """the function (or functions of the project which it calls) writes a file"""
    seen = set() if _seen is None else _seen
    if func.key in seen:
        return False
    seen.add(func.key)
    for n in ast.walk(func.node):
        if not isinstance(n, ast.Call):
            continue
        name = n.func.attr if isinstance(n.func, ast.Attribute) else (
            n.func.id if isinstance(n.func, ast.Name) else "")
        if "save" in name or name in ("File", "open", "write_text",
                                      "write_bytes") and any(
                isinstance(a, ast.Constant) and str(a.value)[:1] in "wax"
                for a in list(n.args[1:]) + [k.value for k in n.keywords]):
            return True
        if isinstance(n.func, ast.Name):
            t = p.attr_of(("mod", func.module.name), name)
            if t and t[0] == "func":
                g = p.funcs_by_key.get(t[1])
                if g is not None and writes_files(p, g, seen):
                    return True
    return False
