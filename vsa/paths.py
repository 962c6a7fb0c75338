"""Algebra of file paths on terms, and the file operations of a path."""

import fnmatch

from .terms import (
    NONE, const, contains_if, is_const, map_term, mk_fstr, show, strip_uid, walk,
)

_DROP = ("resolve", "absolute", "expanduser", "as_posix", "__str__", "__fspath__")
_PATHS = ("Path", "PurePath", "PosixPath", "str", "fspath", "abspath", "normpath",
          "realpath", "expanduser")


def split_path(t):
    """(base term, components): components are str/fstr/opaque terms"""
    k = t[0]
    if k == "op" and t[1] == "/":
        b, c = split_path(t[2])
        b2, c2 = split_path(t[3])
        if is_const(t[3]) and isinstance(t[3][1], str):
            comps = [const(x) for x in t[3][1].split("/") if x not in ("", ".")]
            return b, c + comps
        if t[3][0] == "fstr":
            return b, c + split_fstr(t[3])
        if c2:
            return b, c + [b2] + c2
        return b, c + [t[3]]
    if k == "call":
        f, args, kws = t[1], t[2], t[3]
        if f[0] == "ext":
            n = f[1].split(".")[-1]
            if f[1] in ("os.path.join", "posixpath.join") and args:
                b, c = split_path(args[0])
                for a in args[1:]:
                    c = c + (split_fstr(a) if a[0] == "fstr" else [a])
                return b, c
            if n in _PATHS and args:
                b, c = split_path(args[0])
                for a in args[1:]:
                    c = c + [a]
                return b, c
            if f[1] in ("os.path.dirname",) and args:
                return parent(split_path(args[0]))
            if f[1] in ("os.path.basename",) and args:
                return name_of(split_path(args[0])), []
        if f[0] == "attr":
            if f[2] in _DROP:
                return split_path(f[1])
            if f[2] == "with_name" and len(args) == 1:
                b, c = parent(split_path(f[1]))
                return b, c + [args[0]]
            if f[2] == "joinpath":
                b, c = split_path(f[1])
                return b, c + list(args)
            if f[2] == "with_suffix" and len(args) == 1:
                b, c = split_path(f[1])
                if c:
                    return b, c[:-1] + [("suffixed", norm(c[-1]), args[0])]
    if k == "attr" and t[2] == "parent":
        return parent(split_path(t[1]))
    if k == "fstr":
        c = split_fstr(t)
        if len(c) > 1:
            return c[0], c[1:]
    return t, []


def split_fstr(t):
    """components of an f-string which contains separators"""
    cur, out = [], []
    for p in t[1]:
        if p[0] == "const" and "/" in str(p[1]):
            bits = str(p[1]).split("/")
            for n, b in enumerate(bits):
                if n:
                    out.append(mk_fstr(tuple(cur)))
                    cur = []
                if b:
                    cur.append(const(b))
        else:
            cur.append(p)
    out.append(mk_fstr(tuple(cur)))
    res = []
    for o in out:
        if o == const(""):
            continue
        if o[0] == "fstr" and len(o[1]) == 1 and o[1][0][0] == "fmt" and (
            o[1][0][2] == ""
        ):
            o = o[1][0][1]
        res.append(o)
    return res


def parent(bc):
    b, c = bc
    if c:
        return b, c[:-1]
    return ("attr", b, "parent"), []


def name_of(bc):
    b, c = bc
    if c:
        return c[-1]
    return ("attr", b, "name")


def norm(t):
    """normal form of the names and paths inside a term"""

    def f(x):
        if x[0] == "attr" and x[2] == "name":
            b, c = split_path(x[1])
            if c:
                return c[-1]
        if x[0] == "item" and x[2][0] == "slice" and x[1][0] in ("fstr", "const"):
            lo, hi, st = x[2][1:4]
            if hi == NONE and st in (NONE, const(1)) and is_const(lo) and isinstance(
                lo[1], int
            ) and lo[1] >= 0:
                if x[1][0] == "const" and isinstance(x[1][1], str):
                    return const(x[1][1][lo[1]:])
                p0 = x[1][1][0] if x[1][0] == "fstr" else None
                if p0 is not None and p0[0] == "const" and len(p0[1]) >= lo[1]:
                    return mk_fstr((const(p0[1][lo[1]:]),) + x[1][1][1:])
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] in (
            "removeprefix", "replace",
        ) and x[1][1][0] == "fstr" and x[2] and is_const(x[2][0]):
            p0 = x[1][1][1][0]
            if p0[0] == "const" and str(p0[1]).startswith(str(x[2][0][1])):
                new = x[2][1] if len(x[2]) > 1 else const("")
                if new[0] == "const":
                    return mk_fstr((const(str(new[1]) + p0[1][len(x[2][0][1]):]),)
                                   + x[1][1][1][1:])
        if x[0] == "op" and x[1] == "+" and any(
            y[0] in ("fstr",) or (y[0] == "const" and isinstance(y[1], str))
            for y in x[2:4]
        ):
            return mk_fstr(_parts(x[2]) + _parts(x[3]))
        if x[0] == "fstr":
            return mk_fstr(x[1])
        if x[0] == "item" and x[1][0] == "comp" and x[1][1] == "list" and len(
            x[1][3]
        ) == 1 and not x[1][4] and x[2][0] != "slice":
            return x[1][2]
        if x[0] == "elem" and x[1][0] == "comp" and len(x[1][3]) == 1:
            return x[1][2]
        return x

    return map_term(t, f)


def _parts(t):
    if t[0] == "fstr":
        return t[1]
    if t[0] == "const" and isinstance(t[1], str):
        return (t,)
    return (("fmt", t, "", -1),)


def canon(t):
    """canonical path: (base, components)"""
    b, c = split_path(norm(strip_uid(t)))
    return norm(b), tuple(norm(x) for x in c)


def same_path(a, b):
    return canon(a) == canon(b)


IDX = 7


def render(t, index=None):
    """a sample of a file name; unknown strings become <...>; index(term) tells
    which formatted values are small integers"""
    t = norm(t)
    if t[0] == "const":
        return str(t[1])
    if t[0] == "suffixed":
        s = render(t[1], index)
        return s.rsplit(".", 1)[0] + render(t[2], index)
    if t[0] != "fstr":
        return "<" + show(strip_uid(t)) + ">"
    out = ""
    for p in t[1]:
        if p[0] == "const":
            out += str(p[1])
            continue
        v, spec = p[1], p[2]
        if is_index(v) or (index is not None and index(v)):
            try:
                out += format(IDX, spec if isinstance(spec, str) else "")
                continue
            except Exception:
                pass
        out += "<" + show(strip_uid(v)) + ">"
    return out


def is_index(v):
    if v[0] == "attr" and "index" in str(v[2]):
        return True
    if v[0] == "sym" and ("idx" in v[1] or "index" in v[1]):
        return True
    if v[0] == "idx":
        return True
    if v[0] == "elem" and v[1][0] == "call" and v[1][1] == ("ext", "range"):
        return True
    return False


class FileOp:
    def __init__(self, op, path, ev, idx, content=None):
        self.op = op  # write, append, read, exists, glob, mkdir, unlink, touch
        self.path = path
        self.ev = ev
        self.idx = idx
        self.content = content or []

    def __repr__(self):
        return f"{self.op} {show(self.path)}"


def file_ops(trace):
    res = []
    opened = {}
    for i, e in enumerate(trace):
        if e.kind != "call":
            continue
        ft, args, kws, val = e.a
        kw = dict(kws)
        if ft == ("ext", "open") and args:
            mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
            op = FileOp(_mode(mode), args[0], e, i)
            opened[val] = op
            res.append(op)
        elif ft[0] == "ext" and ft[1].split(".")[-1] == "ParamContainer" and (
            "path_file" in kw
        ):
            res.append(FileOp("read", kw["path_file"], e, i, [val]))
        elif ft[0] == "ext" and ft[1] in ("os.path.exists", "os.path.isfile") and (
            args
        ):
            res.append(FileOp("exists", args[0], e, i))
        elif ft[0] == "ext" and ft[1] in ("os.remove", "os.unlink") and args:
            res.append(FileOp("unlink", args[0], e, i))
        elif ft[0] == "ext" and ft[1] in ("os.makedirs", "os.mkdir") and args:
            res.append(FileOp("mkdir", args[0], e, i))
        elif ft[0] == "ext" and ft[1] in (
            "os.replace", "os.rename", "shutil.move"
        ) and len(args) == 2:
            res.append(FileOp("rename", args[0], e, i, [args[1]]))
        elif ft[0] == "ext" and ft[1] in ("glob.glob",) and args:
            res.append(FileOp("glob", args[0], e, i))
        elif ft[0] == "attr":
            m = ft[2]
            if m == "open":
                mode = args[0] if args else kw.get("mode", const("r"))
                op = FileOp(_mode(mode), ft[1], e, i)
                opened[val] = op
                res.append(op)
            elif m == "write_text" and args:
                res.append(FileOp("write", ft[1], e, i, [args[0]]))
            elif m == "read_text":
                res.append(FileOp("read", ft[1], e, i, [val]))
            elif m in ("touch", "unlink", "mkdir", "exists", "is_file"):
                res.append(FileOp("exists" if m == "is_file" else m, ft[1], e, i))
            elif m in ("glob", "rglob") and args:
                res.append(FileOp("glob", ("op", "/", ft[1], args[0]), e, i))
            elif m in ("rename", "replace") and len(args) == 1 and not is_const(
                args[0]
            ):
                res.append(FileOp("rename", ft[1], e, i, [args[0]]))
            elif m == "_save_as_xml":
                p = args[0] if args else kw.get("path_file")
                if p is not None:
                    res.append(FileOp("write", p, e, i, [ft[1]]))
            elif m in ("write", "writelines") and args and ft[1] in opened:
                opened[ft[1]].content.append(args[0])
            elif m in ("read", "readlines", "readline") and ft[1] in opened:
                opened[ft[1]].content.append(val)
    return res


def _mode(m):
    if m[0] == "const":
        s = str(m[1])
        if "a" in s:
            return "append"
        if "w" in s or "x" in s:
            return "write"
        return "read"
    return "open?"


__all__ = ["canon", "same_path", "render", "file_ops", "split_path", "norm",
           "name_of", "parent", "FileOp", "fnmatch", "contains_if", "walk"]
