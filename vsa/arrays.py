"""Terms of the computation on arrays: directions of space, selections."""

import ast
import re

from .interp import Policy
from .terms import contains, contains_if, is_const, map_term, walk

CREATE = ("empty", "empty_like", "zeros", "zeros_like", "ones", "full",
          "full_like", "ones_like", "array", "copy")


class ArrayPolicy(Policy):
    """the functions of some modules are inlined; new arrays are distinct"""

    unroll = 1
    soft_states = 50
    max_states = 4000
    inline = ("fluidimage.works.piv",)
    exclude = ()
    raising = {}

    def should_inline(self, func, interp, st):
        return (
            func.module.name.startswith(self.inline)
            and func.name not in self.exclude
        )

    def may_raise(self, fterm, args, kwargs, st, node, interp):
        if fterm[0] == "attr":
            return self.raising.get(fterm[2], ())
        if fterm[0] == "ext":
            return self.raising.get(fterm[1], ())
        return ()

    def on_call(self, interp, fterm, args, kwargs, st, node):
        if fterm[0] == "ext" and fterm[1].split(".")[0] == "numpy" and fterm[
            1
        ].split(".")[-1] in CREATE and args:
            t = ("call", fterm, tuple(args), tuple(sorted(kwargs.items())),
                 interp.uid(node, st))
            interp.emit(st, "call", (fterm, tuple(args),
                                     tuple(sorted(kwargs.items())), t), node)
            return [(t, st)]
        return None


def is_new(t):
    return t[0] == "call" and len(t) == 5 and t[4] is not None and t[1][
        0
    ] == "ext" and t[1][1].split(".")[-1] in CREATE


class Swap:
    """exchange of the two directions of space"""

    def __init__(self, project):
        names = set()
        for m in project.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    names.add(n.attr)
                elif isinstance(n, ast.arg):
                    names.add(n.arg)
                elif isinstance(n, ast.Name):
                    names.add(n.id)
                elif isinstance(n, ast.keyword) and n.arg:
                    names.add(n.arg)
        self.names = names
        self.cache = {}

    def name(self, n):
        """counterpart of an identifier (itself if it has no direction)"""
        if n in self.cache:
            return self.cache[n]
        res = n
        for a, b in (("x", "y"), ("y", "x"), ("X", "Y"), ("Y", "X")):
            for m in re.finditer(a, n):
                i = m.start()
                o = n[:i] + b + n[i + 1:]
                if o in self.names and not self._word(n, i) and not self._word(
                    o, i
                ):
                    res = o
                    break
            if res != n:
                break
        self.cache[n] = res
        return res

    @staticmethod
    def _word(n, i):
        """the letter belongs to a usual word"""
        low = n.lower()
        for w in ("max", "index", "indices", "axis", "next", "box", "pixel",
                  "fix", "approx", "suffix", "prefix", "exp", "ext", "xy", "yx",
                  "any", "array", "by", "copy", "ray", "key", "type", "py",
                  "sym", "query", "display", "try", "idx"):
            j = low.find(w)
            while j >= 0:
                if j <= i < j + len(w):
                    return True
                j = low.find(w, j + 1)
        return False

    def __call__(self, t):
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            if isinstance(t, tuple):
                return tuple(self(x) for x in t)
            return t
        k = t[0]
        if k == "attr":
            return ("attr", self(t[1]), self.name(t[2]))
        if k in ("param", "sym") and isinstance(t[1], str):
            return (k, self.name(t[1])) + t[2:]
        if k == "item":
            if is_const(t[2]) and t[2][1] == 0 and where_cond(t) is not None:
                return ("item", self(t[1]), t[2])
            if is_const(t[2]) and t[2][1] in (0, 1) and not isinstance(
                t[2][1], bool
            ):
                return ("item", t[1], ("const", 1 - t[2][1], "int"))
            if t[2][0] == "tuple" and len(t[2][1]) == 2:
                a, b = t[2][1]
                return ("item", self(t[1]), ("tuple", (self(b), self(a))))
            return ("item", self(t[1]), self(t[2]))
        if k == "call":
            args = self._pairs(t[2])
            kw = tuple(sorted((self.name(a), self(b)) for a, b in t[3]))
            f = t[1]
            f = self(f) if f[0] != "ext" else f
            return ("call", f, args, kw) + t[4:]
        if k in ("tuple", "lst"):
            return (k, self._pairs(t[1])) + t[2:]
        if k in ("const", "ext", "func", "class", "mod", "glob", "uid", "obj"):
            return t
        return (k,) + tuple(self(x) for x in t[1:])

    def same(self, a, b):
        """b is what a is for the other direction"""
        return canon(self(a)) == canon(b)

    def _pairs(self, args):
        """adjacent arguments (x, y) stay together"""
        out, i = [], 0
        args = tuple(args)
        while i < len(args):
            a = self(args[i])
            if i + 1 < len(args) and a != args[i] and a == args[i + 1]:
                out += [args[i], args[i + 1]]
                i += 2
            else:
                out.append(a)
                i += 1
        return tuple(out)


_canon = {}


def canon(t):
    """operands of commutative operations in a fixed order"""
    r = _canon.get(t)
    if r is None:
        def f(x):
            if x[0] == "op" and x[1] in ("+", "*", "&", "|") and repr(
                x[3]
            ) < repr(x[2]):
                return (x[0], x[1], x[3], x[2])
            return x

        r = map_term(t, f)
        if len(_canon) < 100000:
            _canon[t] = r
    return r


def strip_int(t):
    """index without conversions"""
    while True:
        if t[0] == "call" and t[1][0] == "ext" and t[1][1].split(".")[-1] in (
            "int", "int32", "int64", "intp", "asarray", "tuple", "list",
        ) and len(t[2]) == 1 and not t[3]:
            t = t[2][0]
        elif t[0] == "call" and t[1] == ("ext", "map") and len(t[2]) == 2:
            t = t[2][1]
        elif t[0] == "comp" and len(t) > 4 and not t[4] and t[2][0] != "comp" and (
            strip_int(t[2])[0] in ("elem", "idx")
        ):
            t = t[3]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
            "item", "tolist", "copy",
        ) and not t[2]:
            t = t[1][1]
        else:
            return t


def where_cond(t):
    """condition of a selection nonzero(cond)"""
    t = strip_int(t)
    if t[0] == "item" and is_const(t[2]) and t[2][1] == 0:
        t = strip_int(t[1])
    if t[0] == "call":
        f = t[1]
        if f[0] == "attr" and f[2] == "nonzero" and not t[2]:
            return f[1]
        if f[0] == "ext" and f[1].split(".")[-1] in (
            "nonzero", "where", "flatnonzero", "argwhere",
        ) and len(t[2]) == 1:
            return t[2][0]
    return None


def selected(idx):
    """condition which holds for the index, if it comes from a selection"""
    t = strip_int(idx)
    if t[0] in ("elem", "idx", "val"):
        c = where_cond(t[1])
        if c is not None:
            return c
    if t[0] == "item" and t[2][0] == "idx":
        return where_cond(t[1])
    if t[0] == "cmp" or (t[0] == "op" and t[1] in ("&", "|")):
        return t
    return where_cond(t)


def attrs_of(t, base):
    """names of the attributes of base used in the term"""
    return {x[2] for x in walk(t) if x[0] == "attr" and x[1] == base}


__all__ = ["ArrayPolicy", "Swap", "attrs_of", "contains", "contains_if",
           "is_new", "map_term", "selected", "strip_int", "where_cond"]
