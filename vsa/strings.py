"""Strings made of known text and of unknown parts of a known kind.

A string is a term ("fstr", parts) of the interpreter (parts: constants and
("fmt", ("hole", kind, role), "", -1)) or a constant. Kinds of unknown parts:

- "num": a number (no white space, none of ( ) : , _ nor letters),
- "word": at least one character, no white space,
- "pad": only spaces, possibly none,
- "date": as "2024-01-31_12-00-00.00" (no white space),
- "fix<n>": n characters, as "num",
- "any": any text on one line (but not the texts with a long word: an item whose
  name contains "mem usage" is not considered).

The results are exact or ambiguous (AMBIG): the unknown parts may change them.
"""

import re

from .interp import const, is_const
from .terms import mk_fstr

AMBIG = ("ambiguous",)


def hole(kind, role):
    return ("fmt", ("hole", kind, role), "", -1)


def is_hole(p):
    return p[0] == "fmt" and p[1][0] == "hole"


def parts_of(t):
    if is_const(t) and isinstance(t[1], str):
        return [t] if t[1] else []
    if t[0] == "fstr" and all(p[0] == "const" or is_hole(p) for p in t[1]):
        return list(t[1])
    return None


def make(parts):
    parts = [p for p in parts if p[0] != "const" or p[1] != ""]
    if not parts:
        return const("")
    return mk_fstr(tuple(parts))


def hole_of(t):
    """(kind, role) if the string is one unknown part"""
    ps = parts_of(t)
    if ps is not None and len(ps) == 1 and is_hole(ps[0]):
        return ps[0][1][1:]
    return None


def may_contain(kind, s):
    """whether an unknown part may contain or overlap with a text"""
    if kind == "pad":
        return set(s) <= {" "}
    if kind == "num" or kind.startswith("fix"):
        return bool(re.fullmatch(r"[0-9.eE+-]+", s))
    if kind == "date":
        return bool(re.fullmatch(r"[0-9._-]+", s))
    if re.search(r"[A-Za-z]{4,}", s) or "\n" in s or "\033" in s:
        return False
    if kind == "word":
        return not re.search(r"\s", s)
    return True


def find_all(parts, s):
    """occurrences: list of (index of the part, position) or ("maybe", index)"""
    res = []
    for i, p in enumerate(parts):
        if p[0] == "const":
            t = p[1]
            # beginning of the text in the unknown part before
            if i and is_hole(parts[i - 1]):
                for k in range(1, len(s)):
                    if t.startswith(s[k:]) and may_contain(
                            parts[i - 1][1][1], s[:k]):
                        res.append(("maybe", i - 1))
                        break
            pos = t.find(s)
            while pos >= 0:
                res.append((i, pos))
                pos = t.find(s, pos + 1)
            if i + 1 < len(parts) and is_hole(parts[i + 1]):
                for k in range(1, len(s)):
                    if t.endswith(s[:k]) and may_contain(
                            parts[i + 1][1][1], s[k:]):
                        res.append(("maybe", i + 1))
                        break
        elif may_contain(p[1][1], s):
            res.append(("maybe", i))
    return res


def cut(parts, i, pos, n):
    """text before and after the n characters at `pos` of the part i"""
    t = parts[i][1]
    return (make(parts[:i] + [const(t[:pos])]),
            make([const(t[pos + n:])] + parts[i + 1:]))


def partition(parts, s, reverse=False):
    occ = find_all(parts, s)
    if reverse:
        # overlapping occurrences: the last one
        occ = occ[::-1]
    if not occ:
        w = make(parts)
        return (const(""), const(""), w) if reverse else (
            w, const(""), const(""))
    if occ[0][0] == "maybe":
        return None
    a, b = cut(parts, occ[0][0], occ[0][1], len(s))
    return a, const(s), b


def split(parts, s, maxsplit=-1):
    """list of strings, or None (ambiguous)"""
    res = []
    while maxsplit != 0:
        r = partition(parts, s)
        if r is None:
            res.append(AMBIG)
            return res
        if r[1] == const(""):
            break
        res.append(r[0])
        parts = parts_of(r[2])
        maxsplit -= 1
    res.append(make(parts))
    return res


def words(parts):
    """words: (beginning, end, exact): lists of words; an unknown number of
    words may be between them when it is not exact"""
    seq = []        # strings, " " and None (unknown words)
    for p in parts:
        if p[0] == "const":
            for x in re.split(r"(\s+)", p[1]):
                if x:
                    seq.append(" " if x.isspace() else const(x))
        elif p[1][1] == "pad":
            seq.append("pad")
        elif p[1][1] == "any":
            seq.append(None)
        else:
            seq.append(p)
    out = [[]]
    exact = True
    for i, x in enumerate(seq):
        if x == " ":
            out.append([])
        elif x == "pad":
            near = (i and seq[i - 1] == " ") or (
                i + 1 < len(seq) and seq[i + 1] == " ")
            if near:
                out.append([])
            else:
                out[-1].append(AMBIG)
        elif x is None:
            exact = False
            out[-1].append(AMBIG)
        else:
            out[-1].append(x)
    res = []
    for w in out:
        if not w:
            continue
        res.append(AMBIG if AMBIG in w else make(w))
    if exact:
        return res, res, True
    first = next((i for i, w in enumerate(res) if w == AMBIG), len(res))
    last = next((i for i, w in enumerate(res[::-1]) if w == AMBIG), len(res))
    return res[:first], res[len(res) - last:], False


def startswith(parts, s):
    if not s:
        return True
    if not parts:
        return False
    p = parts[0]
    if p[0] == "const":
        t = p[1]
        if len(t) >= len(s):
            return t.startswith(s)
        if not s.startswith(t):
            return False
        return startswith(parts[1:], s[len(t):])
    kind = p[1][1]
    if may_contain(kind, s[:1]) or kind in ("any", "word"):
        if kind in ("any", "word") and not may_contain(kind, s) and \
                len(parts) == 1:
            return False
        return None
    if kind == "pad":
        return startswith(parts[1:], s) if s[0] != " " else None
    return False


def endswith(parts, s):
    if not s:
        return True
    if not parts:
        return False
    p = parts[-1]
    if p[0] == "const":
        t = p[1]
        if len(t) >= len(s):
            return t.endswith(s)
        if not s.endswith(t):
            return False
        return endswith(parts[:-1], s[:-len(t)])
    if may_contain(p[1][1], s[-1:]):
        return None
    return False


def strip(parts, chars, left=True, right=True):
    parts = list(parts)
    while left and parts and parts[0][0] == "const":
        t = parts[0][1].lstrip(chars)
        if t:
            parts[0] = const(t)
            break
        parts.pop(0)
    while right and parts and parts[-1][0] == "const":
        t = parts[-1][1].rstrip(chars)
        if t:
            parts[-1] = const(t)
            break
        parts.pop()
    if chars is None:
        if left and parts and is_hole(parts[0]) and parts[0][1][1] == "pad":
            return strip(parts[1:], chars, left, right)
        if right and parts and is_hole(parts[-1]) and parts[-1][1][1] == "pad":
            return strip(parts[:-1], chars, left, right)
    return make(parts)


def substring(parts, start, stop):
    """s[start:stop] with constant bounds (None: ambiguous)"""
    parts = list(parts)
    if start is not None and start < 0 or stop is not None and stop >= 0 and \
            parts and not (len(parts) == 1 and parts[0][0] == "const"):
        if start is not None and start < 0 and len(parts) > 1 and \
                parts[-1][0] == "const" and len(parts[-1][1]) >= -start and \
                stop is None:
            return const(parts[-1][1][start:])
        # last characters of a date (its length is known)
        if start is not None and stop is None and parts and is_hole(
                parts[-1]) and parts[-1][1][1] == f"fix{-start}":
            return make(parts[-1:])
        return None
    if len(parts) == 1 and parts[0][0] == "const":
        return const(parts[0][1][slice(start, stop)])
    if start:
        if not parts or parts[0][0] != "const" or len(parts[0][1]) < start:
            return None
        parts[0] = const(parts[0][1][start:])
    if stop and parts and is_hole(parts[-1]) and \
            parts[-1][1][1] == f"fix{-stop}":
        parts.pop()
        stop = None
    if stop:
        if not parts or parts[-1][0] != "const" or len(parts[-1][1]) < -stop:
            return None
        parts[-1] = const(parts[-1][1][:stop])
    return make(parts)


def number(t):
    """constant value of the length of a known text"""
    if t[0] == "call" and t[1] == ("ext", "len") and len(t[2]) == 1 and \
            is_const(t[2][0]) and isinstance(t[2][0][1], str):
        return const(len(t[2][0][1]))
    if t[0] == "neg" and is_const(number(t[1])):
        return const(-number(t[1])[1])
    return t


class StringPolicyMixin:
    """string operations for an interpreter"""

    reasons = ()

    def string_call(self, I, fv, args, kwargs, st, node):
        if fv[0] != "attr":
            return None
        base, name = fv[1], fv[2]
        if base[0] == "words" and name == "pop" and len(args) <= 1:
            return None
        if base == AMBIG:
            return [(AMBIG, st)]
        parts = parts_of(base)
        if parts is None or is_const(base):
            return None
        a = list(args)
        kw = dict(kwargs)
        if any(not is_const(x) for x in a) or any(
                not is_const(x) for x in kw.values()):
            return None
        v = [x[1] for x in a]
        s = v[0] if v else kw.get("sep", const(None))[1]
        r = None
        if name in ("startswith", "endswith") and v:
            f = startswith if name == "startswith" else endswith
            res = [f(parts, x) for x in (
                s if isinstance(s, tuple) else (s,))]
            if True in res:
                r = const(True)
            elif None not in res:
                r = const(False)
            else:
                # true for some texts and false for others
                r = ("either", base, name, const(str(s)))
        elif name in ("partition", "rpartition"):
            x = partition(parts, s, name == "rpartition")
            r = ("tuple", x if x is not None else (AMBIG,) * 3)
        elif name == "split" and s is None:
            m = v[1] if len(v) > 1 else kw.get("maxsplit", const(-1))[1]
            if m != -1:
                return [(AMBIG, st)]
            w = words(parts)
            r = ("words",) + tuple(map(tuple, w[:2])) + (w[2],)
        elif name == "split":
            m = v[1] if len(v) > 1 else kw.get("maxsplit", const(-1))[1]
            x = split(parts, s, m)
            if AMBIG in x:
                r = ("words", tuple(x[:-1]), (), False)
            else:
                r = ("tuple", tuple(x))
        elif name == "rsplit" and s is not None:
            m = v[1] if len(v) > 1 else kw.get("maxsplit", const(-1))[1]
            if m == 1:
                x = partition(parts, s, True)
                if x is None:
                    r = ("tuple", (AMBIG, AMBIG))
                elif x[1] == const(""):
                    r = ("tuple", (x[2],))
                else:
                    r = ("tuple", (x[0], x[2]))
        elif name in ("strip", "lstrip", "rstrip"):
            r = strip(parts, s, name != "rstrip", name != "lstrip")
        elif name == "removeprefix" and v:
            x = startswith(parts, s)
            if x:
                r = substring(parts, len(s), None)
            elif x is False:
                r = base
        elif name == "removesuffix" and v:
            x = endswith(parts, s)
            if x:
                r = substring(parts, None, -len(s)) if s else base
            elif x is False:
                r = base
        if r is None:
            return None
        return [(r, st)]

    def on_compare(self, I, op, a, b, st):
        if op in ("in", "not in") and is_const(a) and isinstance(a[1], str) \
                and not is_const(b):
            parts = parts_of(b)
            if parts is not None:
                occ = find_all(parts, a[1])
                if any(o[0] != "maybe" for o in occ):
                    return const(op == "in")
                if not occ:
                    return const(op != "in")
        if op in ("is", "is not"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "call" and x[1] in (("ext", "int"), (
                        "ext", "float")) and x[2]:
                    x = x[2][0]
                if y == const(None) and not is_const(x) and \
                        parts_of(x) is not None:
                    return const(op == "is not")
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if is_const(x) and isinstance(x[1], str) and not is_const(y):
                    parts = parts_of(y)
                    if parts and startswith(parts, x[1]) is False:
                        return const(op == "!=")
        return None

    def on_item(self, I, base, idx, st):
        if idx[0] == "slice":
            idx = ("slice",) + tuple(map(number, idx[1:]))
        if base == AMBIG:
            return AMBIG
        if base[0] == "words":
            if is_const(idx) and isinstance(idx[1], int):
                first, last, exact = base[1:]
                i = idx[1]
                lst = first if i >= 0 else last
                if -len(lst) <= i < len(lst):
                    return lst[i]
                return AMBIG
            return AMBIG
        parts = parts_of(base)
        if parts is None or is_const(base):
            return None
        if idx[0] == "slice" and all(is_const(x) for x in idx[1:3]) and (
                len(idx) < 4 or idx[3] == const(None)):
            r = substring(parts, idx[1][1], idx[2][1])
            return r
        return None
