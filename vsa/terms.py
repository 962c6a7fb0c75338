"""Symbolic terms (hashable tuples) and their smart constructors."""


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if v is None:
        return NONE
    return ("const", v, type(v).__name__)


NONE = ("const", None, "NoneType")
TRUE = ("const", True, "bool")
FALSE = ("const", False, "bool")
UNKNOWN = ("unknown",)


def is_const(t):
    return t[0] == "const"


def truth_const(t):
    if t[0] == "const":
        try:
            return bool(t[1])
        except Exception:
            return None
    if t[0] in ("tuple", "set", "cdict"):
        if any(isinstance(x, tuple) and x and x[0] == "star" for x in t[1]):
            return None
        return bool(t[1])
    return None


def mk_attr(base, name):
    return ("attr", base, name)


def mk_item(base, idx):
    return ("item", base, idx)


def mk_len(x):
    return ("call", ("ext", "len"), (x,), (), None)


def mk_not(x):
    if x[0] == "not":
        return x[1] if x[1][0] in ("cmp", "not", "forall") else ("not", x)
    t = truth_const(x)
    if t is not None:
        return const(not t)
    return ("not", x)


_FOLD = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "/": lambda a, b: a / b,
    "//": lambda a, b: a // b,
    "%": lambda a, b: a % b,
}


def _is_num(t):
    return t[0] == "const" and isinstance(t[1], (int, float)) and not isinstance(
        t[1], bool
    )


def is_strish(t):
    return t[0] in ("fstr", "join") or (t[0] == "const" and isinstance(t[1], str))


def mk_binop(op, a, b):
    if op == "+" and (is_strish(a) or is_strish(b)):
        return mk_fstr(_as_parts(a) + _as_parts(b))
    if op in _FOLD and _is_num(a) and _is_num(b):
        try:
            return const(_FOLD[op](a[1], b[1]))
        except Exception:
            pass
    if op == "%" and a[0] == "const" and isinstance(a[1], str):
        r = percent_format(a[1], b)
        return ("op", "%", a, b) if r is None else r
    return ("op", op, a, b)


def percent_format(text, b):
    """text % values"""
    import re

    vals = list(b[1]) if b[0] == "tuple" else [b]
    parts = []
    pos = 0
    for m in re.finditer(r"%([-+ 0#]*\d*(?:\.\d+)?)([a-zA-Z%])", text):
        if m.start() > pos:
            parts.append(const(text[pos:m.start()]))
        pos = m.end()
        flags, kind = m.groups()
        if kind == "%":
            parts.append(const("%"))
            continue
        if kind not in "sdifgex" or "#" in flags or "-" in flags or not vals:
            return None
        v = vals.pop(0)
        if v[0] == "star":
            return None
        spec = "" if kind == "s" and not flags else flags + (
            "d" if kind == "i" else kind)
        parts.append(("fmt", v, spec, -1))
    rest = text[pos:]
    if "%" in rest or vals or any(
            "%" in x[1] for x in parts if x[0] == "const" and x[1] != "%"):
        return None
    if rest:
        parts.append(const(rest))
    return mk_fstr(tuple(parts))


def _as_parts(t):
    if t[0] == "fstr":
        return t[1]
    if t[0] == "const" and isinstance(t[1], str):
        return (t,)
    return (("fmt", t, "", -1),)


def mk_fstr(parts):
    out = []
    for p in parts:
        if p[0] == "fmt" and p[2] in ("", "s") and p[3] in (-1, 115):
            v = p[1]
            if v[0] == "fstr":
                for q in v[1]:
                    _push(out, q)
                continue
            if v[0] == "const" and isinstance(v[1], (str, int)) and not isinstance(
                v[1], bool
            ):
                _push(out, const(str(v[1])))
                continue
            p = ("fmt", v, "", -1)
        elif p[0] == "fmt" and p[1][0] == "const" and isinstance(
            p[1][1], (str, int, float)
        ) and p[3] == -1 and "{" not in p[2]:
            try:
                _push(out, const(format(p[1][1], p[2])))
                continue
            except Exception:
                pass
        _push(out, p)
    if not out:
        return const("")
    if len(out) == 1 and out[0][0] == "const":
        return out[0]
    return ("fstr", tuple(out))


def _push(out, p):
    if p[0] == "const" and not p[1]:
        return
    if p[0] == "const" and out and out[-1][0] == "const":
        out[-1] = const(str(out[-1][1]) + str(p[1]))
    else:
        out.append(p)


def mk_cmp(op, a, b):
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_cmp("<=", b, a)
    if op == "!=":
        return mk_not(mk_cmp("==", a, b))
    if op == "is not":
        return mk_not(mk_cmp("is", a, b))
    if op == "not in":
        return mk_not(mk_cmp("in", a, b))
    if a[0] == "const" and b[0] == "const":
        try:
            x, y = a[1], b[1]
            r = {
                "==": lambda: x == y,
                "is": lambda: x is y or (x == y and type(x) is type(y)),
                "<": lambda: x < y,
                "<=": lambda: x <= y,
                "in": lambda: x in y,
            }[op]()
            return const(bool(r))
        except Exception:
            pass
    if op in ("==", "is"):
        if a[0] == "const" and b[0] != "const":
            a, b = b, a
        elif a[0] != "const" and b[0] != "const" and repr(b) < repr(a):
            a, b = b, a
        if b in (TRUE, FALSE) and op == "is":
            return ("cmp", "is", a, b)
        if b == NONE:
            return ("cmp", "is", a, b)
    return ("cmp", op, a, b)


def const_fold_method(base, name, args, kwargs):
    if kwargs or name not in (
        "upper", "lower", "strip", "split", "replace", "startswith", "endswith",
        "format", "capitalize", "title", "lstrip", "rstrip", "removeprefix",
        "removesuffix",
    ):
        return None
    if name == "format":
        import string

        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(base[1]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    return None
                parts.append(("fmt", v, spec or "", -1))
        except Exception:
            return None
        return mk_fstr(tuple(parts))
    if not all(a[0] == "const" for a in args):
        return None
    try:
        r = getattr(base[1], name)(*[a[1] for a in args])
    except Exception:
        return None
    if isinstance(r, list):
        return ("tuple", tuple(const(x) for x in r))
    return const(r)


def is_term(x):
    return isinstance(x, tuple) and bool(x) and isinstance(x[0], str)


def walk(t):
    """all sub-tuples of a term (pre-order)"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(reversed([y for y in x if isinstance(y, tuple)]))


def contains(t, sub):
    return any(x == sub for x in walk(t))


def contains_if(t, pred):
    return any(pred(x) for x in walk(t))


def map_term(t, f):
    """bottom-up rewriting"""
    if not isinstance(t, tuple):
        return t
    new = tuple(map_term(x, f) for x in t)
    if new and isinstance(new[0], str):
        return f(new)
    return new


_strip_cache = {}


def strip_uid(t):
    """forget call-occurrence identities"""
    r = _strip_cache.get(t)
    if r is None:
        def f(x):
            if x[0] == "uid":
                return ("uid",)
            if x[0] == "call" and len(x) == 5 and x[4] is not None:
                return x[:4] + (None,)
            return x

        r = map_term(t, f)
        if len(_strip_cache) < 200000:
            _strip_cache[t] = r
    return r


def subst(t, mapping):
    def f(x):
        return mapping.get(x, x)

    return map_term(t, f)


def show(t, depth=8):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    if depth == 0:
        return "…"
    d = depth - 1
    k = t[0]
    if not isinstance(k, str):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    try:
        if k == "const":
            return repr(t[1])
        if k == "sym":
            return t[1]
        if k == "obj":
            return t[1] if isinstance(t[1], str) else t[2].split(".")[-1] + "()"
        if k == "attr":
            return show(t[1], d) + "." + str(t[2])
        if k == "item":
            return f"{show(t[1], d)}[{show(t[2], d)}]"
        if k == "slice":
            return ":".join("" if x == NONE else show(x, d) for x in t[1:])
        if k == "ext":
            return t[1]
        if k == "mod":
            return t[1]
        if k == "func":
            return t[1][3]
        if k == "bound":
            return show(t[1], d) + "." + t[2][1][3]
        if k == "class":
            return t[1].split(".")[-1]
        if k == "glob":
            return t[2]
        if k == "call":
            args = [show(x, d) for x in t[2]]
            args += [f"{a}={show(b, d)}" for a, b in t[3]]
            return f"{show(t[1], d)}({', '.join(args)})"
        if k == "op":
            return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
        if k == "cmp":
            return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
        if k == "not":
            return f"not {show(t[1], d)}"
        if k == "neg":
            return f"-{show(t[1], d)}"
        if k in ("tuple", "lst", "set"):
            return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
        if k == "fstr":
            return "f'" + "".join(
                p[1] if p[0] == "const" else "{" + show(p[1], d)
                + (":" + p[2] if p[2] else "") + "}"
                for p in t[1]
            ) + "'"
        if k == "elem":
            return f"elem({show(t[1], d)})"
        if k == "exc":
            return f"exc:{t[1]}"
        if k == "forall":
            return f"all({show(t[1], d)} for … in {show(t[2], d)})"
    except Exception:
        pass
    return k + "(" + ", ".join(show(x, d) for x in t[1:]) + ")"


def base_name(f):
    """last name of what is called"""
    if f[0] == "attr":
        return f[2]
    if f[0] == "bound":
        return base_name(f[2])
    if f[0] == "func" and isinstance(f[1], tuple):
        return f[1][-1]
    if f[0] in ("ext", "func", "class", "name"):
        return str(f[1]).split(".")[-1].split(":")[-1]
    return str(f[0])
