"""D01: what is saved in the PIV files is what is read back

The writer and the reader of each class are interpreted abstractly. The HDF5 file
is a tree of symbolic names: the writer gives a table name in the file ->
attribute of the result, the reader a table attribute -> name in the file. The
tables of names of the classes are enumerated: the functions are interpreted once
per name.
"""

import ast
import re

from ..arrays import ArrayPolicy
from ..framework import fmt_trace
from ..interp import Interp, State, renumber
from ..project import AnalysisBroken
from ..terms import NONE, TRUE, base_name, const, is_const, show, walk
from . import register

TAG = "<tag>"
FLOATS = {"float32", "float64", "single", "double", "float"}
COPY = {
    "numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "list", "tuple",
    "numpy.asfortranarray",
}


class StorePolicy(ArrayPolicy):
    inline = ("fluidimage.data_objects",)

    def __init__(self, key=None):
        self.key = key
        self.names = set()

    def enum_loop(self, it):
        if it[0] == "tuple" and it[1] and all(
            is_const(x) and isinstance(x[1], str) for x in it[1]
        ):
            self.names |= {x[1] for x in it[1]}
            return [const(self.key)] if const(self.key) in it[1] else []
        return None


def part(t):
    """a name of the file"""
    if is_const(t):
        v = t[1]
        return v.decode() if isinstance(v, bytes) else (
            v if isinstance(v, str) else None)
    if t[0] == "fstr":
        res = ""
        for p in t[1]:
            if is_const(p):
                res += str(p[1])
            elif p[0] == "fmt":
                res += index(p[1])
            else:
                return None
        return res
    if t[0] == "op" and t[1] == "+":
        a, b = part(t[2]), part(t[3])
        return None if a is None or b is None else a + b
    if t[0] == "call" and t[1] == ("ext", "str") and t[2]:
        return index(t[2][0])
    if t[0] == "param":
        return TAG
    return None


def index(t):
    """text of an index: "#0" for the first element of a loop..."""
    if t[0] == "elem" and isinstance(t[-1], int) and t[1][0] == "call" and t[1][
        1
    ] == ("ext", "range"):
        args = t[1][2]
        if len(args) == 1:
            return f"#{t[-1]}"
        if len(args) == 2 and is_const(args[0]):
            return f"#{t[-1] + args[0][1]}"
        return "?" + show(t)
    if t[0] in ("idx", "elem") and isinstance(t[-1], int):
        return f"#{t[-1]}"
    if t[0] == "op" and t[1] in "+-" and is_const(t[3]) and isinstance(
        t[3][1], int
    ):
        b = index(t[2])
        if b.startswith("#") and b[1:].isdigit():
            return f"#{int(b[1:]) + (1 if t[1] == '+' else -1) * t[3][1]}"
        return "?" + show(t)
    if t[0] == "op" and t[1] == "+" and is_const(t[2]):
        return index(("op", "+", t[3], t[2]))
    if t[0] == "call" and t[1] == ("ext", "int") and t[2]:
        return index(t[2][0])
    if is_const(t):
        return str(t[1])
    return "?" + show(t)


def h5path(t, roots):
    """names from the root of the file, or None"""
    if t in roots:
        return roots[t]
    if t[0] == "attr":
        if t[2] == "parent":
            b = h5path(t[1], roots)
            return b[:-1] if b else None
        if t[2] == "attrs":
            b = h5path(t[1], roots)
            return None if b is None else b + ("@",)
        if t[2] == "file":
            return () if h5path(t[1], roots) is not None else None
    if t[0] == "item":
        b = h5path(t[1], roots)
        if b is None:
            return None
        n = part(t[2])
        if n is None:
            if is_const(t[2]) or t[2][0] in ("slice", "tuple") or b[-1:] and (
                b[-1].startswith("?") or "@" in b
            ):
                return None
            return b + ("?" + show(t[2]),)
        return b + names_of(n)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
        "create_group", "require_group", "get",
    ):
        b = h5path(t[1][1], roots)
        args = t[2] or tuple(v for k, v in t[3] if k == "name")
        if b is None or not args:
            return None
        n = part(args[0])
        return None if n is None else b + names_of(n)
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].endswith(
        ("h5py.File", "h5netcdf.File")
    ):
        return ()
    return None


def names_of(n):
    return tuple(x for x in n.split("/") if x)


def counter(i, of):
    """n when i is the number n of range(len(of))"""
    if i[0] == "elem" and isinstance(i[-1], int) and i[1] == (
        "call", ("ext", "range"), (("call", ("ext", "len"), (of,), (), None),), (),
        None,
    ):
        return i[-1]
    if i[0] == "idx" and i[1] == of and isinstance(i[-1], int):
        return i[-1]
    return None


def source(t, roots, me):
    """(what, operations): what is ("attr", name), ("file", path) or None"""
    ops = []
    while True:
        p = h5path(t, roots)
        if p:
            return ("file", p), ops
        if t[0] == "attr" and t[1] == me and t[2] != "__dict__":
            return ("attr", t[2]), ops
        if t[0] == "item":
            if t[1] == ("attr", me, "__dict__") and is_const(t[2]):
                return ("attr", t[2][1]), ops
            if is_const(t[2]) and t[2][1] is Ellipsis or t[2] == (
                "tuple", ()
            ) or t[2][0] == "slice" and all(x in (NONE, None) for x in t[2][1:]):
                t = t[1]
                continue
            n = counter(t[2], t[1])
            ops.append(f"elem#{n}" if n is not None
                       else "item " + show(t[2])[:40])
            t = t[1]
            continue
        if t[0] in ("elem", "key", "val") and isinstance(t[-1], int):
            kind = {"elem": "elem", "key": "keys", "val": "values"}[t[0]]
            ops.append(f"{kind}#{t[-1]}" if t[0] == "elem" else kind)
            if t[0] != "elem":
                ops.append(f"elem#{t[-1]}")
            t = t[1]
            continue
        if t[0] == "call":
            f = t[1]
            if f[0] == "attr" and f[2] in ("get", "pop") and f[1] == (
                "attr", me, "__dict__"
            ) and t[2] and is_const(t[2][0]):
                return ("attr", t[2][0][1]), ops
            if f[0] == "attr":
                if f[2] == "astype" and t[2]:
                    ops.append("astype " + base_name(t[2][0]) if t[2][0][
                        0] == "ext" else "astype " + str(t[2][0][1]))
                elif f[2] in ("copy", "tolist"):
                    pass
                elif f[2] in ("keys", "values", "items", "encode", "decode"):
                    ops.append(f[2])
                else:
                    ops.append(f"{f[2]}()")
                t = f[1]
                continue
            name = f[1] if f[0] == "ext" else base_name(f)
            if not isinstance(name, str):
                name = base_name(f)
            if t[2]:
                if name not in COPY:
                    ops.append(name.split(".")[-1])
                else:
                    dt = dict(t[3]).get("dtype")
                    if dt is not None:
                        ops.append("astype " + (
                            base_name(dt) if dt[0] == "ext" else str(dt[1])))
                t = t[2][0]
                continue
        if t[0] in ("op", "unop", "neg", "cmp"):
            sub = [x for x in walk(t) if source_leaf(x, roots, me)]
            if sub:
                return source_leaf(sub[0], roots, me), ops + ["arithmetic"]
        return None, ops


def source_leaf(t, roots, me):
    p = h5path(t, roots)
    if p:
        return ("file", p)
    if t[0] == "attr" and t[1] == me and t[2] != "__dict__":
        return ("attr", t[2])
    if t[0] == "item" and t[1] == ("attr", me, "__dict__") and is_const(t[2]):
        return ("attr", t[2][1])
    return None


def faithful(ops):
    """None or the operation which changes the content"""
    for o in ops:
        if o.startswith("astype "):
            if o.split()[1] not in FLOATS:
                return o
        elif o not in ("keys", "values", "encode", "decode") and not o.startswith(
            ("elem#", "keys#", "values#")
        ):
            return o
    return None


class Run:
    """a function of a class of results interpreted for one name"""

    def __init__(self, ctx, cls, func, key, keys=None):
        self.cls, self.func = cls, func
        self.policy = StorePolicy(key)
        interp = Interp(ctx.p, self.policy)
        names = [a.arg for a in func.node.args.args][1:]
        self.me = ("obj", "self", cls.qual)
        args = {n: ("param", n) for n in names}
        self.outs = interp.run(func, args=args, self_term=self.me, st=State())
        ctx.seen(interp)
        self.roots = {}
        self.args = names

    def root(self, reader):
        first = ("param", self.args[0]) if self.args else None
        roots = {}
        if first is not None:
            roots[first] = (TAG,) if reader else ()
            if reader:
                roots[("attr", first, "parent")] = ()
                roots[("attr", first, "file")] = ()
        if reader and first is not None and not has_parent(self.func, self.args[0]):
            roots = {first: ()}
        return roots


def has_parent(func, arg):
    return any(
        isinstance(n, ast.Attribute) and n.attr in ("parent", "file")
        and isinstance(n.value, ast.Name) and n.value.id == arg
        for n in ast.walk(func.node)
    )


def assumptions(o):
    return [(e.a[0], e.a[1] == TRUE, e) for e in o.st.trace if e.kind == "assume"]


def absent(o, key, me):
    """the path supposes that the result does not have this attribute"""
    for t, v, e in assumptions(o):
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "cmp" and t[1] in ("in", "notin", "not in") and t[
            2
        ] == const(key) and t[3] in (
            ("attr", me, "__dict__"),
            ("call", ("ext", "vars"), (me,), (), None),
        ):
            if v == (t[1] != "in"):
                return True
        if t[0] == "call" and t[1] == ("ext", "hasattr") and t[2][:2] == (
            me, const(key)
        ) and not v:
            return True
        if t[0] == "cmp" and t[1] in ("is", "is not", "==", "!=") and t[
            3
        ] == NONE and source_leaf(strip_get(t[2], me), {}, me) == ("attr", key):
            if v == (t[1] in ("is", "==")):
                return True
        if source_leaf(t, {}, me) == ("attr", key) and not v:
            return True
    for has, v in o.st.facts.items():
        if has[0] == "call" and has[1] == ("ext", "hasattr") and has[2][:2] == (
            me, const(key)
        ) and not v:
            return True
    # the exception for an attribute which does not exist
    ev = o.st.trace
    for i, e in enumerate(ev):
        if i and ev[i - 1].kind == "raise":
            continue
        if e.kind == "except" and any(
            x in show(e.a[0] if isinstance(e.a[0], tuple) else ("const", str(e.a)))
            for x in ("KeyError", "AttributeError")
        ):
            return "except"
    return False


def strip_get(t, me):
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[1][
        1
    ] == ("attr", me, "__dict__") and t[2]:
        return ("item", ("attr", me, "__dict__"), t[2][0])
    if t[0] == "call" and t[1] == ("ext", "getattr") and t[2][:1] == (me,) and (
        is_const(t[2][1])
    ):
        return ("attr", me, t[2][1][1])
    return t


def writes(run, o, roots):
    """[(path, source, ops, event)]"""
    res = []
    for i, e in enumerate(o.st.trace):
        if e.kind == "call" and e.a[0][0] == "attr":
            name = e.a[0][2]
            if name in ("create_dataset", "create_variable"):
                b = h5path(e.a[0][1], roots)
                kw = dict(e.a[2])
                args = list(e.a[1])
                nm = args[0] if args else kw.get("name")
                data = kw.get("data")
                if data is None and len(args) > 3 and name == "create_dataset":
                    data = args[3]
                if b is None or nm is None or data is None:
                    res.append((None, None, [], e))
                    continue
                n = part(nm)
                if n is None:
                    res.append((None, None, [], e))
                    continue
                src, ops = source(strip_get(data, run.me), roots, run.me)
                extra = filled(o.st.trace[:i], data, run, roots)
                if src is None and extra:
                    src, ops = extra
                res.append((b + names_of(n), src, ops, e))
            elif name == "_save_as_hdf5":
                kw = dict(e.a[2])
                g = kw.get("hdf5_parent")
                b = h5path(g, roots) if g is not None else None
                src, ops = source(e.a[0][1], roots, run.me)
                if b is not None:
                    res.append((b + ("params",), src, ops, e))
        elif e.kind == "setitem":
            b = h5path(e.a[0], roots)
            if b is not None:
                n = part(e.a[1])
                if n is not None:
                    src, ops = source(strip_get(e.a[2], run.me), roots, run.me)
                    res.append((b + names_of(n), src, ops, e))
    return res


def filled(trace, data, run, roots):
    """source of an array filled element by element"""
    for e in reversed(trace):
        if e.kind == "setitem" and e.a[0] == data:
            src, ops = source(e.a[2], roots, run.me)
            if src is not None:
                return src, ops
    return None


def reads(run, o, roots):
    """{attribute: [description]}: ("data", path, ops), ("dict", [...]),
    ("list", [...])"""
    res = {}
    me = run.me
    for i, e in enumerate(o.st.trace):
        if e.kind == "setattr" and e.a[0] == me:
            name, val = e.a[1], e.a[2]
        elif e.kind == "setitem" and e.a[0] == ("attr", me, "__dict__") and (
            is_const(e.a[1])
        ):
            name, val = e.a[1][1], e.a[2]
        elif e.kind == "call" and e.a[0] == ("ext", "setattr") and len(
            e.a[1]
        ) == 3 and e.a[1][0] == me and is_const(e.a[1][1]):
            name, val = e.a[1][1][1], e.a[1][2]
        else:
            continue
        res[name] = (describe(run, o, val, roots), e)
    return res


def describe(run, o, val, roots):
    if val[0] == "call" and val[1][0] == "ext" and val[1][1].endswith(
        "ParamContainer"
    ):
        g = dict(val[3]).get("hdf5_object")
        p = h5path(g, roots) if g is not None else None
        return ("data", p, []) if p else ("other", val)
    src, ops = source(val, roots, run.me)
    if src is not None and src[0] == "file":
        return ("data", src[1], ops)
    pairs = [
        (e.a[1], e.a[2], e) for e in o.st.trace
        if e.kind == "setitem" and e.a[0] == val
    ]
    if pairs:
        return ("dict", [
            (source(k, roots, run.me), source(v, roots, run.me), e)
            for k, v, e in pairs])
    items = [
        (e.a[1][0], e) for e in o.st.trace
        if e.kind == "call" and e.a[0] == ("attr", val, "append") and e.a[1]
    ]
    if not items and val[0] in ("list", "tuple") and isinstance(
        val[1], tuple
    ) and val[1] and isinstance(val[1][0], tuple):
        items = [(x, None) for x in val[1]]
    if val[0] == "comp" and len(val[3]) == 1 and not val[4]:
        items = [(renumber(val[2], val[3][0], 0), None)]
    if items:
        return ("list", [(source(x, roots, run.me), e) for x, e in items])
    return ("other", val)


def missing(o, path, roots, attr, keys=()):
    """the path of the reader supposes that this name is not in the file"""
    for t, v, e in assumptions(o):
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "cmp" and t[1] in ("in", "notin", "not in"):
            cont = t[3]
            if cont[0] == "call" and cont[1][0] == "attr" and cont[1][2] == "keys":
                cont = cont[1][1]
            b = h5path(cont, roots)
            n = part(t[2]) if b is not None else None
            if n is not None and v == (t[1] != "in") and (
                path[: len(b) + 1] == b + (n,)
                or attr not in keys and path[: len(b)] == b
            ):
                return True
    for i, e in enumerate(o.st.trace):
        if e.kind == "except" and "KeyError" in str(e.a):
            return True
        if e.kind in ("iter", "exhausted") and e.kind == "exhausted" and e.a[
            1
        ] == const(0) and any(
            h5path(x, roots) and h5path(x, roots)[: len(path) - 1] == path[:-1]
            for x in walk(e.a[0])
        ):
            return True
    return False


PAIRS = [
    ("HeavyPIVResults", "_save_in_hdf5_object", "_load_from_hdf5_object"),
    ("LightPIVResults", "_save_in_hdf5_object", "_load_from_hdf5_object"),
    ("ArrayCouple", "save", "_load"),
]


def table_names(ctx, cls, funcs):
    names = set()
    for f in funcs:
        r = Run(ctx, cls, f, None)
        names |= r.policy.names
    # names in the tables of constants of the class
    for k in cls.mro():
        for v in k.class_attrs.values():
            if isinstance(v, (ast.List, ast.Tuple, ast.Set)) and v.elts and all(
                isinstance(x, ast.Constant) and isinstance(x.value, str)
                for x in v.elts
            ):
                names |= {x.value for x in v.elts}
    return names


@register("D01")
def roundtrip(ctx):
    ctx.rule("D01.roundtrip", "each quantity is written under a name of the file "
             "and read back from this name in the same attribute", 40)
    for cname, wname, rname in PAIRS:
        cls = ctx.p.find_class(cname)
        w, r = cls.find_method(wname), cls.find_method(rname)
        if w is None or r is None:
            raise AnalysisBroken(f"{cname}.{wname} or {rname} not found")
        names = table_names(ctx, cls, (w, r))
        tables = {}
        for key in sorted(names) + [None]:
            table(ctx, cls, w, r, key, tables)
        compare(ctx, cls, w, r, tables)


def clean_ops(ops):
    return [o for o in ops if o not in ("encode", "decode", "repr", "safe_eval",
                                        "literal_eval")]


def table(ctx, cls, w, r, key, tables):
    W = tables.setdefault("W", {})
    R = tables.setdefault("R", {})
    A = tables.setdefault("A", {})
    run = Run(ctx, cls, w, key)
    rooted = hdf5_arg(run, False)
    for o in run.outs:
        if o.kind != "return":
            continue
        seen = {}
        for path, src, ops, e in writes(run, o, rooted):
            if path is None:
                ctx.maybe("D01.roundtrip", w.short, f"write line {e.line}")
                continue
            if path[-1] in ("class_name", "module_name", "Conventions", "codes"):
                continue  # for the codes: D02
            dtype_only = src is None
            if dtype_only:
                ctx.maybe("D01.roundtrip", w.short, "/".join(path))
                W.setdefault(path, (None, [], e))
                continue
            c = clean_ops(ops)
            ctx.check(
                faithful(c) is None, "D01.roundtrip", w.short,
                f"content of {'/'.join(path)}",
                f"{'/'.join(path)} is not {src[1]} but the result of an operation "
                f"on it ({faithful(c)})", fmt_trace(o.st.trace), e.line)
            old = W.setdefault(path, (src[1], c, e))
            ctx.check(
                old[0] == src[1] or old[0] is None, "D01.roundtrip", w.short,
                f"name {'/'.join(path)}",
                f"{'/'.join(path)} is used for {old[0]} and for {src[1]}",
                fmt_trace(o.st.trace), e.line)
            seen[src[1]] = path
        # what is present is written
        if key is not None and not absent(o, key, run.me):
            A.setdefault(key, []).append((key in seen, o))
    run = Run(ctx, cls, r, key)
    roots = hdf5_arg(run, True)
    for o in run.outs:
        if o.kind != "return":
            continue
        got = reads(run, o, roots)
        for attr, (d, e) in got.items():
            if d[0] == "other":
                continue
            R.setdefault(attr, []).append((d, e, o))
        tables.setdefault("Routs", []).append((key, got, o, roots))


def hdf5_arg(run, reader):
    """roots: the argument which is the file or the group"""
    for n in run.args:
        if n in ("file", "hdf5_parent", "hdf5_object", "g_piv") or n.startswith(
            ("g_", "h5", "hdf5")
        ):
            first = ("param", n)
            if reader and has_parent(run.func, n):
                return {first: (TAG,), ("attr", first, "parent"): (),
                        ("attr", first, "file"): ()}
            if reader and run.cls.name.startswith("ArrayCouple"):
                return {first: ("couple",)}
            return {first: ()}
    if run.args:
        first = ("param", run.args[0])
        if reader:
            return {first: (TAG,), ("attr", first, "parent"): ()}
        return {first: ()}
    return {}


def compare(ctx, cls, w, r, tables):
    W, R, A = tables["W"], tables["R"], tables["A"]
    rule = "D01.roundtrip"
    for key, rows in sorted(A.items()):
        bad = [o for ok, o in rows if not ok]
        if any(ok for ok, _ in rows):
            ctx.check(not bad, rule, w.short, f"writing of {key}",
                      f"{key} is not written although it is present",
                      fmt_trace(bad[0].st.trace) if bad else None)
        else:
            # a name of a table which is never written
            if any(attr == key for attr, *_ in W.values()):
                continue
            ctx.check(not R.get(key), rule, w.short, f"writing of {key}",
                      f"{key} is read but never written")
    by_attr = {}
    for path, (attr, ops, e) in W.items():
        if attr is not None:
            by_attr.setdefault(attr, {})[path] = (ops, e)
    for attr, rows in sorted(R.items()):
        wr = by_attr.get(attr, {})
        if attr == "params":
            for d, e, o in rows:
                ctx.check(d[0] != "data" or d[1] in wr or not wr, rule, r.short,
                          "params", "the parameters are read from "
                          f"{'/'.join(d[1]) if d[0] == 'data' else d[0]}",
                          line=e.line)
            continue
        for d, e, o in rows:
            read_ok(ctx, cls, r, attr, d, e, o, wr, W)
    for attr, wr in sorted(by_attr.items()):
        if attr in ("couple", "params"):
            continue
        ctx.check(
            attr in R, rule, r.short, f"reading of {attr}",
            f"{attr} is written ({', '.join('/'.join(p) for p in wr)}) but not "
            "read back")
    # present in the file -> read
    keys = {k for k, *_ in tables["Routs"] if k is not None}
    for key, got, o, roots in tables["Routs"]:
        for attr, wr in by_attr.items():
            if attr in ("couple", "params") or attr not in R or (
                attr != key and (attr in keys or key is not None)
            ):
                continue
            ctx.check(
                attr in got or missing(o, list(wr)[0], roots, attr, keys),
                rule,
                r.short, f"reading of {attr} (paths)",
                f"{attr} is in the file but is not read back",
                fmt_trace(o.st.trace))


def read_ok(ctx, cls, r, attr, d, e, o, wr, W):
    rule = "D01.roundtrip"

    def check_path(p, what, elem=None):
        good = p in wr
        who = W.get(p)
        msg = (
            f"{attr} is read from {'/'.join(p)}, " + (
                f"where {who[0]} is written" if who is not None and who[0]
                else "which is never written")
        )
        return ctx.check(good, rule, r.short, f"{attr} ({what})", msg,
                         fmt_trace(o.st.trace), e.line)

    if d[0] == "data":
        c = clean_ops(d[2])
        if W.get(d[1], (attr,))[0] is None:
            ctx.maybe(rule, r.short, attr)
            return
        if check_path(d[1], "data"):
            ctx.check(
                faithful(c) is None, rule, r.short, f"content of {attr}",
                f"what is read in {'/'.join(d[1])} is modified ({faithful(c)})",
                fmt_trace(o.st.trace), e.line)
            wo = [x for x in wr[d[1]][0] if not x.startswith("astype")]
            ctx.check(
                not [x for x in wo if x in ("keys", "values")
                     or x.startswith("elem")], rule, r.short,
                f"structure of {attr}",
                f"{attr} is written as a dictionary or list and read as one array")
    elif d[0] == "dict":
        for (ks, ko), (vs, vo), ev in d[1]:
            if ks is None or vs is None or ks[0] != "file" or vs[0] != "file":
                ctx.maybe(rule, r.short, f"dict {attr}")
                continue
            for src, ops, what in ((ks, ko, "keys"), (vs, vo, "values")):
                if not check_path(src[1], what):
                    continue
                wops = wr[src[1]][0]
                ctx.check(
                    what in wops, rule, r.short, f"{attr} {what}",
                    f"the {what} of {attr} are read from {'/'.join(src[1])} where "
                    f"the {' '.join(wops)} are written", fmt_trace(o.st.trace),
                    ev.line)
            n1 = [x for x in ko if x.startswith("elem#")]
            n2 = [x for x in vo if x.startswith("elem#")]
            ctx.check(n1 == n2, rule, r.short, f"{attr} pairing",
                      f"the keys and values of {attr} are not paired",
                      fmt_trace(o.st.trace), ev.line)
    elif d[0] == "list":
        for n, ((src, ops), ev) in enumerate(d[1]):
            if src is None or src[0] != "file":
                ctx.maybe(rule, r.short, f"list {attr}")
                continue
            p = src[1]
            line = ev.line if ev is not None else e.line
            if p in wr:
                want = f"elem#{n}"
                ctx.check(
                    want in wr[p][0], rule, r.short, f"{attr} order",
                    f"the element {n} of {attr} is read from {'/'.join(p)} where "
                    f"{' '.join(wr[p][0])} is written", fmt_trace(o.st.trace), line)
                continue
            sib = [q for q in wr if q[:-1] == p[:-1]]
            if sib and p[-1].startswith("?") and by_names(o, p, roots=None):
                ctx.bad(rule, r.short, f"{attr} order",
                        f"the elements of {attr} are read in the alphabetical order "
                        "of their names (10 before 2)", fmt_trace(o.st.trace), line)
            elif sib and p[-1].startswith("?"):
                ctx.maybe(rule, r.short, f"list {attr}: {p[-1]}")
            elif n > max((int(q[-1].rsplit("#", 1)[-1]) for q in sib
                          if q[-1].rsplit("#", 1)[-1].isdigit()), default=0):
                continue
            else:
                check_path(p, "elements")


def by_names(o, p, roots):
    """the path comes from an iteration on the names of a group"""
    for e in o.st.trace:
        if e.kind == "iter":
            it = e.a[0]
            while it[0] == "call" and it[1][0] == "ext" and it[1][1] in (
                "sorted", "list", "enumerate", "tuple", "iter",
            ) and it[2] and not it[3]:
                it = it[2][0]
            if it[0] == "call" and it[1][0] == "attr" and it[1][2] in (
                "keys", "values", "items",
            ):
                it = it[1][1]
            if it[0] in ("item", "call", "param") and p[-1][1:] == show(
                ("elem", it, 0)
            ):
                return True
    return False


def is_keys(t):
    """names of a group of a file, in alphabetical order"""
    if t[0] == "comp" and t[3] and h5path(t[3][0], {}) is not None:
        return True
    if t[0] == "call" and t[1] == ("ext", "sorted") and t[2] and h5path(
        t[2][0], {}
    ) is not None:
        return True
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] == "keys" and h5path(
        t[1][1], {}) is not None


def alphabetical(t):
    """selection of a name by alphabetical order"""
    for x in walk(t):
        if x[0] == "call" and x[1][0] == "ext" and x[1][1] in (
            "max", "min", "sorted",
        ) and x[2] and any(is_keys(y) for y in walk(x[2][0])) and not any(
            k == "key" for k, _ in x[3]
        ):
            return x
        if x[0] == "item" and is_const(x[2]) and isinstance(x[2][1], int) and (
            x[1][0] == "call" and x[1][1] == ("ext", "list")
            or x[1][0] == "comp"
        ) and any(is_keys(y) for y in walk(x[1])):
            return x
    return None


@register("D01")
def passes(ctx):
    ctx.rule("D01.passes", "the passes are read in the order in which they are "
             "written", 3)
    cls = ctx.p.find_class("MultipassPIVResults")
    w, r = cls.find_method("save"), cls.find_method("_load")
    if w is None or r is None:
        raise AnalysisBroken("MultipassPIVResults.save or _load not found")
    run = Run(ctx, cls, w, None)
    W, counts = {}, set()
    for o in run.outs:
        if o.kind != "return":
            continue
        tr = o.st.trace
        native = False
        for e in tr:
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][
                2
            ] == "_save_in_hdf5_object":
                native = True
                who = e.a[0][1]
                kw = dict(e.a[2])
                tag = kw.get("tag") or (e.a[1][1] if len(e.a[1]) > 1 else None)
                if tag is None:
                    ctx.bad("D01.passes", w.short, "name of a pass",
                            "all the passes are written under the same name",
                            fmt_trace(tr), e.line)
                    continue
                src, ops = source(who, {}, run.me)
                n = [x for x in ops if x.startswith("elem#")]
                if src != ("attr", "passes") or len(n) != 1:
                    ctx.maybe("D01.passes", w.short, show(who)[:60])
                    continue
                name = part(tag)
                k = int(n[0][5:])
                old = W.setdefault(k, name)
                ctx.check(old == name, "D01.passes", w.short, f"pass {k}",
                          f"the pass {k} is written under {old} and {name}",
                          fmt_trace(tr), e.line)
            elif e.kind == "setitem" and h5path(e.a[0], {}) == ("@",) and is_const(
                e.a[1]
            ) and e.a[2][0] == "call" and e.a[2][1] == ("ext", "len"):
                native = True
                src, ops = source(e.a[2][2][0], {}, run.me)
                if src == ("attr", "passes") and not ops:
                    counts.add(e.a[1][1])
        if native:
            its = [e for e in tr if e.kind == "exhausted" and any(
                x == ("attr", run.me, "passes") for x in walk(e.a[0]))]
            ctx.check(
                bool(its), "D01.passes", w.short, "all passes",
                "the writing stops before the last pass", fmt_trace(tr))
    dup = [n for n in set(W.values()) if list(W.values()).count(n) > 1]
    ctx.check(not dup, "D01.passes", w.short, "names of the passes",
              f"several passes are written under the name {dup}")
    if not W or not counts:
        ctx.maybe("D01.passes", w.short, "writing of the passes")
        return
    run = Run(ctx, cls, r, None)
    for o in run.outs:
        if o.kind != "return":
            continue
        tr = o.st.trace
        objs = {}
        k = 0
        for e in tr:
            if e.kind == "new" and e.a[0][1].endswith("HeavyPIVResults"):
                objs[e.a[-1]] = dict(e.a[2]).get("hdf5_object")
            elif e.kind == "call" and e.a[0] == (
                "attr", ("attr", run.me, "passes"), "append",
            ) and e.a[1]:
                g = objs.get(e.a[1][0])
                p = h5path(g, {}) if g is not None else None
                if p is None or p[-1].startswith("?"):
                    x = alphabetical(g) if g is not None else None
                    if x is not None:
                        ctx.bad("D01.passes", r.short, "order",
                                "the passes are read in alphabetical order "
                                f"({show(x)[:60]})", fmt_trace(tr), e.line)
                    else:
                        ctx.maybe("D01.passes", r.short, f"pass {k}")
                elif k in W:
                    ctx.check(
                        p[-1] == W[k], "D01.passes", r.short, f"pass {k}",
                        f"the pass {k} is read from {p[-1]} where it is written in "
                        f"{W[k]}", fmt_trace(tr), e.line)
                k += 1
            elif e.kind == "iter" and e.a[1] == const(0):
                if any(is_keys(x) for x in walk(e.a[0])):
                    srt = [x for x in walk(e.a[0]) if x[0] == "call" and any(
                        kk == "key" for kk, _ in x[3])]
                    ctx.check(bool(srt), "D01.passes", r.short, "order",
                              "the passes are read in alphabetical order",
                              fmt_trace(tr), e.line)
                for x in walk(e.a[0]):
                    if x[0] == "call" and x[1] == ("ext", "range") and len(
                        x[2]
                    ) == 1 and x[2][0][0] == "op":
                        ctx.bad("D01.passes", r.short, "number of passes",
                                f"the passes which are read are {show(x)[:60]}",
                                fmt_trace(tr), e.line)
                    p = h5path(x, {})
                    if p and len(p) == 2 and p[0] == "@":
                        ctx.check(
                            p[1] in counts, "D01.passes", r.short,
                            "number of passes",
                            f"the number of passes is read in {p[1]}, it is "
                            f"written in {sorted(counts)}", fmt_trace(tr), e.line)


STEMS = ("deltaxs", "deltays", "ixvecs", "iyvecs", "xs", "ys", "correls_max")


def stem(name):
    for s in STEMS:
        if name == s or name.startswith(s + "_"):
            return s
    return None


@register("D01")
def readers(ctx):
    ctx.rule("D01.readers", "the functions which read PIV files read quantities "
             "which are written, of the last pass when it is what they want", 6)
    written = {}
    for cname in ("HeavyPIVResults", "LightPIVResults"):
        cls = ctx.p.find_class(cname)
        w = cls.find_method("_save_in_hdf5_object")
        tables = {}
        names = table_names(ctx, cls, (w,))
        W = set()
        for key in sorted(names) + [None]:
            run = Run(ctx, cls, w, key)
            for o in run.outs:
                for path, src, ops, e in writes(run, o, hdf5_arg(run, False)):
                    if path is not None:
                        W.add(path)
        written[cname] = W
    allw = {p[1] for W in written.values() for p in W if p[0] == TAG}
    light = {p[1] for p in written["LightPIVResults"] if p[0] == TAG}
    other = {p[0] for W in written.values() for p in W if p[0] != TAG}
    n = 0
    for f in ctx.p.all_funcs():
        if f.module.name.rsplit(".", 1)[-1].startswith(("test_", "conftest")):
            continue
        if not opens_piv(f):
            continue
        interp = Interp(ctx.p, StorePolicy("deltaxs_final"))
        args = [a.arg for a in f.node.args.args]
        me = ("obj", "self", f.cls.qual) if f.cls else None
        if f.cls and not f.is_static:
            args = args[1:]
        outs = interp.run(f, args={a: ("param", a) for a in args}, self_term=me,
                          st=State())
        ctx.seen(interp)
        for o in outs:
            for e in o.st.trace:
                for t in e.a:
                    if isinstance(t, tuple):
                        n += reading(ctx, f, t, e, o, allw, light)
            if o.val is not None:
                n += reading(ctx, f, o.val, None, o, allw, light)
            for name, v in [
                nv for env in o.st.env.values() for nv in env.items()
            ]:
                if stem(name) is None or not isinstance(v, tuple):
                    continue
                src, ops = source(v, {}, ("none",))
                if src is None or src[0] != "file":
                    continue
                s = stem(src[1][-1])
                if s is not None:
                    ctx.check(
                        s == stem(name), "D01.readers", f.short,
                        f"{src[1][-1]} in {name}",
                        f"{src[1][-1]} of the file is used as {name}",
                        fmt_trace(o.st.trace))
    if not n:
        ctx.maybe("D01.readers", "src/fluidimage", "no reader found")


def opens_piv(f):
    opens = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("h5py.File"):
            mode = [a for a in n.args[1:]] + [k.value for k in n.keywords]
            if any(isinstance(m, ast.Constant) and m.value == "r" for m in mode):
                opens = True
    return opens and any(
        isinstance(n, ast.Constant) and isinstance(n.value, str)
        and "piv" in n.value for n in ast.walk(f.node))


def reading(ctx, f, t, e, o, allw, light):
    n = 0
    for x in walk(t):
        if x[0] != "item":
            continue
        a = alphabetical(x[2]) if x[2][0] not in ("const",) else None
        if a is not None and h5path(x[1], {}) is not None:
            n += 1
            ctx.bad("D01.readers", f.short, "last pass",
                    "the pass is chosen by the alphabetical order of the names "
                    f"({show(a)[:70]}): piv9 after piv10",
                    fmt_trace(o.st.trace), e.line if e else None)
        p = h5path(x, {})
        if p is None or len(p) != 2 or "@" in p:
            continue
        if p[0].startswith("piv") or p[0].startswith("?"):
            n += 1
            ctx.check(
                p[1] in allw, "D01.readers", f.short, f"reading of {p[1]}",
                f"{p[1]} is read in a PIV file where it is never written",
                fmt_trace(o.st.trace), e.line if e else None)
    return n


UVMAT = {
    "X": "xs", "Y": "ys", "U": "deltaxs", "V": "deltays", "C": "correls_max",
    "U_smooth": "deltaxs_smooth", "V_smooth": "deltays_smooth",
    "U_tps": "deltaxs_tps", "V_tps": "deltays_tps",
}
SAME = {"nan_to_num", "array", "asarray", "ascontiguousarray", "ravel"}


def pass_attr(t):
    """(number of the pass, attribute, selections, operations)"""
    sel, ops = [], []
    while True:
        if t[0] == "attr" and t[1][0] in ("elem", "item") and any(
            x[0] == "attr" and x[2] == "passes" for x in walk(t[1])
        ):
            n = t[1][-1] if t[1][0] == "elem" else None
            return n if isinstance(n, int) else None, t[2], sel, ops
        if t[0] == "item":
            sel.append(t[2])
            t = t[1]
            continue
        if t[0] == "elem":
            sel.append(("idx", t[1], t[-1]))
            t = t[1]
            continue
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
            "astype", "copy", "ravel", "flatten",
        ):
            t = t[1][1]
            continue
        if t[0] == "call" and t[1][0] == "ext" and t[2] and t[1][1].split(".")[
            -1
        ] in SAME:
            t = t[2][0]
            continue
        return None, None, sel, ops


def is_where(t):
    return t[0] == "call" and t[1][0] == "ext" and t[1][1].split(".")[-1] in (
        "where", "nonzero", "flatnonzero",
    ) or t[0] in ("inv", "not", "cmp") or t[0] == "call" and t[1][
        0
    ] == "ext" and t[1][1].split(".")[-1] in ("isnan", "isfinite", "logical_not")


@register("D01")
def uvmat(ctx):
    rule = "D01.uvmat"
    ctx.rule(rule, "the variables of an uvmat file are the quantities of the pass "
             "with the same number", 9)
    cls = ctx.p.find_class("MultipassPIVResults")
    w = cls.find_method("_save_as_uvmat")
    if w is None:
        raise AnalysisBroken("MultipassPIVResults._save_as_uvmat not found")
    run = Run(ctx, cls, w, None)
    file = ("param", run.args[0])
    for o in run.outs:
        if o.kind != "return":
            continue
        tr = o.st.trace
        got = set()
        for i, e in enumerate(tr):
            if e.kind == "setitem":
                n, attr, sel, _ = pass_attr(e.a[2])
                if attr is not None and is_where(e.a[1]):
                    ctx.check(
                        e.a[1] in sel, rule, w.short, f"values of {attr}",
                        f"some elements of an array are replaced by the whole "
                        f"{attr}: the numbers of elements are different when "
                        "there are vectors without value", fmt_trace(tr), e.line)
                continue
            if e.kind != "call" or e.a[0] != ("attr", file, "create_variable"):
                continue
            kw = dict(e.a[2])
            nm = e.a[1][0] if e.a[1] else kw.get("name")
            name = part(nm) if nm is not None else None
            m = re.fullmatch(r"Civ#(\d+)_(\w+)", name or "")
            if not m:
                ctx.check(
                    name is None or "#" in name or "?" in name, rule, w.short,
                    "name of a variable",
                    f"the name {name} does not depend on the pass",
                    fmt_trace(tr), e.line)
                ctx.maybe(rule, w.short, f"variable {show(nm)[:60]}")
                continue
            num, var = int(m.group(1)), m.group(2)
            got.add((num, var))
            if var not in UVMAT:
                continue
            data = kw.get("data")
            if data is None:
                ctx.maybe(rule, w.short, f"data of {var}")
                continue
            n, attr, sel, ops = pass_attr(data)
            direct = attr is not None
            if not direct:
                for f in reversed(tr[:i]):
                    if f.kind == "setitem" and f.a[0] == data:
                        n, attr, sel, ops = pass_attr(f.a[2])
                        break
            if attr is None:
                if not any(f.kind == "exhausted" and f.a[1] == const(0)
                           for f in tr[:i]):
                    ctx.maybe(rule, w.short, f"data of {var}")
                continue
            ctx.check(
                attr == UVMAT[var], rule, w.short, f"variable {var}",
                f"the variable {var} is {attr} and not {UVMAT[var]}",
                fmt_trace(tr), e.line)
            if n is not None:
                ctx.check(
                    num == n + 1, rule, w.short, f"pass of {var}",
                    f"the variable Civ{num}_{var} is taken from the pass {n + 1}",
                    fmt_trace(tr), e.line)
            if var.endswith("_tps"):
                ctx.check(
                    not direct or bool(sel), rule, w.short, f"shape of {var}",
                    f"the variable {var} is a list of arrays which can have "
                    "different sizes (one per subdomain)", fmt_trace(tr), e.line)
            elif direct:
                ctx.check(
                    not sel, rule, w.short, f"size of {var}",
                    f"only a part of {attr} is saved", fmt_trace(tr), e.line)
        passes = {n for n, v in got} | {
            e.a[1][1] + 1 for e in tr if e.kind == "iter" and is_const(e.a[1])
            and any(x == ("attr", run.me, "passes") for x in walk(e.a[0]))}
        tps = [e.a[1] == TRUE for e in tr if e.kind == "assume"
               and e.a[0][0] == "attr" and e.a[0][2] == "use_tps"]
        failed = any(e.kind == "except" for e in tr)
        for n in passes:
            for v in UVMAT:
                if "_" in v and (failed or not tps or not all(tps)):
                    continue
                ctx.check(
                    (n, v) in got, rule, w.short, f"writing of {v}",
                    f"the variable {v} is not written", fmt_trace(tr))


LIGHT = ("deltaxs", "deltays", "ixvecs", "iyvecs")


@register("D01")
def light(ctx):
    rule = "D01.light"
    ctx.rule(rule, "a light result contains the quantities of the selected pass", 4)
    cls = ctx.p.find_class("MultipassPIVResults")
    f = cls.find_method("make_light_result")
    lcls = ctx.p.find_class("LightPIVResults")
    init = lcls.find_method("__init__")
    if f is None or init is None:
        raise AnalysisBroken("make_light_result not found")
    # attribute of the light result <- argument
    interp = Interp(ctx.p, StorePolicy(None))
    names = [a.arg for a in init.node.args.args][1:]
    me = ("obj", "self", lcls.qual)
    given = {}
    for o in interp.run(init, args={n: ("param", n) for n in names}, self_term=me,
                        st=State()):
        if o.kind != "return":
            continue
        for e in o.st.trace:
            if e.kind == "setattr" and e.a[0] == me and e.a[2][0] == "param":
                given.setdefault(e.a[2][1], set()).add(e.a[1])
                ctx.check(
                    stem(e.a[1]) is None or stem(e.a[1]) == stem(e.a[2][1]),
                    rule, init.short, f"attribute {e.a[1]}",
                    f"{e.a[1]} is the argument {e.a[2][1]}", fmt_trace(o.st.trace),
                    e.line)
    ctx.seen(interp)
    for n in names:
        if stem(n) in LIGHT:
            ctx.check(given.get(n), rule, init.short, f"argument {n}",
                      f"the argument {n} is not kept")
    run = Run(ctx, cls, f, None)
    for o in run.outs:
        if o.kind != "return":
            continue
        tr = o.st.trace
        new = [e for e in tr if e.kind == "new" and e.a[0] == lcls.qual
               or e.kind == "new" and str(e.a[0][-1]).endswith("LightPIVResults")]
        ctx.check(
            len(new) == 1 and o.val == new[0].a[-1] or not new, rule, f.short,
            "light result", "the light result is not returned", fmt_trace(tr))
        if not new:
            ctx.maybe(rule, f.short, "construction of the light result")
            continue
        e = new[0]
        vals = dict(zip(names, e.a[1]))
        vals.update(dict(e.a[2]))
        bases = set()
        for n in names:
            if stem(n) not in LIGHT:
                continue
            v = vals.get(n)
            if v is None or v[0] != "attr":
                ctx.check(v is not None and v != NONE, rule, f.short, n,
                          f"{n} is not given to the light result",
                          fmt_trace(tr), e.line)
                continue
            bases.add(v[1])
            ctx.check(
                stem(v[2]) == stem(n), rule, f.short, n,
                f"{n} of the light result is {v[2]} of the pass",
                fmt_trace(tr), e.line)
        suffix = {vals[n][2].split("_")[-1] for n in names
                  if stem(n) in LIGHT and vals.get(n, ("",))[0] == "attr"}
        ctx.check(
            len(suffix) <= 1, rule, f.short, "kind of quantities",
            f"quantities of different kinds are mixed ({sorted(suffix)})",
            fmt_trace(tr), e.line)
        if vals.get("couple", ("",))[0] == "attr":
            bases.add(vals["couple"][1])
        ctx.check(
            len(bases) <= 1, rule, f.short, "pass",
            "the quantities come from different passes", fmt_trace(tr), e.line)
        for b in bases:
            if b[0] == "item" and b[1] == ("attr", run.me, "passes"):
                ctx.check(
                    b[2] == ("param", run.args[0]), rule, f.short, "index of pass",
                    "the quantities do not come from the asked pass",
                    fmt_trace(tr), e.line)
