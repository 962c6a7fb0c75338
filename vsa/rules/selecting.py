"""T02: the items skipped in mode 'complete' are those already saved"""

import ast

from ..arrays import ArrayPolicy
from ..framework import fmt_trace
from ..interp import Interp, State
from ..project import AnalysisBroken
from ..terms import NONE, TRUE, base_name, const, is_const, map_term, show, walk
from . import register

SERIE = ("sym", "SERIE")
NAME = ("sym", "NAME")
FMT = ("sym", "FORMAT")
TESTS = ("exists", "is_file", "isfile")
DIR = "path_dir_result"


class SelPolicy(ArrayPolicy):
    inline = ("fluidimage.data_objects", "fluidimage.topologies")
    exclude = ("get_name_piv", "get_name_bos", "compute_indices_to_be_computed",
               "_save_in_hdf5_object", "_save_as_uvmat", "clear_data",
               "get_str_for_name_from_idim_idx", "make_text_at_exit")


def topologies(ctx):
    """concrete topologies which know the directory of their results"""
    res = []
    classes = list(ctx.p.subclasses("TopologyBase", strict=True))
    for c in classes:
        if c.module.name.startswith("fluidimage.topologies"):
            if any(c in k.mro() and k is not c for k in classes):
                if not any(_adds_works(m) for m in c.methods.values()):
                    continue
            res.append(c)
    return res


def _adds_works(f):
    return any(
        isinstance(n, ast.Attribute) and n.attr == "add_work"
        for n in ast.walk(f.node)
    )


def run(ctx, c, f, args=None):
    interp = Interp(ctx.p, SelPolicy())
    names = [a.arg for a in f.node.args.args]
    if names and names[0] == "self":
        names = names[1:]
    args = args or {}
    outs = interp.run(
        f, args={n: args.get(n, ("param", n)) for n in names},
        self_term=("obj", "self", c.qual), st=State(),
    )
    ctx.seen(interp)
    return outs


def is_dir(t):
    """directory of a topology (see also `right_dir`)"""
    while t[0] == "call" and base_name(t[1]) in ("str", "Path") and t[2]:
        t = t[2][0]
    return t[0] == "attr" and t[2].startswith("path_dir")


def right_dir(t):
    """no other directory than the one of the results is used"""
    return not any(
        x[0] == "attr" and x[2].startswith("path_dir") and x[2] != DIR
        for x in walk(t)
    )


def split_dir(t):
    """name of the file if the path is in the directory of the results"""
    while t[0] == "call" and base_name(t[1]) in ("str", "Path", "abspath") and t[
        2
    ] and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "fstr" and len(t[1]) == 1:
        return split_dir(t[1][0])
    if t[0] == "op" and t[1] == "/" and is_dir(t[2]):
        return t[3]
    if t[0] == "call" and base_name(t[1]) in ("join", "joinpath"):
        if len(t[2]) == 2 and is_dir(t[2][0]):
            return t[2][1]
        if len(t[2]) == 1 and t[1][0] == "attr" and is_dir(t[1][1]):
            return t[2][0]
        if len(t[2]) == 2 and t[2][0] == NONE:
            return None
    return None


FUNCS = {}


def bound_args(x):
    """call of a function of the project: arguments in the order of its
    definition"""
    if x[1][0] != "func" or x[1][1] not in FUNCS:
        return x[:4] + (None,) if len(x) > 4 else x
    a = FUNCS[x[1][1]].node.args
    names = [y.arg for y in a.posonlyargs + a.args]
    vals = dict(zip(names, x[2]))
    vals.update(dict(x[3]))
    for y, d in zip(reversed(names), reversed(a.defaults)):
        if y not in vals and isinstance(d, ast.Constant):
            vals[y] = const(d.value)
    if set(vals) - set(names):
        return x[:4] + (None,)
    return ("call", x[1], tuple(vals[n] for n in names if n in vals), (), None)


def norm(t):
    """roles of the terms: serie of the item, name of the image, format"""

    def one(x):
        if x[0] == "call" and len(x) > 3 and isinstance(x[1], tuple) and x[1]:
            x = bound_args(x)
            n = base_name(x[1])
            if n == "copy" and len(x[2]) == 1:
                return x[2][0]
            if n == "compute_name_from_indices":
                return NAME
            if n == "get_serie_from_index":
                return SERIE
            if n == "get_str_from_fstr":
                return x
            if n == "Path" and len(x[2]) == 1:
                return ("path", x[2][0])
        if x[0] == "val" and x[1][0] == "attr" and x[1][2] == "series":
            return SERIE
        if x[0] in ("key", "val", "elem") and x[1][0] == "attr" and (
            x[1][2] == "data"
        ):
            return NAME if x[0] != "val" else x
        if x[0] == "elem" and x[1][0] == "call" and base_name(x[1][1]) in (
            "get_name_arrays", "iter_name_arrays",
        ):
            return NAME
        if x[0] == "item" and x[1][0] == "call" and base_name(x[1][1]) in (
            "get_name_arrays",
        ):
            return NAME
        if x[0] == "item" and x[1][0] == "param" and x[2] == const(0):
            return NAME
        if x[0] == "attr":
            if x[2] == "serie":
                return SERIE
            if x[2] == "format" and x[1][0] == "attr" and x[1][2] == "saving":
                return FMT
            if x[2] == "name" and x[1][0] == "attr" and x[1][2] == "couple":
                return NAME
            if x[2] == "name" and x[1] == ("path", NAME):
                return NAME
            if x[2] == "stem" and x[1] == ("path", NAME):
                return ("stem", NAME)
            if x[2] == "suffix" and x[1] == ("path", NAME):
                return ("ext", NAME)
        if x[0] == "item" and x[1][0] == "call" and base_name(x[1][1]) == (
            "splitext"
        ) and is_const(x[2]):
            return ("stem" if x[2][1] == 0 else "ext", x[1][2][0])
        return x

    return map_term(t, one)


def parts(t, env=()):
    """parts of a file name"""
    if t[0] == "fmt" and t[2] == "" and t[3] == -1:
        return parts(t[1], env)
    for k, v in env:
        if t == k:
            return parts(v)
    if t[0] == "fstr":
        res = []
        for p in t[1]:
            res += parts(p, env)
    elif t[0] == "op" and t[1] == "+":
        res = parts(t[2], env) + parts(t[3], env)
    elif is_const(t) and isinstance(t[1], str):
        res = [t[1]]
    elif t[0] in ("stem", "ext") and t[1][0] in ("fstr", "op"):
        ps = parts(t[1], env)
        last = ps[-1]
        if isinstance(last, str) and "." in last:
            i = last.rindex(".")
            res = ps[:-1] + [last[:i]] if t[0] == "stem" else [last[i:]]
        else:
            res = [t]
    elif t[0] == "call" and base_name(t[1]) == "str" and len(t[2]) == 1:
        res = parts(t[2][0], env)
    else:
        res = [t]
    out = []
    for p in res:
        if p == "":
            continue
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p == ("ext", NAME) and out and out[-1] == ("stem", NAME):
            out[-1] = NAME
        else:
            out.append(p)
    return out


def known(ps):
    """the parts are made of known quantities"""
    def ok(x):
        if isinstance(x, str):
            return True
        if x in (SERIE, NAME, FMT) or is_const(x):
            return True
        if x[0] in ("stem", "ext"):
            return ok(x[1])
        if x[0] in ("fstr", "op", "fmt"):
            return all(ok(y) for y in parts(x) if y != x)
        if x[0] == "call" and x[1][0] == "func":
            return all(ok(a) for a in x[2]) and all(ok(v) for _, v in x[3])
        return False

    return all(ok(p) for p in ps)


def show_parts(ps):
    return " + ".join(repr(p) if isinstance(p, str) else show(p) for p in ps)


def assumptions(tr):
    res = {}
    for e in tr:
        if e.kind == "assume":
            res[norm(e.a[0])] = e.a[1] == TRUE
    return res


def equalities(ass):
    """format -> constant"""
    env = []
    for t, b in ass.items():
        if b and t[0] == "cmp" and t[1] == "==" and t[2] == FMT and is_const(t[3]):
            env.append((FMT, t[3]))
    return env


def compatible(a, b):
    for t, v in a.items():
        if b.get(t, v) != v:
            return False
    ea, eb = dict(equalities(a)), dict(equalities(b))
    if FMT in ea and FMT in eb and ea[FMT] != eb[FMT]:
        return False
    for e, o in ((ea, b), (eb, a)):
        if FMT in e:
            for t, v in o.items():
                if t[0] == "cmp" and t[1] == "==" and t[2] == FMT and is_const(
                    t[3]
                ) and (t[3] == e[FMT]) != v:
                    return False
    return True


# ------------------------------------------------------------------ tests


def polarity(t):
    """(term of the file which is tested, True if the test means 'exists')"""
    if t[0] == "not":
        r = polarity(t[1])
        return r and (r[0], None if r[1] is None else not r[1], r[2])
    if t[0] == "forall":
        r = polarity(t[1])
        if r:
            # all(exists), or all(does not exist)
            return r[0], True if r[1] else None, True
        return None
    if t[0] == "call":
        n = base_name(t[1])
        if n in TESTS:
            path = t[1][1] if t[1][0] == "attr" and not t[2] else (
                t[2][0] if t[2] else None)
            if path is not None:
                return path, True, False
    return None


def tests_of(tr):
    for i, e in enumerate(tr):
        if e.kind == "assume":
            r = polarity(e.a[0])
            if r and _in_dir(r[0]):
                val = None if r[1] is None else (r[1] == (e.a[1] == TRUE))
                yield i, e, r[0], val, r[2]


def _in_dir(path):
    return any(
        x[0] == "attr" and x[2].startswith("path_dir") for x in walk(path))


def has_test(f):
    """the syntax of the function tests the existence of files"""
    return any(
        isinstance(n, ast.Attribute) and n.attr in TESTS for n in ast.walk(f.node)
    ) and any(
        isinstance(n, ast.Attribute) and n.attr.startswith("path_dir")
        for n in ast.walk(f.node)
    )


def selectors(c):
    """methods of a topology which test the existence of results"""
    done = set()
    for k in c.mro():
        for f in k.methods.values():
            if f.name in done:
                continue
            done.add(f.name)
            if has_test(f) and f.name not in ("__init__",):
                yield f


def kept(tr, start, stop):
    """what is kept (appended, put in a queue) between two events"""
    res = []
    for e in tr[start:stop]:
        if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in (
            "append", "add", "appendleft",
        ) and e.a[1]:
            res.append(e.a[1][0])
        elif e.kind == "setitem" and e.a[0][0] != "obj":
            res.append(e.a[1])
    return res


MODES = {"ask", "new_dir", "complete", "recompute", "from_path_indices"}


def _consts(t):
    if is_const(t):
        return [t[1]] if isinstance(t[1], str) else None
    if t[0] in ("tuple", "list", "set"):
        if all(is_const(x) for x in t[1]):
            return [x[1] for x in t[1]]
    return None


def modes(tr):
    """possible modes, None if the mode is not tested"""
    res = None
    for e in tr:
        if e.kind != "assume" or e.a[0][0] != "cmp" or not any(
            x[0] == "attr" and x[2] == "how_saving" for x in walk(e.a[0])
        ):
            continue
        _, op, a, b = e.a[0][:4]
        if is_const(a):
            a, b = b, a
        vals = _consts(b)
        if vals is None or op not in ("==", "!=", "in", "notin", "not in"):
            continue
        yes = (e.a[1] == TRUE) == (op in ("==", "in"))
        res = MODES if res is None else res
        res = res & set(vals) if yes else res - set(vals)
    return res


def mode(tr):
    """value known of the test 'mode is complete' (None: not tested)"""
    m = modes(tr)
    if m is None or "complete" in m and m != {"complete"}:
        return None
    return m == {"complete"}


def check_selector(ctx, c, f, outs):
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        tr = o.st.trace
        iters = [i for i, e in enumerate(tr) if e.kind == "iter"]
        tests = list(tests_of(tr))
        m = mode(tr)
        if m is False:
            ctx.check(not tests, "T02.modes", f.short, "test in another mode",
                      f"{c.name}: items are skipped because a file exists in a "
                      "mode which is not 'complete'", fmt_trace(tr))
        for i, e, path, exists, multi in tests:
            prev = max([j for j in iters if j < i], default=None)
            if prev is None:
                continue
            nxt = min(
                [j for j in range(i, len(tr)) if tr[j].kind in (
                    "iter", "exhausted", "loop_break") and tr[j].line == tr[
                        prev].line] + [len(tr)])
            keeps = kept(tr, prev, nxt)
            n += 1
            if exists is None:
                ctx.check(False, "T02.skip", f.short, "incomplete test",
                          f"{c.name}: an item is considered as computed though "
                          "only one of its files exists", fmt_trace(tr), e.line)
                continue
            if not any(
                e1.kind in ("iter", "exhausted") and e1.line == tr[prev].line
                for e1 in tr[i:]
            ):
                ctx.bad("T02.skip", f.short, "end of the loop",
                        f"{c.name}: the items which follow one whose result "
                        + ("exists" if exists else "does not exist")
                        + " are skipped", fmt_trace(tr), e.line)
            # the lists of names used to test are not what is kept
            mine = [k for k in keeps if _of_iteration(k, tr[prev])]
            if exists:
                ctx.check(not mine, "T02.skip", f.short, "recomputed",
                          f"{c.name}: an item whose result exists is kept in mode "
                          "'complete'", fmt_trace(tr), e.line)
            else:
                ctx.check(len(mine) == 1, "T02.skip", f.short, "skipped",
                          f"{c.name}: an item whose result does not exist is kept "
                          f"{len(mine)} times in mode 'complete'",
                          fmt_trace(tr), e.line)
                for k in mine:
                    if k[0] == "op":
                        ctx.bad("T02.skip", f.short, "other item",
                                f"{c.name}: {show(k)[:80]} is kept in mode "
                                "'complete' instead of the item which is tested",
                                fmt_trace(tr), e.line)
                    elif not _is_item(k, tr[prev]):
                        ctx.maybe("T02.skip", f.short, show(k)[:80])
        # iterations without test in mode complete
        for a, i in enumerate(iters):
            if m is False or f.name == "fill_queue_paths" and m is None:
                continue
            lines = {tr[j].line for j in iters if any(
                j < t[0] for t in tests)}
            if not _tested_loops(outs) & {tr[i].line}:
                continue
            nxt = min([j for j in range(i + 1, len(tr)) if tr[j].kind in (
                "iter", "exhausted") and tr[j].line == tr[i].line] + [len(tr)])
            if not any(i < t[0] < nxt for t in tests):
                n += 1
                ctx.bad("T02.skip", f.short, "no test",
                        f"{c.name}: an item is "
                        + ("kept" if kept(tr, i, nxt) else "skipped")
                        + " in mode 'complete' without looking at its result",
                        fmt_trace(tr), tr[i].line)
    return n


def _tested_loops(outs):
    res = set()
    for o in outs:
        tr = o.st.trace
        for i, *_ in tests_of(tr):
            prev = [e for e in tr[:i] if e.kind == "iter"]
            if prev:
                res.add(prev[-1].line)
    return res


def _sources(src):
    base = src
    while base[0] == "call" and base[1][0] == "attr" and base[1][2] in (
        "items", "keys", "values",
    ) or base[0] == "call" and base[1][0] in ("ext", "builtin") and base_name(
        base[1]
    ) in ("enumerate", "list", "tuple", "sorted", "iter"):
        if base[1][0] == "attr":
            base = base[1][1]
        elif base[2]:
            base = base[2][0]
        else:
            break
    return base, src


def _of_iteration(t, ev):
    """the term comes from the item (or its index) of the iteration"""
    srcs = _sources(ev.a[0])
    return any(
        x[0] in ("elem", "key", "val", "idx") and x[1] in srcs for x in walk(t)
    )


def _is_item(t, ev):
    """the term is the item (or its index) of the iteration"""
    srcs = _sources(ev.a[0])
    if t[0] == "tuple":
        return any(_is_item(x, ev) for x in t[1])
    while t[0] == "item" and is_const(t[2]):
        t = t[1]
    return t[0] in ("elem", "key", "val", "idx") and t[1] in srcs


# ------------------------------------------------------------------ names


WRITERS = {"File", "imsave", "imsave_h5", "open", "savez", "save", "savetxt",
           "write_text", "write_bytes", "ImageH5File"}


def result_classes(ctx):
    return [
        c for n in ("MultipassPIVResults", "HeavyPIVResults")
        for c in [ctx.p.find_class(n)] if c is not None
    ]


def saved_names(ctx, c, f):
    """(assumptions, file name, event, loop or not) of the files written"""
    names = [a.arg for a in f.node.args.args][1:]
    if not names:
        return
    param = f.node.args.args[1]
    cls = None
    if param.annotation is not None:
        txt = ast.unparse(param.annotation).strip("'\"").split(".")[-1]
        cls = ctx.p.find_class(txt) if txt[:1].isupper() else None
        if cls is not None and "save" not in {
            m for k in cls.mro() for m in k.methods
        }:
            cls = None
    calls_save = any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
        and n.func.attr == "save" and isinstance(n.func.value, ast.Name)
        and n.func.value.id == param.arg for n in ast.walk(f.node)
    )
    if calls_save:
        classes = [cls] if cls is not None else result_classes(ctx)
    else:
        classes = [None]
    for k in classes:
        arg = ("param", names[0]) if k is None else ("obj", "res", k.qual)
        for o in run(ctx, c, f, {names[0]: arg}):
            if o.kind != "return":
                continue
            tr = o.st.trace
            ass = assumptions(tr)
            # a computed result was not loaded; its serie is known
            if any(
                v and t[0] == "call" and base_name(t[1]) == "hasattr"
                for t, v in ass.items()
            ) or any(
                v and t[0] == "cmp" and t[1] == "is" and t[3] == NONE and (
                    t[2] == SERIE or is_dir(t[2]))
                for t, v in ass.items()
            ) or any(
                v and any(x[0] == "ext" and x[1][0:1] in ("ext", "stem")
                          for x in walk(t)) for t, v in ass.items()
            ) or any(
                v and t[0] == "cmp" and t[1] == "in" and any(
                    x[0] == "ext" and x[1] != NAME and isinstance(x[1], tuple)
                    for x in walk(t[2]))
                for t, v in ass.items()
            ):
                continue
            for i, e in enumerate(tr):
                if e.kind != "call" or base_name(e.a[0]) not in WRITERS:
                    continue
                args = e.a[1]
                n = base_name(e.a[0])
                kw = dict(e.a[2])
                if n in ("write_text", "write_bytes"):
                    path = e.a[0][1]
                elif args:
                    path = args[0]
                else:
                    continue
                if n in ("File", "open") and (
                    (len(args) > 1 and args[1] in (const("r"), const("rb")))
                    or (len(args) == 1 and "mode" not in kw)
                ):
                    continue
                yield k, ass, path, n, args, kw, e, tr


def expand_get_name(ctx, t):
    """names given by the results of the passes"""
    heavy = ctx.p.find_class("HeavyPIVResults")
    f = heavy.find_method("_get_name")
    if f is None or t[0] != "call" or base_name(t[1]) != "_get_name":
        return [({}, t)]
    names = [a.arg for a in f.node.args.args][1:]
    args = dict(zip(names, t[2]))
    args.update(dict(t[3]) if len(t) > 3 else {})
    interp = Interp(ctx.p, SelPolicy())
    outs = interp.run(f, args={n: args.get(n, NONE) for n in names},
                      self_term=("obj", "pass0", heavy.qual), st=State())
    ctx.seen(interp)
    res = []
    for o in outs:
        ass = assumptions(o.st.trace)
        if o.kind != "return" or any(
            v and t[0] == "cmp" and t[1] == "is" and t[2] == SERIE
            for t, v in ass.items()
        ):
            continue
        res.append((ass, o.val))
    return res


def file_names(n, name, args, kw):
    """file written by a function called with a path (None: unknown)"""
    if n == "imsave_h5":
        split = kw.get("splitext", args[6] if len(args) > 6 else TRUE)
        if split == TRUE:
            return ("fstr", (("stem", name), const(".h5"))), None
        return ("fstr", (name, const(".h5"))), None
    if n == "imsave":
        fmt = kw.get("format", args[2] if len(args) > 2 else NONE)
        as_int = kw.get("as_int", args[3] if len(args) > 3 else const(False))
        if fmt == NONE and as_int != TRUE:
            return name, (
                "an image of floats is saved by imsave under another name "
                "(suffix .tiff added) than the one which is tested")
    return name, None


def savers(c):
    done = set()
    for k in c.mro():
        for f in k.methods.values():
            if f.name in done or len(f.node.args.args) != 2:
                continue
            done.add(f.name)
            if any(
                isinstance(n, ast.Attribute) and n.attr.startswith("path_dir")
                for n in ast.walk(f.node)
            ) and not has_test(f) and not f.name.startswith("make_text") and any(
                isinstance(n, ast.Call) and (
                    isinstance(n.func, ast.Attribute) and n.func.attr in (
                        WRITERS | {"save"})
                    or isinstance(n.func, ast.Name) and n.func.id in WRITERS)
                for n in ast.walk(f.node)
            ):
                yield f


def check_names(ctx, c, tested, where):
    rows = []
    for f in savers(c):
        for k, ass, path, n, args, kw, e, tr in saved_names(ctx, c, f):
            name = split_dir(path)
            if name is None or not right_dir(path):
                if _in_dir(path) and right_dir(path):
                    ctx.maybe("T02.name", f.short, show(path)[:90])
                else:
                    ctx.bad("T02.name", f.short, "not in the directory",
                            f"{c.name}: a result is saved in {show(path)[:80]}, "
                            "not in the directory of the results",
                            fmt_trace(tr), e.line)
                continue
            for more, name1 in expand_get_name(ctx, name):
                rows.append((f, {**ass, **more}, norm(name1), n, args, kw, e, tr,
                             k))
    if not rows:
        ctx.maybe("T02.name", where, f"{c.name}: no writer found")
        return
    for f, ass, name, n, args, kw, e, tr, k in rows:
        name1, warn = file_names(n, name, args, kw)
        if warn:
            ctx.bad("T02.name", f.short, f"{n}: name of the file",
                    f"{c.name}: {warn}", fmt_trace(tr), e.line)
        for ass_t, tname, multi in tested:
            if not compatible(ass, ass_t):
                continue
            env = equalities(ass) + equalities(ass_t)
            ps, pt = parts(name1, env), parts(tname, env)
            if not known(ps) or not known(pt):
                ctx.maybe("T02.name", f.short,
                          f"{show_parts(ps)[:80]} / {show_parts(pt)[:80]}")
                continue
            ctx.check(
                ps == pt, "T02.name", where,
                f"name tested by {c.name}",
                f"{c.name}: the file tested in mode 'complete' is "
                f"{show_parts(pt)} but the result is saved as {show_parts(ps)} "
                f"({f.short}, line {e.line})", fmt_trace(tr), None)
            several = any(
                x[0] in ("key", "elem") for x in walk(split_dir(args[0]) or args[0])
            ) if args else False
            if several and NAME in set(walk(name1)):
                ctx.check(multi, "T02.name", where, f"files of {c.name}",
                          f"{c.name}: several files are saved for an item and "
                          "only one is tested in mode 'complete'", fmt_trace(tr))


@register("T02")
def complete(ctx):
    ctx.rule("T02.skip", "an item is skipped in mode 'complete' if and only if "
             "its result exists", 4)
    ctx.rule("T02.modes", "nothing is skipped because of existing files in the "
             "other modes; the indices to be computed are used in mode "
             "'complete'", 2)
    ctx.rule("T02.name", "the file tested is the one in which the result of the "
             "item is saved", 3)
    ctx.rule("T02.serie", "the serie kept with an item is its own", 1)
    found = False
    FUNCS.update(ctx.p.funcs_by_key)
    for c in topologies(ctx):
        for f in selectors(c):
            outs = run(ctx, c, f)
            n = check_selector(ctx, c, f, outs)
            tested, keys = [], set()
            for o in outs:
                if o.kind != "return":
                    continue
                tr = o.st.trace
                for i, e, path, exists, multi in tests_of(tr):
                    name = split_dir(path)
                    if not right_dir(path):
                        ctx.bad("T02.name", f.short, "directory",
                                f"{c.name}: the file tested in mode 'complete' is "
                                f"{show(path)[:80]}, not in the directory of the "
                                "results", fmt_trace(tr), e.line)
                        continue
                    if name is None:
                        ctx.maybe("T02.name", f.short, show(path)[:90])
                        continue
                    ass = {
                        t: v for t, v in assumptions(tr).items()
                        if t != norm(e.a[0])
                    }
                    name = norm(name)
                    for x in list(walk(name)):
                        pass
                    kk = (name, multi, tuple(sorted(map(repr, equalities(ass)))),
                          tuple(sorted(repr(x) for x in ass.items() if any(
                              y == FMT for y in walk(x[0])))))
                    if kk in keys:
                        continue
                    keys.add(kk)
                    ass = {t: v for t, v in ass.items() if any(
                        y == FMT for y in walk(t))}
                    tested.append((ass, name, multi))
            if n and tested:
                found = True
                check_names(ctx, c, tested, f.short)
            elif not n:
                ctx.maybe("T02.skip", f.short, f"{c.name}: no test found")
    if not found:
        raise AnalysisBroken("no selection of the items found")
    check_modes(ctx)
    check_series(ctx)


def check_modes(ctx):
    """use of the indices to be computed"""
    for c in topologies(ctx):
        done = set()
        for k in c.mro():
            for f in k.methods.values():
                if f.name in done or f.name == "compute_indices_to_be_computed":
                    continue
                done.add(f.name)
                if not any(
                    isinstance(n, ast.Attribute)
                    and n.attr == "compute_indices_to_be_computed"
                    for n in ast.walk(f.node)
                ):
                    continue
                check_use(ctx, c, f)


def is_indices(t):
    return any(
        x[0] == "call" and base_name(x[1]) == "compute_indices_to_be_computed"
        for x in walk(t)
    )


def is_empty(t, val):
    """the container tested by an assumption, if it is found empty"""
    while t[0] == "not":
        t, val = t[1], not val
    if t[0] == "cmp":
        op, a, b = t[1:4]
        if is_const(a):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not is_const(b) or not isinstance(b[1], int):
            return None
        found = {
            "==": val and b[1] == 0, "!=": not val and b[1] == 0,
            "<": val and b[1] <= 1, "<=": val and b[1] <= 0,
            ">": not val and b[1] <= 0, ">=": not val and b[1] <= 1,
        }.get(op)
        if not found:
            return None
        t = a
    elif val:
        return None
    if t[0] == "call" and base_name(t[1]) in ("len", "bool") and t[2]:
        t = t[2][0]
    return t


def empties(tr):
    for e in tr:
        if e.kind == "assume":
            t = is_empty(e.a[0], e.a[1] == TRUE)
            if t is not None:
                yield t


def nothing(tr):
    """the path is taken when there is no item at all"""
    return any(
        t[0] == "attr" and t[2] in ("serie", "series") for t in empties(tr))


def check_use(ctx, c, f):
    outs = [o for o in run(ctx, c, f) if o.kind == "return"]

    def calls(tr):
        return [e for e in tr if e.kind == "call" and base_name(e.a[0]) ==
                "set_index_series" and e.a[1]]

    restricts = any(calls(o.st.trace) for o in outs)
    for o in outs:
        tr = o.st.trace
        m = modes(tr)
        sets = calls(tr)
        puts = [e for e in tr if e.kind == "setitem" and e.a[0][0] in (
            "param", "item")]
        if restricts:
            used = any(is_indices(e.a[1][0]) for e in sets)
        else:
            used = any(is_indices(e.a[0]) for e in tr if e.kind in (
                "iter", "exhausted")) or any(is_indices(e.a[1]) for e in puts)
        wrong = [e for e in sets if not is_indices(e.a[1][0])]
        other = [e for e in puts if not is_indices(e.a[1]) and not is_indices(
            e.a[2])]
        if m is None:
            # paths on which the mode plays no role
            if nothing(tr) and not puts and not sets:
                continue
            m = MODES
        if not m:
            continue
        if "complete" in m:
            empty = any(is_indices(t) for t in empties(tr))
            ctx.check(
                (used or (empty or nothing(tr)) and not puts)
                and not wrong and (restricts or not other),
                "T02.modes", f.short, "indices to be computed",
                f"{c.name}: in mode 'complete', the items are not the ones to be "
                "computed", fmt_trace(tr))
        if m - {"complete"} and used:
            ctx.bad("T02.modes", f.short, "indices in another mode",
                    f"{c.name}: items are skipped because their result exists in "
                    f"the modes {sorted(m - {'complete'})}", fmt_trace(tr))
        if "from_path_indices" not in m and "complete" not in m:
            ctx.check(not sets, "T02.modes", f.short, "set_index_series",
                      f"{c.name}: the items are restricted in a mode which "
                      "asks for all of them", fmt_trace(tr))


def check_series(ctx):
    """series stored with the items: a serie given by a SeriesOfArrays is
    modified when another one is asked for, so that it has to be copied"""
    n = 0
    for c in topologies(ctx):
        done = set()
        for k in c.mro():
            for f in k.methods.values():
                if f.name in done:
                    continue
                done.add(f.name)
                if not any(
                    isinstance(x, ast.Attribute) and x.attr ==
                    "get_serie_from_index" for x in ast.walk(f.node)
                ) or f.name == "__init__":
                    continue
                for o in run(ctx, c, f):
                    for e in o.st.trace:
                        if e.kind not in ("call", "setattr", "setitem"):
                            continue
                        vals = []
                        if e.kind == "call" and base_name(e.a[0]) != "copy":
                            vals = list(e.a[1]) + [v for _, v in e.a[2]]
                        elif e.kind != "call":
                            vals = [e.a[2]]
                        for v in vals:
                            raw = v[0] == "call" and base_name(v[1]) == (
                                "get_serie_from_index")
                            cop = v[0] == "call" and base_name(v[1]) in (
                                "copy", "deepcopy") and len(v[2]) == 1 and (
                                v[2][0][0] == "call") and base_name(
                                v[2][0][1]) == "get_serie_from_index"
                            if raw or cop:
                                n += 1
                                ctx.check(
                                    cop, "T02.serie", f.short, "serie",
                                    f"{c.name}: the serie of an item is kept "
                                    "without copy (it is modified for the next "
                                    "items, the name of the result changes)",
                                    fmt_trace(o.st.trace), e.line)
