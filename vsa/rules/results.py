"""E08: lists of results, numbers of results and job files"""

import ast

from ..exmodel import executor_classes
from ..framework import fmt_trace
from ..interp import Interp, Policy, State
from ..paths import IDX, canon, file_ops, fnmatch, name_of, norm, render, split_path
from ..project import AnalysisBroken
from ..terms import (
    FALSE, NONE, TRUE, const, contains, contains_if, is_const, mk_len, show,
    strip_uid, subst, walk,
)
from ..topomodel import graphs, topology_classes
from . import register
from ..atomic import writes_files
from ..terms import base_name as last_name
from .executors import base_name, is_multi, model


class FilePolicy(Policy):
    """one function at a time, with its small helpers; only the events on files
    and on the attributes are kept"""

    unroll = 1
    soft_states = 12
    max_states = 4000

    def __init__(self, pkgs=("fluidimage.executors",)):
        self.pkgs = pkgs

    def should_inline(self, func, interp, st):
        return (
            any(func.module.name.startswith(k) for k in self.pkgs)
            and not func.is_async
            and not func.is_gen
            and func.name != "__init__"
            and sum(isinstance(n, ast.stmt) for n in ast.walk(func.node)) <= 16
        )

    def keep(self, ev):
        if ev.kind == "assume":
            return new_results(ev.a[0]) is not None
        if ev.kind == "call":
            return call_matters(ev)
        return ev.kind in ("setattr", "setitem", "raise", "iter")


_FILE_CALLS = {
    "open", "write_text", "read_text", "touch", "unlink", "mkdir", "exists",
    "is_file", "glob", "rglob", "rename", "replace", "_save_as_xml", "write",
    "writelines", "read", "readlines", "readline", "ParamContainer", "makedirs",
    "remove", "extend", "append", "int", "isfile", "move", "strptime", "update",
    "advance",
}


def call_matters(ev):
    f = ev.a[0]
    n = f[2] if f[0] == "attr" else f[1].split(".")[-1] if f[0] == "ext" else None
    return n in _FILE_CALLS


def relevant_files(p, pkgs):
    """functions of the package which handle files or the list of results
    (closure over the calls)"""
    words = {"open", "write_text", "read_text", "_save_as_xml", "glob", "exists",
             "results", "ParamContainer", "touch", "unlink", "mkdir",
             "path_job_data", "_log_path", "_path_results", "_path_num_results",
             "_unique_postfix", "info_job"}
    funcs = [f for f in p.all_funcs()
             if any(f.module.name.startswith(k) for k in pkgs)]
    uses, calls = {}, {}
    for f in funcs:
        a = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                a.add(n.attr)
            elif isinstance(n, ast.Name):
                a.add(n.id)
        calls[f.key] = a
        uses[f.key] = bool(a & words)
    rel = {k for k, v in uses.items() if v}
    names = {}
    for f in funcs:
        names.setdefault(f.name, set()).add(f.key)
    while True:
        relnames = {n for n, ks in names.items() if ks & rel} - {"__init__"}
        new = {k for k in calls if k not in rel and calls[k] & relnames}
        if not new:
            return rel
        rel |= new


_runs = {}


def run_file(ctx, c, f, pkgs=("fluidimage.executors",)):
    """the abstract paths of one method"""
    key = (id(ctx.p), f.key, pkgs)
    if key not in _runs:
        I = Interp(ctx.p, FilePolicy(pkgs))
        outs = I.run(f, self_term=("obj", "self", c.qual))
        ctx.seen(I)
        _runs[key] = outs + I.cuts
    return _runs[key]


def methods_of(ctx, classes, pkgs, rel=None):
    """(class, method), each method once"""
    done = set()
    for c in classes:
        for k in c.mro():
            if not any(k.module.name.startswith(x) for x in pkgs):
                continue
            for f in k.methods.values():
                if f.key in done or (rel is not None and f.key not in rel):
                    continue
                if f.is_classmethod or f.is_static or f.is_gen:
                    continue
                done.add(f.key)
                yield k, f


def is_results(t):
    return t[0] == "attr" and t[2] == "results"


def has_results(t):
    return contains_if(t, is_results)


def is_len_of(x, pred):
    return x[0] == "call" and x[1] == ("ext", "len") and len(x[2]) == 1 and (
        pred(x[2][0]))


def is_total(x):
    """the length of the list of results"""
    return is_len_of(x, is_results)


def counts_results(t):
    return contains_if(t, lambda x: is_len_of(
        x, lambda y: is_results(y) or new_results(y) is not None))


def is_end(v, lo, sl):
    """is v the index of the end of the slice sl of the results from lo"""
    hi = new_results(sl)[2]
    if hi != NONE and v == hi:
        return True
    return v[0] == "op" and v[1] == "+" and (
        {lo} & set(v[2:4]) != set()
        and any(is_len_of(x, lambda y: y == sl or comp_of(y, sl))
                for x in v[2:4])
    )


def comp_of(y, sl):
    """a comprehension over sl without condition has the same length"""
    return y[0] == "comp" and y[1] == "list" and len(y[3]) == 1 and (
        y[3][0] == sl and not y[4])


def count_value(x):
    """is the number in the text the number of results (None: unknown)"""
    vals = [x]
    if x[0] == "fstr":
        vals = [p[1] for p in x[1] if p[0] == "fmt"]
    if x[0] == "call" and x[1] == ("ext", "str"):
        vals = [x[2][0]]
    if len(vals) != 1:
        return None
    v = vals[0]
    if is_total(v):
        return True
    if v[0] == "op" and v[1] == "+":
        for a, b in ((v[2], v[3]), (v[3], v[2])):
            if is_len_of(b, lambda y: new_results(y) is not None
                         and new_results(y)[1] == a):
                return True
    return False


# ---------------------------------------------------------------- writers
def new_results(t):
    """(lower bound of the slice) if t is a slice of the list of results"""
    if t[0] == "item" and is_results(t[1]) and t[2][0] == "slice":
        return t[2]
    return None


@register("E08")
def e08_increments(ctx):
    ctx.rule("E08.increments", "each saving of the names of results appends "
             "exactly the names added since the previous saving, one per line, "
             "and records that they are saved", 1)
    ctx.rule("E08.count", "the number written beside the list is the length of "
             "the list of results", 1)
    p = ctx.p
    pkgs = ("fluidimage.executors",)
    for c, f in methods_of(ctx, executor_classes(p), pkgs):
        if f.is_async or f.name == "__init__":
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "results"
                   for n in ast.walk(f.node)):
            continue
        for o in run_file(ctx, c, f):
            if o.kind == "return":
                check_increment(ctx, f, o)


def check_increment(ctx, f, o):
    tr = o.st.trace
    ops = file_ops(tr)
    names, counts = [], []
    slices = {}
    for op in ops:
        if op.op not in ("write", "append"):
            continue
        if op.op == "write" and op.ev.a[0] != ("ext", "open") and not op.content:
            continue
        cs = [x for x in op.content if has_results(x) or has_slice(x)]
        for x in cs:
            if content_role(x) == "count":
                counts.append((op, x))
            else:
                names.append((op, x))
    if not names and not counts:
        return
    where = f.short
    path = fmt_trace(tr)
    # what is recorded as saved
    sets = [
        e for e in tr if e.kind == "setattr" and has_results(e.a[2])
        and contains_if(e.a[2], lambda x: x[0] == "call" and x[1] == ("ext", "len"))
        and not is_results(e.a[2])
    ]
    lows = set()
    for op, x in names:
        for t in walk(x):
            s = new_results(t)
            if s is not None:
                lows.add(t)
    assumed = [
        (e.a[0], e.a[1]) for e in tr if e.kind == "assume"
        and new_results(e.a[0]) is not None
    ]
    for op, x in counts:
        ctx.check(op.op == "write", "E08.count", where, "mode of the count",
                  "the number of results is appended to the previous numbers "
                  "instead of replacing them", path, op.ev.line)
        v = count_value(x)
        if v is None:
            ctx.maybe("E08.count", where, "value of the count " + show(x))
        else:
            ctx.check(v, "E08.count", where, "value of the count",
                      "the number written is not the number of results", path,
                      op.ev.line)
    if names:
        ctx.check(len(counts) > 0, "E08.count", where, "count not written",
                  "names of results are saved on a path where the number of "
                  "results is not written", path)
    whole = [n for n in names if not has_slice(n[1])]
    inc = [n for n in names if has_slice(n[1])]
    for op, x in whole:
        ctx.check(op.op == "write", "E08.increments", where, "whole list",
                  "the whole list of results is appended to the file at each "
                  "saving: names are duplicated", path, op.ev.line)
    for op, x in inc:
        ctx.check(op.op == "append", "E08.increments", where, "mode of the names",
                  "the file of the names is truncated: the names saved before "
                  "are lost", path, op.ev.line)
    for sl in lows:
        lo, hi, step = new_results(sl)[1:4]
        ok = step in (NONE, const(1)) and (hi == NONE or is_total(hi))
        ctx.check(ok, "E08.increments", where, "slice of the new names",
                  f"only a part of the new names is saved ([{show(lo)}:{show(hi)}"
                  "])", path)
        if not ok:
            continue
        recs = [e for e in sets if lo == ("attr", e.a[0], e.a[1])]
        good = [e for e in recs if is_end(e.a[2], lo, sl)]
        ctx.check(bool(good), "E08.increments", where, "record of what is saved",
                  f"the number of saved names ({show(lo)}), used to find the new "
                  "ones, is not set to the index of the end of what is saved "
                  "(works executed in threads append names during the saving)",
                  path)
    if sets and not names and not any(
        v in (False, FALSE) for t, v in assumed
    ):
        ctx.bad("E08.increments", where, "names recorded but not written",
                "results are recorded as saved on a path where their names are "
                "not written", path)
    for op, x in inc + whole:
        ls = lines_form(x)
        if ls is None:
            ctx.maybe("E08.increments", where, "form of the lines " + show(x))
            continue
        sep, end, cond, elem_ok = ls
        ctx.check(not cond, "E08.increments", where, "filtered names",
                  "some of the new names are not written", path, op.ev.line)
        ctx.check(sep in ("\n", None) and end == "\n", "E08.increments", where,
                  "one name per line",
                  "the names are not written one per line: the last one of a "
                  "saving and the first one of the next saving would be merged",
                  path, op.ev.line)
    # exactly one writing of the slice
    if inc:
        n = len(inc)
        loops = sum(1 for e in tr if e.kind == "iter")
        ctx.check(n <= max(1, loops), "E08.increments", where, "written once",
                  "the new names are written several times", path)


def has_slice(x):
    return contains_if(x, lambda t: new_results(t) is not None)


def is_joined(x):
    return contains_if(x, lambda t: t[0] in ("join", "comp") or (
        t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join"))


def lines_form(x):
    """(separator, end, filtered, …) of a text made of names"""
    end = ""
    if x[0] == "fstr":
        parts = list(x[1])
        if parts and parts[-1][0] == "const":
            end = str(parts[-1][1])
            parts = parts[:-1]
        if len(parts) != 1 or parts[0][0] != "fmt":
            return None
        x = parts[0][1]
    if x[0] == "join":
        sep = x[1][1] if is_const(x[1]) else None
        inner = x[2]
        if sep is None:
            return None
        cond = False
        if inner[0] == "comp":
            cond = bool(inner[4])
            e = inner[2]
            if sep == "" and e[0] == "fstr" and e[1][-1][0] == "const":
                return None, str(e[1][-1][1]), cond, True
        return sep, end, cond, True
    if contains_if(x, lambda t: t[0] in ("elem", "item", "attr")):
        return None, end, False, True
    return None


# ---------------------------------------------------------- one per result
@register("E08")
def e08_listed(ctx):
    ctx.rule("E08.listed", "the function which saves an item appends exactly "
             "one name to the list of results, after the saving", 3)
    p = ctx.p
    seen = set()
    for c in topology_classes(p):
        has = any(
            isinstance(n, ast.Attribute) and n.attr == "results"
            and isinstance(n.ctx, ast.Store)
            for k in c.mro() for f in k.methods.values() for n in ast.walk(f.node)
        )
        for g in graphs(ctx, c):
            if (g.self_t, "results") not in g.st.heap:
                if has or any(
                    isinstance(n, ast.Attribute) and n.attr == "results"
                    and k.name != "TopologyBase"
                    for k in c.mro() for f in k.methods.values()
                    for n in ast.walk(f.node)
                ):
                    ctx.bad("E08.listed", f"{c.module.rel}:{c.name}",
                            "list not created",
                            f"{c.name}: the list of results is not created by "
                            "the constructor: executors do not list anything")
                continue
            for w in g.works:
                if not w.per_item or w.outq:
                    continue
                if w.func[0] != "bound":
                    ctx.maybe("E08.listed", c.name, "saving function opaque")
                    continue
                f = p.funcs_by_key[w.func[2][1]]
                if (f.key, c.qual) in seen:
                    continue
                seen.add((f.key, c.qual))
                I = Interp(p, TopoSelf(c))
                outs = I.run(f, self_term=("obj", "self", c.qual))
                ctx.seen(I)
                for o in outs:
                    check_listed(ctx, c, f, o)


class TopoSelf(Policy):
    """follows the methods of the topology only"""

    unroll = 1

    def __init__(self, cls):
        self.mods = {c.module.name for c in cls.mro()}

    def should_inline(self, func, interp, st):
        return func.module.name in self.mods and func.name != "__init__" or (
            func.parent is not None)


def appended(tr):
    res = []
    for i, e in enumerate(tr):
        if e.kind == "call" and e.a[0][0] == "attr" and is_results(e.a[0][1]):
            if e.a[0][2] == "append" and len(e.a[1]) == 1:
                res.append((i, e, e.a[1][0]))
            elif e.a[0][2] in ("extend", "insert", "__iadd__"):
                res.append((i, e, None))
            elif e.a[0][2] in ("pop", "clear", "remove"):
                res.append((i, e, "removed"))
        if e.kind == "setattr" and e.a[1] == "results":
            res.append((i, e, None))
    return res


def check_listed(ctx, c, f, o):
    tr = o.st.trace
    ap = appended(tr)
    where = f.short
    if o.kind == "raise":
        return
    n = len(ap)
    if any(a[2] is None for a in ap):
        return ctx.maybe("E08.listed", where, "list modified in another way")
    ctx.check(n == 1, "E08.listed", where, "one name per item",
              f"saving an item adds {n} names to the list of results",
              fmt_trace(tr))
    if n != 1:
        return
    i, e, v = ap[0]
    saves = [
        k for k, x in enumerate(tr) if x.kind == "call" and (
            "save" in (last_name(x.a[0]) or "")
            or x.a[0][0] == "func" and x.a[0][1] in ctx.p.funcs_by_key
            and writes_files(ctx.p, ctx.p.funcs_by_key[x.a[0][1]]))
    ]
    ctx.check(bool(saves) and max(saves) < i, "E08.listed", where,
              "listed after the saving",
              "the name of the result is added to the list before it is saved "
              "(or nothing is saved): a failure of the saving leaves a name "
              "without result", fmt_trace(tr), e.line)
    ok = v not in (NONE,) and not (is_const(v))
    if v[0] == "call" and v[1][0] == "attr" and base_name(v[1]) == "save":
        bads = [r for r in save_returns(ctx, c) if r]
        ctx.check(not bads, "E08.listed", where, "value listed",
                  "what is listed is what save returns, and "
                  + "; ".join(bads), fmt_trace(tr), e.line)
    else:
        ctx.check(ok, "E08.listed", where, "value listed",
                  "what is added to the list is not the name of the result",
                  fmt_trace(tr), e.line)


def results_types(p, c):
    """classes of data objects with a method save, instantiated by the works of
    the topology"""
    cands = []
    for k in p.classes_by_qual.values():
        if not k.module.name.startswith("fluidimage.data_objects"):
            continue
        if k.find_method("save") is None:
            continue
        cands.append(k)
    used = []
    names = {k.name: k for k in cands}
    todo = {c.module.name}
    seen = set()
    while todo:
        mn = todo.pop()
        if mn in seen or mn not in p.modules:
            continue
        seen.add(mn)
        m = p.modules[mn]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and (
                n.func.id in names
            ):
                t = p.resolve(m, n.func.id)
                if t[0] == "class" and p.classes_by_qual[t[1]] in cands:
                    used.append(p.classes_by_qual[t[1]])
        for imp in m.imports.values():
            full = imp[1]
            if full.startswith("fluidimage.works") or full.startswith(
                "fluidimage.topologies.piv"
            ):
                todo.add(full)
                if len(imp) > 2 and full + "." + imp[2] in p.modules:
                    todo.add(full + "." + imp[2])
    return {k.qual: k for k in used}.values()


_sr = {}


def save_returns(ctx, c):
    """descriptions of the values returned by save which are not names"""
    key = (id(ctx.p), c.qual)
    if key in _sr:
        return _sr[key]
    res = []
    for k in results_types(ctx.p, c):
        f = k.find_method("save")
        if "Couple" in k.name or "Array" in k.name:
            continue
        I = Interp(ctx.p, SaveNames())
        outs = I.run(f, self_term=("obj", "self", k.qual))
        ctx.seen(I)
        bad = None
        for o in outs:
            if o.kind != "return":
                continue
            v = o.val
            if v == NONE or v is None or v == ("obj", "self", k.qual):
                bad = f"{f.short} returns {show(v) if v else None}"
        res.append(bad)
    _sr[key] = res
    return res


class SaveNames(Policy):
    unroll = 1
    max_states = 20000

    def should_inline(self, func, interp, st):
        return False


# -------------------------------------------------------- names of the files
@register("E08")
def e08_files(ctx):
    ctx.rule("E08.files", "each file of a job which is read (by the main process "
             "or by the monitor) is written by the executors under this name", 6)
    ctx.rule("E08.roles", "the numbers and the names of results are read from "
             "the files in which they are written, for the same process", 2)
    ctx.rule("E08.total", "the total number of results is the sum of the numbers "
             "read in the files of the processes", 2)
    p = ctx.p
    pkgs = ("fluidimage.executors",)
    rel = relevant_files(p, pkgs)
    classes = executor_classes(p)
    writers = []  # (rendered name, role, where, per process)
    multi, contents, parsed = [], {}, set()
    defs = attr_defs(ctx, classes, pkgs)
    for c, f in methods_of(ctx, classes, pkgs, rel):
        outs = run_file(ctx, c, f)
        if is_multi(None, c):
            multi.append((c, f, outs))
        for o in outs:
            for op in file_ops(o.st.trace):
                if op.op in ("write", "append", "touch", "mkdir"):
                    add_writer(writers, op, defs, contents)
    wnames = {w[0] for w in writers}
    roles = {}
    for w, role in writers:
        if role:
            roles.setdefault(role, set()).add(w)
    ctx.notes.append("files written: " + ", ".join(sorted(
        x for x in wnames if "<" not in x)))
    # readers: main process
    seen = set()
    for c, f, outs in multi:
        for o in outs:
            check_readers(ctx, f, o, defs, writers, roles, seen, parsed, "main")
            check_total(ctx, f, o)
    # readers: monitor
    mons = [k for k in p.classes_by_qual.values()
            if k.module.name.startswith("fluidimage.gui")
            and any(isinstance(n, ast.Constant) and n.value == "job_*"
                    or isinstance(n, ast.Attribute) and n.attr == "path_job_info"
                    for n in ast.walk(k.node))]
    for k in mons:
        pk = (k.module.name,)
        mdefs = attr_defs(ctx, [k], pk)
        for _, f in methods_of(ctx, [k], pk):
            for o in run_file(ctx, k, f, pk):
                check_readers(ctx, f, o, mdefs, writers, roles, seen, parsed,
                              "monitor")
                check_total(ctx, f, o)
        check_info(ctx, k, defs)
    # times written in files and parsed
    for nm in sorted(parsed):
        done = set()
        for op in contents.get(nm, ()):
            for x in op.content:
                if strip_uid(x) in done:
                    continue
                done.add(strip_uid(x))
                check_time(ctx, op.ev.func.short, f"time in {nm}",
                           expand_attrs(x, defs))


def add_writer(writers, op, defs, contents):
    for t in resolve_path(op.path, defs):
        b, c = canon(t)
        if not c:
            continue
        nm = render(c[-1])
        role = None
        if op.op != "mkdir":
            contents.setdefault(nm, []).append(op)
        for x in op.content:
            role = content_role(x) or role
        if (nm, role) not in writers:
            writers.append((nm, role))


def content_role(x):
    if not has_results(x):
        return None
    if is_joined(x) or not counts_results(x):
        return "names"
    return "count" if count_value(x) is not None else "names"


def attr_defs(ctx, classes, pkgs):
    """{attribute of self: set of values} for the paths"""
    res = {}
    for c, f in methods_of(ctx, classes, pkgs):
        if f.is_async:
            continue
        if not any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                   for n in ast.walk(f.node)):
            continue
        self_t = ("obj", "self", c.qual)
        for o in run_file(ctx, c, f, pkgs):
            for e in o.st.trace:
                if e.kind != "setattr" or e.a[0] != self_t:
                    continue
                v = strip_uid(e.a[2])
                if v[0] in ("const", "phi"):
                    continue
                s = res.setdefault(e.a[1], [])
                if v not in s and len(s) < 12 and not contains_if(
                    v, lambda x: x[0] == "attr" and x[1] == self_t
                    and x[2] == e.a[1]
                ):
                    s.append(v)
    return res


def resolve_path(t, defs, depth=4, prefix=False):
    """replace the attributes of self by their definitions"""
    res = [norm(strip_uid(t))]
    for _ in range(depth):
        out = []
        for x in res:
            b, c = split_path(x)
            at = next(
                (y for y in walk(b) if y[0] == "attr" and y[1][0] == "obj"
                 and y[2] in defs), None)
            if at is None:
                out.append(x)
                continue
            if not prefix and len(c) >= 2:
                out.append(x)
                continue
            for v in defs[at[2]]:
                nx = norm(subst(x, {at: v}))
                if nx not in out:
                    out.append(nx)
        if out == res:
            break
        res = out[:40]
    return res


def check_readers(ctx, f, o, defs, writers, roles, seen, parsed, who):
    tr = o.st.trace
    ops = [op for op in file_ops(tr) if op.op in ("read", "exists", "glob")]
    vals = None
    for op in ops:
        ts = resolve_path(op.path, defs)
        for t in ts:
            b, c = canon(t)
            last = c[-1] if c else b
            if not c and not contains_if(b, lambda x: x[0] == "call"
                                         and base_name(x[1]) in ("glob", "rglob")):
                continue
            nm = render(last)
            where = op.ev.func.short if op.ev.func else f.short
            if nm.startswith("<") and nm.endswith(">"):
                # element of a glob / of a list
                pats = [y for y in walk(last) if is_const(y)
                        and isinstance(y[1], str) and "*" in y[1]]
                if not pats:
                    continue
                nm = pats[-1][1]
            if "<" in nm and op.op == "exists":
                continue
            if "<" in nm and ">" in nm and "*" not in nm:
                m = [w for w, _ in writers if w == nm]
                # names with unknown parts: compared as patterns
                pat = "".join(
                    "*" if k % 2 else seg
                    for k, seg in enumerate(split_unknown(nm)))
                m = m or [w for w, _ in writers if fnmatch.fnmatch(
                    w.replace("<", "").replace(">", ""), pat)]
                if (op.op, nm, who) not in seen:
                    seen.add((op.op, nm, who))
                    ctx.check(bool(m), "E08.files", where, f"{op.op} {pat}",
                              f"{who}: reads {pat}, which is not written by the "
                              "executors", fmt_trace(tr[:op.idx + 1]), op.ev.line)
                continue
            if "*" in nm:
                m = {w for w, _ in writers if fnmatch.fnmatch(w, nm)}
            else:
                m = {w for w, _ in writers if w == nm}
            if (op.op, nm, who) not in seen:
                seen.add((op.op, nm, who))
                ctx.check(
                    bool(m), "E08.files", where, f"{op.op} {nm}",
                    f"{who}: uses {nm}, which no executor writes",
                    fmt_trace(tr[:op.idx + 1]), op.ev.line)
            for e in tr[op.idx:]:
                if e.kind == "call" and base_name(e.a[0]) == "strptime" and any(
                    contains(strip_uid(a), strip_uid(v))
                    for a in e.a[1] for v in op.content
                ):
                    parsed.add(nm)
            # roles
            role = role_of(tr, op, o)
            if role and m:
                good = roles.get(role, set())
                bad = sorted(x for x in m if x not in good and any(
                    x in roles.get(r, ()) for r in roles))
                miss = not (m & good)
                if who == "main":
                    # files of the processes
                    per = {x for x in good if str(IDX) in x}
                    miss = miss or not per <= m
                ctx.check(
                    not bad and not miss, "E08.roles", where, f"{role} from {nm}",
                    f"{who}: the {'number' if role == 'count' else 'names'} of "
                    f"results are read from {nm} (files: {sorted(m)}) and written "
                    f"in {sorted(good)}", fmt_trace(tr[:op.idx + 1]), op.ev.line)


def split_unknown(nm):
    out, cur, d = [], "", 0
    for ch in nm:
        if ch == "<":
            if d == 0:
                out.append(cur)
                cur = ""
            d += 1
        elif ch == ">":
            d -= 1
            if d == 0:
                out.append(cur)
                cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


def role_of(tr, op, o):
    """what is done with the content of the file"""
    vals = [strip_uid(x) for x in op.content]
    if not vals:
        return None

    def has(t):
        t = strip_uid(t)
        return any(contains(t, v) for v in vals)

    for e in tr[op.idx:]:
        if e.kind in ("setitem", "setattr", "call"):
            for t in e.a:
                for x in walk(t):
                    if x[0] == "call" and x[1] == ("ext", "int") and has(x):
                        return "count"
            if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] in (
                "extend", "append"
            ) and any(has(a) for a in e.a[1]):
                return "names"
            if e.kind == "setattr" and e.a[1] == "results" and has(e.a[2]):
                return "names"
    return None


# ------------------------------------------------------- job directories
@register("E08")
def e08_child(ctx):
    ctx.rule("E08.child", "the sub-processes write their lists of results in the "
             "job directory of the main process", 1)
    p = ctx.p
    pkgs = ("fluidimage.executors",)
    classes = executor_classes(p)
    multis = [c for c in classes if is_multi(None, c)]
    childs = [c for c in classes if not is_multi(None, c)]
    rel = relevant_files(p, pkgs)
    # (_log_path, path_job_data) of the main process
    pairs = []
    for c in multis:
        names = {f.name for k in c.mro() for f in k.methods.values()}
        for n in sorted(names):
            f = c.find_method(n)
            if f is None or f.is_async or f.is_gen or n == "__init__" or not any(
                isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                and x.attr == "_log_path" for x in ast.walk(f.node)
            ):
                continue
            self_t = ("obj", "self", c.qual)
            I = Interp(p, FilePolicy(pkgs))
            for o in I.run(f, self_term=self_t):
                lp = o.st.heap.get((self_t, "_log_path"))
                pj = o.st.heap.get((self_t, "path_job_data"))
                if lp is not None and pj is not None:
                    pairs.append((("attr", self_t, "_log_path"), strip_uid(lp),
                                  strip_uid(pj)))
    # paths given to the sub-processes: {name of the argument: terms}
    given = {}
    for c, f in methods_of(ctx, multis, pkgs):
        if f.name == "__init__":
            continue
        for o in run_file(ctx, c, f):
            for e in o.st.trace:
                if e.kind == "setattr" and "kwargs" in show(e.a[0]):
                    add_given(given, e.a[1], e.a[2])
                for t in e.a:
                    if not isinstance(t, tuple):
                        continue
                    for x in walk(t):
                        if x[0] == "call" and base_name(x[1]) == "Process":
                            kw = dict(x[3])
                            tg, ar = kw.get("target"), kw.get("args")
                            if tg and ar and tg[0] == "bound" and ar[0] == "tuple":
                                fn = p.funcs_by_key[tg[2][1]]
                                given_by(ctx, c, fn, ar[1], given)
    for c, f in methods_of(ctx, childs, pkgs, rel):
        if f.name != "__init__":
            continue
        for o in run_file(ctx, c, f):
            for e in o.st.trace:
                if e.kind != "setattr" or e.a[1] != "path_job_data":
                    continue
                syms = {x for x in walk(e.a[2]) if x[0] == "sym"}
                for sy in syms:
                    for v in given.get(sy[1], ()):
                        child = strip_uid(subst(e.a[2], {sy: v}))
                        for at, lp, pj in pairs:
                            lps = {x for x in walk(child)
                                   if x[0] == "attr" and x[2] == at[2]}
                            cc = canon(subst(child, {x: lp for x in lps}))
                            ps = canon(pj)
                            if any(contains_if(x, opaque_name)
                                   for x in (cc[0],) + cc[1]):
                                ctx.maybe("E08.child", f.short, "job directory of "
                                          "the sub-process " + show(child))
                                continue
                            ctx.check(
                                cc == ps, "E08.child", f.short,
                                "job directory of the sub-process",
                                "the sub-process writes its results in "
                                + fmt_paths([cc]) + " and the main process reads "
                                + fmt_paths([ps]), fmt_trace(o.st.trace), e.line)


def fmt_paths(ps):
    return " or ".join(sorted(
        "/".join([show(b)] + [render(x) for x in k]) for b, k in ps))


def opaque_name(x):
    """a file name which has not been normalised"""
    return x[0] == "attr" and x[2] in ("name", "stem", "parent", "suffix")


def add_given(given, name, v):
    v = strip_uid(v)
    if v not in given.setdefault(name, []):
        given[name].append(v)


def given_by(ctx, c, fn, args, given):
    """values of the keyword arguments of the executor created by fn"""
    params = [a.arg for a in fn.node.args.args]
    if params and params[0] in ("self", "cls") and not fn.is_static:
        params = params[1:]
    vals = dict(zip(params, args))
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Name) and k.value.id in vals:
                    add_given(given, k.arg, vals[k.value.id])
            for k, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id in vals:
                    add_given(given, a.id, vals[a.id])


@register("E08")
def e08_final(ctx):
    ctx.rule("E08.final", "the names of the results are saved after the last work",
             2)
    p = ctx.p
    pkgs = ("fluidimage.executors",)
    savers, runners = set(), set()
    for c, f in methods_of(ctx, executor_classes(p), pkgs):
        if not f.is_async and f.name != "__init__" and any(
            new_results(t) is not None
            for o in run_file(ctx, c, f) for op in file_ops(o.st.trace)
            for x in op.content for t in walk(x)
        ):
            savers.add(f.key)
        if any(isinstance(n, ast.Attribute) and n.attr == "func_or_cls"
               for n in ast.walk(f.node)):
            runners.add(f.key)
    if not savers:
        raise AnalysisBroken("function which saves the names of results not found")
    for c in executor_classes(p):
        if is_multi(None, c) or not inits_log(c):
            continue
        f = c.find_method("compute")
        I = Interp(p, FinalPolicy(pkgs, savers, runners))
        outs = I.run(f, self_term=("obj", "self", c.qual))
        ctx.seen(I)
        for o in outs:
            if o.kind == "return":
                check_final(ctx, c, f, o, savers, runners)


def inits_log(c):
    """does the class set the files of results"""
    for k in c.mro():
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    g = c.find_method(n.func.attr)
                    if g is not None and any(
                        isinstance(x, ast.Attribute) and isinstance(
                            x.ctx, ast.Store) and x.attr == "_path_results"
                        for x in ast.walk(g.node)
                    ):
                        return True
    return False


class FinalPolicy(Policy):
    unroll = 1
    soft_states = 40

    def __init__(self, pkgs, savers, runners):
        self.pkgs = pkgs
        self.savers = savers
        self.runners = runners

    def should_inline(self, func, interp, st):
        return (
            any(func.module.name.startswith(k) for k in self.pkgs)
            and not func.is_async and not func.is_gen
            and func.key not in self.savers and func.key not in self.runners
        )

    def keep(self, ev):
        if ev.kind == "assume":
            return cond_final(ev.a[0])
        return ev.kind == "call" and (
            ev.a[0][0] == "bound" or ev.a[0] == ("ext", "trio.run")
            or ev.a[0][0] == "attr" and ev.a[0][1][0] == "obj")


def cond_final(t):
    return contains_if(
        t, lambda x: x[0] == "attr" and x[2] == "num_expected_results"
        or x[0] == "call" and x[1] == ("ext", "hasattr")
    ) or is_zero(t, True) or is_zero(t, False)


def is_zero(t, v):
    """does the assumption mean that a number is zero"""
    v = v not in (False, FALSE)
    s = show(t)
    if not ("num_expected" in s or s.startswith("(len(") or s.startswith("len(")):
        return False
    if s.startswith("("):
        if " == 0)" in s:
            return v
        if " != 0)" in s or " > 0)" in s:
            return not v
        return False
    return not v


def check_final(ctx, c, f, o, savers, runners):
    runs, saves = [], []
    for i, e in enumerate(o.st.trace):
        if e.kind == "assume":
            continue
        ft = e.a[0]
        key = None
        if ft[0] == "bound":
            key = ft[2][1]
        elif ft[0] == "attr":
            g = c.find_method(ft[2])
            key = g.key if g is not None else None
        if ft == ("ext", "trio.run") or key in runners:
            runs.append(i)
        elif key in savers:
            saves.append(i)
    if not runs:
        return
    # no list of results, or nothing to compute
    nums = {v for k, v in o.st.heap.items()
            if k[1] == "num_expected_results" and v is not None}
    for k, v in o.st.facts.items():
        s = show(k)
        if "hasattr" in s and "results" in s and v in (False, FALSE):
            return
        if is_zero(k, v):
            return
        if v in (False, FALSE) and (k in nums or any(
                is_len_of(x, lambda y: y == k) for x in nums)):
            return
    for e in o.st.trace:
        if e.kind == "assume":
            s = show(e.a[0])
            if "hasattr" in s and "results" in s and e.a[1] in (False, FALSE):
                return
            if is_zero(e.a[0], e.a[1]):
                return
    ctx.check(bool(saves) and max(saves) > max(runs), "E08.final",
              f"{c.module.rel}:{c.name}", "last saving of the names",
              f"{c.name}: the names of the results obtained after the last "
              "periodic saving are not saved at the end", fmt_trace(o.st.trace))


@register("E08")
def e08_merge(ctx):
    ctx.rule("E08.merge", "after a multi-process computation, the list of results "
             "is a new list filled with the lines of the files of all processes, "
             "before the final work", 1)
    p = ctx.p
    pkgs = ("fluidimage.executors",)
    multis = [c for c in executor_classes(p) if is_multi(None, c)]
    seen = False
    for c, f in methods_of(ctx, multis, pkgs):
        if not any(isinstance(n, ast.Attribute) and n.attr == "results"
                   for n in ast.walk(f.node)):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr in (
            "glob", "open", "read_text", "iterdir", "readlines") or isinstance(
                n, ast.Name) and n.id == "open" for n in ast.walk(f.node)):
            continue
        for o in run_file(ctx, c, f):
            if any(e.kind == "setattr" and e.a[1] == "results"
                   for e in o.st.trace) or any(
                       is_results(e.a[0][1]) for e in o.st.trace
                       if e.kind == "call" and e.a[0][0] == "attr"
                       and e.a[0][2] in ("extend", "append")):
                seen = True
                check_merge(ctx, c, f, o)
    if not seen:
        raise AnalysisBroken("results of the processes not gathered")


def check_merge(ctx, c, f, o):
    tr = list(o.st.trace)
    where = f.short
    path = fmt_trace(tr)
    sets = [(i, e.a[2]) for i, e in enumerate(tr)
            if e.kind == "setattr" and e.a[1] == "results"]
    fills = [
        (i, e) for i, e in enumerate(tr) if e.kind == "call"
        and e.a[0][0] == "attr" and e.a[0][2] in ("extend", "append") and e.a[1]
        and contains_if(e.a[1][0], lambda t: t[0] == "call" and t[1][0] == "attr"
                        and t[1][2] in ("readlines", "read", "read_text")
                        or t[0] == "call" and t[1] == ("ext", "open"))
    ]
    if not fills:
        # list given at once
        fills = [(i, None) for i, v in sets if contains_if(
            v, lambda t: t[0] == "call" and base_name(t[1]) in (
                "open", "read_text", "readlines", "read", "glob"))]
        if not fills:
            return
    ctx.check(bool(sets), "E08.merge", where, "new list",
              "the names of the results of the processes are added to the list "
              "of the main process without replacing it: the names already "
              "present are kept", path)
    for i, e in fills:
        if e is None:
            continue
        v = e.a[1][0]
        ok = contains_if(v, lambda t: t[0] == "call" and t[1][0] == "attr"
                         and t[1][2] in ("strip", "rstrip", "splitlines", "split",
                                         "removesuffix")
                         or t[0] == "item" and t[2][0] == "slice")
        ctx.check(ok, "E08.merge", where, "names without end of line",
                  "the names of the results of the processes contain the "
                  "character of end of line", path, e.line)
        ctx.check(not contains_if(v, lambda t: t[0] == "comp" and bool(t[4])
                                  and not blank_filter(t)),
                  "E08.merge", where, "all names",
                  "some of the names of the results of the processes are ignored",
                  path, e.line)
        tgt = e.a[0][1]
        okt = is_results(tgt) or any(tgt == s for _, s in sets)
        ctx.check(okt, "E08.merge", where, "list which is filled",
                  "the names of the results of the processes are not added to "
                  "the list of results of the topology", path, e.line)


def blank_filter(t):
    return all(contains_if(x, lambda y: y[0] == "elem") for x in t[4])


def expand_attrs(x, defs):
    """possible values of a term"""
    x = strip_uid(x)
    at = next((y for y in walk(x) if y[0] == "attr" and y[1][0] == "obj"
               and y[2] in defs), None)
    if at is None:
        return [x]
    return [subst(x, {at: v}) for v in defs[at[2]]]


def check_time(ctx, where, what, values):
    for v in values:
        calls = [x for x in walk(v) if x[0] == "call"
                 and base_name(x[1]) == "time_as_str"]
        if not calls:
            continue
        ok = all(not x[2] and not x[3] for x in calls) and len(calls) == 1
        if v[0] == "fstr":
            ok = ok and all(
                p[1] == calls[0] if p[0] == "fmt" else not str(p[1]).strip()
                for p in v[1])
        elif v != calls[0] and v[0] != "op":
            ok = False
        ctx.check(ok, "E08.info", where, f"format of {what}",
                  f"{what}: what is written ({show(v)}) is not a time in the format "
                  "read by the monitor")


def check_total(ctx, f, o):
    """numbers of results: sum over the processes of the numbers read"""

    def count(t):
        return t[0] == "call" and t[1] == ("ext", "int") and contains_if(
            t, lambda x: x[0] == "call" and base_name(x[1]) in (
                "read", "readline", "readlines", "read_text"))

    lists = set()
    for e in o.st.trace:
        if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "append" and (
            e.a[1]
        ) and contains_if(e.a[1][0], count):
            lists.add(strip_uid(e.a[0][1]))
            ctx.check(pure_count(e.a[1][0], count), "E08.total", f.short,
                      "number recorded", "the number of results of a process is "
                      "modified when it is recorded", line=e.line)
        if e.kind == "setitem" and contains_if(e.a[2], count):
            lists.add(strip_uid(e.a[0]))
            ctx.check(pure_count(e.a[2], count), "E08.total", f.short,
                      "number recorded", "the number of results of a process is not "
                      "the last number read in its file", line=e.line)
    if not lists:
        return
    for e in o.st.trace:
        vals = []
        if e.kind == "setattr" and "num_results" in e.a[1]:
            vals.append(e.a[2])
        if e.kind == "call" and e.a[0][0] == "attr" and e.a[0][2] == "update":
            vals += [v for k, v in e.a[3 - 1] if k == "completed"]
        for v in vals:
            if is_const(v) and e.kind == "setattr" and last_append(o, lists) < (
                list(o.st.trace).index(e)
            ):
                ctx.bad("E08.total", f.short, "total number of results",
                        "the total number of results does not depend on what is "
                        "read in the files", line=e.line)
            for x in walk(strip_uid(v)):
                if x[0] == "call" and x[1][0] == "ext" and len(x[2]) == 1 and (
                    x[2][0] in lists or any(
                        x[2][0] == ("call", ("attr", y, "values"), (), (), None)
                        for y in lists)
                ):
                    ctx.check(x[1][1] in ("sum", "numpy.sum"), "E08.total", f.short,
                              "total number of results",
                              f"the total number of results is {show(x)}",
                              line=e.line)


def last_append(o, lists):
    return max(i for i, e in enumerate(o.st.trace)
               if e.kind == "call" and e.a[0][0] == "attr"
               and strip_uid(e.a[0][1]) in lists
               or e.kind == "setitem" and strip_uid(e.a[0]) in lists)


def pure_count(v, count):
    v = strip_uid(v)
    return v[0] != "op" and (count(v) or v[0] in ("phi", "ifexp"))


def check_info(ctx, k, defs):
    """keys of the information on the job"""
    ctx.rule("E08.info", "the information on the job used by the monitor is "
             "recorded by the executors", 4)
    p = ctx.p
    keys = set()
    pkgs = ("fluidimage.executors",)
    for c, f in methods_of(ctx, executor_classes(p), pkgs):
        if not any(isinstance(n, ast.Attribute) and n.attr == "info_job"
                   for n in ast.walk(f.node)):
            continue
        for o in run_file(ctx, c, f):
            for e in o.st.trace:
                if e.kind == "setattr" and e.a[1] == "info_job":
                    its = o.st.heap.get((e.a[2], "#items"))
                    if its is None:
                        continue
                    keys |= {a[1] for a, _ in its if is_const(a)}
                    check_times(ctx, f, its, defs)
                if e.kind == "setitem" and e.a[0][0] == "attr" and (
                    e.a[0][2] == "info_job") and is_const(e.a[1]):
                    keys.add(e.a[1][1])
    if not keys:
        raise AnalysisBroken("information on the job not found")
    for f in k.methods.values():
        consts = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(
                n.value, ast.Attribute
            ) and n.value.attr == "info_job":
                s = n.slice
                if isinstance(s, ast.Constant):
                    ctx.check(s.value in keys, "E08.info", f.short,
                              f"key {s.value}",
                              f"the monitor uses info_job[{s.value!r}], which is "
                              f"not recorded (recorded: {sorted(keys)})",
                              line=n.lineno)
                elif isinstance(s, ast.Name):
                    for v in loop_values(f.node, s.id):
                        ctx.check(v in keys, "E08.info", f.short, f"key {v}",
                                  f"the monitor uses info_job[{v!r}], which is "
                                  "not recorded", line=n.lineno)
        # format of the times
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
                n.func.attr == "strptime" and len(n.args) == 2
            ) and isinstance(n.args[1], ast.Constant):
                ctx.check(n.args[1].value == "%Y-%m-%d_%H-%M-%S", "E08.info",
                          f.short, "format of the times",
                          f"times are written as YYYY-MM-DD_hh-mm-ss and read "
                          f"with {n.args[1].value!r}", line=n.lineno)


def check_times(ctx, f, its, defs):
    for a, v in its:
        if is_const(a) and a[1] == "time_start":
            check_time(ctx, f.short, "time_start", expand_attrs(v, defs))


def loop_values(fnode, name):
    """constants taken by a loop variable"""
    lists = {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.Tuple)):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    lists[t.id] = n.value
    res = []
    for n in ast.walk(fnode):
        its = []
        if isinstance(n, ast.For):
            its = [(n.target, n.iter)]
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            its = [(g.target, g.iter) for g in n.generators]
        for t, it in its:
            if isinstance(t, ast.Name) and t.id == name:
                if isinstance(it, ast.Name):
                    it = lists.get(it.id, it)
                if isinstance(it, (ast.List, ast.Tuple)):
                    res += [e.value for e in it.elts if isinstance(e, ast.Constant)]
    return res
