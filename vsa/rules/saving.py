"""T03: a result file is renamed to its final name once it is complete."""

import ast

from ..atomic import RENAMES, temporary_writer, writes_files
from ..framework import fmt_trace
from ..interp import Interp, Policy, State, TooManyStates
from ..terms import base_name, const, contains, is_const, show, walk
from ..topomodel import graphs, topology_classes
from . import register

IMAGE_WRITERS = {"imsave", "imsave_h5", "imwrite", "savez", "savez_compressed",
                 "savetxt", "tofile", "to_netcdf", "ImageH5File", "write_text",
                 "write_bytes", "to_file"}
UNIQUE = {"TemporaryDirectory", "mkdtemp", "mkstemp", "NamedTemporaryFile",
          "uuid4", "uuid1", "getpid"}
LISTS = {"iterdir", "glob", "rglob", "scandir", "listdir", "iglob", "walk"}
COPIES = {"copy", "copy2", "copyfile", "copytree", "write_bytes"}


def written_path(e):
    """path of the file written by a call (None: not a writing)"""
    fv, args, kw = e.a[0], e.a[1], dict(e.a[2])
    n = base_name(fv)
    if fv[0] == "func":
        return None
    if n in ("write_text", "write_bytes") and fv[0] == "attr":
        return fv[1]
    if n == "tofile" and args:
        return args[0]
    mode = args[1] if len(args) > 1 else kw.get("mode")
    path = args[0] if args else kw.get("path", kw.get("name", kw.get("file")))
    if n == "File" or n == "open" and fv[0] == "ext":
        if mode is None or not is_const(mode) or str(mode[1])[:1] not in "wax":
            return None
        return path
    if n == "open" and fv[0] == "attr":
        mode = args[0] if args else kw.get("mode")
        if mode is not None and is_const(mode) and str(mode[1])[:1] in "wax":
            return fv[1]
        return None
    if n in IMAGE_WRITERS and fv[0] == "ext":
        return path
    if n == "save" and fv[0] == "attr" and any(
            t[0] == "ext" and str(t[1]).startswith(("PIL", "numpy"))
            for t in walk(fv[1])):
        return path
    if n == "save" and fv[0] == "ext":
        return path
    return None


class SavePolicy(Policy):
    unroll = 1
    soft_states = 60
    max_states = 6000
    transparent_writers = False
    keep_out = ("_save_in_hdf5_object", "_save_as_uvmat", "_get_name",
                "get_name_piv", "get_name_bos", "get_name_preproc", "clear_data")

    def __init__(self, p, mods):
        self.p = p
        self.mods = mods

    def should_inline(self, func, interp, st):
        if func.name in self.keep_out:
            return False
        m = func.module.name
        return m.startswith("fluidimage.util") or m in self.mods or (
            func.is_contextmanager)

    def may_raise(self, fv, args, kwargs, st, node, interp):
        class E:
            a = (fv, tuple(args), tuple(kwargs.items()))
        if written_path(E) is not None or base_name(fv) in (
                "_save_in_hdf5_object", "_save_as_uvmat", "create_dataset"):
            return ("OSError",)
        return ()

    def enum_loop(self, it):
        t = it
        while t[0] == "call" and t[1][0] == "ext" and t[1][1] in (
                "sorted", "list", "tuple", "iter") and t[2]:
            t = t[2][0]
        if t[0] == "call" and base_name(t[1]) in LISTS:
            src = t[1][1] if t[1][0] == "attr" else (
                t[2][0] if t[2] else const("."))
            return [("tmpfile", src)]
        return None


def rename_of(e):
    """(source, destination) of a renaming"""
    fv, args = e.a[0], e.a[1]
    n = base_name(fv)
    if n not in RENAMES:
        return None
    if fv[0] == "attr" and fv[1][0] != "mod":
        if len(args) == 1:
            return fv[1], args[0]
        return None
    if len(args) == 2:
        return args[0], args[1]
    kw = dict(e.a[2])
    if "src" in kw and "dst" in kw:
        return kw["src"], kw["dst"]
    return None


def bare(t):
    """path without the conversions"""
    while t[0] == "call" and t[1][0] == "ext" and t[2] and base_name(t[1]) in (
            "str", "Path", "fspath", "abspath", "fsdecode", "PurePath") and \
            len(t[2]) == 1:
        t = t[2][0]
    return t


def enters(t):
    """unique temporary places in a path"""
    return [x for x in walk(t) if x[0] in ("enter", "call") and any(
        y[0] == "call" and base_name(y[1]) in UNIQUE for y in walk(x))]


def covers(src, path):
    """the file renamed is the file written"""
    src, path = bare(src), bare(path)
    if src == path:
        return True
    files = [x for x in walk(src) if x[0] == "tmpfile"]
    return any(contains(path, bare(x[1])) for x in files)


def entries(ctx):
    """functions saving the results"""
    p = ctx.p
    res = {}
    for c in topology_classes(p):
        for g in graphs(ctx, c):
            for w in g.works:
                if w.per_item and not w.outq and w.func[0] == "bound":
                    f = p.funcs_by_key[w.func[2][1]]
                    res.setdefault((f.key, c.qual), (f, c))
        f = c.find_method("final_seq_work")
        if f is not None and writes_files(p, f):
            res.setdefault((f.key, c.qual), (f, c))
    for mod in p.modules.values():
        if mod.name in ("fluidimage.data_objects.piv",
                        "fluidimage.data_objects.preproc"):
            for c in mod.classes.values():
                f = c.methods.get("save")
                if f is not None and writes_files(p, f):
                    res.setdefault((f.key, c.qual), (f, c))
    return list(res.values())


@register("T03")
def t03(ctx):
    p = ctx.p
    r1 = "T03.rename"
    ctx.rule(r1, "each file of results is written under another name (in a unique "
             "place of the same directory) and renamed once it is closed", 5)
    r2 = "T03.failed"
    ctx.rule(r2, "a failure during the writing gives no file under the final name", 3)
    done = set()
    for f, c in entries(ctx):
        key = (f.key, c.qual) if c is not None else f.key
        if f.key in done:
            continue
        done.add(f.key)
        I = Interp(p, SavePolicy(p, {k.module.name for k in c.mro()}))
        names = [a.arg for a in f.node.args.args][1:]
        args = {n: ("param", n) for n in names}
        for n, d in zip(names[::-1], f.node.args.defaults[::-1]):
            if not isinstance(d, ast.Constant) or d.value is not None:
                continue
        try:
            outs = I.run(f, args=args, self_term=("obj", "self", c.qual), st=State())
        except TooManyStates:
            ctx.maybe(r1, f.short, "too many paths")
            continue
        ctx.seen(I)
        ctx.functions.add(f.qual)
        for o in outs:
            judge(ctx, f, o, r1, r2)


def judge(ctx, f, o, r1, r2):
    tr = o.st.trace
    writes = []
    for i, e in enumerate(tr):
        if e.kind not in ("call", "call_raised"):
            continue
        if e.kind == "call_raised":
            class E:
                a = (e.a[0], e.a[1], ())
            continue
        path = written_path(e)
        if path is not None:
            writes.append((i, e, path))
    renames = [(i, e) + rename_of(e) for i, e in enumerate(tr)
               if e.kind == "call" and rename_of(e) is not None]
    failed = [i for i, e in enumerate(tr) if e.kind == "call_raised"]
    for i, e, path in writes:
        where = (e.func.short if getattr(e, "func", None) is not None and
                 hasattr(e.func, "short") else f.short)
        site = f"{base_name(e.a[0])} of {f.qual.rpartition('.')[0].rpartition('.')[2]}.{f.name}"
        mine = [(j, r, s, d) for j, r, s, d in renames if j > i and covers(s, path)]
        if failed and failed[-1] >= i:
            after = [x for x in mine if x[0] > failed[-1]]
            before = [x for x in mine if x[0] < failed[-1]]
            if after:
                ctx.bad(r2, where, site, "a file which is not completely written "
                        "gets the name of the result when its writing fails",
                        fmt_trace(tr), after[0][1].line)
            elif not before:
                ctx.ok(r2, where, site)
            continue
        if o.kind == "raise":
            continue
        closed = opened(tr, i, e)
        if not mine:
            ctx.bad(r1, where, site, f"{f.qual}: a result is written under its final "
                    f"name ({show(path)[:70]}): an interruption leaves an "
                    "incomplete file which is taken for a result",
                    fmt_trace(tr), e.line)
            continue
        j, r, s, d = mine[0]
        if closed is not None and (closed == -1 or closed > j):
            ctx.bad(r1, where, site, "the file is renamed before it is closed",
                    fmt_trace(tr), r.line)
            continue
        if bare(d) == bare(path):
            ctx.bad(r1, where, site, "the file is written under its final name",
                    fmt_trace(tr), e.line)
            continue
        tmp = enters(path)
        if tmp:
            local = any(y[0] == "call" and base_name(y[1]) in UNIQUE and (
                base_name(y[1]) in ("uuid4", "uuid1", "getpid")
                or any(k == "dir" for k, _ in y[3] or ()) or len(y[2]) >= 3)
                for x in tmp for y in walk(x))
            if not local:
                ctx.bad(r1, where, site, "the temporary file is not in the directory "
                        "of the result: it cannot be renamed in one step",
                        fmt_trace(tr), e.line)
                continue
            inside = [k for k, x in enumerate(tr) if k > i and x.kind == "with_exit"
                      and any(("enter", x.a[0]) == t for t in tmp)]
            if inside and inside[0] < j:
                ctx.bad(r1, where, site, "the temporary directory is deleted before "
                        "the file is renamed", fmt_trace(tr), r.line)
                continue
        else:
            final = bare(d)
            if not contains(path, final) and not any(
                    contains(path, x) for x in parts_of_name(final)):
                ctx.bad(r1, where, site, "the temporary name is the same for all "
                        "the results", fmt_trace(tr), e.line)
                continue
        ctx.ok(r1, where, site)


def parts_of_name(t):
    """unknown parts of a path"""
    return [x for x in walk(t) if x[0] in ("param", "attr", "call", "key", "elem")
            and not is_const(x)]


def opened(tr, i, e):
    """index of the event closing the file (-1: never), None if the writing is
    done by one call"""
    if base_name(e.a[0]) not in ("File", "open", "ImageH5File"):
        return None
    val = e.a[3]
    for k in range(i + 1, len(tr)):
        x = tr[k]
        if x.kind == "with_exit" and x.a[0] == val:
            return k
        if x.kind == "call" and x.a[0][0] == "attr" and x.a[0][2] == "close" and \
                x.a[0][1] in (val, ("enter", val)):
            return k
    return -1
