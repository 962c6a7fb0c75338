"""L01: what is logged is what the reader of the logs gets."""

import ast

from ..interp import Interp, Policy, State, TooManyStates, const, is_const
from ..project import AnalysisBroken, FuncInfo
from ..strings import AMBIG, StringPolicyMixin, hole, hole_of, make, parts_of
from ..terms import mk_fstr
from . import register

# constants of fluiddyn.util.terminal_colors
COLORS = {"HEADER": "\033[95m", "OKBLUE": "\033[94m", "OKGREEN": "\033[92m",
          "WARNING": "\033[93m", "FAIL": "\033[91m", "ENDC": "\033[0m"}
LINES = ("sym", "lines of the log")
WRITES = {"write", "writelines", "print"}


def called_names(node):
    res = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                res.add(n.func.attr)
            elif isinstance(n.func, ast.Name):
                res.add(n.func.id)
    return res


def writer_functions(p):
    """helpers through which the lines of the logs are written"""
    funcs = [f for f in p.all_funcs()
             if ".executors" in f.module.name or ".util" in f.module.name]
    names = {}
    for f in funcs:
        names.setdefault(f.name, []).append(f)
    calls = {f: called_names(f.node) for f in funcs}
    texts = {f for f in funcs if "get_memory_usage" in calls[f]
             or "psutil" in ast.dump(f.node) and "memory" in f.name}
    res = set(texts)
    for f in funcs:
        if calls[f] & WRITES and "log" in ast.dump(f.node).lower():
            res.add(f)
    changed = True
    while changed:
        changed = False
        good = {f.name for f in res}
        for f in funcs:
            if f not in res and calls[f] & good:
                res.add(f)
                changed = True
    return res


class WritePolicy(Policy):
    """only the functions which take part in the writing are entered"""
    unroll = 1
    max_states = 6000

    def __init__(self, p, helpers):
        self.p = p
        self.helpers = helpers
        self.found = set()

    def on_call(self, I, fv, args, kwargs, st, node):
        line = None
        if fv[0] == "attr" and fv[2] == "write" and len(args) == 1:
            line = args[0]
        elif fv == ("ext", "print") and ("file" not in kwargs or
                                         "log" in str(kwargs["file"])):
            parts = []
            values = []
            for x in args:
                if x[0] == "star":
                    items = I.items_of(x[1], st)
                    if items is None:
                        return None
                    values += list(items)
                else:
                    values.append(x)
            for j, x in enumerate(values):
                if j:
                    parts.append(kwargs.get("sep", const(" ")))
                parts.append(("fmt", x, "", -1))
            parts.append(kwargs.get("end", const("\n")))
            line = mk_fstr(tuple(parts))
        if line is not None:
            before = st.heap.get((LINES, "#lines"), ())
            if len(before) < 12:
                st.heap[(LINES, "#lines")] = before + (line,)
                self.found.add(before + (line,))
        return None

    def should_inline(self, func, interp, st):
        return func in self.helpers or ".util" in func.module.name and \
            func.name in ("cstring", "get_txt_memory_usage", "str_short")


def color_of(p, t):
    """text of a color"""
    if t[0] == "item" and is_const(t[2]) and t[1][0] == "glob":
        mod = p.modules.get(t[1][1])
        node = mod.globals.get(t[1][2]) if mod is not None else None
        if isinstance(node, list):
            node = node[-1] if node else None
        if isinstance(node, (ast.Assign, ast.AnnAssign)):
            node = node.value
        if isinstance(node, ast.Dict):
            for k, v in zip(node.keys, node.values):
                if isinstance(k, ast.Constant) and k.value == t[2][1]:
                    if isinstance(v, ast.Constant):
                        return v.value
                    if isinstance(v, ast.Attribute):
                        return COLORS.get(v.attr)
        return COLORS.get(t[2][1])
    if t[0] == "ext" and t[1].rpartition(".")[2] in COLORS:
        return COLORS[t[1].rpartition(".")[2]]
    if t[0] == "attr" and t[2] in COLORS and "color" in str(t[1]):
        return COLORS[t[2]]
    return None


def is_time(t):
    return t[0] == "call" and t[1] in (
        ("ext", "time.time"), ("ext", "time.perf_counter"),
        ("ext", "time.monotonic"))


def name_kind(p):
    """whether the names without space are without space"""
    if not hasattr(p, "_name_kind"):
        p._name_kind = "word"
        for mod in p.modules.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Attribute) and
                        t.attr == "name_no_space" for t in n.targets) and \
                        isinstance(n.value, (ast.Name, ast.Attribute,
                                             ast.Constant)):
                    p._name_kind = "any"
    return p._name_kind


def template(p, t, other=None):
    """parts of the text of a line, with the unknown parts by role"""
    if is_const(t):
        return [const(str(t[1]))]
    if t[0] != "fstr":
        return template(p, ("fstr", (("fmt", t, "", -1),)), other)
    res = []
    for x in t[1]:
        if x[0] == "const":
            res.append(x)
            continue
        if x[0] != "fmt":
            return None
        v, spec = x[1], x[2]
        c = color_of(p, v)
        if c is not None:
            res.append(const(c))
        elif v[0] == "call" and v[1][0] == "attr" and v[1][2] in (
                "ljust", "rjust", "center"):
            inner = template(p, v[1][1], other)
            if inner is None:
                return None
            if v[1][2] != "ljust":
                res.append(hole("pad", "pad"))
            res += inner
            if v[1][2] != "rjust":
                res.append(hole("pad", "pad"))
        elif v[0] == "attr" and v[2] == "name_no_space":
            res.append(hole(name_kind(p), "NAME"))
        elif v[0] == "attr" and v[2] in ("__module__", "__name__",
                                         "__qualname__"):
            res.append(hole("word", ("KEY", v)))
        elif v[0] == "attr" and v[2] == "name" or (
                v[0] == "sym" and v[1] in ("work_name",)):
            res.append(hole("any", "NAME"))
        elif v[0] == "op" and v[1] == "-" and is_time(v[2]) and \
                v[3][0] == "attr" and v[3][2] == "t_start":
            res.append(hole("num", "TIME"))
        elif v[0] == "op" and v[1] == "-" and is_time(v[2]) and is_time(v[3]):
            res.append(hole("num", "DURATION"))
        elif v[0] == "call" and "memory_usage" in str(v[1]):
            res.append(hole("num", "MEM"))
        elif v[0] == "call" and v[1][0] == "ext" and v[1][1].endswith(
                "time_as_str"):
            n = v[2][0][1] if v[2] and is_const(v[2][0]) else dict(v[3]).get(
                "decimal", const(0))[1] if not v[2] else None
            res.append(hole("date", "DATE"))
            if isinstance(n, int) and n > 0:
                res.append(hole(f"fix{n + 1}", "FRAC"))
        elif spec[-1:] in ("f", "e", "g", "d") and spec or (
                v[0] in ("attr", "glob", "ext") and str(v[-1]).rpartition(".")[2]
                .startswith(("nb_", "num_"))):
            res.append(hole("num", ("VALUE", v)))
        else:
            res.append(hole("any", ("KEY", v)))
    return parts_of(make(res))


def lines_written(p, f, helpers):
    """texts written by a function: sequences of lines (also those written by
    the functions defined inside), with all their beginnings"""
    res = set()
    self_t = ("obj", "self", f.cls.qual) if f.cls is not None else None
    nested = [n for n in ast.walk(f.node) if n is not f.node and isinstance(
        n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    for node in [f.node] + nested:
        pol = WritePolicy(p, helpers)
        I = Interp(p, pol)
        a = node.args
        args = {x.arg: ("sym", x.arg) for x in a.posonlyargs + a.args +
                a.kwonlyargs if x.arg not in ("self", "cls")}
        if node is f.node:
            if f.cls is None or not nested:
                pass
            I.run(f, args=args, self_term=self_t, st=State())
        else:
            st = State()
            st.env["outer"] = {"self": self_t or ("sym", "self")}
            g = FuncInfo(node, f.module, None, f)
            g.owner_cls = f.cls
            I.call_function(g, "outer", (), args, st, node)
        res |= pol.found
    return res


def whole_lines(p, lines):
    """templates of the lines of the file: what is written between two ends of
    lines"""
    res = []
    cur = []
    for t in lines:
        parts = template(p, t)
        if parts is None:
            cur.append(hole("any", "unknown"))
            continue
        for x in parts:
            if x[0] != "const":
                cur.append(x)
                continue
            for piece in x[1].splitlines(True):
                cur.append(const(piece))
                if piece.endswith("\n"):
                    res.append(parts_of(make(cur)))
                    cur = []
    if cur:
        res.append(parts_of(make(cur)))
    return [x for x in res if x]


def roles(parts):
    return [x[1][2] for x in parts if x[0] == "fmt"]


def kind_of(parts):
    """launch or end of a work, from the values written"""
    rs = roles(parts)
    if "TIME" in rs and "MEM" in rs:
        return "launch"
    if "NAME" in rs and "DURATION" in rs and "MEM" not in rs:
        return "done"
    if "NAME" in rs and "TIME" in rs:
        return "done"
    return None


class ReadPolicy(StringPolicyMixin, Policy):
    max_states = 3000

    def __init__(self, lines):
        self.lines = lines
        self.read = False

    def should_inline(self, func, interp, st):
        return ".topologies.log" in func.module.name

    def enum_loop(self, it):
        n = 0
        enum = None
        while it[0] == "call" and it[1][0] == "ext" and it[1][1] in (
                "enumerate", "iter", "list", "tuple") and it[2]:
            if it[1][1] == "enumerate":
                enum = it[2][1] if len(it[2]) > 1 else dict(it[3]).get(
                    "start", const(0))
            it = it[2][0]
            n += 1
        if not self.is_file(it):
            return None
        self.read = True
        if enum is None:
            return list(self.lines)
        if not is_const(enum):
            return None
        return [("tuple", (const(i + enum[1]), x))
                for i, x in enumerate(self.lines)]

    def is_file(self, t):
        if t[0] == "call":
            if t[1] in (("ext", "open"), ("ext", "io.open")):
                return True
            if t[1][0] == "attr" and t[1][2] in ("open", "__enter__"):
                return True
            if t[1][0] == "attr" and t[1][2] in ("readlines", "splitlines"):
                return self.is_file(t[1][1])
            if t[1][0] == "attr" and t[1][2] in ("read", "read_text"):
                return True
        return t[0] in ("enter", "with") and self.is_file(t[1])

    def on_call(self, I, fv, args, kwargs, st, node):
        return self.string_call(I, fv, args, kwargs, st, node)


def reader(p):
    mod = p.modules.get("fluidimage.topologies.log")
    if mod is None:
        raise AnalysisBroken("module fluidimage.topologies.log")
    for c in mod.classes.values():
        m = c.methods.get("__init__")
        if m is not None and any(
                isinstance(n, ast.Constant) and n.value == "mem usage" or
                isinstance(n, ast.Constant) and isinstance(n.value, str)
                and "mem usage" in n.value for n in ast.walk(c.node)):
            return m
    raise AnalysisBroken("reader of the log files")


def read(p, lines):
    """paths of the reader for a file with these lines"""
    m = reader(p)
    pol = ReadPolicy(lines)
    I = Interp(p, pol)
    a = [x.arg for x in m.node.args.args][1:]
    self_t = ("obj", "self", m.cls.qual)
    outs = I.run(m, args={a[0]: ("sym", "path")}, self_term=self_t, st=State())
    return m, pol, self_t, outs


def items_of(o, t):
    """dictionaries of a list"""
    lst = o.st.heap.get((t, "#items"))
    if lst is None:
        return None
    res = []
    for x in lst:
        if x[0] == "dict":
            d = o.st.heap.get((x, "#items"))
        elif x[0] == "cdict":
            d = x[1]
        else:
            d = None
        res.append(None if d is None else {
            k[1]: v for k, v in d if is_const(k)})
    return res


def value(t):
    """role of a value read"""
    if t is None:
        return None
    if t[0] == "call" and t[1] in (("ext", "float"), ("ext", "int")) and t[2]:
        h = hole_of(t[2][0])
        if h is not None and (h[0] == "num"):
            return h[1]
        return ("float of", t[2][0])
    if is_const(t):
        return ("text", t[1])
    h = hole_of(t)
    return h[1] if h is not None else ("text", t)


def show(x):
    """readable value"""
    if x is None:
        return "nothing"
    if x == AMBIG or isinstance(x, tuple) and AMBIG in x:
        return "a part which depends on the spaces, parentheses... of the texts"
    if isinstance(x, tuple) and x[0] == "text":
        if isinstance(x[1], str):
            return repr(x[1])
        ps = parts_of(x[1])
        return "other text" if ps is None else "'" + "".join(
            q[1] if q[0] == "const" else "{" + show(q[1][2]) + "}"
            for q in ps) + "'"
    if isinstance(x, tuple) and x[0] == "float of":
        return "number from " + show(("text", x[1]) if x[1] != AMBIG else AMBIG)
    if isinstance(x, tuple):
        return str(x[0])
    return str(x)


def unresolved(o):
    return any("'hole'" in str(t) and t[0] != "either"
               for t in o.st.facts) or any(
        e.kind == "call" and "'hole'" in str(e.a[1]) and
        e.a[0][0] == "ext" and e.a[0][1].startswith("re.")
        for e in o.st.trace)


def key_text(parts):
    """expected value of the key: the text between the parentheses"""
    ks = [x for x in parts if x[0] == "fmt" and isinstance(x[1][2], tuple)
          and x[1][2][0] == "KEY"]
    if len(ks) == 1:
        return ks[0][1][2]
    if not ks:
        for x in parts:
            if x[0] == "const" and "(" in x[1] and ")" in x[1]:
                return ("text", x[1].partition("(")[2].rpartition(")")[0])
    return None


def line_text(f, parts):
    return "".join(x[1] if x[0] == "const" else "{" + show(x[1][2]) + "}"
                   for x in parts).replace("\033", "").strip()


@register("L01")
def l01_works(ctx):
    p = ctx.p
    r = "L01.works"
    ctx.rule(r, "for each function which launches works: the work, the key, the "
             "time, the memory and the duration found by the reader in the lines "
             "are the ones which were written", 8)
    helpers = writer_functions(p)
    done_funcs = 0
    funcs = [f for f in p.all_funcs() if ".executors" in f.module.name]
    calls = {f: called_names(f.node) for f in funcs}
    writers = {h.name for h in helpers} | WRITES
    table = {}

    def analyse(f):
        if f in table:
            return table[f]
        table[f] = None
        found = {}
        bad_order = None
        both = False
        try:
            paths = lines_written(p, f, helpers)
        except TooManyStates:
            ctx.maybe(r, f.short, "too many paths")
            return None
        for lines in paths:
            seq = []
            for parts in whole_lines(p, lines):
                k = kind_of(parts)
                if k is not None:
                    found[(k, tuple(parts))] = True
                    seq.append(k)
            n = 0
            for k in seq:
                n += 1 if k == "launch" else -1
                if n < 0:
                    n = 0
                    bad_order = "the end of a work is logged without its start"
            both |= "launch" in seq and "done" in seq
        if found:
            ctx.states += len(paths)
            table[f] = (found, bad_order, both)
        return table[f]

    for f in funcs:
        text = ast.dump(f.node)
        if ("name_no_space" in text or "'name'" in text) and calls[f] & writers:
            analyse(f)
    # helpers writing only one of the lines: their callers write both
    part = set()
    todo = [f for f in table if table[f]]
    while todo:
        f = todo.pop()
        if table[f][2] and not table[f][1]:
            continue
        users = [g for g in funcs if g is not f and f.name in calls[g]]
        for g in users:
            new = g not in table
            if new and analyse(g):
                todo.append(g)
        if any(table.get(g) for g in users):
            part.add(f)
    for f, res in table.items():
        if not res:
            continue
        found, bad_order, both = res
        ctx.functions.add(f.qual)
        done_funcs += 1
        launches = [k[1] for k in found if k[0] == "launch"]
        ends = [k[1] for k in found if k[0] == "done"]
        if f not in part:
            if bad_order:
                ctx.bad(r, f.short, "order of the lines", bad_order)
                continue
            if not launches:
                ctx.bad(r, f.short, "start of the works",
                        "the start of the works is not logged")
                continue
            if not ends:
                ctx.bad(r, f.short, "end of the works",
                        "the duration of the works is not logged")
                continue
            if not both:
                ctx.bad(r, f.short, "end of the works",
                        "the end of a work is never logged after its start")
                continue
        for a in launches:
            judge(ctx, r, f, "launch", a)
        for b in ends:
            judge(ctx, r, f, "done", b)
        if f in part:
            continue
        ka = {key_text(a) for a in launches}
        kb = {key_text(b) for b in ends}
        if not (kb <= ka):
            ctx.bad(r, f.short, "keys", "the key written at the end of a work is "
                    "not the one written at its start")
        else:
            ctx.ok(r, f.short, "same keys")
    if done_funcs < 4:
        ctx.maybe(r, "executors", f"lines written by {done_funcs} functions only")


def judge(ctx, r, f, kind, parts):
    p = ctx.p
    try:
        m, pol, self_t, outs = read(p, [make(list(parts))])
    except TooManyStates:
        ctx.maybe(r, f.short, "too many paths in the reader")
        return
    text = line_text(f, parts)
    ctx.functions.add(m.qual)
    if not pol.read:
        ctx.maybe(r, m.short, "the lines are not read by a loop over the file")
        return
    if not text or parts[-1][0] != "const" or not parts[-1][1].endswith("\n"):
        ctx.bad(r, f.short, f"end of the line ({kind})",
                "no end of line: the next line is lost")
        return
    rs = roles(parts)
    want_name = "NAME"
    key = key_text(parts)
    for o in outs:
        if o.kind == "raise":
            if not unresolved(o):
                ctx.bad(r, f.short, f"{kind}: error of the reader",
                        f"the reader fails for the line '{text}'")
                return
            continue
        works = items_of(o, o.st.heap.get((self_t, "works"), const(None)))
        ended = items_of(o, o.st.heap.get((self_t, "works_ended"), const(None)))
        if works is None or ended is None:
            ctx.maybe(r, m.short, "lists works and works_ended not understood")
            return
        if unresolved(o):
            ctx.maybe(r, m.short, f"'{text}': a condition is not understood")
            return
        mine, others = (works, ended) if kind == "launch" else (ended, works)
        if others:
            ctx.bad(r, f.short, f"{kind}: taken for another line",
                    f"the line '{text}' is read as the "
                    f"{'end' if kind == 'launch' else 'start'} of a work")
            return
        if len(mine) != 1 or mine[0] is None:
            if mine and mine[0] is None:
                ctx.maybe(r, m.short, "entries not understood")
            else:
                ctx.bad(r, f.short, f"{kind}: not read",
                        f"the line '{text}' is not recognised by the reader")
            return
        d = mine[0]
        want = {"name": want_name, "key": key}
        if kind == "launch":
            want.update(mem_start="MEM", time="TIME")
        else:
            want.update(duration="DURATION")
        for k, w in want.items():
            if k not in d:
                ctx.maybe(r, m.short, f"no entry {k}")
                return
            v = value(d[k])
            if v == w or (w is not None and w[0] == "text" and v is not None
                          and v[0] == "text" and v[1] == w[1]):
                continue
            ctx.bad(r, f.short, f"{kind}: {k}",
                    f"for the line '{text}', the {k} which is read is {show(v)}")
            return
    ctx.ok(r, f.short, f"{kind}: '{text}'")


def collapse(parts):
    """one hole for a value written in several parts (module and name)"""
    idx = [i for i, x in enumerate(parts) if x[0] == "fmt"]
    if len(idx) < 2:
        return parts
    i, j = idx[0], idx[-1]
    kind = "word" if all(
        x[1][1] in ("word", "num") if x[0] == "fmt" else not set(x[1]) & set(
            " \t\n()") for x in parts[i:j + 1]) else "any"
    return list(parts[:i]) + [hole(kind, ("KEY", tuple(
        x[1] for x in parts[i:j + 1])))] + list(parts[j + 1:])


@register("L01")
def l01_job(ctx):
    p = ctx.p
    r = "L01.job"
    ctx.rule(r, "the numbers of cores and workers, the names of the topology and "
             "executor, the memory and the dates at the beginning and at the end "
             "are read as they are written", 5)
    helpers = writer_functions(p)
    base = p.find_class("ExecutorBase")
    base = base[0] if isinstance(base, list) else base
    start, end, info = [], [], []
    for f in base.methods.values():
        if not called_names(f.node) & ({h.name for h in helpers} | WRITES):
            continue
        if "time_as_str" not in ast.dump(f.node):
            continue
        try:
            paths = lines_written(p, f, helpers)
        except TooManyStates:
            continue
        best = None
        for lines in paths:
            ts = whole_lines(p, lines)
            dated = [i for i, t in enumerate(ts) if "DATE" in roles(t)
                     and "MEM" in roles(t)]
            if dated and (best is None or len(ts) - dated[0] > len(best)):
                best = ts[dated[0]:]
        if best is None:
            continue
        ctx.functions.add(f.qual)
        if len(best) > 3:
            start.append((f, best[0]))
            info.append((f, best[1:]))
        else:
            end.append((f, best[0]))
    if not start or not end:
        ctx.maybe(r, base.name, "first and last lines of the job not found")
        return
    f = start[0][0]
    s, rest, e = start[0][1], [collapse(x) for x in info[0][1]], end[0][1]

    try:
        m, pol, self_t, outs = read(p, [make(list(x)) for x in [s] + rest + [e]])
    except TooManyStates:
        for x in rest:
            ctx.maybe(r, base.name, "too many paths in the reader")
        return
    if not pol.read:
        ctx.maybe(r, m.short, "the lines are not read by a loop over the file")
        return
    ctx.functions.add(m.qual)
    # expected attributes: last value of the line where it is written
    expected = {}
    for line in rest:
        words = "".join(x[1] for x in line if x[0] == "const")
        holes = [x[1][2] for x in line if x[0] == "fmt"]
        for attr, word in (("nb_cpus_allowed", "nb_cpus_allowed"),
                           ("nb_max_workers", "nb_max_workers"),
                           ("topology_name", "topology"),
                           ("executor_name", "executor")):
            if word in words and len(holes) == 1:
                expected[attr] = holes[0]
    for o in outs:
        if o.kind == "raise" and not unresolved(o):
            ctx.bad(r, m.short, "error", "the reader fails for a complete log")
            return
        if o.kind == "raise":
            continue

        def get(n):
            return o.st.heap.get((self_t, n))
        skip = unresolved(o)
        for attr, role in expected.items():
            v = get(attr)
            if v is None or v == const(None):
                if skip:
                    ctx.maybe(r, m.short, f"{attr} not understood")
                else:
                    ctx.bad(r, m.short, attr,
                            f"the line with {attr} is not recognised")
                continue
            if v[0] == "call" and v[1] in (("ext", "int"), ("ext", "float")):
                v = v[2][0]
            h = hole_of(v)
            if h is not None and h[1] == role:
                ctx.ok(r, m.short, attr)
            elif skip:
                ctx.maybe(r, m.short, f"{attr} not understood")
            else:
                ctx.bad(r, m.short, attr, f"the value read for {attr} is "
                        f"{show(value(v))}")
        for attr in ("mem_start", "mem_end"):
            v = get(attr)
            if v is None:
                if skip:
                    ctx.maybe(r, m.short, f"{attr} not understood")
                else:
                    ctx.bad(r, m.short, attr, f"{attr} is not read")
            elif value(v) == "MEM":
                ctx.ok(r, m.short, attr)
            else:
                ctx.bad(r, m.short, attr,
                        f"{attr} is {show(value(v))}")
        d = get("duration")
        if d is None:
            if skip:
                ctx.maybe(r, m.short, "duration not understood")
            else:
                ctx.bad(r, m.short, "duration", "the total duration is not read")
        elif d[0] == "op" and d[1] == "-" and "'DATE'" in str(d[2]) and \
                "'DATE'" in str(d[3]) and str(AMBIG) not in str(d):
            bad = [t for t in subterms(d) if t[0] == "call" and t[1] == (
                "ext", "time.strptime") and (
                    hole_of(t[2][0]) is None or hole_of(t[2][0])[1] != "DATE"
                    or t[2][1] != const("%Y-%m-%d_%H-%M-%S"))]
            frac = [t for t in subterms(d) if t[0] == "call" and t[1] == (
                "ext", "float") and (hole_of(t[2][0]) or (0, 0))[1] != "FRAC"]
            if bad or frac:
                ctx.bad(r, m.short, "duration", "the dates are not read with the "
                        "format with which they are written")
            else:
                ctx.ok(r, m.short, "duration")
        else:
            ctx.maybe(r, m.short, "duration not understood")


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)
