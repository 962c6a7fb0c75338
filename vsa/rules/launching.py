"""E07: graph of the processes when the first queue of a topology is split.

The method which starts the processes is interpreted on a small abstract
topology (three works, one of which reads several queues, and parts of several
sizes); at each start of a process, the graph which is reachable from what the
process receives is compared with the expected one.
"""

from ..interp import Interp, Policy, State
from ..project import AnalysisBroken
from ..terms import NONE, const, is_const, show, walk
from . import register
from .executors import is_multi, model
from .splitting import call_name

PARTS = (("key0", "key1"), ("key2",), ("key3", "key4"))


class LaunchGraphPolicy(Policy):
    max_states = 20000
    soft_states = 2000

    def __init__(self, scenario):
        self.s = scenario
        self.snapshots = []
        self.n = 0

    def keep(self, ev):
        return ev.kind not in ("enter", "exit")

    def fresh(self, like):
        self.n += 1
        return ("obj", f"copy{self.n} of {like[1]}", like[2])

    def on_compare(self, interp, op, a, b, st):
        if op in ("is", "is not", "==", "!="):
            refs = ("obj", "list", "tuple")
            if a[0] in refs and b[0] in refs or (
                a[0] in refs and b == NONE or b[0] in refs and a == NONE
            ):
                if op in ("==", "!=") and a != b:
                    return None
                return const((a == b) == (op in ("is", "==")))
        if op in ("in", "not in") and a[0] == "obj":
            items = interp.items_of(b, st)
            if items is not None and all(x[0] in ("obj", "list", "const")
                                         for x in items):
                return const((a in items) == (op == "in"))
        return None

    def on_call(self, interp, ft, args, kwargs, st, node):
        if ft in (("ext", "copy.copy"), ("ext", "copy.deepcopy")) and args:
            return self.copied(interp, args[0], ft[1].endswith("deepcopy"), st,
                               node)
        if ft[0] == "attr" and ft[2] in ("copy", "__copy__") and not args and (
            ft[1][0] == "obj"
        ):
            return self.copied(interp, ft[1], False, st, node)
        if ft[0] == "bound" and ft[2][1][3].split(".")[-1] in (
            "__copy__", "copy"
        ) and ft[1][0] == "obj":
            return self.copied(interp, ft[1], False, st, node)
        if ft == ("ext", "hasattr") and len(args) == 2 and (
            args[0] == self.s.topology and is_const(args[1])
        ):
            return [(const((args[0], args[1][1]) in st.heap), st)]
        if ft == ("ext", "isinstance") and len(args) == 2:
            kinds = args[1][1] if args[1][0] == "tuple" else (args[1],)
            if args[0][0] == "obj":
                r = [self.is_instance(interp, args[0], k) for k in kinds]
            else:
                tag = {"list": "list", "tuple": "tuple", "dict": "dict"}.get(
                    args[0][0])
                if args[0] == NONE:
                    tag = "NoneType"
                if tag is None:
                    return None
                r = [k[0] == "ext" and k[1] == tag for k in kinds]
            if None not in r:
                return [(const(any(r)), st)]
        if call_name(("call", ft)) == "split_list" and ft[0] in (
            "func", "bound", "attr"
        ):
            self.s.split = True
            return [(("tuple", tuple(
                ("tuple", tuple(const(k) for k in part)) for part in PARTS
            )), st)]
        if ft[0] == "attr" and ft[1][0] == "obj" and (
            ft[1] in self.s.queues or ft[1][1].startswith("copy")
        ):
            return self.queue_method(interp, ft, args, kwargs, st, node)
        if ft[0] == "attr" and ft[2] == "start" or ft == (
            "ext", "subprocess.Popen"
        ):
            self.snapshots.append((self.started(ft, args, kwargs, st), node,
                                   st.copy()))
        return None

    def is_instance(self, interp, obj, kind):
        cls = interp.class_of(obj, State())
        if cls is None:
            return None
        names = set()
        for c in cls.mro():
            names.add(("class", c.qual))
            for b in c.node.bases:
                names.add(getattr(b, "id", getattr(b, "attr", "")))
        if kind[0] == "class":
            return any(("class", k) in names for k in kind[1:])
        if kind[0] == "ext":
            return kind[1].split(".")[-1] in names or (
                kind[1] == "dict" and "OrderedDict" in names)
        return None

    # -- copies ----------------------------------------------------------
    def copied(self, interp, x, deep, st, node, memo=None):
        v = self._copy(interp, x, deep, st, node, {} if memo is None else memo)
        return None if v is None else [(v, st)]

    def _copy(self, interp, x, deep, st, node, memo):
        if x in memo:
            return memo[x]
        if x[0] == "obj":
            new = memo[x] = self.fresh(x)
            for (b, k), v in list(st.heap.items()):
                if b == x:
                    if deep:
                        v = self._copy(interp, v, deep, st, node, memo)
                    st.heap[(new, k)] = v
            return new
        if x[0] == "list":
            items = st.heap.get((x, "#items"))
            self.n += 1
            new = memo[x] = ("list", ("copy", self.n))
            if items is not None and deep:
                items = tuple(self._copy(interp, v, deep, st, node, memo)
                              for v in items)
            st.heap[(new, "#items")] = items
            return new
        if x[0] == "tuple" and deep:
            return ("tuple", tuple(self._copy(interp, v, deep, st, node, memo)
                                   for v in x[1]))
        return x

    # -- queues ----------------------------------------------------------
    def content(self, q, st):
        return {k[1]: v for (b, k), v in st.heap.items()
                if b == q and isinstance(k, tuple) and k[0] == "item"}

    def queue_method(self, interp, ft, args, kwargs, st, node):
        q, name = ft[1], ft[2]
        if name == "clear":
            for k in self.content(q, st):
                st.heap.pop((q, ("item", k)), None)
            return [(NONE, st)]
        if name == "update" and len(args) == 1:
            a = args[0]
            pairs = None
            if a[0] == "dict":
                pairs = st.heap.get((a, "#items"))
            elif a[0] == "cdict":
                pairs = a[1]
            elif a[0] == "obj":
                pairs = tuple(self.content(a, st).items())
            else:
                items = interp.enum_items(a, st)
                if items is not None and all(
                    i[0] == "tuple" and len(i[1]) == 2 for i in items
                ):
                    pairs = tuple(i[1] for i in items)
            if pairs is None:
                self.s.unknown.append((node, "update of a queue"))
                return None
            for k, v in pairs:
                st.heap[(q, ("item", k))] = v
            return [(NONE, st)]
        return None

    # -- processes -------------------------------------------------------
    def started(self, ft, args, kwargs, st):
        """topologies given to the process which is started"""
        roots = set()
        for t in (ft,) + tuple(args) + tuple(kwargs.values()):
            for y in walk(t):
                if y[0] == "obj" and (y, "works") in st.heap:
                    roots.add(y)
        # executors or tasks which hold a topology
        if not roots:
            for t in (ft,) + tuple(args) + tuple(kwargs.values()):
                for y in walk(t):
                    if y[0] == "obj" and y != self.s.self_t:
                        for (b, k), v in st.heap.items():
                            if b == y and v[0] == "obj" and (
                                v, "works") in st.heap:
                                roots.add(v)
        return roots


class Scenario:
    def __init__(self, m, c):
        p = m.p
        self.unknown = []
        self.split = False
        topo = p.find_class("TopologyBase", "topologies.base").qual
        work = p.find_class("Work", "topologies.base").qual
        queue = p.find_class("Queue", "topologies.base").qual
        self.self_t = ("obj", "self", c.qual)
        self.topology = ("obj", "topology", topo)
        self.q0 = ("obj", "queue0", queue)
        self.q1 = ("obj", "queue1", queue)
        self.q2 = ("obj", "queue2", queue)
        self.first = ("obj", "first_queue", queue)
        self.queues = (self.q0, self.q1, self.q2, self.first)
        w = [("obj", f"work{i}", work) for i in range(4)]
        wl = ("list", ("scenario", "works"))
        ql = ("list", ("scenario", "queues"))
        st = self.st = State()
        h = st.heap
        h[(self.self_t, "topology")] = self.topology
        h[(self.self_t, "_first_queue")] = self.first
        h[(self.topology, "works")] = wl
        h[(self.topology, "queues")] = ql
        h[(wl, "#items")] = tuple(w)
        h[(ql, "#items")] = (self.q0, self.q1, self.q2)
        for i, (a, b) in enumerate((
            (NONE, self.q0), (self.q0, self.q1),
            (("tuple", (self.q1, self.q0)), self.q2), (self.q2, NONE),
        )):
            h[(w[i], "name")] = const(f"work{i}")
            h[(w[i], "input_queue")] = a
            h[(w[i], "output_queue")] = b
        for part in PARTS:
            for k in part:
                h[(self.first, ("item", const(k)))] = ("sym", f"item of {k}")
                h[(self.q0, ("item", const(k)))] = ("sym", f"item of {k}")


def queues_of(t, st, interp):
    items = interp.items_of(t, st)
    return (t,) if items is None else items


@register("E07")
def e07_graph(ctx):
    ctx.rule("E07.graph", "when the first queue is split, the works of each "
             "process read a queue which contains exactly the items of its part, "
             "and this queue is known by its topology", 2)
    m = model(ctx)
    for c in m.classes:
        if not is_multi(m, c):
            continue
        f = c.find_method("_start_processes")
        if f is None:
            raise AnalysisBroken(f"{c.name}: no method _start_processes")
        s = Scenario(m, c)
        pol = LaunchGraphPolicy(s)
        I = Interp(m.p, pol)
        outs = I.run(f, self_term=s.self_t, st=s.st)
        ctx.seen(I)
        if not s.split:
            continue
        for node, why in s.unknown:
            ctx.maybe("E07.graph", f.short, f"line {node.lineno}: {why}")
        if s.unknown:
            continue
        if not pol.snapshots:
            ctx.maybe("E07.graph", f.short, "no process is started")
            continue
        wanted = {frozenset(const(k) for k in part): n
                  for n, part in enumerate(PARTS)}
        seen = set()
        for roots, node, st in pol.snapshots:
            if len(roots) != 1:
                ctx.maybe("E07.graph", f.short, f"line {node.lineno}: topology "
                          "of the process not found")
                seen = None
                break
            (topo,) = roots
            n = check_graph(ctx, I, pol, f, s, topo, st, node, wanted)
            if n is None:
                seen = None
                break
            seen.add(n)
        if seen is None:
            continue
        for n in range(len(PARTS)):
            ctx.check(n in seen, "E07.graph", f.short, f"part {n}",
                      "no process reads the items of a part (the processes get "
                      "the parts " + str(sorted(x for x in seen if x >= 0)) + ")",
                      line=pol.snapshots[0][1].lineno)


def check_graph(ctx, I, pol, f, s, topo, st, node, wanted):
    """number of the part read by the works of topo (-1: none of them)"""
    works = I.items_of(st.heap[(topo, "works")], st)
    queues = I.items_of(st.heap.get((topo, "queues"), NONE), st)
    if works is None or queues is None:
        ctx.maybe("E07.graph", f.short, "works or queues of a process")
        return None
    by_name = {}
    for w in works:
        nm = st.heap.get((w, "name"), NONE)
        by_name[nm[1] if is_const(nm) else show(w)] = w
    ctx.check(sorted(by_name) == ["work1", "work2", "work3"], "E07.graph",
              f.short, "works", "the works of a process are not the ones of the "
              f"topology without the first one: {sorted(by_name)}",
              line=node.lineno)
    if not {"work1", "work2", "work3"} <= set(by_name):
        return -1
    io = {n: (queues_of(st.heap[(w, "input_queue")], st, I),
              queues_of(st.heap[(w, "output_queue")], st, I))
          for n, w in by_name.items()}
    ins = (io["work1"][0], io["work2"][0])
    if len(ins[0]) == 1 and len(ins[1]) < 2:
        ctx.bad("E07.graph", f.short, "lost queue", "a work with several input "
                "queues does not read all its queues in a process",
                line=node.lineno)
        return -1
    if [len(x) for x in ins] != [1, 2]:
        ctx.maybe("E07.graph", f.short, "queues of a work")
        return None
    q = ins[0][0]
    ctx.check(ins[1][1] == q, "E07.graph", f.short, "several queues",
              "a work with several input queues does not read the first queue "
              "of its process", line=node.lineno)
    ctx.check(ins[1][0] == io["work1"][1][0] and io["work2"][1] == io["work3"][0],
              "E07.graph", f.short, "other queues", "the works of a process are "
              "not connected any more", line=node.lineno)
    ctx.check(q in queues and all(x in queues for x in (
        io["work1"][1][0], io["work2"][1][0])),
              "E07.graph", f.short, "queues", "the topology of a process does "
              "not know a queue read by its works", line=node.lineno)
    got = pol.content(q, st)
    n = wanted.get(frozenset(got), -1)
    ctx.check(n >= 0, "E07.graph", f.short, "items",
              "the works of a process do not read exactly the items of one part: "
              + (", ".join(sorted(show(k) for k in got)) or "nothing"),
              line=node.lineno)
    for k, v in got.items():
        ctx.check(v == ("sym", f"item of {k[1]}"), "E07.graph", f.short,
                  "item of a key", f"the process gets {show(v)} under {show(k)}",
                  line=node.lineno)
    return n
