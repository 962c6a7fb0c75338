"""Effects of functions on the objects which exist before their call.

Abstract interpretation of the syntax trees (join of the branches, loops
executed twice): the value of an expression is a set of abstract locations it
may alias, with what it depends on.  Three groups of locations:

- "shared": what exists before the processing of an item: the work object, what
  its constructor stores, attributes of classes and global variables;
- "item": what is received as the item;
- fresh: what is created during the processing of the item.

Recorded: writes (in place or attribute) to shared and item locations, with the
locks held and the dependence of the written value, and reads of shared ones.
Nothing of fluidimage is executed.
"""

import ast

from .project import ClassInfo, FuncInfo

NOL = frozenset()

# attributes of arrays which are views
VIEW_ATTRS = {"T", "real", "imag", "flat", "mT", "data"}
VIEW_METHODS = {"ravel", "reshape", "view", "transpose", "squeeze", "swapaxes",
                "diagonal", "get", "setdefault", "pop", "popitem", "values",
                "items", "keys", "popleft", "__getitem__"}
CONFIG_ATTRS = {"shape", "ndim", "size", "dtype", "itemsize", "nbytes",
                "strides"}
MUTATORS = {"sort", "fill", "resize", "itemset", "put", "partition", "byteswap",
            "setfield", "setflags", "append", "extend", "insert", "remove",
            "clear", "update", "add", "discard", "pop", "popitem", "setdefault",
            "reverse", "appendleft", "popleft", "__setitem__", "__delitem__"}
CONTAINER_MUTATORS = {"append", "extend", "insert", "remove", "clear", "update",
                      "add", "discard", "pop", "popitem", "setdefault",
                      "reverse", "appendleft", "popleft"}
VIEW_FUNCS = {
    "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "ravel",
    "atleast_1d", "atleast_2d", "atleast_3d", "reshape", "transpose", "squeeze",
    "swapaxes", "moveaxis", "rollaxis", "broadcast_to", "expand_dims", "flip",
    "fliplr", "flipud", "rot90", "real", "imag", "asarray_chkfinite", "split",
    "array_split", "diagonal", "real_if_close", "require", "frombuffer",
    "sliding_window_view", "as_strided", "memoryview", "img_as_float",
    "img_as_ubyte", "img_as_uint", "img_as_float32", "squeeze",
}
# external functions which modify one of their arguments (position)
MUT_FUNCS = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0,
             "put_along_axis": 0, "shuffle": 0, "setattr": 0, "heappush": 0,
             "heapify": 0, "heappop": 0}
OUT_KW = {"out", "output", "dst", "distances", "indices"}
INPLACE_KW = {"inplace", "overwrite_x", "overwrite_input", "overwrite_a",
              "overwrite_b", "in_place"}
# number of inputs of ufuncs (the next positional argument is the output)
UFUNCS = dict.fromkeys((
    "add subtract multiply divide true_divide floor_divide power float_power "
    "mod remainder fmod arctan2 hypot maximum minimum fmax fmin logaddexp "
    "logical_and logical_or logical_xor bitwise_and bitwise_or bitwise_xor "
    "equal not_equal less less_equal greater greater_equal copysign heaviside "
    "left_shift right_shift matmul").split(), 2) | dict.fromkeys((
    "negative positive absolute abs fabs sign rint floor ceil trunc exp exp2 "
    "expm1 log log2 log10 log1p sqrt cbrt square reciprocal sin cos tan arcsin "
    "arccos arctan sinh cosh tanh arcsinh arccosh arctanh isnan isinf isfinite "
    "logical_not invert conj conjugate deg2rad rad2deg").split(), 1)
LOCKS = {"Lock", "RLock", "Semaphore", "BoundedSemaphore", "Condition",
         "CapacityLimiter"}
SCALAR_FUNCS = {"len", "int", "float", "bool", "str", "repr", "abs_", "ord",
                "isinstance", "hasattr", "issubclass", "callable", "round",
                "hash", "id", "type", "any", "all", "format"}
DEEP = {"deepcopy"}


class Root(int):
    """an interned root of locations (a number: the order of the sets of
    locations is the same for all runs)"""
    table = {}

    def __new__(cls, t):
        r = cls.table.get(t)
        if r is None:
            r = int.__new__(cls, len(cls.table))
            r.t = t
            cls.table[t] = r
        return r

    def __getitem__(self, i):
        return self.t[i]

    def __repr__(self):
        return repr(self.t[:2])


class V:
    """abstract value"""
    __slots__ = ("locs", "taint", "calls", "kind", "const", "esc")

    def __init__(self, locs=NOL, taint=NOL, calls=(), kind=NOL, const=None,
                 esc=None):
        self.locs = locs if isinstance(locs, frozenset) else frozenset(locs)
        self.taint = taint
        self.calls = tuple(calls)
        self.kind = kind if isinstance(kind, frozenset) else frozenset({kind})
        self.const = const
        self.esc = esc

    def __repr__(self):
        return f"V({set(self.locs)}, t={set(self.taint)}, {set(self.kind)}, {self.calls})"

    def key(self):
        return (self.locs, self.taint, self.kind, len(self.calls))


def join(a, b):
    if a is None:
        return b
    if b is None or a is b:
        return a
    calls = a.calls
    for c in b.calls:
        for i, d in enumerate(calls):
            if c is d or c[:2] == d[:2]:
                if c is not d and len(c) > 2 and c[0] in ("func", "extm") and \
                        isinstance(c[2], V) and isinstance(d[2], V) and \
                        not c[2].locs <= d[2].locs:
                    # same method of other objects
                    calls = calls[:i] + (
                        d[:2] + (join(d[2], c[2]),) + d[3:],) + calls[i + 1:]
                break
        else:
            calls = calls + (c,)
    return V(a.locs | b.locs, a.taint | b.taint, calls,
             a.kind | b.kind if (a.kind and b.kind) else (
                 a.kind | b.kind | {"?"}),
             a.const if a.const == b.const else None, a.esc or b.esc)


def joins(vs):
    r = None
    for v in vs:
        r = join(r, v)
    return r if r is not None else V()


class St:
    __slots__ = ("env", "heap", "locks", "dead")

    def __init__(self, env=None, heap=None, locks=NOL):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.locks = locks
        self.dead = False

    def copy(self):
        s = St(dict(self.env), dict(self.heap), self.locks)
        s.dead = self.dead
        return s


def jdict(a, b, heap=False):
    if a is b:
        return a
    r = dict(a)
    for k in {k for k, _ in a.items() ^ b.items()}:
        u, v = a.get(k), b.get(k)
        if u is not None and v is not None:
            r[k] = join(u, v)
        else:
            w = u if u is not None else v
            if heap:
                # absent on one side: the previous value is still possible
                w = join(w, V({(k[0][0], k[0][1] + (k[1],))}, kind=w.kind))
            r[k] = w
    return r


def jst(a, b):
    if a is None or a.dead:
        return b if b is not None else a
    if b is None or b.dead:
        return a
    return St(jdict(a.env, b.env), jdict(a.heap, b.heap, True),
              a.locks & b.locks)


class Ev:
    __slots__ = ("kind", "path", "func", "node", "locks", "taint", "what",
                 "guards", "seq", "stack", "hist")

    def __init__(self, kind, path, func, node, locks, taint, what, guards, seq,
                 stack, hist=False):
        self.kind = kind
        self.path = path
        self.func = func
        self.node = node
        self.locks = locks
        self.taint = taint
        self.what = what
        self.guards = guards
        self.seq = seq
        self.stack = stack
        self.hist = hist

    def __repr__(self):
        return (f"<{self.kind} {self.path} in {self.func and self.func.short} l."
                f"{getattr(self.node, 'lineno', 0)} {self.what} t={set(self.taint)}"
                f" locks={len(self.locks)} g={self.guards}>")


class Frame:
    def __init__(self, func, cls, module, closure=None):
        self.func = func
        self.cls = cls  # defining class (for super())
        self.module = module
        self.closure = closure
        self.ret = None
        self.yields = None
        self.breaks = []
        self.continues = []
        self.globals = set()
        self.returned = []
        self.excs = []


class Effects:
    MAXDEPTH = 22

    def __init__(self, project):
        self.p = project
        self.events = []
        self.types = {}    # location -> set of class quals
        self.group = {}    # root -> "shared"/"item"/"fresh"
        self.phase = "setup"
        self.stack = []    # functions
        self.sites = []    # call nodes
        self.guards = []   # lazy initialisations
        self.implicit = []
        self.seq = 0
        self.functions = set()
        self.n_calls = 0
        self.unknown = []
        self.shallow = {}
        self._cattr = {}
        self.memo = {}
        self.written_under = {}
        self.deferred = set()   # nodes which only load a reference

    # ------------------------------------------------------------------
    def grp(self, loc):
        return self.group.get(loc[0], "shared")

    def new_root(self, node, label):
        site = tuple((id(s)) for s in self.sites)
        fk = self.stack[-1].key if self.stack else None
        root = Root((label, self.phase, fk, getattr(node, "lineno", 0),
                     getattr(node, "col_offset", 0), site))
        g = {"setup": "shared", "item": "item", "call": "fresh"}[self.phase]
        self.group[root] = g
        return root

    def ev(self, kind, path, node, st, taint=NOL, what="", hist=False):
        if self.phase != "call":
            return
        self.seq += 1
        for t in self.implicit:
            taint = taint | t
        self.events.append(Ev(
            kind, path, self.stack[-1] if self.stack else None, node, st.locks,
            taint, what, tuple(self.guards), self.seq, tuple(self.stack), hist))

    # -- reading and writing of fields ---------------------------------
    @staticmethod
    def ext(loc, attr):
        path = loc[1]
        if attr == "[]" and path and path[-1] == "[]":
            return loc
        if len(path) >= 5:
            return loc
        return (loc[0], path + (attr,))

    def field(self, loc, attr, st, node=None, quiet=False):
        """value stored in a field"""
        key = (loc, attr)
        if not quiet and self.grp(loc) == "shared":
            self.ev("read", self.ext(loc, attr), node, st)
        v = st.heap.get(key)
        if v is not None:
            if not quiet:
                for l in v.locs:
                    if self.grp(l) == "shared" and l not in self.types and \
                            l != self.ext(loc, attr) and l[0][0] != "plan":
                        self.ev("read", l, node, st)
            return v
        if isinstance(attr, tuple) or isinstance(attr, int):
            v = st.heap.get((loc, "[]"))
            if v is not None:
                return v
        if loc in self.shallow:
            return joins(self.field(o, attr, st, node, True)
                         for o in self.shallow[loc])
        g = self.grp(loc)
        path = self.ext(loc, attr)
        taint = frozenset({"v"}) if g == "item" else NOL
        return V({path}, taint)

    def is_container(self, v):
        return bool(v.kind & {"seq", "map"})

    def store(self, v_base, attr, value, st, node, what, hist=False, weak=False):
        """value stored in a field of the objects v_base"""
        for loc in v_base.locs:
            path = self.ext(loc, attr)
            g = self.grp(loc)
            if g != "fresh":
                self.ev("write", path, node, st, value.taint, what, hist)
            val = value
            if not val.locs and not (val.kind <= {"num"} and val.kind):
                val = V({path}, val.taint, val.calls, val.kind, val.const)
                if "lock" in val.kind:
                    pass
            key = (loc, attr)
            if weak or len(v_base.locs) > 1:
                old = st.heap.get(key)
                if old is None and weak and attr == "[]":
                    st.heap[key] = val
                else:
                    st.heap[key] = join(old if old is not None else
                                        V({path}, kind=val.kind), val)
            else:
                st.heap[key] = val

    def mutate(self, v, node, st, taint, what, hist=False):
        """in place modification of an array or container"""
        for loc in v.locs:
            if self.grp(loc) != "fresh":
                self.ev("write", self.ext(loc, "[]"), node, st, taint, what,
                        hist)
                if st.locks:
                    for lk in st.locks:
                        self.written_under.setdefault(lk, set()).add(loc)

    def plan_read(self, v, node, st):
        for l in v.locs:
            if self.grp(l) == "shared":
                self.ev("read", l, node, st, what="plan")

    # -- entry points --------------------------------------------------
    def new_object(self, cls, node=None, label=None):
        root = self.new_root(node, ("obj", label or cls.name))
        loc = (root, ())
        self.types[loc] = {cls.qual}
        return V({loc}, kind="obj")

    def external(self, group, label, kind=NOL, taint=NOL):
        root = Root(("ext", label))
        self.group[root] = group
        return V({(root, ())}, taint, kind=kind)

    def call_method(self, obj, name, args, st, kwargs=None, node=None):
        res = None
        for loc in obj.locs:
            for q in self.types.get(loc, ()):
                m = self.p.classes_by_qual[q].find_method(name)
                if m is not None:
                    r = self.call_func(m, [obj] + list(args), kwargs or {}, st,
                                       node or m.node)
                    res = join(res, r)
        return res if res is not None else V()

    # -- calls ---------------------------------------------------------
    def bind(self, func, args, kwargs, st, node):
        a = func.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        rest = list(args)
        for n in names:
            if rest:
                env[n] = rest.pop(0)
        if a.vararg:
            if rest:
                v = joins(rest)
                r = self.new_root(node, "varargs")
                for i, x in enumerate(rest):
                    st.heap[((r, ()), i)] = x
                st.heap[((r, ()), "[]")] = v
                env[a.vararg.arg] = V({(r, ())}, v.taint, kind="seq")
            else:
                env[a.vararg.arg] = V(kind="seq")
        kw = dict(kwargs)
        star = kw.pop("**", None)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        if a.kwarg:
            r = self.new_root(node, "kwargs")
            for k, x in kw.items():
                st.heap[((r, ()), ("k", k))] = x
            allv = join(joins(kw.values()) if kw else None, star)
            st.heap[((r, ()), "[]")] = allv if allv is not None else V()
            env[a.kwarg.arg] = V({(r, ())}, self.all_taint((), kw), kind="map")
        # defaults
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                     if d is not None})
        fr = Frame(func, func.cls, func.module)
        for n, d in defs.items():
            if n not in env:
                env[n] = self.default(func, n, d, fr)
                if star is not None:
                    env[n] = join(env[n], star)
        for n in names + [x.arg for x in a.kwonlyargs]:
            env.setdefault(n, star or V())
        return env

    def default(self, func, n, d, fr):
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
            # evaluated once: shared between the calls
            root = Root(("default", func.key, n))
            self.group[root] = "shared"
            return V({(root, ())}, kind="seq" if isinstance(d, ast.List) else (
                "map" if isinstance(d, ast.Dict) else NOL))
        if isinstance(d, ast.Constant):
            return V(kind="num", const=d.value)
        return V()

    def call_func(self, func, args, kwargs, st, node, closure=None):
        if len(self.stack) > self.MAXDEPTH or self.stack.count(func) > 1:
            self.unknown.append((func, "recursion"))
            t = NOL
            for v in args:
                t |= v.taint
            return V(taint=t)
        self.n_calls += 1
        self.functions.add(func.qual)
        env = self.bind(func, args, kwargs, st, node)
        fr = Frame(func, func.cls, func.module, closure)
        sub = St(env, st.heap, st.locks)
        self.stack.append(func)
        self.sites.append(node)
        ng = len(self.guards)
        ni = len(self.implicit)
        try:
            if isinstance(func.node, ast.Lambda):
                fr.ret = self.expr(func.node.body, sub, fr)
                out = sub
            else:
                out = self.block(func.node.body, sub, fr)
                for s in fr.returned:
                    out = jst(out, s)
        finally:
            self.stack.pop()
            self.sites.pop()
            del self.guards[ng:]
            del self.implicit[ni:]
        if out is not None and not out.dead:
            st.heap = out.heap
        elif out is not None:
            # only exceptions
            st.heap = jdict(st.heap, out.heap, True)
        if fr.yields is not None:
            root = self.new_root(node, "gen")
            st.heap[((root, ()), "[]")] = fr.yields
            return V({(root, ())}, fr.yields.taint, kind="seq")
        return fr.ret if fr.ret is not None else V(kind="num")

    def instantiate(self, qual, args, kwargs, st, node):
        cls = self.p.classes_by_qual[qual]
        root = self.new_root(node, ("obj", cls.name))
        loc = (root, ())
        self.types[loc] = {qual}
        obj = V({loc}, joins(list(args) + list(kwargs.values())).taint,
                kind="obj")
        init = cls.find_method("__init__")
        if init is not None:
            self.call_func(init, [obj] + list(args), kwargs, st, node)
        else:
            # dataclass, namedtuple or external base
            fields = [s.target.id for s in cls.node.body
                      if isinstance(s, ast.AnnAssign)
                      and isinstance(s.target, ast.Name)]
            for n, v in zip(fields, args):
                st.heap[(loc, n)] = v
            for n, v in kwargs.items():
                st.heap[(loc, n)] = v
        return obj

    def call(self, f, args, kwargs, st, node, star=False):
        res = None
        called = False
        for c in f.calls:
            called = True
            k = c[0]
            if k == "func":
                a = list(args)
                if c[2] is not None:
                    a = [c[2]] + a
                r = self.call_func(c[1], a, kwargs, st, node,
                                   c[3] if len(c) > 3 else None)
            elif k == "class":
                r = self.instantiate(c[1], args, kwargs, st, node)
            elif k == "ext":
                r = self.call_ext(c[1], args, kwargs, st, node)
            elif k == "extm":
                r = self.call_extm(c[2], c[1], args, kwargs, st, node)
            elif k == "partial":
                kw = dict(c[4])
                kw.update(kwargs)
                r = self.call(c[2], list(c[3]) + list(args), kw, st, node)
            else:
                r = V()
            res = join(res, r)
        if not called or f.locs:
            # instances with __call__, unknown functions
            for loc in f.locs:
                for q in self.types.get(loc, ()):
                    m = self.p.classes_by_qual[q].find_method("__call__")
                    if m is not None:
                        called = True
                        res = join(res, self.call_func(
                            m, [V({loc})] + list(args), kwargs, st, node))
                for role in ("in", "out"):
                    b = st.heap.get((loc, ("plan", role)))
                    if b is not None:
                        called = True
                        if role == "in":
                            self.plan_read(b, node, st)
                        self.mutate(b, node, st, frozenset({"v"}),
                                    "call of an FFTW plan")
                        if role == "out":
                            res = join(res, b)
        if not called:
            self.unknown.append((self.stack[-1] if self.stack else None,
                                 ast.unparse(node)[:80]))
        if res is None:
            t = f.taint
            for v in list(args) + list(kwargs.values()):
                t |= v.taint
            res = V(taint=t)
        return res

    @staticmethod
    def all_taint(args, kwargs):
        t = NOL
        for v in list(args) + list(kwargs.values()):
            t |= v.taint
        return t

    def deep_taint(self, v, st):
        t = v.taint
        for loc in v.locs:
            if self.grp(loc) == "item":
                t |= {"v"}
            for (l, _), x in st.heap.items():
                if l == loc:
                    t |= x.taint
        return t

    def call_ext(self, name, args, kwargs, st, node):
        last = name.split(".")[-1]
        taint = self.all_taint(args, kwargs)
        for v in args:
            taint |= self.deep_taint(v, st)
        a0 = args[0] if args else V()
        for k in OUT_KW & set(kwargs):
            if last in ("print",):
                continue
            self.mutate(kwargs[k], node, st, taint, f"{last}({k}=...)")
        for k in INPLACE_KW & set(kwargs):
            if kwargs[k].const is not False and kwargs[k].const is not None \
                    or kwargs[k].const is None:
                if kwargs[k].const is True:
                    self.mutate(a0, node, st, taint, f"{last}({k}=True)")
        if last == "nan_to_num" and "copy" in kwargs and \
                kwargs["copy"].const is False:
            self.mutate(a0, node, st, taint, "nan_to_num(copy=False)")
            return a0
        if name == "setattr" and len(args) > 2:
            at = args[1].const
            self.store(a0, at if isinstance(at, str) else "*", args[2], st, node,
                       "setattr")
            return V(kind="num")
        if name == "delattr":
            return V(kind="num")
        if last in MUT_FUNCS and name.split(".")[0] in ("numpy", "random",
                                                         "heapq"):
            i = MUT_FUNCS[last]
            if i < len(args):
                self.mutate(args[i], node, st, taint, last)
            return V(kind="num")
        root0 = name.split(".")[0]
        if root0 == "numpy" and "out" not in kwargs:
            # ufuncs: positional output
            nin = UFUNCS.get(last)
            if nin is not None and len(args) > nin:
                self.mutate(args[nin], node, st, taint, f"{last} (output)")
                return args[nin]
        if "out" in kwargs and root0 in ("numpy", "scipy", "cv2"):
            return join(kwargs["out"], V(kind="arr", taint=taint))
        if name == "getattr":
            at = args[1] if len(args) > 1 else V()
            if isinstance(at.const, str):
                return self.get_attr(a0, at.const, st, node)
            return V({self.ext(l, "*") for l in a0.locs}, taint)
        if name in ("vars",):
            return V({l for l in a0.locs}, taint, kind="map")
        if last in DEEP or name == "copy.copy" or last == "array" or \
                name in ("list", "tuple", "set", "dict", "sorted", "reversed",
                         "iter", "frozenset", "next", "enumerate", "zip",
                         "filter", "map", "collections.deque",
                         "collections.OrderedDict", "range", "slice", "max",
                         "min", "sum"):
            return self.builtin(name, last, args, kwargs, taint, st, node)
        if last == "partial":
            return V(calls=[("partial", id(node), a0, tuple(args[1:]), kwargs)],
                     taint=taint)
        if name in ("super",):
            return self.super_(st)
        if last in LOCKS and root0 in ("threading", "multiprocessing", "trio",
                                       "_thread"):
            return V(kind="lock")
        if last == "FFTW" and root0 == "pyfftw":
            root = self.new_root(node, "plan")
            for i, role in enumerate(("in", "out")):
                key = ("input_array", "output_array")[i]
                v = args[i] if i < len(args) else kwargs.get(key)
                if v is not None:
                    st.heap[((root, ()), ("plan", role))] = v
            return V({(root, ())}, kind="obj")
        if last in SCALAR_FUNCS and "." not in name:
            t = taint
            if last in ("len", "isinstance", "hasattr", "type", "callable",
                        "issubclass"):
                t = frozenset({"s"}) if t else NOL
            return V(taint=t, kind="num")
        if last in VIEW_FUNCS:
            if kwargs.get("copy") is not None and kwargs["copy"].const is True:
                return V(taint=taint, kind="arr")
            if root0 == "skimage":
                return V(taint=taint, kind="arr")
            return V(a0.locs, taint, kind="arr")
        if last in ("shape", "ndim", "size"):
            return V(taint=frozenset({"s"}) if taint else NOL, kind="num")
        if last in ("zeros_like", "ones_like", "empty_like"):
            return V(taint=frozenset({"s"}) if taint else NOL, kind="arr")
        if root0 in ("numpy", "scipy", "skimage", "cv2"):
            return V(taint=taint, kind="arr")
        # functions given as arguments may be called
        return V(taint=taint)

    def builtin(self, name, last, args, kwargs, taint, st, node):
        a0 = args[0] if args else V()
        if last in DEEP:
            root = self.new_root(node, "deepcopy")
            loc = (root, ())
            tp = set()
            for l in a0.locs:
                tp |= self.types.get(l, set())
            if tp:
                self.types[loc] = tp
            for (l, at), x in list(st.heap.items()):
                if l in a0.locs and isinstance(at, str):
                    st.heap[(loc, at)] = V({(root, (at,))}, x.taint, (), x.kind)
                    for l2 in x.locs:
                        if l2 in self.types:
                            self.types.setdefault((root, (at,)), set()).update(
                                self.types[l2])
            return V({loc}, a0.taint, kind=a0.kind)
        if name == "copy.copy":
            if "arr" in a0.kind:
                return V(taint=taint, kind="arr")
            root = self.new_root(node, "copy")
            loc = (root, ())
            tp = set()
            for l in a0.locs:
                tp |= self.types.get(l, set())
            if tp:
                self.types[loc] = tp
            self.shallow[loc] = [l for l in a0.locs if l != loc]
            for (l, at), x in list(st.heap.items()):
                if l in a0.locs:
                    st.heap[(loc, at)] = x
            return V({loc}, a0.taint, kind=a0.kind)
        if last == "array":
            if "copy" in kwargs and kwargs["copy"].const is not True:
                return V(a0.locs, taint, kind="arr")
            return V(taint=taint, kind="arr")
        if name in ("range", "slice"):
            return V(taint=taint, kind="num" if name == "slice" else "range")
        if name == "sum":
            return V(taint=taint)
        if name in ("max", "min"):
            if len(args) > 1:
                return join(joins(args), V(taint=taint))
            return self.elem(a0, st, node)
        if name == "next":
            return self.elem(a0, st, node)
        if name in ("enumerate", "zip"):
            root = self.new_root(node, name)
            es = [self.elem(v, st, node) for v in args]
            if name == "enumerate":
                es = [V(kind="num")] + es[:1]
            tup = self.make_seq(es, st, node, "tup")
            st.heap[((root, ()), "[]")] = tup
            return V({(root, ())}, taint, kind="seq")
        if name in ("map", "filter"):
            e = joins([self.elem(v, st, node) for v in args[1:]])
            if name == "map" and args:
                e = self.call(args[0], [self.elem(v, st, node)
                                        for v in args[1:]], {}, st, node)
            root = self.new_root(node, name)
            st.heap[((root, ()), "[]")] = e
            return V({(root, ())}, taint, kind="seq")
        # list, tuple, dict, ... : new container with the same elements
        root = self.new_root(node, name)
        loc = (root, ())
        if args:
            if name in ("dict",):
                for (l, at), x in list(st.heap.items()):
                    if l in a0.locs:
                        st.heap[(loc, at)] = x
                st.heap.setdefault((loc, "[]"), self.elem(a0, st, node))
            else:
                if name in ("list", "tuple"):
                    for (l, at), x in list(st.heap.items()):
                        if l in a0.locs and isinstance(at, int):
                            st.heap[(loc, at)] = x
                st.heap[(loc, "[]")] = self.elem(a0, st, node)
        for k, v in kwargs.items():
            if name == "dict":
                st.heap[(loc, ("k", k))] = v
        return V({loc}, taint, kind="map" if "ict" in name else "seq")

    def make_seq(self, vs, st, node, label):
        root = self.new_root(node, label)
        loc = (root, ())
        for i, v in enumerate(vs):
            st.heap[(loc, i)] = v
        st.heap[(loc, "[]")] = joins(vs) if vs else V(kind="num")
        t = NOL
        for v in vs:
            t |= v.taint
        return V({loc}, t, kind="seq")

    def elem(self, v, st, node=None):
        """an element of an iterable"""
        if "range" in v.kind and not v.locs:
            return V(taint=v.taint, kind="num")
        res = None
        for loc in v.locs:
            r = st.heap.get((loc, "[]"))
            if r is None:
                r = V({self.ext(loc, "[]")}, v.taint)
            res = join(res, r)
        if res is None:
            return V(taint=v.taint)
        return V(res.locs, res.taint | v.taint, res.calls, res.kind)

    def call_extm(self, base, name, args, kwargs, st, node):
        """method of an object which is not of a class of the project"""
        taint = base.taint | self.all_taint(args, kwargs)
        for v in args:
            taint |= self.deep_taint(v, st)
        if "lock" in base.kind:
            if name == "acquire":
                st.locks = st.locks | self.lock_ids(base)
            elif name == "release":
                st.locks = self.lock_release(base, st.locks)
            return V(kind="num")
        for k in OUT_KW & set(kwargs):
            self.mutate(kwargs[k], node, st, taint, f".{name}({k}=...)")
        for loc in base.locs:
            for role in ("in", "out"):
                b = st.heap.get((loc, ("plan", role)))
                if b is not None and name in ("execute", "__call__"):
                    if role == "in":
                        self.plan_read(b, node, st)
                    self.mutate(b, node, st, frozenset({"v"}),
                                "call of an FFTW plan")
        if name in MUTATORS and base.locs and not (
                name == "pop" and base.kind == {"num"}):
            fresh_only = all(self.grp(l) == "fresh" for l in base.locs)
            if not fresh_only and not (name == "sort" and "seq" in base.kind
                                       and False):
                self.mutate(base, node, st, taint, f".{name}()")
            # containers
            if name in ("append", "add", "appendleft", "extend", "insert",
                        "update", "setdefault"):
                vals = list(args)
                if name == "insert":
                    vals = vals[1:]
                if name == "setdefault":
                    vals = vals[1:]
                if name in ("extend", "update"):
                    vals = [self.elem(v, st, node) for v in vals]
                for v in vals:
                    for loc in base.locs:
                        key = (loc, "[]")
                        old = st.heap.get(key)
                        st.heap[key] = join(old, v)
        if name == "copy":
            if base.kind & {"seq", "map"}:
                root = self.new_root(node, "copy")
                for (l, at), x in list(st.heap.items()):
                    if l in base.locs:
                        st.heap[((root, ()), at)] = x
                return V({(root, ())}, taint, kind=base.kind)
            return V(taint=taint, kind=base.kind)
        if name == "astype":
            if "copy" in kwargs and kwargs["copy"].const is False:
                return V(base.locs, taint, kind="arr")
            return V(taint=taint, kind="arr")
        if name in ("items",):
            e = self.elem(base, st, node)
            tup = self.make_seq([V(kind="num"), e], st, node, "item")
            root = self.new_root(node, "items")
            st.heap[((root, ()), "[]")] = tup
            return V({(root, ())}, taint, kind="seq")
        if name == "keys":
            return V(taint=taint, kind="range")
        if name in ("values",):
            return V(base.locs, taint, kind="seq")
        if name in ("get", "pop", "popleft", "setdefault", "popitem",
                    "__getitem__"):
            k = args[0].const if args else None
            if "obj" in base.kind or not base.locs:
                return V(taint=taint)
            r = joins(self.field(l, ("k", k), st, node, True) if k is not None
                      else self.elem(V({l}), st, node) for l in base.locs)
            for v in args[1:]:
                r = join(r, v)
            return V(r.locs, r.taint | base.taint, r.calls, r.kind)
        if name in VIEW_METHODS:
            return V(base.locs, taint, kind="arr")
        if name in ("flatten", "clip", "cumsum", "repeat", "take", "dot",
                    "conj", "nonzero", "compress", "cumprod", "choose"):
            return V(taint=taint, kind="arr")
        return V(taint=taint)

    def super_(self, st):
        fr = self.frames[-1]
        me = next(iter(fr.func.node.args.args), None)
        v = st.env.get(me.arg) if me is not None else None
        return V(calls=[("super", 0, v, fr.func.cls)])

    # -- attributes ----------------------------------------------------
    def term(self, t, fr, st=None):
        """value of a global name"""
        k = t[0]
        if k == "func":
            return V(calls=[("func", self.p.funcs_by_key[t[1]], None)])
        if k == "class":
            return V(calls=[("class", t[1])])
        if k == "mod":
            return V(calls=[("mod", t[1])])
        if k == "ext":
            return V(calls=[("ext", t[1])])
        if k == "glob":
            root = Root(("glob", t[1], t[2]))
            self.group[root] = "shared"
            v = self._cattr.get(root)
            if v is None:
                self._cattr[root] = V({(root, ())})
                mod = self.p.modules.get(t[1])
                nd = mod.globals.get(t[2]) if mod is not None else None
                v = self.static(nd, mod, (root, ()))
                self._cattr[root] = v
            return v
        return V()

    def static(self, nd, mod, loc):
        """value of a global variable or class attribute"""
        if isinstance(nd, list):
            nd = nd[-1] if nd else None
        if isinstance(nd, ast.AST) and not isinstance(nd, ast.expr):
            nd = getattr(nd, "value", None)
        if nd is None:
            return V({loc})
        if isinstance(nd, ast.Constant):
            return V(kind="num", const=nd.value)
        if isinstance(nd, ast.Name):
            v = self.term(self.p.resolve(mod, nd.id), None)
            if v.calls:
                return v
        kind = NOL
        calls = ()
        if isinstance(nd, (ast.Dict, ast.DictComp)):
            kind = "map"
            if isinstance(nd, ast.DictComp) and any(
                    isinstance(x, ast.Name) and x.id in ("locals", "globals")
                    for x in ast.walk(nd)) and isinstance(
                        nd.key, ast.Attribute):
                # classes of the module with this attribute
                for c in mod.classes.values():
                    if nd.key.attr in c.class_attrs:
                        calls += (("class", c.qual),)
            if isinstance(nd, ast.Dict):
                for x in nd.values:
                    if isinstance(x, ast.Name):
                        calls += self.term(self.p.resolve(mod, x.id), None).calls
        elif isinstance(nd, (ast.List, ast.Set, ast.Tuple, ast.ListComp)):
            kind = "seq"
        elif isinstance(nd, ast.Call):
            f = ast.unparse(nd.func).split(".")[-1]
            if f in LOCKS:
                kind = "lock"
            else:
                # global instance of a class of the project
                t = self.p.resolve(mod, f)
                if t[0] == "class":
                    self.types[loc] = {t[1]}
                    kind = "obj"
        v = V({loc}, kind=kind)
        if calls:
            self.elem_calls = getattr(self, "elem_calls", {})
            self.elem_calls[loc] = calls
        return v

    def get_attr(self, v, name, st, node, quiet=False):
        res = None
        for c in v.calls:
            if c[0] == "mod":
                t = self.p.attr_of(("mod", c[1]), name)
                res = join(res, self.term(t, None))
            elif c[0] == "ext":
                res = join(res, V(calls=[("ext", c[1] + "." + name)]))
            elif c[0] == "class":
                cls = self.p.classes_by_qual[c[1]]
                res = join(res, self.class_attr(cls, name, v, st))
            elif c[0] == "super":
                obj = c[2]
                for loc in (obj.locs if obj is not None else ()):
                    for q in self.types.get(loc, ()):
                        k = self.p.classes_by_qual[q]
                        m = k.find_method(name, after=c[3])
                        if m is not None:
                            res = join(res, self.method(m, V({loc}, obj.taint),
                                                        st, node))
                if obj is not None:
                    for d in obj.calls:
                        if d[0] == "class":
                            k = self.p.classes_by_qual[d[1]]
                            m = k.find_method(name, after=c[3])
                            if m is not None:
                                res = join(res, V(calls=[("func", m, obj)]))
                if res is None:
                    res = V(calls=[("ext", f"super.{name}")])
        if name in CONFIG_ATTRS and not any(self.types.get(l) for l in v.locs):
            return V(taint=frozenset({"s"}) if v.taint else NOL, kind="num")
        for loc in v.locs:
            tps = self.types.get(loc, ())
            found = False
            for q in tps:
                cls = self.p.classes_by_qual[q]
                if (loc, name) in st.heap:
                    break
                m = cls.find_method(name)
                if m is not None:
                    found = True
                    res = join(res, self.method(m, V({loc}, v.taint), st, node))
                    continue
                ca = cls.find_attr(name)
                if ca is not None:
                    found = True
                    k, nd = ca
                    res = join(res, self.class_attr(k, name, v, st))
                    if not quiet and self.grp(loc) == "shared":
                        self.ev("read", self.ext(loc, name), node, st)
            if found:
                continue
            if not tps and name in VIEW_ATTRS:
                res = join(res, V({loc}, v.taint, kind="arr"))
                continue
            if "lock" in v.kind or v.kind & {"arr", "seq", "map", "lock"} or (
                    not tps and isinstance(node, ast.Call)):
                if (loc, name) not in st.heap:
                    res = join(res, V(calls=[("extm", name, v)]))
                    continue
            f = self.field(loc, name, st, node, quiet)
            if isinstance(node, ast.Call) and not f.calls and not any(
                    self.types.get(l) for l in f.locs):
                # method of an external class
                res = join(res, V(f.locs, f.taint, [("extm", name, v)]))
            else:
                res = join(res, f)
        if res is None:
            if isinstance(node, ast.Call):
                return V(taint=v.taint, calls=[("extm", name, v)])
            return V(taint=v.taint)
        return V(res.locs, res.taint | (v.taint & {"v"} if not any(
            self.types.get(l) for l in v.locs) else NOL), res.calls, res.kind,
            res.const)

    def method(self, m, obj, st, node):
        if m.is_property:
            return self.call_func(m, [obj], {}, st, node or m.node)
        if m.is_static:
            return V(calls=[("func", m, None)])
        if m.is_classmethod:
            cv = V(calls=[("class", q) for l in obj.locs
                          for q in self.types.get(l, ())])
            return V(calls=[("func", m, cv)])
        return V(calls=[("func", m, obj)])

    def class_attr(self, cls, name, v, st):
        m = cls.find_method(name)
        if m is not None:
            if m.is_classmethod:
                return V(calls=[("func", m, V(calls=[("class", cls.qual)]))])
            return V(calls=[("func", m, None)])
        ca = cls.find_attr(name)
        if ca is None:
            if name == "__name__":
                return V(kind="num")
            root = Root(("cls", cls.qual))
            self.group[root] = "shared"
            loc = (root, ())
            return self.field(loc, name, st)
        k, nd = ca
        root = Root(("cls", k.qual))
        self.group[root] = "shared"
        key = ((root, ()), name)
        if key in st.heap:
            return st.heap[key]
        ck = (root, name)
        if ck not in self._cattr:
            self._cattr[ck] = V({(root, (name,))})
            self._cattr[ck] = self.static(nd, k.module, (root, (name,)))
        return self._cattr[ck]

    def lock_ids(self, v):
        """one identifier per critical section"""
        self.seq += 1
        return frozenset(("lock", l, self.seq) for l in v.locs
                         if self.grp(l) == "shared")

    def lock_release(self, v, locks):
        return frozenset(x for x in locks if x[1] not in v.locs)

    # -- expressions ---------------------------------------------------
    frames = None

    def expr(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            t = NOL
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    t |= self.expr(c, st, fr).taint
            return V(taint=t)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return V(kind="num", const=n.value)

    def e_Name(self, n, st, fr):
        v = st.env.get(n.id)
        if v is None and fr.closure is not None:
            c = fr.closure
            while c is not None and v is None:
                v = c[0].get(n.id)
                c = c[1]
        if v is None:
            t = self.p.resolve(fr.module, n.id)
            if t[0] == "glob":
                key = ((Root(("glob", t[1], t[2])), ()), "=")
                if key in st.heap:
                    self.ev("read", (Root(("glob", t[1], t[2])), ()), n, st)
                    return st.heap[key]
                self.ev("read", (Root(("glob", t[1], t[2])), ()), n, st)
            return self.term(t, fr)
        if v.esc:
            self.ev("escape", v.esc[0], n, st, v.taint,
                    f"'{n.id}' used after the lock is released")
        if self.phase == "call":
            for l in v.locs:
                if l not in self.types and l[0][0] != "plan" and \
                        self.grp(l) == "shared":
                    self.ev("read", l, n, st,
                            what="load" if id(n) in self.deferred else "")
        return v

    def e_Attribute(self, n, st, fr, call=None, quiet=False):
        v = self.expr(n.value, st, fr)
        n0 = len(self.events)
        r = self.get_attr(v, n.attr, st, call if call is not None else n,
                          quiet)
        if id(n) in self.deferred:
            for e in self.events[n0:]:
                if e.kind == "read" and not e.what and e.path in r.locs:
                    e.what = "load"
        return r

    def defer(self, n):
        """the expression gives a reference, which is not used here"""
        if isinstance(n, (ast.Attribute, ast.Name)):
            self.deferred.add(id(n))
        elif isinstance(n, (ast.Tuple, ast.List)):
            for e in n.elts:
                self.defer(e)

    def defer_args(self, f, n, st):
        project = bool(f.calls or f.locs)
        for c in f.calls:
            if c[0] == "ext":
                last = c[1].split(".")[-1]
                if last in MUT_FUNCS and MUT_FUNCS[last] < len(n.args):
                    self.defer(n.args[MUT_FUNCS[last]])
                nin = UFUNCS.get(last)
                if nin is not None and len(n.args) > nin:
                    self.defer(n.args[nin])
            if c[0] not in ("func", "class"):
                project = False
        if f.locs and not f.calls and not any(
                self.p.classes_by_qual[q].find_method("__call__")
                for l in f.locs for q in self.types.get(l, ())):
            project = False
        for k in n.keywords:
            if project or k.arg in OUT_KW:
                self.defer(k.value)
        if project:
            for a in n.args:
                self.defer(a)

    def e_Subscript(self, n, st, fr):
        v = self.expr(n.value, st, fr)
        i = self.expr(n.slice, st, fr)
        return self.subscript(v, i, n, st)

    def subscript(self, v, i, n, st):
        taint = v.taint | (i.taint & {"v"})
        if isinstance(n.slice, ast.Slice) or (
                isinstance(n.slice, ast.Tuple) and any(
                    isinstance(e, ast.Slice) for e in n.slice.elts)):
            return V(v.locs, taint, (), v.kind)
        if n.slice is not None and isinstance(n.slice, ast.Compare):
            return V(taint=taint, kind="arr")
        # mask or list of indices: copy
        if "arr" in i.kind and not (v.kind & {"map", "seq"}):
            return V(taint=taint, kind="arr")
        scalar = isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2 and \
            all(not isinstance(e, (ast.Slice,)) and not (
                isinstance(e, ast.Constant) and e.value in (None, Ellipsis))
                for e in n.slice.elts)
        if scalar and not v.kind & {"map", "seq"}:
            return V(taint=taint, kind="num")
        res = None
        calls = ()
        for loc in v.locs:
            k = i.const
            if isinstance(k, int) and not isinstance(k, bool) and k >= 0:
                r = self.field(loc, k, st, n, True)
                if (loc, k) not in st.heap and (loc, "[]") not in st.heap:
                    r = V({self.ext(loc, "[]")}, r.taint)
            elif k is not None:
                r = self.field(loc, ("k", k), st, n, True)
                if (loc, ("k", k)) not in st.heap:
                    r = st.heap.get((loc, "[]")) or V({self.ext(loc, "[]")},
                                                      r.taint)
            else:
                r = self.elem(V({loc}), st, n)
                for (l, at), x in list(st.heap.items()):
                    if l == loc and isinstance(at, tuple) and at[0] == "k":
                        r = join(r, x)
            calls += getattr(self, "elem_calls", {}).get(loc, ())
            for q in self.types.get(loc, ()):
                m = self.p.classes_by_qual[q].find_method("__getitem__")
                if m is not None:
                    r = self.call_func(m, [V({loc}), i], {}, st, n)
            res = join(res, r)
        if res is None:
            return V(taint=taint)
        return V(res.locs, res.taint | taint, res.calls + calls, res.kind)

    def e_Slice(self, n, st, fr):
        t = NOL
        for c in (n.lower, n.upper, n.step):
            if c is not None:
                t |= self.expr(c, st, fr).taint
        return V(taint=t, kind="num")

    def e_Tuple(self, n, st, fr):
        vs = [self.expr(e, st, fr) for e in n.elts]
        if any(isinstance(e, ast.Starred) for e in n.elts):
            root = self.new_root(n, "tup")
            st.heap[((root, ()), "[]")] = joins(vs)
            return V({(root, ())}, joins(vs).taint, kind="seq")
        return self.make_seq(vs, st, n, "tup")

    e_List = e_Tuple

    def e_Set(self, n, st, fr):
        return self.make_seq([self.expr(e, st, fr) for e in n.elts], st, n, "set")

    def e_Starred(self, n, st, fr):
        return self.elem(self.expr(n.value, st, fr), st, n)

    def e_Dict(self, n, st, fr):
        root = self.new_root(n, "dict")
        loc = (root, ())
        t = NOL
        allv = None
        for k, x in zip(n.keys, n.values):
            v = self.expr(x, st, fr)
            t |= v.taint
            if k is None:
                allv = join(allv, self.elem(v, st, n))
                continue
            kv = self.expr(k, st, fr)
            if kv.const is not None:
                st.heap[(loc, ("k", kv.const))] = v
            allv = join(allv, v)
        st.heap[(loc, "[]")] = allv if allv is not None else V(kind="num")
        return V({loc}, t, kind="map")

    def e_JoinedStr(self, n, st, fr):
        t = NOL
        for c in n.values:
            if isinstance(c, ast.FormattedValue):
                t |= self.expr(c.value, st, fr).taint
        return V(taint=t, kind="num")

    def e_BinOp(self, n, st, fr):
        a = self.expr(n.left, st, fr)
        b = self.expr(n.right, st, fr)
        kind = NOL
        if "arr" in a.kind | b.kind:
            kind = "arr"
        elif a.kind == {"num"} and b.kind == {"num"}:
            kind = "num"
        if a.kind & {"seq"} or b.kind & {"seq"}:
            root = self.new_root(n, "binop")
            st.heap[((root, ()), "[]")] = join(self.elem(a, st, n),
                                               self.elem(b, st, n))
            return V({(root, ())}, a.taint | b.taint, kind="seq")
        return V(taint=a.taint | b.taint, kind=kind)

    def e_UnaryOp(self, n, st, fr):
        a = self.expr(n.operand, st, fr)
        const = None
        if isinstance(n.op, ast.USub) and isinstance(a.const, (int, float)):
            const = -a.const
        return V(taint=a.taint, kind=a.kind, const=const)

    def e_BoolOp(self, n, st, fr):
        return joins([self.expr(e, st, fr) for e in n.values])

    def e_Compare(self, n, st, fr):
        vs = [self.expr(n.left, st, fr)] + [
            self.expr(c, st, fr) for c in n.comparators]
        t = NOL
        kind = NOL
        for v in vs:
            t |= v.taint
            if "arr" in v.kind:
                kind = "arr"
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            t = NOL
            kind = "num"
        return V(taint=t, kind=kind)

    def e_IfExp(self, n, st, fr):
        t = self.expr(n.test, st, fr)
        v = join(self.expr(n.body, st, fr), self.expr(n.orelse, st, fr))
        return V(v.locs, v.taint | t.taint, v.calls, v.kind)

    def e_NamedExpr(self, n, st, fr):
        v = self.expr(n.value, st, fr)
        st.env[n.target.id] = v
        return v

    def e_Await(self, n, st, fr):
        return self.expr(n.value, st, fr)

    def e_Lambda(self, n, st, fr):
        f = FuncInfo(n, fr.module, None, fr.func)
        return V(calls=[("func", f, None, (dict(st.env), fr.closure))])

    def e_Yield(self, n, st, fr):
        v = self.expr(n.value, st, fr) if n.value is not None else V(kind="num")
        fr.yields = join(fr.yields, v)
        return V()

    def e_YieldFrom(self, n, st, fr):
        v = self.elem(self.expr(n.value, st, fr), st, n)
        fr.yields = join(fr.yields, v)
        return V()

    def comp(self, n, st, fr, elts, label):
        sub = St(dict(st.env), st.heap, st.locks)
        t = NOL
        for g in n.generators:
            it = self.expr(g.iter, sub, fr)
            t |= it.taint
            self.assign(g.target, self.elem(it, sub, g.iter), sub, fr, n)
            for c in g.ifs:
                t |= self.expr(c, sub, fr).taint
        v = joins([self.expr(e, sub, fr) for e in elts])
        st.heap = sub.heap
        root = self.new_root(n, label)
        st.heap[((root, ()), "[]")] = v
        return V({(root, ())}, t | v.taint, kind="seq")

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, [n.elt], "listcomp")

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st, fr):
        v = self.comp(n, st, fr, [n.value], "dictcomp")
        return V(v.locs, v.taint, kind="map")

    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Attribute):
            f = self.e_Attribute(n.func, st, fr, call=n)
        elif isinstance(n.func, ast.Name) and n.func.id == "super" and \
                "super" not in st.env:
            if n.args:
                cv = self.expr(n.args[0], st, fr)
                k = next((self.p.classes_by_qual[c[1]] for c in cv.calls
                          if c[0] == "class"), fr.func.cls)
                return V(calls=[("super", 0, self.expr(n.args[1], st, fr), k)])
            return self.mk_super(fr, st)
        else:
            f = self.expr(n.func, st, fr)
        self.defer_args(f, n, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.expr(a.value, st, fr)
                idx = sorted({at for l in s.locs for (l2, at) in st.heap
                              if l2 == l and isinstance(at, int)})
                if idx and len(s.locs) == 1:
                    args += [st.heap[(next(iter(s.locs)), i)] for i in idx]
                else:
                    args += [self.elem(s, st, a)] * 3
            else:
                args.append(self.expr(a, st, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.expr(k.value, st, fr)
            if k.arg is None:
                kwargs["**"] = self.elem(v, st, n)
                for l in v.locs:
                    for (l2, at), x in list(st.heap.items()):
                        if l2 == l and isinstance(at, tuple) and at[0] == "k" \
                                and isinstance(at[1], str):
                            kwargs[at[1]] = x
            else:
                kwargs[k.arg] = v
        # functions given as arguments of external functions
        return self.call(f, args, kwargs, st, n)

    def mk_super(self, fr, st):
        a = fr.func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        v = st.env.get(names[0]) if names else None
        return V(calls=[("super", 0, v, fr.func.cls)])

    # -- statements ----------------------------------------------------
    def assign(self, t, v, st, fr, node, hist=False):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                root = Root(("glob", fr.module.name, t.id))
                self.group[root] = "shared"
                self.ev("write", (root, ()), node, st, v.taint,
                        f"global {t.id}", hist)
                st.heap[((root, ()), "=")] = v
            else:
                st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, fr)
            # class attribute set through the class
            for c in b.calls:
                if c[0] == "class":
                    root = Root(("cls", c[1]))
                    self.group[root] = "shared"
                    self.ev("write", (root, (t.attr,)), node, st, v.taint,
                            f"{ast.unparse(t)} = ...", hist)
                    st.heap[((root, ()), t.attr)] = v
            for loc in b.locs:
                for q in self.types.get(loc, ()):
                    m = self.p.classes_by_qual[q].find_method(
                        t.attr + ".setter")
                    del m
            self.store(b, t.attr, v, st, node, f"{ast.unparse(t)} = ...", hist)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Attribute):
                b = self.e_Attribute(t.value, st, fr, quiet=True)
            else:
                self.defer(t.value)
                b = self.expr(t.value, st, fr)
            i = self.expr(t.slice, st, fr)
            self.setitem(b, i, v, st, t, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    root = self.new_root(node, "starred")
                    st.heap[((root, ()), "[]")] = self.elem(v, st, node)
                    self.assign(e.value, V({(root, ())}, v.taint, kind="seq"),
                                st, fr, node)
                    continue
                x = None
                for loc in v.locs:
                    r = st.heap.get((loc, k))
                    if r is None:
                        r = st.heap.get((loc, "[]"))
                    if r is None:
                        r = V({self.ext(loc, "[]")}, v.taint)
                    x = join(x, r)
                if x is None:
                    x = V(taint=v.taint)
                else:
                    x = V(x.locs, x.taint if x.taint or not v.taint else
                          x.taint, x.calls, x.kind, x.const)
                self.assign(e, x, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    def setitem(self, b, i, v, st, t, node):
        taint = v.taint | i.taint
        what = f"{ast.unparse(t)} = ..."
        self.mutate(b, node, st, taint, what[:60])
        for loc in b.locs:
            for q in self.types.get(loc, ()):
                m = self.p.classes_by_qual[q].find_method("__setitem__")
                if m is not None:
                    self.call_func(m, [V({loc}), i, v], {}, st, node)
        if b.kind & {"seq", "map"} and not "arr" in b.kind:
            for loc in b.locs:
                if i.const is not None and "map" in b.kind:
                    st.heap[(loc, ("k", i.const))] = v
                    st.heap[(loc, "[]")] = join(st.heap.get((loc, "[]")), v)
                else:
                    if isinstance(i.const, int):
                        st.heap[(loc, i.const)] = v
                    st.heap[(loc, "[]")] = join(st.heap.get((loc, "[]")), v)

    def block(self, body, st, fr):
        for s in body:
            if st is None or st.dead:
                return st
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return st
        r = m(n, st, fr)
        return r if r is not None else st

    def dead(self, st):
        s = St(st.env, st.heap, st.locks)
        s.dead = True
        return s

    def s_Expr(self, n, st, fr):
        self.expr(n.value, st, fr)

    def s_Assign(self, n, st, fr):
        if all(isinstance(t, (ast.Name, ast.Tuple, ast.List))
               for t in n.targets):
            self.defer(n.value)
        v = self.expr(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr, n, self.history(t, n.value))

    @staticmethod
    def history(t, value):
        """the new value depends on the old one"""
        if isinstance(t, ast.Attribute) and value is not None:
            s = ast.unparse(t)
            return any(isinstance(x, ast.Attribute) and ast.unparse(x) == s
                       for x in ast.walk(value))
        return False

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.expr(n.value, st, fr), st, fr, n)

    def s_AugAssign(self, n, st, fr):
        v = self.expr(n.value, st, fr)
        t = n.target
        if isinstance(t, ast.Name):
            old = self.expr(ast.Name(t.id, ast.Load()), st, fr)
            arr = "arr" in old.kind or (
                bool(old.locs) and not (old.kind and old.kind <= {"num"}) and (
                    "seq" in old.kind or self.used_as_array(t.id, fr)))
            if arr and old.locs:
                self.mutate(old, n, st, v.taint | old.taint,
                            f"{ast.unparse(n)[:50]}", True)
                new = V(old.locs, old.taint | v.taint, (), old.kind)
            else:
                new = V(taint=old.taint | v.taint, kind=old.kind)
            self.assign(t, new, st, fr, n)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, fr)
            old = self.get_attr(b, t.attr, st, t, quiet=True)
            if "arr" in old.kind or "seq" in old.kind:
                self.mutate(old, n, st, v.taint | old.taint,
                            f"{ast.unparse(n)[:50]}", True)
            elif old.locs and not (old.kind and old.kind <= {"num"}):
                # array or number: in place if it is an array
                for loc in old.locs:
                    if any(self.ext(l, t.attr) == loc for l in b.locs):
                        continue
                    if self.grp(loc) != "fresh":
                        self.ev("write", self.ext(loc, "[]"), n, st,
                                v.taint | old.taint, ast.unparse(n)[:50])
            self.assign(t, V(old.locs, old.taint | v.taint, (), old.kind), st,
                        fr, n, hist=True)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Attribute):
                b = self.e_Attribute(t.value, st, fr, quiet=True)
            else:
                b = self.expr(t.value, st, fr)
            i = self.expr(t.slice, st, fr)
            self.mutate(b, n, st, v.taint | i.taint | b.taint,
                        ast.unparse(n)[:50], True)

    def used_as_array(self, name, fr):
        key = (id(fr.func.node), name)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = False
            for x in ast.walk(fr.func.node):
                if isinstance(x, ast.Subscript) and isinstance(
                        x.value, ast.Name) and x.value.id == name:
                    r = True
                elif isinstance(x, (ast.For, ast.comprehension)) and isinstance(
                        x.iter, ast.Name) and x.iter.id == name:
                    r = True
                elif isinstance(x, ast.Assign) and isinstance(
                        x.value, ast.Name) and x.value.id == name and any(
                        isinstance(y, ast.Name) and y.id != name and
                        self.used_as_array(y.id, fr) for y in x.targets):
                    r = True
                elif isinstance(x, ast.Attribute) and isinstance(
                        x.value, ast.Name) and x.value.id == name and x.attr in (
                        CONFIG_ATTRS | {"astype", "ravel", "copy", "mean", "max",
                                        "min", "T", "reshape", "sum"}):
                    r = True
                elif isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and isinstance(
                        x.func.value, ast.Name) and x.func.value.id in (
                        "np", "ndi", "cv2") and any(
                        isinstance(a, ast.Name) and a.id == name
                        for a in x.args):
                    r = True
            self.memo[key] = r
        return r

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.expr(t.value, st, fr)
                self.mutate(b, n, st, NOL, ast.unparse(n)[:50])
            elif isinstance(t, ast.Attribute):
                b = self.expr(t.value, st, fr)
                for loc in b.locs:
                    st.heap.pop((loc, t.attr), None)
                    if self.grp(loc) != "fresh":
                        self.ev("write", self.ext(loc, t.attr), n, st, NOL,
                                ast.unparse(n)[:50])

    def s_Return(self, n, st, fr):
        v = self.expr(n.value, st, fr) if n.value is not None else V(kind="num")
        if n.value is not None:
            fr.ret = join(fr.ret, v)
            self.check_escape(v, st, n)
        s = st.copy()
        if getattr(fr, "entry_locks", None) is not None:
            s.locks = fr.entry_locks
        fr.returned.append(s)
        return self.dead(st)

    def check_escape(self, v, st, n):
        for lk in st.locks:
            for loc in self.written_under.get(lk, ()):
                locs = set(v.locs)
                for l in v.locs:
                    for (l2, _), x in st.heap.items():
                        if l2 == l and self.grp(l2) == "fresh":
                            locs |= x.locs
                if loc in locs:
                    self.ev("escape", loc, n, st, v.taint,
                            "returned while the buffer is protected by the lock")

    def s_Raise(self, n, st, fr):
        if n.exc is not None:
            self.expr(n.exc, st, fr)
        fr.excs.append(st.copy())
        return self.dead(st)

    def s_Assert(self, n, st, fr):
        self.expr(n.test, st, fr)

    def s_Global(self, n, st, fr):
        fr.globals |= set(n.names)

    def s_FunctionDef(self, n, st, fr):
        f = FuncInfo(n, fr.module, None, fr.func)
        st.env[n.name] = V(calls=[("func", f, None, (st.env, fr.closure))])

    s_AsyncFunctionDef = s_FunctionDef

    def s_Import(self, n, st, fr):
        for a in n.names:
            name = (a.asname or a.name.split(".")[0])
            full = a.name if a.asname else a.name.split(".")[0]
            st.env[name] = self.term(
                ("mod", full) if full in self.p.modules else ("ext", full), fr)

    def s_ImportFrom(self, n, st, fr):
        base = fr.module._abs(n.module, n.level)
        for a in n.names:
            if base in self.p.modules:
                t = self.p.resolve(self.p.modules[base], a.name)
                if t[0] == "undef" or f"{base}.{a.name}" in self.p.modules:
                    t = ("mod", f"{base}.{a.name}")
            else:
                t = ("ext", f"{base}.{a.name}")
            st.env[a.asname or a.name] = self.term(t, fr)

    def lazy_guard(self, test):
        """names of attributes tested by 'not hasattr(x, a)' or 'x.a is None'"""
        res = []

        def visit(t, pos):
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                visit(t.operand, not pos)
            elif isinstance(t, ast.BoolOp):
                for e in t.values:
                    visit(e, pos)
            elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) \
                    and t.func.id == "hasattr" and len(t.args) == 2 and \
                    isinstance(t.args[1], ast.Constant):
                res.append((t.args[1].value, not pos))
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                    isinstance(t.comparators[0], ast.Constant) and \
                    t.comparators[0].value is None:
                left = t.left
                if isinstance(left, ast.NamedExpr):
                    left = left.value
                if isinstance(left, ast.Attribute):
                    attr = left.attr
                elif isinstance(left, ast.Call) and isinstance(
                        left.func, ast.Name) and left.func.id == "getattr" \
                        and len(left.args) == 3 and isinstance(
                        left.args[1], ast.Constant):
                    attr = left.args[1].value
                else:
                    return
                if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                    res.append((attr, pos))
                elif isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    res.append((attr, not pos))
        visit(test, True)
        return res

    def s_If(self, n, st, fr):
        t = self.expr(n.test, st, fr)
        guards = self.lazy_guard(n.test)
        impl = t.taint & {"v"}
        isin = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                   and x.func.id in ("isinstance", "hasattr")
                   for x in ast.walk(n.test))
        if isin:
            impl = NOL
        out = None
        for body, pos in ((n.body, True), (n.orelse, False)):
            s = st.copy()
            gs = [a for a, p in guards if p == pos]
            for g in gs:
                self.seq += 1
                self.guards.append((g, self.seq))
            if impl:
                self.implicit.append(impl)
            r = self.block(body, s, fr)
            if impl:
                self.implicit.pop()
            for g in gs:
                self.guards.pop()
            out = jst(out, r)
        return out

    def s_Match(self, n, st, fr):
        s0 = self.expr(n.subject, st, fr)
        out = st.copy()
        for c in n.cases:
            s = st.copy()
            for x in ast.walk(c.pattern):
                nm = getattr(x, "name", None)
                if isinstance(nm, str):
                    s.env[nm] = s0
            out = jst(out, self.block(c.body, s, fr))
        return out

    def loop(self, n, st, fr, head):
        out = st.copy()
        cur = st
        saved = fr.breaks, fr.continues
        brk = []
        for _ in range(2):
            fr.breaks, fr.continues = [], []
            s = cur.copy()
            head(s)
            r = self.block(n.body, s, fr)
            for c in fr.continues:
                r = jst(r, c)
            brk += fr.breaks
            if r is None or r.dead:
                break
            out = jst(out, r)
            cur = out
        fr.breaks, fr.continues = saved
        if n.orelse:
            out = self.block(n.orelse, out, fr)
        for b in brk:
            out = jst(out, b)
        return out

    def s_For(self, n, st, fr):
        it = self.expr(n.iter, st, fr)

        def head(s):
            self.assign(n.target, self.elem(it, s, n.iter), s, fr, n)
        return self.loop(n, st, fr, head)

    s_AsyncFor = s_For

    def s_While(self, n, st, fr):
        t = self.expr(n.test, st, fr)
        impl = t.taint & {"v"}
        if impl:
            self.implicit.append(impl)
        r = self.loop(n, st, fr, lambda s: self.expr(n.test, s, fr))
        if impl:
            self.implicit.pop()
        return r

    def s_Break(self, n, st, fr):
        fr.breaks.append(st.copy())
        return self.dead(st)

    def s_Continue(self, n, st, fr):
        fr.continues.append(st.copy())
        return self.dead(st)

    def s_Try(self, n, st, fr):
        before = st.copy()
        exc0 = fr.excs
        fr.excs = []
        body = self.block(n.body, st, fr)
        start = jst(before, body if body is not None else None)
        if body is not None and body.dead:
            start = before
            b = St(jdict(before.env, body.env),
                   jdict(before.heap, body.heap, True), before.locks)
            start = b
        for e in fr.excs:
            start = jst(start, e)
        inner = fr.excs
        fr.excs = exc0
        if not n.handlers:
            fr.excs += inner
        out = body
        if n.orelse and body is not None and not body.dead:
            out = self.block(n.orelse, body, fr)
        for h in n.handlers:
            s = start.copy()
            s.dead = False
            if h.name:
                s.env[h.name] = V()
            r = self.block(h.body, s, fr)
            out = r if out is None or out.dead else (
                out if r is None or r.dead else jst(out, r))
        if n.finalbody:
            if out is None or out.dead:
                s = start.copy()
                s.dead = False
                self.block(n.finalbody, s, fr)
                # locks released in 'finally'
                for ret in fr.returned:
                    ret.locks = ret.locks & s.locks
                d = self.dead(s)
                return d
            out = self.block(n.finalbody, out, fr)
        return out

    s_TryStar = s_Try

    def s_With(self, n, st, fr):
        before = st.locks
        env0 = set()
        for i in n.items:
            v = self.expr(i.context_expr, st, fr)
            if "lock" in v.kind:
                st.locks = st.locks | self.lock_ids(v)
            if i.optional_vars is not None:
                w = v
                for loc in v.locs:
                    for q in self.types.get(loc, ()):
                        m = self.p.classes_by_qual[q].find_method("__enter__")
                        if m is not None:
                            w = self.call_func(m, [V({loc})], {}, st, n)
                self.assign(i.optional_vars, w, st, fr, n)
        new = st.locks - before
        nret = len(fr.returned)
        out = self.block(n.body, st, fr)
        for r in fr.returned[nret:]:
            r.locks = before
        if out is not None and not out.dead:
            out.locks = before
            for lk in new:
                for loc in self.written_under.get(lk, ()):
                    for k, v in list(out.env.items()):
                        if loc in v.locs:
                            out.env[k] = V(v.locs, v.taint, v.calls, v.kind,
                                           None, (loc,))
        return out

    s_AsyncWith = s_With
