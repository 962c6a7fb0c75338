"""T06: parameters which are read are declared, and declared ones are used"""

import ast

from ..framework import fmt_trace  # noqa: F401
from ..paramflow import Defaults, Flow, const_str, doc_names
from ..project import AnalysisBroken
from . import register


def users(ctx):
    """classes which are created from their own default parameters"""
    res = []
    for c in ctx.p.classes_by_qual.values():
        f = c.find_method("create_default_params")
        if f is None or not f.is_classmethod or ".tests" in c.module.name:
            continue
        if c.find_method("__init__") is None:
            continue
        res.append(c)
    return res


def is_topology(c):
    return c.is_subclass("TopologyBase")


def root_names(init):
    return [
        a.arg for a in init.node.args.posonlyargs + init.node.args.args
        + init.node.args.kwonlyargs if a.arg in ("params", "param")
    ]


def _nodes(tree, skip):
    stack = [tree]
    while stack:
        n = stack.pop()
        if id(n) in skip:
            continue
        yield n
        stack.extend(ast.iter_child_nodes(n))


def generic_reads(ctx, done):
    """paths read from the parameters of any topology by the functions which do
    not belong to a topology (executors, splitters, commands):
    <...>.params.a.b"""
    res = set()
    added = set()
    for mod in ctx.p.modules.values():
        if ".tests" in mod.name:
            continue
        for n in _nodes(mod.tree, done):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                path = []
                x = n
                while isinstance(x, ast.Attribute):
                    path.append(x.attr)
                    x = x.value
                if isinstance(x, ast.Name):
                    path.append(x.id)
                path.reverse()
                for i, name in enumerate(path):
                    if name.lstrip("_").startswith("params"):
                        for j in range(i + 2, len(path) + 1):
                            res.add(tuple(path[i + 1:j]))
            elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute
            ) and n.func.attr == "_set_attrib" and n.args:
                s = const_str(n.args[0])
                if s:
                    added.add((s, mod))
    return res, added


def abstract(c):
    return any(
        "abstractmethod" in d for k in [c] for f in k.methods.values()
        for d in f.decorators
    )


def created_by_works(ctx):
    """classes whose instances are created by the works themselves"""
    res = set()
    for k in ctx.p.classes_by_qual.values():
        if not k.module.name.startswith("fluidimage.works"):
            continue
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    t = ctx.p.resolve(f.module, n.func.id)
                    if t[0] == "class" and t[1] != k.qual:
                        res.add(t[1])
    return res


@register("T06")
def params(ctx):
    ctx.rule("T06.declared", "a parameter which is read exists in the default "
             "parameters (or is read under protection)", 30)
    ctx.rule("T06.used", "each default parameter reaches a computation", 30)
    ctx.rule("T06.names", "a parameter is not used under the name of another one",
             5)
    ctx.rule("T06.doc", "each parameter described in the documentation of the "
             "parameters exists", 10)
    n = 0
    inner = created_by_works(ctx)
    flows = []
    for c in users(ctx):
        if c.qual in inner and not is_topology(c):
            continue
        d = Defaults(ctx.p, c)
        if not d.ok:
            continue
        tree = d.root
        init = c.find_method("__init__")
        roots = root_names(init)
        if not roots:
            continue
        leaves = [x.path + (k,) for x in tree.walk() for k in x.leaves]
        if not leaves:
            continue
        n += 1
        flow = Flow(ctx.p, c, tree, roots)
        ctx.functions |= {f.qual for f, _ in flow.ctxs}
        ctx.states += len(flow.vars) + len(flow.attrs)
        flows.append((c, tree, flow))
    done = {id(f.node) for _, _, flow in flows for f, _ in flow.ctxs}
    generic, added = generic_reads(ctx, done)
    # functions shared between several computations (data objects...), or which
    # this one does not call, are only wrong if the parameter is never declared
    declared = {
        (path, cx[0].short) for _, _, flow in flows
        for path, l in flow.reads.items() for cx, _ in l
    }
    for c, tree, flow in flows:
        for (path, where), (cx, node, prot) in sorted(
            flow.undeclared.items(), key=lambda x: x[0]
        ):
            opt = any(
                path[-1] == name and m is not cx[0].module for name, m in added
            )
            if (
                cx not in flow.reached or not cx[0].module.name.startswith(
                    ("fluidimage.works", "fluidimage.topologies"))
            ) and (path, where) in declared:
                continue
            ctx.check(prot or opt, "T06.declared", where, ".".join(path),
                      f"{c.name}: the parameter {'.'.join(path)} is read but it is "
                      "not in the default parameters", line=node.lineno)
        for path in flow.reads:
            ctx.check(True, "T06.declared", c.module.rel, ".".join(path), "")
        for (path, name, where), (cx, node) in flow.renamed.items():
            ctx.bad("T06.names", where, f"{'.'.join(path)} as {name}",
                    f"{c.name}: the parameter {'.'.join(path)} is used as {name}, "
                    "which is another parameter", line=node.lineno)
        for path in flow.used:
            ctx.check(True, "T06.names", c.module.rel, ".".join(path), "")
        for x in tree.walk():
            for doc, f, node in x.docs:
                for name in doc_names(doc):
                    ctx.check(
                        x.declares(name) or x.open, "T06.doc", f.short,
                        ".".join(x.path + (name,)),
                        f"the parameter {'.'.join(x.path + (name,))} is "
                        "documented but does not exist", line=node.lineno)
        if c.module.name.endswith(".example"):
            continue
        for x in tree.walk():
            sub = any(
                x.path[:len(p)] == p for p in flow.subtree
            )
            for k, (f, value, node) in x.leaves.items():
                full = x.path + (k,)
                ok = full in flow.used or sub or full in generic
                ctx.check(
                    ok, "T06.used", f.short, ".".join(full),
                    f"{c.name}: the parameter {'.'.join(full)} is declared but "
                    + ("what is read is never used" if full in flow.reads else
                       "never read"), line=node.lineno)
    if n < 3:
        raise AnalysisBroken("no class with default parameters")
