"""Obligations, findings, known findings and evidence."""

import json
import os
import sys
import time
import traceback
from pathlib import Path

from .project import AnalysisBroken, Project

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "known_findings.txt"


def load_known(prop):
    """entries 'known: property=<id> key=<key> :: text' of the committed file"""
    res = {}
    if not KNOWN.exists():
        return res
    for line in KNOWN.read_text(encoding="utf-8").splitlines():
        line = line.strip()
        if not line.startswith("known:"):
            continue
        head, _, text = line[len("known:"):].partition("::")
        head = head.strip()
        pid, _, key = head.partition(" key=")
        if pid.strip() == f"property={prop}":
            res[key.strip()] = text.strip()
    return res


class Ctx:
    def __init__(self, prop, tier="quick", project=None):
        self.prop = prop
        self.tier = tier
        self.p = project or Project()
        self.obligations = []
        self.findings = {}
        self.undecided = []
        self.rules = {}
        self.functions = set()
        self.states = 0
        self.broken = []
        self.notes = []

    def rule(self, name, text, floor=1):
        self.rules[name] = dict(text=text, floor=floor, n=0)

    def ok(self, rule, where, what=""):
        self.rules.setdefault(rule, dict(text="", floor=1, n=0))["n"] += 1
        self.obligations.append((rule, where, what))

    def bad(self, rule, where, construct, msg, path=None, line=None):
        """where: 'file:function' (no line number); construct: what exactly"""
        self.rules.setdefault(rule, dict(text="", floor=1, n=0))["n"] += 1
        key = f"{rule}@{where}@{construct}"
        f = self.findings.setdefault(
            key, dict(rule=rule, where=where, construct=construct, message=msg,
                      line=line, path=path or [])
        )
        return f

    def check(self, cond, rule, where, construct, msg, path=None, line=None):
        if cond:
            self.ok(rule, where, construct)
        else:
            self.bad(rule, where, construct, msg, path, line)
        return cond

    def maybe(self, rule, where, *why):
        # the anchor exists, even if the rule does not decide
        self.rules.setdefault(rule, dict(text="", floor=1, n=0))["n"] += 1
        self.undecided.append((rule, where, ": ".join(w for w in why if w)))

    def seen(self, interp):
        self.functions |= interp.inlined
        self.states += interp.n_states

    # -----------------------------------------------------------------
    def finish(self, t0, seed=0):
        for name, r in self.rules.items():
            if r["n"] < r["floor"]:
                self.broken.append(
                    f"rule {name}: {r['n']} instances found, at least "
                    f"{r['floor']} expected (anchor lost?)"
                )
        known = load_known(self.prop)
        violations, knowns = [], []
        for key, f in sorted(self.findings.items()):
            if key in known:
                knowns.append((key, f, known[key]))
            else:
                violations.append((key, f))
        evid = VERIF / "evidence"
        evid.mkdir(exist_ok=True)
        n_obl = len(self.obligations) + len(self.findings)
        data = {
            "property": self.prop,
            "tier": self.tier,
            "seed": seed,
            "level": "other",
            "violations": len(violations),
            "coverage": {
                "explanation": (
                    "Static analysis of the current source tree of fluidimage "
                    "(nothing is executed): each rule below was applied to every "
                    "construct found by its anchor; an obligation is one rule "
                    "applied to one construct (function, call site, path)."
                ),
                "rules": {
                    k: dict(rule=v["text"], instances=v["n"])
                    for k, v in self.rules.items()
                },
                "obligations": n_obl,
                "obligations_discharged": len(self.obligations),
                "undecided": [list(map(str, u)) for u in
                              list(dict.fromkeys(self.undecided))[:60]],
                "modules_analysed": len(self.p.modules),
                "functions_analysed_in_context": sorted(self.functions)[:200],
                "abstract_states": self.states,
                "known_findings": [k for k, _, _ in knowns],
                "sample_obligations": [
                    " | ".join(map(str, o)) for o in self.obligations[:40]
                ],
                "analysis_errors": self.broken,
                "notes": self.notes,
            },
            "assumptions": [
                "opaque (non fluidimage) callees behave as documented",
                "loops are analysed for a bounded number of abstract iterations",
            ],
            "wall_s": round(time.time() - t0, 2),
        }
        (evid / f"{self.prop}.json").write_text(json.dumps(data, indent=1))
        for key, f, text in knowns:
            print(f"KNOWN-FINDING: property={self.prop} {key} :: {text}")
        for rule, where, why in list(dict.fromkeys(self.undecided))[:20]:
            print(f"note: undecided {rule} {where}: {why}")
        if violations:
            vpath = evid / f"{self.prop}.violations.json"
            vpath.write_text(
                json.dumps([dict(key=k, **f) for k, f in violations], indent=1,
                           default=str)
            )
            for key, f in violations:
                print(f"  {f['rule']}: {f['where']}"
                      + (f" (line {f['line']})" if f["line"] else "")
                      + f": {f['message']}")
                for p in f["path"][:25]:
                    print(f"      {p}")
            print(f"VIOLATION property={self.prop} replay={vpath}")
            return 1
        if self.broken:
            for b in self.broken:
                print("ANALYSIS BROKEN:", b, file=sys.stderr)
            return 2
        print(
            f"OK property={self.prop}: {n_obl} obligations, "
            f"{len(self.rules)} rules, {len(self.undecided)} undecided"
        )
        return 0


def guarded(ctx, func, *args):
    """run one rule; an internal failure breaks the check, not other rules"""
    try:
        func(ctx, *args)
    except AnalysisBroken as err:
        ctx.broken.append(f"{func.__name__}: {err}")
    except Exception:
        ctx.broken.append(
            f"{func.__name__}: internal error\n" + traceback.format_exc()
        )


def fmt_trace(trace, last=25):
    return [f"{ev.where}: {repr(ev)[:220]}" for ev in trace[-last:]]
