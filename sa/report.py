"""Property registry, obligations, findings, evidence."""
from __future__ import annotations

import json
import os
import time

from .project import AnalysisError, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REGISTRY: dict = {}


class Prop:
    pass


def prop(pid, title, statement, over, quant, why, files, mechanism, technique, note, state=None, assumptions=()):
    assert len(title) <= 80, (pid, len(title))

    def deco(fn):
        p = Prop()
        p.id, p.title, p.statement, p.over, p.quant, p.why = pid, title, " ".join(statement.split()), over, " ".join(quant.split()), " ".join(why.split())
        p.files, p.mechanism, p.technique, p.note, p.state = files, mechanism, technique, " ".join(note.split()), state or []
        p.assumptions = list(assumptions)
        p.fn = fn
        assert pid not in REGISTRY, pid
        REGISTRY[pid] = p
        return fn
    return deco


class Ctx:
    def __init__(self, p, proj, tier):
        self.prop, self.proj, self.tier = p, proj, tier
        self.rules: dict = {}
        self.violations: dict = {}
        self.stats: dict = {}
        self.functions: set = set()
        self.samples: list = []
        self.explanation = ""
        self.seen: dict = {}

    def rule(self, name, text):
        self.rules.setdefault(name, {"text": text, "instances": 0, "ok": 0})

    def ob(self, rule, ok, construct, where, msg="", trace=None):
        """One obligation: rule instance at a construct; a false one is a finding."""
        r = self.rules.setdefault(rule, {"text": rule, "instances": 0, "ok": 0})
        self.stat("path_checks")
        ident = (rule, construct, where)
        if ident not in self.seen:
            self.seen[ident] = bool(ok)
            r["instances"] += 1
            r["ok"] += bool(ok)
        elif not ok and self.seen[ident]:
            self.seen[ident] = False
            r["ok"] -= 1
        if ok:
            if len(self.samples) < 12 and f"{rule}: {construct} @ {where}" not in self.samples:
                self.samples.append(f"{rule}: {construct} @ {where}")
        else:
            key = f"{rule}|{construct}"
            self.violations.setdefault(key, {"rule": rule, "rule_text": r["text"], "construct": construct, "where": where, "message": msg, "trace": trace or []})
        return ok

    def fail(self, rule, construct, where, msg, trace=None):
        return self.ob(rule, False, construct, where, msg, trace)

    def floor(self, rule, n):
        got = self.rules.get(rule, {"instances": 0})["instances"]
        if got < n and not self.violations:
            raise AnalysisError(f"rule {rule}: {got} instances found, at least {n} expected (anchor vanished)")

    def need(self, cond, what):
        if not cond:
            raise AnalysisError(what)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def absorb(self, it):
        """Account for one interpreter run."""
        self.stat("statements_interpreted", it.steps)
        self.stat("opaque_calls", it.opaque_calls)
        self.stat("entry_functions")
        self.functions |= it.visited_funcs


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                parts = dict(x.split("=", 1) for x in line[9:].split(" :: ")[0].split(" ", 1))
                if parts.get("property") == pid:
                    out[parts["key"].strip()] = line.split(" :: ", 1)[1] if " :: " in line else ""
    return out


def execute(pid, tier, seed):
    t0 = time.time()
    p = REGISTRY[pid]
    proj = Project()
    ctx = Ctx(p, proj, tier)
    from . import interp
    interp.MAX_STATES = 192 if tier == "thorough" else 48    # states kept apart before merging: more correlated paths
    try:
        p.fn(ctx)
    except AnalysisError:
        if not ctx.violations:
            raise
    known = load_known(pid)
    new = {k: v for k, v in ctx.violations.items() if k not in known}
    old = {k: v for k, v in ctx.violations.items() if k in known}
    for r in ctx.rules.values():
        r["text"] = " ".join(r["text"].split())
    nob = sum(r["instances"] for r in ctx.rules.values())
    if nob == 0:
        raise AnalysisError("no obligation was generated")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": f"Static analysis ({p.technique}) of the current source; nothing is executed. " + p.note,
            "rules": ctx.rules,
            "obligations": nob,
            "discharged": sum(r["ok"] for r in ctx.rules.values()),
            "functions_analysed": sorted(ctx.functions)[:400],
            "functions_analysed_count": len(ctx.functions),
            "interpreter": ctx.stats,
            "samples": ctx.samples,
            "source": {"root": proj.root, "modules": len(proj.modules), "classes": len(proj.classes), "functions": len(proj.functions), "sha256_16": proj.digest()},
            "known_findings_matched": sorted(old),
            "findings": [v for _, v in sorted(new.items())],
        },
        "assumptions": p.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={pid} {k} {known[k]}")
    rp = os.path.join(VERIF, "evidence", f"{pid}.findings.json")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, "w", encoding="utf-8") as f:
            json.dump([v for _, v in sorted(new.items())], f, indent=1)
        for k, v in sorted(new.items()):
            print(f"  [{v['rule']}] {v['construct']} at {v['where']}: {v['message']}")
            for t in v["trace"][:12]:
                print(f"      {t}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} obligations={nob} functions={len(ctx.functions)} wall={ev['wall_s']}s")
    return 0
