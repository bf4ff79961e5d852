"""Check runner: obligations, findings, known findings, evidence, exit codes."""

from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

from .model import AnalysisBroken, Program, load

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


class Ctx:
    """What one check analysed and what it found."""

    def __init__(self, prop: str, repo: str, tier: str):
        self.prop = prop
        self.repo = repo
        self.tier = tier
        self.thorough = tier == "thorough"
        self.rules: dict[str, dict] = {}
        self.findings: dict[str, dict] = {}
        self.assumptions: list[str] = []
        self.extra: dict[str, str] = {}      # reference modules, set before the program is loaded
        self._prog: Program | None = None
        self._eng = None

    # -- program
    @property
    def p(self) -> Program:
        if self._prog is None:
            self._prog = load(self.repo, self.extra)
        return self._prog

    @property
    def eng(self):
        if self._eng is None:
            from .effects import Engine, analysis_scope
            self._eng = Engine(self.p, analysis_scope).run()
        return self._eng

    # -- recording
    def rule(self, rid: str, text: str, minimum: int = 1):
        self.rules[rid] = {"text": text, "minimum": minimum, "obligations": 0, "examples": []}

    def ob(self, rid: str, construct: str):
        """One discharged-or-violated obligation of rule rid."""
        r = self.rules[rid]
        r["obligations"] += 1
        if len(r["examples"]) < 400:
            r["examples"].append(construct)

    def bad(self, rid: str, construct: str, where: str, msg: str, trace=()):
        key = f"{rid}|{construct}"
        if key not in self.findings:
            self.findings[key] = {"rule": rid, "construct": construct, "where": where,
                                  "message": msg, "trace": list(trace)}

    def assume(self, text: str):
        self.assumptions.append(text)

    def require(self, cond, msg: str):
        if not cond:
            raise AnalysisBroken(msg)


def known_findings(prop: str) -> dict[str, str]:
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith(f"known: property={prop} "):
                    rest = line.split(" ", 2)[2]
                    key, _, what = rest.partition(" :: ")
                    out[key.removeprefix("key=").strip()] = what.strip()
    return out


def main(argv) -> int:
    if len(argv) < 2:
        print("usage: run.py PROPERTY [quick|thorough]")
        return 2
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.setrecursionlimit(100000)
    t0 = time.time()
    ctx = Ctx(prop, repo, tier)
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
        mod.check(ctx)
        for rid, r in ctx.rules.items():
            if r["obligations"] < r["minimum"]:
                raise AnalysisBroken(
                    f"rule {rid}: {r['obligations']} instances found, at least {r['minimum']} "
                    "expected; the code the rule is anchored in is gone")
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop} internal error")
        return 3
    known = known_findings(prop)
    viol = {k: v for k, v in ctx.findings.items() if k not in known}
    for k, v in sorted(ctx.findings.items()):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]} [{v['where']}]")
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, f"{prop}.findings.json")
    if viol:
        with open(replay, "w", encoding="utf-8") as fh:
            json.dump({"property": prop, "findings": list(viol.values())}, fh, indent=1)
        for v in viol.values():
            print(f"  {v['where']}: [{v['rule']}] {v['construct']}: {v['message']}")
            for t in v["trace"]:
                print(f"      via {t}")
        print(f"VIOLATION property={prop} replay={replay}")
    elif os.path.exists(replay):
        os.remove(replay)
    write_evidence(ctx, mod, viol, known, time.time() - t0)
    n = sum(r["obligations"] for r in ctx.rules.values())
    print(f"property={prop} tier={tier} rules={len(ctx.rules)} obligations={n} "
          f"violations={len(viol)} wall={time.time() - t0:.1f}s")
    return 1 if viol else 0


def write_evidence(ctx: Ctx, mod, viol, known, wall):
    rules = []
    for rid, r in ctx.rules.items():
        rules.append({"rule": rid, "what": r["text"], "obligations": r["obligations"],
                      "minimum": r["minimum"], "analysed": r["examples"]})
    p = ctx._prog
    text = "; ".join(f"{r['rule']}: {r['what']} ({r['obligations']} obligations)" for r in rules)
    ev = {
        "property": ctx.prop,
        "tier": "thorough" if ctx.thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": f"Static analysis of {ctx.repo}/lib/b_asic as it is on disk. {text}",
            "modules": len(p.modules) if p else 0,
            "classes": len(p.classes) if p else 0,
            "functions": len(p.funcs) if p else 0,
            "functions_summarised": len(ctx._eng.sum) if ctx._eng else 0,
            "rules": rules,
            "known_findings": sorted(known[k] for k in ctx.findings if k in known),
            "violations_found": [f"{v['where']}: [{v['rule']}] {v['construct']}: {v['message']}"
                                 for v in viol.values()],
        },
        "wall_s": round(wall, 2),
        "assumptions": ctx.assumptions,
        "violations": len(viol),
    }
    with open(os.path.join(ROOT, "evidence", f"{ctx.prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
