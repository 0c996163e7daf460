"""Reporting layer shared by all checks: obligations, known findings, floors, evidence, exit codes."""
from __future__ import annotations

import json
import os
import time
from typing import Dict, List

from .prog import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid: str, tier: str, prog: Program):
        self.pid = pid
        self.tier = tier
        self.prog = prog
        self.t0 = time.time()
        self.obligations: Dict[tuple, dict] = {}
        self.broken: List[str] = []
        self.undecided: List[dict] = []
        self.counts: Dict[str, int] = {}
        self.functions = set()
        self.assumptions: List[str] = []
        self.rules: Dict[str, str] = {}
        self.paths = 0

    # ---- rule registration
    def rule(self, name, text):
        self.rules[name] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def analysed(self, *fns):
        for f in fns:
            if f is not None:
                self.functions.add(getattr(f, "qual", str(f)))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # ---- obligations
    def ob(self, rule, construct, ok, msg="", where=""):
        """One obligation.  `construct` identifies it independently of line numbers."""
        k = (rule, construct)
        o = self.obligations.get(k)
        if o is None:
            o = self.obligations[k] = {"rule": rule, "construct": construct, "ok": True, "msg": "", "where": where}
        if not ok and o["ok"]:
            o["ok"] = False
            o["msg"] = msg
            o["where"] = where or o["where"]
        return ok

    def undecide(self, rule, construct, why):
        self.undecided.append({"rule": rule, "construct": construct, "why": why})

    def floor(self, what, have, need):
        if have < need:
            self.broken.append(f"{what}: only {have} instances found, {need} confirmed on the reference tree")

    # ---- finish
    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as fh:
            return [f for f in json.load(fh)["findings"] if f["property"] == self.pid]

    def finish(self, seed: int) -> int:
        bad = [o for o in self.obligations.values() if not o["ok"]]
        known = self.known()
        kmap = {(k["rule"], k["construct"]): k for k in known}
        viol, kf = [], []
        for o in bad:
            k = kmap.get((o["rule"], o["construct"]))
            (kf if k else viol).append(o)
        nob = len(self.obligations)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": "static analysis of /repo's current source; " + "; ".join(f"{k}: {v}" for k, v in self.rules.items()),
                "modules_parsed": len(self.prog.modules),
                "functions_in_program": len(self.prog.all_funcs),
                "functions_analysed": len(self.functions),
                "obligations": nob,
                "discharged": nob - len(bad),
                "undecided": len(self.undecided),
                "known_findings": len(kf),
                "paths": self.paths,
                "counts": self.counts,
                "rules": self.rules,
                "obligations_by_rule": _by_rule(self.obligations.values()),
                "samples": [f"{o['rule']}: {o['construct']}" for o in list(self.obligations.values())[:: max(1, nob // 25)]][:40],
                "undecided_sites": self.undecided[:60],
                "functions": sorted(self.functions)[:400],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print(f"{self.pid}: {nob} obligations over {len(self.functions)} functions, {nob - len(bad)} discharged, "
              f"{len(self.undecided)} undecided, {round(time.time() - self.t0, 1)} s")
        for o in kf:
            print(f"KNOWN-FINDING: property={self.pid} {o['rule']} {o['construct']}: {o['msg']}")
        if viol:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.violations.json")
            with open(rp, "w") as fh:
                json.dump(viol, fh, indent=1, default=str)
            for o in viol:
                print(f"  [{o['rule']}] {o['construct']} at {o['where']}: {o['msg']}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.broken:
            for b in self.broken:
                print(f"ANALYSIS-BROKEN property={self.pid} {b}")
            return 3
        return 0


def _by_rule(obs):
    d = {}
    for o in obs:
        d[o["rule"]] = d.get(o["rule"], 0) + 1
    return d
