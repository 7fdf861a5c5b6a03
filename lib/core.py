"""Shared driver: the analysed program, reporting, evidence and known findings."""
import json
import os
import sys
import time

import absint
import frontend
from grammar import Grammar

VERIF = frontend.VERIF


class Broken(Exception):
    """the check cannot give an answer"""


class Program:
    """lazily computed facts shared by the parts of one check"""

    def __init__(self):
        self.prog = frontend.prepare()
        self.grammar = Grammar(self.prog.grammar_xml)
        self._acts = None

    @property
    def acts(self):
        if self._acts is None:
            from actions import Actions
            a = Actions(self.prog, self.grammar)
            a.looked = {}
            a.visits = a.solve()
            self._acts = a
        return self._acts


class Check:
    def __init__(self, pid, tier, seed, program=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = program
        self.t0 = time.time()
        absint.Clock.start(3000 if self.thorough else 450)
        self.viol = []
        self.known_hit = []
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.rules = []
        self.functions = set()
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0
        self.known = []
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d.get("status") == "known" and d["property"] == pid:
                        self.known.append(d)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, text):
        self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what:
            self.count(what)

    def violation(self, key, where, message, detail=None):
        self.obligations += 1
        for d in self.known:
            if d["key"] == key:
                if key not in [k for k, _ in self.known_hit]:
                    self.known_hit.append((key, d["what"]))
                return
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append({"key": key, "where": where, "message": message, "detail": detail})

    def undecide(self, what, why):
        self.obligations += 1
        self.undecided.append({"what": what, "why": why})

    def need(self, cond, what):
        if not cond:
            raise Broken("anchor missing: " + what)

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": " ".join(self.rules),
                "obligations": self.obligations, "discharged": self.discharged, "undecided": self.undecided[:60],
                "undecided_count": len(self.undecided), "counts": self.counts, "samples": self.samples,
                "units_analysed": self.p.prog.units if self.p else [],
                "functions_in_program": len(self.p.prog.functions) if self.p else 0,
                "functions_evaluated": sorted(self.functions)[:300],
                "generated_sources": self.p.prog.generated if self.p else [],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viol),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(d, self.pid + ".violation.json")
        for key, what in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.viol:
            with open(rp, "w") as f:
                json.dump(self.viol, f, indent=1, default=str)
            for v in self.viol[:20]:
                print("%s: %s" % (v["where"], v["message"]))
                if v.get("detail"):
                    print("    " + str(v["detail"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        if self.discharged == 0:
            for u in self.undecided[:3]:
                print("undecided: %s: %s" % (u["what"], u["why"]))
            print("error: %s: nothing could be decided" % self.pid)
            return 2
        print("%s: %d obligations, %d discharged, %d undecided (%.1f s)" % (self.pid, self.obligations, self.discharged,
                                                                           len(self.undecided), time.time() - self.t0))
        return 0
