"""Collects the outcome of one check and writes its evidence file."""
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)      # where evidence/ and replays/ are written


class Check(object):
    def __init__(self, prop, tier, technique, level="proof"):
        self.prop, self.tier, self.level = prop, tier, level
        self.replayed = []
        self.t0 = time.time()
        self.obls = []            # (name, status, backend, seconds, detail)
        self.functions = {}       # function -> contract summary
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.bounded = []
        self.solver_s = 0.0
        self.known = load_known(prop)
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.replay_n = 0
        self.technique = technique
        self.undecided = []

    # -- obligations ----------------------------------------------------------
    def ok(self, name, backend, secs=0.0, detail=""):
        self.obls.append((name, "discharged", backend, secs, detail))

    def open(self, name, why):
        """the verifier did not accept the obligation (not by itself a violation)"""
        self.obls.append((name, "open", "", 0.0, why))

    def bound(self, name, what):
        self.bounded.append({"obligation": name, "bounded": what})

    def agreed(self, what, n):
        """thorough tier: the discharged contract evaluated against the compiled code all the same"""
        self.replayed.append((what, n))

    def function(self, name, contract):
        self.functions[name] = contract

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def finding(self, ident, text):
        if (ident, text) not in self.findings:
            self.findings.append((ident, text))

    def violation(self, name, payload, failing_input=True):
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        self.replay_n += 1
        path = os.path.join(d, "%s_%d.json" % (self.prop, self.replay_n))
        payload = dict(payload)
        payload["property"] = self.prop
        payload["failed_obligation"] = name
        with open(path, "w") as f:
            json.dump(payload, f, indent=1, default=str)
        self.violations.append((name, path, failing_input))

    # -- end --------------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        dis = [o for o in self.obls if o[1] == "discharged"]
        opn = [o for o in self.obls if o[1] != "discharged"]
        back = {}
        for o in dis:
            back[o[2]] = back.get(o[2], 0) + 1
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "obligations": max(len(self.obls), 1), "discharged": len(dis),
                "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (self.prop, self.tier),
                "trusted_base": ["clang 18 parser (AST of /repo/src)", "/verif/dv symbolic executors and normaliser"] +
                                sorted("back end: %s (%d obligations)" % kv for kv in back.items()),
                "functions_under_contract": self.functions,
                "obligation_names": ["%s [%s %.2fs]" % (o[0], o[2], o[3]) for o in dis][:400],
                "open_obligations": ["%s: %s" % (o[0], o[4]) for o in opn][:100],
                "bounded_standins": self.bounded[:200],
                "replayed_on_the_compiled_code": ["%s: %d evaluations agree" % r for r in self.replayed[:200]],
                "solver_s": round(self.solver_s + sum(o[3] for o in self.obls), 3),
                "known_findings": [f[1] for f in self.findings],
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(self.violations),
        }
        if self.level != "proof":
            ev["coverage"].setdefault("scope", "see functions_under_contract")
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d open, %d bounded stand-ins, %.1f s"
              % (self.prop, len(self.obls), len(dis), len(opn), len(self.bounded), wall))
        for o in opn[:20]:
            print("  open: %s: %s" % (o[0], str(o[4])[:160]))
        for i, t in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        for n, p, inp in self.violations:
            print("  failed obligation: %s" % n)
            print("VIOLATION property=%s replay=%s%s" % (self.prop, p, "" if inp else " no-failing-input-found"))
        return 1 if self.violations else 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return dict((k["id"], k) for k in json.load(open(p))["findings"] if prop in k["properties"])
