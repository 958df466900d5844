"""Verdict and evidence of one check."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf8"):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                out.append(line[len(f"known: property={prop} "):])
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obls = []            # (id, status, how, detail)
        self.findings = []        # dicts with replay data
        self.notes = []
        self.assumptions = []
        self.trusted = []
        self.functions = set()
        self.bounded = {}
        self.solver = {}
        self.samples = []
        self.known = []
        self.cross = None

    def add(self, id, status, how="", detail=""):
        self.obls.append((id, status, how, detail))

    def note(self, s):
        self.notes.append(str(s)[:600])

    def finding(self, what, **data):
        """violation demonstrated on the real code"""
        self.findings.append(dict(data, what=what))

    def write_replay(self, name, data):
        d = os.path.join(ROOT, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{name}.json")
        with open(path, "w", encoding="utf8") as f:
            json.dump(data, f, indent=1, default=str)
        return path

    def finish(self):
        ok = [o for o in self.obls if o[1] == "discharged"]
        failed = [o for o in self.obls if o[1] == "failed"]
        openo = [o for o in self.obls if o[1] not in ("discharged", "failed")]
        lines, code = [], 0
        for k in self.known:
            lines.append(f"KNOWN-FINDING: property={self.prop} {k}")
        if self.findings:
            path = self.write_replay("violation", {
                "property": self.prop, "how_to_replay": "python3-vt /verif/check.py %s --replay <this file>" % self.prop,
                "findings": self.findings[:10],
                "failed_obligations": [{"obligation": o[0], "status": o[1], "detail": o[3]} for o in (failed + openo)[:20]]})
            lines.append(f"VIOLATION property={self.prop} replay={path}")
            code = 1
        elif failed:
            path = self.write_replay("violation", {
                "property": self.prop, "failing_input": None,
                "failed_obligations": [{"obligation": o[0], "status": o[1], "verifier_output": o[3]} for o in failed[:40]],
                "search": self.bounded})
            lines.append(f"VIOLATION property={self.prop} replay={path} no-failing-input-found")
            code = 1
        for o in (failed + openo)[:6]:
            print(f"  obligation {o[0]}: {o[1]}: {str(o[3])[:300]}")
        for f in self.findings[:4]:
            print(f"  finding: {str(f['what'])[:400]}")
        for n in self.notes[:8]:
            print(f"  note: {n[:300]}")
        proof = bool(ok) and not openo and not failed
        backends = {}
        for o in ok:
            backends[o[2] or "?"] = backends.get(o[2] or "?", 0) + 1
        cov = {"obligations": len(self.obls), "discharged": len(ok),
               "checker_cmd": f"python3-vt /verif/check.py {self.prop}" + (" --thorough" if self.tier == "thorough" else ""),
               "trusted_base": self.trusted, "discharged_by": backends, "solver": self.solver,
               "functions_under_contract": sorted(self.functions), "bounded_stand_in": self.bounded,
               "open_or_unsupported": [o[0] for o in openo][:40], "failed": [o[0] for o in failed][:40],
               "samples": self.samples[:6]}
        if self.cross is not None:
            cov["cross_check"] = self.cross
        level = "proof"
        if not proof:
            level = "exploration"
            cov["evaluations"] = int(self.bounded.get("evaluations", 0)) + len(ok)
            cov["distinct_nontrivial"] = int(self.bounded.get("evaluations", 0))
            cov["rule"] = ("obligations that are open are not counted as proved; the bounded stand-in ran the real code on "
                           "generated inputs, see bounded_stand_in")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(self.findings) + (len(failed) if not self.findings else 0), "notes": self.notes[:40]}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w", encoding="utf8") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: {len(ok)}/{len(self.obls)} obligations discharged {backends}, bounded stand-in "
              f"{self.bounded.get('evaluations', 0)} evaluations, {time.time() - self.t0:.1f} s")
        for l in lines:
            print(l)
        sys.stdout.flush()
        return code
