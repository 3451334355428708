import json, os, time
from .facts import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []          # (key, where, text)
        self.obl = 0
        self.samples = []
        self.counts = {}
        self.expl = []
        self.assume = []
        self.t0 = time.time()
        self._seen = set()
        self.lost = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, text=None):
        """one discharged obligation"""
        self.obl += 1
        if text and len(self.samples) < 12:
            self.samples.append(text)

    def violation(self, key, where, text):
        self.obl += 1
        if key in self._seen:
            return
        self._seen.add(key)
        self.viol.append((key, where, text))

    def need(self, name, have, atleast):
        """instance floor: a rule that matches fewer sites than confirmed by hand has lost its anchors"""
        self.counts[name] = have
        if have < atleast:
            self.lost.append("%s: only %d instances of '%s' found (at least %d expected): the rule lost its anchors"
                                % (self.prop, have, name, atleast))

    def known(self):
        if not os.path.exists(KNOWN):
            return {}
        return {e["key"]: e for e in json.load(open(KNOWN))["findings"] if e["property"] == self.prop}

    def found(self):
        known = self.known()
        return any(v[0] not in known for v in self.viol)

    def finish(self, P=None):
        known = self.known()
        new = [v for v in self.viol if v[0] not in known]
        if self.lost and not new:
            raise AnalysisError("; ".join(self.lost))
        old = [v for v in self.viol if v[0] in known]
        for k, w, t in old:
            print("KNOWN-FINDING: property=%s %s [%s] (%s)" % (self.prop, known[k]["what"], k, w))
        ev = os.environ.get("AMG_EVID", os.path.join(VERIF, "evidence"))
        os.makedirs(ev, exist_ok=True)
        cov = {"explanation": " ".join(self.expl), "obligations": self.obl, "discharged": self.obl - len(self.viol),
               "counts": self.counts, "samples": self.samples}
        if P is not None:
            cov["translation_units"] = len(P.tus)
            cov["functions_in_program"] = len(P.fns)
            cov["reextracted_units"] = P.n_extracted
        rec = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
               "level": "other", "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
               "violations": len(new)}
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(rec, f, indent=1)
        if new:
            rp = os.path.join(ev, self.prop + ".violations.txt")
            with open(rp, "w") as f:
                for k, w, t in new:
                    f.write("%s: %s\n    instance: %s\n" % (w, t, k))
            for k, w, t in new[:40]:
                print("%s: %s  [%s]" % (w, t, k))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: %d obligations, %d discharged, %d known findings, no violation (%.1f s)"
              % (self.prop, self.obl, self.obl - len(self.viol), len(old), time.time() - self.t0))
        return 0
