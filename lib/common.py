"""Shared by all checks: findings, evidence, exit status."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import front
from front import Fatal


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.viol = []      # (key, text)
        self.seen = set()
        self.cov = {}
        self.assume = []
        self.ob = 0
        self.ok = 0
        self.samples = []
        self.known = {}
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("known: property=%s " % pid):
                    rest = l.split(" ", 2)[2]
                    key, _, desc = rest.partition(" -- ")
                    self.known[key.replace("key=", "", 1).strip()] = desc
        self.usedknown = set()

    def obligation(self, ok=True, sample=None):
        self.ob += 1
        if ok:
            self.ok += 1
        if sample is not None and len(self.samples) < 8:
            self.samples.append(sample)

    def violate(self, key, text):
        """key: stable identity of the violating construct (no line
        numbers); text: full report."""
        if key in self.seen:
            return
        self.seen.add(key)
        if key in self.known:
            self.usedknown.add(key)
            return
        self.viol.append((key, text))

    def floor(self, name, n, minimum):
        self.cov[name] = n
        if n < minimum:
            raise Fatal("%s: only %d instances, expected at least %d: the "
                        "analysis no longer sees its subject" %
                        (name, n, minimum))

    def finish(self, rule, explanation):
        for k in sorted(self.usedknown):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["explanation"] = explanation
        cov["rule"] = rule
        cov["obligations"] = self.ob
        cov["discharged"] = self.ok
        if self.samples:
            cov["samples"] = self.samples
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "other", "coverage": cov,
              "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (k, t) in enumerate(self.viol[:40]):
                rp = os.path.join(rd, "%s-%d.txt" % (self.pid, i))
                with open(rp, "w") as f:
                    f.write("property %s\nkey: %s\nrule: %s\n%s\n" %
                            (self.pid, k, rule, t))
                print(t)
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: held (%d obligations, %.1fs)" %
              (self.pid, self.ob, time.time() - self.t0))
        return 0


def main(pid, body):
    c = Check(pid)
    try:
        r = body(c)
    except Fatal as x:
        print("%s: cannot decide: %s" % (pid, x))
        sys.exit(2)
    except Exception:
        print(traceback.format_exc()[-3000:])
        print("%s: internal error" % pid)
        sys.exit(3)
    sys.exit(r)
