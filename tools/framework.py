"""Runs a rule, compares what it reports with the known findings, writes the evidence file."""
import importlib, json, os, time
import frontend, ir
from frontend import Broken, VERIF

_prog = None


def program():
    global _prog
    if _prog is None: _prog = ir.Program()
    return _prog


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.reports = []; self.counts = {}; self.samples = []; self.notes = []; self.assume = []
        self.rule = ""; self._ex = None

    @property
    def p(self): return program()

    @property
    def ex(self):
        if self._ex is None: self._ex = ir.Exprs(self.p)
        return self._ex

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 24: self.samples.append(s)

    def report(self, key, where, msg):
        """key: stable identity (function + what is wrong, no line numbers)"""
        for r in self.reports:
            if r["key"] == key: return
        self.reports.append({"key": key, "where": where, "msg": msg})

    def floor(self, k, n):
        """the rule's anchors must exist: fewer instances than confirmed on the original tree's classes is a broken analysis"""
        if self.counts.get(k, 0) < n and not self.reports:
            raise Broken(f"only {self.counts.get(k, 0)} instances of '{k}' were analysed, at least {n} are expected")


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run(pid, tier):
    ctx = Ctx(pid, tier)
    mod = importlib.import_module("rules." + RULES[pid])
    getattr(mod, "run_" + pid)(ctx)
    kf = {f["key"]: f for f in known()["findings"] if f["property"] == pid}
    viol = [r for r in ctx.reports if r["key"] not in kf]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    replay = f"{VERIF}/evidence/{pid}.violations.txt"
    for r in ctx.reports:
        if r["key"] in kf:
            print(f"KNOWN-FINDING: property={pid} {kf[r['key']]['what']} [{r['where']}]")
    cov = {"explanation": ctx.rule, **{k: v for k, v in sorted(ctx.counts.items())}, "samples": ctx.samples}
    if ctx.notes: cov["notes"] = ctx.notes
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": ctx.assume, "violations": len(viol), "wall_s": round(time.time() - ctx.t0, 2)}
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    if viol:
        with open(replay, "w") as fh:
            fh.write(f"property {pid}: re-run with: python3 {VERIF}/check.py {pid} --tier {tier}\nrule: {ctx.rule}\n")
            for r in viol: fh.write(f"\n{r['where']}: {r['msg']}\n  key: {r['key']}\n")
        for r in viol[:25]:
            print(f"VIOLATION property={pid} replay={replay} {r['where']}: {r['msg']} {{{r['key']}}}")
        return 1
    if os.path.exists(replay): os.unlink(replay)
    print(f"OK property={pid} " + " ".join(f"{k}={v}" for k, v in sorted(ctx.counts.items()) if isinstance(v, int)))
    return 0


RULES = {
    "C01": "aead", "C02": "kernels", "C03": "aead",
    "C04": "guards", "C05": "guards", "C06": "errors", "C07": "entropy", "C08": "seeds", "C09": "erase", "C10": "absorb", "C11": "keys", "C12": "names", "C13": "tiling", "C14": "serial", "C15": "parallel", "C16": "state", "C17": "helpers", "C18": "rng", "C22": "counter", "C20": "authrule", "C21": "authrule",
}
