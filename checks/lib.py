"""Shared machinery of the checks: obligations, reports, evidence, known findings, loading of programs."""
import json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from engine import extract
from engine.interp import *
from engine.effects import *
from engine.dom import *
from engine.models import slice_key, ok, err, some, NONE
import engine.models

_progs = {}
ONLY = None   # (crate, configuration) a check is confined to, see config.py
def cfgs(*names): return names if ONLY is None else (ONLY[1],)
def crates(*names): return names if ONLY is None else (ONLY[0],)
def prog(crate, config="std"):
    if ONLY is not None: config = ONLY[1]
    k = (crate, config)
    if k not in _progs: _progs[k] = Prog(extract.dump(config), crate)
    return _progs[k]
JSON, MP, CORE = "ser_write_json", "ser_write_msgpack", "ser_write"

class Check:
    """one run of one property's check"""
    def __init__(self, pid, tier="quick", level="proof"):
        self.pid = pid; self.tier = tier; self.level = level; self.t0 = time.time()
        self.obs = []          # (rule, where, ok, detail)
        self.fns = {}          # function -> paths analysed
        self.units = 0; self.paths = 0; self.states = 0
        self.samples = []; self.rules = []; self.assume = []; self.notes = []
        self.extra = {}
    def rule(self, r):
        if r not in self.rules: self.rules.append(r)
    def ob(self, rule, where, ok, detail=""):
        """ok: True discharged / False violated / None undecided"""
        self.obs.append((rule, where, ok, detail))
        if ok and len(self.samples) < 12 and not any(s["rule"] == rule and s["where"] == where for s in self.samples):
            if sum(1 for s in self.samples if s["rule"] == rule) < 3:
                self.samples.append({"rule": rule, "where": where, "detail": str(detail)[:200]})
        return ok
    def undecided(self, where, why): self.ob("analysable", where, None, why)
    def used(self, I, rs=()):
        for k in I.visited:
            b = I.prog.bodies.get(k)
            if b is not None and b.local: self.fns[b.path] = self.fns.get(b.path, 0)
        self.paths += len(rs); self.units += 1
    def finish(self):
        known = {}
        kf = os.path.join(ROOT, "known_findings.jsonl")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if not l: continue
                d = json.loads(l)
                if d.get("status") == "known" and d["property"] == self.pid: known[d["key"]] = d
        bad = {}
        for r, w, o, d in self.obs:
            if o is False: bad.setdefault("%s @ %s" % (r, w), []).append(str(d))
        new = {k: v for k, v in bad.items() if k not in known}
        und = [(r, w, d) for r, w, o, d in self.obs if o is None]
        disch = sum(1 for x in self.obs if x[2] is True)
        for k in bad:
            if k in known: print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k].get("what", k)))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        byrule = {}
        for r, w, o, d in self.obs:
            x = byrule.setdefault(r, [0, 0, 0]); x[0] += 1; x[1] += o is True; x[2] += o is None
        cov = {"obligations": len(self.obs), "discharged": disch,
               "undecided": len(und), "undecided_sites": [{"rule": r, "where": w, "why": str(d)[:200]} for r, w, d in und[:20]],
               "by_rule": {r: {"obligations": a, "discharged": b, "undecided": c} for r, (a, b, c) in sorted(byrule.items())},
               "functions_analysed": len(self.fns), "functions": sorted(self.fns)[:80],
               "entry_points": self.units, "abstract_paths": self.paths,
               "rules": self.rules, "samples": self.samples or [{"rule": "none", "where": "-", "detail": "-"}],
               "known_findings": [k for k in bad if k in known],
               "checker_cmd": "python3 check.py %s" % self.pid,
               "trusted_base": ["rustc (MIR construction, type checking)", "engine/ (abstract interpreter, interval/linear domain, loop invariants)",
                                "models of std/serde items listed in engine/models.py"],
               "explanation": "static: abstract interpretation / dataflow over the MIR rustc produces from /repo's current tree; nothing of /repo is executed"}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), %d functions, %d paths, %.1fs" % (
            self.pid, len(self.obs), disch, len(und), len(bad), len(bad) - len(new), len(self.fns), self.paths, time.time() - self.t0))
        for r, w, d in sorted(set((r, w, str(d)) for r, w, d in und))[:10]: print("UNDECIDED %s @ %s: %s" % (r, w, str(d)[:300]))
        if new:
            rp = os.path.join(ROOT, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for k, v in new.items():
                    f.write("%s\n" % k)
                    for x in sorted(set(v))[:20]: f.write("    %s\n" % x)
            for k, v in list(new.items())[:20]: print("  violated: %s :: %s" % (k, v[0][:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0

# ------------------------------------------------------------------ running one root
def is_ok(v): return isinstance(v, Enum) and v.name == "Ok"
def is_err(v): return isinstance(v, Enum) and v.name == "Err"
def variant(v):
    """name of an error / option variant inside Err(..) or Some(..)"""
    x = v.f[0] if isinstance(v, Enum) and v.f else None
    return x.name if isinstance(x, Enum) else None

def run(chk, P, body, handler, args=None, pre=None, ptrbits=64, maxpaths=4000):
    """abstractly execute one function from an arbitrary initial state; returns (interp, results, args)"""
    I = Interp(P, handler, ptrbits=ptrbits, maxpaths=maxpaths)
    I.chk = chk
    box = {}
    def mk(I, st):
        handler.setup(st)
        a = [I.fresh(st, t, "a%d" % i) for i, t in enumerate(body.locals[1:1 + body.nargs])]
        if args: args(I, st, a)
        if pre: pre(I, st, a)
        box["a"] = a
        return a
    try: rs = I.run_root(body, mk)
    except RecursionError as e:
        rs = [Result("imprecise", "recursion limit", State(), body.path)]
    except RuntimeError as e:
        rs = [Result("imprecise", str(e), State(), body.path)]
    except Exception as e:
        if os.environ.get("SA_TB"): traceback.print_exc()
        rs = [Result("imprecise", "%s: %s" % (type(e).__name__, e), State(), body.path)]
    if chk is not None: chk.used(I, rs)
    return I, rs, box.get("a")

def where(body):
    r = body.root or {}
    s = (r.get("selfs") or "").replace("'_", "").strip()
    t = (r.get("trait") or "").split("::")[-1]
    n = r.get("name") or body.path
    return "%s%s%s" % (s + "::" if s else "", t + "::" if t else "", n)

# ------------------------------------------------------------------ independent jobs in parallel
_jobs = None
def _job(i):
    chk, js = _jobs
    c = Check(chk.pid, chk.tier, chk.level)
    try: js[i](c)
    except Exception as e:
        if os.environ.get("SA_TB"): traceback.print_exc()
        c.undecided("job %d" % i, "%s: %s" % (type(e).__name__, e))
    return i, [(r, w, o, str(d)[:500]) for r, w, o, d in c.obs], c.fns, c.units, c.paths, c.samples, c.rules, c.notes
def par(chk, jobs, procs=None):
    """run jobs (functions of a Check) in forked processes and merge what they report, in order"""
    global _jobs
    procs = procs or int(os.environ.get("SA_PROCS", "0")) or min(8, os.cpu_count() or 1)
    if len(jobs) <= 1 or procs == 1 or os.environ.get("SA_SEQ"):
        for j in jobs: j(chk)
        return
    import multiprocessing as mp
    _jobs = (chk, jobs)
    with mp.get_context("fork").Pool(min(procs, len(jobs)), maxtasksperchild=8) as pool:
        out = dict((r[0], r) for r in pool.imap_unordered(_job, range(len(jobs))))
    for i in range(len(jobs)):
        _, obs, fns, units, paths, samples, rules, notes = out[i]
        chk.obs += obs
        for k, v in fns.items(): chk.fns[k] = chk.fns.get(k, 0) + v
        chk.units += units; chk.paths += paths
        for s in samples:
            if len(chk.samples) < 12 and sum(1 for t in chk.samples if t["rule"] == s["rule"]) < 3: chk.samples.append(s)
        for r in rules: chk.rule(r)
        chk.notes += notes
