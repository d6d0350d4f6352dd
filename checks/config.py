"""C53: the code of every feature configuration and profile is compared, function by function, with the default
configuration. Functions whose canonical MIR is the same behave the same. For those that differ, the specification
checks of the functions they can affect are decided in both configurations, and an obligation that is violated in
exactly one of the two is a difference in behaviour."""
import json, os, re, sys, time
import multiprocessing as mp
from .lib import *
from . import lib

SPECS = {
    JSON: ["C20", "C21", "C22", "C23", "C24", "C02", "C55", "C25", "C32", "C33", "C34", "C35", "C37", "C38", "C39", "C40", "C41", "C42", "C43", "C46", "C47", "C56", "C60", "C61", "C30"],
    MP: ["C03", "C04", "C05", "C06", "C07", "C08", "C09", "C02", "C55", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C59", "C61"],
    CORE: ["C01", "C54"],
}
CONFIGS = {JSON: ("nostd", "alloc", "rel", "relnostd", "f32"), MP: ("nostd", "alloc", "rel", "relnostd"), CORE: ("nostd", "alloc")}
PROFILE = {JSON: ("C30",), MP: ("C17",)}     # obligations about arithmetic that differs between checked and unchecked builds
BUDGET = 660

# ---------------------------------------------------------------------------------------------- canonical MIR
def strip(s): return re.sub(r"@[0-9]+\b", "", s) if isinstance(s, str) else s
def succ(t):
    if t[0] == "goto": return [t[1]]
    if t[0] == "switch": return [y[1] for y in t[2]] + ([t[3]] if t[3] is not None else [])
    if t[0] == "call": return [t[4]] if t[4] is not None else []
    if t[0] == "assert": return [t[-1]]
    return []
def redirect(t, f):
    if t[0] == "goto": t[1] = f(t[1])
    elif t[0] == "switch":
        for y in t[2]: y[1] = f(y[1])
        if t[3] is not None: t[3] = f(t[3])
    elif t[0] == "call":
        if t[4] is not None: t[4] = f(t[4])
    elif t[0] == "assert": t[-1] = f(t[-1])
def isplace(x): return isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list)

def canon(d, variants, b):
    """canonical form of a body: type numbers, variant numbers, line numbers, block and local numbering, drops, jumps to
    jumps, decided switches and never-read locals do not show"""
    T = d["types"]
    def ty(i): return strip(T[i]["s"]) if isinstance(i, int) else strip(i)
    def w(x):
        if isinstance(x, dict):
            if x.get("k") == "agg" and isinstance(x.get("t"), int) and "path" in T[x["t"]]:
                x = dict(x, var=variants.get((T[x["t"]]["path"], x.get("var")), x.get("var")))
            return {k: (ty(v) if k == "t" and isinstance(v, int) else [ty(y) for y in v] if k in ("args", "rargs") else w(v)) for k, v in x.items() if k not in ("l", "cl")}
        if isinstance(x, list):
            if x and x[0] == "f" and len(x) == 3 and isinstance(x[1], int): return ["f", x[1]]
            if x and x[0] == "cast" and len(x) == 4: return ["cast", x[1], w(x[2]), ty(x[3])]
            if x and x[0] == "agg" and isinstance(x[1], list) and x[1]:
                k = list(x[1])
                if k[0] == "adt": k[2] = variants.get((k[1], k[2]), k[2])
                else: k = [k[0]] + [ty(y) for y in k[1:]]
                return ["agg", k, w(x[2])]
            return [w(y) for y in x]
        return strip(x)
    B = []
    for src in b["blocks"]:
        t = src["t"]
        if t[0] == "drop": t = ["goto", t[2]]
        elif t[0] == "call": t = ["call"] + [w(y) for y in t[1:-1]]
        elif t[0] == "switch": t = ["switch", w(t[1]), [list(y) for y in t[3]], t[4]]
        elif t[0] == "assert": t = ["assert"] + [w(y) for y in t[1:]]
        else: t = list(w(t))
        B.append({"s": [w(s[:-1]) if s and s[0] == "=" else w(s) for s in src["s"]], "t": t})
    def thread(i):
        seen = set()
        while not B[i]["s"] and B[i]["t"][0] == "goto" and i not in seen: seen.add(i); i = B[i]["t"][1]
        return i
    def place(p, acc):
        acc.add(p[0])
        for e in p[1]:
            if isinstance(e, list) and e and e[0] == "i": acc.add(e[1])
    def reads(x, acc):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("c", "m") and isinstance(v, list): place(v, acc)
                else: reads(v, acc)
        elif isinstance(x, list):
            if isplace(x): place(x, acc)
            else:
                for y in x: reads(y, acc)
    while True:
        ch = False
        for bb in B:
            old = json.dumps(bb["t"]); redirect(bb["t"], thread)
            if bb["t"][0] == "switch":
                ts = set(succ(bb["t"]))
                if len(ts) == 1: bb["t"] = ["goto", ts.pop()]
            if json.dumps(bb["t"]) != old: ch = True
        live = set(); st = [0]
        while st:
            i = st.pop()
            if i not in live: live.add(i); st += succ(B[i]["t"])
        rd = set(range(0, b["nargs"] + 1))
        for i in live:
            for s in B[i]["s"]:
                if s[0] == "=":
                    reads(s[2:], rd)
                    if s[1][1]: place(s[1], rd)
                else: reads(s, rd)
            t = B[i]["t"]
            if t[0] == "call":
                reads(t[1], rd); reads(t[2], rd)
                if t[3][1]: place(t[3], rd)
            if t[0] in ("switch", "assert"): reads(t[1:2] + ([t[4]] if t[0] == "assert" and len(t) > 4 else []), rd)
        for i in live:
            ns = [s for s in B[i]["s"] if not (s[0] == "=" and not s[1][1] and s[1][0] not in rd)]
            if len(ns) != len(B[i]["s"]): B[i]["s"] = ns; ch = True
        pred = {}
        for i in live:
            for j in succ(B[i]["t"]): pred.setdefault(j, []).append(i)
        for i in sorted(live):
            while B[i]["t"][0] == "goto":
                j = B[i]["t"][1]
                if j == i or j == 0 or len(pred.get(j, [])) != 1: break
                B[i]["s"] = B[i]["s"] + B[j]["s"]; B[i]["t"] = B[j]["t"]; B[j] = {"s": [], "t": ["unreachable"]}; ch = True
                for k in succ(B[i]["t"]): pred[k] = [i if q == j else q for q in pred[k]]
        if not ch: break
    order = []; seen = set(); st = [0]
    while st:
        k = st.pop()
        if k in seen: continue
        seen.add(k); order.append(k); st += list(reversed(succ(B[k]["t"])))
    num = {k: n for n, k in enumerate(order)}
    for k in order: redirect(B[k]["t"], lambda j: num[j])
    ln = {i: i for i in range(b["nargs"] + 1)}
    def L_(i): return ln.setdefault(i, len(ln))
    def pl(p): return [L_(p[0]), [["i", L_(e[1])] if isinstance(e, list) and e and e[0] == "i" else e for e in p[1]]]
    def rn(x):
        if isinstance(x, dict): return {k: (pl(v) if k in ("c", "m") and isinstance(v, list) else rn(v)) for k, v in x.items()}
        if isinstance(x, list):
            if isplace(x) and all(y == "*" or isinstance(y, list) for y in x[1]): return pl(x)
            return [rn(y) for y in x]
        return x
    out = [[rn(B[k]["s"]), [B[k]["t"][0]] + ([rn(y) for y in B[k]["t"][1:]] if B[k]["t"][0] != "switch" else [rn(B[k]["t"][1]), B[k]["t"][2], B[k]["t"][3]])] for k in order]
    ls = {n: ty(b["locals"][i]) for i, n in ln.items()}
    return strip(json.dumps([b["nargs"], sorted(ls.items()), out], sort_keys=True))

class Code:
    """the workspace functions of one crate in one configuration, by name"""
    def __init__(self, crate, cfg):
        d = json.load(open(os.path.join(extract.dump(cfg), crate + ".json")))
        variants = {}
        for t in d["types"]:
            if "vs" in t and t.get("path"):
                for i, v in enumerate(t["vs"]): variants[(t["path"], i)] = v[0]
        self.fns = {}; self.calls = {}
        for b in d["bodies"]:
            if not b["local"]: continue
            k = strip(b["key"])
            self.fns.setdefault(k, set()).add(canon(d, variants, b))
            self.calls.setdefault(k, set()).update(strip(x) for x in re.findall(r'"body": "((?:[^"\\]|\\.)*)"', json.dumps(b["blocks"])))
        self.path = {strip(b["key"]): b["path"] for b in d["bodies"] if b["local"]}
        self.labels = {label(b["root"]) for b in d["bodies"] if b["local"] and b.get("root")}
        self.roots = {strip(b["key"]): b["root"] for b in d["bodies"] if b["local"] and b.get("root")}

    def has(self, o, other):
        """the function an obligation is about exists here (or in neither)"""
        w = o.split(" @ ", 1)[-1]
        ls = [l for l in self.labels | other.labels if w.startswith(l)]
        return not ls or max(ls, key=len) in self.labels

class _R:
    def __init__(self, r): self.root = r; self.path = ""
def label(r): return where(_R(r))

def error_impl(k):
    """clone, comparison, formatting and construction of the error types, whose custom message exists only with an allocator"""
    m = re.match(r"<((?:ser|de)::Error(?:<E>)?) as ([A-Za-z_:]+)>::(\w+)", k)
    return m and m.group(2).split("::")[-1] in ("Clone", "PartialEq", "Eq", "Hash", "Debug", "Display", "Error", "StructuralPartialEq")

# ---------------------------------------------------------------------------------------------- relational decision
def _sub(pid, only, q):
    from check import table
    lib.ONLY = only
    c = Check(pid)
    try: table()[pid](c); e = None
    except Exception as ex: e = "%s: %s" % (type(ex).__name__, ex)
    bad = {}
    for r, w, o, d in c.obs:
        if o is False: bad.setdefault(re.sub(r"\s*\[(std|nostd|alloc|rel|release|relnostd|f32)\]", "", "%s @ %s" % (r, w)), str(d)[:300])
    q.put((bad, len(c.obs), sum(1 for o in c.obs if o[2] is None), e, len(c.fns), c.paths))
def sub(pid, only, left):
    """violated obligations of a check confined to one configuration; run in a process of its own"""
    q = mp.Queue(); p = mp.Process(target=_sub, args=(pid, only, q)); p.start()
    import queue
    t = time.time()
    while True:
        try: r = q.get(timeout=2); break
        except queue.Empty:
            if not p.is_alive() or time.time() - t > left:
                p.kill(); r = ({}, 0, 0, "no answer", 0, 0); break
    p.join()
    return r

def C53(chk):
    chk.rule("canonical MIR of every function of the three crates, compared between the default configuration and every other feature configuration and profile")
    chk.rule("functions that differ: the specification obligations of every check that enters them (or, when new, their callers), decided in both configurations: violated in exactly one of the two is a difference")
    chk.rule("no arithmetic whose result differs between overflow-checked and unchecked builds (no feasible overflow edge)")
    reach = json.load(open(os.path.join(ROOT, "checks", "reach.json")))
    t0 = time.time(); memo = {}; summary = []
    def result(pid, crate, cfg):
        k = (pid, crate, cfg)
        if k not in memo:
            left = BUDGET - (time.time() - t0)
            if left < 5: return ({}, 0, 0, "time budget used up", 0, 0)
            memo[k] = sub(pid, (crate, cfg), left)
        return memo[k]
    for crate in (CORE, MP, JSON):
        A = Code(crate, "std"); done = {}
        for cfg in CONFIGS[crate]:
            X = Code(crate, cfg)
            same = diff = 0; D = []
            for k in sorted(set(A.fns) | set(X.fns)):
                if k in A.fns and k in X.fns:
                    if A.fns[k] == X.fns[k]: same += 1; chk.fns[A.path[k]] = 0; continue
                    if error_impl(k):
                        if k.endswith(">::custom::<T>"): custom(chk, A, X, k, cfg)
                        continue
                    if cfg == "f32" and {re.sub(r"\bf32\b", "f64", s).replace("visit_f32", "visit_f64") for s in X.fns[k]} == {s.replace("visit_f32", "visit_f64").replace("f32", "f64") for s in A.fns[k]}: same += 1; continue
                    D.append(k)
                else:
                    r = A.roots.get(k) or X.roots.get(k)
                    if r is not None and (r.get("trait") or "").startswith("serde") and not error_impl(k): D.append(k)
            chk.units += 1; chk.paths += same
            chk.ob("same code", "%s in %s" % (crate, cfg), True, "%d functions identical to the default configuration, %d to compare" % (same, len(D)))
            summary.append({"crate": crate, "config": cfg, "identical": same, "differing": D[:20]})
            if not D: continue
            sig = tuple((k, tuple(sorted(X.fns.get(k, ())))) for k in D)
            if sig in done: continue
            done[sig] = cfg
            pids = [p for p in SPECS[crate] if affected(reach[p]["fns"], D, A, X)]
            for pid in sorted(pids, key=lambda p: reach[p]["t"]):
                a = result(pid, crate, "std"); x = result(pid, crate, cfg)
                w = "%s %s" % (crate, cfg)
                if a[3] or x[3]: chk.undecided("%s under %s" % (pid, w), "%s / %s" % (a[3], x[3])); continue
                one = [o for o in sorted(set(a[0]) ^ set(x[0])) if X.has(o, A) and A.has(o, X)]
                for o in one:
                    chk.ob("the same in both configurations: " + o, w, False, "%s holds %s only: %s" % (pid, "by default" if o in x[0] else "in " + cfg, x[0].get(o) or a[0].get(o)))
                if not one: chk.ob("the same specification obligations hold", "%s under %s" % (pid, w), True, "%d obligations (%d undecided) for %s" % (x[1], x[2], ", ".join(D)[:200]))
                chk.paths += x[5]
    for crate in (MP, JSON):
        for pid in PROFILE[crate]:
            a = result(pid, crate, "std")
            if a[3]: chk.undecided("%s of %s" % (pid, crate), a[3]); continue
            ov = {k: d for k, d in a[0].items() if "overflow" in d}
            for k, d in ov.items(): chk.ob("no result depends on overflow checks: " + k, crate, False, d)
            if not ov: chk.ob("no result depends on overflow checks", "%s of %s" % (pid, crate), True, "%d obligations" % a[1])
    chk.extra["configurations"] = summary

def custom(chk, A, X, k, cfg):
    """the error built from a custom message is the same variant in every configuration"""
    f = lambda c: {v for s in c.fns[k] for v in re.findall(r'\["adt", "(?:ser|de)::Error", "(\w+)"', s)}
    a, x = f(A), f(X)
    chk.ob("custom errors are the same variant", "%s under %s" % (k, cfg), True if a == x and a else None, "%s / %s" % (a, x))

def affected(fns, D, A, X):
    """does a check that entered these functions see one of the differing ones?"""
    fns = set(fns)
    for k in D:
        todo = [k]; seen = set()
        while todo:
            q = todo.pop()
            if q in seen: continue
            seen.add(q)
            p = A.path.get(q) or X.path.get(q)
            if p in fns: return True
            if any(p == y for c in KNOWN() for y in c): continue      # a known function this check does not enter
            for C in (A, X):
                for k2, cs in C.calls.items():
                    if q in cs: todo.append(k2)
            m = re.match(r"(.*)::\{closure#\d+\}$", q)
            if m: todo.append(m.group(1))
    return False
_known = []
def KNOWN():
    if not _known: _known.extend(set(v["fns"]) for v in json.load(open(os.path.join(ROOT, "checks", "reach.json"))).values())
    return _known

CHECKS = {"C53": C53}
