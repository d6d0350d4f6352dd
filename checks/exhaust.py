"""Exhaustive evaluation of symbolic byte expressions over the few input bytes they depend on (exact transfer functions, finite domain)."""
from engine.dom import *

HEXV = {**{48 + i: i for i in range(10)}, **{65 + i: 10 + i for i in range(6)}, **{97 + i: 10 + i for i in range(6)}}
HEX = frozenset(HEXV)

class Unknown(Exception): pass
class Src:
    """python source of expressions over r0..rn-1"""
    def __init__(self, num, roots):
        self.num = num; self.ren = {r: i for i, r in enumerate(roots)}; self.set = frozenset(roots)
        self.atoms = [[] for _ in roots]; self.aid = {}; self.tabs = []
    def lin(self, e, norm=True):
        if norm: e = self.num.norm(e)
        out = [str(e.k)] if e.k or not e.t else []
        for s, c in e.t: out.append("%s" % self.sym(s) if c == 1 else "%d*%s" % (c, self.sym(s)))
        return "(" + "+".join(out) + ")"
    def sym(self, s):
        y = SYMS[s]
        if not y.roots <= self.set: raise Unknown(repr(symlin(s)))
        if len(y.roots) == 1:
            r = next(iter(y.roots)); i = self.ren[r]
            if s not in self.aid:
                t = [eval_sym(y, r, v) for v in range(256)]
                if any(x is None for x in t): raise Unknown(repr(symlin(s)))
                self.aid[s] = "A%d_%d" % (i, len(self.atoms[i])); self.atoms[i].append(t)
            return "%s[r%d]" % (self.aid[s], i)
        if y.kind == "div": return "(%s//%d)" % (self.lin(y.args[0], False), y.args[1])
        if y.kind == "op":
            n = y.args[0]; a = [self.lin(x, False) if isinstance(x, Lin) else str(x) for x in y.args[1:]]
            o = {"and": "&", "or": "|", "xor": "^", "mul": "*"}.get(n)
            if o: return "(%s%s%s)" % (a[0], o, a[1])
            if isinstance(n, tuple) and n[0] == "tbl":
                self.tabs.append(n[1]); return "look(T%d,%s)" % (len(self.tabs) - 1, a[0])
            if isinstance(n, tuple) and n[0] == "shr": return "(%s>>%s)" % (a[0], a[1])
        raise Unknown(repr(symlin(s)))
    def inside(self, e): return bool(e.t) and all(SYMS[s].roots <= self.set for s, _ in e.t)
    def facts(self):
        num = self.num; out = []
        for s, (lo, hi) in num.iv.items():
            if SYMS[s].roots <= self.set and s not in self.ren and s not in num.sub:
                try: x = self.sym(s)
                except Unknown: continue
                if lo is not None and (SYMS[s].lo is None or lo > SYMS[s].lo): out.append("%s>=%d" % (x, lo))
                if hi is not None and (SYMS[s].hi is None or hi < SYMS[s].hi): out.append("%s<=%d" % (x, hi))
        for s, e in num.sub.items():
            if SYMS[s].roots <= self.set and (e.const() or self.inside(e)):
                try: out.append("%s==%s" % (self.sym(s), self.lin(e, False)))
                except Unknown: pass
        for c in num.cons:
            if self.inside(c):
                try: out.append("%s>=0" % self.lin(c, False))
                except Unknown: pass
        for c in num.ne:
            if self.inside(c):
                try: out.append("%s!=0" % self.lin(c, False))
                except Unknown: pass
        return sorted(set(out))

def look(t, i): return t[i] if 0 <= i < len(t) else 0
_cache = {}
def valuations(num, roots, exprs, key):
    """all distinct (classes of values of the roots, values of exprs) consistent with the path's facts; key(v): what of a root's value matters to the caller.
    Returns a set of tuples (key(v0),...,key(vn), e0, e1, ...) ; raises Unknown"""
    s = Src(num, roots)
    es = [s.lin(e) for e in exprs]
    fs = s.facts()
    doms = []
    for r in roots: doms.append(sorted(num.mask(r)))
    reps = []
    for i, d in enumerate(doms):
        seen = {}
        for v in d: seen.setdefault((key(v),) + tuple(t[v] for t in s.atoms[i]), v)
        reps.append(sorted(seen.values()))
    n = 1
    for r in reps: n *= len(r)
    if n > 400000: raise Unknown("too many combinations: %d" % n)
    src = "[(%s) for %s if %s]" % (",".join(["r%d" % i for i in range(len(roots))] + es) + ",", " for ".join("r%d in D%d" % (i, i) for i in range(len(roots))), " and ".join(fs) or "True")
    ck = (src, tuple(map(tuple, reps)), tuple(tuple(tuple(t) for t in a) for a in s.atoms), tuple(s.tabs))
    if ck not in _cache:
        env = {"look": look}
        for i, r in enumerate(reps): env["D%d" % i] = r
        for i, a in enumerate(s.atoms):
            for j, t in enumerate(a): env["A%d_%d" % (i, j)] = t
        for i, t in enumerate(s.tabs): env["T%d" % i] = t
        env["__builtins__"] = {}
        k = len(roots)
        _cache[ck] = {tuple(key(v) for v in x[:k]) + x[k:] for x in eval(src, env)}
    return _cache[ck]
