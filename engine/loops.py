"""Loop analysis: bounded unrolling of loops whose control is decided, otherwise fixpoint over generalised head states with
inductively checked linear / segment / value-set invariants (candidates are only ever dropped until all back edges are included)."""
import os
from .dom import *
from . import interp as X
DEBUG = os.environ.get("SA_LOOP")

def reach(I, st, roots):
    seen = set(); w = list(roots)
    def ptrs(v, out):
        if isinstance(v, X.Ptr): out.append(v.root)
        elif isinstance(v, (X.Agg, X.Enum)):
            for x in v.f: ptrs(x, out)
        elif isinstance(v, (tuple, list)):
            for x in v: ptrs(x, out)
        elif isinstance(v, X.Opaque):
            p = st.preds.get(("deref", v.id))
            if p is not None: out.append(p.root)
    while w:
        r = w.pop()
        if r in seen: continue
        seen.add(r)
        o = []; ptrs(st.mem.get(r), o); w += o
    return seen

def prune(I, st):
    roots = []
    n = len(st.frames)
    for i, f in enumerate(st.frames):
        lv = f.body.live()
        if i == n - 1:
            ls = set(lv[f.bb]) if f.si == 0 else None
        else:
            ch = st.frames[i + 1]
            ls = set(lv[ch.ret]) if ch.ret is not None else set()
            if ch.dest is not None:
                if not ch.dest[1]: ls.discard(ch.dest[0])
                else:
                    ls.add(ch.dest[0])
                    for p in ch.dest[1]:
                        if p[0] == "i": ls.add(p[1])
        if ls is None: ls = set(range(len(f.body.locals)))
        roots += [(f.fid, l) for l in ls if (f.fid, l) in st.mem]
    def ptrs(v, out):
        if isinstance(v, X.Ptr): out.append(v.root)
        elif isinstance(v, (X.Agg, X.Enum)):
            for x in v.f: ptrs(x, out)
        elif isinstance(v, (tuple, list)):
            for x in v: ptrs(x, out)
    for v in st.gh.values(): ptrs(v, roots)
    keep = reach(I, st, roots)
    for r in list(st.mem):
        if r not in keep and r[0] != "K": del st.mem[r]

class Walker:
    """typed traversal of a state; f(leaf, ty) -> new leaf"""
    def __init__(self, I, st, f):
        self.I = I; self.st = st; self.f = f; self.shape = []
    def t(self, ty): return None if ty is None else self.I.T(ty)
    def val(self, v, ty):
        sh = self.shape
        if isinstance(v, Lin):
            sh.append("L"); return self.f(v, ty)
        if isinstance(v, X.Agg):
            if v.table() and len(v.f) > 40:
                sh.append(("K", id(v) if False else v.table())); return v
            sh.append(("A", len(v.f)))
            t = self.t(ty); n = len(v.f)
            tys = [None] * n
            if t is not None:
                if t["k"] == "struct" and t.get("vs"): tys = [x[1] for x in t["vs"][0][2]]
                elif t["k"] == "tuple": tys = t["es"]
                elif t["k"] in ("array", "slice"): tys = [t["e"]] * n
                elif t["k"] == "closure": tys = t.get("ups") or tys
            tys = list(tys) + [None] * n
            return X.Agg([self.val(x, tys[i]) for i, x in enumerate(v.f)], v.tag)
        if isinstance(v, X.Enum):
            sh.append(("E", v.v))
            t = self.t(ty)
            tys = [x[1] for x in t["vs"][v.v][2]] if t is not None and t["k"] == "enum" else []
            tys = list(tys) + [None] * len(v.f)
            return X.Enum(v.v, [self.val(x, tys[i]) for i, x in enumerate(v.f)], v.name)
        if isinstance(v, X.Ptr):
            sh.append(("P", v.root, tuple(p if p[0] == "f" else "e" for p in v.path), v.meta is None))
            us = "usize"
            path = tuple(p if p[0] == "f" else ("e", self.f(p[1], us)) for p in v.path)
            meta = v.meta
            if isinstance(meta, Lin): meta = self.f(meta, us)
            return X.Ptr(v.root, path, meta)
        if isinstance(v, X.Cond):
            if isinstance(v.e, Lin):
                sh.append(("C", v.op)); return X.Cond(v.op, self.f(v.e, None))
            sh.append(("C", v.op, repr(v.e))); return v
        if isinstance(v, X.Opaque):
            sh.append("O"); return self.f(v, ty)
        if isinstance(v, X.Buf):
            sh.append(("B", v.name, v.dirty is None))
            if v.dirty is None: return v
            return X.Buf(v.name, v.len, v.mut, (self.f(v.dirty[0], "usize"), self.f(v.dirty[1], "usize")))
        if isinstance(v, tuple):
            sh.append(("T", len(v)))
            return tuple(self.val(x, None) for x in v)
        if isinstance(v, X.Fn): sh.append(("Fn", v.c.get("p"), str(v.c.get("body")))); return v
        sh.append(("D", repr(v))); return v
    def run(self):
        st = self.st
        fr = {f.fid: f for f in st.frames}
        for r in sorted((k for k in st.mem if k[0] != "K"), key=str):
            self.shape.append(r)
            ty = None
            if isinstance(r[0], int) and r[0] in fr: ty = fr[r[0]].body.locals[r[1]]
            else: ty = self.I.roottypes.get(r) if hasattr(self.I, "roottypes") else None
            st.mem[r] = self.val(st.mem[r], ty)
        for k in sorted(st.gh):
            self.shape.append(k)
            st.gh[k] = self.val(st.gh[k], None)
        return tuple(self.shape)

def leaves(I, st, raw=False):
    ls = []; tys = []
    def f(v, ty):
        if isinstance(v, Lin) and not raw: v = st.num.norm(v)
        ls.append(v); tys.append(ty); return v
    sh = Walker(I, st, f).run()
    return sh, ls, tys

def subst(e, m):
    """replace symbols of e by m"""
    r = None
    for s, c in e.t:
        if s in m:
            r = L(e.k) if r is None else r
    if r is None: return e
    r = L(e.k)
    for s, c in e.t:
        r = r + (m[s] * c if s in m else Lin(0, ((s, c),)))
    return r

def value_set(num, e):
    e = num.norm(e)
    if e.const(): return frozenset([e.k])
    g, rest = num.groups(e)
    if len(g) == 1 and not rest:
        r, t = next(iter(g.items()))
        vs = num.gvals(r, t)
        if vs is not None: return frozenset(e.k + x for x in vs.values())
    lo, hi = num.bounds(e)
    if lo is not None and hi is not None and hi - lo < 600: return frozenset(range(lo, hi + 1))
    return None

class Head:
    def __init__(self, I, E0, w, external):
        self.I = I; self.E0 = E0; self.ext = external
        self.shape, self.w0, self.tys = leaves(I, w)
        self.wst = w
        self.pdef = []      # (sym id, leaf idx, v0, c)
        self.psyms = {}
        self.cands = []; self.eqs = []; self.segs = []; self.vsets = {}
        self.changed = True
        n = len(self.w0)
        self.expr = list(self.w0)
        self.w0num = w.num
        self.bases = None
        if not external:
            known = self.base_syms()
            # prefer the form that does not depend on facts of this path
            rw = leaves(I, w, True)[1]
            if len(rw) == n:
                for i, (a, b) in enumerate(zip(rw, self.w0)):
                    if isinstance(a, Lin) and isinstance(b, Lin) and a != b and b.const() and not a.const() and self.is_base(a):
                        self.expr[i] = self.w0[i] = a
            new = [i for i, v in enumerate(self.w0) if isinstance(v, Lin) and not self.is_base(v)]
            for i in new: self.own_param(i)
            # equalities between parameters
            for i in new: self.gen_eqs(i, [(w.num, self.w0)])
            for i in new: self.gen_cands(i, [(w.num, self.w0)])
            self.gen_segs_internal(w)
            # single bytes looked at in the first rounds
            for buf, lst in w.num.by.items():
                for o, s in lst:
                    o = w.num.norm(o)
                    if not self.is_base(o) or len(self.segs) >= 24: continue
                    m = w.num.seg_mask_fine(buf, o, o + 1)
                    if m is None or len(m) > 128: continue
                    m0 = E0.num.seg_mask_fine(buf, o, o + 1)
                    if (m0 is None or len(m) < len(m0)) and not any(q[0] == buf and q[1] == o and q[2] == o + 1 for q in self.segs): self.segs.append([buf, o, o + 1, m])
            # facts about loop-external quantities established by the first rounds (e.g. "not empty")
            en = E0.num
            for b in known:
                if b in en.sub: continue
                if b in w.num.sub:
                    e = symlin(b) - w.num.norm(symlin(b))
                    if self.is_base(e) and len(self.eqs) < 20: self.eqs.append(e)
                    continue
                lo, hi = w.num.rng(b); lo0, hi0 = en.rng(b)
                if lo is not None and (lo0 is None or lo > lo0) and abs(lo) < 1 << 20: self.cands.append(symlin(b) - lo)
                if hi is not None and (hi0 is None or hi < hi0) and abs(hi) < 1 << 20: self.cands.append(L(hi) - symlin(b))
            old = set(en.cons)
            for c in w.num.cons:
                c = w.num.norm(c)
                if c not in old and not c.const() and self.is_base(c) and len(self.cands) < 40: self.cands.append(c)
    def base_syms(self):
        if self.bases is None:
            b = set()
            for v in leaves(self.I, self.E0.copy())[1]:
                if isinstance(v, Lin): b |= set(v.syms())
            for c in self.E0.num.cons: b |= set(c.syms())
            for bf, a, z, m in self.E0.num.segs: b |= set(a.syms()) | set(z.syms())
            self.bases = b
        return self.bases
    def is_base(self, e):
        b = self.base_syms()
        return all(s in b or SYMS[s].kind == "byte" and self.is_base(SYMS[s].args[1]) and SYMS[s].id in b for s in e.syms())
    def trange(self, ty):
        if ty == "usize": return 0, (1 << self.I.ptrbits) - 1
        if ty is None: return None, None
        try: return self.I.int_range(ty)
        except Exception: return None, None
    def own_param(self, i):
        lo, hi = self.trange(self.tys[i])
        p = fresh("p%d" % i, lo, hi)
        self.pdef = [d for d in self.pdef if not (d[1] == i and d[2] is None)]
        self.pdef.append((p.t[0][0], i, ZERO, 1))
        self.expr[i] = p
        if lo is not None and hi is not None and hi - lo < 600: self.vsets[p.t[0][0]] = None
        return p
    def sigma(self, ls, num):
        m = {}
        for s, i, v0, c in self.pdef:
            d = num.norm(ls[i] - v0)
            if c != 1:
                if d.k % c or any(k % c for _, k in d.t): return None, i
                d = Lin(d.k // c, tuple((x, k // c) for x, k in d.t))
            m[s] = d
        return m, None
    def terms(self):
        out = []
        for i, e in enumerate(self.expr):
            if isinstance(e, Lin) and not e.const() and self.tys[i] is not None: out.append(e)
            elif isinstance(e, Lin) and not e.const(): out.append(e)
        for v in self.E0.mem.values():
            if isinstance(v, X.Buf) and not v.len.const(): out.append(v.len)
        r = []
        for e in out:
            if e not in r: r.append(e)
        return r
    def wit_ok(self, e, wits, eq=False):
        for num, ls in wits:
            m, bad = self.sigma(ls, num)
            if m is None: return False
            x = subst(e, m)
            if not (num.prove_eq0(x) if eq else num.prove_ge0(x)): return False
        return True
    def gen_cands(self, i, wits):
        s = self.expr[i]
        if not isinstance(s, Lin) or s.const(): return
        if self.tys[i] is not None and self.tys[i] != "usize" and self.I.T(self.tys[i])["k"] in ("bool", "char"): pass
        ts = self.terms()
        v0 = self.w0[i]
        if isinstance(v0, Lin) and not v0.const() and v0 not in ts and self.is_base(v0): ts = ts + [v0]
        for x in ts:
            if x == s: continue
            d = s - x
            for c in (d - 1, d, -d - 1, -d):
                if c.const() or c in self.cands: continue
                if self.wit_ok(c, wits):
                    self.cands.append(c)
        # constant bounds seen in the witnesses
        ks = set([0, 1])
        for num, ls in wits:
            m, bad = self.sigma(ls, num)
            if m is None: continue
            lo, hi = num.bounds(subst(s, m))
            if lo is not None and abs(lo) < 1 << 20: ks.add(lo)
            if hi is not None and abs(hi) < 1 << 20: ks.add(hi)
        for k in ks:
            for c in (s - k, L(k) - s):
                if not c.const() and c not in self.cands and self.wit_ok(c, wits): self.cands.append(c)
    def gen_eqs(self, i, wits):
        """affine relations of leaf i with one or two other parameters that hold in all witnesses"""
        if not isinstance(self.expr[i], Lin) or self.expr[i].const(): return
        ps = {d[0] for d in self.pdef}
        js = [j for j, e in enumerate(self.expr) if j != i and isinstance(e, Lin) and any(s in ps for s, _ in e.t)]
        # one representative per expression
        seen = set(); ks = []
        for j in js:
            if self.expr[j] in seen: continue
            seen.add(self.expr[j]); ks.append(j)
        ks = ks[-24:]
        def val(num, ls, combo):
            d = ZERO
            for j, c in combo: d = d + ls[j] * c
            return num.norm(d)
        vals = [(num, {j: num.norm(ls[j]) for j in ks + [i] if isinstance(ls[j], Lin)}) for num, ls in wits]
        if any(len(v) != len(ks) + 1 for _, v in vals): return
        def attempt(combo):
            ds = [val(num, v, combo) for num, v in vals]
            d = ds[0]
            if not self.is_base(d): return False
            for (num, _), x in zip(vals[1:], ds[1:]):
                if x != d and not num.prove_eq0(x - d): return False
            e = ZERO
            for j, c in combo: e = e + self.expr[j] * c
            e = e - d
            if e.const() or e in self.eqs or -e in self.eqs: return True
            if not any(s in ps for s, _ in e.t): return True
            self.eqs.append(e); return True
        rel = set()
        for j in ks:
            for a, b in ((1, 1), (1, -1), (1, 2), (2, 1), (1, -2), (2, -1), (3, 4), (4, 3), (3, -4), (4, -3)):
                if attempt([(i, a), (j, -b)]): rel.add(j); break
        rest = [j for j in ks if j not in rel]
        for x in range(len(rest)):
            for y in range(x):
                for b, c in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                    if attempt([(i, 1), (rest[x], -b), (rest[y], -c)]): break
    def first_params(self, b_num, bl):
        """generalise w0 against the first back edge"""
        ch = []
        for i, (a, b) in enumerate(zip(self.expr, bl)):
            if isinstance(a, Lin):
                if not b_num.prove_eq0(a - b): ch.append(i)
        # group by proportional deltas
        groups = {}
        from math import gcd
        for i in ch:
            d = b_num.norm(bl[i] - self.expr[i])
            g = 0
            for _, c in d.t: g = gcd(g, c)
            g = gcd(g, d.k)
            lead = d.t[0][1] if d.t else d.k
            if lead < 0: g = -g
            prim = Lin(d.k // g, tuple((s, c // g) for s, c in d.t))
            groups.setdefault(prim, []).append((i, g))
        for prim, mem in groups.items():
            v0s = {i: self.expr[i] for i, c in mem}
            best = min(mem, key=lambda x: (abs(x[1]), x[0]))
            if len(mem) == 1:
                self.own_param(mem[0][0]); continue
            u = fresh("u", None, None)
            i0, c0 = best
            self.pdef.append((u.t[0][0], i0, v0s[i0], c0))
            for i, c in mem: self.expr[i] = v0s[i] + u * c
            self.cands.append(u)          # u >= 0
        w = [(self.w0num, self.w0), (b_num, bl)]
        self.cands = [c for c in self.cands if self.wit_ok(c, w)]
        for i in ch: self.gen_cands(i, w)
        for i in ch: self.gen_eqs(i, w)
        return ch
    def gen_segs(self, b, bl, ch):
        E = self.E0.num
        for buf, lst in b.num.by.items():
            old = [E.norm(o) for o, _ in E.by.get(buf, [])]
            starts = []
            for o, s in lst:
                o = b.num.norm(o)
                if o not in starts: starts.append(o)
            for (bf, x, y, mk) in b.num.segs:
                x = b.num.norm(x)
                if bf == buf and x not in starts: starts.append(x)
            for o in starts:
                for i in ch:
                    v0 = self.w0[i]; d = b.num.norm(bl[i] - v0)
                    s = self.expr[i]
                    if self.tys[i] is not None and self.tys[i] != "usize" and self.I.is_int(self.tys[i]) and self.I.bits(self.tys[i]) < self.I.ptrbits: continue
                    if b.num.prove_ge0(d - 1): a, z = o, o + (s - v0)
                    elif b.num.prove_ge0(-d - 1): a, z = o + (s - v0) + 1, o + 1
                    else: continue
                    if not self.only(a) or not self.only(z): continue
                    if any(q[0] == buf and q[1] == a and q[2] == z for q in self.segs): continue
                    self.segs.append([buf, a, z, frozenset()])
    def only(self, e):
        ps = {d[0] for d in self.pdef}
        return all(s in ps or s in self.base_syms() for s in e.syms())
    def gen_segs_internal(self, w):
        for (buf, x, y, mk) in w.num.segs:
            x = w.num.norm(x); y = w.num.norm(y)
            xs = []; ys = []
            for e, out in ((x, xs), (y, ys)):
                if self.is_base(e): out.append(e)
                else:
                    for i, v in enumerate(self.w0):
                        if isinstance(v, Lin) and isinstance(self.expr[i], Lin) and not self.is_base(v):
                            d = w.num.norm(e - v)
                            if self.is_base(d): out.append(self.expr[i] + d)
            for a in xs[:3]:
                for z in ys[:3]:
                    if not any(q[0] == buf and q[1] == a and q[2] == z for q in self.segs): self.segs.append([buf, a, z, mk])
    def absorb(self, b):
        """make the head include state b; returns True when nothing had to change"""
        sh, bl, _ = leaves(self.I, b)
        num = b.num
        same = True
        if not self.pdef and any(isinstance(a, Lin) and not num.prove_eq0(a - x) for a, x in zip(self.expr, bl) if isinstance(a, Lin)):
            ch = self.first_params(num, bl)
            self.gen_segs(b, bl, ch)
            same = False
        for _ in range(40):
            m, bad = self.sigma(bl, num)
            if m is None:
                # dissolve the shared parameter
                ps = [d for d in self.pdef if d[1] == bad]
                for s, i, v0, c in ps:
                    self.dissolve(s, bl, num)
                same = False; continue
            fail = None
            for i, (a, x) in enumerate(zip(self.expr, bl)):
                if isinstance(a, Lin):
                    if not num.prove_eq0(subst(a, m) - x): fail = i; break
            if fail is None: break
            same = False
            self.split(fail, bl, num)
        m, bad = self.sigma(bl, num)
        for i, (a, x) in enumerate(zip(self.expr, bl)):
            if isinstance(a, X.Opaque) and (not isinstance(x, X.Opaque) or a.id != x.id) and not a.info == "loop":
                self.expr[i] = X.Opaque(a.ty, "loop"); same = False
        nc = [c for c in self.cands if num.prove_ge0(subst(c, m))]
        if len(nc) != len(self.cands): self.cands = nc; same = False
        ne = [c for c in self.eqs if num.prove_eq0(subst(c, m))]
        if len(ne) != len(self.eqs):
            # weaken dropped equalities to inequalities
            for c in self.eqs:
                if c not in ne:
                    for d in (c, -c):
                        if d not in self.cands and num.prove_ge0(subst(d, m)): self.cands.append(d)
            self.eqs = ne; same = False
        ns = []
        for q in self.segs:
            mk = num.seg_mask(q[0], subst(q[1], m), subst(q[2], m))
            if mk is not None and not mk <= q[3]:
                m2 = num.seg_mask_fine(q[0], subst(q[1], m), subst(q[2], m))
                if m2 is not None and len(m2) < len(mk): mk = m2
            if mk is None or len(mk | q[3]) == 256: same = False; continue
            if not mk <= q[3]: q = [q[0], q[1], q[2], q[3] | mk]; same = False
            ns.append(q)
        self.segs = ns
        for p in list(self.vsets):
            vs = value_set(num, m[p]) if p in m else None
            if vs is None:
                if p in self.vsets: del self.vsets[p]; same = False
                continue
            old = self.vsets[p]
            if old is None:
                ini = value_set(self.w0num, self.w0[[d[1] for d in self.pdef if d[0] == p][0]]) if self.ext else vs
                if ini is None: del self.vsets[p]; same = False; continue
                self.vsets[p] = ini | vs; same = False
            elif not vs <= old: self.vsets[p] = old | vs; same = False
        return same
    def split(self, i, bl, num):
        old = self.expr[i]
        defs = [d for d in self.pdef if d[1] == i]
        if defs and len(defs) == 1 and old == symlin(defs[0][0]):
            raise X.Imprecise("loop split")       # cannot happen
        if defs: self.dissolve(defs[0][0], bl, num); return
        self.own_param(i)
        # keep candidates of other leaves; add candidates for the new one
        self.gen_cands(i, ([(self.w0num, self.w0)] if self.ext else []) + [(num, bl)])
        self.gen_eqs(i, [(self.w0num, self.w0), (num, bl)])
        self.pair_segs(i, bl, num)
    def pair_segs(self, i, bl, num):
        """stretches of a buffer between two moving positions"""
        e = self.expr[i]
        if not self.ext or not isinstance(e, Lin) or len(e.t) != 1 or not self.is_base(self.w0[i]): return
        def narrow(j): return self.tys[j] not in (None, "usize") and self.I.is_int(self.tys[j]) and self.I.bits(self.tys[j]) < self.I.ptrbits
        if narrow(i): return
        seen = set()
        for j, f in enumerate(self.expr):
            if j == i or not isinstance(f, Lin) or f == e or f in seen or f.const() or self.is_base(f): continue
            if narrow(j): continue
            if not self.is_base(self.w0[j]): continue
            seen.add(f)
            for a, z in ((i, j), (j, i)):
                wn = self.w0num
                empty = wn.prove_eq0(self.w0[a] - self.w0[z])
                if not empty and not wn.prove_ge0(self.w0[z] - self.w0[a]) or not num.prove_ge0(bl[z] - bl[a]): continue
                for buf, lst in num.by.items():
                    ds = []
                    for o, s in lst:
                        d = num.norm(o + 1 - bl[z])
                        if self.is_base(d) and d not in ds: ds.append(d)
                    for d in ds[:2]:
                        x, y = self.expr[a] + d, self.expr[z] + d
                        if len(self.segs) < 24 and self.only(x) and self.only(y) and not any(q[0] == buf and q[1] == x and q[2] == y for q in self.segs):
                            m0 = frozenset()
                            if not empty:
                                m0 = wn.seg_mask_fine(buf, wn.norm(self.w0[a] + d), wn.norm(self.w0[z] + d))
                                if m0 is None or len(m0) == 256: continue
                            self.segs.append([buf, x, y, m0])
    def dissolve(self, s, bl, num):
        idx = [i for i, e in enumerate(self.expr) if isinstance(e, Lin) and s in e.syms()]
        self.pdef = [d for d in self.pdef if d[0] != s]
        self.cands = [c for c in self.cands if s not in c.syms()]
        self.eqs = [c for c in self.eqs if s not in c.syms()]
        self.segs = [q for q in self.segs if s not in q[1].syms() and s not in q[2].syms()]
        for i in idx: self.own_param(i)
        for i in idx: self.gen_cands(i, ([(self.w0num, self.w0)] if self.ext else []) + [(num, bl)])
        if self.ext:
            for i in idx:
                d = num.norm(bl[i] - self.w0[i])
        for i in idx: self.gen_eqs(i, [(self.w0num, self.w0), (num, bl)])
        for i in idx: self.pair_segs(i, bl, num)
    def build(self):
        st = self.E0.copy() if self.ext else self.wst.copy()
        st.num = self.E0.num.copy()
        if not self.ext: st.preds = dict(self.E0.preds); st.frames = [f.copy() for f in self.wst.frames]
        it = iter(self.expr)
        def f(v, ty): return next(it)
        Walker(self.I, st, f).run()
        n = st.num
        ps = {d[0] for d in self.pdef}
        for i, e in enumerate(self.expr):
            # a typed leaf is inside its type's range
            if isinstance(e, Lin) and self.tys[i] is not None and len(e.t) + (e.k != 0) > 1 and any(s in ps for s, _ in e.t):
                lo, hi = self.trange(self.tys[i])
                if lo is not None and not n.assume_ge0(e - lo): return None
                if hi is not None and not n.assume_ge0(L(hi) - e): return None
        for c in self.eqs:
            if not n.assume_eq0(c): return None
        for c in self.cands:
            if not n.assume_ge0(c): return None
        for p, vs in self.vsets.items():
            if vs is not None and p not in n.sub:
                try: n.set_mask(p, frozenset(vs) if not n.mk.get(p) else n.mk[p] & vs)
                except Infeasible: return None
        for q in self.segs:
            if not n.add_seg(q[0], q[1], q[2], q[3]): return None
        return st

def start_at(I, st, fid, head):
    fr = st.frames[-1]
    if head not in fr.active: fr.active = fr.active + (head,)
    st.log = "start"
    return st

def analyse_loop(I, st, fid, head, blocks, res):
    if I.h is not None: I.h.on_enter(I, st)
    saved = (st.forks, st.scaled)
    stop = (fid, head, blocks, "start")
    pending = [(st, 0)]
    exits = []
    while pending:
        s, n = pending.pop()
        s.forks = 0; s.scaled = 0
        prune(I, s)
        E0 = s.copy()
        E0.frames[-1].active = tuple(set(E0.frames[-1].active) | {head})
        r, b, e = I.run([start_at(I, s, fid, head)], base=0, stop=stop)
        if not b:
            res += r; exits += e; continue
        for x in b: prune(I, x)
        if n < 400 and all(x.forks == 0 for x in b) or (n < 1 or n < 45 and scaling(I, E0, b)) and all(x.scaled > 0 for x in b):
            res += r; exits += e
            pending += [(x, n + 1) for x in b]
            continue
        if n < 8 and all(few_left(I, E0, x, 8 - n) for x in b):
            res += r; exits += e
            pending += [(x, n + 1) for x in b]
            continue
        if n < 1 and len(b) <= 8 and all(spent(I, E0, x) for x in b):
            res += r; exits += e
            pending += [(x, n + 1) for x in b]
            continue
        fix = fixpoint(I, E0, fid, head, blocks, b, stop)
        res += fix[0]; exits += fix[1]
    for e in exits:
        e.forks += saved[0]; e.scaled += saved[1]
        f = e.frames[-1]
        f.active = tuple(h for h in f.active if h != head)
    return exits

def spent(I, E0, b):
    """the first round uses up an unknown amount that later rounds do not have (an iterator that skips)"""
    p, q = E0.copy(), b.copy()
    p.gh = {}; q.gh = {}
    sh, a, _ = leaves(I, p); sb, bl, _ = leaves(I, q)
    return sh == sb and any(isinstance(x, Lin) and isinstance(y, Lin) and not x.const() and y == ZERO for x, y in zip(a, bl))

def few_left(I, E0, b, k):
    """some leaf moves by a constant each round towards another one at most k steps away"""
    p, q = E0.copy(), b.copy()
    p.gh = {}; q.gh = {}           # only the program's own variables count
    sh, a, _ = leaves(I, p)
    sb, bl, _ = leaves(I, q)
    if sh != sb: return False
    num = b.num
    for x, y in zip(a, bl):
        if not isinstance(x, Lin) or not isinstance(y, Lin): continue
        d = num.norm(y - x)
        if not d.const() or d.k not in (1, -1): continue
        if d.k == -1:
            lo, hi = num.bounds(y)
            if lo is not None and hi is not None and lo >= 0 and hi <= k: return True
            continue
        for z, zz in zip(a, bl):
            if not isinstance(z, Lin) or z is x or (num.norm(zz - z) != ZERO): continue
            r = num.norm(z - y)
            if num.prove_ge0(r) and num.prove_ge0(L(k) - r): return True
    return False

def scaling(I, E0, backs):
    sh, a, _ = leaves(I, E0.copy())
    ok = True
    for b in backs:
        sb, bl, _ = leaves(I, b)
        if sb != sh: continue
        found = False
        for x, y in zip(a, bl):
            if not isinstance(x, Lin) or not isinstance(y, Lin): continue
            for s, c in x.t:
                c2 = y.coef(s)
                if c2 != c and SYMS[s].kind != "div":
                    if c2 != 0: found = True
                    elif any(s in SYMS[z].roots and z != s for z, _ in y.t): found = True
                if SYMS[s].kind == "div" and c2 != c and (y.const() or any(SYMS[z].kind == "div" for z, _ in y.t)): found = True
        if not found: ok = False
    return ok

OBSERVER = None
def named(I, st):
    """integer leaves of a state, named by where they are"""
    out = {}
    num = st.num
    def go(v, p):
        if isinstance(v, Lin): out[p] = num.norm(v)
        elif isinstance(v, X.Agg):
            if len(v.f) > 40: return
            for i, x in enumerate(v.f): go(x, p + (i,))
            if str(v.tag).split("<")[0].endswith("Deserializer"):
                q = [x for x in v.f if isinstance(x, X.Ptr) and isinstance(x.meta, Lin)]; k = [x for x in v.f if isinstance(x, Lin)]
                if len(q) == 1 and len(k) == 1 and q[0].path: out[p + ("pos",)] = num.norm(q[0].path[-1][1] + k[0])
        elif isinstance(v, X.Enum):
            out[p + ("variant",)] = L(v.v)
            for i, x in enumerate(v.f): go(x, p + (("v", v.v), i))
        elif isinstance(v, X.Ptr):
            if v.path and v.path[-1][0] == "e": out[p + ("off",)] = num.norm(v.path[-1][1])
            if isinstance(v.meta, Lin): out[p + ("len",)] = num.norm(v.meta)
            if v.path and v.path[-1][0] == "e" and isinstance(v.meta, Lin): out[p + ("end",)] = num.norm(v.path[-1][1] + v.meta)
        elif isinstance(v, tuple):
            for i, x in enumerate(v): go(x, p + (i,))
    for r in st.mem:
        if r[0] != "K": go(st.mem[r], (r,))
    return out
def observe(I, E0, fid, head, blocks, heads, stop):
    """hand every edge of the stable loop (state at the head, state back at a head) to the observer"""
    edges = []; bufs = {v.name: v.len for v in E0.mem.values() if isinstance(v, X.Buf)}
    for sh, hd in heads.items():
        s = hd.build()
        if s is None: continue
        s.forks = 0; s.scaled = 0
        s.frames[-1].bb = head; s.frames[-1].si = 0
        src = named(I, s)
        r, backs, e = I.run([start_at(I, s, fid, head)], base=0, stop=stop)
        for x in backs:
            prune(I, x)
            edges.append((sh, src, leaves(I, x)[0], named(I, x), x))
    OBSERVER(I, E0.frames[-1].body, head, edges, bufs)

def ranking(edges, bufs):
    """lexicographic ranking of a loop from its edges: (True, description), (None, why) or (False, edge without any progress)"""
    # edges between different shapes that no cycle can contain need no measure
    succ = {}
    for a, _, b, _, _ in edges: succ.setdefault(a, set()).add(b)
    def reaches(a, b):
        seen = set(); w = [a]
        while w:
            k = w.pop()
            if k == b: return True
            if k in seen: continue
            seen.add(k); w += succ.get(k, ())
        return False
    rest = [(src, dst, x.num, x) for a, src, b, dst, x in edges if reaches(b, a)]
    if not rest: return True, "no cycle"
    keys = None
    for src, dst, num, x in rest:
        k = set(src) & set(dst); keys = k if keys is None else keys & k
    keys = sorted(keys, key=repr)
    delta = [{k: num.norm(dst[k] - src[k]) for k in keys} for src, dst, num, x in rest]
    fixed = [k for k in keys if all(d[k] == ZERO or num.prove_eq0(d[k]) for d, (s, t, num, x) in zip(delta, rest))]
    moving = [k for k in keys if k not in fixed]
    def bounded(i, k, sign):
        src, dst, num, x = rest[i]
        if sign < 0:
            for v in (src[k], dst[k]):
                lo, hi = num.bounds(v)
                if lo is not None or num.prove_ge0(v): return True
        for f in fixed:
            for v in (src[k], dst[k]):
                if num.prove_ge0((src[f] - v) * sign): return True
        for n, l in bufs.items():
            for v in (src[k], dst[k]):
                if sign > 0 and num.prove_ge0(l - v): return True
        lo, hi = num.bounds(src[k])
        if sign > 0 and hi is not None and hi < 1 << 16: return True
        for f in moving:
            # against something that itself never moves away
            if f != k and all(rest[j][2].prove_ge0(-delta[j][f] * sign) for j in range(len(rest))):
                for v, u in ((src[k], src[f]), (dst[k], dst[f])):
                    if num.prove_ge0((u - v) * sign): return True
        return False
    left = set(range(len(rest))); used = []
    while left:
        best = None
        for k in moving:
            for sign in (-1, 1):
                if not all(rest[i][2].prove_ge0(delta[i][k] * sign) for i in left): continue
                strict = [i for i in left if rest[i][2].prove_ge0(delta[i][k] * sign - 1) and bounded(i, k, sign)]
                if strict and (best is None or len(strict) > len(best[2])): best = (k, sign, strict)
        if best is None: break
        used.append((best[0], best[1])); left -= set(best[2])
    if not left: return True, "decreasing: %s" % ["%s%s" % ("-" if s > 0 else "", k) for k, s in used]
    for i in left:
        d = delta[i]; num = rest[i][2]
        if all(d[k] == ZERO or num.prove_eq0(d[k]) for k in keys): return False, "a round changes nothing"
        if not any(num.prove_ge0(d[k] * s - 1) and bounded(i, k, s) for k in moving for s in (1, -1)): return False, "a round makes no progress (%s)" % [(k, d[k]) for k in moving][:4]
    return None, "no ranking found (%d rounds left of %d) %s" % (len(left), len(rest), [[(k, delta[i][k]) for k in moving if delta[i][k] != ZERO] for i in left][:2])

def fixpoint(I, E0, fid, head, blocks, backs, stop):
    heads = {}
    h = Head(I, E0, E0.copy(), True)
    heads[h.shape] = h
    if DEBUG: print("LOOP", E0.frames[-1].body.path, "bb", head)
    for rnd in range(40):
        changed = False
        for b in backs:
            sh, _, _ = leaves(I, b)
            if sh in heads:
                try:
                    ok = heads[sh].absorb(b)
                except RecursionError: raise X.Imprecise("loop")
                if not ok: changed = True
                if DEBUG: print("  round", rnd, "absorb", ok, "params", [(symlin(d[0]), d[1]) for d in heads[sh].pdef])
            else:
                if len(heads) >= 20: raise X.Imprecise("too many loop head shapes in %s" % E0.frames[-1].body.path)
                heads[sh] = Head(I, E0, b, False); changed = True
                if DEBUG:
                    print("  round", rnd, "new shape", len(heads))
                    k = list(heads)[0]
                    if len(heads) > 3: print([(x, y) for x, y in zip(k, sh) if x != y][:6])
        if not changed and rnd > 0: break
        sts = []
        for hd in heads.values():
            s = hd.build()
            if s is None: continue
            s.forks = 0; s.scaled = 0
            s.frames[-1].bb = head; s.frames[-1].si = 0
            sts.append(start_at(I, s, fid, head))
        r, backs, e = I.run(sts, base=0, stop=stop)
        for x in backs: prune(I, x)
    else: raise X.Imprecise("loop fixpoint in %s" % E0.frames[-1].body.path)
    if OBSERVER is not None:
        observe(I, E0, fid, head, blocks, heads, stop)
    if DEBUG:
        for hd in heads.values():
            print("  INV", [(i, x) for i, x in enumerate(hd.expr) if x is not hd.w0[i]], "CANDS", hd.cands[:20], "EQ", hd.eqs, "SEG", [(q[0], q[1], q[2], len(q[3])) for q in hd.segs])
    return r, e
