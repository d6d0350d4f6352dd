"""Numeric abstract domain: integer linear expressions over symbols, with
 * intervals, exact value sets for small (byte sized) symbols,
 * equalities (eager substitution), linear inequalities, disequalities,
 * symbolic buffer contents and "segment" facts  forall p in [a,b): buf[p] in S.
All symbols are rigid (they never change their value along a path), so facts only ever accumulate on a path."""

class Lin:
    __slots__ = ("k", "t", "_h")
    def __init__(self, k, t=()):
        self.k = k; self.t = t; self._h = hash((k, t))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self._h == o._h and self.k == o.k and self.t == o.t
    def __ne__(self, o): return not self.__eq__(o)
    def const(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.k + o, self.t)
        if not o.t: return Lin(self.k + o.k, self.t)
        if not self.t: return Lin(self.k + o.k, o.t)
        d = dict(self.t)
        for s, c in o.t:
            n = d.get(s, 0) + c
            if n: d[s] = n
            else: d.pop(s, None)
        return Lin(self.k + o.k, tuple(sorted(d.items())))
    __radd__ = __add__
    def __neg__(self): return Lin(-self.k, tuple((s, -c) for s, c in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.k - o, self.t)
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, n):
        if n == 0: return ZERO
        return Lin(self.k * n, tuple((s, c * n) for s, c in self.t))
    __rmul__ = __mul__
    def coef(self, s):
        for x, c in self.t:
            if x == s: return c
        return 0
    def syms(self): return [s for s, _ in self.t]
    def __repr__(self):
        if not self.t: return str(self.k)
        out = []
        for s, c in self.t:
            n = SYMS[s].show()
            out.append(n if c == 1 else "-" + n if c == -1 else "%d*%s" % (c, n))
        r = " + ".join(out).replace("+ -", "- ")
        if self.k: r += " + %d" % self.k if self.k > 0 else " - %d" % -self.k
        return r

ZERO = Lin(0)
_consts = {}
def L(n):
    if isinstance(n, Lin): return n
    r = _consts.get(n)
    if r is None: r = _consts[n] = Lin(n)
    return r

class Sym:
    __slots__ = ("id", "name", "lo", "hi", "kind", "args", "roots", "table")
    def show(self):
        if self.kind == "byte": return "%s[%r]" % (self.args[0], self.args[1])
        if self.kind == "div": return "(%r div %d)" % self.args
        if self.kind == "op": return "%s(%s)" % (self.args[0], ",".join(map(repr, self.args[1:])))
        return "%s" % self.name

SYMS = []
_memo = {}
SMALL = 512

def _mk(name, lo, hi, kind, args):
    s = Sym(); s.id = len(SYMS); s.name = name; s.lo = lo; s.hi = hi; s.kind = kind; s.args = args; s.table = None
    SYMS.append(s)
    if kind in ("div", "op"):
        r = set()
        for a in args:
            if isinstance(a, Lin):
                for x, _ in a.t: r |= SYMS[x].roots
        s.roots = frozenset(r)
    else: s.roots = frozenset([s.id])
    return s

def fresh(name, lo, hi):
    s = _mk("%s#%d" % (name, len(SYMS)), lo, hi, "var", ())
    return Lin(0, ((s.id, 1),))
def named(name, lo, hi):
    k = ("var", name, lo, hi)
    if k not in _memo: _memo[k] = _mk(name, lo, hi, "var", ()).id
    return Lin(0, ((_memo[k], 1),))
def symlin(i): return Lin(0, ((i, 1),))

OPF = {
    "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
    "mul": lambda a, b: a * b,
}
def apply_op(name, args):
    f = OPF.get(name)
    if f: return f(*args)
    if isinstance(name, tuple) and name[0] == "tbl":   # table lookup, name = ("tbl", tuple)
        t = name[1]; i = args[0]
        return t[i] if 0 <= i < len(t) else 0
    if isinstance(name, tuple) and name[0] == "shr": return args[0] >> args[1]
    return None

def small_root(sym):
    """the single small root symbol of a symbol, or None"""
    r = sym.roots
    if len(r) == 1:
        x = next(iter(r)); s = SYMS[x]
        if s.hi is not None and s.lo is not None and s.hi - s.lo < SMALL: return x
    return None

def eval_sym(sym, root, v):
    """value of a (derived) symbol when its single root has value v, or None"""
    if sym.id == root: return v
    if sym.table is None: sym.table = {}
    if v in sym.table: return sym.table[v]
    r = None
    if sym.kind == "div":
        x = eval_lin(sym.args[0], root, v)
        r = None if x is None else x // sym.args[1]
    elif sym.kind == "op":
        xs = [eval_lin(a, root, v) if isinstance(a, Lin) else a for a in sym.args[1:]]
        r = None if any(x is None for x in xs) else apply_op(sym.args[0], xs)
    sym.table[v] = r
    return r

def eval_lin(e, root, v):
    n = e.k
    for s, c in e.t:
        x = eval_sym(SYMS[s], root, v)
        if x is None: return None
        n += c * x
    return n

class Infeasible(Exception): pass

LPSTAT = [0, 0, 0]
def lp_prove(num, e):
    """e >= 0 over the integers, by a non-negative combination of the known linear facts (exact simplex on the dual)"""
    from fractions import Fraction
    rel = set(e.syms()); cs = []
    pool = [num.norm(c) for c in num.cons]
    ch = True
    while ch:
        ch = False
        for c in list(pool):
            if any(s in rel for s, _ in c.t):
                cs.append(c); pool.remove(c); ch = True
                for s, _ in c.t: rel.add(s)
    if not cs: return False
    best = {}
    for c in cs:
        if c.t not in best or c.k < best[c.t].k: best[c.t] = c
    cs = list(best.values())
    LPSTAT[0] += 1
    BIG = 1 << 100
    syms = sorted(rel)
    ed = dict(e.t)
    cols = {}; d = []
    for j, c in enumerate(cs): d.append(-c.k)
    n0 = len(cs)
    rows = []; rhs = []; basis = []
    for i, s in enumerate(syms):
        lo, hi = num.rng(s)
        if s in num.mk and s not in num.sub:
            m = num.mk[s]
            if m: lo, hi = min(m), max(m)
        d.append(lo if lo is not None else -BIG); d.append(-hi if hi is not None else -BIG)
        b = ed.get(s, 0)
        row = {}
        for j, c in enumerate(cs):
            a = c.coef(s)
            if a: row[j] = a
        row[n0 + 2 * i] = 1; row[n0 + 2 * i + 1] = -1
        if b >= 0: basis.append(n0 + 2 * i)
        else:
            basis.append(n0 + 2 * i + 1); row = {j: -a for j, a in row.items()}; b = -b
        rows.append(row); rhs.append(b)
    m = len(rows)
    z = {j: v for j, v in enumerate(d)}
    val = 0
    for i in range(m):
        db = d[basis[i]]
        val += db * rhs[i]
        if db:
            for j, a in rows[i].items(): z[j] = z[j] - db * a
    for it in range(80):
        if e.k + val > -1: LPSTAT[1] += 1; return True
        bj = None
        if it < 40:
            bv = 0
            for j, v in z.items():
                if v > bv: bv = v; bj = j
        else:
            for j in sorted(z):
                if z[j] > 0: bj = j; break
        if bj is None: return False
        br = None; bi = None
        for i in range(m):
            a = rows[i].get(bj, 0)
            if a > 0:
                q = Fraction(rhs[i], 1) / a if a != 1 else rhs[i]
                if br is None or q < br or (q == br and basis[i] < basis[bi]): br = q; bi = i
        if bi is None: LPSTAT[1] += 1; return True
        p = rows[bi][bj]
        if p != 1:
            f = Fraction(1, 1) / p
            rows[bi] = {j: _int(a * f) for j, a in rows[bi].items()}; rhs[bi] = _int(rhs[bi] * f)
        pr = rows[bi]; pb = rhs[bi]
        for i in range(m):
            if i == bi: continue
            a = rows[i].get(bj)
            if a:
                r = rows[i]
                for j, x in pr.items():
                    y = r.get(j, 0) - a * x
                    if y: r[j] = y
                    else: r.pop(j, None)
                rhs[i] = rhs[i] - a * pb
        a = z.get(bj, 0)
        for j, x in pr.items():
            z[j] = z.get(j, 0) - a * x
        val += a * pb
        basis[bi] = bj
    LPSTAT[2] += 1
    return False
def _int(x):
    return x.numerator if getattr(x, "denominator", 1) == 1 else x

_nest = {}
def nested(x):
    """all symbols occurring inside symbol x"""
    r = _nest.get(x)
    if r is None:
        out = {x}
        sy = SYMS[x]
        for a in (sy.args or ()):
            if isinstance(a, Lin):
                for y, _ in a.t: out |= nested(y)
        r = _nest[x] = frozenset(out)
    return r
def occurs(s, x): return s in nested(x)

_AFF = {}
def _affine(sy, rt, m):
    """the value of a one-byte table as a linear expression of the byte, where the byte's possible values allow it"""
    k = (sy.id, m) if isinstance(m, frozenset) else None
    if k is not None and k in _AFF: return _AFF[k]
    r = None; v0 = x0 = a = None
    for v in sorted(m):
        x = eval_sym(sy, rt, v)
        if x is None: r = None; break
        if v0 is None: v0, x0, r = v, x, L(x); continue
        if a is None:
            if (x - x0) % (v - v0): r = None; break
            a = (x - x0) // (v - v0)
            r = symlin(rt) * a + (x0 - a * v0) if a else L(x0)
        elif x != x0 + a * (v - v0): r = None; break
    if k is not None:
        if len(_AFF) > 20000: _AFF.clear()
        _AFF[k] = r
    return r

class Num:
    """facts of one path"""
    __slots__ = ("iv", "mk", "sub", "cons", "ne", "segs", "by", "pc", "pcache")
    def __init__(self):
        self.iv = {}; self.mk = {}; self.sub = {}; self.cons = []; self.ne = []; self.segs = []; self.by = {}; self.pc = (); self.pcache = {}
    def copy(self):
        n = Num.__new__(Num)
        n.iv = dict(self.iv); n.mk = dict(self.mk); n.sub = dict(self.sub); n.cons = list(self.cons); n.ne = list(self.ne)
        n.segs = list(self.segs); n.by = {k: list(v) for k, v in self.by.items()}; n.pc = self.pc; n.pcache = {}
        return n
    # ---- normal forms
    def norm(self, e):
        sub = self.sub
        hit = False
        for s, c in e.t:
            if s in sub or SYMS[s].kind in ("op", "div"): hit = True; break
        if not hit: return e
        r = None
        for s, c in e.t:
            if s in sub:
                n = self.norm(sub[s])
                if n is not sub[s]: sub[s] = n
                r = (r if r is not None else L(e.k)) + n * c
                continue
            sy = SYMS[s]
            if sy.kind in ("op", "div"):
                rt = small_root(sy)
                if rt is not None:
                    v = self._single(sy, rt)
                    if v is not None:
                        r = (r if r is not None else L(e.k)) + v * c; continue
                elif sy.kind == "div":
                    n = self.norm(sy.args[0])
                    lo = hi = n.k
                    for y, k in n.t:
                        a, b = self.rng(y)
                        if k < 0: a, b = b, a
                        lo = None if lo is None or a is None else lo + a * k
                        hi = None if hi is None or b is None else hi + b * k
                        if lo is None or hi is None: break
                    if lo is not None and hi is not None and lo // sy.args[1] == hi // sy.args[1]:
                        r = (r if r is not None else L(e.k)) + (lo // sy.args[1]) * c; continue
                    if n is not sy.args[0] and n != sy.args[0]:
                        d = self.div(n, sy.args[1])
                        r = (r if r is not None else L(e.k)) + d * c; continue
                elif sy.kind == "op":
                    n = [self.norm(a) if isinstance(a, Lin) else a for a in sy.args[1:]]
                    if any(x != y for x, y in zip(n, sy.args[1:])):
                        d = self.op(sy.args[0], n, sy.lo, sy.hi)
                        r = (r if r is not None else L(e.k)) + d * c; continue
            r = (r if r is not None else L(e.k)) + Lin(0, ((s, c),))
        return r
    def _single(self, sy, rt):
        if rt in self.sub:
            n = self.norm(self.sub[rt])
            if n.const(): 
                v = eval_sym(sy, rt, n.k)
                return v
            # root equals another expression
            if len(n.t) == 1 and n.k == 0 and n.t[0][1] == 1:
                return None
            return None
        m = self.mk.get(rt)
        if m is None: return None
        return _affine(sy, rt, m)
    def rng(self, s):
        sy = SYMS[s]
        r = self.iv.get(s)
        return r if r is not None else (sy.lo, sy.hi)
    def mask(self, root):
        m = self.mk.get(root)
        if m is None:
            lo, hi = self.rng(root)
            m = frozenset(range(lo, hi + 1)); self.mk[root] = m
        return m
    def groups(self, e):
        """splits e (normalised) into {root: [(sym,coef)]} for small roots and a rest list"""
        g = {}; rest = []
        for s, c in e.t:
            r = small_root(SYMS[s])
            if r is not None and r not in self.sub: g.setdefault(r, []).append((s, c))
            else: rest.append((s, c))
        return g, rest
    def gvals(self, root, terms):
        out = {}
        for v in self.mask(root):
            n = 0
            for s, c in terms:
                x = eval_sym(SYMS[s], root, v)
                if x is None: return None
                n += c * x
            out[v] = n
        return out
    def bounds(self, e):
        e = self.norm(e)
        lo = hi = e.k
        g, rest = self.groups(e)
        for r, terms in g.items():
            if len(terms) == 1 and terms[0][0] == r:
                m = self.mask(r); c = terms[0][1]
                if not m: raise Infeasible()
                a, b = min(m) * c, max(m) * c
                if a > b: a, b = b, a
            else:
                vs = self.gvals(r, terms)
                if vs is None:
                    rest = rest + terms; continue
                if not vs: raise Infeasible()
                a, b = min(vs.values()), max(vs.values())
            if lo is not None: lo += a
            if hi is not None: hi += b
        for s, c in rest:
            a, b = self.rng(s)
            if c < 0: a, b = b, a
            lo = None if lo is None or a is None else lo + a * c
            hi = None if hi is None or b is None else hi + b * c
        return lo, hi
    # ---- queries
    def prove_ge0(self, e, depth=5):
        e = self.norm(e)
        k = e
        r = self.pcache.get(k)
        if r is not None: return r
        self.pcache[k] = False
        r = self._prove(e, 2, set(), [8])
        if not r and self.cons:
            hi = self.bounds(e)[1]
            if hi is None or hi >= 0:
                # integrality: e is an integer, so e > -1 already gives e >= 0
                r = lp_prove(self, self._tight(e) * 1048576 + 1048575)
        self.pcache[k] = r
        return r
    def _prove(self, e, depth, seen, budget):
        lo, hi = self.bounds(e)
        if lo is not None and lo >= 0: return True
        if depth == 0 or e in seen: return False
        if hi is not None and hi < 0: return False
        if not self.cons: return False
        seen.add(e)
        opts = []
        ed = dict(e.t)
        for c in self.cons:
            for s, cc in c.t:
                a = ed.get(s)
                if a is not None and (a > 0) == (cc > 0):
                    n = e * abs(cc) - c * abs(a)
                    opts.append((len(n.t), n))
        opts.sort(key=lambda x: x[0])
        for _, n in opts[:14]:
            if budget[0] <= 0: return False
            budget[0] -= 1
            if self._prove(n, depth - 1, seen, budget): return True
        return False
    def prove_eq0(self, e):
        e = self.norm(e)
        if e.const(): return e.k == 0
        lo, hi = self.bounds(e)
        if lo == 0 and hi == 0: return True
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
        return self.prove_ge0(e) and self.prove_ge0(-e)
    def prove_ne0(self, e):
        e = self.norm(e)
        if e.const(): return e.k != 0
        lo, hi = self.bounds(e)
        if lo > 0 if lo is not None else False: return True
        if hi is not None and hi < 0: return True
        for n in self.ne:
            n = self.norm(n)
            if n == e or n == -e: return True
        g, rest = self.groups(e)
        if len(g) == 1 and not rest:
            r, t = next(iter(g.items()))
            vs = self.gvals(r, t)
            if vs is not None: return all(e.k + x != 0 for x in vs.values())
        return self.prove_ge0(e - 1) or self.prove_ge0(-e - 1)
    def eq(self, a, b): return self.prove_eq0(L(a) - L(b))
    def le(self, a, b): return self.prove_ge0(L(b) - L(a))
    def lt(self, a, b): return self.prove_ge0(L(b) - L(a) - 1)
    # ---- assumptions (False = infeasible)
    def assume_ge0(self, e):
        try: return self._assume_ge0(e)
        except Infeasible: return False
    def _assume_ge0(self, e):
        e = self.norm(e)
        if e.const(): return e.k >= 0
        lo, hi = self.bounds(e)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        for n in self.ne:
            n = self.norm(n)
            if n == e or n == -e:
                return self._assume_ge0(e - 1)
        if self.prove_ge0(-e - 1): return False
        e = self._tight(e)
        self._refine(e)
        if len(e.t) > 1 or (e.t and small_root(SYMS[e.t[0][0]]) is None):
            if e not in self.cons:
                # equality?
                if self.prove_ge0(-e):
                    return self._assume_eq0(e)
                if len(e.t) > 1: self._add_con(e)
        self.pcache = {}
        return True
    def _tight(self, e):
        from math import gcd
        g = 0
        for _, c in e.t: g = gcd(g, c)
        if g > 1: return Lin(e.k // g, tuple((s, c // g) for s, c in e.t))
        return e
    def _refine(self, e):
        """tighten value sets / intervals by e >= 0"""
        g, rest = self.groups(e)
        parts = []
        for r, terms in g.items():
            vs = self.gvals(r, terms)
            if vs is None: rest = rest + terms
            else:
                if not vs: raise Infeasible()
                parts.append((r, vs, max(vs.values())))
        his = []
        for s, c in rest:
            a, b = self.rng(s)
            x = b if c > 0 else a
            his.append(None if x is None else x * c)
        ninf = sum(1 for h in his if h is None)
        tot = e.k + sum(p[2] for p in parts) + sum(h for h in his if h is not None)
        if ninf == 0:
            for r, vs, mx in parts:
                o = tot - mx
                keep = frozenset(v for v, x in vs.items() if x + o >= 0)
                if len(keep) < len(vs): self.set_mask(r, keep)
        for i, (s, c) in enumerate(rest):
            if ninf == 0: o = tot - his[i]
            elif ninf == 1 and his[i] is None: o = tot
            else: continue
            # c*s + o >= 0
            a, b = self.rng(s)
            if c > 0:
                n = -(o // c)     # ceil(-o/c)
                if a is None or n > a: a = n
            else:
                n = o // (-c)
                if b is None or n < b: b = n
            self.set_iv(s, a, b)
    def set_iv(self, s, a, b):
        if a is not None and b is not None:
            if a > b: raise Infeasible()
            if a == b:
                self.iv[s] = (a, b)
                if s not in self.sub: self.sub[s] = L(a); self._changed()
                return
        self.iv[s] = (a, b)
    def set_mask(self, r, keep):
        if not keep: raise Infeasible()
        self.mk[r] = keep
        self.iv[r] = (min(keep), max(keep))
        self.pcache = {}
        if len(keep) == 1 and r not in self.sub:
            self.sub[r] = L(next(iter(keep))); self._changed()
    def _changed(self):
        self.pcache = {}
        if not self.cons: return
        nc = []
        old, self.cons = self.cons, nc
        for c in old:
            n = self.norm(c)
            if n.const():
                if n.k < 0: raise Infeasible()
                continue
            self._add_con(n)
    def assume_eq0(self, e):
        try: return self._assume_eq0(e)
        except Infeasible: return False
    def _assume_eq0(self, e):
        e = self.norm(e)
        if e.const(): return e.k == 0
        if self.prove_ne0(e): return False
        g, rest = self.groups(e)
        if len(g) == 1 and not rest:
            r, t = next(iter(g.items()))
            vs = self.gvals(r, t)
            if vs is not None:
                keep = frozenset(v for v, x in vs.items() if e.k + x == 0)
                self.set_mask(r, keep)
                return True
        # choose a symbol with unit coefficient; prefer underived, newest
        cand = [(SYMS[s].kind in ("op", "div"), small_root(SYMS[s]) is not None, -s, s, c) for s, c in e.t if abs(c) == 1]
        cand.sort()
        for der, sm, _, s, c in cand:
            if sm and len(e.t) > 2: continue
            # c*s + rest = 0 ->  s = -rest/c
            restl = Lin(e.k, tuple((x, y) for x, y in e.t if x != s))
            rhs = restl * (-1) if c == 1 else restl
            if any(x != s and occurs(s, x) for x, _ in rhs.t):
                continue
            lo, hi = self.rng(s)
            sm_ = self.mk.get(s)
            self.sub[s] = rhs
            if sm_ is not None and len(rhs.t) == 1 and rhs.k == 0 and rhs.t[0][1] == 1 and small_root(SYMS[rhs.t[0][0]]) == rhs.t[0][0]:
                self.set_mask(rhs.t[0][0], self.mask(rhs.t[0][0]) & sm_)
            self._changed()
            if lo is not None and not self._assume_ge0(rhs - lo): return False
            if hi is not None and not self._assume_ge0(L(hi) - rhs): return False
            # bytes with this symbol, re-check disequalities
            for n in list(self.ne):
                n2 = self.norm(n)
                if n2.const() and n2.k == 0: return False
            # re-propagate
            for c2 in list(self.cons): self._refine(self.norm(c2)) if not self.norm(c2).const() else None
            return True
        if not self._assume_ge0_raw(e): return False
        return self._assume_ge0_raw(-e)
    def _assume_ge0_raw(self, e):
        e = self.norm(e)
        if e.const(): return e.k >= 0
        lo, hi = self.bounds(e)
        if hi is not None and hi < 0: return False
        if lo is not None and lo >= 0: return True
        self._refine(e)
        self._add_con(e)
        self.pcache = {}
        return True
    def _add_con(self, e):
        for i, c in enumerate(self.cons):
            if c.t == e.t:
                if e.k < c.k: self.cons[i] = e
                return
        self.cons.append(e)
    def assume_ne0(self, e):
        try:
            e = self.norm(e)
            if e.const(): return e.k != 0
            g, rest = self.groups(e)
            if len(g) == 1 and not rest:
                r, t = next(iter(g.items()))
                vs = self.gvals(r, t)
                if vs is not None:
                    keep = frozenset(v for v, x in vs.items() if e.k + x != 0)
                    self.set_mask(r, keep)
                    return True
            if self.prove_eq0(e): return False
            if self.prove_ge0(e): return self._assume_ge0(e - 1)
            if self.prove_ge0(-e): return self._assume_ge0(-e - 1)
            self.ne.append(e)
            return True
        except Infeasible: return False
    # ---- derived expressions
    def div(self, e, c):
        """floor(e / c), c > 0"""
        e = self.norm(L(e))
        if c == 1: return e
        if e.const(): return L(e.k // c)
        out = ZERO; rem = e.k
        q, rem = divmod(e.k, c)
        out = out + q
        rt = []
        for s, a in e.t:
            q, r = divmod(a, c)
            if a < 0 and r > c // 2: q, r = q + 1, r - c
            if r == 0: out = out + Lin(0, ((s, q),)); continue
            if q and a > 0:
                out = out + Lin(0, ((s, q),)); a = r
            elif a < 0:
                if q: out = out + Lin(0, ((s, q),))
                a = r
            rt.append((s, a))
        core = Lin(rem, tuple(rt))
        if core.const(): return out + core.k // c
        lo, hi = self.bounds(core)
        if lo is not None and hi is not None and lo // c == hi // c: return out + lo // c
        # split terms whose coefficient divides c: s = m*div(s,m) + mod
        cd = dict(core.t)
        changed = True
        n = 0
        while changed and n < 20:
            changed = False; n += 1
            for s, a in list(cd.items()):
                if a > 0 and c % a == 0:
                    m = c // a
                    lo, hi = self.rng(s)
                    if lo is not None and hi is not None and hi - lo >= 0 and (hi >= m or lo < 0) and len(cd) > 1 and SYMS[s].kind != "div_":
                        # a*s = c*div(s,m) + a*(s - m*div(s,m))
                        d = self.div(symlin(s), m)
                        r = symlin(s) - d * m          # in [0,m)
                        oth_lo, oth_hi = self.bounds(Lin(core.k, tuple((x, y) for x, y in cd.items() if x != s)))
                        if oth_lo is not None and oth_lo >= 0 and oth_hi is not None and oth_hi < a:
                            # remainder a*r + other < c
                            return out + d
        core = Lin(core.k, tuple(sorted(cd.items())))
        # nested division: div(div(x,m),n) = div(x,m*n)
        if len(core.t) == 1 and core.k == 0 and core.t[0][1] == 1:
            sy = SYMS[core.t[0][0]]
            if sy.kind == "div": return out + self.div(sy.args[0], sy.args[1] * c)
        # drop low parts: x - m*div(x,m) style remainders are kept as they are
        key = ("div", core, c)
        if key not in _memo:
            lo, hi = self.bounds(core)
            # global range must hold in every state: use type ranges only
            lo, hi = _type_bounds(core)
            sy = _mk("div", None if lo is None else lo // c, None if hi is None else hi // c, "div", (core, c))
            _memo[key] = sy.id
        s = _memo[key]
        d = symlin(s)
        if small_root(SYMS[s]) is None and s not in self.iv:
            lo, hi = self.bounds(core)
            self.iv[s] = (None if lo is None else lo // c, None if hi is None else hi // c)
            if self.iv[s][0] is not None and self.iv[s][0] == self.iv[s][1]: return out + self.iv[s][0]
            self.cons.append(core - d * c)
            self.cons.append(d * c + (c - 1) - core)
            self.pcache = {}
        return self.norm(out + d)
    def mod(self, e, c):
        e = self.norm(L(e))
        lo, hi = self.bounds(e)
        if lo is not None and hi is not None and lo // c == hi // c: return e - c * (lo // c)
        return e - self.div(e, c) * c
    def op(self, name, args, lo, hi):
        args = [self.norm(a) if isinstance(a, Lin) else a for a in args]
        if all(not isinstance(a, Lin) or a.const() for a in args):
            r = apply_op(name, [a.k if isinstance(a, Lin) else a for a in args])
            if r is not None: return L(r)
        key = ("op", name) + tuple(args)
        if key not in _memo: _memo[key] = _mk("op", lo, hi, "op", (name,) + tuple(args)).id
        return self.norm(symlin(_memo[key]))
    # ---- buffers
    def byte(self, buf, off, lo=0, hi=255):
        off = self.norm(off)
        lst = self.by.setdefault(buf, [])
        for o, s in lst:
            if o is off or o == off: return self.norm(symlin(s))
        for o, s in lst:
            d = self.norm(o - off)
            if d.const():
                if d.k == 0: return self.norm(symlin(s))
            elif self.prove_eq0(d): return self.norm(symlin(s))
        key = ("byte", buf, off)
        if key not in _memo: _memo[key] = _mk("byte", 0, 255, "byte", (buf, off)).id
        s = _memo[key]
        lst.append((off, s))
        m = None
        for (b, x, y, mk) in self.segs:
            if b == buf and self.prove_ge0(off - x) and self.prove_ge0(y - off - 1):
                m = mk if m is None else (m & mk)
        if s in self.sub: return self.norm(symlin(s))   # same symbol seen before
        if m is not None: self.set_mask(s, self.mask(s) & m)
        return self.norm(symlin(s))
    def add_seg(self, buf, a, b, mask):
        a = self.norm(a); b = self.norm(b)
        if self.prove_ge0(a - b): return True
        self.segs.append((buf, a, b, mask))
        for o, s in list(self.by.get(buf, [])):
            if s in self.sub: 
                v = self.norm(symlin(s))
                if v.const() and self.prove_ge0(o - a) and self.prove_ge0(b - o - 1) and v.k not in mask: return False
                continue
            if self.prove_ge0(o - a) and self.prove_ge0(b - o - 1):
                try: self.set_mask(s, self.mask(s) & mask)
                except Infeasible: return False
        return True
    def seg_mask(self, buf, a, b, limit=300):
        """smallest known S with buf[p] in S for all p in [a,b); None if unknown (no fact)"""
        pos = self.norm(a); b = self.norm(b); out = frozenset()
        for _ in range(limit):
            if self.prove_ge0(pos - b): return out
            best = None
            for (bf, x, y, mk) in self.segs:
                if bf != buf: continue
                if self.prove_ge0(pos - x) and not self.prove_ge0(pos - y):
                    y = self.norm(y)
                    if self.prove_ge0(y - pos):
                        best = (y, mk); break
            if best is None:
                for o, s in self.by.get(buf, []):
                    if self.norm(o - pos) == ZERO or self.prove_eq0(o - pos):
                        v = self.norm(symlin(s))
                        if v.const(): mk = frozenset([v.k])
                        elif len(v.t) == 1 and v.k == 0 and v.t[0][1] == 1 and small_root(SYMS[v.t[0][0]]) == v.t[0][0]: mk = self.mask(v.t[0][0])
                        else: return None
                        best = (pos + 1, mk); break
            if best is None: return None
            out |= best[1]; pos = self.norm(best[0])
        return None
    def seg_mask_fine(self, buf, a, b, limit=60):
        """as seg_mask, stepping over the most precise fact at each position"""
        pos = self.norm(a); b = self.norm(b); out = frozenset()
        for _ in range(limit):
            if self.prove_ge0(pos - b): return out
            best = None
            for o, s in self.by.get(buf, []):
                if self.prove_eq0(o - pos):
                    v = self.norm(symlin(s)); mk = None
                    if v.const(): mk = frozenset([v.k])
                    elif len(v.t) == 1 and v.k == 0 and v.t[0][1] == 1 and small_root(SYMS[v.t[0][0]]) == v.t[0][0]: mk = self.mask(v.t[0][0])
                    if mk is not None: best = (pos + 1, mk)
                    break
            for (bf, x, y, mk) in self.segs:
                if bf != buf or best is not None and len(mk) >= len(best[1]): continue
                if self.prove_ge0(pos - x) and not self.prove_ge0(pos - y):
                    y = self.norm(y)
                    if self.prove_ge0(y - pos): best = (y, mk)
            if best is None: return None
            out |= best[1]; pos = self.norm(best[0])
        return None
    def show(self, e):
        return repr(self.norm(e))

def _type_bounds(e):
    lo = hi = e.k
    for s, c in e.t:
        a, b = SYMS[s].lo, SYMS[s].hi
        if c < 0: a, b = b, a
        lo = None if lo is None or a is None else lo + a * c
        hi = None if hi is None or b is None else hi + b * c
    return lo, hi
