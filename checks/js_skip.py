"""JSON skipping: bounded stack (C45), same extent as reading (C46)."""
from . import cause
from .lib import *
from .dem import *
from .js_cur import *
from .js_cur import bname
from .js_de import S, JCLS, NUM, NUMCH, FLOATCH, Num, Session, closing, de_methods, jcells, every, strategies, tok, one_visit, visits, passes_result, cursor
from .js_mem import InPlace, CTRL, QUOTE, BSL
from .mp_cur import stack

NOEND = frozenset(range(256)) - CTRL - {QUOTE}       # can neither end a string nor be refused in it
UNESC = NOEND - {BSL}

class Skip(InPlace):
    """where a string ends: sn is a position of its content, es tells whether the byte there is escaped"""
    policy = "known"
    def setup(self, st): InPlace.setup(self, st); st.gh["sn"] = None; st.gh["es"] = "no"
    def begin(self, st):
        if getattr(self, "dep", None) is None: return False
        if st.gh["sn"] is None: st.gh["sn"] = self.base
        return True
    def m(self, st, p):
        if st.num.prove_ge0(p - self.endp): return "eof"
        if not self.known(st, p) or not st.num.prove_ge0(self.endp - p - 1): return None
        return self.mask(st, p)
    def over(self, st, p, ok):
        """furthest position reached from p over bytes known to be in ok"""
        num = st.num; buf = bname(st, self.root)
        for _ in range(80):
            nxt = None
            for (bf, x, y, mk) in num.segs:
                if bf == buf and mk <= ok and num.prove_ge0(p - x) and num.prove_ge0(y - p) and not num.prove_ge0(p - y): nxt = num.norm(y); break
            if nxt is None:
                a = self.m(st, p)
                if isinstance(a, frozenset) and a <= ok: nxt = num.norm(p + 1)
            if nxt is None: return p
            p = nxt
        return p
    def step(self, st, last=False):
        num = st.num; g = st.gh; p = g["sn"]
        a = self.m(st, p)
        if g["es"] == "yes":
            if isinstance(a, frozenset) and not (a & CTRL): g["sn"] = num.norm(p + 1); g["es"] = "no"; return True
            return False
        q = self.over(st, p, UNESC)
        if not num.prove_eq0(q - p): g["sn"] = q; return True
        # a run of backslashes, decided at the quote behind it
        q = self.over(st, p, NOEND)
        if not num.prove_eq0(q - p) and self.m(st, q) == {QUOTE}:
            par = self.parity(st, p, q)
            if par == 0: g["sn"] = q; return True
            if par == 1: g["sn"] = num.norm(q + 1); return True
            if not last: return False
        if isinstance(a, frozenset) and a == {BSL}: g["sn"] = num.norm(p + 1); g["es"] = "yes"; return True
        return False
    def parity(self, st, p, q):
        """parity of the number of backslashes in front of q, within p.. (the byte at p is not escaped)"""
        num = st.num; buf = bname(st, self.root)
        def check(t):
            # [t, q) all backslashes, and t is the start or behind another byte
            if not (num.prove_ge0(t - p) and num.prove_ge0(q - t)): return None
            if not num.prove_eq0(q - t) and not num.prove_ge0(self.over(st, t, frozenset([BSL])) - q): return None
            if not num.prove_eq0(t - p):
                a = self.m(st, num.norm(t - 1))
                if not isinstance(a, frozenset) or BSL in a: return None
            r = num.mod(q - t, 2)
            return 0 if num.prove_eq0(r) else 1 if num.prove_eq0(r - 1) else None
        cand = [p, q]
        for (bf, x, y, mk) in num.segs:
            if bf == buf and mk <= {BSL}: cand.append(x)
        for o, s in num.by.get(buf, []): cand.append(num.norm(o + 1)); cand.append(o)
        for t in cand:
            r = check(num.norm(t))
            if r is not None: return r
        return None
    def run_on(self, st, n=64, last=False):
        if not self.begin(st): return
        for _ in range(n):
            if not self.step(st, last): break
    def on_enter(self, I, st):
        if self.policy == "known": self.run_on(st)
    def on_back(self, I, st, fr): self.run_on(st, 64 if self.policy == "known" else 1)
    def skipped(self, st, cur, what):
        self.run_on(st, last=True)
        p = st.gh["sn"]
        self.ob("a skipped string ends at its first unescaped quote", st.gh["es"] == "no" and self.m(st, p) == {QUOTE}, "%s with the string known up to %r (%s), then %s" % (what, st.norm(p - self.base), "escaped" if st.gh["es"] == "yes" else "not escaped", self.m(st, p)))
        self.ob("the closing quote is consumed", st.num.eq(cur, p + 1), "cursor at %r, quote at %r" % (st.norm(cur - self.base), st.norm(p - self.base)))
    def refused(self, st, v):
        self.run_on(st, last=True)
        p = st.gh["sn"]; a = self.m(st, p)
        if st.gh["es"] == "yes" and not isinstance(a, frozenset): r = a
        else:
            q = self.over(st, p, NOEND); r = self.m(st, q)
        cause.cause(self, v, cause.EOF if r == "eof" else ("StringControlChar",), "the skipped string ends with %s" % (r,))
        self.ob("a string is refused only for a control character or the end of input", r == "eof" or isinstance(r, frozenset) and r <= CTRL, "%r with the string known up to %r, then %s" % (v, st.norm(p - self.base), r))

def plain(c, P, b):
    def one(c2, pol):
        h = Skip(c2, where(b)); h.policy = pol
        h.summary = use_contract(P)
        I, rs, a = run(c2, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
        for x in rs:
            if x.kind == "imprecise": c2.undecided(h.where, "%s (%s)" % (x.val, x.where))
            elif x.kind == "ret":
                if is_ok(x.val): h.skipped(x.st, Cur(x.st, h.dep).pos, "Ok")
                else: h.refused(x.st, x.val)
    strategies(c, ("known", "one"), None, one)

def string(h, I, x):
    vs = visits(x)
    if not vs: h.ob("the visitor is asked", is_err(x.val), "%r" % (x.val,)); h.refused(x.st, x.val); return
    if one_visit(h, x, ("unit",)) is None: return
    h.skipped(x.st, cursor(x, h), "visit_unit")
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))

def number(h, I, x):
    st = x.st; num = st.num; h.finish(st)
    if not visits(x): h.ob("a number is skipped", False, "%r" % (x.val,)); return
    if one_visit(h, x, ("unit",)) is None: return
    e = st.gh["np"]
    m = num.seg_mask(bname(st, h.root), h.q, e)
    h.ob("a skipped number ends at the first byte that is no number character", num.prove_ge0(e - h.endp) or h.known(st, e) and not (h.mask(st, e) & NUMCH), "number characters known up to %r" % num.norm(e - h.q))
    h.ob("exactly the number is consumed", num.eq(cursor(x, h), e), "cursor at %r, number ends at %r" % (num.norm(cursor(x, h) - h.q), num.norm(e - h.q)))
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))

def nested(h, I, x):
    kind = x.st.gh.get("kind")
    want = {"bracket": "seq", "brace": "map"}[h.cls[0]]
    if kind is None: h.ob("a container is offered to the visitor", False, "%r" % (x.val,)); return
    h.ob("container kind", kind == want, "visit_%s for %s" % (kind, h.cls[0]))
    closing(h, I, x, kind)

def C46(chk):
    chk.rule("skipping entries for every input and cursor: strings against a running specification of escapes (position and escaped flag, parity of backslash runs), numbers against the run of number characters that a float target reads, literals spelled out, arrays and objects through the same element session as reading them (abstract session, all histories of the visitor)")
    P = prog(JSON); use_contract(P)
    jobs = []
    bs = inherent(P, "eat_str_content")
    if not bs: chk.undecided("eat_str_content", "not found")
    for b in bs: jobs.append(lambda c, b=b: plain(c, P, b))
    cls = dict(JCLS); N = "deserialize_ignored_any"
    ds = de_methods(P, N)
    if not ds: chk.undecided(N, "not found")
    for b in ds:
        def go(c, C, cl, per, b=b):
            def one(c2, pol):
                def mk(chk_, w, k, **kw):
                    h = C(chk_, w, k, **kw); h.policy = pol; return h
                jcells(c2, P, b, per, cl, mk=mk)
            strategies(c, ("known", "one"), cl, one)
        for n in NUM: jobs.append(lambda c, n=n, go=go: go(c, Num, (n, cls[n]), number))
        jobs.append(lambda c, go=go: go(c, Skip, ("quote", cls["quote"]), string))
        for n in ("bracket", "brace"): jobs.append(lambda c, n=n, b=b: jcells(c, P, b, nested, (n, cls[n]), mk=Session))
        for n, lit, names in (("n", b"null", ("unit", "none")), ("t", b"true", ("unit", "bool")), ("f", b"false", ("unit", "bool"))):
            jobs.append(lambda c, n=n, lit=lit, names=names, b=b: jcells(c, P, b, lambda h, I, x: tok(h, x, lit, names), (n, cls[n])))
    par(chk, jobs)

def C45(chk):
    chk.rule("call graph of the skipping entry points (all resolved calls, generic callbacks included): acyclic, and no call through which the decoder could be re-entered per nesting level")
    P = prog(JSON)
    bs = [b for b in de_methods(P, "deserialize_ignored_any") + de_methods(P, "deserialize_ignored_any", "MapKey")] + inherent(P, "eat_str_content")
    if not bs: chk.undecided("deserialize_ignored_any", "not found")
    for b in bs: stack(chk, P, b)

CHECKS = {"C45": C45, "C46": C46}
