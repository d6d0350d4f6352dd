"""JSON deserializer: dispatch on the first significant byte (C38), containers (C33), end of document (C34), map keys (C39), enums (C40)."""
from . import cause
from .lib import *
from .dem import *
from .js_cur import *
from .js_cur import WS, NWS, bname
from .mp_de import cursor, visits, passes_result
from .mp_ser import INTS

def S(*xs):
    out = set()
    for x in xs: out |= {x} if isinstance(x, int) else {ord(c) for c in x}
    return frozenset(out)
DIGITS = S("0123456789")
JCLS = [("quote", S('"')), ("minus", S("-")), ("zero", S("0")), ("digit", S("123456789")), ("bracket", S("[")), ("brace", S("{")), ("n", S("n")), ("t", S("t")), ("f", S("f")),
        ("close-bracket", S("]")), ("close-brace", S("}")), ("comma", S(",")), ("colon", S(":"))]
JCLS.append(("other", NWS - frozenset().union(*[c for _, c in JCLS])))
NUM = ("minus", "zero", "digit")

def byte_mask(st, buf, q):
    """possible values of the byte at q"""
    b = st.norm(st.num.byte(buf, st.norm(q)))
    if b.const(): return frozenset([b.k])
    if len(b.t) == 1 and b.k == 0 and b.t[0][1] == 1: return frozenset(st.num.mask(b.t[0][0]))
    return frozenset(range(256))
class Refusal(str):
    """"error" with the variants documented for it"""
    def __new__(cls, *names):
        s = str.__new__(cls, "error"); s.names = names; return s
class At:
    """a position seen as a cursor, to look for the next significant byte from it"""
    def __init__(self, root, pos, end): self.root = root; self.pos = pos; self.end = end

class JCell(JDe):
    """input: whitespace, then a byte of class cls (None: nothing but whitespace)"""
    def __init__(self, chk, where, cls, key=False):
        JDe.__init__(self, chk, where); self.cls = cls; self.key = key
    def started(self, I, st):
        num = st.num; buf = bname(st, self.root)
        if self.key:
            # a map key deserializer is created in front of its quote
            num.assume_ge0(self.endp - self.p0 - 1)
            num.assume_eq0(num.byte(buf, self.p0) - 0x22)
            self.q = self.p0
            return
        if self.cls is None:
            num.add_seg(buf, self.p0, self.endp, WS); self.q = None; return
        q = fresh("q", 0, None)
        num.assume_ge0(q - self.p0); num.assume_ge0(self.endp - q - 1)
        num.add_seg(buf, self.p0, q, WS)
        b = num.byte(buf, q)
        num.set_mask(b.t[0][0], num.mask(b.t[0][0]) & self.cls[1])
        self.q = q
    # ---- looking at the input
    def known(self, st, q):
        num = st.num
        for o, s in num.by.get(bname(st, self.root), []):
            if num.prove_eq0(o - q): return True
        for (bf, x, y, mk) in num.segs:
            if bf == bname(st, self.root) and num.prove_ge0(q - x) and num.prove_ge0(y - q - 1): return True
        return False
    def sig(self, st, pos):
        """next significant position from pos: position | "eof" | None (unknown)"""
        q = self.next_nws(st, At(self.root, st.norm(pos), self.endp))
        if q is not None: return q
        m = st.num.seg_mask(bname(st, self.root), pos, self.endp)
        if m is not None and m <= WS: return "eof"
        if st.num.prove_ge0(pos - self.endp): return "eof"
        return None
    def mask(self, st, q): return byte_mask(st, bname(st, self.root), q)
    def ws_between(self, st, a, b):
        """b is reached from a over whitespace only"""
        num = st.num
        if num.prove_eq0(a - b): return True
        if not num.prove_ge0(b - a): return False
        m = num.seg_mask(bname(st, self.root), a, b)
        return m is not None and m <= WS
    def token(self, st, q, lit):
        """is `lit` at q?  True/False/None"""
        num = st.num
        for i, ch in enumerate(lit):
            p = num.norm(q + i)
            if num.prove_ge0(p - self.endp): return False
            m = self.mask(st, p)
            if m == {ch} and num.prove_ge0(self.endp - p - 1): continue
            if ch not in m: return False
            if not num.prove_ge0(self.endp - p - 1) and num.prove_ge0(q + len(lit) - self.endp - 1): return False
            return None
        return True

def de_methods(P, name, base="Deserializer"):
    out = []
    for b in P.roots:
        r = b.root; s = r.get("selfs") or ""
        if r["name"] == name and (r.get("trait") or "").split("::")[-1] == "Deserializer" and "de::" + base + "<" in s: out.append(b)
    return out

def jcells(c, P, b, per, cls, mk=JCell, ptrbits=64, maxpaths=8000, **kw):
    h = mk(c, "%s [%s]" % (where(b), "only whitespace left" if cls is None else "first byte " + cls[0]), cls, **kw)
    h.summary = use_contract(P); h.meth = b.root["name"]
    I, rs, a = run(c, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), ptrbits=ptrbits, maxpaths=maxpaths)
    good = []
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": pass        # C30
        else: good.append(x)
    h.I = I
    for x in good: per(h, I, x)
    return h, I, good

def every(chk, P, names, per, classes=None, base="Deserializer", **kw):
    jobs = []
    for n in names:
        bs = de_methods(P, n, base)
        if not bs: chk.undecided(n, "method not found"); continue
        for b in bs:
            for cls in [None] + JCLS:
                if classes is not None and (cls[0] if cls else None) not in classes: continue
                jobs.append(lambda c, b=b, cls=cls: jcells(c, P, b, per, cls, **kw))
    return jobs

TYPE = {"unit": "ExpectedNull", "unit_struct": "ExpectedNull", "bool": "UnexpectedChar", "str": "ExpectedString", "string": "ExpectedString", "identifier": "ExpectedString", "char": "ExpectedString",
        "bytes": "UnexpectedChar", "byte_buf": "UnexpectedChar", "seq": "ExpectedArray", "tuple": "ExpectedArray", "tuple_struct": "ExpectedArray", "map": "ExpectedObject", "struct": "ExpectedStruct",
        "enum": "ExpectedEnumValue", "f32": "InvalidNumber", "f64": "InvalidNumber", "any": "UnexpectedChar", "ignored_any": "UnexpectedChar"}
def wrong_kind(h):
    """the error documented for a value that starts with another byte"""
    n = h.meth.replace("deserialize_", "")
    if n in TYPE: return (TYPE[n],)
    return ("InvalidNumber",) if n[0] == "u" and h.cls is not None and h.cls[0] == "minus" else ("InvalidType",)
def refused(h, x, why="other kinds are refused"):
    if cause.ON and not h.key: cause.cause(h, x.val, cause.EOF if h.cls is None else wrong_kind(h), "the input ends" if h.cls is None else "the value starts otherwise")
    h.ob(why, is_err(x.val) and not visits(x), "%r after %r" % (x.val, [v[1] for v in visits(x)]))
def one_visit(h, x, names):
    vs = visits(x)
    g = len(vs) == 1 and vs[0][1] in names
    h.ob("the right kind of value is visited", g, "%r, expected visit_%s" % ([v[1] for v in vs], "/".join(names)))
    return vs[0] if g else None

# ---------------------------------------------------------------- containers (C33)
class Session(JCell):
    """a visitor using a sequence or map access in any order; the grammar runs along as a phase"""
    modular = False
    def setup(self, st):
        JCell.setup(self, st)
        for k in ("kind", "phase", "op", "last"): st.gh[k] = None
        st.gh["at"] = ZERO; st.gh["vfail"] = "no"; st.gh["called"] = "no"; st.gh["start"] = None
    def drive(self, ctx, kind):
        if kind == "enum": return JDe.drive(self, ctx, kind)
        return DeHandler.drive(self, ctx, kind)
    def on_back(self, I, st, fr): st.gh["ev"] = ()
    def drive_start(self, ctx, kind, fns):
        st = ctx.st; c = Cur(st, self.dep).pos
        st.gh["ev"] = (); st.gh["kind"] = kind; st.gh["phase"] = "fresh"; st.gh["at"] = c; st.gh["vfail"] = "no"; st.gh["op"] = None
        self.opened(st, kind, c)
    def opened(self, st, kind, c):
        ch = {"seq": "[", "map": "{"}[kind]
        g = self.q is not None and self.mask(st, self.q) == S(ch) and self.ws_between(st, self.q + 1, c)
        self.ob("elements start after the opening bracket", g, "visit_%s at %r" % (kind, st.norm(c - self.p0)))
    def hook(self, ctx, name):
        if name.startswith("choice:"):
            if ctx.st.gh["vfail"] == "yes":
                self.at_choice(ctx)
                return [(ctx.st, L(int(name[7:]) - 1))]       # a visitor passes errors on
        return DeHandler.hook(self, ctx, name)
    def pre(self, ctx, name):
        st = ctx.st; st.gh["op"] = name; st.gh["called"] = "no"; st.gh["last"] = None
    CLOSE = {"seq": 0x5d, "map": 0x7d}
    def expect(self, st):
        """where the next element must start: position | "end" | "error" | None"""
        at = st.gh["at"]; k = st.gh["kind"]; close = self.CLOSE[k]; ph = st.gh["phase"]
        q = self.sig(st, at)
        if q is None: return None
        if q == "eof": return Refusal("UnexpectedEof")
        what = {"seq": "Array", "map": "Object"}[k]
        m = self.mask(st, q)
        if st.gh["op"] == "next_value_seed":
            if m == {0x3a}: return st.norm(q + 1)
            return Refusal("ExpectedColon") if 0x3a not in m else None
        if m == {close}: return "end"
        if close in m: return None
        if ph == "fresh":
            if m == {0x2c}: return Refusal("Leading%sComma" % what)
            if 0x2c in m: return None
            return self.element(st, q, m)
        if m == {0x2c}:
            q2 = self.sig(st, q + 1)
            if q2 is None: return st.norm(q + 1) if k == "seq" else None
            if q2 == "eof": return Refusal("UnexpectedEof")
            m2 = self.mask(st, q2)
            if m2 == {close}: return Refusal("Trailing%sComma" % what)
            if close in m2: return None
            return self.element(st, q2, m2)
        return Refusal("Expected%sCommaOrEnd" % what) if 0x2c not in m else None
    def element(self, st, q, m):
        if st.gh["kind"] == "map":
            if m == {0x22}: return q
            return Refusal("KeyMustBeAString") if 0x22 not in m else None
        return q
    def at_nested(self, ctx, dep):
        st = ctx.st; op = st.gh["op"]
        if op is None: return
        c = Cur(st, dep).pos
        self.ob("one value per call", st.gh["called"] == "no", "called twice")
        st.gh["called"] = "yes"
        if not self.inphase(st): return
        e = self.expect(st)
        g = isinstance(e, Lin) and (self.ws_between(st, e, c) or st.gh["kind"] == "seq" and self.ws_between(st, c, e) and st.num.prove_ge0(c - st.gh["at"]))
        if g and st.gh["kind"] == "map" and op == "next_key_seed":
            g = st.num.prove_eq0(c - e)
            self.ob("keys are read by the key deserializer", is_mapkey(ctx.args[-1]), "%r" % (ctx.args[-1],))
        self.ob("an element is read only where one must start", g, "%s in phase %s reads at %r, expected %r" % (op, st.gh["phase"], c, e))
    def inphase(self, st):
        """calls a visitor may make: elements; keys and values in turn"""
        return st.gh["phase"] != "stray" and (st.gh["kind"] == "seq" or (st.gh["op"] == "next_value_seed") == (st.gh["phase"] == "key"))
    def after_nested(self, ctx, st, dep, good):
        if st.gh["op"] is None: return
        st.gh["at"] = Cur(st, dep).pos
        st.gh["nok"] = "yes" if good else "no"
    def post(self, ctx, name, r):
        st = ctx.st; num = st.num
        if name == "size_hint": return
        if not self.inphase(st): st.gh["phase"] = "stray"; st.gh["op"] = None; st.gh["vfail"] = "yes" if is_err(r) else "no"; st.gh["last"] = None; st.gh["at"] = Cur(st, self.dep).pos; return
        cur = Cur(st, self.dep).pos
        called = st.gh["called"] == "yes"
        opt = name in ("next_element_seed", "next_key_seed")
        if called:
            good = st.gh["nok"] == "yes"
            v = r.f[0] if r.f else None
            if good and opt: v = v.f[0] if isinstance(v, Enum) and v.name == "Some" else None
            self.ob("the element's own result is returned", is_ok(r) == good and v is not None and v == st.gh["last"], "%r" % (r,))
            self.ob("nothing is consumed after the element", num.prove_eq0(cur - st.gh["at"]), "cursor moved by %r" % num.norm(cur - st.gh["at"]))
            st.gh["phase"] = "key" if name == "next_key_seed" else "after"
        else:
            e = self.expect(st)
            if e == "error": cause.cause(self, r, e.names, "%s follows in phase %s" % (e.names, st.gh["phase"]))
            if is_err(r): self.ob("an element is refused only where none may start", e == "error" , "%r in phase %s, expected %r" % (r, st.gh["phase"], e))
            elif opt and isinstance(r.f[0], Enum) and r.f[0].name == "None":
                self.ob("the end is reported exactly at the closing bracket", e == "end", "end of elements in phase %s, expected %r" % (st.gh["phase"], e))
                self.ob("the closing bracket is left to the container", self.ws_between(st, st.gh["at"], cur), "cursor moved by %r" % num.norm(cur - st.gh["at"]))
            else: self.ob("the element's own result is returned", False, "%r without reading an element" % (r,))
            if num.prove_ge0(cur - st.gh["at"]): st.gh["at"] = cur
        st.gh["op"] = None; st.gh["last"] = None
        st.gh["vfail"] = "yes" if is_err(r) else "no"
        st.gh["called"] = "no"; st.gh["nok"] = None

def closing(h, I, x, kind):
    """after the visitor: exactly the closing bracket, consumed"""
    st = x.st; num = st.num
    if st.gh["vok"] == ZERO:
        h.ob("the visitor's error is returned", is_err(x.val) and passes_result(h, x), "%r" % (x.val,)); return
    at = st.gh["cur"]; ch = {"seq": 0x5d, "map": 0x7d, "enum": 0x7d}[kind]
    q = h.sig(st, at)
    if q is None: h.ob("the closing bracket is looked for", False, "%r without looking at the input after the visitor" % (x.val,)); return
    cause.cause(h, x.val, cause.EOF if q == "eof" else ({"seq": "ExpectedArrayEnd", "map": "ExpectedObjectEnd", "enum": "ExpectedEnumObjectEnd"}[kind],), "the container is not closed")
    if q == "eof": h.ob("the closing bracket is required", is_err(x.val), "%r at the end of input" % (x.val,)); return
    m = h.mask(st, q)
    if is_ok(x.val):
        h.ob("the closing bracket is required", m == {ch}, "accepted with byte %s after the last element" % sorted(m)[:5])
        h.ob("the closing bracket is consumed", num.eq(cursor(x, h), q + 1), "cursor at %r, bracket at %r" % (cursor(x, h), q))
        h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))
    else: h.ob("a closed container is accepted", ch not in m, "%r although the closing bracket is there" % (x.val,))

def container(h, I, x):
    kind = x.st.gh.get("kind")
    want = {"bracket": "seq", "brace": "map"}[h.cls[0]]
    if kind is None: h.ob("a container is offered to the visitor", False, "%r" % (x.val,)); return
    h.ob("container kind", kind == want, "visit_%s for %s" % (kind, h.cls[0]))
    closing(h, I, x, kind)

CONTAINERS = [("deserialize_seq", ("bracket",)), ("deserialize_tuple", ("bracket",)), ("deserialize_tuple_struct", ("bracket",)), ("deserialize_map", ("brace",)),
              ("deserialize_struct", ("bracket", "brace")), ("deserialize_any", ("bracket", "brace"))]
def C33(chk):
    chk.rule("for every container entry and every history of the visitor (abstract session over the access object, phases fresh / after an element / after a key, loop invariants inferred): where the next element or value is read, when the end is reported, what is refused, and that the matching closing bracket is required and consumed")
    P = prog(JSON); use_contract(P)
    jobs = []
    for n, cl in CONTAINERS: jobs += every(chk, P, (n,), container, cl, mk=Session)
    par(chk, jobs)


# ---------------------------------------------------------------- numbers
NUMCH = S("0123456789+-.eE")
FLOATCH = S(".eE")
class Num(JCell):
    """the decimal text runs along: v = value of the digits seen, vp = next position; np/isf = end of the run of number characters
    and whether it has a fraction or exponent.  policy: how far the specification runs ahead at loop heads"""
    policy = "known"
    def setup(self, st):
        JCell.setup(self, st)
        st.gh["v"] = ZERO; st.gh["vp"] = None; st.gh["np"] = None; st.gh["isf"] = "no"; st.gh["done"] = "no"; st.gh["start"] = None
    def begin(self, st):
        """first digit position of the integer, once it is known to be one"""
        if st.gh["start"] is not None: return True
        if self.q is None: return False
        q = self.q
        if self.key:
            q = self.sig(st, self.q + 1)
            if not isinstance(q, Lin): return False
        st.gh["start"] = q; st.gh["np"] = q
        m = self.mask(st, q)
        st.gh["vp"] = st.norm(q + 1) if m == {0x2d} else q
        st.gh["neg"] = "yes" if m == {0x2d} else "no"
        return True
    def step(self, st):
        """one digit"""
        num = st.num; p = st.gh["vp"]
        if st.gh["done"] == "yes" or num.prove_ge0(p - self.endp) or not self.known(st, p): return False
        m = self.mask(st, p)
        if not m <= DIGITS or not num.prove_ge0(self.endp - p - 1): return False
        if m == S("0") and num.prove_eq0(st.gh["v"]): st.gh["done"] = "yes"          # a leading zero stands alone
        st.gh["v"] = num.norm(st.gh["v"] * 10 + num.byte(bname(st, self.root), p) - 48)
        st.gh["vp"] = num.norm(p + 1)
        return True
    def fstep(self, st):
        num = st.num; p = st.gh["np"]
        if num.prove_ge0(p - self.endp) or not self.known(st, p): return False
        m = self.mask(st, p)
        if not m <= NUMCH: return False
        if m <= FLOATCH: st.gh["isf"] = "yes"
        elif m & FLOATCH and st.gh["isf"] == "no": st.gh["isf"] = "maybe"
        st.gh["np"] = num.norm(p + 1)
        return True
    def run_on(self, st, n=64):
        if not self.begin(st): return
        for _ in range(n):
            if not self.step(st): break
        for _ in range(n):
            if not self.fstep(st): break
    def on_enter(self, I, st):
        if getattr(self, "dep", None) is not None and self.policy == "known": self.run_on(st)
    def on_back(self, I, st, fr):
        if getattr(self, "dep", None) is not None: self.run_on(st, 64 if self.policy == "known" else 1)
    def finish(self, st):
        self.run_on(st)

def strategies(chk, names, cls, job):
    """a proof with any of the specification's running orders counts"""
    last = None
    for n in names:
        c = Check(chk.pid, chk.tier, chk.level)
        job(c, n)
        last = last or c
        if not any(o is False for _, _, o, _ in c.obs): last = c; break
    chk.obs += last.obs; chk.units += last.units; chk.paths += last.paths
    for k, v in last.fns.items(): chk.fns[k] = chk.fns.get(k, 0) + v
    for s in last.samples[:2]:
        if len(chk.samples) < 12: chk.samples.append(s)

def int_spec(h, I, x, ty):
    """one path of an integer target whose text starts at the ghost's start"""
    from .mp_de import RANGE
    st = x.st; num = st.num
    lo, hi = RANGE[ty]
    h.finish(st)
    vs = visits(x)
    tail = 0
    if h.key:
        q = h.sig(st, h.q + 1)
        if q == "eof": cause.cause(h, x.val, cause.EOF, "the key ends")
        if q == "eof": h.ob("a truncated number is an error", is_err(x.val) and not vs, "%r" % (x.val,)); return
        if q is None: h.ob("the number is looked at", False, "%r" % (x.val,)); return
        m = h.mask(st, q)
        if not (m <= DIGITS or m == {0x2d} or not (m & (DIGITS | {0x2d}))): h.ob("the first character decides", False, "%r for %s" % (x.val, sorted(m)[:6])); return
        isnum = m <= DIGITS or m == {0x2d} and lo < 0
    else:
        isnum = h.cls is not None and (h.cls[0] in ("zero", "digit") or h.cls[0] == "minus" and lo < 0)
    if not isnum:
        if h.key: cause.cause(h, x.val, ("InvalidNumber",) if m == {0x2d} else ("InvalidType",), "the key starts otherwise")
        refused(h, x, "an integer starts with a digit%s" % (" or minus" if lo < 0 else "")); return
    p, v, s = st.gh["vp"], st.gh["v"], st.gh["start"]
    neg = st.gh["neg"] == "yes"
    first = num.norm(s + 1) if neg else s
    nodigit = num.prove_ge0(first - h.endp) or h.known(st, first) and not (h.mask(st, first) & DIGITS)
    if nodigit:
        cause.cause(h, x.val, cause.EOF if num.prove_ge0(first - h.endp) else ("InvalidType",), "a minus without a digit")
        h.ob("a number needs a digit", is_err(x.val) and not vs, "%r after %r" % (x.val, [v[1] for v in vs])); return
    val = -v if neg else v
    # has the whole text been looked at?
    ended = st.gh["done"] == "yes" or num.prove_ge0(p - h.endp) or (h.known(st, p) and not (h.mask(st, p) & DIGITS))
    over = num.prove_ge0(val - hi - 1) or num.prove_ge0(L(lo) - val - 1)
    if vs:
        if len(vs) != 1 or vs[0][1] != ty: h.ob("the right kind of value is visited", False, "%r" % (vs,)); return
        a = vs[0][2][0]
        h.ob("the number is the value of its digits", isinstance(a, Lin) and num.eq(a, val), "got %r for digits of value %r" % (a, num.norm(val)))
        h.ob("all digits are read", ended, "stops at %r with the digits read up to %r" % (vs[0][3], p))
        if not h.key:
            h.ob("the digits are consumed and nothing else", num.eq(cursor(x, h), p), "cursor at %r, digits end at %r" % (num.norm(cursor(x, h) - s), num.norm(p - s)))
            h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))
        else:
            h.ob("the closing quote is required", num.prove_ge0(h.endp - p - 1) and h.mask(st, p) == {0x22}, "accepted without closing quote")
            h.ob("the closing quote is consumed", num.eq(cursor(x, h), p + 1), "cursor at %r, quote at %r" % (cursor(x, h), p))
            h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))
    else:
        just = over
        cause.cause(h, x.val, cause.EOF if not over and num.prove_ge0(p - h.endp) else ("InvalidNumber",), "the number does not fit" if over else "the key goes on")
        if h.key and not just: just = ended and (num.prove_ge0(p - h.endp) or 0x22 not in h.mask(st, p))
        h.ob("a number is refused only when it does not fit" + (" or is not closed" if h.key else ""), is_err(x.val) and just, "%r for digits of value %r" % (x.val, num.norm(val)))

def C37(chk):
    chk.rule("for each of the 8 integer targets, every first byte and every text: digits run along the parser (ghost value and position, loop invariants inferred); the visited number equals the decimal value of exactly the longest digit run, errors only for overflow or no digit")
    P = prog(JSON); use_contract(P)
    jobs = []
    for ty in INTS:
        for b in de_methods(P, "deserialize_" + ty):
            for cls in [None] + JCLS:
                def job(c, b=b, cls=cls, ty=ty):
                    def one(c2, pol):
                        def mk(chk_, w, cl, **kw):
                            h = Num(chk_, w, cl, **kw); h.policy = pol; return h
                        jcells(c2, P, b, lambda h, I, x: int_spec(h, I, x, ty), cls, mk=mk)
                    strategies(c, ("known", "one"), cls, one)
                jobs.append(job)
    par(chk, jobs)

# ---------------------------------------------------------------- dispatch (C38)
def tok(h, x, lit, names, val=None):
    """a literal: visited iff spelled out completely"""
    st = x.st; num = st.num
    t = h.token(st, h.q, lit)
    vs = visits(x)
    if not vs: literal(h, x, h.q, (lit,))
    if not vs: h.ob("a complete literal is accepted", is_err(x.val) and t is False, "%r although %r %s" % (x.val, lit.decode(), "is there" if t else "may be there")); return
    v = one_visit(h, x, names)
    if v is None: return
    h.ob("a literal is accepted only when spelled out", t is True, "visit_%s without %r" % (v[1], lit.decode()))
    if val is not None: h.ob("the literal's value", val(v[2]), "%r" % (v[2],))
    h.ob("exactly the literal is consumed", num.eq(cursor(x, h), h.q + len(lit)), "cursor moved by %r" % num.norm(cursor(x, h) - h.q))
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))

def literal(h, x, q, lits):
    """the end of input is named when the input is shorter than the literal, else the literal"""
    if not cause.ON: return
    long = any(x.st.num.prove_ge0(h.endp - q - len(l)) for l in lits)
    short = any(x.st.num.prove_ge0(q + len(l) - h.endp - 1) for l in lits)
    cause.cause(h, x.val, ("ExpectedToken",) if not short else cause.EOF if not long else ("ExpectedToken", "UnexpectedEof"), "the literal is not spelled out")
def is_bool(w): return lambda a: isinstance(a[0], Lin) and a[0].const() and a[0].k == w
def lits(h, x, any_names=False):
    """n/t/f classes of self-describing methods"""
    c = h.cls[0]
    n = lambda k: (k, "unit") if any_names else (k,)
    if c == "n": tok(h, x, b"null", ("unit", "none"))
    elif c == "t": tok(h, x, b"true", n("bool"), None if any_names else is_bool(1))
    elif c == "f": tok(h, x, b"false", n("bool"), None if any_names else is_bool(0))
    else: return False
    return True
def starts(h, x, kinds, off=ZERO, why="the container is handed on whole"):
    """a container visit begins behind its bracket; what follows is C33"""
    v = one_visit(h, x, kinds)
    return v

def text(h, x, names):
    """a string is visited, validated; its content is C35"""
    vs = visits(x)
    if not vs: h.ob("a string error", is_err(x.val), "%r" % (x.val,)); return
    v = one_visit(h, x, names)
    if v is None: return
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))

def one_char(h, I, x):
    """a char is the whole text of its string; a text that is one character is not refused"""
    st = x.st; num = st.num
    at = lambda k: "%s@%r" % (k[1], st.norm(k[2][-1][1]))
    clen = lambda k: named("charlen@" + at(k), 1, 4)
    texts = [k for k in st.preds if isinstance(k, tuple) and k and k[0] == "utf8" and k[1] == h.root and k[2] and k[2][-1][0] == "e" and num.eq(k[2][-1][1], h.q + 1)]
    vs = visits(x)
    if len(vs) == 1 and vs[0][1] == "char":
        v = I.leafify(vs[0][2][0])
        same = [k for k in texts if isinstance(v, Lin) and num.eq(v, named("char@" + at(k), 0, 0x10ffff))]
        h.ob("a char is the first character of its string", bool(same), "visit_char(%r)" % (v,))
        if same: h.ob("a char is the only character of its string", any(num.eq(k[3], clen(k)) for k in same), "accepted with text of %r bytes" % (same[0][3],))
    elif not vs and is_err(x.val) and texts:
        h.ob("a string of one character is a char", any(num.eq(k[3], ZERO) or num.prove_ge0(k[3] - clen(k) - 1) for k in texts), "%r" % (x.val,))

def has_float_char(h, st, a, b):
    num = st.num
    for o, s in num.by.get(bname(st, h.root), []):
        if num.prove_ge0(o - a) and num.prove_ge0(b - o - 1) and h.mask(st, o) <= FLOATCH: return True
    return False

def number_text(h, I, x, bits, names):
    """float target: the run of number characters is parsed as a whole"""
    st = x.st; num = st.num; h.finish(st)
    vs = visits(x)
    e = st.gh["np"]
    ended = num.prove_ge0(e - h.endp) or h.known(st, e) and not (h.mask(st, e) & NUMCH)
    def whole(key):
        root, path, ln = key
        return root == h.root and num.eq(path[-1][1], h.q) and num.eq(num.norm(h.q + ln), e) and ended
    if not vs:
        bad = [k for k, v in st.preds.items() if isinstance(k, tuple) and k[0] in ("fparse", "iparse") and v is False]
        cause.cause(h, x.val, ("InvalidNumber",), "the number's text is none")
        h.ob("a number is refused only when its text is none", is_err(x.val) and any(whole(k[1][1]) for k in bad), "%r" % (x.val,)); return
    v = one_visit(h, x, names)
    if v is None: return
    a = v[2][0]
    if v[1][0] == "f":
        g = isinstance(a, FloatV) and isinstance(a.key, tuple) and a.key[0] == "parse" and a.key[2] == bits and whole(a.key[1])
        h.ob("the number is parsed from its whole text", g, "%r" % (a,))
        if len(names) > 1: h.ob("a float has a fraction or exponent", st.gh["isf"] == "yes" or has_float_char(h, st, h.q, e), "visit_%s for an integer text" % v[1])
    else:
        ty = v[1]
        ks = [k[1] for k, t in st.preds.items() if isinstance(k, tuple) and k[0] == "iparse" and t is True]
        g = any(whole(k[1]) and k[2] == ty and num.eq(a, named("int(%s,%s)" % (k[1], k[2]), *((0, (1 << 64) - 1) if ty[0] == "u" else (-(1 << 63), (1 << 63) - 1)))) for k in ks) if isinstance(a, Lin) else False
        h.ob("the number is parsed from its whole text", g, "%r" % (a,))
        sm = num.seg_mask_fine(bname(st, h.root), h.q, e) or num.seg_mask(bname(st, h.root), h.q, e)
        h.ob("an integer has no fraction or exponent", st.gh["isf"] == "no" or sm is not None and not (sm & FLOATCH), "visit_%s for a float text" % ty)
        h.ob("integers with a minus are signed", (ty == "i64") == (h.cls[0] == "minus"), "visit_%s" % ty)
    h.ob("exactly the number is consumed", num.eq(cursor(x, h), e), "cursor at %r, number ends at %r" % (num.norm(cursor(x, h) - h.q), num.norm(e - h.q)))
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))

def C38(chk):
    chk.rule("every typed and self-describing entry for every class of first significant byte (and for no input): which visit method is called, literals spelled out in full, numbers parsed from the longest run of number characters, everything else an error")
    P = prog(JSON); use_contract(P)
    jobs = []
    C = lambda h: h.cls[0] if h.cls else None
    def unit(h, I, x):
        if C(h) == "n": tok(h, x, b"null", ("unit",))
        else: refused(h, x)
    jobs += every(chk, P, ("deserialize_unit", "deserialize_unit_struct"), unit)
    def bool_(h, I, x):
        if C(h) in ("t", "f"): lits(h, x)
        else: refused(h, x)
    jobs += every(chk, P, ("deserialize_bool",), bool_)
    def opt(h, I, x):
        if C(h) == "n": tok(h, x, b"null", ("none",))
        elif C(h) is None: refused(h, x)
        else: whole_value(h, x, "some")
    jobs += every(chk, P, ("deserialize_option",), opt)
    jobs += every(chk, P, ("deserialize_newtype_struct",), lambda h, I, x: whole_value(h, x, "newtype_struct"))
    def ints(h, I, x):
        if C(h) in NUM: pass       # C37
        else: refused(h, x)
    jobs += every(chk, P, ["deserialize_" + t for t in INTS], ints, [None] + [c for c, _ in JCLS if c not in NUM])
    def str_(names):
        def f(h, I, x):
            if C(h) == "quote":
                text(h, x, names)
                if names == ("char",): one_char(h, I, x)
            else: refused(h, x)
        return f
    jobs += every(chk, P, ("deserialize_str", "deserialize_string", "deserialize_identifier"), str_(("borrowed_str", "str")))
    jobs += every(chk, P, ("deserialize_char",), str_(("char",)))
    def byts(h, I, x):
        if C(h) in ("quote", "bracket"): text(h, x, ("borrowed_bytes",))
        else: refused(h, x)
    jobs += every(chk, P, ("deserialize_bytes", "deserialize_byte_buf"), byts)
    def cont(kinds):
        def f(h, I, x):
            c = C(h)
            if c in kinds:
                vs = visits(x)
                k = {"bracket": "seq", "brace": "map"}[c]
                h.ob("a container is offered to the visitor", len(vs) == 1 and vs[0][1] == k, "%r without visit_%s" % (x.val, k))
            else: refused(h, x)
        return f
    jobs += every(chk, P, ("deserialize_seq", "deserialize_tuple", "deserialize_tuple_struct"), cont(("bracket",)))
    jobs += every(chk, P, ("deserialize_map",), cont(("brace",)))
    jobs += every(chk, P, ("deserialize_struct",), cont(("bracket", "brace")))
    def enum(h, I, x):
        if C(h) in ("quote", "brace"): h.ob("an enum is offered to the visitor", len(visits(x)) == 1 and visits(x)[0][1] == "enum", "%r" % (x.val,))
        else: refused(h, x)
    jobs += every(chk, P, ("deserialize_enum",), enum)
    def floats(bits):
        def f(h, I, x):
            c = C(h)
            if c == "n": tok(h, x, b"null", ("f%d" % bits,), lambda a: isinstance(a[0], FloatV) and a[0].cls == "nan")
            elif c is None: refused(h, x)
            elif c in NUM: number_text(h, I, x, bits, ("f%d" % bits,))
            elif c == "other" and not (is_err(x.val) and not visits(x)): number_text(h, I, x, bits, ("f%d" % bits,))
            else: refused(h, x)
        return f
    anybits = 32 if "f32" in cfgs() else 64
    def anyf(bits, ign):
        def f(h, I, x):
            c = C(h)
            if c is None: refused(h, x)
            elif lits(h, x, ign): pass
            elif c == "quote": text(h, x, ("unit",) if ign else ("borrowed_str",))
            elif c in NUM:
                if ign: skipped(h, x)
                else: number_text(h, I, x, bits, ("f%d" % bits, "u64", "i64"))
            elif c in ("bracket", "brace"): cont((c,))(h, I, x)
            else: refused(h, x)
        return f
    for cls in [None] + JCLS:
        for n, f in (("deserialize_f32", floats(32)), ("deserialize_f64", floats(64)), ("deserialize_any", anyf(anybits, False)), ("deserialize_ignored_any", anyf(anybits, True))):
            for b in de_methods(P, n):
                jobs.append(lambda c, b=b, cls=cls, f=f: strategies(c, ("known", "one"), cls, lambda c2, pol: jcells(c2, P, b, f, cls, mk=mknum(pol))))
    par(chk, jobs)
def mknum(pol):
    def mk(c, w, cl, **kw):
        h = Num(c, w, cl, **kw); h.policy = pol; return h
    return mk
def skipped(h, x):
    v = one_visit(h, x, ("unit",)) if visits(x) else None
    if v is None: h.ob("a number is skipped", False, "%r" % (x.val,))
def whole_value(h, x, name):
    """the visitor is handed the deserializer with nothing but whitespace consumed"""
    vs = visits(x); st = x.st
    g = len(vs) == 1 and vs[0][1] == name
    h.ob("the right kind of value is visited", g, "%r for visit_%s" % (vs, name))
    if not g: return
    h.ob("the inner value is still all there", h.ws_between(st, h.p0, vs[0][3]) and (h.q is None or st.num.prove_ge0(h.q - vs[0][3])), "at %r" % st.norm(vs[0][3] - h.p0))
    h.ob("nothing is consumed after the inner value", st.num.eq(cursor(x, h), st.gh["cur"]), "cursor moved")
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))


# ---------------------------------------------------------------- enums (C40)
class EnumSession(Session):
    """a visitor that reads the tag and then asks for one of the four payload kinds"""
    def setup(self, st):
        Session.setup(self, st)
        for k in ("ecls", "tag", "vop", "inner"): st.gh[k] = None
    def drive(self, ctx, kind): return DeHandler.drive(self, ctx, kind)
    def drive_start(self, ctx, kind, fns):
        st = ctx.st; c = Cur(st, self.dep).pos
        if kind == "enum":
            st.gh["ecls"] = "yes"; st.gh["ev"] = ()
            if self.bare: g = self.ws_between(st, c, self.q) if self.q is not None else False
            else: g = self.ws_between(st, self.q + 1, c)
            self.ob("the tag follows the opening brace, if any", g, "access starts at %r" % st.norm(c - self.q))
            st.gh["at"] = c; return
        st.gh["inner"] = kind
        Session.drive_start(self, ctx, kind, fns)
    @property
    def bare(self): return self.key or self.cls is not None and self.cls[0] == "quote"
    def opened(self, st, kind, c):
        ch = {"seq": 0x5b, "map": 0x7b}[kind]
        self.ob("payload asks for a container only for tuple and struct variants", st.gh["vop"] == "struct_variant" or st.gh["vop"] == "tuple_variant" and kind == "seq", "visit_%s in %s" % (kind, st.gh["vop"]))
        q = self.sig(st, st.gh["pay"])
        g = isinstance(q, Lin) and self.mask(st, q) == {ch} and self.ws_between(st, q + 1, c)
        self.ob("elements start after the opening bracket", g, "visit_%s at %r" % (kind, c))
    OPS = ("unit_variant", "newtype_variant_seed", "tuple_variant", "struct_variant")
    def pre(self, ctx, name):
        st = ctx.st
        if name == "variant_seed": st.gh["op"] = "tag"; st.gh["called"] = "no"; return
        if name in self.OPS:
            st.gh["vop"] = name; st.gh["op"] = "payload"; st.gh["called"] = "no"; st.gh["inner"] = None; st.gh["kind"] = None
            st.gh["pay"] = Cur(st, self.dep).pos
            st.gh["at"] = st.gh["pay"]; return
        Session.pre(self, ctx, name)
    def at_nested(self, ctx, dep):
        st = ctx.st; op = st.gh["op"]
        if op in ("tag", "payload"):
            c = Cur(st, dep).pos
            self.ob("one value per call", st.gh["called"] == "no", "called twice")
            st.gh["called"] = "yes"
            self.ob("tag and payload are read where they start", self.ws_between(st, st.gh["at"], c), "%s read at %r, expected %r" % (op, c, st.gh["at"]))
            if op == "payload": self.ob("only newtype variants read a bare value", st.gh["vop"] == "newtype_variant_seed" and not self.bare, "%s" % st.gh["vop"])
            return
        Session.at_nested(self, ctx, dep)
    def variant(self, ctx):
        """the tag has been read successfully"""
        st = ctx.st; c = Cur(st, self.dep).pos; at = st.gh["at"]
        self.ob("the tag is read exactly once", st.gh["called"] == "yes" and st.gh.get("nok") == "yes", "not read")
        if self.bare: self.ob("nothing is consumed after a bare tag", self.ws_between(st, at, c), "cursor moved")
        else:
            q = self.sig(st, at)
            g = isinstance(q, Lin) and self.mask(st, q) == {0x3a} and self.ws_between(st, q + 1, c)
            self.ob("a colon follows the tag", g, "cursor at %r, tag ends at %r" % (c, at))
        st.gh["op"] = None; st.gh["last"] = None; st.gh["nok"] = None
    def post(self, ctx, name, r):
        st = ctx.st; num = st.num
        if name == "variant_seed":
            if st.gh["called"] == "yes" and st.gh.get("nok") == "no": self.ob("a failed tag is reported", is_err(r) and r.f[0] == st.gh["last"], "%r" % (r,))
            else:
                q = self.sig(st, st.gh["at"]) if st.gh["called"] == "yes" else None
                g = not self.bare and (q == "eof" or isinstance(q, Lin) and 0x3a not in self.mask(st, q))
                cause.cause(self, r, cause.EOF if q == "eof" else ("ExpectedColon",), "no colon follows the tag")
                self.ob("a tag is refused only when no colon follows", is_err(r) and g, "%r" % (r,))
            st.gh["vfail"] = "yes"; return
        if name not in self.OPS: Session.post(self, ctx, name, r); return
        if name == "unit_variant" or self.bare: cause.cause(self, r, ("InvalidType",), "the variant has the other form")
        moved = not num.prove_eq0(Cur(st, self.dep).pos - st.gh["at"])
        called = st.gh["called"] == "yes"; inner = st.gh["inner"]
        if name == "unit_variant":
            self.ob("unit variants are bare tags", is_ok(r) == self.bare, "%r %s" % (r, "for a bare tag" if self.bare else "in a wrapper object"))
            if is_ok(r): self.ob("a unit variant has no payload", not moved, "cursor moved")
        elif self.bare: self.ob("a bare tag has no payload", is_err(r) and not called and inner is None, "%s: %r" % (name, r))
        elif name == "newtype_variant_seed":
            self.ob("the payload is read exactly once", called, "%r without reading" % (r,))
            if called: self.ob("the payload's own result is returned", is_ok(r) == (st.gh["nok"] == "yes") and r.f[0] == st.gh["last"] and not moved, "%r" % (r,))
        else:
            if inner is None:
                q = self.sig(st, st.gh["pay"])
                g = q == "eof" or isinstance(q, Lin) and not (self.mask(st, q) & ({0x5b} if name[0] == "t" else {0x5b, 0x7b}))
                cause.cause(self, r, cause.EOF if q == "eof" else ("ExpectedArray",) if name[0] == "t" else ("ExpectedStruct",), "the payload is no container")
                self.ob("a payload container is accepted", is_err(r) and g, "%s: %r" % (name, r))
            else: closing(self, ctx.I, Result("ret", r, st, ""), inner)
        st.gh["vfail"] = "yes" if is_err(r) else "no"
        st.gh["op"] = None; st.gh["kind"] = None; st.gh["last"] = None; st.gh["inner"] = None

def enum_cell(h, I, x):
    st = x.st
    if st.gh["ecls"] is None: h.ob("every tag form is offered to the visitor", False, "%r without a visit" % (x.val,)); return
    if h.bare:
        h.ob("returns the visitor's result", passes_result(h, x) and is_ok(x.val) == (st.gh["vok"] != ZERO), "%r" % (x.val,))
        h.ob("nothing is consumed after the tag", st.num.eq(cursor(x, h), st.gh["cur"]), "cursor moved")
    else: closing(h, I, x, "enum")

def C40(chk):
    chk.rule("deserialize_enum from a string and from an object, for every history of the visitor (tag, then any payload kind, payload containers element by element): where tag, colon, payload and closing brace are, which payload kinds are admitted, errors passed on")
    P = prog(JSON); use_contract(P)
    par(chk, every(chk, P, ("deserialize_enum",), enum_cell, ("quote", "brace"), mk=EnumSession) +
        every(chk, P, ("deserialize_enum",), lambda h, I, x: refused(h, x), [None] + [c for c, _ in JCLS if c not in ("quote", "brace")]))

# ---------------------------------------------------------------- map keys (C39)
def key_root(P, name): return [b for b in de_methods(P, name, "MapKey")]
def C39(chk):
    chk.rule("every method of the key deserializer, in front of any key: integers = decimal value of the digits between the quotes, bool = spelled out between the quotes, text through validated string decoding, unit variants as bare tags, newtypes passed through; closing quote required and consumed")
    P = prog(JSON); use_contract(P)
    jobs = []
    def add(name, per, mk=JCell, strat=None):
        bs = key_root(P, name)
        if not bs: chk.undecided("MapKey::" + name, "method not found")
        for b in bs:
            if strat: jobs.append(lambda c: strategies(c, strat, None, lambda c2, pol: jcells(c2, P, b, per, None, mk=mknum(pol), key=True)))
            else: jobs.append(lambda c: jcells(c, P, b, per, None, mk=mk, key=True))
    for ty in INTS: add("deserialize_" + ty, lambda h, I, x, ty=ty: int_spec(h, I, x, ty), strat=("known", "one"))
    def bool_(h, I, x):
        st = x.st; num = st.num; vs = visits(x)
        q = h.sig(st, h.q + 1)
        if not isinstance(q, Lin): cause.cause(h, x.val, cause.EOF, "the key ends")
        if not isinstance(q, Lin): h.ob("a truncated key is an error", is_err(x.val) and not vs, "%r" % (x.val,)); return
        t, f = h.token(st, q, b"true"), h.token(st, q, b"false")
        if not vs and cause.ON:
            mq = h.mask(st, q)
            if mq == {0x74}: literal(h, x, q, (b"true",))
            elif mq == {0x66}: literal(h, x, q, (b"false",))
            else: cause.cause(h, x.val, ("UnexpectedChar",), "the key starts otherwise")
        if not vs: h.ob("a complete literal is accepted", is_err(x.val) and t is False and f is False, "%r" % (x.val,)); return
        v = one_visit(h, x, ("bool",))
        if v is None: return
        a = v[2][0]; b = a.k if isinstance(a, Lin) and a.const() else None
        h.ob("a literal is accepted only when spelled out", (t is True and b == 1) or (f is True and b == 0), "%r" % (a,))
        e = num.norm(q + (4 if b else 5))
        h.ob("the visitor is asked behind the literal", num.eq(v[3], e), "%r" % (v[3],))
        if st.gh["vok"] == ZERO: h.ob("returns the visitor's result", is_err(x.val) and passes_result(h, x), "%r" % (x.val,)); return
        at = num.prove_ge0(h.endp - e - 1); m = h.mask(st, e) if at or h.known(st, e) else None
        if is_ok(x.val):
            h.ob("the closing quote is required", at and m == {0x22}, "accepted without closing quote")
            h.ob("the closing quote is consumed", num.eq(cursor(x, h), e + 1), "cursor at %r" % cursor(x, h))
            h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))
        else:
            cause.cause(h, x.val, cause.EOF if num.prove_ge0(e - h.endp) else ("InvalidType",), "the key goes on")
            h.ob("a closed key is accepted", num.prove_ge0(e - h.endp) or m is not None and 0x22 not in m, "%r" % (x.val,))
    add("deserialize_bool", bool_)
    def str_(names):
        def f(h, I, x):
            st = x.st; num = st.num
            text(h, x, names)
            if names == ("char",): one_char(h, I, x)
            vs = visits(x)
            if not vs: return
            if names == ("char",): pass
            else:
                p = I.leafify(vs[0][2][0])
                h.ob("the key's text starts behind its quote", isinstance(p, Ptr) and p.root == h.root and num.eq(p.path[-1][1], h.q + 1), "%r" % (p,))
            c = cursor(x, h)
            h.ob("the closing quote is consumed", h.mask(st, num.norm(c - 1)) == {0x22} and num.prove_ge0(c - h.q - 2), "cursor behind %s" % sorted(h.mask(st, num.norm(c - 1)))[:5])
        return f
    for n in ("deserialize_any", "deserialize_str", "deserialize_string", "deserialize_identifier"): add(n, str_(("borrowed_str", "str")))
    add("deserialize_char", str_(("char",)))
    add("deserialize_enum", enum_cell, mk=EnumSession)
    def newt(h, I, x):
        whole_value(h, x, "newtype_struct")
    class NT(JCell):
        def visit(self, ctx, name):
            if name == "newtype_struct": self.ob("the inner key is read by the key deserializer", is_mapkey(ctx.args[1]), "%r" % (ctx.args[1],))
            return JCell.visit(self, ctx, name)
    add("deserialize_newtype_struct", newt, mk=NT)
    par(chk, jobs)

# ---------------------------------------------------------------- end of document (C34)
class Doc(JCell):
    """the functions that build their own Deserializer from the whole input"""
    def prepare(self, I, st, args):
        p = next((I.leafify(a) for a in args if isinstance(I.leafify(a), Ptr)), None)
        self.inp = p; self.dep = None
        st.gh["fin"] = None; st.gh["nest"] = None
    def at_nested(self, ctx, dep):
        st = ctx.st; c = Cur(st, dep)
        self.ob("the value is read once", st.gh["nest"] is None, "read again")
        g = c.root == self.inp.root and st.num.eq(c.pos, self.inp.path[-1][1]) and st.num.eq(c.end, self.inp.path[-1][1] + self.inp.meta)
        self.ob("the value is read from the start of the whole input", g, "cursor %r of [.., %r)" % (c.pos, c.end))
    def after_nested(self, ctx, st, dep, good):
        c = Cur(st, dep)
        st.gh["nest"] = "ok" if good else "err"; st.gh["fin"] = c.pos
        self.root = c.root; self.endp = st.norm(self.inp.path[-1][1] + self.inp.meta)

def C34(chk):
    chk.rule("each from_mut_slice function and Deserializer::end, for every value and every end position: Ok only if nothing but whitespace is left, the value's own error otherwise, trailing characters reported as such")
    P = prog(JSON); use_contract(P)
    docs = [b for b in P.roots if not b.root.get("selfs") and not b.root.get("trait") and b.root.get("reach") and b.root["name"].startswith("from_mut_slice")]
    chk.ob("all entry functions are analysed", "de", len(docs) >= 4, "%s" % [b.root["name"] for b in docs])
    for b in docs:
        h = Doc(chk, where(b), None); h.summary = use_contract(P)
        I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a))
        for x in rs:
            if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where)); continue
            if x.kind == "panic": continue
            n = x.st.gh["nest"]
            if n is None: h.ob("the value is read", False, "%r" % (x.val,)); continue
            if n == "err": h.ob("the value's error is returned", is_err(x.val) and x.val.f[0] == x.st.gh["last"], "%r" % (x.val,)); continue
            trailing(h, x, x.st.gh["fin"])
            if is_ok(x.val): h.ob("the value is returned", x.val.f[0] == x.st.gh["last"], "%r" % (x.val,))
    ends = inherent(P, "end")
    if not ends: chk.undecided("end", "not found")
    for b in ends:
        for cls in [None] + JCLS:
            def per(h, I, x):
                trailing(h, x, h.p0)
            jcells(chk, P, b, per, cls)
def trailing(h, x, pos):
    st = x.st
    q = h.sig(st, pos)
    if q is None: h.ob("what follows the value is looked at", False, "%r without looking" % (x.val,)); return
    if q == "eof": h.ob("whitespace may follow", is_ok(x.val), "%r with nothing but whitespace left" % (x.val,))
    else: h.ob("other bytes are trailing characters", is_err(x.val) and variant(x.val) == "TrailingCharacters", "%r with %s left" % (x.val, sorted(h.mask(st, q))[:5]))

CHECKS = {"C33": C33, "C34": C34, "C37": C37, "C38": C38, "C39": C39, "C40": C40}
