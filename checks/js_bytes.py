"""JSON byte strings: hex (C41), base64 (C42), arrays of numbers (C43)."""
from . import cause
from .lib import *
from .dem import *
from .js_cur import *
from .js_cur import WS, NWS, bname
from .js_de import S, DIGITS, JCLS, JCell, de_methods, jcells, strategies, At
from .js_mem import InPlace, leaf_ptr, QUOTE
from .mp_de import cursor, visits, passes_result
from .exhaust import *
from .js_safe import inputs

class Text(InPlace):
    """common to the text encodings of bytes"""
    def m(self, st, p):
        if st.num.prove_ge0(p - self.endp): return "eof"
        if not self.known(st, p) or not st.num.prove_ge0(self.endp - p - 1): return None
        return self.mask(st, p)
    def bad(self, st, why, d=""):
        st.gh["sbad"] = "yes"; self.ob(why, False, d)
    def on_dirty_read(self, I, st, buf, off):
        if self.isbuf(st, buf): st.gh["sbad"] = "yes"; InPlace.on_dirty_read(self, I, st, buf, off)
    def on_copy(self, I, st, src, dst, n, nonover):
        if isinstance(dst, Ptr) and dst.root == self.root and not (n.const() and n.k <= 64): self.bad(st, "only decoded bytes are written", "copy of %r bytes" % n)
    def on_buf_write(self, I, st, buf, off, n, vals):
        if not self.isbuf(st, buf) or not self.begin(st): return
        if isinstance(vals, tuple): return
        if not isinstance(vals, list): self.bad(st, "only decoded bytes are written", "unknown bytes"); return
        for i, v in enumerate(vals): self.one(st, st.norm(off + i), v)
    def begin(self, st): return getattr(self, "dep", None) is not None
    def sized(self, st, p, n, what):
        g = isinstance(p, Ptr) and p.root == self.root and p.path and (st.num.eq(p.path[-1][1], self.base) or st.num.prove_eq0(n)) and isinstance(p.meta, Lin) and st.num.eq(p.meta, n)
        self.ob("the result is exactly the decoded bytes", g, "%s %r, decoded %r bytes from %r" % (what, p, st.norm(n), self.base))

# ------------------------------------------------------------------------------------------------- hex
class HexSpec(Text):
    """hk pairs decoded so far"""
    def setup(self, st): JCell.setup(self, st); st.gh["hk"] = ZERO; st.gh["sbad"] = "no"
    def one(self, st, off, v):
        num = st.num; k = st.gh["hk"]; buf = bname(st, self.root)
        if not num.prove_eq0(off - self.base - k): self.bad(st, "bytes are decoded in order", "write at %r, %r pairs decoded" % (num.norm(off - self.base), k)); return
        p = num.norm(self.base + 2 * k)
        ms = [self.m(st, num.norm(p + i)) for i in (0, 1)]
        if not all(isinstance(x, frozenset) for x in ms): self.bad(st, "a byte is decoded from the next two digits", "digits not looked at"); return
        if not all(x <= HEX for x in ms): self.bad(st, "only hex digits are decoded", "%s" % sorted(chr(c) for x in ms for c in x - HEX)[:6]); return
        bs = [num.byte(buf, num.norm(p + i)) for i in (0, 1)]
        if not isinstance(v, Lin) or not all(b.const() or len(b.t) == 1 and b.k == 0 and b.t[0][1] == 1 for b in bs): self.bad(st, "a byte is decoded from the next two digits", "%r" % (v,)); return
        roots = [b.t[0][0] for b in bs if b.t]
        try: r = valuations(num, roots, [num.norm(v)], lambda c: HEXV.get(c, -1))
        except Unknown as u: self.bad(st, "a pair of digits stands for its byte", "%r" % (v,)); return
        for x in r:
            it = iter(x); d = [HEXV[b.k] if b.const() else next(it) for b in bs]; w = next(it)
            if w != 16 * d[0] + d[1]: self.bad(st, "a pair of digits stands for its byte", "digits %X%X become %r" % (d[0], d[1], w)); return
        self.ob("a pair of digits stands for its byte", True, "%d pairs of digits" % len(r))
        st.gh["hk"] = num.norm(k + 1)
    def good(self, st, p, what, cur):
        if st.gh["sbad"] == "yes": return
        k = st.gh["hk"]; q = st.norm(self.base + 2 * k)
        self.ob("all pairs up to the closing quote are decoded", self.m(st, q) == {QUOTE}, "%r pairs decoded, then %s" % (k, self.m(st, q)))
        self.sized(st, p, k, what)
        self.ob("the closing quote is consumed", st.num.eq(cur, q + 1), "cursor at %r, quote at %r" % (st.norm(cur - self.base), st.norm(q - self.base)))
    def error(self, st, v):
        if st.gh["sbad"] == "yes": return
        p = st.norm(self.base + 2 * st.gh["hk"]); just = False; seen = None
        for _ in range(80):
            a = self.m(st, p); last = st.num.prove_ge0(p + 1 - self.endp)
            if a == "eof" or isinstance(a, frozenset) and not (a & (HEX | {QUOTE})):
                cause.cause(self, v, cause.EOF if a == "eof" else ("UnexpectedChar",) + (cause.EOF if last else ()), "the input ends" if a == "eof" else "no digit")
                just = True; seen = a; break
            b = self.m(st, st.norm(p + 1))
            seen = (a, b)
            if isinstance(a, frozenset) and QUOTE not in a and (b == "eof" or isinstance(b, frozenset) and not (b & HEX)):
                cause.cause(self, v, cause.EOF if b == "eof" else ("UnexpectedChar",), "the second digit is missing")
                just = True; break
            # a whole pair is there
            if isinstance(a, frozenset) and a <= HEX and isinstance(b, frozenset) and b <= HEX: p = st.norm(p + 2); continue
            break
        self.ob("well-formed hex strings are accepted", just, "%r with %s after %r pairs" % (v, [sorted(x)[:5] if isinstance(x, frozenset) else x for x in (seen if isinstance(seen, tuple) else (seen,))], st.gh["hk"]))

def text_root(c, P, b, mk):
    h = mk(c, where(b)); h.summary = use_contract(P)
    I, rs, a = run(c, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": continue
        if is_ok(x.val): h.good(x.st, leaf_ptr(I, x.val.f[0]), "Ok", Cur(x.st, h.dep).pos)
        else: h.error(x.st, x.val)

def decoder_roots(P, name, dec):
    return inherent(P, name) + [b for b in P.find("decode_string_to_bytes") if dec in (b.root.get("selfs") or "")]

def C41(chk):
    chk.rule("the hex string decoder for every input and cursor: a specification runs along (ghost count of decoded pairs, inductive over the loop); every written byte is the value of the next two digits (all 22x22 digit pairs evaluated through the path's expression), success only at the closing quote after whole pairs, errors only for an odd count, a non-hex character or a missing quote")
    jobs = []
    for cfg in cfgs("std", "rel"):
        P = prog(JSON, cfg); use_contract(P)
        bs = decoder_roots(P, "parse_hex_bytes_content", "StringByteHexDecoder")
        if not bs: chk.undecided("hex decoder", "not found")
        for b in bs: jobs.append(lambda c, P=P, b=b: text_root(c, P, b, HexSpec))
    par(chk, jobs)

# ------------------------------------------------------------------------------------------------- base64
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64V = {c: i for i, c in enumerate(ALPHA)}
B64 = frozenset(B64V)
PAD = frozenset(b"=")

class B64Spec(Text):
    """bg groups of four characters decoded so far; bw: bytes of the current group already written"""
    dep = None; base = None
    def setup(self, st): JCell.setup(self, st); st.gh["bg"] = ZERO; st.gh["bw"] = (); st.gh["sbad"] = "no"
    def prepare(self, I, st, args):
        JDe.prepare(self, I, st, args)
        if self.dep is None:
            p = inputs(I, st, args)
            if p is not None:
                self.root = p.root; self.base = self.p0 = st.norm(p.path[-1][1]) if p.path else ZERO; self.endp = st.norm(self.p0 + p.meta); self.n = st.norm(p.meta)
    def begin(self, st): return self.base is not None
    def code(self, st, p):
        """"yes" | "no" (something else, or the end) | None"""
        a = self.m(st, p)
        if a == "eof": return "no"
        if not isinstance(a, frozenset): return None
        return "yes" if a <= B64 else "no" if not (a & B64) else None
    def one(self, st, off, v):
        num = st.num; k = st.gh["bg"]; buf = bname(st, self.root); d = num.norm(off - self.base - 3 * k)
        r = next((i for i in range(3) if num.prove_eq0(d - i)), None)
        if r is None or r in st.gh["bw"]: self.bad(st, "bytes are decoded in their places", "write %r bytes past the decoded groups" % d); return
        p = num.norm(self.base + 4 * k + r)
        if not all(self.code(st, num.norm(p + i)) == "yes" for i in (0, 1)): self.bad(st, "only characters of the alphabet are decoded", "byte %d of a group: %s" % (r, [sorted(map(chr, x - B64))[:5] if isinstance(x, frozenset) else x for x in (self.m(st, p), self.m(st, num.norm(p + 1)))])); return
        bs = [num.byte(buf, num.norm(p + i)) for i in (0, 1)]
        if not isinstance(v, Lin) or not all(b.const() or len(b.t) == 1 and b.k == 0 and b.t[0][1] == 1 for b in bs): self.bad(st, "four characters stand for their three bytes", "byte %d unknown" % r); return
        roots = [b.t[0][0] for b in bs if b.t]
        try: vs = valuations(num, roots, [num.norm(v)], lambda c: B64V.get(c, -1))
        except Unknown: self.bad(st, "four characters stand for their three bytes", "byte %d depends on other characters" % r); return
        for x in vs:
            it = iter(x); c = [B64V[b.k] if b.const() else next(it) for b in bs]; w = next(it)
            e = (c[0] << 2 * (r + 1) | c[1] >> (4 - 2 * r)) & 255
            if w != e: self.bad(st, "four characters stand for their three bytes", "byte %d of codes %d, %d is %r" % (r, c[0], c[1], w)); return
        self.ob("four characters stand for their three bytes", True, "byte %d: %d pairs of characters" % (r, len(vs)))
        w = st.gh["bw"] = tuple(sorted(st.gh["bw"] + (r,)))
        if w == (0, 1, 2): st.gh["bg"] = num.norm(k + 1); st.gh["bw"] = ()
    def extent(self, st):
        """(decoded length, encoded length) of the whole text, when the end of it was seen"""
        e = st.norm(4 * st.gh["bg"])
        for t in range(4):
            c = self.code(st, st.norm(self.base + e + t))
            if c is None: return None
            if c == "no": return st.norm(3 * st.gh["bg"] + max(0, t - 1)), st.norm(e + t), t
        return None
    def lengths(self, st):
        if st.gh["sbad"] == "yes": return None
        x = self.extent(st)
        self.ob("decoding stops only at a character outside the alphabet or the end", x is not None, "%r groups decoded, then %s" % (st.gh["bg"], [sorted(map(chr, a))[:5] if isinstance(a, frozenset) else a for a in [self.m(st, st.norm(self.base + 4 * st.gh["bg"] + i)) for i in range(4)]]))
        if x is None: return None
        d, e, t = x
        w = st.gh["bw"]
        self.ob("the characters of an incomplete group are decoded", set(range(t - 1)) == set(w), "%d characters left, bytes written %s" % (t, w))
        return d, e
    def padding(self, st, p):
        """furthest position reached from p over '='"""
        num = st.num; buf = bname(st, self.root)
        for _ in range(80):
            nxt = None
            for (bf, x, y, mk) in num.segs:
                if bf == buf and mk <= PAD and num.prove_ge0(p - x) and num.prove_ge0(y - p) and not num.prove_ge0(p - y): nxt = num.norm(y); break
            if nxt is None and self.m(st, p) == PAD: nxt = num.norm(p + 1)
            if nxt is None: return p
            p = nxt
        return p
    def good(self, st, p, what, cur):
        x = self.lengths(st)
        if x is None: return
        d, e = x; q = self.padding(st, st.norm(self.base + e))
        self.ob("all characters up to the padding and the closing quote are decoded", self.m(st, q) == {QUOTE}, "%s after the text" % (self.m(st, q),))
        self.sized(st, p, d, what)
        self.ob("the closing quote is consumed", st.num.eq(cur, q + 1), "cursor at %r, quote at %r" % (st.norm(cur - self.base), st.norm(q - self.base)))
    def error(self, st, v):
        x = self.lengths(st)
        if x is None: return
        q = self.padding(st, st.norm(self.base + x[1])); a = self.m(st, q)
        cause.cause(self, v, cause.EOF if a == "eof" else ("UnexpectedChar",), "%s follows the text" % (a,))
        self.ob("well-formed base64 strings are accepted", a == "eof" or isinstance(a, frozenset) and not (a & {QUOTE}) and not (a & PAD), "%s after the text" % (a,))

def b64_plain(c, P, b):
    """base64::decode on a slice"""
    h = B64Spec(c, where(b), None)
    I, rs, a = run(c, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": c.ob("decoding never panics", h.where, False, "%s at %s" % (x.val, x.where)); continue
        st = x.st; w = h.lengths(st)
        if w is None: continue
        v = [I.leafify(y) for y in (x.val.f if isinstance(x.val, Agg) else ())]
        h.ob("the reported lengths are those of the text", len(v) == 2 and all(isinstance(y, Lin) and st.num.eq(y, z) for y, z in zip(v, w)), "%r, text decodes to %r" % (v, w))
        h.ob("decoded length <= encoded length <= length of the slice", st.num.le(w[0], w[1]) and st.num.le(w[1], h.n), "%r of %r" % (w, h.n))

def b64_enc(c, P, b, cfg):
    from .js_ser import spec
    I, rs, a = spec(c, P, b, lambda h, I, st, a: (("b64", I.leafify(a[1])),), cfg=cfg)
    if not a: return
    n = I.leafify(a[1]).meta
    for x in rs:
        if x.kind != "ret" or not is_ok(x.val): continue
        v = I.leafify(x.val.f[0]); num = x.st.num
        v = num.norm(v) if isinstance(v, Lin) else v; m = num.mod(n, 3)
        g = isinstance(v, Lin) and (v.const() and 0 <= v.k <= 2 and num.prove_eq0(m - (3 - v.k) % 3) or num.prove_ge0(v) and num.prove_ge0(2 - v) and num.prove_eq0(num.mod(n + v, 3)))
        c.ob("the encoder reports the missing padding", where(b), g, "Ok(%r) for %r bytes" % (v, num.norm(n)))

def C42(chk):
    chk.rule("the base64 decoder on any slice, and both of its users (string decoder and byte-string content) for every input and cursor: a specification runs along (ghost count of decoded groups, inductive over the loop); every written byte is evaluated for all 64x64 pairs of the two characters it comes from; decoding stops only at a byte outside the alphabet or the end of input, the 0..3 characters left give their bytes, reported lengths are exact; then padding and the closing quote.  The encoder: its output tokens are the base64 text of the bytes (same rule as C24), all byte values evaluated")
    jobs = []
    for cfg in cfgs("std", "rel"):
        P = prog(JSON, cfg); use_contract(P)
        bs = decoder_roots(P, "parse_base64_bytes_content", "StringByteBase64Decoder")
        pl = [b for b in P.find("decode") if "base64" in b.path and b.root]
        en = [b for b in P.find("encode") if "base64" in b.path and b.root]
        if not bs or not pl or not en: chk.undecided("base64", "codec not found")
        for b in bs: jobs.append(lambda c, P=P, b=b: text_root(c, P, b, B64Spec))
        for b in pl: jobs.append(lambda c, P=P, b=b: b64_plain(c, P, b))
        for b in en: jobs.append(lambda c, P=P, b=b, cfg=cfg: b64_enc(c, P, b, cfg))
    par(chk, jobs)

# ------------------------------------------------------------------------------------------------- arrays of numbers
CLOSE = frozenset(b"]")
COMMA = frozenset(b",")
class ArrSpec(Text):
    """ph: "first" (after the bracket) | "elem" (after a comma) | "num" (inside a number, vp the next digit, v its value so far) | "sep" (after a number);
    at: where the phase began; cnt numbers written from w0 on"""
    policy = "known"
    def started(self, I, st): Text.started(self, I, st); st.gh["at"] = self.base
    def setup(self, st):
        JCell.setup(self, st)
        st.gh.update(ph="first", at=None, cnt=ZERO, w0=None, v=ZERO, vp=None, done="no", sbad="no")
    def begin(self, st): return getattr(self, "dep", None) is not None and st.gh["at"] is not None
    def here(self, st):
        """what stands at the next significant position: (position, mask) | "eof" | None"""
        q = self.sig(st, st.gh["at"])
        if q == "eof": return "eof"
        if q is None or not self.known(st, q): return None
        return q, self.mask(st, q)
    def step(self, st):
        num = st.num; g = st.gh
        if g["ph"] in ("first", "elem"):
            x = self.here(st)
            if not isinstance(x, tuple) or not x[1] <= DIGITS: return False
            g["ph"] = "num"; g["vp"] = x[0]; g["v"] = ZERO; g["done"] = "no"; return True
        if g["ph"] == "num":
            p = g["vp"]
            if g["done"] == "yes" or num.prove_ge0(p - self.endp) or not self.known(st, p): return False
            m = self.mask(st, p)
            if not m <= DIGITS or not num.prove_ge0(self.endp - p - 1): return False
            if m == S("0") and num.prove_eq0(g["v"]): g["done"] = "yes"          # a leading zero stands alone
            g["v"] = num.norm(g["v"] * 10 + num.byte(bname(st, self.root), p) - 48); g["vp"] = num.norm(p + 1)
            return True
        x = self.here(st)
        if isinstance(x, tuple) and x[1] == COMMA: g["ph"] = "elem"; g["at"] = num.norm(x[0] + 1); g["v"] = ZERO; g["vp"] = None; return True
        return False
    def run_on(self, st, n=64):
        if not self.begin(st): return
        for _ in range(n):
            if not self.step(st): break
    def on_enter(self, I, st):
        if self.policy == "known": self.run_on(st)
    def on_back(self, I, st, fr): self.run_on(st, 64 if self.policy == "known" else 1)
    def ended(self, st):
        p = st.gh["vp"]
        return st.gh["done"] == "yes" or st.num.prove_ge0(p - self.endp) or self.known(st, p) and not (self.mask(st, p) & DIGITS)
    def one(self, st, off, v):
        num = st.num; g = st.gh
        self.run_on(st)
        if g["ph"] != "num": self.bad(st, "each number gives one byte", "write while a %s is expected" % {"first": "number", "elem": "number", "sep": "comma or bracket"}[g["ph"]]); return
        if not isinstance(v, Lin) or not num.eq(v, g["v"]): self.bad(st, "a byte is the value of its digits", "%r for digits of value %r" % (v, num.norm(g["v"]))); return
        if not self.ended(st): self.bad(st, "all digits are read", "written before the digits end"); return
        self.ob("a byte is the value of its digits", True)
        if g["w0"] is None: g["w0"] = off
        elif not num.eq(off, g["w0"] + g["cnt"]): self.bad(st, "bytes are decoded in order", "write at %r, %r bytes decoded from %r" % (off, g["cnt"], g["w0"])); return
        g["cnt"] = num.norm(g["cnt"] + 1); g["at"] = g["vp"]; g["ph"] = "sep"; g["done"] = "no"; g["v"] = ZERO; g["vp"] = None
        if self.policy == "known": self.run_on(st)
    def at_visit(self, ctx, name, args):
        st = ctx.st; num = st.num; g = st.gh
        self.run_on(st)
        if g["sbad"] == "yes": return
        if name not in ("borrowed_bytes", "bytes", "byte_buf"): self.ob("the right kind of value is visited", False, "visit_" + name); return
        x = self.here(st)
        ok = g["ph"] in ("first", "sep") and isinstance(x, tuple) and x[1] == CLOSE
        self.ob("the array ends at its bracket", ok, "visited while in state %s with %s next" % (g["ph"], x))
        if not ok: return
        p = leaf_ptr(ctx.I, args[0])
        n = g["cnt"]; w0 = g["w0"]
        good = isinstance(p, Ptr) and p.root == self.root and isinstance(p.meta, Lin) and num.eq(p.meta, n) and (num.prove_eq0(n) or w0 is not None and num.eq(p.path[-1][1], w0))
        self.ob("the result is exactly the listed numbers", good, "%r, %r numbers from %r" % (p, n, w0))
        cur = Cur(st, self.dep).pos
        self.ob("the closing bracket is consumed", num.eq(cur, x[0] + 1), "cursor at %r, bracket at %r" % (num.norm(cur - self.base), num.norm(x[0] - self.base)))

def arr_path(h, I, x):
    st = x.st; num = st.num; g = st.gh
    if visits(x):
        h.ob("the value is visited once", len(visits(x)) == 1, "%d visits" % len(visits(x)))
        h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,)); return
    h.run_on(st)
    if g["sbad"] == "yes": return
    if not is_err(x.val): h.ob("the visitor is asked", False, "%r" % (x.val,)); return
    if g["ph"] == "num":
        cause.cause(h, x.val, ("InvalidNumber",), "the number is above 255")
        h.ob("numbers up to 255 are accepted", num.prove_ge0(g["v"] - 256), "%r for digits of value %r" % (x.val, num.norm(g["v"]))); return
    y = h.here(st)
    allowed = {"first": DIGITS | CLOSE, "elem": DIGITS, "sep": COMMA | CLOSE}[g["ph"]]
    if cause.ON:
        minus = isinstance(y, tuple) and 0x2d in y[1]
        cause.cause(h, x.val, cause.EOF if y == "eof" else ("UnexpectedChar",) if g["ph"] == "sep" else (("InvalidNumber",) if minus else ()) + (("InvalidType",) if not minus or len(y[1]) > 1 else ()), "in state %s" % g["ph"])
    h.ob("well-formed arrays are accepted", y == "eof" or isinstance(y, tuple) and not (y[1] & allowed), "%r in state %s with %s next" % (x.val, g["ph"], y if not isinstance(y, tuple) else sorted(map(chr, y[1]))[:8]))

def C43(chk):
    chk.rule("byte-string targets whose text starts with a bracket, every input and cursor, debug and release code: a grammar automaton (phase, count, value of the running number) runs along, inductive over both loops; every write must be the value of exactly the next number, in order, success only at the closing bracket after whole elements, errors only for eof, a foreign byte or a number above 255")
    jobs = []
    B = [x for x in JCLS if x[0] == "bracket"][0]
    for cfg in cfgs("std", "rel"):
        P = prog(JSON, cfg); use_contract(P)
        for n in ("deserialize_bytes", "deserialize_byte_buf"):
            bs = de_methods(P, n)
            if not bs: chk.undecided(n, "not found")
            for b in bs:
                def job(c, b=b, P=P, cfg=cfg):
                    def one(c2, pol):
                        def mk(chk_, w, cl, **kw):
                            h = ArrSpec(chk_, w + (" [release]" if cfg == "rel" else ""), cl, **kw); h.policy = pol; return h
                        jcells(c2, P, b, arr_path, B, mk=mk)
                    strategies(c, ("known", "one"), B, one)
                jobs.append(job)
    par(chk, jobs)

CHECKS = {"C41": C41, "C42": C42, "C43": C43}
