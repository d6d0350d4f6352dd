"""JSON string content and in-place decoding: exact text (C35), no overwriting of unread input (C44), hex (C41), base64 (C42), byte arrays (C43)."""
from . import cause
from .lib import *
from .dem import *
from .js_cur import *
from .js_cur import WS, NWS, bname
from .js_de import S, DIGITS, JCell, byte_mask, de_methods, JCLS, jcells, strategies, At
from .mp_de import cursor, visits, passes_result
from .exhaust import *

CTRL = frozenset(range(0x20))
QUOTE, BSL = 0x22, 0x5c
PLAIN = frozenset(range(0x20, 256)) - {QUOTE, BSL}
LIT = S('"\\/')
SIMPLE = {ord(k): v for k, v in (("b", 8), ("t", 9), ("n", 10), ("f", 12), ("r", 13))}
ESCS = LIT | frozenset(SIMPLE) | {ord("u")}

class InPlace(JCell):
    """what every in-place decoder is held to: writes only behind what was consumed, and never reads what was overwritten"""
    def __init__(self, chk, where, cls=None, key=False):
        JCell.__init__(self, chk, where, cls, key); self.q = None
    def started(self, I, st):
        if self.cls is not None or self.key: JCell.started(self, I, st)
        self.base = st.norm(self.q + 1) if self.q is not None else self.p0
    mem = False
    def on_dirty_read(self, I, st, buf, off):
        if self.mem and buf.name == bname(st, self.root): self.ob("input is read before it is overwritten", False, "read of %r inside the written range %r..%r" % (st.norm(off - self.base), st.norm(buf.dirty[0] - self.base), st.norm(buf.dirty[1] - self.base)))
    def isbuf(self, st, buf): return buf.name == bname(st, self.root)

class StrSpec(InPlace):
    """the specification of string content, running along.  decoded text of [base, rd) is at [base, wr);
    esc: "no" | "esc" (a backslash precedes rd) | "lit" (same, and the byte at rd stands for itself)"""
    def setup(self, st):
        JCell.setup(self, st)
        st.gh["rd"] = None; st.gh["wr"] = None; st.gh["esc"] = "no"; st.gh["pw"] = (); st.gh["sbad"] = "no"
    def begin(self, st):
        if st.gh["rd"] is None:
            if getattr(self, "dep", None) is None: return False
            st.gh["rd"] = st.gh["wr"] = self.base
        return True
    def m(self, st, p):
        """possible bytes at p when something is known about it and it is inside the input, "eof", or None"""
        if st.num.prove_ge0(p - self.endp): return "eof"
        if not self.known(st, p) or not st.num.prove_ge0(self.endp - p - 1): return None
        return self.mask(st, p)
    def run_plain(self, st, p):
        """furthest position reached from p over bytes known to be plain"""
        num = st.num; buf = bname(st, self.root)
        for _ in range(100):
            nxt = None
            for (bf, x, y, mk) in num.segs:
                if bf == buf and mk <= PLAIN and num.prove_ge0(p - x) and num.prove_ge0(y - p) and not num.prove_ge0(p - y): nxt = num.norm(y); break
            if nxt is None:
                for o, s in num.by.get(buf, []):
                    if num.prove_eq0(o - p) and num.prove_ge0(self.endp - p - 1):
                        mk = self.mask(st, p)
                        if mk <= PLAIN: nxt = num.norm(p + 1)
                        break
            if nxt is None: return p
            p = nxt
        return p
    def advance(self, st):
        """text that needs no change is decoded where it is"""
        if not self.begin(st) or st.gh["esc"] != "no" or st.gh["pw"]: return
        if st.num.prove_eq0(st.gh["rd"] - st.gh["wr"]):
            p = self.run_plain(st, st.gh["rd"])
            st.gh["rd"] = st.gh["wr"] = st.norm(p)
    def escape(self, st):
        """position of the escape character if the next thing is an escape"""
        rd = st.gh["rd"]
        if st.gh["esc"] != "no": return rd
        if self.m(st, rd) == {BSL}: return st.norm(rd + 1)
        return None
    def on_enter(self, I, st): self.advance(st)
    def on_back(self, I, st, fr):
        if not self.begin(st): return
        self.advance(st)
        if st.gh["pw"]: return
        e = self.escape(st)
        if e is not None:
            m = self.m(st, e)
            if st.gh["esc"] != "lit":
                st.gh["rd"] = e; st.gh["esc"] = "lit" if isinstance(m, frozenset) and m <= LIT else "esc"
    def bad(self, st, why, d=""):
        st.gh["sbad"] = "yes"
        if not self.mem: self.ob(why, False, d)
    def on_copy(self, I, st, src, dst, n, nonover):
        if not isinstance(dst, Ptr) or dst.root != self.root or not dst.path or not self.begin(st): return
        if n.const() and n.k <= 64: return              # seen as a write
        num = st.num
        self.advance(st)
        if src.root != self.root: self.bad(st, "decoded text comes from the input", "copy from elsewhere"); return
        a, d = num.norm(src.path[-1][1]), num.norm(dst.path[-1][1])
        rd, wr = st.gh["rd"], st.gh["wr"]
        if num.prove_eq0(a - d): return
        e = self.escape(st)
        g = not st.gh["pw"] and num.prove_eq0(d - wr)
        if e is not None:
            lit = st.gh["esc"] == "lit" or isinstance(self.m(st, e), frozenset) and self.m(st, e) <= LIT
            g = g and lit and num.prove_eq0(a - e) and num.prove_ge0(n - 1) and num.prove_ge0(self.run_plain(st, num.norm(a + 1)) - a - n)
        else: g = g and num.prove_eq0(a - rd) and num.prove_ge0(self.run_plain(st, rd) - a - n)
        if not g: self.bad(st, "moved text is the next part of the string", "%r bytes from %r to %r; text read up to %r, decoded up to %r" % (n, num.norm(a - self.base), num.norm(d - self.base), num.norm(rd - self.base), num.norm(wr - self.base))); return
        if not self.mem: self.ob("moved text is the next part of the string", True)
        st.gh["rd"] = num.norm(a + n); st.gh["wr"] = num.norm(d + n); st.gh["esc"] = "no"
    def on_buf_write(self, I, st, buf, off, n, vals):
        if not self.isbuf(st, buf): return
        if isinstance(vals, tuple) and vals and vals[0] == "copy": return
        if not self.begin(st): return
        num = st.num
        self.advance(st)
        if not isinstance(vals, list): self.bad(st, "written text is the next part of the string", "unknown bytes"); return
        for i, v in enumerate(vals): self.one(st, num.norm(off + i), v)
    def one(self, st, off, v):
        num = st.num; buf = bname(st, self.root)
        rd, wr = st.gh["rd"], st.gh["wr"]
        pos = num.norm(wr + len(st.gh["pw"]))
        if not isinstance(v, Lin): self.bad(st, "written text is the next part of the string", "unknown byte"); return
        v = num.norm(v)
        if not num.prove_eq0(off - pos):
            if not st.gh["pw"] and num.prove_eq0(v - num.byte(buf, off)) and (num.prove_ge0(off - rd) or num.prove_eq0(rd - wr) and num.prove_ge0(off - self.base)): return       # no change
            self.bad(st, "written text is the next part of the string", "write at %r, text decoded up to %r" % (num.norm(off - self.base), num.norm(pos - self.base))); return
        e = self.escape(st)
        if e is None:
            # a plain byte moved down
            m = self.m(st, rd)
            if isinstance(m, frozenset) and m <= PLAIN and num.eq(v, num.byte(buf, rd)):
                st.gh["rd"] = num.norm(rd + 1); st.gh["wr"] = num.norm(wr + 1); return
            self.bad(st, "written text is the next part of the string", "%r" % (v,)); return
        m = self.m(st, e)
        if not isinstance(m, frozenset) and st.gh["esc"] != "lit": self.bad(st, "written text is the next part of the string", "escape character unknown"); return
        if not st.gh["pw"] and (st.gh["esc"] == "lit" or m <= LIT | frozenset(SIMPLE)):
            b = num.byte(buf, e)
            if b.const(): g = num.eq(v, L(SIMPLE.get(b.k, b.k)))
            elif st.gh["esc"] == "lit" or m <= LIT: g = num.eq(v, b)
            else:
                try: g = all(x[1] == SIMPLE.get(x[0], x[0]) for x in valuations(num, [b.t[0][0]], [v], lambda c: c))
                except Unknown: g = False
            if not g: self.bad(st, "an escape stands for its character", "%r for escapes %s" % (v, sorted(chr(c) for c in m)[:8] if isinstance(m, frozenset) else "?")); return
            if not self.mem: self.ob("an escape stands for its character", True)
            st.gh["rd"] = num.norm(e + 1); st.gh["wr"] = num.norm(wr + 1); st.gh["esc"] = "no"; return
        if m == {ord("u")}:
            st.gh["pw"] = st.gh["pw"] + (v,)
            us = self.units(st, e, st.gh["pw"])
            if us is None: self.bad(st, "a \\u escape stands for its character", "digits unknown"); return
            if not us: st.gh["sbad"] = "yes"; return          # no digits are consistent with this path: it cannot happen
            k = len(st.gh["pw"])
            need = set()
            for x in us:
                w = utf8(x[0])
                if w is None: self.bad(st, "surrogates are refused", "U+%04X is encoded" % x[0]); return
                if tuple(x[1:]) != w[:k]: self.bad(st, "a \\u escape stands for its character", "U+%04X becomes %s" % (x[0], x[1:])); return
                need.add(len(w))
            if need == {k}:
                if not self.mem: self.ob("a \\u escape stands for its character", True, "%d code points" % len(us))
                st.gh["rd"] = num.norm(e + 5); st.gh["wr"] = num.norm(wr + k); st.gh["esc"] = "no"; st.gh["pw"] = ()
            elif k >= max(need): self.bad(st, "a \\u escape stands for its character", "%d bytes" % k)
            return
        self.bad(st, "written text is the next part of the string", "%r for escapes %s" % (v, sorted(m)[:6] if isinstance(m, frozenset) else m))
    def units(self, st, e, exprs=()):
        """code units the four digits after \\u at e can denote on this path, with the values of exprs; None when unknown"""
        num = st.num; buf = bname(st, self.root)
        ps = [num.norm(e + 1 + i) for i in range(4)]
        ms = [self.m(st, p) for p in ps]
        if not all(isinstance(m, frozenset) and m <= HEX for m in ms): return None
        bs = [num.byte(buf, p) for p in ps]
        if not all(b.const() or len(b.t) == 1 and b.k == 0 and b.t[0][1] == 1 for b in bs): return None
        roots = [b.t[0][0] for b in bs if b.t]
        if len(set(roots)) != len(roots): return None
        try: r = valuations(num, roots, list(exprs), lambda c: HEXV.get(c, -1))
        except Unknown as u: return None
        out = set(); n = len(roots)
        for x in r:
            it = iter(x[:n]); u = 0
            for b in bs: u = u * 16 + (HEXV[b.k] if b.const() else next(it))
            out.add((u,) + x[n:])
        return out
    def frontier(self, st):
        """what the rest of the string starts with, as far as this path knows: ("end", pos) closing quote, ("bad", why), ("more", pos)"""
        num = st.num
        self.advance(st)
        p = st.gh["rd"]; esc = st.gh["esc"]
        if st.gh["pw"]: return ("more", p)
        for _ in range(60):
            if esc == "no":
                p = self.run_plain(st, p)
                m = self.m(st, p)
                if m == "eof": return ("bad", "unterminated")
                if m is None: return ("more", p)
                if m <= CTRL: return ("bad", "control character")
                if m == {QUOTE}: return ("end", p)
                if m != {BSL}: return ("more", p)
                p = num.norm(p + 1)
            m = self.m(st, p)
            if esc == "lit" or isinstance(m, frozenset) and m <= LIT | frozenset(SIMPLE): p = num.norm(p + 1); esc = "no"; continue
            esc = "no"
            if m == "eof": return ("bad", "unterminated")
            if m is None: return ("more", p)
            if not (m & ESCS): return ("bad", "unknown escape")
            if m != {ord("u")}: return ("more", p)
            if num.prove_ge0(p + 4 - self.endp): return ("bad", "unterminated")
            ms = [self.m(st, num.norm(p + 1 + i)) for i in range(4)]
            if any(isinstance(x, frozenset) and not (x & HEX) for x in ms): return ("bad", "malformed \\u escape")
            us = self.units(st, p)
            if us is None: return ("more", p)
            if not us: return ("bad", "surrogate", "no digits")
            if all(utf8(x[0]) is None for x in us): return ("bad", "surrogate")      # also when no digits are consistent with this path
            if any(utf8(x[0]) is None for x in us): return ("more", p)
            p = num.norm(p + 5)
        return ("more", p)
    def result(self_, ctx, tag): return JDe.result(self_, ctx, tag)
    # ---- verdicts
    def good(self, x, slc, what, cur):
        """a slice handed out is the decoded content"""
        st = x; num = st.num
        if st.gh["sbad"] == "yes": return
        if not self.begin(st): return
        f = self.frontier(st)
        rd, wr = st.gh["rd"], st.gh["wr"]
        at_end = f[0] == "end" and num.eq(f[1], rd) and st.gh["esc"] == "no" and not st.gh["pw"]
        self.ob("string content ends at the first unescaped quote", at_end, "%s with the text decoded up to %r (%s)" % (what, num.norm(rd - self.base), f))
        if not at_end: return
        p = slc
        g = isinstance(p, Ptr) and p.root == self.root and p.path and num.eq(p.path[-1][1], self.base) and isinstance(p.meta, Lin) and num.eq(p.meta, wr - self.base)
        self.ob("the result is the whole decoded text", g, "%r, decoded text is %r bytes from %r" % (p, num.norm(wr - self.base), self.base))
        self.ob("the closing quote is consumed", num.eq(cur, rd + 1), "cursor at %r, quote at %r" % (num.norm(cur - self.base), num.norm(rd - self.base)))
    def error(self, x, v, badtext=False):
        st = x
        if st.gh["sbad"] == "yes" or not self.begin(st): return
        f = self.frontier(st)
        if badtext and f[0] == "end": cause.cause(self, v, ("InvalidUnicodeCodePoint",), "the text is not UTF-8"); return
        if cause.ON and f[0] == "bad":
            w = {"unterminated": "UnexpectedEof", "control character": "StringControlChar", "unknown escape": "InvalidEscapeSequence", "malformed \\u escape": "InvalidEscapeSequence", "surrogate": "InvalidUnicodeCodePoint"}[f[1]]
            if not (f[1] == "surrogate" and len(f) > 2): cause.cause(self, v, (w,), f[1])
        self.ob("well-formed strings are accepted", f[0] == "bad", "%r at %s" % (v, f))

def utf8(u):
    if u < 0x80: return (u,)
    if u < 0x800: return (0xc0 | u >> 6, 0x80 | u & 63)
    if 0xd800 <= u < 0xe000: return None
    if u < 0x10000: return (0xe0 | u >> 12, 0x80 | u >> 6 & 63, 0x80 | u & 63)
    return None

def leaf_ptr(I, v):
    v = I.leafify(v)
    return v if isinstance(v, Ptr) else None

def str_inherent(c, P, b, what):
    h = StrSpec(c, where(b))
    h.summary = use_contract(P)
    I, rs, a = run(c, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": continue
        st = x.st
        bad = any(isinstance(k, tuple) and k[0] == "badutf8" for k in st.preds)
        if is_ok(x.val): h.good(st, leaf_ptr(I, x.val.f[0]), "Ok", Cur(st, h.dep).pos)
        else: h.error(st, x.val, bad)

class Visited(StrSpec):
    """strings handed to visitors"""
    def at_visit(self, ctx, name, args):
        if name in ("borrowed_str", "borrowed_bytes", "str", "bytes", "string"):
            st = ctx.st
            self.good(st, leaf_ptr(ctx.I, args[0]), "visit_" + name, Cur(st, self.dep).pos)
def str_visit(h, I, x):
    st = x.st
    if visits(x): return
    bad = any(isinstance(k, tuple) and k[0] == "badutf8" for k in st.preds)
    h.error(st, x.val, bad)

def plain_decoder(P): return [b for b in P.find("decode_string_to_bytes") if "StringByteNopeDecoder" in (b.root.get("selfs") or "")]

def C35(chk):
    chk.rule("string content, for every input and cursor: a specification of escapes runs along the decoder (ghost read and write positions, inductive over its loops); every move and write must be the next decoded text, the result exactly the text up to the first unescaped quote, errors only for text that is malformed")
    P = prog(JSON); use_contract(P)
    jobs = []
    for n in ("parse_str_bytes_content", "parse_str_content"):
        bs = inherent(P, n)
        if not bs: chk.undecided(n, "not found")
        for b in bs: jobs.append(lambda c, b=b, n=n: str_inherent(c, P, b, n))
    for b in plain_decoder(P): jobs.append(lambda c, b=b: str_inherent(c, P, b, "decode_string_to_bytes"))
    Q = [x for x in JCLS if x[0] == "quote"][0]
    for n, base, key in (("deserialize_str", "Deserializer", False), ("deserialize_any", "Deserializer", False), ("deserialize_identifier", "Deserializer", False), ("deserialize_string", "Deserializer", False), ("deserialize_str", "MapKey", True), ("deserialize_any", "MapKey", True)):
        bs = de_methods(P, n, base)
        if not bs: chk.undecided(n, "not found")
        for b in bs: jobs.append(lambda c, b=b, key=key: jcells(c, P, b, str_visit, None if key else Q, mk=Visited, key=key))
    par(chk, jobs)

CHECKS = {"C35": C35}
