"""JSON serializer: what every path writes, matched while it is written against the text the format prescribes."""
import re
from .lib import *
from . import cause
from .mp_ser import ser_fns, basic, err_caused, same_ptr, same_value, utf8_of, INTS
from .mp_sess import methods
from .synth import *
from .fmtm import *
from .exhaust import *

UNSIMPLE = {0x22: 0x22, 0x5c: 0x5c, 0x2f: 0x2f, 0x62: 8, 0x66: 12, 0x6e: 10, 0x72: 13, 0x74: 9}
MUST = frozenset(range(0x20)) | {0x22, 0x5c}            # what has to be escaped
PLAIN = frozenset(range(256)) - MUST
UP = b"0123456789ABCDEF"
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
INF = object()

def ident(c): return c
def lit(s): return tuple(("b", c) for c in s)
def qstr(p): return (("b", 0x22), ("str", p), ("b", 0x22))

class Out(FmtMixin, SerHandler):
    """follows a list of expected tokens; ghosts: ti = index of the current token, rd = units of its source already represented,
    pend = bytes of the unit being written, ph = phase inside an array of numbers"""
    toks = (); ser = None
    def __init__(self, chk, where): SerHandler.__init__(self); self.chk = chk; self.where = where; self.ryus = []; self.bufs = {}
    def ob(self, rule, ok, d=""): return self.chk.ob(rule, self.where, ok, d)
    def setup(self, st):
        SerHandler.setup(self, st); self.fmt_setup(st)
        g = st.gh; g["ti"] = "0"; g["rd"] = ZERO; g["pend"] = (); g["rdb"] = "yes"; g["ph"] = "open"; g["off"] = "no"; g["src"] = None
    # ---------------------------------------------------------------- stream
    def tokens(self, st): return self.toks
    def cur(self, st):
        i = int(st.gh["ti"]); t = self.tokens(st)
        return t[i] if i < len(t) else None
    def advance(self, st):
        g = st.gh; g["ti"] = str(int(g["ti"]) + 1); g["rd"] = ZERO; g["pend"] = (); g["rdb"] = "yes"; g["ph"] = "open"; g["src"] = None
    def restart(self, st):
        self.advance(st); st.gh["ti"] = "0"
    RULE = {"b": "punctuation", "val": "the value, once and in its place", "key": "the key goes through the key serializer", "str": "text is escaped exactly", "text": "text is escaped exactly", "hex": "hex digits", "b64": "base64 digits", "raw": "bytes are passed through", "int": "exact decimal text", "float": "finite floats are the formatter's text", "arr": "array of the byte values", "ser": "the value, once and in its place", "litn": "punctuation", None: "nothing else is written"}
    def bad(self, st, d):
        t = self.cur(st)
        st.gh["off"] = "yes"
        self.ob(self.rule_of(t), False, d)
        return False
    def rule_of(self, t): return self.RULE[t[0] if t else None]
    def emit(self, st, items):
        if st.gh.get("err") is not None: self.violate(st, "write after an error")
        for it in items:
            if st.gh["off"] == "yes": return
            self.feed(st, it)
        if st.gh["off"] == "no": self.settle(st)
    def feed(self, st, it):
        for _ in range(12):
            t = self.cur(st)
            if t is None: return self.bad(st, "writes %r after the end" % (it,))
            r = getattr(self, "t_" + t[0])(st, t, it)
            if r == "next": self.advance(st); continue
            return r
        raise RuntimeError("tokens")
    def settle(self, st):
        """numbers are complete as soon as their digits denote the value"""
        t = self.cur(st)
        if t is None or not st.gh["pend"]: return
        if t[0] == "int" and self.decimal(st, t[1], t[2]) is True: self.ok(t); self.advance(st)
        elif t[0] == "arr" and st.gh["ph"] == "num" and self.decimal(st, self.srcbyte(st, t[1], st.gh["rd"]), False) is True:
            self.ok(t); st.gh["rd"] = st.norm(st.gh["rd"] + 1); st.gh["pend"] = (); st.gh["ph"] = "done"
    def ok(self, t): self.ob(self.rule_of(t), True)
    def on_serialize(self, ctx):
        a, b = fork2(ctx, UNIT, "nested-error")
        self.emit(a[0], [("val", ctx.args[0], ctx.args[1], ctx)])
        s2 = b[0]
        self.fail(s2, ("n", b[2]))
        return [(a[0], a[1]), (b[0], b[1])]
    def other(self, ctx):
        n = tname(ctx.c)
        if n in ("Serializer::serialize_str", "Serializer::serialize_u32") and not ctx.c.get("body"):
            a, b = fork2(ctx, UNIT, "nested-error")
            self.emit(a[0], [("ser", n.split("_")[-1], ctx.args[1], ctx.args[0], ctx)])
            self.fail(b[0], ("n", b[2]))
            return [a, (b[0], b[1])]
        return self.fmt_call(ctx)
    def on_ryu(self, ctx, p): self.ryus.append((p, ctx.args[-1]))
    # ---------------------------------------------------------------- sources
    def buf(self, st, p):
        """the buffer a source lies in (also when the program has dropped its last reference to it)"""
        v = st.mem.get(p.root)
        if v is None: return self.bufs.get(p.root)
        if isinstance(v, Buf): self.bufs[p.root] = v
        return v
    def srcbyte(self, st, p, i):
        v = self.buf(st, p)
        if isinstance(v, Buf): return st.norm(st.num.byte(v.name, st.norm(p.path[-1][1] + i)))
        st2 = st
        x = self.I.load(st2, p.root, p.path[:-1] + (("e", st.norm(p.path[-1][1] + i)),))
        return st.norm(x) if isinstance(x, Lin) else None
    def srcmask(self, st, p, i):
        b = self.srcbyte(st, p, i)
        if b is None: return frozenset(range(256))
        num = st.num
        if b.const(): return frozenset([b.k])
        v = self.buf(st, p)
        m = num.mask(b.t[0][0]) if len(b.t) == 1 and b.k == 0 and b.t[0][1] == 1 else None
        if isinstance(v, Buf):
            x = num.norm(p.path[-1][1] + i); s = num.seg_mask(v.name, x, num.norm(x + 1))
            if s is not None: m = s if m is None else m & s
        if m is None:
            lo, hi = num.bounds(b); lo = 0 if lo is None else max(lo, 0); hi = 255 if hi is None else min(hi, 255)
            m = frozenset(range(lo, hi + 1))
        return m
    def atend(self, st, p): return st.num.prove_eq0(st.gh["rd"] - p.meta)
    def inside(self, st, p, i): return st.num.prove_ge0(p.meta - i - 1)
    # ---------------------------------------------------------------- tokens
    def t_b(self, st, t, it):
        if isinstance(it, Lin) and st.num.eq(it, L(t[1])): self.advance(st); return True
        if t[1] == 0x22 and not isinstance(it, Lin) and it[0] in ("val", "ser"): return self.whole_str(st, it)
        return self.bad(st, "wrote %s, expected %r" % (show(st, it), chr(t[1])))
    def whole_str(self, st, it):
        """a str handed to the serializer itself: C20 says what that writes"""
        i = int(st.gh["ti"]); t = self.tokens(st)[i:i + 3]
        v = self.I.leafify(it[1] if it[0] == "val" else it[2]); ser = it[2] if it[0] == "val" else it[3]
        ty = [self.I.T(a).get("s", "") for a in it[-1].c.get("args", []) if isinstance(a, int)]
        k = 0
        if it[0] == "val":
            while isinstance(v, Ptr) and v.meta is None and k < 3: v = self.I.load_raw(st, v.root, v.path); k += 1
        good = len(t) == 3 and t[1][0] == "str" and isinstance(v, Ptr) and (it[0] == "ser" and it[1] == "str" or bool(ty) and ty[0].replace("&", "").replace("'static ", "").split("::")[-1].strip().split(" ")[-1] == "str")
        good = good and same_ptr(self.I, st, v, t[1][1]) and st.num.eq(v.meta, t[1][1].meta) and self.is_ser(st, ser, self.ser) and not self.keylike(it)
        if not good: return self.bad(st, "wrote %s, expected '\"'" % show(st, it))
        for _ in range(3): self.advance(st)
        return True
    def is_ser(self, st, x, ser): return same_ptr(self.I, st, x, ser)
    def t_val(self, st, t, it):
        if not isinstance(it, Lin) and it[0] == "val" and same_value(self.I, st, it[1], t[1]) and self.is_ser(st, it[2], t[2]) and not self.keylike(it):
            self.advance(st); return True
        return self.bad(st, "wrote %s, expected the value" % show(st, it))
    def keylike(self, it):
        """is the serializer handed over not the serializer itself"""
        I = self.I; c = it[-1].c
        ts = [self.I.T(a) for a in c.get("args", []) if isinstance(a, int)]
        ts += [self.I.T(a) for a in c.get("rargs", []) if isinstance(a, int)]
        return not any(x.get("s", "").startswith("&") and "Serializer<" in x.get("s", "") for x in ts)
    def t_key(self, st, t, it):
        if not isinstance(it, Lin) and it[0] == "val" and same_value(self.I, st, it[1], t[1]) and self.is_ser(st, it[2], t[2]) and self.keylike(it):
            self.advance(st); return True
        return self.bad(st, "wrote %s, expected the key" % show(st, it))
    def t_str(self, st, t, it):
        g = st.gh; num = st.num; p = t[1]
        if not g["pend"] and self.atend(st, p): self.ok(t); return "next"
        if not isinstance(it, Lin):
            if it[0] != "seg": return self.bad(st, "wrote %s inside a text" % show(st, it))
            return self.seg(st, p, it, PLAIN)
        it = num.norm(it)
        if not g["pend"]:
            if it == L(0x5c): g["pend"] = (it,); return True
            b = self.srcbyte(st, p, g["rd"])
            if b is not None and num.eq(it, b) and self.srcmask(st, p, g["rd"]) <= PLAIN and self.inside(st, p, g["rd"]):
                self.step(st, p, g["rd"] + 1, False); return True
            return self.bad(st, "wrote %s, %r of %r bytes represented" % (show(st, it), num.norm(g["rd"]), num.norm(p.meta)))
        g["pend"] = g["pend"] + (it,)
        return self.escape(st, p)
    def step(self, st, p, rd, boundary):
        g = st.gh
        rd = st.norm(rd)
        if not boundary:
            e = st.num.prove_eq0(rd - p.meta)
            m = None if e else self.srcmask(st, p, rd) if self.inside(st, p, rd) else None
            boundary = e or m is not None and not (m & frozenset(range(0x80, 0xc0)))
            if not boundary and rd.k >= 1 or not boundary:
                m = self.srcmask(st, p, st.norm(rd - 1)); boundary = bool(m) and max(m) < 0x80
        g["rd"] = rd; g["rdb"] = "yes" if boundary else "no"; g["pend"] = ()
    def seg(self, st, p, it, cls):
        g = st.gh; num = st.num
        _, root, off, n = it
        if g["pend"]: return self.bad(st, "a piece of text inside an escape")
        if num.prove_eq0(n): return True
        if root != p.root or not num.eq(off, p.path[-1][1] + g["rd"]):
            return self.bad(st, "wrote %r bytes from %r, text represented up to %r" % (num.norm(n), num.norm(off - p.path[-1][1]) if root == p.root else root, num.norm(g["rd"])))
        if cls is not None:
            v = self.buf(st, p)
            m = num.seg_mask(v.name, num.norm(off), num.norm(off + n)) if isinstance(v, Buf) else None
            if m is None or not m <= cls: return self.bad(st, "a verbatim piece may contain %s" % (sorted(m - cls)[:6] if m is not None else "characters that need an escape"))
        if not num.prove_ge0(p.meta - g["rd"] - n): return self.bad(st, "wrote beyond the text")
        self.step(st, p, num.norm(g["rd"] + n), getattr(it, "str", False))
        return True
    def escape(self, st, p):
        g = st.gh; num = st.num; pend = g["pend"]
        rd = g["rd"]
        m = self.srcmask(st, p, rd)
        if not self.inside(st, p, rd) or not m <= MUST: return self.bad(st, "an escape for %s" % ("a character that needs none" if self.inside(st, p, rd) else "no character"))
        b = self.srcbyte(st, p, rd)
        if b is None: return self.bad(st, "an escape for an unknown character")
        k = len(pend)
        try:
            if b.const(): vs = {(b.k,) + tuple(x) for x in self.consts(st, pend[1:])}
            else: vs = valuations(num, [b.t[0][0]], list(pend[1:]), ident)
        except Unknown as u: return self.bad(st, "escape characters depend on something else: %s" % u)
        if not vs: g["off"] = "yes"; return True          # not feasible
        if k == 2:
            done = [UNSIMPLE.get(x[1]) == x[0] for x in vs]
            if all(done): self.ok(("str",)); self.step(st, p, rd + 1, True); return True
            if all(x[1] == 0x75 for x in vs): return True
            x = [x for x in vs if UNSIMPLE.get(x[1]) != x[0] and x[1] != 0x75] or list(vs)
            return self.bad(st, "byte %#x becomes \\%s" % (x[0][0], chr(x[0][1] & 255)))
        if k < 6: return True
        for x in vs:
            h = bytes(c & 255 for c in x[2:])
            u = 0
            for c in h:
                if c not in HEXV: return self.bad(st, "byte %#x becomes \\u%s" % (x[0], h))
                u = u * 16 + HEXV[c]
            if u != x[0]: return self.bad(st, "byte %#x becomes \\u%s" % (x[0], h.decode()))
        self.ok(("str",)); self.step(st, p, rd + 1, True)
        return True
    def consts(self, st, es):
        es = [st.norm(e) for e in es]
        if not all(e.const() for e in es): raise Unknown("not constant")
        return [[e.k for e in es]]
    def boundary(self, I, st, p, e):
        t = self.cur(st)
        if t is None: return None
        q = t[1] if t[0] == "str" else self.piece(st) if t[0] == "text" else None
        if q is None or q.root != p.root: return None
        x = p.path[-1][1] + e - q.path[-1][1]
        if st.num.eq(x, st.gh["rd"]) and st.gh["rdb"] == "yes": return True
        return None
    # collected text: a sequence of pieces
    def piece(self, st):
        s = st.gh["src"]
        return Ptr(s[0], (("e", s[1]),), s[2]) if s else None
    def t_text(self, st, t, it):
        p = self.piece(st)
        if p is None:
            if st.gh["ph"] == "shut": return "next"
            return self.bad(st, "wrote %s where the collected text belongs" % show(st, it))
        r = self.t_str(st, ("str", p), it)
        return self.bad(st, "wrote %s after a piece of text" % show(st, it)) if r == "next" else r
    def fmt_hook(self, ctx, n):
        st = ctx.st
        if n == "fmt_start":
            t = self.cur(st)
            if st.gh["off"] == "no" and (t is None or t[0] != "text" or st.gh["ph"] != "open"): self.bad(st, "the value is formatted here")
            r = FmtMixin.fmt_hook(self, ctx, n); st.gh["ph"] = "in"; return r
        r = FmtMixin.fmt_hook(self, ctx, n)
        if n == "fmt_piece":
            q = r[0][1]; st.gh["src"] = (q.root, q.path[-1][1], q.meta); st.gh["rd"] = ZERO; st.gh["rdb"] = "yes"; st.gh["pend"] = ()
        return r
    def piece_done(self, ctx, p):
        st = ctx.st
        q = self.piece(st)
        if st.gh["off"] == "no" and q is not None:
            if st.gh["pend"] or not self.atend(st, q): self.bad(st, "only %r of %r bytes of a piece are represented" % (st.norm(st.gh["rd"]), st.norm(q.meta)))
            else: self.ok(("str",))
        st.gh["src"] = None; st.gh["rd"] = ZERO; st.gh["pend"] = (); st.gh["rdb"] = "yes"
    def fmt_end(self, ctx, n):
        st = ctx.st
        st.gh["fmt"] = st.gh["fmt"][:-1]; st.gh["trace"] = ()
        st.gh["src"] = None; st.gh["rd"] = ZERO; st.gh["pend"] = ()
        if n == "fmt_ok": st.gh["ph"] = "shut"
        else: st.gh["ph"] = "failed"
    # bytes
    def t_raw(self, st, t, it):
        g = st.gh; num = st.num; p = t[1]
        if self.atend(st, p): self.ok(t); return "next"
        if not isinstance(it, Lin):
            if it[0] != "seg": return self.bad(st, "wrote %s inside the bytes" % show(st, it))
            return self.seg(st, p, it, None)
        b = self.srcbyte(st, p, g["rd"])
        if b is not None and num.eq(it, b) and self.inside(st, p, g["rd"]): self.step(st, p, g["rd"] + 1, True); return True
        return self.bad(st, "wrote %s" % show(st, it))
    def t_hex(self, st, t, it):
        g = st.gh; num = st.num; p = t[1]
        if not g["pend"] and self.atend(st, p): self.ok(t); return "next"
        if not isinstance(it, Lin): return self.bad(st, "wrote %s" % show(st, it))
        if not self.inside(st, p, g["rd"]): return self.bad(st, "more digits than bytes")
        b = self.srcbyte(st, p, g["rd"]); k = len(g["pend"])
        try: vs = [(b.k, num.norm(it).k)] if b.const() and num.norm(it).const() else valuations(num, [b.t[0][0]], [it], ident)
        except Unknown as u: return self.bad(st, "digit depends on something else: %s" % u)
        for x in vs:
            if x[1] != UP[x[0] >> 4 if k == 0 else x[0] & 15]: return self.bad(st, "byte %#04x: digit %d is %r" % (x[0], k, chr(x[1] & 255)))
        g["pend"] = g["pend"] + ("d",)
        if k == 1: self.step(st, p, g["rd"] + 1, True)
        return True
    def t_b64(self, st, t, it):
        g = st.gh; num = st.num; p = t[1]
        if not g["pend"] and self.atend(st, p): self.ok(t); return "next"
        if not isinstance(it, Lin): return self.bad(st, "wrote %s" % show(st, it))
        rd = g["rd"]; k = len(g["pend"])
        if not self.inside(st, p, rd): return self.bad(st, "more digits than bytes")
        left = 3 if self.inside(st, p, rd + 2) else 2 if num.prove_eq0(p.meta - rd - 2) else 1 if num.prove_eq0(p.meta - rd - 1) else None
        if left is None: return self.bad(st, "digits written with %r bytes left" % num.norm(p.meta - rd))
        need = {0: (0,), 1: (0, 1), 2: (1, 2), 3: (2,)}[k]
        idx = [i for i in need if i < left]
        bs = [self.srcbyte(st, p, rd + i) for i in idx]
        try:
            roots = [b.t[0][0] for b in bs if not b.const()]
            vs = valuations(num, roots, [it], ident)
        except Unknown as u: return self.bad(st, "digit depends on something else: %s" % u)
        for x in vs:
            vals = {}; j = 0
            for i, b in zip(idx, bs):
                if b.const(): vals[i] = b.k
                else: vals[i] = x[j]; j += 1
            n = sum(vals.get(i, 0) << (16 - 8 * i) for i in range(3)) >> (18 - 6 * k) & 63
            if x[-1] != B64[n]: return self.bad(st, "bytes %s: digit %d is %r" % (vals, k, chr(x[-1] & 255)))
        g["pend"] = g["pend"] + ("d",)
        if k == left: g["rd"] = num.norm(rd + left); g["pend"] = ()
        return True
    # numbers
    def decimal(self, st, x, signed):
        """do the pending bytes write the number x?"""
        num = st.num; p = list(st.gh["pend"]); neg = False
        if p and p[0] == L(0x2d): neg = True; p = p[1:]
        if not p: return "a lone sign"
        v = ZERO
        for c in p:
            if not (num.prove_ge0(c - 48) and num.prove_ge0(L(57) - c)): return "%r is not always a digit" % c
            v = v * 10 + (c - 48)
        if neg: v = -v
        if not num.eq(v, x): return "the digits denote %r, the value is %r" % (num.norm(v), num.norm(x))
        if neg and not num.prove_ge0(-x - 1): return "a sign for a number that may not be negative"
        if len(p) > 1 and not (num.prove_ne0(p[0] - 48) or self.lead(st, x, len(p))): return "the first digit of %d may be zero" % len(p)
        return True
    def lead(self, st, x, n):
        num = st.num; t = 10 ** (n - 1)
        return num.prove_ge0(x - t) or num.prove_ge0(-x - t)
    def t_int(self, st, t, it):
        num = st.num
        if not isinstance(it, Lin): return self.bad(st, "wrote %s" % show(st, it))
        it = num.norm(it)
        isd = it == L(0x2d) or num.prove_ge0(it - 48) and num.prove_ge0(L(57) - it)
        if isd: st.gh["pend"] = st.gh["pend"] + (it,); return True
        d = self.decimal(st, t[1], t[2]) if st.gh["pend"] else "no digits"
        return self.bad(st, d if d is not True else "wrote %r after the digits" % it)
    def t_arr(self, st, t, it):
        g = st.gh; num = st.num; p = t[1]; ph = g["ph"]
        if ph == "closed": return "next"
        if not isinstance(it, Lin): return self.bad(st, "wrote %s" % show(st, it))
        it = num.norm(it)
        if ph == "open":
            if it == L(0x5b): g["ph"] = "first"; return True
            return self.bad(st, "wrote %s, expected '['" % show(st, it))
        isd = num.prove_ge0(it - 48) and num.prove_ge0(L(57) - it)
        if isd and ph in ("first", "want", "num"):
            if ph != "num" and not self.inside(st, p, g["rd"]): return self.bad(st, "more numbers than bytes")
            g["ph"] = "num"; g["pend"] = g["pend"] + (it,); return True
        if ph == "num": return self.bad(st, "%s" % self.decimal(st, self.srcbyte(st, p, g["rd"]), False))
        if it == L(0x2c) and ph == "done":
            g["ph"] = "want"; return True
        if it == L(0x5d) and ph in ("first", "done"):
            if not self.atend(st, p): return self.bad(st, "closed with %r of %r bytes written" % (num.norm(g["rd"]), num.norm(p.meta)))
            g["ph"] = "closed"; return True
        return self.bad(st, "wrote %s (%s)" % (show(st, it), ph))
    def t_float(self, st, t, it):
        if not isinstance(it, Lin) and it[0] == "seg":
            for p, v in self.ryus:
                if p.root == it[1] and st.num.eq(it[2], p.path[-1][1]) and st.num.eq(it[3], p.meta):
                    if samefloat(v, t[1]): self.ok(t); self.advance(st); return True
                    return self.bad(st, "the text of another number %r" % (v,))
        return self.bad(st, "wrote %s" % show(st, it))
    # ---------------------------------------------------------------- end
    def complete(self, st):
        """everything expected has been written"""
        if st.gh["off"] == "yes": return
        for _ in range(40):
            t = self.cur(st)
            if t is None: return
            if t[0] in ("str", "raw", "hex", "b64") and not st.gh["pend"] and self.atend(st, t[1]): self.ok(t); self.advance(st); continue
            if t[0] == "arr" and st.gh["ph"] == "closed": self.advance(st); continue
            if t[0] == "text" and st.gh["ph"] == "shut": self.advance(st); continue
            st.gh["off"] = "yes"
            if t[0] == "int" and st.gh["pend"]: d = self.decimal(st, t[1], t[2])
            elif t[0] == "b": d = "%r is missing" % chr(t[1])
            else: d = "incomplete: %s" % (t[0],)
            self.ob(self.rule_of(t), False, d); return
    def over(self, x):
        """a returned result"""
        st = x.st
        if st.gh.get("viol"): return
        if is_ok(x.val):
            if st.gh["err"] is not None: return         # C02
            self.complete(st)
            return st.gh["off"] == "no" and self.ob("all of it is written", True)
        if st.gh["err"] is None and st.gh["ph"] == "failed": cause.whole(self.chk, self.where, x.val, ("FormatError",), "the value's own formatting failed")
        if is_err(x.val) and st.gh["err"] is None and st.gh["ph"] != "failed" and st.gh["off"] == "no":
            self.ob("refused only after a writer or value error", False, "%r" % (x.val,))

def samefloat(a, b):
    return isinstance(a, FloatV) and isinstance(b, FloatV) and repr(a.key) == repr(b.key)
def show(st, it):
    if isinstance(it, Lin):
        it = st.norm(it)
        return repr(chr(it.k)) if it.const() and 0 <= it.k < 256 else repr(it)
    if not isinstance(it, tuple): return repr(it)
    if it[0] == "seg": return "%r bytes of %s at %r" % (st.norm(it[3]), it[1], st.norm(it[2]))
    return "%s %r" % (it[0], it[1:-1])

def spec(c, P, b, mk, pre=None, cfg="", cls=Out):
    """run b; mk(h, I, st, a) -> expected tokens"""
    h = cls(c, where(b) + ("[%s]" % cfg if cfg and cfg != "std" else ""))
    def setargs(I, st, a):
        h.I = I
        if pre: pre(I, st, a)
        h.ser = a[0]
        h.toks = tuple(mk(h, I, st, a))
        for t in h.toks:
            if len(t) > 1 and isinstance(t[1], Ptr): h.buf(st, t[1])
    I, rs, a = run(c, P, b, h, args=setargs, maxpaths=8000)
    n = 0
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where))
        else:
            h.over(x)
            if is_ok(x.val): n += 1
    if not n and not any(x.kind == "imprecise" for x in rs): c.undecided(h.where, "no successful path")
    return I, rs, a

def sers(P, name): return [b for b in ser_fns(P, name) if b.root["selfs"].startswith("&") and "Serializer<" in b.root["selfs"]]
def keysers(P, name): return [b for b in P.find(name, "Serializer") if not b.root["selfs"].startswith("&") and (b.root.get("trait") or "").endswith("ser::Serializer")]

def C20(chk):
    chk.rule("text output for every input text: a ghost position in the text runs along the writes (inductive over the loops); every write must be the next plain stretch verbatim or a valid escape of the next character")
    jobs = []
    for cfg in cfgs("std", "nostd"):
        P = prog(JSON, cfg)
        def add(b, mk, cfg=cfg, P=P): jobs.append(lambda c: spec(c, P, b, mk, cfg=cfg))
        for b in sers(P, "serialize_str"): add(b, lambda h, I, st, a: qstr(I.leafify(a[1])))
        for b in sers(P, "collect_str"): add(b, lambda h, I, st, a: lit(b'"') + (("text",),) + lit(b'"'))
        for b in sers(P, "serialize_char"): add(b, char_tokens)
        for b in sers(P, "serialize_unit_variant"): add(b, lambda h, I, st, a: qstr(I.leafify(a[3])))
        for b in P.find("write_str"):
            if is_write_impl(b): add(b, lambda h, I, st, a: (("str", I.leafify(a[1])),))
        for b in P.find("write_char"):                  # a Display value may reach this one too, if it is not the provided method
            if is_write_impl(b, "write_char"): add(b, lambda h, I, st, a: (("chr", a[1]),))
        for n in ("serialize_str", "collect_str", "serialize_char", "serialize_unit_variant"):
            if not sers(P, n): chk.undecided(n, "not found")
    par(chk, jobs)

class CharOut(Out):
    pass
def char_tokens(h, I, st, a): return lit(b'"') + (("chr", a[1]),) + lit(b'"')
def _t_chr(self, st, t, it):
    """UTF-8 bytes of a char, or its escape"""
    g = st.gh; num = st.num; c = num.norm(t[1])
    if g["ph"] == "closed": return "next"
    if not isinstance(it, Lin): return self.bad(st, "wrote %s" % show(st, it))
    it = num.norm(it)
    esc = num.prove_ge0(L(0x1f) - c) or num.prove_eq0(c - 0x22) or num.prove_eq0(c - 0x5c)
    if esc:
        g["pend"] = pend = g["pend"] + (it,)
        if pend[0] != L(0x5c): return self.bad(st, "wrote %s for a character that needs an escape" % show(st, it))
        if len(pend) == 1: return True
        try: vs = [(c.k,) + tuple(self.consts(st, pend[1:])[0])] if c.const() else valuations(num, [c.t[0][0]], list(pend[1:]), ident)
        except Unknown as u: return self.bad(st, "escape characters depend on something else: %s" % u)
        if len(pend) == 2:
            if all(UNSIMPLE.get(x[1]) == x[0] for x in vs): self.ok(("str",)); g["ph"] = "closed"; return True
            if all(x[1] == 0x75 for x in vs): return True
            return self.bad(st, "wrong escape %s" % sorted(vs)[:3])
        if len(pend) < 6: return True
        for x in vs:
            u = 0
            for d in x[2:]: u = u * 16 + HEXV.get(d, 1000)
            if u != x[0]: return self.bad(st, "wrong escape %s" % (x,))
        self.ok(("str",)); g["ph"] = "closed"; return True
    u = utf8_of(num, c)
    def atleast(k):
        lo = num.bounds(c)[0] or 0
        while lo < k and num.prove_ne0(c - lo): lo += 1
        return lo >= k
    if u is None or not (atleast(0x20) and num.prove_ne0(c - 0x22) and num.prove_ne0(c - 0x5c)): return self.bad(st, "wrote %s for any character in %s" % (show(st, it), num.bounds(c)))
    k = len(g["pend"])
    if not num.eq(it, u[k]): return self.bad(st, "byte %d is %s" % (k, show(st, it)))
    g["pend"] = g["pend"] + ("d",)
    if k + 1 == len(u): self.ok(("str",)); g["ph"] = "closed"
    return True
Out.t_chr = _t_chr
Out.RULE = dict(Out.RULE, chr="text is escaped exactly")
_complete = Out.complete
def complete(self, st):
    if st.gh["off"] == "no" and self.cur(st) is not None and self.cur(st)[0] == "chr" and st.gh["ph"] == "closed": self.advance(st)
    return _complete(self, st)
Out.complete = complete

# ------------------------------------------------------------------------------------------------- scalars
NULL = lit(b"null")
def boollit(h, I, st, a):
    v = a[1]
    return (("bool", v),)
def _t_bool(self, st, t, it):
    """true / false"""
    num = st.num; k = len(st.gh["pend"])
    v = t[1] if isinstance(t[1], Lin) else None
    w = b"true" if v is not None and num.eq(v, ONE) else b"false" if v is not None and num.eq(v, ZERO) else None
    if w is None:
        if not isinstance(it, Lin): return self.bad(st, "wrote %s" % show(st, it))
        w = None
        for c in (b"true", b"false"):
            s = num.copy(); q = v - (1 if c == b"true" else 0)
            try: feas = s.assume_eq0(q)
            except Infeasible: feas = False
            if feas and not s.eq(it, L(c[k] if k < len(c) else -1)): return self.bad(st, "wrote %s as byte %d of %s" % (show(st, it), k, c.decode()))
        st.gh["pend"] = st.gh["pend"] + ("d",)
        return self.bad(st, "undecided which value") if k > 3 else True
    if not isinstance(it, Lin) or not num.eq(it, L(w[k])): return self.bad(st, "wrote %s as byte %d of %s" % (show(st, it), k, w.decode()))
    st.gh["pend"] = st.gh["pend"] + ("d",)
    if k + 1 == len(w): self.ok(t); self.advance(st)
    return True
Out.t_bool = _t_bool
Out.RULE.update(bool="true and false", enc="bytes go through the byte encoder", bad="nothing else is written")
def isint(n): return n[0] == "i"

def C23(chk):
    chk.rule("integers: the digit loop is unrolled over the type's range, each written byte is an exact linear expression of the argument; their decimal value must equal the argument, without superfluous zeros or signs. bool, null, non-finite and finite floats: literal text of every path")
    jobs = []
    for cfg in cfgs("std", "nostd"):
        P = prog(JSON, cfg)
        def add(b, mk, pre=None, cfg=cfg, P=P): jobs.append(lambda c: spec(c, P, b, mk, pre, cfg))
        for n in INTS:
            bs = sers(P, "serialize_" + n)
            if not bs: chk.undecided(n, "not found")
            for b in bs: add(b, lambda h, I, st, a, n=n: (("int", a[1], isint(n)),))
        for b in sers(P, "serialize_bool"): add(b, boollit)
        for n, bits in (("f32", 32), ("f64", 64)):
            for b in sers(P, "serialize_" + n):
                for cls in ("fin", "nan", "inf"):
                    def pre(I, st, a, cls=cls, bits=bits): a[1] = FloatV("arg#%d" % Opaque(None).id, cls, bits)
                    add(b, (lambda h, I, st, a: (("float", a[1]),)) if cls == "fin" else (lambda h, I, st, a: NULL), pre)
    par(chk, jobs)

# ------------------------------------------------------------------------------------------------- keys
def refusal(c, P, b, cfg):
    h = Out(c, where(b) + ("[%s]" % cfg if cfg != "std" else ""))
    def setargs(I, st, a): h.I = I; h.toks = ()
    I, rs, a = run(c, P, b, h, args=setargs)
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where))
        else:
            cause.whole(c, h.where, x.val, ("InvalidKeyType",), "the key is of another kind")
            h.ob("other key kinds are refused", is_err(x.val) and variant(x.val) == "InvalidKeyType" and x.st.gh["err"] is None, "%r" % (x.val,))
REFUSED = ("serialize_f32", "serialize_f64", "serialize_bytes", "serialize_none", "serialize_some", "serialize_unit", "serialize_unit_struct", "serialize_newtype_variant",
           "serialize_seq", "serialize_tuple", "serialize_tuple_struct", "serialize_tuple_variant", "serialize_map", "serialize_struct", "serialize_struct_variant")
def C22(chk):
    chk.rule("every method of the key serializer: string kinds write exactly one JSON string holding the key's text, every other kind is refused as an invalid key with nothing written, newtypes stay with the key serializer; maps hand their keys to it")
    jobs = []
    for cfg in cfgs("std", "nostd"):
        P = prog(JSON, cfg)
        def add(n, mk, cfg=cfg, P=P):
            bs = keysers(P, n)
            if not bs: chk.undecided("key serializer " + n, "not found")
            for b in bs: jobs.append(lambda c, b=b: spec(c, P, b, mk, cfg=cfg))
        for n in INTS: add("serialize_" + n, lambda h, I, st, a, n=n: lit(b'"') + (("int", a[1], isint(n)),) + lit(b'"'))
        add("serialize_bool", lambda h, I, st, a: lit(b'"') + boollit(h, I, st, a) + lit(b'"'))
        add("serialize_str", lambda h, I, st, a: qstr(I.leafify(a[1])))
        add("serialize_char", char_tokens)
        add("serialize_unit_variant", lambda h, I, st, a: qstr(I.leafify(a[3])))
        add("collect_str", lambda h, I, st, a: lit(b'"') + (("text",),) + lit(b'"'))
        add("serialize_newtype_struct", lambda h, I, st, a: (("key", a[2], a[0]),))
        for n in REFUSED:
            bs = keysers(P, n)
            if not bs: chk.undecided("key serializer " + n, "not found")
            for b in bs: jobs.append(lambda c, b=b, cfg=cfg, P=P: refusal(c, P, b, cfg))
        jobs.append(lambda c, cfg=cfg: sessions(c, cfg, ("serialize_map",)))
    par(chk, jobs)

# ------------------------------------------------------------------------------------------------- containers
class Session(Out, SessionHandler):
    """a client's history on one compound serializer; ghosts: op = what is being written, any = has an element been written"""
    def __init__(self, chk, where, nops): Out.__init__(self, chk, where); self.nops = nops; self.chk = chk; self.where = where
    def setup(self, st):
        Out.setup(self, st); st.gh["op"] = "start"; st.gh["any"] = "no"
    def tokens(self, st):
        op = st.gh["op"]
        if op == "start": return self.opening
        if op == "end": return self.closing
        t = self.item[int(op)]
        return (lit(b",") if st.gh["any"] == "yes" and t else ()) + t
    def other(self, ctx):
        p = ctx.c.get("p", "")
        if p.startswith("synth::fmt_"): return self.fmt_call(ctx)
        if p.startswith("synth::"):
            n = ctx.c["name"]; st = ctx.st
            if n == "choice":
                st.gh["ti"] = "0"; st.gh["rd"] = ZERO; st.gh["pend"] = (); st.gh["ph"] = "open"
                out = choice(ctx, self.nops + 1)
                for s, v in out: s.gh["op"] = str(v.k) if v.k < self.nops else "end"
                return out
            if n == "started": self.complete(st)
            elif n == "ended":
                r = ctx.args[0]
                if is_ok(r) and st.gh["err"] is None: self.complete(st)
                if is_err(r) and st.gh["err"] is None and st.gh["off"] == "no": self.ob("refused only after a writer or value error", False, "%r" % (r,))
            elif n.startswith("done_"):
                self.complete(st)
                if self.item[int(n[5:])]: st.gh["any"] = "yes"
                if st.gh["off"] == "no": self.ob("punctuation", True)
            elif n.startswith("failed_") or n == "start_failed":
                if st.gh["err"] is None and st.gh["off"] == "no": self.ob("refused only after a writer or value error", False, "%r" % (ctx.args[0],))
            return [(st, ZERO)]
        return Out.other(self, ctx)

SESS = [("serialize_seq", "SerializeSeq", ["serialize_element"], 1, b"[", b"]"), ("serialize_tuple", "SerializeTuple", ["serialize_element"], 1, b"[", b"]"),
        ("serialize_tuple_struct", "SerializeTupleStruct", ["serialize_field"], 2, b"[", b"]"), ("serialize_tuple_variant", "SerializeTupleVariant", ["serialize_field"], 4, b"[", b"]}"),
        ("serialize_map", "SerializeMap", ["serialize_key", "serialize_value"], 1, b"{", b"}"),
        ("serialize_struct", "SerializeStruct", ["serialize_field", "skip_field"], 2, b"{", b"}"), ("serialize_struct_variant", "SerializeStructVariant", ["serialize_field", "skip_field"], 4, b"{", b"}}")]
def sessions(chk, cfg, which=None):
    P = prog(JSON, cfg)
    for name, trait, ops, ni, op, cl in SESS:
        if which and name not in which: continue
        bs = sers(P, name)
        if not bs: chk.undecided(name, "not found")
        for b in bs:
            w = where(b) + ("[%s]" % cfg if cfg != "std" else "")
            opn = [o for o in ops if not (o == "skip_field" and not methods(P, b, trait, [o]))]
            ms = methods(P, b, trait, opn); en = methods(P, b, trait, ["end"])
            if ms is None or en is None: chk.undecided(w, "compound methods not found"); continue
            seqs = [ms] if name == "serialize_map" else [[m] for m in ms]
            if name == "serialize_map":
                both = methods(P, b, trait, ["serialize_entry"])
                if both is not None: seqs.append(both)
            sb, sargs, opargs = session(P, b, seqs, en[0], "%s %s" % (cfg, w))
            h = Session(chk, w, len(seqs))
            def setargs(I, st, a, h=h, b=b, name=name, sargs=sargs, opargs=opargs, op=op, cl=cl, opn=opn):
                h.I = I
                ser = h.ser = a[0]
                h.opening = (lit(b"{") + qstr(I.leafify(a[3])) + lit(b":") if "variant" in name else ()) + lit(op)
                h.closing = lit(cl)
                ov = [[[a[x - 1] for x in seq] for seq in o] for o in opargs]
                if name == "serialize_map": 
                    h.item = []
                    for o in ov:
                        k, v = (o[0][0], o[1][0]) if len(o) > 1 else o[0][:2]
                        h.item.append((("key", k, ser),) + lit(b":") + (("val", v, ser),))
                elif "struct" in name and "tuple" not in name:
                    h.item = [(qstr(I.leafify(v[0][0])) + lit(b":") + (("val", v[0][1], ser),)) if o == "serialize_field" else () for o, v in zip(opn, ov)]
                else: h.item = [(("val", v[0][0], ser),) for v in ov]
            run_session(chk, P, sb, h, setargs, maxpaths=20000)

def C21(chk):
    chk.rule("for every history of calls on a compound serializer (abstract session with loop invariants over the elements): brackets, commas and colons exactly where the grammar has them; single-call forms: exact text of every path")
    jobs = []
    for cfg in cfgs("std", "nostd"):
        P = prog(JSON, cfg)
        for x in SESS: jobs.append(lambda c, x=x, cfg=cfg: sessions(c, cfg, (x[0],)))
        def add(n, mk, cfg=cfg, P=P):
            bs = sers(P, n)
            if not bs: chk.undecided(n, "not found")
            for b in bs: jobs.append(lambda c, b=b: spec(c, P, b, mk, cfg=cfg))
        for n in ("serialize_none", "serialize_unit", "serialize_unit_struct"): add(n, lambda h, I, st, a: NULL)
        add("serialize_some", lambda h, I, st, a: (("val", a[1], a[0]),))
        add("serialize_newtype_struct", lambda h, I, st, a: (("val", a[2], a[0]),))
        add("serialize_unit_variant", lambda h, I, st, a: qstr(I.leafify(a[3])))
        add("serialize_newtype_variant", lambda h, I, st, a: lit(b"{") + qstr(I.leafify(a[3])) + lit(b":") + (("val", a[4], a[0]),) + lit(b"}"))
    par(chk, jobs)

# ------------------------------------------------------------------------------------------------- bytes
ENC = {"ArrayByteEncoder": lambda p: (("arr", p),), "HexStrByteEncoder": lambda p: lit(b'"') + (("hex", p),) + lit(b'"'),
       "Base64ByteEncoder": lambda p: lit(b'"') + (("b64", p),) + lit(b'"'), "PassThroughByteEncoder": lambda p: (("raw", p),)}
FLAVOUR = {"to_writer": "ArrayByteEncoder", "to_writer_hex_bytes": "HexStrByteEncoder", "to_writer_base64_bytes": "Base64ByteEncoder", "to_writer_pass_bytes": "PassThroughByteEncoder",
           "to_string": "ArrayByteEncoder", "to_string_hex_bytes": "HexStrByteEncoder", "to_string_base64_bytes": "Base64ByteEncoder", "to_string_pass_bytes": "PassThroughByteEncoder"}
class EncOut(Out):
    def other(self, ctx):
        if tname(ctx.c) == "ByteEncoder::serialize_bytes":
            a, b = fork2(ctx, UNIT, "nested-error")
            self.emit(a[0], [("enc", ctx.args[1], ctx.args[0])])
            self.fail(b[0], ("n", b[2]))
            return [a, (b[0], b[1])]
        n = tname(ctx.c)
        if n in ("Serializer::serialize_seq", "Serializer::serialize_tuple"): return self.call(ctx, ("seq", ctx.args[0]), Opaque(None, "sequence"))
        if n in ("SerializeSeq::serialize_element", "SerializeTuple::serialize_element"): return self.call(ctx, ("elem", ctx.args[0], ctx.args[1], ctx), UNIT)
        if n in ("SerializeSeq::end", "SerializeTuple::end"): return self.call(ctx, ("endseq", ctx.args[0]), UNIT)
        return Out.other(self, ctx)
    def call(self, ctx, item, okv):
        a, b = fork2(ctx, okv, "nested-error")
        self.emit(a[0], [item])
        self.fail(b[0], ("n", b[2]))
        return [a, (b[0], b[1])]
    def t_arr(self, st, t, it):
        g = st.gh; num = st.num; p = t[1]; ph = g["ph"]; I = self.I
        if isinstance(it, Lin) or it[0] not in ("seq", "elem", "endseq"): return Out.t_arr(self, st, t, it)
        if it[0] == "seq":
            if ph != "open" or not self.is_ser(st, it[1], self.ser): return self.bad(st, "a second sequence")
            g["ph"] = "seq"; return True
        if ph != "seq": return self.bad(st, "%s outside the sequence" % it[0])
        if it[0] == "endseq":
            if not self.atend(st, p): return self.bad(st, "closed with %r of %r bytes written" % (num.norm(g["rd"]), num.norm(p.meta)))
            g["ph"] = "closed"; return True
        v = I.leafify(it[2]); k = 0
        while isinstance(v, Ptr) and k < 3:
            if v.root == p.root and v.path and v.path[-1][0] == "e" and num.eq(v.path[-1][1], p.path[-1][1] + g["rd"]) and v.meta is None: break
            v = I.leafify(I.load(st, v.root, v.path)); k += 1
        ty = [I.T(a).get("s", "") for a in it[-1].c.get("args", []) if isinstance(a, int)]
        good = self.inside(st, p, g["rd"]) and (isinstance(v, Ptr) or isinstance(v, Lin) and num.eq(v, self.srcbyte(st, p, g["rd"]))) and any(x.replace("&", "") in ("u8", "u16", "u32", "u64", "i16", "i32", "i64") for x in ty)
        if not good: return self.bad(st, "element %r is %r (%s)" % (num.norm(g["rd"]), v, ty))
        self.ok(t); g["rd"] = num.norm(g["rd"] + 1)
        return True
def _t_enc(self, st, t, it):
    if not isinstance(it, Lin) and it[0] == "enc" and same_ptr(self.I, st, it[1], t[1]) and self.is_ser(st, it[2], t[2]) and st.num.eq(self.I.leafify(it[1]).meta, self.I.leafify(t[1]).meta):
        self.advance(st); return True
    return self.bad(st, "wrote %s" % show(st, it))
Out.t_enc = _t_enc

def encoders_used(P, b, seen=None):
    """byte encoder types named by the calls of b and of the local functions it calls"""
    out = set(); seen = seen if seen is not None else set()
    if b.key in seen: return out
    seen.add(b.key)
    names = set(ENC)
    for bl in b.blocks:
        t = bl["t"]
        if t[0] != "call": continue
        c = t[1]
        for a in (c.get("args") or []) + (c.get("rargs") or []):
            if isinstance(a, int):
                s = P.types[a].get("s", "")
                out |= {n for n in names if re.search(r"\b%s\b" % n, s)}
        k = c.get("body")
        if k in P.bodies and P.bodies[k].local: out |= encoders_used(P, P.bodies[k], seen)
    return out

def C24(chk):
    chk.rule("byte encoders for every byte slice: a ghost position runs along the writes (inductive over the loops); each digit is compared with the documented code of the bytes it stands for, exhaustively over their values. Flavours: the encoder type instantiated by each entry point")
    jobs = []
    for cfg in cfgs("std", "nostd"):
        P = prog(JSON, cfg)
        for n, mk in ENC.items():
            bs = [b for b in P.find("serialize_bytes") if (b.root.get("trait") or "").endswith("ByteEncoder") and b.root["selfs"].split("::")[-1].split("<")[0] == n]
            if not bs: chk.undecided(n, "not found")
            for b in bs: jobs.append(lambda c, b=b, mk=mk, cfg=cfg, P=P: spec(c, P, b, lambda h, I, st, a: mk(I.leafify(a[1])), cfg=cfg, cls=EncOut))
        for b in P.find("serialize_bytes_as_hex_str"): jobs.append(lambda c, b=b, cfg=cfg, P=P: spec(c, P, b, lambda h, I, st, a: (("hex", I.leafify(a[1])),), cfg=cfg))
        for b in P.find("encode"):
            if "base64" in b.path: jobs.append(lambda c, b=b, cfg=cfg, P=P: spec(c, P, b, lambda h, I, st, a: (("b64", I.leafify(a[1])),), cfg=cfg))
        for b in sers(P, "serialize_bytes"): jobs.append(lambda c, b=b, cfg=cfg, P=P: spec(c, P, b, lambda h, I, st, a: (("enc", a[1], a[0]),), cfg=cfg, cls=EncOut))
        for n, e in FLAVOUR.items():
            for b in P.find(n):
                if b.root.get("selfs"): continue
                u = encoders_used(P, b)
                chk.ob("the flavour's own encoder", "%s[%s]" % (n, cfg), u == {e} if u else None, "instantiates %s" % sorted(u))
    par(chk, jobs)

# ------------------------------------------------------------------------------------------------- valid UTF-8 output
from .ser_err import ErrHandler, writing_roots
class Utf8Out(ErrHandler):
    """every piece given to the writer is text: a str, ASCII bytes, the complete encoding of a char, or bytes of a str between char boundaries"""
    def __init__(self, chk, where): ErrHandler.__init__(self); self.chk = chk; self.where = where; self.strs = []; self.texts = []
    def setup(self, st): ErrHandler.setup(self, st); st.gh["u8err"] = "no"
    def fact(self, ok, d):
        self.texts.append((ok, d))
    def on_call(self, ctx):
        n = tname(ctx.c)
        if n in ("SerWrite::write", "SerWrite::write_byte"):
            self.bytes(ctx, [ctx.args[1]] if n.endswith("byte") else self.bytes_of(ctx, ctx.args[1]))
        elif n == "SerWrite::write_str": self.fact(True, "str")
        return ErrHandler.on_call(self, ctx)
    def other(self, ctx):
        rp = ctx.c.get("rp", "") or ctx.c.get("p", "")
        if "from_utf8" in rp and "alloc::string::String" in rp and rp.endswith("from_utf8"):
            s2 = ctx.st.copy(); s2.gh["u8err"] = "yes"
            return [(ctx.st, ok(Opaque(None, "string"))), (s2, err(Opaque(None, "utf8")))]
        return ErrHandler.other(self, ctx)
    def fmt_hook(self, ctx, n):
        r = ErrHandler.fmt_hook(self, ctx, n)
        if n == "fmt_piece": self.strs.append(r[0][1])
        return r
    def bytes(self, ctx, items):
        st = ctx.st; num = st.num; I = ctx.I; i = 0
        while i < len(items):
            it = items[i]
            if isinstance(it, Lin):
                hi = num.bounds(st.norm(it))[1]
                if num.prove_ge0(L(127) - it): self.fact(True, "ascii"); i += 1; continue
                k = self.char(st, items[i:])
                if k: self.fact(True, "char"); i += k; continue
                return self.fact(False, "a byte up to %s" % hi)
            if it[0] != "seg": return self.fact(False, repr(it[0]))
            _, root, off, n = it
            v = st.mem.get(root)
            m = num.seg_mask(v.name, st.norm(off), st.norm(off + n)) if isinstance(v, Buf) else None
            if m is not None and (not m or max(m) < 0x80): self.fact(True, "ascii"); i += 1; continue
            if any(self.at(I, st, s, off, root) and self.at(I, st, s, off + n, root) for s in self.strs): self.fact(True, "text"); i += 1; continue
            if isinstance(v, Agg) and all(isinstance(x, Lin) and num.prove_ge0(L(127) - x) for x in v.f): self.fact(True, "ascii"); i += 1; continue
            # a stretch of a str whose ends are not known to be char boundaries: no verdict
            return self.fact(None if any(s.root == root for s in self.strs) else False, "arbitrary bytes of %s" % (v.name if isinstance(v, Buf) else root,))
    def at(self, I, st, s, off, root):
        from engine.models import boundary
        if s.root != root: return False
        e = st.norm(off - s.path[-1][1]); num = st.num
        if not (num.prove_ge0(e) and num.prove_ge0(s.meta - e)): return False
        return boundary(I, st, s, e) is True
    def char(self, st, items):
        for b in items[:1]:
            for x, _ in st.norm(b).t:
                for r in SYMS[x].roots:
                    u = utf8_of(st.num, symlin(r))
                    if u and len(items) >= len(u) and all(isinstance(y, Lin) and st.num.eq(y, z) for y, z in zip(items, u)): return len(u)
        return 0
    def on_unsafe(self, I, st, what, p):
        if what != "utf8_unchecked" or p is None: return
        num = st.num; v = I.load_raw(st, p.root, p.path[:-1])
        v = st.mem.get(p.root) if not isinstance(v, Agg) else v
        n = st.norm(p.meta); good = False
        if isinstance(v, Buf):
            m = num.seg_mask(v.name, p.path[-1][1], st.norm(p.path[-1][1] + n)); good = m is not None and (not m or max(m) < 0x80)
            good = good or any(self.at(I, st, s, p.path[-1][1], p.root) and self.at(I, st, s, p.path[-1][1] + n, p.root) for s in self.strs)
        elif isinstance(v, Agg) and n.const():
            o = st.norm(p.path[-1][1])
            xs = v.f[o.k:o.k + n.k] if o.const() else v.f
            good = all(isinstance(I.leafify(x), Lin) and num.prove_ge0(L(127) - I.leafify(x)) for x in xs)
        self.fact(good, "an unchecked str")

CHANGES = ("truncate", "pop", "push", "insert", "remove", "drain", "swap_remove", "retain", "set_len", "extend_from_slice", "extend", "append", "split_off", "clear", "resize", "dedup", "reverse")
def string_builders(P, b):
    """(unchecked, checked, changed, other) calls of a function and its local helpers that build a String from bytes"""
    out = {"unchecked": 0, "checked": 0, "changed": []}
    seen = set()
    def go(x):
        if x.key in seen: return
        seen.add(x.key)
        for bl in x.blocks:
            t = bl["t"]
            if t[0] != "call": continue
            c = t[1]; rp = c.get("rp") or c.get("p") or ""; n = rp.split("::")[-1]
            if n in ("from_utf8_unchecked", "from_utf8_unchecked_mut", "from_raw_parts") and ("String" in rp or "str" in rp): out["unchecked"] += 1
            elif n == "from_utf8" and ("String" in rp or "str::" in rp): out["checked"] += 1
            elif "vec::Vec" in rp and n in CHANGES: out["changed"].append(n)
            k = c.get("body")
            if k in P.bodies and P.bodies[k].local: go(P.bodies[k])
    go(b)
    return out

def C25(chk):
    chk.rule("every write of every serializer function on every path is text (a str, ASCII bytes proven from their value sets, a whole encoded char, or a stretch of a str between char boundaries); byte encoders that may write anything else are found this way and must only be instantiated where the result is validated")
    for cfg in cfgs("std", "alloc"):
        P = prog(JSON, cfg); safe = {}
        todo = [b for b in writing_roots(P) if not (b.root["name"].startswith("to_string") and not b.root.get("selfs"))]
        for b in todo:
            w = where(b) + ("[%s]" % cfg if cfg != "std" else "")
            h = Utf8Out(chk, w)
            def setargs(I, st, a, b=b, h=h):
                h.a = a
                for i, v in enumerate(a):
                    v = I.leafify(v); t = P.types[b.locals[i + 1]]
                    if isinstance(v, Ptr) and v.meta is not None and "str" in (t.get("s") or "").replace("&", " ").split(): h.strs.append(v)
            I, rs, a = run(chk, P, b, h, args=setargs, maxpaths=8000)
            imp = [x for x in rs if x.kind == "imprecise"]
            enc = (b.root.get("trait") or "").endswith("ByteEncoder")
            if imp: chk.undecided(w, "%s (%s)" % (imp[0].val, imp[0].where))
            bad = [d for o, d in h.texts if o is False]; unk = [d for o, d in h.texts if o is None]
            if enc: safe[b.root["selfs"].split("::")[-1].split("<")[0]] = None if (imp or unk) and not bad else not bad
            else:
                for o, d in h.texts: chk.ob("only text is written", w, o, d)
        for e in ENC:
            if e not in safe: chk.undecided(e, "not found")
        for b in P.roots:
            if b.root.get("selfs") or not (b.file or "").endswith("ser.rs"): continue
            u = string_builders(P, b)
            if not u["unchecked"] and not u["checked"]: continue
            chk.fns[b.path] = chk.fns.get(b.path, 0)
            w = "%s[%s]" % (b.root["name"], cfg)
            used = encoders_used(P, b)
            raw = [e for e in used if safe.get(e) is False]; unk = [e for e in used if safe.get(e) is None]
            if u["unchecked"]:
                okk = False if raw else None if unk or not used else True
                chk.ob("unchecked strings come from text-only encoders", w, okk, "encoders %s" % sorted(used))
                chk.ob("the bytes are what the serializer wrote", w, not u["changed"], "%s" % u["changed"])
            if raw and not u["unchecked"]:
                h = Utf8Out(chk, w)
                I, rs, a = run(chk, P, b, h)
                n = 0
                for x in rs:
                    if x.kind == "imprecise": chk.undecided(w, "%s (%s)" % (x.val, x.where))
                    elif x.kind == "ret" and x.st.gh.get("u8err") == "yes": n += 1; cause.whole(chk, w, x.val, ("Utf8Encode",), "the output is not UTF-8"); chk.ob("invalid UTF-8 is refused", w, is_err(x.val), "%r" % (x.val,))
                if not n: chk.undecided(w, "no validation failure path")

CHECKS = {"C20": C20, "C21": C21, "C22": C22, "C23": C23, "C24": C24, "C25": C25}
