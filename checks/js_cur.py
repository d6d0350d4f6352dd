"""JSON: whitespace contract (C32), absence of panics (C30), skipping (C45)."""
from .lib import *
from .dem import *
from .mp_de import cursor, visits, passes_result

WS = frozenset((0x20, 0x09, 0x0a, 0x0d))
NWS = frozenset(range(256)) - WS

def bname(st, root): return st.mem[root].name
def setup_ws(st, buf, a, b): return st.num.add_seg(buf, a, b, WS)

def is_mapkey(v): return isinstance(v, Agg) and str(v.tag).split("<")[0].endswith("MapKey")

class JDe(DeHandler):
    """the JSON decoder's world: visitors, nested values, user supplied string decoders and number types"""
    summary = None          # verified contract of eat_whitespace: body key
    def prepare(self, I, st, args):
        for a in args:
            d = find_de(st, a)
            if d is None and is_de(a):
                r = ("H", "de%d" % Opaque(None).id); st.mem[r] = a; d = Ptr(r)
            if d is not None:
                c = Cur(st, d)
                st.num.assume_ge0(c.ptr.meta - c.idx)
                self.dep = d; self.p0 = c.pos; self.endp = c.end; self.root = c.root
                # counters of an access object never exceed the number of input bytes
                for b in args: self.counters(I, st, b, c)
                self.started(I, st)
                return
    def counters(self, I, st, v, c, depth=0):
        if depth > 3: return
        if isinstance(v, Ptr):
            w = st.mem.get(v.root)
            if w is not None and not v.path and not is_de(w): self.counters(I, st, w, c, depth + 1)
        elif isinstance(v, Agg) and not is_de(v):
            for x in v.f:
                if isinstance(x, Lin) and x.t and depth and (st.num.bounds(x)[1] or 0) > 1 << 20: st.num.assume_ge0(c.end - x); st.num.assume_ge0(x)
                else: self.counters(I, st, x, c, depth + 1)
    def on_local_call(self, ctx, body):
        if self.summary is not None and body.key in self.summary: return self.eat_ws(ctx)
        return NotImplemented
    def next_nws(self, st, c):
        """position and byte of the next significant byte when this path already knows it"""
        num = st.num
        buf = bname(st, c.root)
        pos = c.pos
        for _ in range(50):
            if num.prove_ge0(pos - c.end): return None
            for o, s in num.by.get(buf, []):
                if num.prove_eq0(o - pos):
                    lo_hi = num.mask(s) if s not in num.sub else frozenset([num.norm(symlin(s)).k]) if num.norm(symlin(s)).const() else None
                    if lo_hi is None: break
                    if not (lo_hi & WS): return pos
                    if lo_hi <= WS: nxt = num.norm(pos + 1); break
                    nxt = None; break
            else: nxt = None
            if not locals().get("nxt"):
                nxt = None
                for (bf, x, y, mk) in num.segs:
                    if bf == buf and mk <= WS and num.prove_ge0(pos - x) and num.prove_ge0(y - pos) and not num.prove_ge0(pos - y): nxt = num.norm(y); break
            if nxt is None: return None
            pos = nxt; nxt = None
        return None
    def eat_ws(self, ctx):
        I, st = ctx.I, ctx.st; num = st.num
        dep = find_de(st, I.leafify(ctx.args[0]))
        if dep is None: return NotImplemented
        c = Cur(st, dep)
        if not num.prove_ge0(c.end - c.pos): return NotImplemented
        buf = st.mem[c.root]
        if buf.dirty is not None and not num.prove_ge0(c.pos - buf.dirty[1]): return NotImplemented
        q = self.next_nws(st, c)
        if q is not None:
            set_cur(st, dep, c.off, num.norm(q - c.off), num.norm(c.end - c.off))
            return [(st, ok(num.byte(buf.name, q)))]
        out = []
        s2 = st.copy()
        q = fresh("q", 0, None)
        good = num.assume_ge0(q - c.pos) and num.assume_ge0(c.end - q - 1)
        if good:
            good = num.add_seg(buf.name, c.pos, q, WS)
            b = num.byte(buf.name, q)
            try: num.set_mask(b.t[0][0], num.mask(b.t[0][0]) & NWS) if b.t else None
            except Infeasible: good = False
            if good:
                set_cur(st, dep, c.off, num.norm(q - c.off), num.norm(c.end - c.off))
                out.append((st, ok(b)))
        if s2.num.add_seg(buf.name, c.pos, c.end, WS):
            e = self.eof(I, ctx)
            if getattr(self.summary, "moves", True):
                z = fresh("z", 0, None)
                s2.num.assume_ge0(z - c.pos); s2.num.assume_ge0(c.end - z)
                set_cur(s2, dep, c.off, s2.num.norm(z - c.off), s2.num.norm(c.end - c.off))
            out.append((s2, err(e)))
        for s, _ in out: s.forks += 1
        return out
    def eof(self, I, ctx):
        t = I.T(I.T(ctx.dty)["vs"][1][2][0][1])
        for v in t["vs"]:
            if v[1] == "UnexpectedEof" or v[0] == "UnexpectedEof": break
        i = [x[0] for x in t["vs"]].index("UnexpectedEof")
        return Enum(i, (), "UnexpectedEof")
    def other(self, ctx):
        I, st = ctx.I, ctx.st
        n = tname(ctx.c)
        if n == "StringByteDecoder::decode_string_to_bytes": return self.decode(ctx)
        if n.startswith("NumParseTool::") or n.startswith("CheckedSub::") or n in ("FromStr::from_str",):
            return self.unknown(ctx)
        if n in ("From::from", "Into::into", "Neg::neg", "Clone::clone"): return [(st, I.fresh(st, ctx.dty, n))]
        return NotImplemented
    def unknown(self, ctx):
        I, st = ctx.I, ctx.st
        t = I.T(ctx.dty)
        if t["k"] != "enum": return [(st, I.fresh(st, ctx.dty, ctx.c.get("name", "v")))]
        out = []
        for i, v in enumerate(t["vs"]):
            s = st.copy() if i < len(t["vs"]) - 1 else st
            s.forks += 1
            out.append((s, Enum(i, [I.fresh(s, x[1], "u") for x in v[2]], v[0])))
        return out
    def decode(self, ctx):
        """a user supplied decoder consumes part of the input and returns a slice of what it consumed"""
        I, st = ctx.I, ctx.st
        dep = find_de(st, I.leafify(ctx.args[0]))
        if dep is None: raise Imprecise("decoder reads from %r" % (ctx.args[0],))
        self.at_nested(ctx, dep)
        c = Cur(st, dep)
        self.havoc(ctx, st, dep)
        n = Cur(st, dep)
        a = fresh("da", 0, None); z = fresh("dl", 0, None)
        st.num.assume_ge0(a - c.pos); st.num.assume_ge0(n.off - a - z)         # a slice of the whole lifetime cannot overlap the input that is kept
        p = Ptr(c.root, (("e", a),), z)
        s2 = st.copy(); st.forks += 1; s2.forks += 1
        return [(st, ok(p)), (s2, err(Opaque(None, "decode-error")))]
    def consumed(self, ctx, st, c, p):
        """what was consumed may have been rewritten in place"""
        b = st.mem[c.root]
        if isinstance(b, Buf) and b.mut: st.mem[c.root] = Buf(b.name, b.len, b.mut, (ZERO, st.norm(p)))
    # modular sessions: the visitor may use the access object in any way, each method is analysed from any state it can be in
    modular = True
    def drive(self, ctx, kind):
        if not self.modular: return DeHandler.drive(self, ctx, kind)
        I, st = ctx.I, ctx.st
        dep = find_de(st, I.leafify(ctx.args[1]))
        if dep is None: raise Imprecise("visit_%s: no deserializer in the access object" % kind)
        self.ev(st, "visit", kind, (ctx.args[1],), Cur(st, dep).pos)
        self.at_nested(ctx, dep)
        self.havoc(ctx, st, dep)
        a, b = self.result(ctx, "visitor")
        for s, v in ((a[0], a), (b[0], b)):
            s.gh["vres"] = v[2]; s.gh["vok"] = L(1 if v is a else 0)
            s.gh["cur"] = Cur(s, self.dep).pos
        return [a[:2], b[:2]]
    def enum_parts(self, ctx, v): pass

def jroots(P): return [b for b in P.roots if "de::" in b.path or "de::" in (b.root.get("selfs") or "")]
def inherent(P, name): return [b for b in P.find(name) if (b.root.get("selfs") or "").startswith("de::Deserializer<") and not b.root.get("trait")]

def ws_contract(P, chk=None):
    """prove the contract of eat_whitespace; returns the set of body keys for which it may be used instead of the body"""
    bs = inherent(P, "eat_whitespace")
    if not bs:
        if chk: chk.undecided("eat_whitespace", "not found")
        return set()
    b = bs[0]; w = where(b)
    h = JDe(None, w)
    I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a))
    exact = bool(rs); moves = False
    def ob(rule, g, d=""):
        nonlocal exact
        if chk: chk.ob(rule, w, g, d)
        if not g: exact = False
    for x in rs:
        if x.kind != "ret":
            exact = False
            if chk: chk.undecided(w, "%s (%s)" % (x.val, x.where)) if x.kind == "imprecise" else chk.ob("no panic", w, False, "%s in %s" % (x.val, x.where))
            continue
        num = x.st.num; c = Cur(x.st, h.dep); buf = x.st.mem[h.root]
        if not num.eq(c.end, h.endp) or buf.dirty is not None: ob("only the cursor changes", False, "%r" % (c.val,)); continue
        if is_ok(x.val):
            m = num.seg_mask(buf.name, h.p0, c.pos)
            ob("only whitespace is skipped", num.prove_ge0(c.pos - h.p0) and m is not None and m <= WS, "skipped %s" % (sorted(m - WS)[:6] if m is not None else "unknown bytes"))
            bt = num.norm(num.byte(buf.name, c.pos))
            mk = frozenset([bt.k]) if bt.const() else num.mask(bt.t[0][0]) if len(bt.t) == 1 and bt.k == 0 and bt.t[0][1] == 1 else frozenset(range(256))
            ob("all whitespace is skipped", not (mk & WS), "stops at %s" % sorted(mk & WS))
            ob("the next significant byte is returned", num.prove_ge0(h.endp - c.pos - 1) and isinstance(x.val.f[0], Lin) and num.eq(x.val.f[0], bt), "%r" % (x.val,))
        else:
            m = num.seg_mask(buf.name, h.p0, h.endp)
            ob("the end of input is reported only after whitespace", m is not None and m <= WS, "%r with unread %s" % (x.val, sorted(m - WS)[:6] if m is not None else "bytes"))
            if not num.eq(c.pos, h.p0):
                moves = True
                if not (num.prove_ge0(c.pos - h.p0) and num.prove_ge0(c.end - c.pos)): exact = False
            if variant(x.val) != "UnexpectedEof": exact = False
    k = str(b.key).rsplit("@", 1)[0]
    r = Contract({x for x in P.bodies if str(x).rsplit("@", 1)[0] == k} if exact else ())
    r.moves = moves
    return r

class Contract(set): moves = True

_wsok = {}
def use_contract(P):
    k = id(P)
    if k not in _wsok: _wsok[k] = ws_contract(P)
    return _wsok[k]

class Safe(JDe):
    """any visitor, any nested value; the cursor must stay inside the input whenever control leaves the library"""
    def at_nested(self, ctx, dep):
        self.inv(ctx.st, dep)
        a = ctx.args[-1]
        self.key_pre(ctx, dep)
    def key_pre(self, ctx, dep):
        """a map key deserializer is only ever created in front of a quote"""
        if is_mapkey(ctx.args[-1]):
            st = ctx.st; c = Cur(st, dep)
            g = st.num.prove_ge0(c.end - c.pos - 1) and st.num.eq(st.num.byte(bname(st, c.root), c.pos), L(0x22))
            self.ob("a map key starts at a quote", g, "at %r" % c.pos)
    def inv(self, st, dep):
        c = Cur(st, dep)
        self.ob("the cursor stays inside the input", st.num.prove_ge0(c.end - c.pos), "cursor %r, end %r" % (c.pos, c.end))
    def started(self, I, st):
        if self.key:
            num = st.num
            num.assume_ge0(self.endp - self.p0 - 1)
            num.assume_eq0(num.byte(bname(st, self.root), self.p0) - 0x22)
    key = False

CONTRACT = {"eat_some": "advances the cursor unchecked, by contract", "split_input": "panics when asked for more than the input, by contract"}
def js_entries(P):
    out = []
    for b in jroots(P):
        r = b.root; s = r.get("selfs") or ""
        tr = (r.get("trait") or "").split("::")[-1]
        base = s.replace("&mut ", "").split("<")[0].split("::")[-1]
        if tr in ("Deserializer", "SeqAccess", "MapAccess", "EnumAccess", "VariantAccess", "StringByteDecoder", "NumParseTool", "CheckedSub"): out.append(b)
        elif not tr and base == "Deserializer" and r.get("reach") and r["name"] not in CONTRACT: out.append(b)
        elif not s and not tr and r.get("reach"): out.append(b)
    for b in P.find("decode"):
        if "base64" in b.path and b not in out: out.append(b)
    return out

def safe_run(chk, P, b, pb, full=False):
    h = Safe(chk, where(b) + (" [32-bit]" if pb == 32 else ""))
    h.summary = use_contract(P)
    s = b.root.get("selfs") or ""
    h.key = "MapKey<" in s
    if "VariantAccess<" in s and (b.root.get("trait") or "").endswith("EnumAccess") and False: h.key = True
    I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), ptrbits=pb, maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where))
        else:
            if getattr(h, "dep", None) is not None and h.dep.root in x.st.mem and is_de(x.st.mem[h.dep.root]): h.inv(x.st, h.dep)
    if rs and all(x.kind == "ret" for x in rs): h.ob("no panic", True, "%d panic checks decided, %d returning paths" % (I.obl, len(rs)))

def C30(chk):
    chk.rule("every public entry of the decoder and every method of its access objects, for every input, cursor, visitor, nested value and user supplied decoder: no panic edge is feasible and the cursor stays inside the input; usize of 64 and 32 bits, with and without debug assertions")
    jobs = []
    P = prog(JSON); use_contract(P)
    for pb in (64, 32):
        for b in js_entries(P): jobs.append(lambda c, b=b, pb=pb: safe_run(c, P, b, pb))
    Pr = prog(JSON, "rel"); use_contract(Pr)
    for b in js_entries(Pr):
        if any(d for d in ()): pass
        jobs.append(lambda c, b=b: safe_run(c, Pr, b, 64))
    par(chk, jobs)

def C32(chk):
    chk.rule("eat_whitespace for every input and cursor: skips exactly the longest run of space, tab, LF and CR (byte class facts over the skipped segment)")
    P = prog(JSON)
    ws_contract(P, chk)

CHECKS = {"C30": C30, "C32": C32}
