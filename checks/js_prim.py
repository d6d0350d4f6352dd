"""JSON: building blocks for custom decoders (C47), which decoder and which readability every entry uses (C56, C57)."""
from .lib import *
from .dem import *
from .mp_de import cursor
from .js_cur import JDe, inherent, use_contract
from .mp_cur import sl
from .js_mem import plain_decoder, str_inherent

class Prim(JDe):
    """a building block alone: any input and, when not inside, also a cursor beyond the end of the input"""
    def __init__(self, chk, where, inside):
        JDe.__init__(self, chk, where); self.inside = inside
    def prepare(self, I, st, args):
        for a in args:
            d = find_de(st, a)
            if d is None: continue
            c = Cur(st, d)
            if self.inside: st.num.assume_ge0(c.ptr.meta - c.idx)
            self.dep = d; self.p0 = c.pos; self.endp = c.end; self.root = c.root; self.c0 = c
            return

def prim(chk, P, name, spec, inside=False, panics=None, pb=64):
    bs = inherent(P, name)
    if not bs: chk.undecided(name, "not found"); return
    for b in bs:
        h = Prim(chk, where(b) + (" [32-bit]" if pb == 32 else ""), inside)
        if inside: h.summary = use_contract(P)
        I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), ptrbits=pb)
        for x in rs:
            if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
            elif x.kind == "panic":
                if panics is not None: panics(h, I, x, a)
                else: h.ob("no panic", False, "%s in %s" % (x.val, x.where))
            else: spec(h, I, x, a)
        if not rs: chk.undecided(h.where, "no path")

def still(h, x, when="cursor does not move"):
    c = Cur(x.st, h.dep)
    h.ob(when, x.st.num.eq(c.pos, h.p0) and x.st.num.eq(c.end, h.endp), "cursor moves by %r" % x.st.norm(c.pos - h.p0))

def C47(chk):
    chk.rule("each public building block of the decoder, for every input slice, cursor (also beyond the end) and argument: result, cursor movement, when it fails and when it panics, as linear equalities; usize of 64 and of 32 bits")
    for cfg in cfgs("std", "rel"):
        for pb in (64, 32): blocks(chk, prog(JSON, cfg), pb)

def blocks(chk, P, pb):
    def rem(h, I, x, a):
        num = x.st.num; d = h.endp - h.p0
        g = isinstance(x.val, Lin) and (num.eq(x.val, d) and num.prove_ge0(d) or num.eq(x.val, ZERO) and num.prove_ge0(-d))
        h.ob("remaining_len is the unparsed length, 0 beyond the end", g, "%r, unparsed %r" % (x.val, num.norm(d)))
        still(h, x)
    prim(chk, P, "remaining_len", rem, pb=pb)
    def peek(h, I, x, a):
        num = x.st.num
        if is_ok(x.val):
            b = num.byte(x.st.mem[h.root].name, h.p0)
            h.ob("the next byte is returned", num.prove_ge0(h.endp - h.p0 - 1) and isinstance(x.val.f[0], Lin) and num.eq(x.val.f[0], b), "%r" % (x.val,))
        else: h.ob("fails with UnexpectedEof at the end only", num.prove_ge0(h.p0 - h.endp) and variant(x.val) == "UnexpectedEof", "%r" % (x.val,))
        still(h, x)
    prim(chk, P, "peek", peek, pb=pb)
    def eat(h, I, x, a):
        c = Cur(x.st, h.dep); num = x.st.num
        h.ob("eat_some advances the cursor by exactly len", num.eq(c.pos, h.p0 + a[1]) and num.eq(c.end, h.endp), "moves by %r" % num.norm(c.pos - h.p0))
    def eat_panics(h, I, x, a):
        h.ob("eat_some panics on overflow only", x.st.num.prove_ge0(h.c0.idx + a[1] - (1 << pb)), "%s in %s" % (x.val, x.where))
    prim(chk, P, "eat_some", eat, panics=eat_panics, pb=pb)
    def imut(h, I, x, a):
        num = x.st.num
        if is_ok(x.val):
            s = sl(I, x, x.val.f[0])
            h.ob("input_mut is the unparsed input", s is not None and s[2] == h.root and num.eq(s[0], h.p0) and num.eq(s[1], h.endp - h.p0), "%r" % (s,))
        else: h.ob("fails with UnexpectedEof beyond the end only", num.prove_ge0(h.p0 - h.endp - 1) and variant(x.val) == "UnexpectedEof", "%r" % (x.val,))
        still(h, x)
    prim(chk, P, "input_mut", imut, pb=pb)
    def split(h, I, x, a):
        num = x.st.num; n, k = a[1], a[2]; c = Cur(x.st, h.dep)
        s = sl(I, x, x.val)
        h.ob("split_input returns exactly the next len bytes", s is not None and s[2] == h.root and num.eq(s[0], h.p0) and num.eq(s[1], n), "%r" % (s,))
        h.ob("the input continues after the skipped bytes", c.root == h.root and num.eq(c.pos, h.p0 + n + k) and num.eq(c.end, h.endp), "at %r, ends %r" % (num.norm(c.pos - h.p0), c.end))
        h.ob("what was split off is no longer part of the input", num.eq(c.off, c.pos), "input starts at %r, cursor %r" % (c.off, c.pos))
        h.ob("nothing beyond the input is split off", num.prove_ge0(h.endp - h.p0 - n - k), "len %r skip %r of %r" % (n, k, num.norm(h.endp - h.p0)))
    def split_panics(h, I, x, a):
        # index + len + skip > total length covers every overflow: the total length fits in a usize
        h.ob("split_input panics only when asked for more than there is", x.st.num.prove_ge0(h.p0 + a[1] + a[2] - h.endp - 1), "%s in %s" % (x.val, x.where))
    prim(chk, P, "split_input", split, panics=split_panics, pb=pb)
    def token(h, I, x, a):
        num = x.st.num; t = I.leafify(a[1]); c = Cur(x.st, h.dep)
        if is_ok(x.val):
            h.ob("the token is consumed", num.eq(c.pos, h.p0 + t.meta) and num.eq(c.end, h.endp) and num.prove_ge0(h.endp - c.pos), "cursor moves by %r" % num.norm(c.pos - h.p0))
            g = compared(x.st, t, h, True)
            if g is not None: h.ob("a token is accepted only when the input matches it", g, "not decided by comparing the next bytes with the token")
        else:
            still(h, x, "cursor does not move on failure")
            if variant(x.val) == "UnexpectedEof": h.ob("UnexpectedEof only when the input is too short", num.prove_ge0(h.p0 + t.meta - h.endp - 1), "%r" % (x.val,))
            else:
                g = compared(x.st, t, h, False)
                h.ob("a token is refused only when the input does not match it", variant(x.val) == "ExpectedToken" and g is not False, "%r" % (x.val,))
    prim(chk, P, "parse_token_content", token, inside=True, pb=pb)
    for n in range(6): fixed_token(chk, P, n, pb)
    for b in inherent(P, "from_mut_slice"):
        h = Prim(chk, where(b), True); box = {}
        I, rs, a = run(chk, P, b, h, args=lambda I, st, a: box.update(p=I.leafify(a[0])), ptrbits=pb)
        for x in rs:
            if x.kind != "ret" or not is_de(x.val): chk.undecided(h.where, "%r" % (x.val,)); continue
            r = ("H", "r%d" % Opaque(None).id); x.st.mem[r] = x.val
            c = Cur(x.st, Ptr(r)); p = box["p"]
            h.ob("a new deserializer starts at the beginning of the whole input", c.root == p.root and x.st.num.eq(c.pos, p.path[-1][1]) and x.st.num.eq(c.off, c.pos) and x.st.num.eq(c.end, p.path[-1][1] + p.meta), "%r" % (x.val,))

def compared(st, t, h, want):
    """was the decision taken by comparing exactly the next bytes of the input with the whole token? None: not by a comparison of slices"""
    num = st.num; seen = False
    for k, v in st.preds.items():
        if not (isinstance(k, tuple) and k and k[0] == "memcmp"): continue
        seen = True
        for r1, o1, r2, o2 in ((k[1], k[2], k[3], k[4]), (k[3], k[4], k[1], k[2])):
            if r1 == h.root and r2 == t.root and num.eq(o1, h.p0) and num.eq(o2, t.path[-1][1]) and num.eq(k[5], t.meta):
                if num.prove_eq0(v) if want else num.prove_ne0(v): return True
    return False if seen else None

def fixed_token(chk, P, n, pb):
    """the same with a token of n arbitrary bytes: byte by byte"""
    for b in inherent(P, "parse_token_content"):
        h = Prim(chk, where(b) + " [token of %d]%s" % (n, " [32-bit]" if pb == 32 else ""), True)
        def args(I, st, a):
            h.prepare(I, st, a); st.num.assume_eq0(I.leafify(a[1]).meta - n)
        I, rs, a = run(chk, P, b, h, args=args, ptrbits=pb)
        for x in rs:
            if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where)); continue
            if x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where)); continue
            num = x.st.num; t = I.leafify(a[1])
            d = [num.norm(num.byte(x.st.mem[h.root].name, h.p0 + i) - num.byte(x.st.mem[t.root].name, t.path[-1][1] + i)) for i in range(n)]
            if is_ok(x.val): h.ob("a token is accepted only when every byte matches", all(num.prove_eq0(e) for e in d), "accepted, differences %r" % (d,))
            elif variant(x.val) == "ExpectedToken": h.ob("a token is refused only when a byte differs", any(num.prove_ne0(e) for e in d), "refused, differences %r" % (d,))
            else: h.ob("UnexpectedEof only when the input is too short", num.prove_ge0(h.p0 + n - h.endp - 1) and variant(x.val) == "UnexpectedEof", "%r" % (x.val,))

# ------------------------------------------------------------------------------------------------- C56
DECODER = {"from_mut_slice": "StringByteNopeDecoder", "from_mut_slice_hex_bytes": "StringByteHexDecoder", "from_mut_slice_base64_bytes": "StringByteBase64Decoder", "from_mut_slice_with_decoder": None}
ALLDEC = ("StringByteNopeDecoder", "StringByteHexDecoder", "StringByteBase64Decoder")
class DocDe(JDe):
    def __init__(self, chk, where): JDe.__init__(self, chk, where); self.seen = []
    def setup(self, st): JDe.setup(self, st); st.gh["reads"] = ZERO
    def prepare(self, I, st, args): self.inp = I.leafify(args[0])
    def at_nested(self, ctx, dep):
        st = ctx.st
        st.gh["reads"] = st.gh["reads"] + 1
        c = ctx.c
        ts = [ctx.I.T(t).get("s", "") for t in (c.get("args") or []) if isinstance(t, int)] + [ctx.I.T(t).get("s", "") for t in (c.get("atys") or ctx.atys or []) if isinstance(t, int)]
        self.seen.append([t for t in ts if "Deserializer<" in t])

def decoder_of(ts, P): return sorted({k for t in ts for k in ALLDEC if k in t})

def C56(chk):
    chk.rule("each from_mut_slice function: the decoder type of the deserializer handed to the value, and how often it is handed over; each provided decoder: which documented decoding it performs is decided for hex and Base64 by C41/C42, here for the plain decoder by the string specification of C35")
    for cfg in cfgs("std", "nostd"):
        P = prog(JSON, cfg); use_contract(P); found = set()
        for b in P.roots:
            r = b.root
            if r.get("selfs") or r.get("trait") or r["name"] not in DECODER: continue
            found.add(r["name"]); w = "%s[%s]" % (r["name"], cfg)
            h = DocDe(chk, w); h.summary = use_contract(P)
            I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a))
            want = DECODER[r["name"]]
            for x in rs:
                if x.kind == "imprecise": chk.undecided(w, "%s (%s)" % (x.val, x.where))
                elif x.kind == "ret": chk.ob("the value is read exactly once", w, x.st.gh["reads"] == ONE, "%r times" % x.st.gh["reads"])
            for ts in h.seen:
                d = decoder_of(ts, P)
                if not ts: chk.undecided(w, "type of the deserializer not found")
                elif want: chk.ob("the documented byte string decoder is used", w, d == [want], "%s" % ts)
                else: chk.ob("the chosen byte string decoder is used", w, d == [], "%s" % ts)
            if not h.seen: chk.undecided(w, "no value is read")
        for n in DECODER:
            if n not in found: chk.undecided("%s[%s]" % (n, cfg), "not found")
        if cfg == "std":
            for b in plain_decoder(P): str_inherent(chk, P, b, "decode_string_to_bytes")
            if not plain_decoder(P): chk.undecided("StringByteNopeDecoder", "not found")

# ------------------------------------------------------------------------------------------------- C57
WANTED = {JSON: ("human readable", 1), MP: ("not human readable", 0)}
def C57(chk):
    chk.rule("is_human_readable of every serializer and deserializer of a format, own implementation or serde's default (true): MessagePack false, JSON true, on both sides, so that a type with two representations is read as it was written")
    for crate in crates(JSON, MP):
        for cfg in cfgs("std", "alloc", "nostd", "rel"):
            P = prog(crate, cfg); what, want = WANTED[crate]; n = 0
            # every type with a Serializer or Deserializer implementation
            types = {}
            for b in P.roots:
                t = (b.root.get("trait") or "").split("::")[-1]
                if t in ("Serializer", "Deserializer"): types.setdefault((t, (b.root.get("selfs") or "")), []).append(b)
            for (t, s), bs in sorted(types.items()):
                own = [b for b in bs if b.root["name"] == "is_human_readable"]; w = "%s %s as %s[%s]" % (crate, s.replace("'_", ""), t, cfg)
                n += 1
                if not own: chk.ob(what, w, want == 1, "serde's default: human readable"); continue
                for b in own:
                    I, rs, a = run(chk, P, b, DeHandler(None, w) if t == "Deserializer" else SerHandler())
                    for x in rs:
                        if x.kind == "imprecise": chk.undecided(w, "%s (%s)" % (x.val, x.where))
                        else: chk.ob(what, w, x.kind == "ret" and isinstance(x.val, Lin) and x.st.norm(x.val) == L(want), repr(x.val))
            if n < 2: chk.undecided("%s[%s]" % (crate, cfg), "%d serializer and deserializer types found" % n)

CHECKS = {"C47": C47, "C56": C56, "C57": C57}
