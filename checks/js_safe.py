"""JSON memory discipline: in-place writes only behind what was read (C44), text handed out is validated UTF-8 (C36), unsafe code (C31)."""
from .lib import *
from .dem import *
from .js_cur import *
from .js_cur import WS, NWS, bname
from .ser_err import ErrHandler, writing_roots

def inputs(I, st, a):
    """input slice of an entry without a deserializer: a mutable byte slice argument"""
    for v in a:
        v = I.leafify(v)
        if isinstance(v, Ptr) and isinstance(st.mem.get(v.root), Buf) and st.mem[v.root].mut: return v
    return None

class Place(Safe):
    """writes into the input land only on bytes of the current value that were read before"""
    dep = None; root = None
    def prepare(self, I, st, args):
        JDe.prepare(self, I, st, args)
        if self.dep is None:
            p = inputs(I, st, args)
            if p is not None:
                self.root = p.root; self.p0 = st.norm(p.path[-1][1]) if p.path else ZERO; self.endp = st.norm(self.p0 + p.meta)
    def seen(self, st, name, last):
        """was some position >= last read?"""
        num = st.num
        for o, s in num.by.get(name, []):
            if num.prove_ge0(o - last) and num.prove_ge0(self.endp - o - 1): return True
        for (bf, x, y, mk) in num.segs:
            if bf == name and num.prove_ge0(y - last - 1): return True
        return False
    def on_dirty_read(self, I, st, buf, off):
        if self.root is not None and buf.name == bname(st, self.root):
            self.ob("input is read before it is overwritten", False, "read at %r, written %r..%r" % (st.norm(off - self.p0), st.norm(buf.dirty[0] - self.p0), st.norm(buf.dirty[1] - self.p0)))
    def on_buf_write(self, I, st, buf, off, n, vals):
        if self.root is None or buf.name != bname(st, self.root): return
        num = st.num
        if num.prove_eq0(n): return
        if isinstance(vals, tuple) and vals[0] == "copy" and isinstance(vals[1], Ptr) and vals[1].root == self.root and num.eq(vals[1].path[-1][1], off): return
        self.ob("nothing before the current value is written", num.prove_ge0(off - self.p0), "write at %r, value starts at %r" % (num.norm(off), self.p0))
        last = num.norm(off + n - 1)
        self.ob("only bytes already read are overwritten", self.seen(st, buf.name, last), "write of %r bytes at %r" % (n, num.norm(off - self.p0)))
    def behind(self, st, pos, what):
        if self.root is None: return
        b = st.mem.get(self.root)
        if isinstance(b, Buf) and b.dirty is not None:
            self.ob("everything written is behind the cursor", st.num.prove_ge0(pos - b.dirty[1]), "%s: written up to %r, cursor at %r" % (what, st.norm(b.dirty[1] - self.p0), st.norm(pos - self.p0)))
    def at_nested(self, ctx, dep): self.behind(ctx.st, Cur(ctx.st, dep).pos, "nested value")
    def at_visit(self, ctx, name, args): self.behind(ctx.st, Cur(ctx.st, self.dep).pos, "visit_" + name)
    def inv(self, st, dep): pass

def place_run(chk, P, b, tag):
    h = Place(chk, where(b) + tag)
    h.summary = use_contract(P)
    h.key = "MapKey<" in (b.root.get("selfs") or "")
    I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "ret" and h.dep is not None and h.dep.root in x.st.mem and is_de(x.st.mem[h.dep.root]) and not is_err(x.val):
            h.behind(x.st, Cur(x.st, h.dep).pos, "on return")
    if rs and all(x.kind != "imprecise" for x in rs): chk.ob("no unread input is overwritten", h.where, True, "%d paths" % len(rs))

def C44(chk):
    chk.rule("every public entry of the decoder and every method of its access objects, for every input and cursor, with and without debug assertions: each write into the input covers only positions at or after the current value's start and not beyond the furthest byte read so far; no byte is read after it was overwritten; everything written lies behind the cursor whenever control leaves the library")
    jobs = []
    for cfg, tag in (("std", ""), ("rel", " [release]")):
        P = prog(JSON, cfg); use_contract(P)
        for b in js_entries(P): jobs.append(lambda c, b=b, P=P, tag=tag: place_run(c, P, b, tag))
    par(chk, jobs)

# ------------------------------------------------------------------------------------------------- unsafe code (C31)
RAW = ("from_raw_parts", "from_raw_parts_mut", "slice_from_raw_parts", "slice_from_raw_parts_mut")
class Mem(Safe):
    """every access is inside the slice the entry was given; slices handed out never overlap the input that is kept"""
    dep = None; root = None
    def prepare(self, I, st, args):
        JDe.prepare(self, I, st, args)
        if self.dep is None:
            p = inputs(I, st, args)
            if p is not None:
                self.root = p.root; self.lo = st.norm(p.path[-1][1]) if p.path else ZERO; self.hi = st.norm(self.lo + p.meta)
        else:
            c = Cur(st, self.dep); self.lo = c.off; self.hi = c.end
    def inside(self, st, root, a, b):
        num = st.num
        if root == self.root: return num.prove_ge0(a - self.lo) and num.prove_ge0(self.hi - b)
        v = st.mem.get(root)
        return isinstance(v, Buf) and num.prove_ge0(a) and num.prove_ge0(v.len - b)
    def access(self, I, st, buf, off, n, what):
        root = ("B", buf.name)
        g = self.inside(st, self.root if self.root is not None and buf.name == bname(st, self.root) else root, off, off + n)
        self.ob("every access is inside the slice", g, "%s of %r bytes at %r, slice %r..%r" % (what, n, st.norm(off), getattr(self, "lo", "?"), getattr(self, "hi", "?")))
    def on_read(self, I, st, buf, off): self.access(I, st, buf, off, ONE, "read")
    def on_dirty_read(self, I, st, buf, off): self.access(I, st, buf, off, ONE, "read")
    def on_buf_write(self, I, st, buf, off, n, vals): self.access(I, st, buf, off, n, "write")
    def on_local_call(self, ctx, body):
        st = ctx.st
        if ctx.fr.body.local and (ctx.c.get("rp") or ctx.c.get("p", "")).split("::")[-1] in RAW:
            p = ctx.I.leafify(ctx.args[0]); n = ctx.I.leafify(ctx.args[1])
            g = isinstance(p, Ptr) and p.path and isinstance(n, Lin) and st.num.prove_ge0(n) and self.inside(st, p.root, p.path[-1][1], p.path[-1][1] + n)
            self.ob("raw slices are inside the original slice", bool(g), "%r, %r bytes" % (p, n))
        return Safe.on_local_call(self, ctx, body)
    def on_unreachable(self, I, st, fr): self.ob("unchecked assumptions hold", False, "reachable in %s" % fr.body.path)
    def on_unsafe(self, I, st, what, p):
        if what == "utf8_unchecked": self.ob("unchecked strings are valid UTF-8", ascii_(I, st, p) or validated(st, p), "%r" % (p,))
        elif what == "uninit-read": self.ob("only initialised bytes are read", False, "")
        elif what == "assume": self.ob("unchecked assumptions hold", False, "%r" % (p,))
    def apart(self, I, st, v, what):
        """slices in v do not overlap the input the deserializer keeps"""
        if self.dep is None or self.dep.root not in st.mem or not is_de(st.mem[self.dep.root]): return
        c = Cur(st, self.dep); num = st.num
        self.ob("the kept input is inside the original slice", self.inside(st, c.root, c.off, c.end), "%r..%r" % (c.off, c.end))
        for p in ptrs(I, v):
            if p.root != self.root or p.meta is None: continue
            a = p.path[-1][1]; b = st.norm(a + p.meta)
            self.ob("slices handed out are inside the original slice", self.inside(st, p.root, a, b), "%s: %r" % (what, p))
            self.ob("slices handed out do not overlap the kept input", num.prove_ge0(c.off - b) or num.prove_ge0(a - c.end) or num.prove_eq0(p.meta), "%s: %r..%r, kept %r..%r" % (what, st.norm(a), b, c.off, c.end))
    def at_visit(self, ctx, name, args):
        if name not in ("seq", "map", "enum", "some", "newtype_struct"): self.apart(ctx.I, ctx.st, Agg(list(args)), "visit_" + name)
    def at_nested(self, ctx, dep): self.apart(ctx.I, ctx.st, None, "nested value")
    def inv(self, st, dep): pass

def ptrs(I, v, depth=0):
    if isinstance(v, Ptr): return [v]
    if isinstance(v, (Agg, Enum)) and depth < 5: return [p for x in v.f for p in ptrs(I, x, depth + 1)]
    return []
def ascii_(I, st, p):
    p = I.leafify(p)
    v = st.mem.get(p.root)
    if not isinstance(v, Buf): return False
    a = p.path[-1][1]; b = st.norm(a + p.meta)
    if st.num.prove_eq0(p.meta): return True
    m = st.num.seg_mask(v.name, a, b)
    return m is not None and (not m or max(m) < 0x80)
def validated(st, p, exact=True):
    """the bytes of p were validated as UTF-8 (exact: as a whole; otherwise as part of a longer validated text)"""
    num = st.num; a = p.path[-1][1]; b = a + p.meta
    for k in st.preds:
        if isinstance(k, tuple) and k and k[0] == "utf8" and k[1] == p.root and k[2]:
            x = k[2][-1][1]; y = x + k[3]
            if num.prove_eq0(a - x) and num.prove_eq0(b - y): return True
            if not exact and num.prove_ge0(a - x) and num.prove_ge0(y - b): return True
    return False

def ub(h, x):
    """the standard library's own statement of an unsafe function's precondition fails"""
    if "precondition" in str(x.where) or "unsafe precondition" in str(x.val): h.ob("unchecked assumptions hold", False, "%s in %s" % (x.val, x.where))
REBORROWS = ("input_mut",)           # borrows the deserializer: nothing else can use the input meanwhile
def mem_run(chk, P, b, tag):
    h = Mem(chk, where(b) + tag)
    h.summary = use_contract(P)
    h.key = "MapKey<" in (b.root.get("selfs") or "")
    I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": ub(h, x)
        elif x.kind == "ret": h.apart(I, x.st, None if b.root["name"] in REBORROWS and not b.root.get("trait") else x.val, "returned")
    if rs and all(x.kind != "imprecise" for x in rs): chk.ob("unsafe code is used within its contract", h.where, True, "%d paths" % len(rs))
class SerMem(ErrHandler):
    """what is written was initialised before"""
    def __init__(self, chk, where): ErrHandler.__init__(self); self.chk = chk; self.where = where
    def ob(self, rule, g, d=""): self.chk.ob(rule, self.where, g, d)
    def on_call(self, ctx):
        n = tname(ctx.c)
        if n in ("SerWrite::write", "SerWrite::write_byte", "SerWrite::write_str"):
            for x in [ctx.args[1]] if n.endswith("byte") else self.bytes_of(ctx, ctx.args[1]):
                if x is None: self.ob("only initialised bytes are read", False, "an unset byte is written"); break
            else: self.ob("only initialised bytes are read", True, "bytes given to the writer")
        return ErrHandler.on_call(self, ctx)
    def on_unreachable(self, I, st, fr): self.ob("unchecked assumptions hold", False, "reachable in %s" % fr.body.path)
    def on_unsafe(self, I, st, what, p):
        if what == "uninit-read": self.ob("only initialised bytes are read", False, "")
        elif what == "assume": self.ob("unchecked assumptions hold", False, "%r" % (p,))
    def on_read(self, I, st, buf, off): self.ob("every access is inside the slice", st.num.prove_ge0(off) and st.num.prove_ge0(buf.len - off - 1), "read at %r of %r" % (st.norm(off), buf.len))

def ser_mem(chk, P, b, tag):
    h = SerMem(chk, where(b) + tag)
    def setargs(I, st, a): h.a = a
    I, rs, a = run(chk, P, b, h, args=setargs, maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": ub(h, x)

def strings(c):
    """unchecked string conversions of the serializer (the analysis of C25)"""
    from .js_ser import C25
    s = Check(c.pid, c.tier, c.level)
    C25(s)
    for r, w, o, d in s.obs:
        if r in ("only text is written", "unchecked strings come from text-only encoders", "the bytes are what the serializer wrote") or o is None: c.ob(r, w, o, d)
    c.fns.update(s.fns); c.paths += s.paths; c.units += s.units

def unsafe_sites(P, cfg):
    """every unsafe block rustc sees in this configuration, with the bodies that contain code of it"""
    from .build import cargo
    rc, msgs, arts, e = cargo(["-p", "ser-write-json"], "-Wunsafe_code" + (" -Cdebug-assertions=off" if cfg == "rel" else ""), "target-unsafe")
    if rc: raise extract.ExtractError("cannot compile ser-write-json: " + e[-1500:])
    out = {}
    for m in msgs:
        if (m.get("code") or {}).get("code") != "unsafe_code": continue
        for s in m["spans"]:
            if s["is_primary"]: out.setdefault((s["file_name"], s["line_start"], s["line_end"]), set()).add(m["message"])
    res = {}
    for (f, a, z) in out:
        base = f.split("/")[-1]; res[(f, a, z)] = set()
        for b in P.bodies.values():
            if b.local and (b.file or "").split("/")[-1] == base and any(a <= l <= z for bl in b.blocks for l in [bl.get("l") or 0] + [x[-1] for x in bl["s"] if isinstance(x[-1], int)]): res[(f, a, z)].add(b.path)
    return res

def C31(chk):
    chk.rule("every public entry of the decoder, every access method, string decoder and base64 function, for every input and cursor, with and without debug assertions: each read and write lies inside the slice the entry was given, raw slices are inside it, slices handed out never overlap the input that is kept, unchecked UTF-8 conversions get ASCII or validated bytes, unreachable code after unchecked unwraps is infeasible")
    chk.rule("every serializer function: each byte given to a writer was initialised; strings built without validation come from encoders proven to write text only")
    chk.rule("every unsafe block rustc's unsafe_code lint reports lies in a function that was analysed")
    jobs = []; Ps = []
    for cfg, tag in (("std", ""), ("rel", " [release]")):
        P = prog(JSON, cfg); use_contract(P); Ps.append((cfg, P))
        for b in js_entries(P) + inherent(P, "split_input"): jobs.append(lambda c, b=b, P=P, tag=tag: mem_run(c, P, b, tag))
        for b in writing_roots(P):
            if not (b.root["name"].startswith("to_string") and not b.root.get("selfs")): jobs.append(lambda c, b=b, P=P, tag=tag: ser_mem(c, P, b, tag))
    jobs.append(strings)
    par(chk, jobs)
    for cfg, P in Ps:
        for (f, a, z), bodies in sorted(unsafe_sites(P, cfg).items()):
            miss = sorted(x for x in bodies if x not in chk.fns)
            w = "%s unsafe block in %s [%s]" % (f, "/".join(sorted(bodies))[:120] or "line %d" % a, cfg)
            if not bodies or miss: chk.undecided(w, "not analysed: %s" % (miss or "no code found"))
            else: chk.ob("every unsafe block is analysed", w, True, "lines %d-%d" % (a, z))

# ------------------------------------------------------------------------------------------------- text (C36)
class TextMixin:
    """no text reaches a visitor or a caller that was not validated"""
    def on_buf_write(self, I, st, buf, off, n, vals):
        # validation does not survive a write
        num = st.num
        for k in list(st.preds):
            if isinstance(k, tuple) and k and k[0] == "utf8" and st.mem.get(k[1]) is not None and getattr(st.mem.get(k[1]), "name", None) == buf.name:
                x = k[2][-1][1]
                if not (num.prove_ge0(off - x - k[3]) or num.prove_ge0(x - off - n)): del st.preds[k]
    def on_unsafe(self, I, st, what, p):
        if what == "utf8_unchecked": self.ob("text made without validation is valid", ascii_(I, st, p) or validated(st, p), "%r" % (p,))
    def text_ok(self, I, st, v):
        """True / False / None for a str"""
        p = I.leafify(v)
        if not isinstance(p, Ptr) or p.meta is None: return None
        if p.root[0] == "K": return True
        return ascii_(I, st, p) or validated(st, p, exact=False)
    def char_ok(self, I, st, v):
        v = st.norm(I.leafify(v)) if isinstance(I.leafify(v), Lin) else None
        if v is None: return None
        if st.num.prove_ge0(L(127) - v): return True
        if v.k == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            nm = SYMS[v.t[0][0]].name if hasattr(SYMS[v.t[0][0]], "name") else repr(symlin(v.t[0][0]))
            for k in st.preds:
                if isinstance(k, tuple) and k and k[0] == "utf8" and "char@%s@" % (k[1],) in nm: return True
        return False
    def at_visit(self, ctx, name, args):
        I, st = ctx.I, ctx.st
        if name in ("str", "borrowed_str", "string"):
            if name == "string" and not isinstance(I.leafify(args[0]), Ptr): return
            g = self.text_ok(I, st, args[0])
            if g is None: self.chk.undecided(self.where, "visit_%s(%r)" % (name, args[0])); return
            self.ob("visited text was validated", g, "visit_%s(%r)" % (name, args[0]))
        elif name == "char":
            g = self.char_ok(I, st, args[0])
            if g is None: self.chk.undecided(self.where, "visit_char(%r)" % (args[0],)); return
            self.ob("visited characters come from validated text", g, "visit_char(%r)" % (args[0],))
    def returned(self, I, P, b, x):
        bad = any(isinstance(k, tuple) and k and k[0] == "badutf8" for k in x.st.preds)
        if bad: self.ob("invalid UTF-8 is an error", is_err(x.val) and not visits(x), "%r after %r" % (x.val, [v[1] for v in visits(x)]))
        t = P.types[b.locals[0]]
        if t.get("path") == "core::result::Result" and is_ok(x.val):
            e = P.types[t["args"][0]]
            if e["k"] == "ref" and P.types[e["e"]]["k"] == "str":
                g = self.text_ok(I, x.st, x.val.f[0])
                if g is None: self.chk.undecided(self.where, "%r" % (x.val,))
                else: self.ob("returned text was validated", g, "%r" % (x.val,))
class JText(TextMixin, Safe):
    def inv(self, st, dep): pass
def text_run(chk, P, b, js):
    from . import mp_cur
    if js:
        h = JText(chk, "json " + where(b)); h.summary = use_contract(P); h.key = "MapKey<" in (b.root.get("selfs") or "")
    else:
        h = type("MText", (TextMixin, mp_cur.Safe), {"inv": lambda s, st, dep: None})(chk, "msgpack " + where(b))
    h.chk = chk
    I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "ret": h.returned(I, P, b, x)
    if rs and all(x.kind != "imprecise" for x in rs): chk.ob("text handed out is validated", h.where, True, "%d paths" % len(rs))

def C36(chk):
    chk.rule("every public entry of both decoders and every access method, for every input, cursor and visitor: a str given to a visitor or returned is a stretch of bytes that str::from_utf8 accepted on this path and that was not written since, or provably ASCII; a char comes out of such text; paths on which validation failed end in an error without a visit")
    from . import mp_cur
    jobs = []
    P = prog(JSON); use_contract(P)
    for b in js_entries(P): jobs.append(lambda c, b=b: text_run(c, P, b, True))
    M = prog(MP)
    for b in mp_cur.de_entries(M): jobs.append(lambda c, b=b: text_run(c, M, b, False))
    par(chk, jobs)

CHECKS = {"C36": C36, "C31": C31, "C44": C44}
