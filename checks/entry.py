"""C55: the entry functions and constructors of both serializers: which serializer, which encoder, which writer, what is returned."""
from .lib import *
from .ser_err import same

WANT = {MP: {"to_vec": "StructMapIdxSerializer", "to_vec_compact": "CompactSerializer", "to_vec_named": "StructMapStrSerializer",
             "to_writer": "StructMapIdxSerializer", "to_writer_compact": "CompactSerializer", "to_writer_named": "StructMapStrSerializer"},
        JSON: {"to_string": "ArrayByteEncoder", "to_string_hex_bytes": "HexStrByteEncoder", "to_string_base64_bytes": "Base64ByteEncoder", "to_string_pass_bytes": "PassThroughByteEncoder",
               "to_writer": "ArrayByteEncoder", "to_writer_hex_bytes": "HexStrByteEncoder", "to_writer_base64_bytes": "Base64ByteEncoder", "to_writer_pass_bytes": "PassThroughByteEncoder",
               "to_writer_with_encoder": None}}
HARMLESS = ("new", "with_capacity", "default", "reserve", "reserve_exact", "try_reserve", "shrink_to_fit", "capacity", "len", "is_empty")
ALL = ("StructMapIdxSerializer", "StructMapStrSerializer", "CompactSerializer", "ArrayByteEncoder", "HexStrByteEncoder", "Base64ByteEncoder", "PassThroughByteEncoder")

class Text(Opaque):
    __slots__ = ("src",)
    def __init__(self, src): Opaque.__init__(self, None, "string"); self.src = src

def leaves(I, v):
    v = I.leafify(v)
    if isinstance(v, Agg):
        out = []
        for x in v.f: out += leaves(I, x)
        return out
    return [v]

class EntryHandler(SerHandler):
    def __init__(self, c, w): SerHandler.__init__(self); self.c = c; self.w = w
    def setup(self, st):
        SerHandler.setup(self, st)
        st.gh["calls"] = (); st.gh["touched"] = ()
    def on_serialize(self, ctx):
        I, st = ctx.I, ctx.st
        s = I.leafify(ctx.args[1]); out = None; name = ""
        if isinstance(s, Ptr):
            v = I.load(st, s.root, s.path)
            out = [x for x in leaves(I, v) if not (isinstance(x, Agg) and not x.f)]
            out = out[0] if len(out) == 1 else None
        at = out
        for _ in range(4):
            if not isinstance(at, Ptr) or at.root not in st.mem: break
            at = I.leafify(I.load(st, at.root, at.path))
        t = I.T(ctx.c["args"][1]) if ctx.c.get("args") and len(ctx.c["args"]) > 1 else {}
        name = t.get("s") or ""
        s2 = st.copy(); e = Opaque(None, "nested-error")
        for q, r in ((st, "ok"), (s2, "err")): q.gh["calls"] = q.gh["calls"] + ((ctx.args[0], name, out, at, r, e),)
        return [(st, ok(UNIT)), (s2, err(e))]
    def other(self, ctx):
        c = ctx.c; p = c.get("rp") or c.get("p") or ""; n = c.get("name") or p.split("::")[-1]; st = ctx.st; I = ctx.I
        if p.startswith("alloc::vec::Vec") or "alloc::vec::Vec" in (c.get("implself") or ""):
            if n in ("new", "with_capacity", "default"): return [(st, Opaque(ctx.dty, "vec"))]
            if n not in HARMLESS: st.gh["touched"] = st.gh["touched"] + (n,)
            return [(st, I.fresh(st, ctx.dty, n))]
        if p.startswith("alloc::string::String"):
            if n == "from_utf8_unchecked": return [(st, Text(ctx.args[0]))]
            if n == "from_utf8":
                s2 = st.copy(); s2.gh["badtext"] = True
                return [(st, ok(Text(ctx.args[0]))), (s2, err(Opaque(None, "utf8")))]
            st.gh["touched"] = st.gh["touched"] + (n,)
        return NotImplemented

def entry(c, P, crate, cfg, b):
    name = b.root["name"]; w = "%s %s[%s]" % ({MP: "msgpack", JSON: "json"}[crate], name, cfg)
    want = WANT[crate][name]
    h = EntryHandler(c, w)
    I, rs, a = run(c, P, b, h)
    owned = name.startswith(("to_vec", "to_string")); n = 0
    for x in rs:
        if x.kind == "imprecise": c.undecided(w, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": c.ob("no panic", w, False, "%s in %s" % (x.val, x.where)); continue
        n += 1; st = x.st; calls = st.gh["calls"]
        c.ob("the value is serialized exactly once", w, len(calls) == 1, "%d times" % len(calls))
        if len(calls) != 1: continue
        v, s, out, o, r, e = calls[0]
        v0 = I.leafify(a[0] if owned else a[1]); v = I.leafify(v)
        c.ob("the given value is serialized", w, isinstance(v, Ptr) and isinstance(v0, Ptr) and v.root == v0.root and v.path == v0.path, "%r, given %r" % (v, v0))
        if want is not None:
            used = [k for k in ALL if k in s]
            c.ob("the documented serializer is used", w, used == [want], "%s" % s)
        else:
            c.ob("the chosen encoder is used", w, not [k for k in ALL if k in s], "%s" % s)
        if r == "err":
            c.ob("an error is passed on", w, is_err(x.val) and same(I.leafify(x.val.f[0]), e), "%r" % (x.val,)); continue
        if is_err(x.val):
            c.ob("fails only when serializing fails or the text is invalid", w, bool(st.gh.get("badtext")), "%r" % (x.val,)); continue
        if st.gh.get("badtext"): c.ob("invalid text is refused", w, False, "%r" % (x.val,)); continue
        if not owned:
            g = I.leafify(a[0])
            c.ob("the given writer is written to", w, out is not None and (repr(out) == repr(g) or repr(o) == repr(g)), "%r, given %r" % (out, g)); continue
        got = I.leafify(x.val.f[0]) if is_ok(x.val) else None
        if isinstance(got, Text): got = I.leafify(got.src)
        if not isinstance(got, Opaque): c.undecided(w, "returns %r" % (x.val,)); continue
        c.ob("returns the buffer that was written", w, isinstance(o, Opaque) and o.id == got.id, "returns %r, wrote to %r" % (got, out))
        c.ob("nothing else changes what was written", w, not st.gh["touched"], "%s" % (st.gh["touched"],))
    if not n: c.undecided(w, "no path")

CFG = ("std", "alloc", "nostd")
def inherent(P):
    for b in P.roots:
        r = b.root
        if r.get("trait") or r["name"] not in ("new", "into_inner", "writer", "writer_ref"): continue
        s = (r.get("selfs") or "").split("<")[0].split("::")[-1]
        if s.endswith("Serializer") and s != "SeqMapSerializer": yield b

def ctor(c, P, crate, cfg, b):
    w = where(b) + "[%s]" % cfg; name = b.root["name"]; box = {}
    h = EntryHandler(c, w)
    def pre(I, st, a):
        v = a[0]
        if name.startswith("writer"): v = I.load(st, I.leafify(v).root, I.leafify(v).path)
        box["o"] = leaves(I, v)
    I, rs, a = run(c, P, b, h, pre=pre)
    for x in rs:
        if x.kind != "ret": c.undecided(w, "%s (%s)" % (x.val, x.where)); continue
        v = x.val
        if name.startswith("writer"):
            p = I.leafify(v); s = I.leafify(a[0])
            c.ob("gives access to the serializer's own writer", w, isinstance(p, Ptr) and p.root == s.root, "%r" % (v,))
            v = I.load(x.st, p.root, p.path)
        L_ = [y for y in leaves(I, v) if not (isinstance(y, Agg) and not y.f)]
        o = [y for y in box["o"] if not (isinstance(y, Agg) and not y.f)]
        c.ob("holds and returns the given writer", w, repr(L_) == repr(o), "%r, given %r" % (L_, o))

def C55(chk):
    chk.rule("every to_vec/to_string/to_writer function: one serialization of the given value, by the documented serializer or byte encoder, into the given writer or a fresh buffer that is returned unchanged; errors are passed on; constructors and writer accessors are the identity on the writer")
    jobs = []
    for crate in crates(MP, JSON):
        for cfg in cfgs(*CFG):
            P = prog(crate, cfg); seen = set()
            for b in P.roots:
                if not b.root.get("selfs") and not b.root.get("trait") and b.root["name"] in WANT[crate]:
                    seen.add(b.root["name"])
                    jobs.append(lambda c, P=P, crate=crate, cfg=cfg, b=b: entry(c, P, crate, cfg, b))
            for n in WANT[crate]:
                if n not in seen and (cfg != "nostd" or n.startswith("to_writer")): chk.undecided("%s[%s]" % (n, cfg), "not found")
            for b in inherent(P): jobs.append(lambda c, P=P, crate=crate, cfg=cfg, b=b: ctor(c, P, crate, cfg, b))
    par(chk, jobs)

CHECKS = {"C55": C55}
