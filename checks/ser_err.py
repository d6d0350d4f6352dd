"""C02: a writer error always fails the serialization, unchanged, with nothing written afterwards (both formats, every writing function)."""
from .lib import *
from .mp_ser import basic
from .fmtm import *

class ErrHandler(FmtHandler):
    """errors of writers (w), nested values and delegated serializer calls (n); bytes written are not recorded"""
    def emit(self, st, items):
        if st.gh.get("err") is not None: self.violate(st, "wrote again after an error")
    def other(self, ctx):
        r = self.fmt_call(ctx)
        if r is not NotImplemented: return r
        n = tname(ctx.c); t = n.split("::")[0]
        st = ctx.st
        if n == "FnOnce::call_once" and ctx.I.T(ctx.dty).get("path") == "core::result::Result": t = "Serialize"
        if n == "Iterator::next":
            s2 = st.copy()
            return [(st, some(ctx.I.fresh(st, ctx.I.T(ctx.dty)["args"][0], "item"))), (s2, NONE)]
        if ctx.c.get("rp", "").startswith("alloc::vec::Vec") and n.endswith(("::new", "::with_capacity", "::default")): return [(st, Opaque(ctx.dty, "vec"))]
        if ctx.c.get("rp", "").startswith("alloc::string::String"):
            if n.endswith(("::new", "::with_capacity", "::default")): return [(st, Opaque(ctx.dty, "string"))]
            if n.endswith("from_utf8_unchecked"): return [(st, Opaque(ctx.dty, "string"))]
            if n.endswith("from_utf8"): s2 = st.copy(); return [(st, ok(Opaque(None, "string"))), (s2, err(Opaque(None, "utf8")))]
        if t in ("Serializer", "ByteEncoder", "SerializeSeq", "SerializeTuple", "SerializeMap", "SerializeStruct", "Serialize"):
            if n.endswith("is_human_readable"): return NotImplemented
            s2 = st.copy(); e = Opaque(None, "nested-error")
            if st.gh.get("err") is not None: self.violate(st, "serialized again after an error"); self.violate(s2, "serialized again after an error")
            self.fail(s2, ("n", e))
            rt = ctx.I.T(ctx.dty)
            okt = rt["vs"][0][2][0][1]
            return [(st, ok(ctx.I.fresh(st, okt, "nested"))), (s2, err(e))]
        return NotImplemented

def unwrap_writer(I, st, v):
    """payload of Err(Error::Writer(e))"""
    if isinstance(v, Enum) and v.f:
        x = v.f[0]
        if isinstance(x, Enum) and x.name == "Writer": return x.f[0]
        return x
    return None

def same(a, b): return isinstance(a, Opaque) and isinstance(b, Opaque) and a.id == b.id

def writing_roots(P):
    for b in P.roots:
        r = b.root; tr = (r.get("trait") or ""); f = b.file or ""
        if not (f.endswith("ser.rs") or f.endswith("base64.rs")): continue
        if any(tr.endswith(x) for x in ("clone::Clone", "PartialEq", "cmp::Eq", "convert::From", "fmt::Debug", "fmt::Display", "hash::Hash", "ser::Error")): continue
        if r["name"] in ("new", "into_inner", "writer", "writer_ref", "is_human_readable"): continue
        if r["name"].startswith("decode") or "lut" in r["name"]: continue
        yield b

def C02(chk):
    chk.rule("for every function of both serializers and every place a writer, nested value or delegated serializer call may fail: the result is an error, "
             "it is that same error (Writer(e) for writer errors, outside string collection), and nothing is written after the failure")
    for crate in crates(MP, JSON):
        for cfg in cfgs("std", "nostd"):
            P = prog(crate, cfg)
            for b in writing_roots(P):
                w = where(b) + ("" if cfg == "std" else "[%s]" % cfg)
                h = ErrHandler()
                def setargs(I, st, a): h.a = a
                I, rs, a = run(chk, P, b, h, args=setargs)
                fmtish = b.root["name"] in ("collect_str", "write_str")
                rt = P.types[b.locals[0]]
                for x in rs:
                    if x.kind == "imprecise": chk.undecided(w, "%s (%s)" % (x.val, x.where)); continue
                    if x.kind == "panic": continue
                    e = x.st.gh.get("err")
                    if e is None: continue
                    if x.st.gh.get("viol"): chk.ob("nothing is written after an error", w, False, x.st.gh["viol"][0]); continue
                    if rt.get("path") != "core::result::Result":
                        chk.ob("an error is reported", w, False, "a write fails but the function returns %s" % rt.get("s")); continue
                    if not is_err(x.val):
                        chk.ob("an error is reported", w, False, "returns %r although a %s failed" % (x.val, "write" if e[0] == "w" else "nested call")); continue
                    chk.ob("an error is reported", w, True, "Err after a failed %s" % ("write" if e[0] == "w" else "nested call"))
                    if fmtish: continue
                    v = x.val.f[0]
                    if e[0] == "n": good = same(v, e[1])
                    elif isinstance(v, Enum): good = v.name == "Writer" and same(v.f[0], e[1])
                    else: good = same(v, e[1]) and "Error<" not in P.types[rt["args"][1]]["s"]
                    chk.ob("the error is passed on unchanged", w, good, "failed with %r, returned %r" % (e, v))
CHECKS = {"C02": C02}
