"""Error values: what they keep of what they were made from, and what they say when displayed."""
from .lib import *

KEEPS = ("SerializeError", "DeserializeError")

class Shown(SerHandler):
    """ghost: out = what reached the formatter, in order: ("text", bytes) | ("value", pointer)"""
    def setup(self, st): SerHandler.setup(self, st); st.gh["out"] = ()
    def both(self, ctx):
        st = ctx.st; s2 = st.copy(); s2.gh["err"] = "formatter"
        return [(st, ok(UNIT)), (s2, err(Agg((), "core::fmt::Error")))]
    def base(self, I, st, p):
        p = I.leafify(p)
        for _ in range(6):
            v = I.load_raw(st, p.root, p.path) if isinstance(p, Ptr) and p.meta is None else None
            if not isinstance(v, Ptr): return p
            p = v
        return p
    def out(self, ctx, e): ctx.st.gh["out"] += (e,)
    def text(self, ctx, p):
        bs = [ctx.st.norm(x) if isinstance(x, Lin) else x for x in self.bytes_of(ctx, p)]
        self.out(ctx, ("text", bytes(x.k for x in bs)) if all(isinstance(x, Lin) and x.const() for x in bs) else ("value", self.base(ctx.I, ctx.st, p)))
    def fmt_call(self, ctx):
        p = ctx.c.get("p", ""); n = ctx.c.get("name"); I, st = ctx.I, ctx.st
        if "fmt::rt::Argument" in p and ctx.args: return [(st, Opaque(ctx.dty, ("arg", self.base(I, st, ctx.args[0]))))]
        if p.startswith("core::fmt::Arguments"):
            if n == "as_str" or n == "as_statically_known_str": return NotImplemented
            got = []
            for a in ctx.args[1:]: got += self.arguments(I, st, a)
            return [(st, Opaque(ctx.dty, ("args", tuple(got))))]
        if p.startswith("alloc::fmt::format"):
            a = ctx.args[0]
            q = a.info[1] if isinstance(a, Opaque) and isinstance(a.info, tuple) and a.info[0] == "args" else ()
            return [(st, Opaque(ctx.dty, ("string", q[0] if q else None)))]
        if n == "new" and "string::String" in p: return [(st, Opaque(ctx.dty, ("string", None)))]
        if n == "to_string": return [(st, Opaque(ctx.dty, ("string", self.base(I, st, ctx.args[0]))))]
        return NotImplemented
    def arguments(self, I, st, a, d=0):
        if d > 4: return []
        if isinstance(a, Opaque) and isinstance(a.info, tuple) and a.info[0] == "arg": return [a.info[1]]
        if isinstance(a, Ptr):
            if a.path and a.path[-1][0] == "e": return self.arguments(I, st, I.load_raw(st, a.root, a.path[:-1]), d + 1)
            return self.arguments(I, st, I.load_raw(st, a.root, a.path), d + 1)
        if isinstance(a, Agg): return [y for x in a.f for y in self.arguments(I, st, x, d + 1)]
        return []
    def other(self, ctx):
        n = tname(ctx.c); p = ctx.c.get("p", ""); nm = ctx.c.get("name"); I, st = ctx.I, ctx.st
        if "Formatter" in p or "fmt::Write::" in p:
            if nm in ("write_str", "pad"): self.text(ctx, ctx.args[1]); return self.both(ctx)
            if nm == "write_fmt":
                a = ctx.args[1]
                if not (isinstance(a, Opaque) and isinstance(a.info, tuple) and a.info[0] == "args"): return NotImplemented
                for q in a.info[1]: self.out(ctx, ("value", q))
                if not a.info[1]: self.out(ctx, ("text", b"?"))
                return self.both(ctx)
        if n in ("Display::fmt", "Debug::fmt") and not ctx.c.get("body"):
            self.out(ctx, ("value", self.base(I, st, ctx.args[0]))); return self.both(ctx)
        return self.fmt_call(ctx)
    def on_local_call(self, ctx, body):
        if tname(ctx.c) == "Display::fmt": self.out(ctx, ("value", self.base(ctx.I, ctx.st, ctx.args[0]))); return self.both(ctx)
        return self.fmt_call(ctx)

def named(v): return v.name if isinstance(v, Enum) else None
def mine(b): return (b.root.get("selfs") or "").split("<")[0].endswith("Error")

def shown(c, P, b, cfg):
    w = where(b) + "[%s]" % cfg; h = Shown(); seen = {}
    I, rs, a = run(c, P, b, h)
    for x in rs:
        if x.kind == "imprecise": c.undecided(w, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": c.ob("no panic", w, False, "%s in %s" % (x.val, x.where)); continue
        st = x.st; p = I.leafify(a[0]); e = I.load(st, p.root, p.path)
        v = named(e); out = st.gh["out"]
        if isinstance(x.val, Cond) or not (is_ok(x.val) or is_err(x.val)): c.undecided(w, "returns %r" % (x.val,)); continue
        if st.gh["err"] is not None:
            c.ob("a failing formatter is reported", w, is_err(x.val), "%r for %s" % (x.val, v)); continue
        c.ob("displaying an error succeeds", w, is_ok(x.val), "%r for %s" % (x.val, v))
        c.ob("every error is described", w, any(k == "value" or t for k, t in out), "nothing is written for %s" % (v or "the error"))
        if isinstance(e, Enum) and e.f:
            inside = [t for k, t in out if k == "value"]
            c.ob("what the error carries is shown", w, bool(inside), "%s writes only %r" % (v, out))
        if v is not None and not (isinstance(e, Enum) and e.f):
            t = tuple(out)
            c.ob("each kind of error has its own description", w, seen.setdefault(repr(t), v) == v, "%s and %s both read %r" % (seen.get(repr(t)), v, out))

def custom(c, P, b, cfg):
    w = where(b) + "[%s]" % cfg; h = Shown()
    I, rs, a = run(c, P, b, h)
    for x in rs:
        if x.kind == "imprecise": c.undecided(w, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": c.ob("no panic", w, False, "%s in %s" % (x.val, x.where)); continue
        v = x.val
        c.ob("a caller's error is marked as one", w, named(v) in KEEPS, "%r" % (v,))
        if not (isinstance(v, Enum) and v.f): continue
        m = v.f[0]
        good = isinstance(m, Opaque) and isinstance(m.info, tuple) and m.info[0] == "string" and same(I, x.st, m.info[1], a[0])
        c.ob("a caller's message is kept", w, good, "%r" % (v,))
def same(I, st, p, v):
    """p leads to v, which was passed by value"""
    if p is v or isinstance(p, Opaque) and isinstance(v, Opaque) and p.id == v.id: return True
    if isinstance(p, Ptr):
        q = I.load_raw(st, p.root, p.path)
        return isinstance(q, Opaque) and isinstance(v, Opaque) and q.id == v.id
    return False

INTO = {"Utf8Error": "InvalidUnicodeCodePoint", "ParseFloatError": "InvalidNumber", "ParseIntError": "InvalidNumber", "TryFromIntError": "InvalidInteger"}
def into(c, P, b, cfg):
    w = where(b) + "[%s]" % cfg; h = Shown()
    if b.path.endswith("From<!>>::from"): return        # nothing to convert
    I, rs, a = run(c, P, b, h)
    for x in rs:
        if x.kind == "imprecise": c.undecided(w, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": c.ob("no panic", w, False, "%s in %s" % (x.val, x.where)); continue
        v = x.val
        if P.crate == CORE: c.ob("a full container is BufferFull", w, named(v) == "BufferFull", "%r" % (v,)); continue
        if "ser::" in b.root["selfs"]: c.ob("a writer error is kept", w, named(v) == "Writer" and bool(v.f) and same(I, x.st, v.f[0], a[0]), "%r" % (v,)); continue
        for k, want in INTO.items():
            if k in b.path: c.ob("a conversion names the cause", w, named(v) == want, "%r for a %s" % (v, k))

def C62(chk):
    chk.rule("every Display implementation, custom constructor and conversion of the error types, for every variant: a caller's message and a writer's error are kept and shown, every variant writes a description of its own, a failing formatter is reported")
    jobs = []
    for cr, cs in ((JSON, ("std", "alloc", "nostd")), (MP, ("std", "alloc", "nostd")), (CORE, ("foreign", "nostd"))):
        for cfg in cfgs(*cs):
            P = prog(cr, cfg); n = 0
            for b in P.find("fmt"):
                if mine(b) and (b.root.get("trait") or "").endswith("fmt::Display"): n += 1; jobs.append(lambda c, P=P, b=b, cfg=cfg: shown(c, P, b, cfg))
            for b in P.find("custom"):
                if mine(b): n += 1; jobs.append(lambda c, P=P, b=b, cfg=cfg: custom(c, P, b, cfg))
            for b in P.find("from"):
                if mine(b): jobs.append(lambda c, P=P, b=b, cfg=cfg: into(c, P, b, cfg))
            if not n: chk.undecided("%s[%s]" % (cr, cfg), "no error type found")
    par(chk, jobs)
CHECKS = {"C62": C62}
