"""Event handlers shared by the checks: what the outside world (writers, nested Serialize/Deserialize values, visitors) may do."""
from .dom import *
from .interp import *
from .models import ok, err, some, NONE, slice_key

class Violation(Exception): pass

def tname(c):
    """'SerWrite::write' style short name of a callee"""
    p = c.get("p", "").split("::")
    return "::".join(p[-2:])

def fork2(ctx, okv, what):
    """Ok(okv) / Err(opaque)"""
    I, st = ctx.I, ctx.st
    s2 = st.copy()
    e = Opaque(None, what)
    return (st, ok(okv)), (s2, err(e), e)

class SerHandler(Handler):
    """records the bytes written in gh['trace']; items: Lin byte | ('seg', root, off, len) | ('val', opaque id) | ..."""
    def __init__(self): self.viol = []
    def setup(self, st):
        st.gh["trace"] = (); st.gh["err"] = None
    def violate(self, st, msg):
        v = st.gh.get("viol") or ()
        st.gh["viol"] = v + (msg,)
    def emit(self, st, items):
        if st.gh.get("err") is not None: self.violate(st, "write after an error")
        st.gh["trace"] = st.gh["trace"] + tuple(items)
    def bytes_of(self, ctx, p):
        I, st = ctx.I, ctx.st
        p = I.leafify(p)
        n = st.norm(p.meta)
        if n.const() and n.k <= 64:
            v = I.load_raw(st, p.root, p.path[:-1])
            return [I.leafify(I.load(st, p.root, p.path[:-1] + (("e", st.norm(p.path[-1][1] + i)),))) for i in range(n.k)]
        return [("seg", p.root, st.norm(p.path[-1][1]), n)]
    def fail(self, st, e):
        st.gh["err"] = e
    def on_call(self, ctx):
        n = tname(ctx.c); I, st = ctx.I, ctx.st
        if n in ("SerWrite::write", "SerWrite::write_byte", "SerWrite::write_str"):
            items = [ctx.args[1]] if n.endswith("byte") else self.bytes_of(ctx, ctx.args[1])
            a, b = fork2(ctx, UNIT, "writer-error")
            s2 = b[0]
            if s2.gh.get("err") is not None: self.violate(s2, "write after an error")
            self.fail(s2, ("w", b[2]))
            self.emit(st, items)
            return [a, (b[0], b[1])]
        if n == "Serialize::serialize":
            return self.on_serialize(ctx)
        return self.other(ctx)
    def other(self, ctx): return NotImplemented
    def on_serialize(self, ctx):
        """nested value: Ok(opaque) after writing something, or Err(opaque)"""
        I, st = ctx.I, ctx.st
        a, b = fork2(ctx, UNIT, "nested-error")
        self.emit(st, [("val", ctx.args[0], ctx.args[1])])
        s2 = b[0]
        if s2.gh.get("err") is not None: self.violate(s2, "write after an error")
        self.fail(s2, ("n", b[2]))
        return [(a[0], a[1]), (b[0], b[1])]
