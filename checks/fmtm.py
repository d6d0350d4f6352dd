"""What `core::fmt::write` / `ToString::to_string` may do with an arbitrary Display value: any number of pieces of any length, in any
order, then success or failure.  The analysed `fmt::Write` implementation is called for every piece through a small synthetic loop body."""
from .lib import *
from .synth import *

def is_write_impl(b, name="write_str"): return b.root and b.root.get("name") == name and (b.root.get("trait") or "").endswith("fmt::Write")

class FmtMixin:
    """mix into a SerHandler.  ghosts: cnt = bytes of text produced so far in this pass, emi = bytes of it written so far"""
    fmt_bodies = None
    def fmt_setup(self, st):
        st.gh["cnt"] = ZERO; st.gh["emi"] = ZERO; st.gh["fmt"] = None
    def fmt_body(self, P, wb):
        if self.fmt_bodies is None: self.fmt_bodies = {}
        if wb.key in self.fmt_bodies: return self.fmt_bodies[wb.key]
        A = Asm(P, "fmt::write into " + wb.root["selfs"])
        ret, wt, strt = wb.locals[0], wb.locals[1], wb.locals[2]
        A.locals[0] = ret
        w = A.local(wt); s = A.local(strt); c = A.local(A.usize); d = A.local(A.usize); u = A.local(A.usize); r = A.local(ret)
        b0 = A.block(); head = A.block(); sw = A.block(); pc = A.block(); pc2 = A.block(); nb = A.block(); good = A.block(); bad = A.block(); okb = A.block(); errb = A.block(); rt = A.block()
        A.call(b0, A.hook("fmt_start"), [], u, head)
        A.call(head, A.hook("fmt_choice"), [], c, sw)
        A.switch(sw, cp(c), [(0, pc), (1, okb)], errb)
        A.call(pc, A.hook("fmt_piece"), [], s, pc2)
        A.call(pc2, A.callee(wb), [cp(w), cp(s)], r, nb)
        A.assign(nb, [d, []], ["discr", [r, []]])
        A.switch(nb, cp(d), [(0, good)], bad)
        A.call(good, A.hook("fmt_done"), [cp(s)], u, head)
        A.call(bad, A.hook("fmt_err"), [], 0, rt)
        A.call(okb, A.hook("fmt_ok"), [], 0, rt)
        A.call(errb, A.hook("fmt_fail"), [], 0, rt)
        A.term(rt, ["ret"])
        b = A.body(1)
        b.local = False
        self.fmt_bodies[wb.key] = b
        return b
    def fmt_call(self, ctx):
        """-> NotImplemented, or the outcome of a formatting related call"""
        I, st = ctx.I, ctx.st; c = ctx.c; p = c.get("p", ""); n = c.get("name") or p.split("::")[-1]
        if p.startswith("synth::fmt_"): return self.fmt_hook(ctx, n)
        if "fmt::rt::Argument" in p:
            return [(st, Opaque(ctx.dty, ("fmtarg", n, ctx.args[0])))]
        if p.startswith("core::fmt::Arguments") and n in ("new", "new_v1", "new_const", "from_str", "from_str_nonconst"):
            return [(st, Opaque(ctx.dty, ("fmtargs", n)))]
        if p == "core::fmt::write" or p.endswith("fmt::Write::write_fmt"):
            w = I.leafify(ctx.args[0])
            if not isinstance(w, Ptr): return NotImplemented
            v = I.load_raw(st, w.root, w.path)
            k = 0
            while isinstance(v, Ptr) and k < 4: w = v; v = I.load_raw(st, w.root, w.path); k += 1
            tag = v.tag if isinstance(v, Agg) else None
            wbs = [b for b in I.prog.roots if is_write_impl(b) and tag and b.root["selfs"].split("<")[0] == tag]
            if len(wbs) != 1: return NotImplemented
            b = self.fmt_body(I.prog, wbs[0])
            I.push(st, b, [w], ctx.dest, ctx.dty, ctx.target)
            return None
        if n == "to_string" and p.endswith("ToString::to_string"):
            a = st; b = st.copy()
            q = I.new_buf(a, "text%d" % len(SYMS))
            self.text_made(ctx, q)
            return [(a, Opaque(ctx.dty, ("string", q)))]
        if n in ("deref", "as_str", "as_bytes", "borrow", "as_ref") and ctx.args:
            v = I.leafify(ctx.args[0]) if isinstance(ctx.args[0], (Ptr, Agg)) else ctx.args[0]
            if isinstance(v, Ptr): v = I.load_raw(st, v.root, v.path)
            if isinstance(v, Opaque) and isinstance(v.info, tuple) and v.info[0] == "string": return [(st, v.info[1])]
        if n == "len" and ctx.args and isinstance(ctx.args[0], Ptr):
            v = I.load_raw(st, ctx.args[0].root, ctx.args[0].path)
            if isinstance(v, Opaque) and isinstance(v.info, tuple) and v.info[0] == "string": return [(st, v.info[1].meta)]
        return NotImplemented
    def on_local_call(self, ctx, body):
        if "String" in ctx.c.get("rp", "") or "Vec" in ctx.c.get("rp", ""): return self.fmt_call(ctx)
        return NotImplemented
    def text_made(self, ctx, q): pass
    def fmt_hook(self, ctx, n):
        I, st = ctx.I, ctx.st
        if n == "fmt_start":
            st.gh["fmt"] = (st.gh["fmt"] or ()) + (st.gh["trace"],)
            st.gh["trace"] = (); st.gh["cnt"] = ZERO; st.gh["emi"] = ZERO
            return [(st, ZERO)]
        if n == "fmt_choice":
            st.gh["trace"] = ()
            return choice(ctx, 3)
        if n == "fmt_piece":
            q = I.new_buf(st, "piece%d" % len(SYMS))
            return [(st, q)]
        if n == "fmt_done":
            self.piece_done(ctx, ctx.args[0])
            return [(st, ZERO)]
        self.fmt_end(ctx, n)
        if n == "fmt_ok": return [(st, ok(UNIT))]
        return [(st, err(Agg((), "core::fmt::Error")))]
    def piece_done(self, ctx, p):
        st = ctx.st; num = st.num; tr = st.gh["trace"]
        st.gh["cnt"] = num.norm(st.gh["cnt"] + p.meta)
        if tr:
            from .mp_ser import payload_ok
            r = payload_ok(num, tr, p)
            if r is not True: st.gh["badtext"] = r
            st.gh["emi"] = num.norm(st.gh["emi"] + p.meta)
        st.gh["trace"] = ()
    def fmt_end(self, ctx, n):
        st = ctx.st
        pre = st.gh["fmt"][-1]; st.gh["fmt"] = st.gh["fmt"][:-1]
        st.gh["trace"] = pre + (("text", st.gh["cnt"], st.gh["emi"]),)

class FmtHandler(FmtMixin, SerHandler):
    def __init__(self): SerHandler.__init__(self); self.texts = []
    def text_made(self, ctx, q): self.texts.append(q)
    def setup(self, st):
        SerHandler.setup(self, st); self.fmt_setup(st); st.gh["badtext"] = None
        st.gh["pl"] = ZERO; st.gh["passes"] = ()     # length of the piece in hand; (how, length) of the finished passes
    def fmt_hook(self, ctx, n):
        gh = ctx.st.gh
        if n in ("fmt_ok", "fmt_fail"): gh["passes"] += ((n, gh["cnt"]),)
        elif n == "fmt_err": gh["passes"] += ((n, ctx.st.num.norm(gh["cnt"] + gh["pl"])),)
        r = FmtMixin.fmt_hook(self, ctx, n)
        if n == "fmt_piece": gh["pl"] = r[0][1].meta
        elif n in ("fmt_done", "fmt_start"): gh["pl"] = ZERO
        return r
    def other(self, ctx): return self.fmt_call(ctx)
