"""Client sessions: small synthetic MIR bodies that call the analysed methods the way any caller may (any number of times, in any
order the protocol allows).  Only the abstract interpreter ever looks at them; loops in them go through the same invariant
inference as loops of the code under analysis."""
from .lib import *

class Asm:
    def __init__(self, P, name="session"):
        self.P = P; self.locals = [None]; self.blocks = []; self.name = name
        self.usize = next(i for i, t in enumerate(P.types) if t["k"] == "int" and t.get("ptr") and not t["signed"])
        self.locals[0] = self.usize
    def local(self, ty):
        self.locals.append(ty); return len(self.locals) - 1
    def block(self):
        self.blocks.append({"s": [], "t": ["unreachable"], "l": 0}); return len(self.blocks) - 1
    def stmt(self, bb, s): self.blocks[bb]["s"].append(s)
    def assign(self, bb, place, rv): self.stmt(bb, ["=", place, rv, 0])
    def ref(self, bb, dst, src): self.assign(bb, [dst, []], ["ref", "mut", [src, []]])
    def term(self, bb, t): self.blocks[bb]["t"] = t
    def callee(self, body): return {"p": body.path, "name": (body.root or {}).get("name", ""), "args": [], "rp": body.path, "rargs": [], "body": body.key}
    def hook(self, name): return {"p": "synth::" + name, "name": name, "args": [], "rp": "synth::" + name, "rargs": []}
    def call(self, bb, callee, args, dst, target):
        self.term(bb, ["call", callee, args, [dst, []], target, self.locals[dst]])
    def switch(self, bb, op, cases, other):
        self.term(bb, ["switch", op, self.usize, [[str(v), b] for v, b in cases], other])
    def body(self, nargs):
        d = {"key": "synth:" + self.name + ":%d" % id(self), "path": "session:" + self.name, "blocks": self.blocks, "locals": self.locals, "nargs": nargs, "file": None, "root": None, "local": False}
        b = Body(self.P, d)
        self.P.bodies[b.key] = b
        return b

def cp(l): return {"c": [l, []]}
def mv(l): return {"m": [l, []]}

def choice(ctx, n):
    """an arbitrary decision of the client"""
    out = []
    for i in range(n):
        s = ctx.st if i == n - 1 else ctx.st.copy()
        s.forks += 1
        out.append((s, L(i)))
    return out

def session(P, start, ops, end, name):
    """start(args..) -> Result<C,E>; then any number of ops on &mut C; then end(C).  ops: list of lists of bodies (called in a row).
    Every call argument beyond the receiver is an unknown of the session."""
    A = Asm(P, name)
    sargs = [A.local(t) for t in start.locals[1:1 + start.nargs]]
    opargs = []
    for seq in ops:
        opargs.append([[A.local(t) for t in b.locals[2:1 + b.nargs]] for b in seq])
    nargs = len(A.locals) - 1
    r0t = start.locals[0]
    ct = P.types[r0t]["vs"][0][2][0][1]
    r0 = A.local(r0t); C = A.local(ct); c = A.local(A.usize); d0 = A.local(A.usize); u = A.local(A.usize)
    b0 = A.block(); b1 = A.block(); b2 = A.block(); b2b = A.block(); head = A.block(); ret = A.block(); fail0 = A.block()
    A.call(b0, A.callee(start), [mv(x) for x in sargs], r0, b1)
    A.assign(b1, [d0, []], ["discr", [r0, []]])
    A.switch(b1, cp(d0), [(0, b2)], fail0)
    A.call(fail0, A.hook("start_failed"), [mv(r0)], u, ret)
    A.assign(b2, [C, []], ["use", {"m": [r0, [["v", 0], ["f", 0, ct]]]}])
    A.call(b2, A.hook("started"), [cp(C)], u, b2b)
    A.term(b2b, ["goto", head])
    A.term(ret, ["ret"])
    targets = []
    for i, seq in enumerate(ops):
        first = cur = A.block(); targets.append((i, first))
        for j, b in enumerate(seq):
            cref = A.local(b.locals[1]); r = A.local(b.locals[0]); d = A.local(A.usize)
            A.ref(cur, cref, C)
            nb = A.block(); good = A.block(); bad = A.block()
            A.call(cur, A.callee(b), [mv(cref)] + [cp(x) for x in opargs[i][j]], r, nb)
            A.assign(nb, [d, []], ["discr", [r, []]])
            A.switch(nb, cp(d), [(0, good)], bad)
            A.call(bad, A.hook("failed_%d" % i), [mv(r)], u, ret)
            cur = good
        A.call(cur, A.hook("done_%d" % i), [cp(C)], u, head)
    e0 = A.block(); e1 = A.block()
    re = A.local(end.locals[0])
    A.call(e0, A.callee(end), [mv(C)], re, e1)
    A.call(e1, A.hook("ended"), [mv(re)], u, ret)
    A.call(head, A.hook("choice"), [], c, None)
    sw = A.block()
    A.blocks[head]["t"][4] = sw
    A.switch(sw, cp(c), targets, e0)
    return A.body(nargs), sargs, opargs

class SessionHandler(SerHandler):
    """bookkeeping common to sessions; subclasses implement the hooks"""
    def __init__(self, chk, where, nops):
        SerHandler.__init__(self); self.chk = chk; self.where = where; self.nops = nops
    def ob(self, rule, ok, detail=""): return self.chk.ob(rule, self.where, ok, detail)
    def other(self, ctx):
        p = ctx.c.get("p", "")
        if p.startswith("synth::"):
            n = ctx.c["name"]; st = ctx.st
            if n == "choice":
                st.gh["trace"] = ()
                self.at_choice(ctx)
                return choice(ctx, self.nops + 1)
            if n == "started": self.started(ctx, ctx.args[0])
            elif n == "start_failed": self.start_failed(ctx, ctx.args[0])
            elif n == "ended": self.ended(ctx, ctx.args[0])
            elif n.startswith("done_"): self.done(ctx, int(n[5:]))
            elif n.startswith("failed_"): self.failed(ctx, int(n[7:]), ctx.args[0])
            return [(st, ZERO)]
        n = tname(ctx.c)
        if n in ("Serializer::serialize_u32", "Serializer::serialize_str"):
            a, b = fork2(ctx, UNIT, "nested-error")
            self.emit(ctx.st, [(n[-3:], ctx.args[1], ctx.args[0])])
            self.fail(b[0], ("n", b[2]))
            return [a, (b[0], b[1])]
        return self.special(ctx)
    def special(self, ctx): return NotImplemented
    def at_choice(self, ctx): pass
    def started(self, ctx, c): pass
    def start_failed(self, ctx, r): pass
    def ended(self, ctx, r): pass
    def done(self, ctx, i): pass
    def failed(self, ctx, i, r): pass

def run_session(chk, P, body, h, setargs, maxpaths=4000):
    I, rs, a = run(chk, P, body, h, args=setargs, maxpaths=maxpaths)
    for x in rs:
        if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": chk.ob("no-panic", h.where, False, "%s in %s" % (x.val, x.where))
    return I, rs
