"""Decoder machinery shared by both formats: where the cursor is, what visitors and nested values may do with the access objects
they are handed (any sequence of calls), and what they were handed."""
from .lib import *
from .synth import Asm, cp, mv, choice

def is_de(v): return isinstance(v, Agg) and v.tag is not None and str(v.tag).split("<")[0].endswith("Deserializer")
def de_fields(v):
    """indices of the input slice and of the cursor in a Deserializer"""
    bi = next(i for i, x in enumerate(v.f) if isinstance(x, Ptr) and x.meta is not None)
    ii = next(i for i, x in enumerate(v.f) if isinstance(x, Lin))
    return bi, ii
def find_de(st, v, depth=0):
    """pointer to the Deserializer reachable from an argument (directly or through an access object)"""
    if depth > 4: return None
    if isinstance(v, Ptr):
        if v.root not in st.mem: return None
        w = st.mem.get(v.root)
        if not v.path and is_de(w): return v
        if not v.path: return find_de(st, w, depth + 1)
        return None
    if isinstance(v, (Agg, Enum)):
        for x in v.f:
            r = find_de(st, x, depth + 1)
            if r is not None: return r
    return None
def skeleton(st, v, depth=0):
    """what is fixed about a value: constants and variants"""
    if isinstance(v, Lin):
        v = st.norm(v); return ("k", v.k) if v.const() else None
    if depth > 3: return None
    if isinstance(v, Enum): return ("e", v.v, v.name, tuple(skeleton(st, x, depth + 1) for x in v.f))
    if isinstance(v, Agg): return ("a", tuple(skeleton(st, x, depth + 1) for x in v.f))
    return None
def impose(I, st, sk, v):
    """the same about an arbitrary value of that type"""
    if sk is None: return v
    if sk[0] == "k": return L(sk[1]) if isinstance(v, Lin) else v
    if sk[0] == "e":
        if isinstance(v, Opaque) and v.ty is not None and I.T(v.ty)["k"] == "enum":
            v = Enum(sk[1], [I.fresh(st, y[1], "%s.%s" % (v.info, sk[2])) for y in I.T(v.ty)["vs"][sk[1]][2]], sk[2])
        if isinstance(v, Enum) and v.v == sk[1] and len(v.f) == len(sk[3]): return Enum(v.v, [impose(I, st, a, b) for a, b in zip(sk[3], v.f)], v.name)
        return v
    if isinstance(v, Agg) and len(v.f) == len(sk[1]): return Agg([impose(I, st, a, b) for a, b in zip(sk[1], v.f)], v.tag)
    return v
class Cur:
    """absolute cursor of a deserializer object"""
    def __init__(self, st, dep):
        v = st.mem[dep.root]
        bi, ii = de_fields(v)
        p = v.f[bi]; self.ptr = p; self.bi = bi; self.ii = ii; self.val = v
        self.root = p.root
        self.off = st.norm(p.path[-1][1]) if p.path else ZERO
        self.idx = st.norm(v.f[ii])
        self.pos = st.norm(self.off + self.idx)
        self.end = st.norm(self.off + p.meta)
def set_cur(st, dep, off, idx, meta):
    c = Cur(st, dep); f = list(c.val.f)
    f[c.bi] = Ptr(c.ptr.root, c.ptr.path[:-1] + (("e", st.norm(off)),), st.norm(meta))
    f[c.ii] = st.norm(idx)
    st.mem[dep.root] = Agg(f, c.val.tag)
def strip_refs(P, ty):
    t = P.types[ty]; n = 0
    while t["k"] == "ref": t = P.types[t["e"]]; n += 1
    return t, n
def access_fns(P, ty, trait):
    """methods of `trait` implemented for the access type: {name: body}"""
    t, n = strip_refs(P, ty)
    if t["k"] != "struct": return None, n
    last = t["path"].split("::")[-1]
    out = {}
    for b in P.roots:
        r = b.root
        if (r.get("trait") or "").split("::")[-1] == trait and r.get("selfs", "").split("<")[0].split("::")[-1] == last: out[r["name"]] = b
    return out, n

class DeHandler(Handler):
    """events: visits, nested deserializations, cursor.  Ghosts: 'ev' trace of events since the last reset."""
    resync = True
    def __init__(self, chk=None, where="", de=None):
        self.chk = chk; self.where = where; self.bodies = {}
        self.depth = 0
    def ob(self, rule, ok_, detail=""):
        if self.chk is not None: self.chk.ob(rule, self.where, ok_, detail)
    def setup(self, st):
        st.gh["ev"] = (); st.gh["cur"] = None; st.gh["n"] = None; st.gh["k"] = ZERO; st.gh["vres"] = None; st.gh["pend"] = None
    def prepare(self, I, st, args):
        """initial states: cursor inside the input"""
        for a in args:
            d = find_de(st, a)
            if d is not None:
                c = Cur(st, d)
                st.num.assume_ge0(c.ptr.meta - c.idx)
                self.dep = d; self.p0 = c.pos; self.endp = c.end; self.root = c.root
                self.started(I, st)
                return
    def started(self, I, st): pass
    def ev(self, st, *e): st.gh["ev"] = st.gh["ev"] + (e,)
    # -------------------------------------------------------- the outside world
    def on_call(self, ctx):
        n = tname(ctx.c); st = ctx.st
        p = ctx.c.get("p", "")
        if p.startswith("synth::"): return self.hook(ctx, ctx.c["name"])
        if n.startswith("Visitor::visit_"): return self.visit(ctx, n[len("Visitor::visit_"):])
        if n in ("DeserializeSeed::deserialize", "Deserialize::deserialize"): return self.nested(ctx, ctx.args[-1])
        if n == "Visitor::expecting": return [(st, ok(UNIT))]
        return self.other(ctx)
    def other(self, ctx): return NotImplemented
    def result(self, ctx, tag):
        """Ok(something) or Err(something) of the outside world"""
        st = ctx.st; s2 = st.copy()
        st.forks += 1; s2.forks += 1
        v = Opaque(None, tag); e = Opaque(None, tag + "-error")
        return (st, ok(v), v), (s2, err(e), e)
    def havoc(self, ctx, st, dep):
        """a nested value consumed some of the input"""
        c = Cur(st, dep)
        p = fresh("pos", 0, None); off = fresh("off", 0, None)
        st.num.assume_ge0(p - c.pos); st.num.assume_ge0(c.end - p)
        st.num.assume_ge0(off - c.off); st.num.assume_ge0(p - off)
        set_cur(st, dep, off, p - off, c.end - off)
        self.consumed(ctx, st, c, p)
    def consumed(self, ctx, st, c, p): pass
    def nested(self, ctx, de):
        I, st = ctx.I, ctx.st
        dep = find_de(st, I.leafify(de))
        if dep is None: raise Imprecise("nested value reads from %r" % (de,))
        self.at_nested(ctx, dep)
        c = Cur(st, dep)
        self.ev(st, "nested", c.pos, ctx.args[0] if len(ctx.args) > 1 else None)
        self.havoc(ctx, st, dep)
        a, b = self.result(ctx, "nested")
        a[0].gh["last"] = a[2]; b[0].gh["last"] = b[2]
        for s in (a[0], b[0]): self.after_nested(ctx, s, dep, s is a[0])
        return [a[:2], b[:2]]
    def at_nested(self, ctx, dep): pass
    def after_nested(self, ctx, st, dep, good): pass
    def visit(self, ctx, name):
        I, st = ctx.I, ctx.st
        self.at_visit(ctx, name, ctx.args[1:])
        if name in ("seq", "map", "enum"):
            return self.drive(ctx, name)
        c = Cur(st, self.dep)
        if name in ("some", "newtype_struct"):
            dep = find_de(st, I.leafify(ctx.args[1]))
            if dep is None: raise Imprecise("visit_%s is not given the deserializer" % name)
            self.ev(st, "visit", name, (dep,), c.pos)
            self.at_nested(ctx, dep)
            self.havoc(ctx, st, dep)
        else:
            self.ev(st, "visit", name, tuple(ctx.args[1:]), c.pos)
        a, b = self.result(ctx, "visitor")
        for s, v in ((a[0], a), (b[0], b)):
            s.gh["vres"] = v[2]; s.gh["vok"] = L(1 if v is a else 0)
            s.gh["cur"] = Cur(s, self.dep).pos
        return [a[:2], b[:2]]
    def at_visit(self, ctx, name, args): pass
    # -------------------------------------------------------- sessions: the visitor drives an access object
    def drive(self, ctx, kind):
        I, st, P = ctx.I, ctx.st, ctx.I.prog
        ty = ctx.atys[1]
        trait = {"seq": "SeqAccess", "map": "MapAccess", "enum": "EnumAccess"}[kind]
        fns, nref = access_fns(P, ty, trait)
        if not fns: raise Imprecise("visit_%s with an unknown access type %s" % (kind, P.types[ty].get("s")))
        self.ev(st, "visit", kind, (ctx.args[1],), Cur(st, self.dep).pos)
        self.drive_start(ctx, kind, fns)
        key = (kind, ty, ctx.dty if isinstance(ctx.dty, int) else None)
        if key not in self.bodies:
            self.bodies[key] = self.seq_body(P, kind, ty, ctx.dty, fns) if kind != "enum" else self.enum_body(P, ty, ctx.dty, fns)
        I.push(st, self.bodies[key], [ctx.args[1]], ctx.dest, ctx.dty, ctx.target)
        return None
    def drive_start(self, ctx, kind, fns): pass
    def ops_of(self, kind, fns):
        if kind == "seq": names = ["next_element_seed", "size_hint"]
        else: names = ["next_key_seed", "next_value_seed", "next_entry_seed", "size_hint"]
        return [(n, fns[n]) for n in names if n in fns]
    def seq_body(self, P, kind, ty, rty, fns):
        A = Asm(P, "visit_" + kind); A.locals[0] = rty
        acc = A.local(ty); n1 = len(A.locals) - 1
        t, nref = strip_refs(P, ty)
        u = A.local(A.usize); c = A.local(A.usize)
        head = A.block(); sw = A.block(); ret = A.block(); okb = A.block(); erb = A.block()
        A.term(ret, ["ret"])
        A.call(head, A.hook("choice"), [], c, sw)
        A.call(okb, A.hook("result_ok"), [], 0, ret)
        A.call(erb, A.hook("result_err"), [], 0, ret)
        targets = []
        self.opn = self.opn if hasattr(self, "opn") else {}
        ops = self.ops_of(kind, fns)
        for i, (name, b) in enumerate(ops):
            first = A.block(); after = A.block(); targets.append((i, first))
            cref = A.local(b.locals[1]); r = A.local(b.locals[0])
            if nref: A.assign(first, [cref, []], ["use", cp(acc)])
            else: A.assign(first, [cref, []], ["ref", "mut" if P.types[b.locals[1]].get("mut") else "shared", [acc, []]])
            rest = [A.local(t) for t in b.locals[2:1 + b.nargs]]
            nb = first
            for x in rest:
                b2 = A.block(); A.call(nb, A.hook("arg"), [], x, b2); nb = b2
            pre = A.block()
            A.call(nb, A.hook("pre:" + name), [], u, pre)
            A.call(pre, A.callee(b), [mv(cref)] + [mv(x) for x in rest], r, after)
            A.call(after, A.hook("post:" + name), [mv(r)], u, head)
        A.switch(sw, cp(c), targets + [(len(ops), okb)], erb)
        self.nchoice = len(ops) + 2
        body = A.body(1)
        body.nchoice = len(ops) + 2
        A.blocks[head]["t"][1]["name"] = "choice:%d" % (len(ops) + 2)
        # entry block must be the head: head is block 0 already
        return body
    def enum_body(self, P, ty, rty, fns):
        A = Asm(P, "visit_enum"); A.locals[0] = rty
        acc = A.local(ty)
        vs = fns["variant_seed"]
        b0 = A.block(); bd = A.block(); good = A.block(); sw = A.block(); ret = A.block(); okb = A.block(); erb = A.block(); pre = A.block()
        A.term(ret, ["ret"])
        seed = A.local(vs.locals[2]); r = A.local(vs.locals[0]); d = A.local(A.usize); u = A.local(A.usize); c = A.local(A.usize)
        A.call(b0, A.hook("arg"), [], seed, pre)
        p2 = A.block()
        A.call(pre, A.hook("pre:variant_seed"), [], u, p2)
        A.call(p2, A.callee(vs), [mv(acc), mv(seed)], r, bd)
        A.assign(bd, [d, []], ["discr", [r, []]])
        bad = A.block()
        A.switch(bd, cp(d), [(0, good)], bad)
        A.call(bad, A.hook("post:variant_seed"), [mv(r)], u, erb)
        tt = P.types[vs.locals[0]]["vs"][0][2][0][1]        # (Value, Variant)
        vt = P.types[tt]["es"][1]
        va = A.local(vt)
        A.assign(good, [va, []], ["use", {"m": [r, [["v", 0], ["f", 0, tt], ["f", 1, vt]]]}])
        g2 = A.block()
        A.call(good, A.hook("variant"), [], u, g2)
        vf, n = access_fns(P, vt, "VariantAccess")
        if not vf: raise Imprecise("unknown variant access type")
        names = ["unit_variant", "newtype_variant_seed", "tuple_variant", "struct_variant"]
        A.call(g2, A.hook("choice:%d" % (len(names) + 1)), [], c, sw)
        A.call(okb, A.hook("result_ok"), [], 0, ret)
        A.call(erb, A.hook("result_err"), [], 0, ret)
        targets = []
        for i, nm in enumerate(names):
            b = vf[nm]
            nb = A.block(); targets.append((i, nb))
            rest = [A.local(t) for t in b.locals[2:1 + b.nargs]]
            for x in rest:
                b2 = A.block(); A.call(nb, A.hook("arg"), [], x, b2); nb = b2
            pr = A.block(); rr = A.local(b.locals[0]); af = A.block()
            A.call(nb, A.hook("pre:" + nm), [], u, pr)
            A.call(pr, A.callee(b), [mv(va)] + [mv(x) for x in rest], rr, af)
            end = A.block()
            A.call(af, A.hook("post:" + nm), [mv(rr)], u, end)
            A.call(end, A.hook("choice:2"), [], c, A.block())
            A.switch(len(A.blocks) - 1, cp(c), [(0, okb)], erb)
        A.switch(sw, cp(c), targets, erb)
        return A.body(1)
    def hook(self, ctx, name):
        st = ctx.st
        if name.startswith("choice:"):
            self.at_choice(ctx)
            return choice(ctx, int(name[7:]))
        if name == "arg": return [(st, ctx.I.fresh(st, ctx.dty, "clientarg"))]
        if name in ("result_ok", "result_err"):
            g = name == "result_ok"
            v = Opaque(None, "visitor" if g else "visitor-error")
            st.gh["vres"] = v; st.gh["vok"] = L(1 if g else 0); st.gh["cur"] = Cur(st, self.dep).pos
            self.drive_end(ctx, g)
            return [(st, ok(v) if g else err(v))]
        if name.startswith("pre:"): self.pre(ctx, name[4:]); return [(st, ZERO)]
        if name.startswith("post:"): self.post(ctx, name[5:], ctx.args[0]); return [(st, ZERO)]
        if name == "variant": self.variant(ctx); return [(st, ZERO)]
        raise Imprecise("hook " + name)
    def at_choice(self, ctx): ctx.st.gh["ev"] = ()
    def drive_end(self, ctx, good): pass
    def pre(self, ctx, name): pass
    def post(self, ctx, name, r): pass
    def variant(self, ctx): pass
