"""MessagePack: cursor primitives (C16), absence of panics (C17), bounded stack when skipping (C18)."""
from .lib import *
from .dem import *
from .mp_de import cursor, visits, passes_result

class Prim(DeHandler):
    def __init__(self, chk, where, inside=True):
        DeHandler.__init__(self, chk, where); self.inside = inside
    def prepare(self, I, st, args):
        for a in args:
            d = find_de(st, a)
            if d is None and is_de(a):
                # by value: put it in memory
                r = ("H", "de%d" % Opaque(None).id); st.mem[r] = a; d = Ptr(r); self.byval = True
            if d is not None:
                c = Cur(st, d)
                if self.inside: st.num.assume_ge0(c.ptr.meta - c.idx)
                self.dep = d; self.p0 = c.pos; self.endp = c.end; self.root = c.root; self.c0 = c
                return

def prim(chk, P, name, spec, inside=True):
    bs = [b for b in P.find(name) if b.root.get("selfs", "").startswith("de::Deserializer<") and not b.root.get("trait")]
    if not bs: chk.undecided(name, "not found"); return
    for b in bs:
        h = Prim(chk, where(b), inside)
        I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a))
        for x in rs:
            if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
            elif x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where))
            else: spec(h, I, x, a)

def sl(I, x, v):
    p = I.leafify(v)
    return (x.st.norm(p.path[-1][1]) if p.path else ZERO, x.st.norm(p.meta), p.root) if isinstance(p, Ptr) and p.meta is not None else None

def C16(chk):
    chk.rule("each cursor primitive for every input slice and cursor: result and cursor movement as linear equalities; from_slice / from_slice_split_tail for every amount consumed by the value")
    P = prog(MP)
    def end(h, I, x, a):
        num = x.st.num; d = h.endp - h.p0
        if is_ok(x.val): h.ob("end is the unparsed length", num.prove_ge0(d) and num.eq(x.val.f[0], d), "%r, unparsed %r" % (x.val, num.norm(d)))
        else: h.ob("end fails only beyond the input", num.prove_ge0(-d - 1), "%r" % (x.val,))
    prim(chk, P, "end", end, inside=False)
    def rem(h, I, x, a):
        num = x.st.num; d = h.endp - h.p0
        g = isinstance(x.val, Lin) and (num.eq(x.val, d) and num.prove_ge0(d) or num.eq(x.val, ZERO) and num.prove_ge0(-d))
        h.ob("remaining_len is the unparsed length", g, "%r, unparsed %r" % (x.val, num.norm(d)))
        h.ob("cursor does not move", num.eq(cursor(x, h), h.p0), "%r" % cursor(x, h))
    prim(chk, P, "remaining_len", rem, inside=False)
    def peekf(step):
        def f(h, I, x, a):
            num = x.st.num
            if is_ok(x.val):
                b = num.byte(x.st.mem[h.root].name, h.p0)
                h.ob("the next byte is returned", num.prove_ge0(h.endp - h.p0 - 1) and isinstance(x.val.f[0], Lin) and num.eq(x.val.f[0], b), "%r" % (x.val,))
                h.ob("cursor moves by %d" % step, num.eq(cursor(x, h), h.p0 + step), "%r" % num.norm(cursor(x, h) - h.p0))
            else:
                h.ob("fails only at the end", num.prove_ge0(h.p0 - h.endp), "%r" % (x.val,))
                h.ob("cursor does not move on failure", num.eq(cursor(x, h), h.p0), "%r" % num.norm(cursor(x, h) - h.p0))
        return f
    prim(chk, P, "peek", peekf(0), inside=False); prim(chk, P, "fetch", peekf(1), inside=False)
    def iref(h, I, x, a):
        num = x.st.num
        if is_ok(x.val):
            s = sl(I, x, x.val.f[0])
            h.ob("input_ref is the unparsed input", s is not None and s[2] == h.root and num.eq(s[0], h.p0) and num.eq(s[1], h.endp - h.p0), "%r" % (s,))
        else: h.ob("fails only beyond the end", num.prove_ge0(h.p0 - h.endp - 1), "%r" % (x.val,))
        h.ob("cursor does not move", num.eq(cursor(x, h), h.p0), "%r" % cursor(x, h))
    prim(chk, P, "input_ref", iref, inside=False)
    def split(h, I, x, a):
        num = x.st.num; n = a[1]
        if is_ok(x.val):
            s = sl(I, x, x.val.f[0])
            h.ob("split_input returns exactly the next bytes", s is not None and s[2] == h.root and num.eq(s[0], h.p0) and num.eq(s[1], n), "%r" % (s,))
            h.ob("cursor moves by the length", num.eq(cursor(x, h), h.p0 + n), "%r" % num.norm(cursor(x, h) - h.p0))
            h.ob("the rest ends where the input ends", num.eq(Cur(x.st, h.dep).end, h.endp), "%r" % Cur(x.st, h.dep).end)
        else:
            h.ob("fails only when too short", num.prove_ge0(h.p0 + n - h.endp - 1), "%r" % (x.val,))
            h.ob("cursor does not move on failure", num.eq(cursor(x, h), h.p0), "%r" % num.norm(cursor(x, h) - h.p0))
    prim(chk, P, "split_input", split, inside=False)
    # constructor
    for b in [b for b in P.find("from_slice") if b.root.get("selfs", "").startswith("de::Deserializer<")]:
        h = Prim(chk, where(b)); box = {}
        I, rs, a = run(chk, P, b, h, args=lambda I, st, a: box.update(p=I.leafify(a[0])))
        for x in rs:
            if x.kind != "ret" or not is_de(x.val): chk.undecided(h.where, "%r" % (x.val,)); continue
            r = ("H", "r%d" % Opaque(None).id); x.st.mem[r] = x.val
            c = Cur(x.st, Ptr(r)); p = box["p"]
            h.ob("a new deserializer starts at the beginning of the input", c.root == p.root and x.st.num.eq(c.pos, p.path[-1][1]) and x.st.num.eq(c.end, p.path[-1][1] + p.meta), "%r" % (x.val,))
    # whole-slice functions
    for name in ("from_slice", "from_slice_split_tail"):
        bs = [b for b in P.roots if b.root["name"] == name and not b.root.get("selfs") and b.path.split("::")[-2] in ("de", "")] or [b for b in P.roots if b.path in ("de::" + name, name)]
        if not bs: chk.undecided(name, "not found")
        for b in bs:
            h = Outer(chk, name); box = {}
            I, rs, a = run(chk, P, b, h, args=lambda I, st, a: box.update(p=I.leafify(a[0])))
            p = box["p"]; st0 = p.path[-1][1]
            for x in rs:
                if x.kind == "imprecise": chk.undecided(name, "%s (%s)" % (x.val, x.where)); continue
                if x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where)); continue
                num = x.st.num; gh = x.st.gh
                if gh["start"] is None: h.ob("the value is decoded", False, "%r without decoding" % (x.val,)); continue
                h.ob("decoding starts at the beginning of the input", gh["root"] == p.root and num.eq(gh["start"], st0), "at %r" % gh["start"])
                if gh["vok"] == ZERO: h.ob("the value's error is returned", is_err(x.val) and x.val.f[0] == gh["last"], "%r" % (x.val,)); continue
                if not is_ok(x.val): h.ob("a decoded value is returned", False, "%r" % (x.val,)); continue
                v = x.val.f[0]
                used = gh["cur"] - st0
                good = isinstance(v, Agg) and len(v.f) == 2 and v.f[0] == gh["last"]
                h.ob("the decoded value is returned", good, "%r" % (v,))
                if name == "from_slice": h.ob("the number of consumed bytes is returned", isinstance(v.f[1], Lin) and num.eq(v.f[1], used), "%r, consumed %r" % (v.f[1], num.norm(used)))
                else:
                    s = sl(I, x, v.f[1])
                    h.ob("the tail is exactly what follows", s is not None and s[2] == p.root and num.eq(s[0], gh["cur"]) and num.eq(s[0] + s[1], st0 + p.meta), "%r, consumed %r" % (s, num.norm(used)))

class Outer(DeHandler):
    def setup(self, st):
        DeHandler.setup(self, st); st.gh["start"] = None; st.gh["root"] = None; st.gh["last"] = None; st.gh["vok"] = ZERO
    def at_nested(self, ctx, dep):
        st = ctx.st
        if st.gh["start"] is not None: self.ob("the value is decoded once", False, "twice")
        c = Cur(st, dep)
        st.gh["start"] = c.pos; st.gh["root"] = c.root
    def after_nested(self, ctx, st, dep, good):
        st.gh["cur"] = Cur(st, dep).pos; st.gh["vok"] = ONE if good else ZERO

class Safe(Prim):
    """any visitor, any nested value; the cursor must stay inside the input whenever control leaves the library"""
    def at_nested(self, ctx, dep): self.inv(ctx.st, dep)
    def drive_start(self, ctx, kind, fns): self.inv(ctx.st, self.dep)
    def inv(self, st, dep):
        c = Cur(st, dep)
        self.ob("the cursor stays inside the input", st.num.prove_ge0(c.end - c.pos), "cursor %r, end %r" % (c.pos, c.end))

def de_entries(P):
    out = []
    for b in P.roots:
        r = b.root; s = r.get("selfs") or ""
        if not b.path.startswith(("de::", "<de::", "<&mut de::")) and "de::" not in b.path: continue
        tr = (r.get("trait") or "").split("::")[-1]
        if tr == "Deserializer" and "Deserializer<" in s: out.append(b)
        elif not tr and s.startswith("de::Deserializer<") and r.get("reach") and r["name"] != "eat_some": out.append(b)
        elif not s and not tr and r.get("reach"): out.append(b)
    return out

def C17(chk):
    chk.rule("every public entry of the decoder, for every input, cursor inside it, visitor and nested value (sessions with invariants): no panic edge (overflow, index, unwrap, unreachable) is feasible and the cursor stays inside the input; usize of 64 and of 32 bits")
    P = prog(MP)
    for pb in (64, 32):
        for b in de_entries(P):
            h = Safe(chk, where(b) + (" [32-bit]" if pb == 32 else ""))
            I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), ptrbits=pb)
            n = 0
            for x in rs:
                if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
                elif x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where))
                else:
                    n += 1
                    if getattr(h, "dep", None) is not None and h.dep.root in x.st.mem: h.inv(x.st, h.dep)
            h.ob("no panic", True, "%d panic checks decided, %d returning paths" % (I.obl, n)) if rs and all(x.kind == "ret" for x in rs) else None

# ------------------------------------------------------------------------------------------------- C18
def calls_of(P, b):
    for i, blk in enumerate(b.blocks):
        t = blk["t"]
        if t[0] == "call": yield t[1], blk.get("l")
def graph(P, start):
    """bodies reachable from start, with edges"""
    edges = {}; w = [start.key]
    while w:
        k = w.pop()
        if k in edges or k not in P.bodies: continue
        es = []
        for c, l in calls_of(P, P.bodies[k]):
            if c.get("body") in P.bodies: es.append((c["body"], l))
            for a in fnargs(P, c):
                if a in P.bodies: es.append((a, l))
        edges[k] = es; w += [e for e, _ in es]
    return edges
def fnargs(P, c):
    """closures passed as type arguments"""
    out = []
    for a in (c.get("rargs") or []) + (c.get("args") or []):
        if isinstance(a, int):
            t = P.types[a]
            if t["k"] == "closure" and t.get("body"): out.append(t["body"])
    return out
def cycles(edges):
    """strongly connected components with a cycle"""
    idx = {}; low = {}; st = []; on = set(); out = []; n = [0]
    def go(v):
        work = [(v, iter(edges.get(v, ())))]
        idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            for w, _ in it:
                if w not in edges: continue
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w); work.append((w, iter(edges[w]))); break
                elif w in on: low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == u: break
                    if len(comp) > 1 or any(e == u for e, _ in edges[u]): out.append(comp)
    for v in edges:
        if v not in idx: go(v)
    return out

REENTER = ("Visitor::visit_seq", "Visitor::visit_map", "Visitor::visit_enum", "Visitor::visit_some", "Visitor::visit_newtype_struct", "DeserializeSeed::deserialize", "Deserialize::deserialize")
def stack(chk, P, b):
    edges = graph(P, b); w = where(b)
    cs = cycles(edges)
    for comp in cs:
        chk.ob("no recursion while skipping", "%s: %s" % (w, " / ".join(sorted(P.bodies[k].path for k in comp))), False, "call cycle %s" % " -> ".join(P.bodies[k].path for k in comp))
    if not cs: chk.ob("no recursion while skipping", w, True, "%d functions in the call graph, acyclic" % len(edges))
    bad = []
    for k in edges:
        body = P.bodies[k]
        for c, l in calls_of(P, body):
            if tname(c) in REENTER: bad.append((body, tname(c), l))
            if c.get("p") == "<indirect>": chk.undecided(w, "indirect call in %s" % body.path)
        if body.local: chk.fns[body.path] = 0
    for body, n, l in bad:
        chk.ob("nested values are not handed to the visitor while skipping", "%s: %s" % (w, n), False, "%s calls %s (line %s): the visitor re-enters the decoder once per nesting level" % (body.path, n, l))
    if not bad: chk.ob("nested values are not handed to the visitor while skipping", w, True, "no re-entrant call in %d functions" % len(edges))
    chk.units += 1; chk.paths += sum(len(e) for e in edges.values())

def C18(chk):
    chk.rule("call graph of the skipping entry points (all resolved calls, generic callbacks included): acyclic, and no call through which the decoder could be re-entered per nesting level")
    P = prog(MP)
    for name in ("deserialize_ignored_any", "eat_message"):
        bs = [b for b in P.find(name) if "Deserializer<" in b.root["selfs"]]
        if not bs: chk.undecided(name, "not found")
        for b in bs: stack(chk, P, b)

CHECKS = {"C16": C16, "C17": C17, "C18": C18}
