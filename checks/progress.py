"""Termination: every loop of both formats makes progress (C48)."""
from .lib import *
from .dem import *
from .js_cur import JDe, use_contract, Safe as Safe_
from engine import loops
RULE = "the loop terminates"
def observer(I, body, head, edges, bufs):
    c = getattr(I, "chk", None)
    if c is None or body.path.startswith("session:"): return       # what visitors and Display implementations do is theirs
    g, why = loops.ranking(edges, bufs)
    blk = body.blocks[head]
    c.ob(RULE, "%s:%s" % (body.path, "local" if body.local else "std"), g, "%s [line %s, %d rounds]" % (why, blk.get("l"), len(edges)))
def watch(chk, f):
    """run another check's analyses and keep what the observer reports"""
    c = Check(chk.pid, chk.tier, chk.level)
    loops.OBSERVER = observer
    try: f(c)
    finally: loops.OBSERVER = None
    for o in c.obs:
        if o[0] == RULE: chk.obs.append(o)
    for k, v in c.fns.items(): chk.fns[k] = chk.fns.get(k, 0) + v
    chk.units += c.units; chk.paths += c.paths

class Enter(JDe):
    """where the cursor is whenever a container is handed to a visitor"""
    def drive(self, ctx, kind):
        I, st = ctx.I, ctx.st
        acc = ctx.args[1]; dep = find_de(st, I.leafify(acc))
        if dep is None: raise Imprecise("visit_%s: no deserializer in the access object" % kind)
        if kind != "enum":          # an enum's content comes after its tag, which the access object reads as a value (C12, C13)
            c = Cur(st, dep)
            self.ob("a container consumes input before its content is read", st.num.prove_ge0(c.pos - self.p0 - 1), "visit_%s at %r, entered at %r" % (kind, c.pos, self.p0))
        return JDe.drive(self, ctx, kind)

def enter(c, P, b, key):
    h = Enter(c, where(b)); h.summary = use_contract(P) if P.crate == JSON else None
    h.key = key
    I, rs, a = run(c, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), maxpaths=8000)
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where))

ACCESS = ("SeqAccess", "MapAccess")
def access(c, P, name, bs):
    """methods of one access type: every element or key it gives out brings it closer to the end"""
    edges = []; imprecise = None; w = "%s as %s" % (name[1].split("<")[0], name[0])
    for b in bs:
        n = b.root["name"]
        if n not in ("next_element_seed", "next_key_seed", "next_entry_seed"): continue
        todo = [()]
        while todo:
            pick = todo.pop()
            h = Safe_(None, where(b)); h.summary = use_contract(P) if P.crate == JSON else None; box = {}
            def args(I, st, a):
                h.prepare(I, st, a)
                p = I.leafify(a[0]); v = st.mem.get(p.root) if isinstance(p, Ptr) else None
                if isinstance(v, Agg):
                    # decide optional fields of the access object up front
                    f = list(v.f); k = 0
                    for i, x in enumerate(f):
                        if isinstance(x, Opaque) and x.ty is not None and I.T(x.ty)["k"] == "enum":
                            vs = I.T(x.ty)["vs"]
                            if k == len(pick):
                                if k == len(pick) and len(pick) < 3: todo.extend(pick + (j,) for j in range(1, len(vs)))
                                j = 0
                                box["pick"] = True
                            else: j = pick[k]
                            k += 1
                            f[i] = Enum(j, [I.fresh(st, y[1], "%s.%s" % (x.info, vs[j][0])) for y in vs[j][2]], vs[j][0])
                    st.mem[p.root] = Agg(f, v.tag)
                box["src"] = loops.named(I, st)
            I, rs, a = run(c, P, b, h, args=args, maxpaths=8000)
            for x in rs:
                if x.kind == "imprecise": imprecise = "%s (%s)" % (x.val, x.where); continue
                if x.kind != "ret" or not is_ok(x.val): continue
                v = x.val.f[0]
                if not (isinstance(v, Enum) and v.name == "Some"): continue
                src = dict(box["src"]); dst = loops.named(I, x.st)
                names = {k[0][1].split("#")[0] for k in src}
                ren = lambda d: {((k[0][0], k[0][1].split("#")[0]),) + k[1:]: v for k, v in d.items() if k[0][0] == "H"}
                src, dst = ren(src), ren(dst)
                shape = lambda d: tuple(sorted((repr(k), v.k) for k, v in d.items() if k[-1] == "variant"))
                edges.append((shape(src), src, shape(dst), dst, x.st))
    if imprecise: c.undecided(w, imprecise); return
    if not edges: c.undecided(w, "no element is ever given out"); return
    bufs = {v.name: v.len for e in edges for v in e[4].mem.values() if isinstance(v, Buf)}
    g, why = loops.ranking(edges, bufs)
    c.ob("every element given out brings the sequence closer to its end", w, g, why)

def C48(chk):
    from .js_cur import C30
    from .mp_cur import C17
    from .ser_err import C02
    chk.rule("every loop of every function of both formats that any input, value, visitor or nested value can reach: a lexicographic ranking (cursor, iterator, counter, bounded by the input or zero) is found over all edges of its stable abstract state; a loop of which some round cannot progress is reported")
    chk.rule("every container hands its content to the visitor only after consuming input; every element or key given out decreases such a ranking of the access object")
    for f in (C30, C17, C02): watch(chk, f)
    jobs = []
    for crate in crates(JSON, MP):
        P = prog(crate)
        if crate == JSON: use_contract(P)
        for b in P.roots:
            r = b.root; t = (r.get("trait") or "").split("::")[-1]; s = r.get("selfs") or ""
            if t in ("Deserializer", "VariantAccess", "EnumAccess") and "de::" in s and r["name"] != "is_human_readable":
                jobs.append(lambda c, P=P, b=b, s=s: enter(c, P, b, "MapKey<" in s))
        acc = {}
        for b in P.roots:
            t = (b.root.get("trait") or "").split("::")[-1]
            if t in ACCESS: acc.setdefault((t, b.root.get("selfs") or ""), []).append(b)
        for name, bs in sorted(acc.items()): jobs.append(lambda c, P=P, name=name, bs=bs: access(c, P, name, bs))
    par(chk, jobs)
CHECKS = {"C48": C48}
