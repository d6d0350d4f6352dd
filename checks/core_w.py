"""C01, C54: the writers of the core crate: every byte appended or an error, nothing appended twice, no panic or abort on the way.

The containers come from other crates, so the analysis does not enter them.  Each of their methods has a contract (below), taken from
its documentation: what it appends, how it refuses, and what it needs in order not to panic or abort.  A writer is then checked against
those contracts: an infallible append must be preceded by a reservation that covers it, a fallible one must have its refusal passed on,
and what was appended at `Ok` must be the argument, whole, once, in order."""
from .lib import *

GROW = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "smallvec::SmallVec", "tinyvec::tinyvec::TinyVec", "alloc::string::String")
FIXED = ("arrayvec::", "heapless::", "tinyvec::arrayvec::", "tinyvec::slicevec::")
PLAIN = {"Copied", "Cloned", "Iter", "NonNull", "PhantomData", "None"}

def family(p):
    for x in GROW:
        if p.startswith(x): return "grow"
    for x in FIXED:
        if p.startswith(x): return "fixed"
    return None

class CoreHandler(SerHandler):
    """ghosts: trace (what was appended), cnt (how many bytes), room (bytes proven to fit beside what was there), set by a reservation;
    refused (a container refused); writes (to the slice of a slice writer or to the spare part of a container)"""
    def __init__(self, c, w):
        SerHandler.__init__(self); self.c = c; self.w = w; self.root = None; self.bufs = (); self.first = {}; self.arg = None
    bits = 63
    def setup(self, st):
        SerHandler.setup(self, st)
        st.gh["cnt"] = ZERO; st.gh["room"] = None; st.gh["refused"] = None; st.gh["spare"] = None; st.gh["bad"] = None
        st.gh["wpos"] = ZERO; st.gh["odd"] = ()
        st.gh["len0"] = None; st.gh["cap"] = None
    # --------------------------------------------------------------- the container's own quantities
    def len0(self, st):
        if st.gh["len0"] is None:
            st.gh["len0"] = L(fresh("len", 0, 2 ** self.bits - 1)); st.gh["cap"] = L(fresh("cap", 0, 2 ** self.bits))
            st.num.assume_ge0(st.gh["cap"] - st.gh["len0"])
        return st.gh["len0"]
    def append(self, st, items, n):
        g = self.follows(st, items, st.gh["cnt"])
        if g is not True and st.gh["bad"] is None: st.gh["bad"] = g
        st.gh["cnt"] = st.num.norm(st.gh["cnt"] + n)
    def emit(self, st, items): pass
    def need(self, ctx, n, what):
        """an append that cannot refuse: panics or aborts unless there is room"""
        st = ctx.st; r = st.gh["room"]
        ok = r is not None and st.num.prove_ge0(r - st.gh["cnt"] - n)
        self.c.ob("an append that cannot report failure is covered by a reservation", self.w, ok,
                  "%s of %r byte(s), %s" % (what, n, "nothing reserved" if r is None else "%r reserved, %r appended before" % (r, st.gh["cnt"])))
    def refuse(self, st, why): st.gh["refused"] = why
    def items(self, ctx, v):
        """bytes of a slice / iterator argument -> (trace items, count) or None"""
        I, st = ctx.I, ctx.st
        tags = set()
        def walk(x):
            if isinstance(x, Agg):
                tags.add(str(x.tag).split("::")[-1])
                for y in x.f: walk(y)
        walk(v)
        if "Rev" in tags and tags <= PLAIN | {"Rev"}:
            y = self.iter_slice(I, st, v)
            return None if y is None else ([("reversed", y)], st.norm(y.meta))
        if not tags <= PLAIN: return None
        v = self.iter_slice(I, st, v)
        if v is None: return None
        return self.bytes_of(ctx, v), st.norm(v.meta)
    def iter_slice(self, I, st, v):
        v = I.leafify(v)
        if isinstance(v, Ptr) and v.meta is not None: return v
        if isinstance(v, Ptr): return None
        ps = []
        def walk(x):
            x = I.leafify(x)
            if isinstance(x, Ptr): ps.append(x)
            elif isinstance(x, Agg):
                for y in x.f: walk(y)
        walk(v)
        if len(ps) == 2 and ps[0].root == ps[1].root and ps[0].path[:-1] == ps[1].path[:-1]:
            a, b = ps
            if a.path and b.path and a.path[-1][0] == "e" == b.path[-1][0]:
                return Ptr(a.root, a.path, st.norm(b.path[-1][1] - a.path[-1][1]))
        return None
    # --------------------------------------------------------------- contracts
    def on_call(self, ctx):
        c = ctx.c; p = c.get("rp") or c.get("p") or ""; n = c.get("name") or ""
        I, st = ctx.I, ctx.st
        impl = c.get("implself") or ""
        if c.get("trait", "").endswith("io::write::Write") or c.get("trait", "").endswith("io::Write"): return self.io(ctx, n)
        fam = family(p) or family(impl)
        if fam is None:
            if c.get("trait") == "SerWrite" or tname(c).startswith("SerWrite::"):
                byte = tname(c).endswith("byte")
                x = ([ctx.args[1]], ONE) if byte else self.items(ctx, ctx.args[1])
                if x is None: return NotImplemented
                s2 = st.copy(); self.refuse(s2, "the inner writer failed"); self.append(st, *x)
                return [(st, ok(UNIT)), (s2, err(Opaque(None, "writer-error")))]
            return NotImplemented
        return self.container(ctx, fam, p if family(p) else impl, n)
    def on_local_call(self, ctx, body):
        """container methods whose body is at hand (generic ones of std) are taken by contract as well"""
        p = ctx.c.get("rp") or ctx.c.get("p") or ""; impl = (ctx.c.get("implself") or p.lstrip("<"))
        fam = family(p) or family(impl)
        if fam is None: return NotImplemented
        return self.container(ctx, fam, p if family(p) else impl, ctx.c.get("name") or "")
    def io(self, ctx, n):
        I, st = ctx.I, ctx.st
        if n not in ("write_all", "write", "flush"): return NotImplemented
        if n == "flush": return [(st, ok(UNIT))]
        x = self.items(ctx, ctx.args[1])
        if x is None: return NotImplemented
        it, k = x
        self.c.ob("growing the container reports failure", "Cursor<T>::SerWrite", False, "std::io::Write of a growable Cursor (Cursor<Vec<u8>>) reserves memory infallibly: panics or aborts when it cannot be reserved")
        s2 = st.copy(); self.refuse(s2, "io error")
        if n == "write_all":
            self.append(st, it, k)
            return [(st, ok(UNIT)), (s2, err(Opaque(None, "io-error")))]
        w = L(fresh("written", 0, 2 ** self.bits - 1))
        if not st.num.assume_ge0(k - w): return [(s2, err(Opaque(None, "io-error")))]
        src = self.iter_slice(I, st, ctx.args[1])
        self.append(st, [("seg", src.root, st.norm(src.path[-1][1]), w)], w)
        return [(st, ok(w)), (s2, err(Opaque(None, "io-error")))]
    def container(self, ctx, fam, p, n):
        I, st = ctx.I, ctx.st; num = st.num; gh = st.gh
        self0 = I.leafify(ctx.args[0]) if ctx.args else None
        if not (isinstance(self0, Ptr) and self0.root == self.root): return NotImplemented
        rt = I.T(ctx.dty); isres = rt.get("path") == "core::result::Result"; isopt = rt.get("path") == "core::option::Option"
        def fall(it, k, refuse=None):
            s2 = st.copy(); self.refuse(s2, "%s refused" % n)
            self.append(st, it, k)
            if isres: return [(st, ok(UNIT)), (s2, err(Opaque(None, "refused")))]
            if isopt: return [(st, NONE), (s2, some(Opaque(None, "refused")))]
            return NotImplemented
        if n in ("try_reserve", "try_reserve_exact"):
            k = ctx.args[1]
            s2 = st.copy(); self.refuse(s2, "%s failed" % n)
            gh["room"] = num.norm(gh["cnt"] + k)
            return [(st, ok(UNIT)), (s2, err(Opaque(None, "no memory")))]
        if n in ("reserve", "reserve_exact"):
            self.c.ob("growing the container reports failure", self.w, False, "%s panics or aborts when memory cannot be reserved" % n)
            gh["room"] = num.norm(gh["cnt"] + ctx.args[1]); return [(st, UNIT)]
        if n in ("push", "push_back", "try_push", "push_within_capacity", "extend_from_slice", "try_extend_from_slice", "extend"):
            if "push" in n: it, k = [ctx.args[1]], ONE
            else:
                x = self.items(ctx, ctx.args[1])
                if x is None: return NotImplemented
                it, k = x
            if isres or isopt: return fall(it, k)
            if rt.get("k") == "tuple" or rt.get("s") == "()":
                self.need(ctx, k, n); self.append(st, it, k); return [(st, UNIT)]
            return NotImplemented
        if n in ("len", "capacity", "remaining_capacity", "is_empty", "is_full"):
            l = num.norm(self.len0(st) + gh["cnt"])
            if n == "len": return [(st, l)]
            if fam == "grow" and n != "is_empty": return NotImplemented
            if n == "capacity": return [(st, gh["cap"])]
            if n == "remaining_capacity": return [(st, num.norm(gh["cap"] - l))]
            e = Cond("eq", l if n == "is_empty" else num.norm(gh["cap"] - l))
            t, f = I.branch(st, e)
            return [(s, v) for s, v in ((t, ONE), (f, ZERO)) if s is not None]
        if n == "grab_spare_slice_mut":
            l = num.norm(self.len0(st) + gh["cnt"])
            q = I.new_buf(st, "spare"); self.bufs = self.bufs + (q.root,)
            num.assume_ge0(gh["cap"] - l)
            num.assume_eq0(q.meta - (gh["cap"] - l))
            gh["spare"] = (q.root, l); gh["wpos"] = ZERO; gh["odd"] = ()
            return [(st, q)]
        if n == "set_len":
            x = ctx.args[1]; l = num.norm(self.len0(st) + gh["cnt"]); k = num.norm(x - l)
            self.c.ob("the new length is within the capacity", self.w, num.prove_ge0(gh["cap"] - x), "length %r, capacity %r" % (x, gh["cap"]))
            g = self.stored(st, gh["spare"][0], k) if gh["spare"] else "nothing written"
            if num.eq(k, ZERO): g = True
            self.c.ob("the bytes counted were written", self.w, g is True, g)
            gh["cnt"] = num.norm(gh["cnt"] + k); gh["spare"] = None; gh["wpos"] = ZERO; gh["odd"] = ()
            return [(st, UNIT)]
        return NotImplemented
    # --------------------------------------------------------------- writes into slices
    def target(self, st, root):
        """offset of the slice at which the first byte of the argument belongs"""
        if root in self.bufs: return ZERO if st.gh["spare"] and st.gh["spare"][0] == root else None
        return self.first.get(root)
    def on_buf_write(self, I, st, buf, off, n, vals):
        b = ("B", buf.name); num = st.num
        st.gh["wrote"] = True
        t = self.target(st, b)
        if t is None: return
        k = num.norm(L(n) if isinstance(n, int) else n)
        if isinstance(vals, (list, tuple)) and not (vals and isinstance(vals[0], str)): items = list(vals)
        elif vals and vals[0] == "copy" and isinstance(vals[1], Ptr): items = [("seg", vals[1].root, num.norm(vals[1].path[-1][1]), k)]
        else: items = [("?", k)]
        base = ZERO if b in self.first else st.gh["cnt"]
        if not st.gh["odd"] and num.eq(off, t + st.gh["wpos"]):
            g = self.follows(st, items, num.norm(base + st.gh["wpos"]))
            if g is True: st.gh["wpos"] = num.norm(st.gh["wpos"] + k); return
        st.gh["odd"] = st.gh["odd"] + ((b, num.norm(off), k, tuple(items)),)
    def stored(self, st, root, k):
        """the first k bytes of the argument (after those already appended) were written at the right place, and nothing else?"""
        num = st.num; t = self.target(st, root); pos = st.gh["wpos"]; todo = list(st.gh["odd"])
        base = ZERO if root in self.first else st.gh["cnt"]
        while todo:
            for i, (b, o, n, items) in enumerate(todo):
                if b == root and num.eq(o, t + pos): break
            else: return "writes %r bytes at %r" % (todo[0][2], todo[0][1])
            g = self.follows(st, items, num.norm(base + pos))
            if g is not True: return g
            pos = num.norm(pos + n); todo.pop(i)
        return True if num.eq(pos, k) else "wrote %r byte(s), counted %r" % (pos, k)
    def follows(self, st, items, pos):
        """these items are the bytes of the argument from pos on?"""
        num = st.num; arg = self.arg
        if not isinstance(arg, Ptr):
            if len(items) == 1 and isinstance(items[0], Lin) and num.eq(pos, ZERO) and num.eq(items[0], arg): return True
            return "appends %r for the byte %r" % (items, arg)
        o = num.norm(arg.path[-1][1] + pos)
        for x in items:
            if isinstance(x, tuple) and x[0] == "seg":
                if num.eq(x[3], ZERO): continue
                if x[1] != arg.root or not num.eq(x[2], o): return "appends bytes from offset %r where %r is next" % (x[2], o)
                o = num.norm(o + x[3])
            elif isinstance(x, Lin):
                if not num.eq(x, num.byte(arg.root[1], o)): return "appends %r where the byte at offset %r is next" % (x, o)
                o = num.norm(o + 1)
            else: return "appends %r" % (x,)
        return True

def roots(P):
    for b in P.roots:
        r = b.root
        if (r.get("trait") or "").endswith("SerWrite") and r["name"] in ("write", "write_byte", "write_str"): yield b
        elif r["name"] in ("write", "write_byte", "write_str") and not r.get("trait") and not r.get("selfs"): yield b
        elif r["name"] == "write_str" and (r.get("selfs") or "").startswith("SliceWriter"): yield b

def field(I, st, p, name):
    """pointer to / value of a named field of the struct p points to"""
    p = I.leafify(p)
    return I.load(st, p.root, p.path)

def slice_writer(I, st, a):
    """(buf pointer, len) of the SliceWriter behind a[0]"""
    v = field(I, st, a[0], None)
    ps = [I.leafify(x) for x in v.f]
    q = [x for x in ps if isinstance(x, Ptr)][0]; l = [x for x in ps if isinstance(x, Lin)][0]
    return q, l

def one(c, P, b, cfg, bits=64):
    w = where(b) + ("[%s]" % cfg if bits == 64 else "[%s, 32 bit]" % cfg)
    sw = (b.root.get("selfs") or "").startswith("SliceWriter")
    h = CoreHandler(c, w); h.bits = bits - 1
    box = {}
    def pre(I, st, a):
        h.a = a; h.arg = I.leafify(a[1])
        p = I.leafify(a[0]); h.root = p.root if isinstance(p, Ptr) else None
        if sw:
            q, l = slice_writer(I, st, a); box["q"], box["l"] = q, l
            st.num.assume_ge0(q.meta - l); h.first = {q.root: st.norm(q.path[-1][1] + l)}
    I, rs, a = run(c, P, b, h, pre=pre, ptrbits=bits)
    arg = I.leafify(a[1]) if a else None
    n = 0
    for x in rs:
        if x.kind == "imprecise": c.undecided(w, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": c.ob("no panic", w, False, "%s in %s" % (x.val, x.where)); continue
        st = x.st; num = st.num; n += 1
        k = arg.meta if isinstance(arg, Ptr) else ONE
        if sw:
            q, l0 = box["q"], box["l"]
            q2, l2 = slice_writer(I, st, a)
            c.ob("the slice stays the same", w, q2.root == q.root and num.eq(q2.path[-1][1], q.path[-1][1]) and num.eq(q2.meta, q.meta), "%r, was %r" % (q2, q))
            if is_ok(x.val):
                c.ob("the length grows by what was given", w, num.eq(l2, l0 + k), "length %r, was %r, given %r" % (num.norm(l2), l0, k))
                g = h.stored(st, q.root, k)
                c.ob("exactly the given bytes are appended", w, g is True, g)
            else:
                g = h.stored(st, q.root, ZERO)
                c.ob("a refused write changes nothing", w, num.eq(l2, l0) and g is True, "length %r, was %r; %s" % (num.norm(l2), l0, g))
                c.ob("refused only if it does not fit", w, num.prove_ge0(l0 + k - q.meta - 1), "len %r + %r, capacity %r" % (l0, k, q.meta))
            continue
        if is_ok(x.val):
            c.ob("a refusal is reported", w, st.gh["refused"] is None, "Ok although %s" % st.gh["refused"])
            if st.gh["refused"] is not None: continue
            g = st.gh["bad"] or num.eq(st.gh["cnt"], k) or "appends %r byte(s) of %r" % (st.gh["cnt"], k)
            c.ob("exactly the given bytes are appended", w, g is True, g if g is not True else "%r byte(s), in order" % (k,))
        elif is_err(x.val):
            caused = st.gh["refused"] is not None
            if not caused and st.gh["len0"] is not None: caused = num.prove_ge0(st.gh["len0"] + k - st.gh["cap"] - 1)
            c.ob("refused only if it does not fit", w, caused, "%r with no refusal by the container" % (x.val,))
        else: c.undecided(w, "returns %r" % (x.val,))
    if not n: c.undecided(w, "no path")

CFGS = ("foreign", "std", "alloc", "nostd")
def C01(chk):
    chk.rule("every write, write_byte and write_str of the core crate, all features on and in the std/alloc/no-std configurations, against the contracts of the container methods: no append that cannot refuse without a covering reservation; at Ok the appended trace is the argument, whole and once; refusals are passed on; a slice writer that refuses changes nothing")
    jobs = []
    for cfg in cfgs(*CFGS):
        P = prog(CORE, cfg)
        bs = list(roots(P))
        if not bs: chk.undecided(cfg, "no writer found")
        for b in bs:
            for bits in (64, 32): jobs.append(lambda c, P=P, b=b, cfg=cfg, bits=bits: one(c, P, b, cfg, bits))
    par(chk, jobs)

# ---------------------------------------------------------------------------------------------- C54
def c54(c, P, b, cfg):
    w = where(b) + "[%s]" % cfg; name = b.root["name"]
    box = {}
    h = CoreHandler(c, w)
    def pre(I, st, a):
        h.a = a
        v = I.leafify(a[0])
        if name == "new": box["q"] = v; return
        if isinstance(a[0], Ptr): q, l = slice_writer(I, st, a)
        else: q, l = parts(I, a[0])
        box["q"], box["l"] = q, l
        st.num.assume_ge0(q.meta - l)
    I, rs, a = run(c, P, b, h, pre=pre)
    q, l = box.get("q"), box.get("l")
    def view(st, p, off, n): return isinstance(p, Ptr) and p.root == q.root and st.num.eq(p.path[-1][1], q.path[-1][1] + off) and p.meta is not None and st.num.eq(p.meta, n)
    k = 0
    for x in rs:
        if x.kind == "imprecise": c.undecided(w, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": c.ob("no panic", w, False, "%s in %s" % (x.val, x.where)); continue
        st = x.st; num = st.num; v = x.val; k += 1
        if isinstance(v, Cond):
            t, f = I.branch(st.copy(), v); got = [(s, r) for s, r in ((t, ONE), (f, ZERO)) if s is not None]
        else: got = [(st, v)]
        if name in ("len", "capacity", "rem_capacity"):
            e = {"len": lambda: l, "capacity": lambda: q.meta, "rem_capacity": lambda: q.meta - l}[name]()
            c.ob("reports the populated, total and remaining capacity", w, isinstance(v, Lin) and num.eq(v, e), "%r, expected %r" % (v, num.norm(e)))
        elif name == "is_empty":
            for s, r in got:
                r = s.num.norm(r)
                ok_ = r.const() and (s.num.eq(l, ZERO) if r.k else s.num.prove_ne0(l))
                c.ob("empty exactly when nothing is populated", w, bool(ok_), "%r for length %r" % (r, s.num.norm(l)))
        elif name in ("as_ref", "as_mut"):
            c.ob("views exactly the populated part", w, view(st, I.leafify(v), ZERO, l), "%r of %r populated" % (v, l))
        elif name == "new":
            q2, l2 = parts(I, v)
            c.ob("starts empty over the whole slice", w, view(st, q2, ZERO, q.meta) and num.eq(l2, ZERO), "%r" % (v,))
        elif name == "split":
            f = v.f if isinstance(v, Agg) and len(v.f) == 2 else None
            if f is None: c.undecided(w, "returns %r" % (v,)); continue
            q2, l2 = parts(I, f[1])
            c.ob("splits off exactly the populated part", w, view(st, I.leafify(f[0]), ZERO, l), "%r of %r populated" % (f[0], l))
            c.ob("keeps exactly the rest, empty", w, view(st, q2, l, q.meta - l) and num.eq(l2, ZERO), "%r" % (f[1],))
        elif name == "clear": pass
        if name in ("len", "capacity", "rem_capacity", "is_empty", "as_ref", "as_mut", "clear"):
            q2, l2 = slice_writer(I, st, a)
            c.ob("an accessor changes nothing else", w, view(st, q2, ZERO, q.meta) and num.eq(l2, ZERO if name == "clear" else l), "%r, length %r" % (q2, num.norm(l2)))
            c.ob("no byte is written", w, not st.gh.get("wrote"), "")
    if not k: c.undecided(w, "no path")

def parts(I, v):
    ps = [I.leafify(x) for x in v.f]
    return [x for x in ps if isinstance(x, Ptr)][0], [x for x in ps if isinstance(x, Lin)][0]

def C54(chk):
    chk.rule("every accessor of SliceWriter, for every slice and fill level: the values and views returned are the populated prefix, the rest and their lengths; nothing else changes")
    jobs = []
    for cfg in cfgs("foreign", "nostd"):
        P = prog(CORE, cfg)
        bs = [b for b in P.roots if (b.root.get("selfs") or "").startswith("SliceWriter") and b.root["name"] in ("new", "len", "is_empty", "capacity", "rem_capacity", "clear", "split", "as_ref", "as_mut")]
        if len(bs) < 9: chk.undecided(cfg, "found %d of 9 accessors" % len(bs))
        for b in bs: jobs.append(lambda c, P=P, b=b, cfg=cfg: c54(c, P, b, cfg))
    par(chk, jobs)

CHECKS = {"C01": C01, "C54": C54}
