"""MessagePack writer and reader composed: the reader is analysed on exactly the bytes one path of the writer emitted (followed by anything),
with the writer's path condition kept, so agreement is decided without going through a specification of the format."""
from .lib import *
from .dem import *
from .mp_ser import *
from .mp_ser import bufname
from .fmtm import FmtHandler
from .mp_de import de_root, visits, passes_result, cursor, Eat, eat_judge

INTK = ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64")
class Infeas(Exception): pass

class Piece:
    """what one path of a serializer method wrote: items, and the argument values of the method"""
    def __init__(self, w, x, a, items): self.w = w; self.x = x; self.a = a; self.items = items; self.num = x.st.num

class Fed(DeHandler):
    """the input starts (at the cursor, position p0) with the piece; what follows is arbitrary"""
    def __init__(self, chk, where, piece, skip=0):
        DeHandler.__init__(self, chk, where); self.piece = piece; self.skip = L(skip) if isinstance(skip, int) else skip
    def setup(self, st): DeHandler.setup(self, st); st.gh["con"] = None
    def started(self, I, st):
        num = st.num; nm = st.mem[self.root].name
        pos = num.norm(self.p0 - self.skip)
        if not num.assume_ge0(pos): raise Infeas('cursor')
        self.base = pos; self.texts = []; self.vals = []; self.at = []
        items = self.piece.items
        # total size first, so that every position is known to be inside the input
        tot = ZERO
        for it in items:
            if isinstance(it, Lin): tot = tot + 1
            elif it[0] == "seg": tot = tot + it[3]
            else: break
        if not num.assume_ge0(num.norm(self.endp - pos - tot)): raise Infeas("no room")
        self.total = num.norm(tot)
        for it in items:
            self.at.append(num.norm(pos))
            if isinstance(it, Lin):
                lo, hi = num.bounds(it); u = num.byte(nm, num.norm(pos))
                if not (num.assume_ge0(u - max(lo, 0)) and num.assume_ge0(L(min(hi, 255)) - u) and num.assume_eq0(u - it)): raise Infeas("byte %r" % (it,))
                pos = pos + 1
            elif it[0] == "seg":
                self.texts.append((num.norm(pos), num.norm(it[3]), it)); pos = pos + it[3]
            elif it[0] == "val":
                self.vals.append((num.norm(pos), it)); break
            else: raise Imprecise("unexpected item %r" % (it,))
        if getattr(self.piece, 'char', None) is not None:
            n, c = self.piece.char
            at = num.norm(self.p0 + 1)
            num.assume_eq0(named("charlen@%s@%r" % (self.root, at), 1, 4) - n)
            num.assume_eq0(named("char@%s@%r" % (self.root, at), 0, 0x10ffff) - c)
            self.texts.append((at, L(n), None))
        if self.piece.notnil and self.vals:
            num.assume_ne0(num.byte(nm, self.vals[0][0]) - 0xc0)
            num.assume_ge0(self.endp - self.vals[0][0] - 1)
    def text_at(self, st, off, ln):
        return any(st.num.eq(o, off) and st.num.eq(n, ln) for o, n, _ in self.texts)
    def drive(self, ctx, kind):
        """a container or enum access object: note where it is and what it counts; what it does is C12/C13"""
        I, st, P = ctx.I, ctx.st, ctx.I.prog
        ty = ctx.atys[1]
        leaves = ()
        if kind == "enum": leaves = (skeleton(st, ctx.args[1]),)
        else:
            # what the access object says it will deliver (that it delivers that many is C12)
            fns, nref = access_fns(P, ty, "SeqAccess" if kind == "seq" else "MapAccess")
            if not fns or "size_hint" not in fns: raise Imprecise("no size_hint")
            acc = ctx.args[1]
            if not nref:
                root = ("acc", len(st.mem)); st.mem[root] = acc; acc = Ptr(root, (), None)
            rs = I.call_body(st.copy(), fns["size_hint"], [acc])
            if len(rs) != 1 or rs[0].kind != "ret" or not isinstance(rs[0].val, Enum) or rs[0].val.name != "Some": raise Imprecise("size hint: %r" % ([r.val for r in rs],))
            leaves = (st.norm(rs[0].val.f[0]),)
        st.gh["con"] = (kind, tuple(leaves), ty, Cur(st, self.dep).pos)
        self.ev(st, "visit", kind, (ctx.args[1],), Cur(st, self.dep).pos)
        a, b = self.result(ctx, "visitor")
        for s, v in ((a[0], a), (b[0], b)):
            s.gh["vres"] = v[2]; s.gh["vok"] = L(1 if v is a else 0); s.gh["cur"] = Cur(s, self.dep).pos
        return [a[:2], b[:2]]

def pieces(c, P, name, args=None, keep=None):
    """(serializer, paths of serialize_<name> that succeed)"""
    out = []
    for b in ser_fns(P, name):
        I, rs, a = run(c, P, b, SerHandler(), args=args)
        n = 0
        for x in rs:
            if x.kind == "imprecise": c.undecided(where(b), "%s (%s)" % (x.val, x.where)); continue
            if x.kind != "ret" or not is_ok(x.val) or err_caused(x): continue
            p = Piece(where(b), x, a, x.st.gh["trace"]); p.I = I; p.char = None; p.notnil = False; p.b = b
            n += 1; out.append(p)
        if not n: c.undecided(where(b), "no successful path")
    return out

def describe(p):
    return "%s [%s]" % (p.w, " ".join("%x" % b.k if isinstance(b, Lin) and b.const() else "?" if isinstance(b, Lin) else b[0] for b in (p.num.norm(b) if isinstance(b, Lin) else b for b in p.items)))

def read(c, P, b, p, per, mk=Fed, skip=0, fixed=None):
    """analyse the reader function b on the piece"""
    h = mk(c, "%s -> %s" % (describe(p), where(b)), p, skip)
    box = {}
    def margs(I, st):
        h.setup(st)
        a = [I.fresh(st, t, "d%d" % i) for i, t in enumerate(b.locals[1:1 + b.nargs])]
        if fixed is not None: a[0] = impose(I, st, fixed, a[0])
        h.prepare(I, st, a)
        box["a"] = a
        return a
    st = State(); st.num = p.num.copy()
    I = Interp(P, h, maxpaths=4000)
    try: rs = I.run_root(b, margs, st)
    except Infeas as e: c.undecided(h.where, "the piece cannot be laid out: %s" % e); return
    except (RuntimeError, RecursionError) as e: c.undecided(h.where, str(e)); return
    c.used(I, rs)
    n = 0
    for x in rs:
        if x.kind == "imprecise": c.undecided(h.where, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": h.ob("the reader does not panic on what was written", False, "%s in %s" % (x.val, x.where)); continue
        # text that was a str is valid UTF-8
        if any(isinstance(k, tuple) and k[0] == "badutf8" and k[1] == h.root and h.text_at(x.st, k[2][-1][1], k[3]) for k in x.st.preds): continue
        n += 1
        per(h, I, x)
    if not n: c.undecided(h.where, "the reader has no path for this piece")

def accepted(h, I, x, kinds, value=None, total=None):
    """the piece is read as one value of one of these kinds, completely"""
    num = x.st.num; vs = visits(x)
    h.ob("what was written is accepted", len(vs) == 1, "%r with visits %r" % (x.val, [v[1] for v in vs]))
    if len(vs) != 1: return
    _, name, args, pos = vs[0]
    h.ob("as the same kind", name in kinds, "visit_%s, expected visit_%s" % (name, "/".join(kinds)))
    if name not in kinds: return
    if value is not None:
        r = value(h, I, x, name, args)
        h.ob("as the same value", r is True, r if r is not True else "%s %r" % (name, args))
    t = h.total if total is None else total
    h.ob("reading exactly what was written", num.eq(cursor(x, h), h.base + t), "cursor moved by %r of %r bytes" % (num.norm(cursor(x, h) - h.base), num.norm(L(t) if isinstance(t, int) else t)))
    h.ob("the visitor's result is returned", passes_result(h, x), "%r" % (x.val,))

def same_int(v):
    def f(h, I, x, name, args):
        w = args[0]
        if not isinstance(w, Lin): return "got %r" % (w,)
        for cnd in (v, -v - 1):
            s = x.st.num.copy()
            if not s.assume_ge0(cnd): continue
            if not s.eq(w, v): return "got %r for %r" % (s.norm(w), s.norm(v))
        return True
    return f
def same_float(p, v):
    bits = p.I.float_bits(p.x.st, v)
    def f(h, I, x, name, args):
        w = args[0]
        if not isinstance(w, FloatV) or w.bits != v.bits: return "got %r" % (w,)
        if isinstance(w.key, tuple) and w.key[0] in ("sym", "bits"):
            e = w.key[1] if isinstance(w.key[1], Lin) else L(w.key[1])
            return True if x.st.num.eq(e, bits) else "bits %r written, %r read" % (x.st.norm(bits), x.st.norm(e))
        return "got %r" % (w,)
    return f
def same_text(h, I, x, name, args):
    p = I.leafify(args[0])
    if not isinstance(p, Ptr) or p.root != h.root: return "not a part of the input: %r" % (p,)
    num = x.st.num; o, n, _ = h.texts[0]
    if not num.eq(p.path[-1][1], o) or not num.eq(p.meta, n): return "input[%r..+%r] instead of [%r..+%r]" % (num.norm(p.path[-1][1] - h.base), num.norm(p.meta), num.norm(o - h.base), num.norm(n))
    return True
def payload_text(p, ptr):
    """the piece's items after the header are exactly this str/bytes argument; they become the one text region"""
    ok_ = [it for it in p.items if not isinstance(it, Lin)]
    return len(ok_) == 1 and ok_[0][0] == "seg" and ok_[0][1] == ptr.root

def one(P, name, c):
    bs = de_root(P, name)
    if len(bs) != 1: c.undecided(name, "not found")
    return bs[:1]

def wrong(c, p, what): c.ob("the writer's output is understood", describe(p), False, what)

def by_sign(ps):
    """each piece of an integer for its non-negative and its negative values"""
    for p in ps:
        v = p.a[1]
        for cnd in (v, -v - 1):
            q = Piece(p.w, p.x, p.a, p.items); q.I = p.I; q.char = p.char; q.notnil = p.notnil; q.b = p.b
            q.num = p.num.copy()
            if not q.num.assume_ge0(cnd): continue
            q.items = tuple(q.num.norm(it) if isinstance(it, Lin) else it for it in p.items)
            yield q

def scalars(c, P, name, how, targets, kinds_any, value=None, args=None, prep=None):
    ps = pieces(c, P, name, args)
    if kinds_any is INTK: ps = by_sign(ps)
    for p in ps:
        v = how(p)
        if prep and prep(p) is False: continue
        val = value(p, v) if value else None
        for t, kinds in list(targets) + [("deserialize_any", kinds_any), ("deserialize_ignored_any", ("unit",))]:
            for b in one(P, t, c):
                read(c, P, b, p, lambda h, I, x, t=t, kinds=kinds: accepted(h, I, x, kinds, val if t != "deserialize_ignored_any" else None))

TEXTK = ("borrowed_str", "str", "string")

def as_text(p):
    """the bytes of a str argument as one region even when its length is a constant on this path"""
    ptr = p.I.leafify(p.a[p.argi])
    n = header(p.num, p.items, p.kind)
    if isinstance(n, str): return None
    used = n[2]; rest = p.items[used:]
    if payload_ok(p.num, rest, ptr) is not True: return False
    p.items = p.items[:used] + (("seg", ptr.root, p.num.norm(ptr.path[-1][1]), p.num.norm(ptr.meta)),)
    return True

def jobs(P, cfg):
    J = []
    for ty in INTS:
        J.append(lambda c, ty=ty: scalars(c, P, "serialize_" + ty, lambda p: p.num.norm(p.a[1]), [("deserialize_" + ty, (ty,))], INTK, lambda p, v: same_int(v)))
    def flag(c):
        scalars(c, P, "serialize_bool", lambda p: p.num.norm(p.a[1]), [("deserialize_bool", ("bool",))], ("bool",), lambda p, v: same_int(v))
        for n, t in (("serialize_unit", "deserialize_unit"), ("serialize_unit_struct", "deserialize_unit_struct"), ("serialize_none", "deserialize_option")):
            scalars(c, P, n, lambda p: None, [(t, ("none",) if "none" in n else ("unit",))], ("unit", "none"))
    J.append(flag)
    for w in ("f32", "f64"):
        J.append(lambda c, w=w: scalars(c, P, "serialize_" + w, lambda p: p.a[1], [("deserialize_" + w, (w,))], (w,), same_float))
    def char(c):
        def prep(p):
            u = utf8_of(p.num, p.num.norm(p.a[1]))
            if u is None or len(p.items) != 1 + len(u) or not all_bytes(p.items) or not all(p.num.eq(q, r) for q, r in zip(p.items[1:], u)):
                if u is None: c.undecided(p.w, "length class of the char not decided")
                else: wrong(c, p, "a char is not written as its UTF-8")
                return False
            p.char = (len(u), p.num.norm(p.a[1]))
        def val(h, I, x, name, args):
            if name == "char": return True if isinstance(args[0], Lin) and x.st.num.eq(args[0], h.piece.char[1]) else "%r" % (args,)
            return same_text(h, I, x, name, args)
        scalars(c, P, "serialize_char", lambda p: None, [("deserialize_char", ("char",)), ("deserialize_str", TEXTK)], TEXTK, lambda p, v: val, prep=prep)
    J.append(char)
    for n, ts, k, kinds in (("serialize_str", ("deserialize_str", "deserialize_string", "deserialize_identifier"), "str", TEXTK), ("serialize_bytes", ("deserialize_bytes", "deserialize_byte_buf"), "bin", ("borrowed_bytes",))):
        def text(c, n=n, ts=ts, k=k, kinds=kinds):
            def prep(p):
                p.argi = 1; p.kind = k
                if not as_text(p): wrong(c, p, "the header is not followed by exactly the payload"); return False
            scalars(c, P, n, lambda p: None, [(t, kinds) for t in ts], kinds, lambda p, v: same_text, prep=prep)
        J.append(text)
    def collected(c):
        for b in ser_fns(P, "collect_str"):
            h = FmtHandler(); I, rs, a = run(c, P, b, h); n = 0
            for x in rs:
                if x.kind == "imprecise": c.undecided(where(b), "%s (%s)" % (x.val, x.where)); continue
                if x.kind != "ret" or not is_ok(x.val) or err_caused(x): continue
                num = x.st.num
                tr = [t for t in x.st.gh["trace"] if not (not isinstance(t, Lin) and t[0] == "text" and num.eq(t[2], ZERO) and not num.eq(t[1], ZERO))]
                hd = header(num, tr, "str")
                p = Piece(where(b), x, a, tuple(tr)); p.I = I; p.char = None; p.notnil = False; p.b = b; n += 1
                if isinstance(hd, str): wrong(c, p, hd); continue
                tot = ZERO
                for t in tr[hd[2]:]: tot = tot + (ONE if isinstance(t, Lin) else t[3] if t[0] == "seg" else t[2])
                # that these bytes are the formatter's text is C09
                p.items = tuple(tr[:hd[2]]) + (("seg", None, ZERO, num.norm(tot)),)
                for t in ("deserialize_str", "deserialize_string", "deserialize_any", "deserialize_ignored_any"):
                    for rb in one(P, t, c):
                        read(c, P, rb, p, lambda h, I, x, t=t: accepted(h, I, x, ("unit",) if "ignored" in t else TEXTK, same_text if "ignored" not in t else None))
            if not n: c.undecided(where(b), "no successful path")
    J.append(collected)
    def wrapped(c):
        for n, t, kind in (("serialize_some", "deserialize_option", "some"), ("serialize_newtype_struct", "deserialize_newtype_struct", "newtype_struct")):
            for p in pieces(c, P, n):
                p.notnil = True
                for b in one(P, t, c):
                    def per(h, I, x):
                        if not h.vals: wrong(c, p, "no inner value"); return
                        vs = visits(x)
                        g = len(vs) == 1 and vs[0][1] == kind
                        h.ob("as the same kind", g, "%r after %r" % (x.val, [v[1] for v in vs]))
                        if g: h.ob("the inner value is read where it was written", x.st.num.eq(vs[0][3], h.vals[0][0]) and passes_result(h, x), "at +%r" % x.st.norm(vs[0][3] - h.base))
                    read(c, P, b, p, per)
    J.append(wrapped)
    # struct keys and enum tags in their two forms are integers or names; identifiers read both
    def key(c):
        scalars(c, P, "serialize_u32", lambda p: p.num.norm(p.a[1]), [("deserialize_identifier", ("u8", "u16", "u32", "u64"))], INTK, lambda p, v: same_int(v))
    J.append(key)
    for n, t, ai in (("serialize_seq", "deserialize_seq", 1), ("serialize_tuple", "deserialize_tuple", 1), ("serialize_tuple_struct", "deserialize_tuple_struct", 2), ("serialize_map", "deserialize_map", 1), ("serialize_struct", "deserialize_struct", 2)):
        def con(c, n=n, t=t, ai=ai):
            box = {}
            def args(I, st, a):
                if n in ("serialize_seq", "serialize_map"): box["n"] = fresh("n", 0, (1 << 64) - 1); a[ai] = some(box["n"])
                else: box["n"] = a[ai]
            for p in pieces_each(c, P, n, args, box):
                for tt in (t, "deserialize_any"):
                    for b in one(P, tt, c): read(c, P, b, p, lambda h, I, x, p=p: counts(h, I, x, p.n, p.b))
                for b in one(P, "deserialize_ignored_any", c): skip(c, P, b, p)
        J.append(con)
    for n in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_tuple_variant", "serialize_struct_variant"):
        J.append(lambda c, n=n: enums(c, P, n))
    return J

def pieces_each(c, P, name, args, box):
    """like pieces, remembering the declared length of each serializer's run"""
    out = []
    for b in ser_fns(P, name):
        I, rs, a = run(c, P, b, SerHandler(), args=args)
        n = 0
        for x in rs:
            if x.kind == "imprecise": c.undecided(where(b), "%s (%s)" % (x.val, x.where)); continue
            if x.kind != "ret" or not is_ok(x.val) or err_caused(x): continue
            p = Piece(where(b), x, a, x.st.gh["trace"]); p.I = I; p.char = None; p.notnil = False; p.b = b; p.n = box["n"]
            n += 1; out.append(p)
        if not n: c.undecided(where(b), "no successful path")
    return out

def counts(h, I, x, n, wb):
    """a container of the declared number of elements, positioned at the first one"""
    num = x.st.num; con = x.st.gh["con"]
    h.ob("what was written is accepted", con is not None, "%r without a container visit" % (x.val,))
    if con is None: return
    kind, leaves, ty, pos = con
    want = "map" if is_map(wb) else "seq"
    h.ob("as the same kind", kind == want, "visit_%s for %s" % (kind, wb.root["name"]))
    h.ob("with the same number of elements", any(num.eq(l, n) for l in leaves), "counts %r, written %r" % (leaves, num.norm(n)))
    h.ob("starting at the first element", num.eq(pos, h.base + h.total), "at +%r, header has %r bytes" % (num.norm(pos - h.base), h.total))

class FedEat(Eat):
    """skipping: the item grammar runs along (see C15), started on the piece"""
    def __init__(self, chk, where, piece): Eat.__init__(self, chk, where); self.piece = piece; self.skip = ZERO
    def started(self, I, st):
        Fed.started(self, I, st); Eat.started(self, I, st)
        it = self.item(I, st, self.base); num = st.num; n = self.piece.n
        k = 2 if is_map(self.piece.b) else 1
        self.ob("the header is skipped with the written number of values behind it", isinstance(it, tuple) and num.eq(it[0], self.total) and num.eq(it[1], n * k), "%r for %r elements" % (it, num.norm(n)))
def skip(c, P, b, p):
    h = FedEat(c, "%s -> %s" % (describe(p), where(b)), p)
    def margs(I, st):
        h.setup(st)
        a = [I.fresh(st, t, "d%d" % i) for i, t in enumerate(b.locals[1:1 + b.nargs])]
        h.prepare(I, st, a)
        return a
    st = State(); st.num = p.num.copy()
    I = Interp(P, h, maxpaths=4000)
    try: rs = I.run_root(b, margs, st)
    except Infeas as e: c.undecided(h.where, "the piece cannot be laid out: %s" % e); return
    except (RuntimeError, RecursionError) as e: c.undecided(h.where, str(e)); return
    c.used(I, rs)
    eat_judge(c, h, I, rs, 64)

def is_map(wb):
    nm = wb.root["name"]
    return "map" in nm or (nm.startswith("serialize_struct") and "Compact" not in wb.root["selfs"])

def vtype(P, ty):
    """variant access type of an enum access type"""
    fns, _ = access_fns(P, ty, "EnumAccess")
    if not fns or "variant_seed" not in fns: return None
    vs = fns["variant_seed"]
    tt = P.types[vs.locals[0]]["vs"][0][2][0][1]
    return P.types[tt]["es"][1]

def enums(c, P, name):
    """bare tag or one-entry map: the tag is read where it was written, as what was written, and the payload with the matching access"""
    box = {}
    def args(I, st, a): box["n"] = a[4] if name in ("serialize_tuple_variant", "serialize_struct_variant") else None
    for p in pieces_each(c, P, name, args, box):
        wrapped_ = name != "serialize_unit_variant"
        byname = p.b.root["selfs"].find("StructMapStr") >= 0
        used = 1 if wrapped_ else 0
        tag = p.items[used:]; v = p.num.norm(p.a[2]) if not byname else None
        # regions: the tag, then the payload
        if byname:
            h = header(p.num, tag, "str"); ptr = p.I.leafify(p.a[3])
            if isinstance(h, str): wrong(c, p, h); continue
            j = next((j for j in range(len(tag) - h[2] + 1) if payload_ok(p.num, tag[h[2]:h[2] + j], ptr) is True), None)
            if j is None: wrong(c, p, "the variant name is not written in full"); continue
            tagitems = tag[:h[2]] + (("seg", ptr.root, p.num.norm(ptr.path[-1][1]), p.num.norm(ptr.meta)),); rest = tag[h[2] + j:]
        else:
            k = 1; b0 = p.num.norm(tag[0]) if tag and isinstance(tag[0], Lin) else None
            if b0 is None: wrong(c, p, "no tag"); continue
            if b0.const() and b0.k in (0xcc, 0xcd, 0xce): k = {0xcc: 2, 0xcd: 3, 0xce: 5}[b0.k]
            tagitems = tag[:k]; rest = tag[k:]
        p.items = p.items[:used] + tagitems + rest
        tagend = ZERO
        for it in tagitems: tagend = tagend + (ONE if isinstance(it, Lin) else it[3])
        tagend = p.num.norm(tagend + used)
        acc = []
        # 1. the enum is recognised
        for b in one(P, "deserialize_enum", c):
            def per(h, I, x):
                con = x.st.gh["con"]
                h.ob("what was written is accepted", con is not None and con[0] == "enum", "%r" % (x.val,))
                if con is None: return
                h.ob("the tag is read where it was written", x.st.num.eq(con[3], h.base + used), "at +%r" % x.st.norm(con[3] - h.base))
                acc.append((con[2], con[1][0]))
            read(c, P, b, p, per)
        # 2. the tag
        for b in one(P, "deserialize_identifier", c):
            def per(h, I, x):
                accepted(h, I, x, TEXTK if byname else ("u8", "u16", "u32", "u64"), same_text if byname else same_int(v), total=tagend)
            read(c, P, b, p, per, skip=used)
        # 3. the payload
        for ty, sk in sorted(set(acc), key=repr):
            vt = vtype(P, ty)
            vf = access_fns(P, vt, "VariantAccess")[0] if vt is not None else None
            op = {"serialize_unit_variant": "unit_variant", "serialize_newtype_variant": "newtype_variant_seed", "serialize_tuple_variant": "tuple_variant", "serialize_struct_variant": "struct_variant"}[name]
            if not vf or op not in vf: c.undecided(p.w, "no %s" % op); continue
            q = Piece(p.w, p.x, p.a, p.items); q.I = p.I; q.char = None; q.notnil = False; q.b = p.b
            def per(h, I, x):
                num = x.st.num
                if op == "unit_variant":
                    h.ob("what was written is accepted", is_ok(x.val), "%r" % (x.val,))
                    h.ob("a unit variant has no payload", num.eq(cursor(x, h), h.base + tagend), "cursor moved")
                elif op == "newtype_variant_seed":
                    ev = [e for e in x.st.gh["ev"] if e[0] == "nested"]
                    h.ob("what was written is accepted", len(ev) == 1, "%r" % (x.val,))
                    if ev: h.ob("the payload is read where it was written", len(h.vals) == 1 and num.eq(ev[0][1], h.vals[0][0]), "at +%r" % num.norm(ev[0][1] - h.base))
                else: counts(h, I, x, p.n, p.b)
            read(c, P, vf[op], q, per, skip=tagend, fixed=sk if vt == ty else None)

def C19(chk):
    chk.rule("relational composition: for every successful path of every serialize_* method of the three serializers the bytes it emits are laid out (symbolically, under that path's condition) in front of an arbitrary tail and the "
             "corresponding deserialize_* method, deserialize_any, deserialize_ignored_any and deserialize_identifier are analysed on it: one visit of the same kind, value equal to the writer's argument (linear equality), cursor exactly at the end")
    P = prog(MP)
    par(chk, jobs(P, "std"))
CHECKS = {"C19": C19}
