"""MessagePack deserializer: for every lead byte class, what the visitor is given and where the cursor ends up."""
from .lib import *
from .dem import *
from .mp_ser import INTS

CLS = [("posfixint", 0x00, 0x7f), ("fixmap0", 0x80, 0x80), ("fixmap1", 0x81, 0x81), ("fixmap", 0x82, 0x8f), ("fixarray", 0x90, 0x9f), ("fixstr", 0xa0, 0xbf), ("nil", 0xc0, 0xc0), ("reserved", 0xc1, 0xc1), ("false", 0xc2, 0xc2),
       ("true", 0xc3, 0xc3), ("bin8", 0xc4, 0xc4), ("bin16", 0xc5, 0xc5), ("bin32", 0xc6, 0xc6), ("ext8", 0xc7, 0xc7), ("ext16", 0xc8, 0xc8), ("ext32", 0xc9, 0xc9),
       ("f32", 0xca, 0xca), ("f64", 0xcb, 0xcb), ("u8", 0xcc, 0xcc), ("u16", 0xcd, 0xcd), ("u32", 0xce, 0xce), ("u64", 0xcf, 0xcf), ("i8", 0xd0, 0xd0), ("i16", 0xd1, 0xd1), ("i32", 0xd2, 0xd2), ("i64", 0xd3, 0xd3),
       ("fixext1", 0xd4, 0xd4), ("fixext2", 0xd5, 0xd5), ("fixext4", 0xd6, 0xd6), ("fixext8", 0xd7, 0xd7), ("fixext16", 0xd8, 0xd8), ("str8", 0xd9, 0xd9), ("str16", 0xda, 0xda), ("str32", 0xdb, 0xdb),
       ("array16", 0xdc, 0xdc), ("array32", 0xdd, 0xdd), ("map16", 0xde, 0xde), ("map32", 0xdf, 0xdf), ("negfixint", 0xe0, 0xff)]
RANGE = {t: (0, (1 << int(t[1:])) - 1) if t[0] == "u" else (-(1 << (int(t[1:]) - 1)), (1 << (int(t[1:]) - 1)) - 1) for t in INTS}
INTCLS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8}

CAUSE = None       # set by checks/errs.py: called with what is wrong with the input wherever an error is returned
def cause(h, x, what, name=None):
    if CAUSE is not None: CAUSE(h, x.st, x.val, what, name)

class MpDe(DeHandler):
    def __init__(self, chk, where, cls):
        DeHandler.__init__(self, chk, where); self.cls = cls
    def started(self, I, st):
        num = st.num
        if self.cls is None: num.assume_eq0(self.endp - self.p0); return
        num.assume_ge0(self.endp - self.p0 - 1)
        self.c = self.B(I, st, 0)
        num.assume_ge0(self.c - self.cls[1]); num.assume_ge0(L(self.cls[2]) - self.c)
    def B(self, I, st, i): return st.norm(st.num.byte(st.mem[self.root].name, st.norm(self.p0 + i)))
    def U(self, I, st, n, at=1):
        e = ZERO
        for i in range(n): e = e * 256 + self.B(I, st, at + i)
        return st.norm(e)
    def cls_at(self, st, q):
        """lead byte class at position q when it is decided on this path"""
        q = st.norm(q)
        lo, hi = st.num.bounds(st.norm(st.num.byte(st.mem[self.root].name, q)))
        for c in CLS:
            if lo >= c[1] and hi <= c[2]: return c
        for c in (("fixmap", 0x80, 0x8f),):
            if lo >= c[1] and hi <= c[2]: return c
        return None
    def header_at(self, st, kind, q):
        """(header size, declared length) of an array/map header at q"""
        c = self.cls_at(st, q)
        if c is None: return None
        b = lambda i: st.norm(st.num.byte(st.mem[self.root].name, st.norm(q + i)))
        fix = {"array": 0x90, "map": 0x80}[kind]
        if c[0].rstrip("01") == "fix" + kind: return 1, b(0) - fix
        for s, k in ((16, 2), (32, 4)):
            if c[0] == kind + str(s):
                e = ZERO
                for i in range(k): e = e * 256 + b(1 + i)
                return 1 + k, st.norm(e)
        return None
    def ints(self, I, st):
        """(size, [(conditions, value)]) of the integer message of this class"""
        n = self.cls[0]
        if n == "posfixint": return 1, [((), self.c)]
        if n == "negfixint": return 1, [((), self.c - 256)]
        if n in INTCLS:
            k = INTCLS[n]; u = self.U(I, st, k)
            if n[0] == "u": return 1 + k, [((), u)]
            h = 1 << (8 * k - 1)
            return 1 + k, [((L(h - 1) - u,), u), ((u - h,), u - 2 * h)]
        return None
    def length(self, I, st, kind):
        """(header size, declared length) for str/bin/array/map classes"""
        n = self.cls[0]
        fix = {"str": 0xa0, "array": 0x90, "map": 0x80}.get(kind)
        if fix is not None and n.rstrip("01") == "fix" + kind: return 1, self.c - fix
        for s, k in ((8, 1), (16, 2), (32, 4)):
            if n == kind + str(s): return 1 + k, self.U(I, st, k)
        return None
    def drive_start(self, ctx, kind, fns):
        st = ctx.st
        st.gh["at"] = Cur(st, self.dep).pos
        st.gh["kind"] = kind
        if kind in ("seq", "map"):
            for hk in ("array", "map"):
                r = self.length(ctx.I, st, hk)
                if r is not None: st.gh["n"] = st.norm(r[1])
        st.gh["k"] = ZERO
    def num(self, x): return x.st.num

def alts_eq(num, alts, v):
    for conds, val in alts:
        s = num.copy()
        if not all(s.assume_ge0(c) for c in conds): continue
        if not s.eq(v, val): return "got %r for %r" % (s.norm(v), s.norm(val))
    return True
def alts_out(num, alts, lo, hi):
    for conds, val in alts:
        s = num.copy()
        if not all(s.assume_ge0(c) for c in conds): continue
        if not (s.prove_ge0(val - hi - 1) or s.prove_ge0(L(lo) - val - 1)):
            s2 = s.copy()
            if s2.assume_ge0(val - lo) and s2.assume_ge0(L(hi) - val): return False
    return True

def de_root(P, name): return [b for b in P.find(name, "Deserializer") if "Deserializer<" in b.root["selfs"]]

def cells(chk, P, name, per, classes=None, ptrbits=64, mk=MpDe, maxpaths=6000, empty=None):
    """run a Deserializer method for the empty input and for every lead byte class; per(h, I, results) adds obligations"""
    bs = de_root(P, name)
    if len(bs) != 1: chk.undecided(name, "method not found"); return
    b = bs[0]
    for c in [None] + CLS:
        if classes is not None and c is not None and c[0] not in classes: continue
        h = mk(chk, "%s [%s]" % (name, "empty input" if c is None else "lead byte " + c[0]), c)
        h.meth = name
        I, rs, a = run(chk, P, b, h, args=lambda I, st, a, h=h: h.prepare(I, st, a), ptrbits=ptrbits, maxpaths=maxpaths)
        good = []
        for x in rs:
            if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where))
            elif x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where))
            else: good.append(x)
        if c is None and empty is not None: empty(h, I, good); continue
        if c is None:
            for x in good: cause(h, x, "eof"); h.ob("no input is an error", is_err(x.val) and not x.st.gh["ev"], "%r %r" % (x.val, x.st.gh["ev"]))
            continue
        per(h, I, good)

def visits(x): return [e for e in x.st.gh["ev"] if e[0] == "visit"]
def passes_result(h, x):
    """the visitor's own result is what the method returns"""
    v = x.st.gh["vres"]
    return isinstance(x.val, Enum) and x.val.f and x.val.f[0] == v
def cursor(x, h): return Cur(x.st, h.dep).pos

def judge(h, I, x, size, names, value_ok, refuse_ok, consumed="payload"):
    """one path of a method whose message in this class has `size` bytes: value_ok(x, args) -> True/message"""
    num = x.st.num; vs = visits(x)
    if not vs:
        if not is_err(x.val): h.ob("the visitor is asked", False, "returned %r without a visit" % (x.val,)); return
        short = num.prove_ge0(h.p0 + size - h.endp - 1)
        r = short or refuse_ok(x)
        cause(h, x, "eof" if short else "value")
        h.ob("valid input is accepted", bool(r), "refused (%r) although %r of %r bytes are there and the value is valid" % (x.val, num.norm(h.endp - h.p0), num.norm(L(size))))
        return
    if len(vs) != 1: h.ob("one visit", False, "%r" % (vs,)); return
    _, name, args, pos = vs[0]
    h.ob("visits the right kind", name in names, "visit_%s, expected visit_%s" % (name, "/".join(sorted(names))))
    if name not in names: return
    v = value_ok(x, args)
    h.ob("visits the encoded value", v is True, v if v is not True else "%s: %r" % (name, args))
    h.ob("needs the whole message", num.prove_ge0(h.endp - h.p0 - size), "accepted with %r bytes left of %r" % (num.norm(h.endp - h.p0), num.norm(L(size))))
    h.ob("consumes exactly the message", num.eq(cursor(x, h), h.p0 + size), "cursor moved by %r, message has %r bytes" % (num.norm(cursor(x, h) - h.p0), num.norm(L(size))))
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))

def refuse_all(h, x):
    cause(h, x, "type")
    h.ob("other types are refused", is_err(x.val) and not visits(x), "returned %r after %r" % (x.val, visits(x)))

def tied(st, key, root, off, ln):
    for k in st.preds:
        if isinstance(k, tuple) and k[0] == key and k[1] == root and st.num.eq(k[2][-1][1], off) and st.num.eq(k[3], ln): return True
    return False

def text_cell(h, I, x, ln, names=("borrowed_str",)):
    """str of this class: header size and length"""
    hs, n = ln
    def val(x, args):
        p = I.leafify(args[0])
        if not isinstance(p, Ptr) or p.root != h.root: return "text is not a part of the input: %r" % (p,)
        num = x.st.num
        if not num.eq(p.path[-1][1], h.p0 + hs) or not num.eq(p.meta, n): return "text is input[%r..+%r], message has it at %r, length %r" % (num.norm(p.path[-1][1]), num.norm(p.meta), num.norm(h.p0 + hs), num.norm(n))
        if names[0].endswith("str") and not tied(x.st, "utf8", h.root, h.p0 + hs, n): return "text was not validated as UTF-8"
        return True
    ref = lambda x: names[0].endswith("str") and tied(x.st, "badutf8", h.root, h.p0 + hs, n)
    judge(h, I, x, hs + n, names, val, ref)

def C10(chk):
    chk.rule("for each of the 8 targets and every lead byte class (with any payload and any truncation): the visitor gets exactly the encoded integer (linear equality over the payload bytes) iff it is representable and complete")
    P = prog(MP)
    for ty in INTS:
        lo, hi = RANGE[ty]
        def per(h, I, rs):
            for x in rs:
                m = h.ints(I, x.st)
                if m is None: refuse_all(h, x); continue
                size, alts = m
                def val(x, args):
                    v = args[0]
                    return alts_eq(x.st.num, alts, v) if isinstance(v, Lin) else "%r" % (v,)
                judge(h, I, x, size, (ty,), val, lambda x: alts_out(x.st.num, alts, lo, hi))
        cells(chk, P, "deserialize_" + ty, per)

def float_spec(h, I, st, bits):
    """(size, predicate on the visited value) for floats"""
    n = h.cls[0]
    if n in ("f32", "f64"):
        b = int(n[1:]); u = h.U(I, st, b // 8)
        def ok_(x, v):
            if b != v.bits or True:
                w = v
                if b != bits:
                    if not (isinstance(w.key, tuple) and w.key[0] == "cast" and w.key[2] == bits and isinstance(w.key[1], FloatV)): return "got %r, expected a %d-bit float converted" % (v, b)
                    w = w.key[1]
                if not (isinstance(w.key, tuple) and w.key[0] in ("sym", "bits") and w.bits == b): return "got %r" % (v,)
                e = w.key[1] if isinstance(w.key[1], Lin) else L(w.key[1])
                return True if x.st.num.eq(e, u) else "got the float with bits %r, the message has %r" % (x.st.norm(e), u)
        return 1 + b // 8, ok_
    if n == "nil": return 1, lambda x, v: True if v.cls == "nan" else "nil decoded as %r" % (v,)
    m = h.ints(I, st)
    if m is None: return None
    size, alts = m
    def ok_(x, v):
        if not (isinstance(v.key, tuple) and v.key[0] == "from_int" and isinstance(v.key[1], Lin)): return "got %r, expected the integer converted" % (v,)
        return alts_eq(x.st.num, alts, v.key[1])
    return size, ok_

def C11(chk):
    chk.rule("for every scalar target and lead byte class: accepted only from its own formats, with exactly the declared payload, value equal to the encoded one; everything else is an error")
    P = prog(MP)
    def bool_(h, I, rs):
        for x in rs:
            if h.cls[0] in ("true", "false"):
                w = L(1 if h.cls[0] == "true" else 0)
                judge(h, I, x, L(1), ("bool",), lambda x, a: True if isinstance(a[0], Lin) and x.st.num.eq(a[0], w) else "%r" % (a,), lambda x: False)
            else: refuse_all(h, x)
    cells(chk, P, "deserialize_bool", bool_)
    def unit(h, I, rs):
        for x in rs:
            if h.cls[0] == "nil": judge(h, I, x, L(1), ("unit",), lambda x, a: True, lambda x: False)
            else: refuse_all(h, x)
    cells(chk, P, "deserialize_unit", unit); cells(chk, P, "deserialize_unit_struct", unit)
    for bits in (32, 64):
        def fl(h, I, rs):
            for x in rs:
                s = float_spec(h, I, x.st, bits)
                if s is None: refuse_all(h, x); continue
                judge(h, I, x, L(s[0]), ("f%d" % bits,), lambda x, a: s[1](x, a[0]) if isinstance(a[0], FloatV) else "%r" % (a,), lambda x: False)
        cells(chk, P, "deserialize_f%d" % bits, fl)
    def text(h, I, rs):
        for x in rs:
            ln = h.length(I, x.st, "str")
            if ln is None: refuse_all(h, x)
            else: text_cell(h, I, x, ln)
    cells(chk, P, "deserialize_str", text); cells(chk, P, "deserialize_string", text)
    def byts(h, I, rs):
        for x in rs:
            ln = h.length(I, x.st, "bin")
            if ln is None: refuse_all(h, x)
            else: text_cell(h, I, x, ln, ("borrowed_bytes",))
    cells(chk, P, "deserialize_bytes", byts); cells(chk, P, "deserialize_byte_buf", byts)
    def char(h, I, rs):
        for x in rs:
            ln = h.length(I, x.st, "str")
            if ln is None: refuse_all(h, x); continue
            hs, n = ln; num = x.st.num
            key = x.st.norm(h.p0 + hs)
            def clen(x): return named("charlen@%s@%r" % (h.root, x.st.norm(h.p0 + hs)), 1, 4)
            def val(x, args):
                v = args[0]
                w = named("char@%s@%r" % (h.root, x.st.norm(h.p0 + hs)), 0, 0x10ffff)
                if not (isinstance(v, Lin) and num.eq(v, w)): return "got %r" % (v,)
                if not tied(x.st, "utf8", h.root, h.p0 + hs, n): return "text was not validated"
                return True if num.eq(n, clen(x)) else "accepted although the string is longer than the character"
            def ref(x):
                return tied(x.st, "badutf8", h.root, h.p0 + hs, n) or num.eq(n, ZERO) or num.prove_ge0(n - clen(x) - 1)
            judge(h, I, x, hs + n, ("char",), val, ref)
    cells(chk, P, "deserialize_char", char)
    def opt(h, I, rs):
        for x in rs:
            if h.cls[0] == "nil": judge(h, I, x, L(1), ("none", "unit"), lambda x, a: True, lambda x: False)
            else: whole(h, I, x, "some")
    cells(chk, P, "deserialize_option", opt)
    def newt(h, I, rs):
        for x in rs: whole(h, I, x, "newtype_struct")
    cells(chk, P, "deserialize_newtype_struct", newt, empty=newt)

def whole(h, I, x, name):
    """the visitor is handed the whole message, nothing consumed before or after"""
    vs = visits(x); num = x.st.num
    good = len(vs) == 1 and vs[0][1] == name
    h.ob("visits the right kind", good, "%r" % (vs,))
    if not good: return
    h.ob("the inner value starts at the message", num.eq(vs[0][3], h.p0), "at %r" % num.norm(vs[0][3] - h.p0))
    h.ob("nothing is consumed after the inner value", num.eq(cursor(x, h), x.st.gh["cur"]), "cursor moved")
    h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))

class Counted(MpDe):
    """a visitor that asks for elements in any order and number"""
    def setup(self, st):
        MpDe.setup(self, st); st.gh["at"] = None; st.gh["kind"] = None; st.gh["op"] = None; st.gh["vfail"] = ZERO; st.gh["called"] = ZERO; st.gh["last"] = None
    def drive_start(self, ctx, kind, fns):
        st = ctx.st
        c = Cur(st, self.dep).pos
        base = self.base(st)
        st.gh["kind"] = kind; st.gh["at"] = c; st.gh["k"] = ZERO; st.gh["vfail"] = ZERO; st.gh["n"] = None
        self.ob("size hint is offered", kind == "enum" or "size_hint" in fns, "%s access has no size_hint" % kind)
        for hk, want in (("array", "seq"), ("map", "map")):
            r = self.header_at(st, hk, base)
            if r is None: continue
            self.ob("container kind", kind == want, "visit_%s for a %s header" % (kind, hk))
            self.ob("elements start after the header", st.num.eq(c, base + r[0]), "cursor moved by %r, header has %d bytes" % (st.norm(c - base), r[0]))
            self.ob("header is complete", st.num.prove_ge0(self.endp - c), "header accepted beyond the input")
            st.gh["n"] = st.norm(r[1])
        self.ob("only container headers", st.gh["n"] is not None, "visit_%s" % kind)
    def base(self, st): return self.p0
    def hook(self, ctx, name):
        if name.startswith("choice:") and ctx.st.gh["vfail"] == ONE:
            return [(ctx.st, L(int(name[7:]) - 1))]       # a visitor passes errors on
        return MpDe.hook(self, ctx, name)
    def pre(self, ctx, name):
        st = ctx.st
        st.gh["op"] = name; st.gh["called"] = ZERO
    def at_nested(self, ctx, dep):
        st = ctx.st; num = st.num; op = st.gh["op"]
        if op is None: return
        self.ob("elements come from the same input", dep.root == self.dep.root, "%r" % (dep,))
        self.ob("one nested value per call", st.gh["called"] == ZERO, "called twice")
        self.ob("the element starts where the previous one ended", num.eq(Cur(st, dep).pos, st.gh["at"]), "at %r, expected %r" % (Cur(st, dep).pos, st.gh["at"]))
        if op != "next_value_seed" and st.gh["n"] is not None:
            self.ob("never more elements than declared", num.prove_ge0(st.gh["n"] - st.gh["k"] - 1), "element %r of %r offered" % (num.norm(st.gh["k"]), num.norm(st.gh["n"])))
            st.gh["k"] = num.norm(st.gh["k"] + 1)
        st.gh["called"] = ONE
    def after_nested(self, ctx, st, dep, good):
        if st.gh["op"] is not None: st.gh["at"] = Cur(st, dep).pos; st.gh["vfail"] = ZERO if good else ONE
    def post(self, ctx, name, r):
        st = ctx.st; num = st.num; n, k = st.gh["n"], st.gh["k"]
        if n is None: return
        if name == "size_hint":
            g = isinstance(r, Enum) and r.name == "Some" and num.eq(r.f[0], n - k)
            self.ob("size hint is the exact number left", g, "%r with %r left" % (r, num.norm(n - k)))
            return
        self.ob("nothing moves outside the element", num.eq(Cur(st, self.dep).pos, st.gh["at"]), "cursor at %r instead of %r" % (Cur(st, self.dep).pos, st.gh["at"]))
        called = st.gh["called"] == ONE
        if called:
            v = r.f[0] if is_ok(r) else r
            if name in ("next_element_seed", "next_key_seed") and is_ok(r): v = v.f[0] if isinstance(v, Enum) and v.name == "Some" else None
            elif is_err(r): v = r.f[0]
            self.ob("the element's own result is returned", v is not None and v == st.gh["last"] and (is_ok(r) == (st.gh["vfail"] == ZERO)), "%r" % (r,))
        else:
            g = name != "next_value_seed" and is_ok(r) and isinstance(r.f[0], Enum) and r.f[0].name == "None" and num.eq(n, k)
            self.ob("the end is reported exactly after the last element", g, "%r with %r left" % (r, num.norm(n - k)))
        st.gh["op"] = None

def counted(h, I, rs, kinds):
    for x in rs:
        num = x.st.num; kind = x.st.gh["kind"]
        r = None
        for hk in kinds: r = r or h.length(I, x.st, hk)
        if r is None:
            cause(h, x, "type")
            h.ob("other types are refused", is_err(x.val) and kind is None and not visits(x), "returned %r after visit_%s" % (x.val, kind)); continue
        if kind is None:
            cause(h, x, "eof")
            h.ob("valid header is accepted", is_err(x.val) and num.prove_ge0(h.p0 + r[0] - h.endp - 1), "%r with %r bytes left" % (x.val, num.norm(h.endp - h.p0))); continue
        n, k = x.st.gh["n"], x.st.gh["k"]
        if n is None: continue
        if x.st.gh["vok"] == ZERO: h.ob("the visitor's error is returned", is_err(x.val) and passes_result(h, x), "%r" % (x.val,)); continue
        if is_ok(x.val):
            h.ob("succeeds only when every declared element was read", num.eq(n, k), "Ok with %r of %r read" % (num.norm(k), num.norm(n)))
            h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))
            h.ob("nothing is consumed after the last element", num.eq(cursor(x, h), x.st.gh["cur"]), "cursor moved by %r" % num.norm(cursor(x, h) - x.st.gh["cur"]))
        else:
            cause(h, x, "left")
            h.ob("fails only when elements were left unread", num.prove_ge0(n - k - 1), "%r with %r of %r read" % (x.val, num.norm(k), num.norm(n)))

def C12(chk):
    chk.rule("for every container header class and every history of the visitor (abstract session over the access object with loop invariants): elements offered == declared, from consecutive positions, end and size hint exact, leftover elements an error")
    P = prog(MP)
    for name, kinds in (("deserialize_seq", ("array",)), ("deserialize_tuple", ("array",)), ("deserialize_tuple_struct", ("array",)), ("deserialize_map", ("map",)), ("deserialize_struct", ("array", "map"))):
        cells(chk, P, name, lambda h, I, rs, kinds=kinds: counted(h, I, rs, kinds), mk=Counted)

class EnumDe(Counted):
    """a visitor that reads the tag and then asks for one of the four payload kinds"""
    def setup(self, st):
        Counted.setup(self, st); st.gh["tag"] = None; st.gh["vop"] = None; st.gh["ecls"] = None; st.gh["inner"] = None
    def base(self, st): return st.gh["tag"] if st.gh["tag"] is not None else self.p0
    def drive_start(self, ctx, kind, fns):
        st = ctx.st
        if kind == "enum":
            m = self.cls[0] == "fixmap1"
            c = Cur(st, self.dep).pos
            st.gh["ecls"] = kind
            self.ob("the tag follows the one-entry map header, if any", st.num.eq(c, self.p0 + (1 if m else 0)), "access starts at %r" % st.norm(c - self.p0))
            st.gh["at"] = c
            return
        self.ob("payload asks for a container only for tuple and struct variants", st.gh["vop"] in ("tuple_variant", "struct_variant") and (kind == "seq" or st.gh["vop"] == "struct_variant"), "visit_%s in %s" % (kind, st.gh["vop"]))
        st.gh["inner"] = kind
        Counted.drive_start(self, ctx, kind, fns)
    def variant(self, ctx):
        st = ctx.st
        self.ob("the tag is read exactly once", st.gh["called"] == ONE, "not read")
        st.gh["tag"] = st.gh["at"]; st.gh["op"] = None
        self.ob("nothing moves after the tag", st.num.eq(Cur(st, self.dep).pos, st.gh["at"]), "cursor moved")
    def pre(self, ctx, name):
        st = ctx.st
        if name in ("unit_variant", "newtype_variant_seed", "tuple_variant", "struct_variant"):
            st.gh["vop"] = name; st.gh["op"] = "newtype" if name[0] == "n" else None; st.gh["called"] = ZERO; st.gh["inner"] = None; st.gh["n"] = None
            return
        Counted.pre(self, ctx, name)
    def post(self, ctx, name, r):
        st = ctx.st; num = st.num
        m = self.cls[0] == "fixmap1"
        at = st.gh["at"]
        moved = not num.eq(Cur(st, self.dep).pos, at)
        if name == "variant_seed":
            self.ob("a failed tag is reported", is_err(r) and (st.gh["called"] == ONE) and r.f[0] == st.gh["last"], "%r" % (r,)); st.gh["vfail"] = ONE; return
        if name == "unit_variant":
            self.ob("unit variants are bare tags", is_ok(r) == (not m), "%r %s" % (r, "for a one-entry map" if m else "for a bare tag"))
            if is_err(r): self.cause(st, r, "misuse", name)
            if is_ok(r): self.ob("a unit variant has no payload", not moved, "cursor moved")
        elif not m and name.endswith(("_variant", "_seed")) and name not in ("next_element_seed", "next_key_seed", "next_value_seed"):
            self.cause(st, r, "misuse", name)
            self.ob("a bare tag has no payload", is_err(r) and st.gh["called"] == ZERO and st.gh["inner"] is None, "%s: %r" % (name, r))
        elif name == "newtype_variant_seed":
            c = st.gh["called"] == ONE
            self.ob("the payload is read exactly once", c, "not read")
            if c: self.ob("the payload's own result is returned", is_ok(r) == (st.gh["vfail"] == ZERO) and r.f[0] == st.gh["last"] and not moved, "%r" % (r,))
        elif name in ("tuple_variant", "struct_variant"):
            if st.gh["inner"] is None:
                tag = st.gh["tag"]
                end = self.endp
                c = self.cls_at(st, tag) if num.prove_ge0(end - tag - 1) else None
                kinds = ("array",) if name[0] == "t" else ("array", "map")
                bad = num.prove_ge0(tag - end) or self.not_header(st, tag, kinds)
                short = any(self.header_at(st, k, tag) is not None and num.prove_ge0(tag + self.header_at(st, k, tag)[0] - end - 1) for k in kinds) if not bad else True
                self.cause(st, r, "eof" if num.prove_ge0(tag - end) or (not bad and short) else "type", "deserialize_seq" if name[0] == "t" else "deserialize_struct")
                self.ob("a valid payload header is accepted", is_err(r) and (bad or short), "%s: %r" % (name, r))
            else:
                n, k = st.gh["n"], st.gh["k"]
                if st.gh["vok"] == ZERO: self.ob("the payload's error is returned", is_err(r) and r.f[0] == st.gh["vres"], "%r" % (r,))
                elif n is not None:
                    if is_ok(r): self.ob("succeeds only when every declared element was read", num.eq(n, k) and r.f[0] == st.gh["vres"] and not moved, "%r with %r of %r read" % (r, num.norm(k), num.norm(n)))
                    else: self.cause(st, r, "left", name); self.ob("fails only when elements were left unread", num.prove_ge0(n - k - 1), "%r with %r of %r read" % (r, num.norm(k), num.norm(n)))
        else: Counted.post(self, ctx, name, r); return
        st.gh["vfail"] = ZERO if is_ok(r) else ONE
    def cause(self, st, r, what, name):
        if CAUSE is not None: CAUSE(self, st, r, what, name)
    def not_header(self, st, q, kinds):
        b = st.norm(st.num.byte(st.mem[self.root].name, st.norm(q)))
        g = set()
        for c in CLS:
            if any(c[0].startswith(("fix" + k, k)) for k in kinds): g |= set(range(c[1], c[2] + 1))
        if b.const(): return b.k not in g
        s = b.t[0][0]
        return len(b.t) == 1 and b.k == 0 and not (set(st.num.mask(s)) & g)

def C13(chk):
    chk.rule("deserialize_enum for every lead byte class and every history of the visitor (tag, then any payload kind, elements in any number): position of tag and payload, which payload kinds are admitted; deserialize_identifier per class: value and acceptance")
    P = prog(MP)
    def en(h, I, rs):
        for x in rs:
            num = x.st.num
            if x.st.gh["ecls"] is None:
                h.ob("every tag form is offered to the visitor", False, "%r without a visit" % (x.val,)); continue
            h.ob("returns the visitor's result", passes_result(h, x) and is_ok(x.val) == (x.st.gh["vok"] != ZERO), "%r" % (x.val,))
            h.ob("nothing is consumed after the payload", num.eq(cursor(x, h), x.st.gh["cur"]), "cursor moved")
    cells(chk, P, "deserialize_enum", en, mk=EnumDe)
    def ident(h, I, rs):
        for x in rs:
            ln = h.length(I, x.st, "str")
            if ln is not None: text_cell(h, I, x, ln); continue
            if h.cls[0] not in ("posfixint", "u8", "u16", "u32"): refuse_all(h, x); continue
            size, alts = h.ints(I, x.st)
            judge(h, I, x, size, ("u8", "u16", "u32", "u64"), lambda x, a: alts_eq(x.st.num, alts, a[0]) if isinstance(a[0], Lin) else "%r" % (a,), lambda x: False)
    cells(chk, P, "deserialize_identifier", ident)

def C14(chk):
    chk.rule("deserialize_any for every lead byte class, payload and truncation: the visit_* method of that class's own type and width, the exact value, the exact consumption; containers through the session analysis of C12")
    P = prog(MP)
    def any_(h, I, rs):
        n = h.cls[0]
        for x in rs:
            num = x.st.num
            if n == "reserved" or "ext" in n: refuse_all(h, x); continue
            if n.startswith(("fixmap", "map", "fixarray", "array")): counted(h, I, [x], ("map",) if "map" in n else ("array",)); continue
            m = h.ints(I, x.st)
            if m is not None:
                size, alts = m
                w = {"posfixint": "u8", "negfixint": "i8"}.get(n, n)
                judge(h, I, x, size, (w,), lambda x, a: alts_eq(num, alts, a[0]) if isinstance(a[0], Lin) else "%r" % (a,), lambda x: False); continue
            if n in ("f32", "f64"):
                s = float_spec(h, I, x.st, int(n[1:]))
                judge(h, I, x, L(s[0]), (n,), lambda x, a: s[1](x, a[0]) if isinstance(a[0], FloatV) else "%r" % (a,), lambda x: False); continue
            if n == "nil": judge(h, I, x, L(1), ("unit", "none"), lambda x, a: True, lambda x: False); continue
            if n in ("true", "false"):
                w = L(1 if n == "true" else 0)
                judge(h, I, x, L(1), ("bool",), lambda x, a: True if isinstance(a[0], Lin) and num.eq(a[0], w) else "%r" % (a,), lambda x: False); continue
            ln = h.length(I, x.st, "str")
            if ln is not None: text_cell(h, I, x, ln); continue
            ln = h.length(I, x.st, "bin")
            if ln is not None: text_cell(h, I, x, ln, ("borrowed_bytes",)); continue
            chk.undecided(h.where, "class not specified")
    cells(chk, P, "deserialize_any", any_, mk=Counted)

SIZES = {"posfixint": 1, "negfixint": 1, "nil": 1, "true": 1, "false": 1, "f32": 5, "f64": 9, "u8": 2, "u16": 3, "u32": 5, "u64": 9, "i8": 2, "i16": 3, "i32": 5, "i64": 9,
         "fixext1": 3, "fixext2": 4, "fixext4": 6, "fixext8": 10, "fixext16": 18, "fixmap0": 1, "fixmap1": 1, "fixmap": 1, "fixarray": 1}

class Eat(DeHandler):
    """the specification runs along: g = where the next item starts, pend = messages still to skip.  It advances over every item whose
    lead byte and length bytes have been looked at (at loop heads and at the end)."""
    MAXSTEP = 3
    def setup(self, st):
        DeHandler.setup(self, st); st.gh["g"] = ZERO; st.gh["pend"] = ONE; st.gh["stuck"] = ZERO
    def started(self, I, st): st.gh["g"] = self.p0
    def read(self, st, q):
        """has the byte at q been looked at on this path?"""
        for o, _ in st.num.by.get(st.mem[self.root].name, []):
            if st.num.prove_eq0(o - q): return True
        return False
    def item(self, I, st, q):
        """(size, nested messages) of the item at q | "reserved" | None when this path has not decided it"""
        num = st.num
        b = lambda i: st.norm(num.byte(st.mem[self.root].name, st.norm(q + i)))
        c = b(0)
        if c.const(): vals = {c.k}
        elif len(c.t) == 1 and c.k == 0 and small_root(SYMS[c.t[0][0]]) == c.t[0][0]: vals = set(num.mask(c.t[0][0]))
        else: return None
        cls = [x for x in CLS if any(x[1] <= v <= x[2] for v in vals)]
        names = [x[0] for x in cls]
        if names == ["reserved"]: return "reserved"
        if all(n in SIZES for n in names):
            nested = [n for n in names if n.startswith("fixmap") or n == "fixarray"]
            sz = {SIZES[n] for n in names}
            def tab(f):
                t = tuple(f(v) for v in range(256))
                xs = {t[v] for v in vals}
                return L(xs.pop()) if len(xs) == 1 else num.op(("tbl", t), [c], min(t), max(t))
            size = L(sz.pop()) if len(sz) == 1 else tab(lambda v: next((SIZES.get(n[0], 1) for n in CLS if n[1] <= v <= n[2]), 1))
            if not nested: return size, ZERO
            if all(n == "fixarray" for n in names): return size, c - 0x90
            if all(n.startswith("fixmap") for n in names): return size, (c - 0x80) * 2
            return size, tab(lambda v: v - 0x90 if 0x90 <= v <= 0x9f else 2 * (v - 0x80) if 0x80 <= v <= 0x8f else 0)
        if names == ["fixstr"]: return c - 0xa0 + 1, ZERO
        k = {int(n[-2:].strip("rnpty")) // 8 for n in names if n[-1] in "862" and n not in SIZES}
        if len(k) != 1 or any(n in SIZES or n == "fixstr" or n == "reserved" for n in names): return None
        k = k.pop()
        kinds = {n.rstrip("0123456789") for n in names}
        # the length bytes must be inside the input to be meaningful
        u = ZERO
        for i in range(k): u = u * 256 + b(1 + i)
        if kinds <= {"str", "bin"}: return st.norm(u + 1 + k), ZERO
        if kinds == {"ext"}: return st.norm(u + 2 + k), ZERO
        if kinds == {"array"}: return L(1 + k), st.norm(u)
        if kinds == {"map"}: return L(1 + k), st.norm(u * 2)
        return None
    def advance(self, I, st):
        num = st.num
        for _ in range(64):
            g, pend = st.gh["g"], st.gh["pend"]
            if not num.prove_ge0(pend - 1): return
            if not num.prove_ge0(self.endp - g - 1) or not self.read(st, g): return
            it = self.item(I, st, g)
            if it is None or it == "reserved": return
            size, m = it
            if not num.prove_ge0(self.endp - g - size): return
            st.gh["g"] = num.norm(g + size); st.gh["pend"] = num.norm(pend - 1 + m)
    def on_back(self, I, st, fr):
        if getattr(self, "dep", None) is None: return
        v = st.mem.get(self.dep.root)
        # in step with the reader already: what is known of the next item was not learnt by reading it
        if isinstance(v, Agg) and st.num.eq(Cur(st, self.dep).pos, st.gh["g"]): return
        self.advance(I, st)

def eat_paths(chk, P, b, ptrbits):
    h = Eat(chk, where(b) + (" [32-bit]" if ptrbits == 32 else ""))
    I, rs, a = run(chk, P, b, h, args=lambda I, st, a: h.prepare(I, st, a), ptrbits=ptrbits)
    eat_judge(chk, h, I, rs, ptrbits)
def eat_judge(chk, h, I, rs, ptrbits):
    umax = (1 << ptrbits) - 1
    for x in rs:
        if x.kind == "imprecise": chk.undecided(h.where, "%s (%s)" % (x.val, x.where)); continue
        if x.kind == "panic": h.ob("no panic", False, "%s in %s" % (x.val, x.where)); continue
        h.advance(I, x.st)
        num = x.st.num; g, pend = x.st.gh["g"], x.st.gh["pend"]
        cur = cursor(x, h)
        h.ob("the cursor stays inside the input", num.prove_ge0(h.endp - cur), "cursor at %r of %r" % (cur, h.endp))
        vs = visits(x)
        if vs:
            h.ob("visits unit once", len(vs) == 1 and vs[0][1] in ("unit", "none"), "%r" % (vs,))
            h.ob("returns the visitor's result", passes_result(h, x), "%r" % (x.val,))
        if is_ok(x.val) or vs:
            h.ob("succeeds only after a whole message", num.eq(pend, ZERO), "returned with %r messages to go" % num.norm(pend))
            h.ob("stops exactly behind the message", num.eq(cur, g), "cursor at %r, the message ends at %r" % (num.norm(cur), num.norm(g)))
            continue
        # errors
        if num.prove_eq0(pend): h.ob("a complete message is skipped without error", False, "%r" % (x.val,)); continue
        if num.prove_ge0(g - h.endp): cause(h, x, "eof"); h.ob("error is justified", True, "truncated"); continue
        if not h.read(x.st, g):
            # refused without looking at the next item: only for counts that cannot be in any input
            cause(h, x, "eof")
            h.ob("error is justified", num.prove_ge0(pend - umax - 1), "%r although an item is left to look at" % (x.val,)); continue
        it = h.item(I, x.st, g)
        if it == "reserved": cause(h, x, "reserved"); h.ob("error is justified", True, "reserved byte"); continue
        if it is None: chk.undecided(h.where, "item not decided: %r" % (x.val,)); continue
        size, m = it
        short = num.prove_ge0(g + size - h.endp - 1)
        many = num.prove_ge0(pend - 1 + m - umax - 1) or num.prove_ge0(m - umax - 1) or num.prove_ge0(g + size - umax - 1) or num.prove_ge0(size - umax - 1)
        cause(h, x, "eof")
        h.ob("error is justified", short or many, "%r for an item of %r bytes with %r left" % (x.val, num.norm(size), num.norm(h.endp - g)))

def C15(chk):
    chk.rule("the item grammar of MessagePack runs along the skipping loop (ghosts: next item position, messages to go; invariants inferred): Ok iff the count reaches 0, cursor there; errors only for the reserved byte or truncation")
    P = prog(MP)
    for name in ("deserialize_ignored_any", "eat_message"):
        bs = [b for b in P.find(name) if "Deserializer<" in b.root["selfs"]]
        if not bs: chk.undecided(name, "not found")
        for b in bs:
            for pb in (64, 32): eat_paths(chk, P, b, pb)

CHECKS = {"C10": C10, "C11": C11, "C12": C12, "C13": C13, "C14": C14, "C15": C15}
