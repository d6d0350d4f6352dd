"""MessagePack serializer: what every path writes, compared with the format."""
from .lib import *
from . import cause

SERS = ("CompactSerializer", "StructMapIdxSerializer", "StructMapStrSerializer")
INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]

def ser_fns(P, name):
    return [b for b in P.find(name, "Serializer") if "Serializer<" in b.root["selfs"]]

def basic(chk, b, rs, what="fn"):
    """splits the results; panics and imprecision become obligations of this check"""
    good = []
    for x in rs:
        if x.kind == "imprecise": chk.undecided(where(b), "%s (%s)" % (x.val, x.where))
        elif x.kind == "panic": chk.ob("no-panic", where(b), False, "%s in %s" % (x.val, x.where))
        else: good.append(x)
    return good

def decode_int(num, bs):
    """integer message -> list of (lo,hi,value Lin, ok) alternatives: value the bytes denote"""
    b0 = num.norm(bs[0])
    n = len(bs) - 1
    if b0.const():
        m = b0.k & 0xff
        sizes = {0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8}
        if m in sizes:
            if sizes[m] != n: return "marker %#x followed by %d payload bytes" % (m, n)
            u = ZERO
            for b in bs[1:]: u = u * 256 + b
            return ("u", num.norm(u), n) if m < 0xd0 else ("s", num.norm(u), n)
    if n: return "lead byte %r followed by %d bytes" % (b0, n)
    lo, hi = num.bounds(b0)
    if num.prove_ge0(b0) and num.prove_ge0(L(127) - b0): return ("v", b0)
    if num.prove_ge0(b0 - 0xe0) and num.prove_ge0(L(255) - b0): return ("v", b0 - 256)
    return "lead byte in [%s,%s] is not a fixint" % (lo, hi)

def denotes(num, bs, x):
    """the integer message bs denotes exactly x?  (decided separately for x >= 0 and x < 0)"""
    for c in (x, -x - 1):
        s = num.copy()
        if not s.assume_ge0(c): continue
        d = decode_int(s, bs)
        if isinstance(d, str): return d
        if d[0] in ("v", "u"):
            if not s.eq(d[1], x): return "bytes denote %r, value is %r" % (d[1], s.norm(x))
            continue
        u, n = d[1], d[2]; h = 1 << (8 * n - 1)
        if s.eq(u, x) and s.prove_ge0(L(h - 1) - u): continue
        if s.eq(u - 2 * h, x) and s.prove_ge0(u - h): continue
        return "%d-byte signed payload %r, value is %r" % (n, u, s.norm(x))
    return True

def minimal_int(num, total, x):
    lim = {1: None, 2: (-32, 127), 3: (-128, 255), 5: (-32768, 65535), 9: (-(1 << 31), (1 << 32) - 1)}
    if total not in lim: return "%d bytes" % total
    if lim[total] is None: return True
    lo, hi = lim[total]
    if num.prove_ge0(x - hi - 1) or num.prove_ge0(L(lo) - x - 1): return True
    a, b = num.bounds(x)
    return "%d bytes used although a value in [%s,%s] may fit in fewer" % (total, a, b)

def all_bytes(tr):
    return all(isinstance(x, Lin) for x in tr)

def err_caused(x): return x.st.gh.get("err") is not None

def C03(chk):
    chk.rule("every non-failing path of serialize_<int> writes one integer message whose decoded value equals the argument (linear equality) "
             "and whose length is minimal for the argument's range on that path")
    for cfg in cfgs("std", "nostd"):
        P = prog(MP, cfg)
        for ty in INTS:
            for b in ser_fns(P, "serialize_" + ty):
                h = SerHandler()
                I, rs, a = run(chk, P, b, h)
                n = 0
                for x in basic(chk, b, rs):
                    if is_err(x.val):
                        chk.ob("error only from the writer", where(b), err_caused(x), "refused without a writer error")
                        continue
                    if err_caused(x): continue        # C02
                    n += 1
                    tr = x.st.gh["trace"]; num = x.st.num
                    if not all_bytes(tr) or not tr:
                        chk.ob("writes one integer message", where(b), False, "wrote %r" % (tr,)); continue
                    v = a[1]
                    d = denotes(num, tr, v)
                    chk.ob("value", where(b), d is True, d if d is not True else "%d byte(s): %r = argument in %s" % (len(tr), tr, num.bounds(v)))
                    m = minimal_int(num, len(tr), v)
                    chk.ob("shortest form", where(b), m is True, m if m is not True else "%d byte(s) for argument in %s" % (len(tr), num.bounds(v)))
                if not n: chk.undecided(where(b), "no successful path")

CHECKS = {"C03": C03}
# ---------------------------------------------------------------------------------------------- headers
FORMS = {   # kind -> (fix lead, fix max, ((marker, payload bytes, smallest length), ...))
    "str": (0xa0, 31, ((0xd9, 1, 32), (0xda, 2, 256), (0xdb, 4, 65536))),
    "bin": (None, -1, ((0xc4, 1, 0), (0xc5, 2, 256), (0xc6, 4, 65536))),
    "array": (0x90, 15, ((0xdc, 2, 16), (0xdd, 4, 65536))),
    "map": (0x80, 15, ((0xde, 2, 16), (0xdf, 4, 65536))),
}
def header(num, tr, kind):
    """-> (length Lin, smallest length this form is minimal for, items used) or a message"""
    if not tr or not isinstance(tr[0], Lin): return "no header: %r" % (tr[:1],)
    b0 = num.norm(tr[0])
    fix, mx, forms = FORMS[kind]
    if fix is not None and num.prove_ge0(b0 - fix) and num.prove_ge0(L(fix + mx) - b0): return num.norm(b0 - fix), 0, 1
    if b0.const():
        for m, n, lo in forms:
            if b0.k == m:
                bs = tr[1:1 + n]
                if len(bs) < n or not all_bytes(bs): return "marker %#x without %d length bytes" % (m, n)
                u = ZERO
                for b in bs: u = u * 256 + b
                return num.norm(u), lo, 1 + n
    return "lead byte %r is not a %s header" % (b0, kind)

def check_header(num, tr, kind, n):
    """True or message; also returns number of items used"""
    h = header(num, tr, kind)
    if isinstance(h, str): return h, 0
    if not num.eq(h[0], n): return "header states %r, length is %r" % (h[0], num.norm(n)), h[2]
    if not num.prove_ge0(n - h[1]): return "%d-byte header although the length may be below %d" % (h[2], h[1]), h[2]
    return True, h[2]

def payload_ok(num, items, p):
    """the items are exactly the bytes of the slice p"""
    pos = num.norm(p.path[-1][1]); end = num.norm(pos + p.meta)
    for it in items:
        if isinstance(it, Lin):
            if not (num.lt(pos, end) and num.eq(it, num.byte(bufname(p), pos))): return "byte %r is not the payload byte at %r" % (it, pos)
            pos = pos + 1
        elif it[0] == "seg" and it[1] == p.root:
            if not num.eq(it[2], pos): return "piece starts at %r instead of %r" % (it[2], pos)
            pos = num.norm(pos + it[3])
        else: return "unexpected output %r" % (it,)
    return True if num.eq(pos, end) else "payload ends at %r instead of %r" % (pos, end)

def bufname(p): return p.root[1] if p.root[0] == "B" else p.root

def C04(chk):
    chk.rule("the bytes preceding a payload parse as a header whose length equals the symbolic length and is in minimal form for every length on the path; "
             "refusal only for lengths above u32::MAX and with nothing written")
    for cfg in cfgs("std", "nostd"):
        P = prog(MP, cfg)
        for name, kind, argi in (("serialize_str", "str", 1), ("serialize_bytes", "bin", 1), ("serialize_seq", "array", 1), ("serialize_tuple", "array", 1),
                                 ("serialize_tuple_struct", "array", 2), ("serialize_map", "map", 1), ("serialize_struct", None, 2)):
            for b in ser_fns(P, name):
                k = kind or ("array" if "Compact" in b.root["selfs"] else "map")
                box = {}
                def setargs(I, st, a):
                    v = a[argi]
                    if name in ("serialize_seq", "serialize_map"):
                        n = fresh("n", 0, (1 << 64) - 1); a[argi] = some(n)
                    elif isinstance(v, Ptr): n = v.meta
                    else: n = v
                    box["n"] = n; box["p"] = v if isinstance(v, Ptr) else None
                h = SerHandler()
                I, rs, a = run(chk, P, b, h, args=setargs)
                n = box["n"]; oks = 0
                for x in basic(chk, b, rs):
                    num = x.st.num; tr = x.st.gh["trace"]
                    if is_err(x.val):
                        if err_caused(x): continue
                        chk.ob("refused only above u32::MAX", where(b), num.prove_ge0(n - (1 << 32)), "refused for length in %s" % (num.bounds(n),))
                        chk.ob("refused before writing", where(b), not tr, "already wrote %r" % (tr,))
                        cause.whole(chk, where(b), x.val, cause.LEN[k], "the %s is too long" % k)
                        continue
                    if err_caused(x): continue
                    oks += 1
                    c, used = check_header(num, tr, k, n)
                    chk.ob("header", where(b), c is True, c if c is not True else "%s header of %d byte(s), length in %s" % (k, used, num.bounds(n)))
                    if c is not True: continue
                    rest = tr[used:]
                    if box["p"] is not None:
                        r = payload_ok(num, rest, box["p"])
                        chk.ob("payload", where(b), r is True, r if r is not True else "exactly the %r payload bytes" % (num.norm(n),))
                    else: chk.ob("nothing but the header", where(b), not rest, "also wrote %r" % (rest,))
                if not oks: chk.undecided(where(b), "no successful path")

# ---------------------------------------------------------------------------------------------- scalars
def same_ptr(I, st, p, q):
    p = I.leafify(p); q = I.leafify(q)
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.root == q.root and len(p.path) == len(q.path) and repr(p.path) == repr(q.path)

def same_value(I, st, a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a.id == b.id
    if isinstance(a, Ptr) and isinstance(b, Ptr): return same_ptr(I, st, a, b)
    return a is b

def utf8_of(num, c):
    """UTF-8 bytes of the scalar value c on a path where its length class is decided"""
    d = lambda m: num.div(c, m)
    lim = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)]
    for i, (lo, hi) in enumerate(lim):
        if num.prove_ge0(c - lo) and num.prove_ge0(L(hi) - c):
            if i == 0: return [c]
            lead = {1: 0xc0, 2: 0xe0, 3: 0xf0}[i]
            out = [d(64 ** i) + lead]
            for j in range(i - 1, -1, -1):
                out.append(d(64 ** j) - d(64 ** (j + 1)) * 64 + 0x80)
            return [num.norm(x) for x in out]
    return None

def C05(chk):
    chk.rule("constant-byte forms, float payload bytes equal to the argument's bit pattern, char as minimal str header + its UTF-8 bytes, transparent Some/newtype")
    for cfg in cfgs("std", "nostd"):
        P = prog(MP, cfg)
        const = [("serialize_unit", [0xc0]), ("serialize_unit_struct", [0xc0]), ("serialize_none", [0xc0])]
        for name, want in const:
            for b in ser_fns(P, name):
                I, rs, a = run(chk, P, b, SerHandler())
                for x in basic(chk, b, rs):
                    if err_caused(x): continue
                    tr = x.st.gh["trace"]
                    chk.ob("constant form", where(b), is_ok(x.val) and all_bytes(tr) and [x.st.norm(t) for t in tr] == [L(w) for w in want], "wrote %r, expected %s" % (tr, want))
        for b in ser_fns(P, "serialize_bool"):
            I, rs, a = run(chk, P, b, SerHandler())
            seen = set()
            for x in basic(chk, b, rs):
                if err_caused(x): continue
                tr = x.st.gh["trace"]; num = x.st.num
                v = a[1]
                okv = False
                if is_ok(x.val) and len(tr) == 1 and isinstance(tr[0], Lin):
                    e = v.e if isinstance(v, Cond) else v
                    if isinstance(v, Lin): okv = num.eq(tr[0], v + 0xc2)
                chk.ob("bool byte", where(b), okv, "wrote %r for %r" % (tr, v))
        for name, mk, n in (("serialize_f32", 0xca, 4), ("serialize_f64", 0xcb, 8)):
            for b in ser_fns(P, name):
                I, rs, a = run(chk, P, b, SerHandler())
                for x in basic(chk, b, rs):
                    if err_caused(x): continue
                    tr = x.st.gh["trace"]; num = x.st.num; okv = False; u = None
                    if is_ok(x.val) and all_bytes(tr) and len(tr) == n + 1 and num.eq(tr[0], L(mk)):
                        u = ZERO
                        for t in tr[1:]: u = u * 256 + t
                        okv = num.eq(u, I.float_bits(x.st, a[1]))
                    chk.ob("float bytes", where(b), okv, "wrote %r" % (tr,) if not okv else "marker %#x + big-endian bits" % mk)
        for b in ser_fns(P, "serialize_char"):
            I, rs, a = run(chk, P, b, SerHandler())
            for x in basic(chk, b, rs):
                if err_caused(x): continue
                tr = x.st.gh["trace"]; num = x.st.num
                u = utf8_of(num, num.norm(a[1]))
                if u is None:
                    chk.undecided(where(b), "length class of the char not decided"); continue
                okv = is_ok(x.val) and all_bytes(tr) and len(tr) == 1 + len(u) and num.eq(tr[0], L(0xa0 + len(u))) and all(num.eq(p, q) for p, q in zip(tr[1:], u))
                chk.ob("char bytes", where(b), okv, "wrote %r, UTF-8 is %r" % (tr, u))
        for name, vi in (("serialize_some", 1), ("serialize_newtype_struct", 2)):
            for b in ser_fns(P, name):
                I, rs, a = run(chk, P, b, SerHandler())
                for x in basic(chk, b, rs):
                    if err_caused(x): continue
                    tr = x.st.gh["trace"]
                    okv = is_ok(x.val) and len(tr) == 1 and not isinstance(tr[0], Lin) and tr[0][0] == "val" and same_value(I, x.st, tr[0][1], a[vi]) and same_ptr(I, x.st, tr[0][2], a[0])
                    chk.ob("transparent", where(b), okv, "wrote %r" % (tr,))
        for b in P.find("is_human_readable"):
            I, rs, a = run(chk, P, b, SerHandler())
            for x in basic(chk, b, rs): chk.ob("not human readable", where(b), x.st.norm(x.val) == ZERO if isinstance(x.val, Lin) else False, repr(x.val))
        chk.ob("is_human_readable overridden", cfg, len(P.find("is_human_readable")) >= 4, "only %d overrides" % len(P.find("is_human_readable")))

CHECKS = {"C03": C03, "C04": C04, "C05": C05}
