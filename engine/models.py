"""Transfer functions of library functions whose bodies are not analysed."""
import re
from .dom import *
from .interp import *

MODELS = {}
PATTERNS = []
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def pattern(rx):
    r = re.compile(rx)
    def d(f):
        PATTERNS.append((lambda p, rp, c, r=r: r.search(rp) or r.search(p), f)); return f
    return d

def optty(ctx): return ctx.dty
def some(v): return Enum(1, (v,), "Some")
NONE = Enum(0, (), "None")
def ok(v): return Enum(0, (v,), "Ok")
def err(v): return Enum(1, (v,), "Err")

# ---------------------------------------------------------------- panics
@pattern(r"^core::panicking::|^core::option::(unwrap|expect)_failed|^core::result::unwrap_failed|slice_index_fail|len_mismatch_fail|^std::rt::begin_panic|^core::str::slice_error_fail|^core::slice::index::slice_.*_fail|from_ascii_bytes_radix_panic|^core::cell::panic|^alloc::alloc::handle_alloc_error|capacity_overflow|^core::num::imp::overflow_panic|^core::num::overflow_panic")
def _panic(ctx):
    ctx.I.finish(ctx.st, "panic", ctx.c.get("rp") or ctx.c["p"], ctx.res); return []
@pattern(r"^core::slice::index::RangeError::report")
def _report(ctx): ctx.I.finish(ctx.st, "panic", "slice index", ctx.res); return []

# ---------------------------------------------------------------- intrinsics
@model("intrinsic:cold_path", "intrinsic:assert_inhabited", "intrinsic:assert_zero_valid", "intrinsic:assert_mem_uninitialized_valid")
def _noop(ctx): return [(ctx.st, UNIT)]
@model("intrinsic:black_box", "intrinsic:likely", "intrinsic:unlikely")
def _id(ctx): return [(ctx.st, ctx.args[0])]
@model("intrinsic:size_of_val", "intrinsic:size_of", "intrinsic:align_of", "intrinsic:min_align_of", "intrinsic:align_of_val", "intrinsic:min_align_of_val", "core::mem::size_of_val", "core::mem::size_of")
def _sizeof(ctx):
    """size of a generic type (concrete ones are folded by rustc): any length"""
    return [(ctx.st, fresh("size", 0, (1 << (ctx.I.ptrbits - 1)) - 1))]
from .interp import BYTES
@model("intrinsic:bswap")
def _bswap(ctx):
    I, st = ctx.I, ctx.st
    v = ctx.args[0]; t = ctx.atys[0] if ctx.atys[0] is not None else ctx.dty
    if not isinstance(v, Lin): return [(st, I.fresh(st, ctx.dty, "bswap"))]
    n = I.bits(t) // 8
    lo, hi = I.int_range(t)
    if lo < 0: v = I.wrap(st, v, {"k": "int", "bits": n * 8, "signed": False})
    bs = decompose(I, st, v, n)
    e = ZERO
    for i, b in enumerate(bs): e = e + b * (1 << (8 * (n - 1 - i)))
    if lo < 0: return I.wrap_fork(st, e, t)
    e = st.norm(e)
    BYTES[(e, n)] = bs[::-1]
    return [(st, e)]
def decompose(I, st, v, n):
    """little endian bytes of a non-negative value"""
    if (v, n) in BYTES: return list(BYTES[(v, n)])
    return [st.num.mod(st.num.div(v, 1 << (8 * i)), 256) for i in range(n)]
@model("intrinsic:ctlz", "intrinsic:cttz", "intrinsic:ctpop", "intrinsic:ctlz_nonzero", "intrinsic:cttz_nonzero")
def _bits(ctx):
    I, st = ctx.I, ctx.st
    v = ctx.args[0]; t = ctx.atys[0]
    if isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
    nb = I.bits(t)
    if isinstance(v, Lin):
        v = st.norm(v)
        if v.const():
            x = v.k & ((1 << nb) - 1)
            n = ctx.c["intrinsic"]
            r = bin(x).count("1") if n == "ctpop" else nb - x.bit_length() if n.startswith("ctlz") else (x & -x).bit_length() - 1 if x else nb
            return [(st, L(r))]
        if ctx.c["intrinsic"].startswith("ctlz"):
            lo, hi = st.num.bounds(v)
            if lo is not None and lo >= 0 and hi is not None:
                # partition by bit length
                out = []
                for k in range(hi.bit_length(), lo.bit_length() - 1, -1):
                    s = st.copy()
                    a, b = (0, 0) if k == 0 else (1 << (k - 1), (1 << k) - 1)
                    if s.num.assume_ge0(v - a) and s.num.assume_ge0(L(b) - v):
                        s.forks += 1; out.append((s, L(nb - k)))
                return out
    return [(st, fresh("bits", 0, nb))]
@model("intrinsic:saturating_sub", "intrinsic:saturating_add")
def _satsub(ctx):
    I, st = ctx.I, ctx.st; a, b = ctx.args
    t = ctx.atys[0] if ctx.atys[0] is not None else ctx.dty
    lo, hi = I.int_range(t)
    r = a - b if ctx.c["intrinsic"] == "saturating_sub" else a + b
    out = []
    x, y = I.branch(st, Cond("ge", r - lo))
    if y is not None: out.append((y, L(lo)))
    if x is not None:
        x, y = I.branch(x, Cond("ge", L(hi) - r))
        if y is not None: out.append((y, L(hi)))
        if x is not None: out.append((x, r))
    return out
@model("intrinsic:integer_min", "intrinsic:integer_max")
def _minmax(ctx):
    I, st = ctx.I, ctx.st
    a, b = ctx.args
    if not isinstance(a, Lin) or not isinstance(b, Lin): return NotImplemented
    x, y = I.branch(st, Cond("ge", b - a))
    if ctx.c["intrinsic"] == "integer_max": a, b = b, a
    out = []
    if x is not None: out.append((x, a))
    if y is not None: out.append((y, b))
    return out
@model("intrinsic:select_unpredictable", "core::hint::select_unpredictable")
def _select(ctx):
    I, st = ctx.I, ctx.st
    c = ctx.args[0]
    x, y = I.branch(st, c if isinstance(c, Cond) else Cond("ne", c))
    out = []
    if x is not None: out.append((x, ctx.args[1]))
    if y is not None: out.append((y, ctx.args[2]))
    return out
@model("intrinsic:is_val_statically_known")
def _svk(ctx): return [(ctx.st, ZERO)]
@model("intrinsic:typed_swap_nonoverlapping")
def _tswap(ctx):
    I, st = ctx.I, ctx.st
    a, b = I.leafify(ctx.args[0]), I.leafify(ctx.args[1])
    x, y = I.load(st, a.root, a.path), I.load(st, b.root, b.path)
    I.store(st, a.root, a.path, y); I.store(st, b.root, b.path, x)
    return [(st, UNIT)]
@model("intrinsic:fabs", "intrinsic:fabsf32", "intrinsic:fabsf64")
def _fabs(ctx):
    v = ctx.args[0]
    if isinstance(v, FloatV): return [(ctx.st, FloatV(("abs", v), v.cls, v.bits))]
    return NotImplemented
@pattern(r"core::f(32|64)::(<impl f(32|64)>::|)(is_nan|is_finite|is_infinite|classify)$|core::num::(imp::)?f(32|64)::<impl f(32|64)>::(is_nan|is_finite|is_infinite|classify)$|<impl f(32|64)>::(is_nan|is_finite|is_infinite|classify)$")
def _fclass(ctx):
    v = ctx.args[0]
    if not isinstance(v, FloatV) or not v.cls: return NotImplemented
    n = ctx.c["p"].split("::")[-1]
    if n == "classify":
        t = ctx.I.T(ctx.dty)
        nm = {"nan": ["Nan"], "inf": ["Infinite"], "fin": ["Zero", "Subnormal", "Normal"]}[v.cls]
        out = []
        for x in nm:
            i = [w[0] for w in t["vs"]].index(x)
            out.append((ctx.st.copy(), Enum(i, (), x)))
        return out
    return [(ctx.st, L({"is_nan": v.cls == "nan", "is_finite": v.cls == "fin", "is_infinite": v.cls == "inf"}[n]))]
@model("intrinsic:ptr_offset_from_unsigned", "intrinsic:ptr_offset_from")
def _poff(ctx):
    a, b = [ctx.I.leafify(x) for x in ctx.args]
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root:
        x = a.path[-1][1] if a.path and a.path[-1][0] == "e" else ZERO
        y = b.path[-1][1] if b.path and b.path[-1][0] == "e" else ZERO
        return [(ctx.st, ctx.st.norm(x - y))]
    raise Imprecise("offset_from")
@model("intrinsic:copy", "intrinsic:copy_nonoverlapping")
def _copy(ctx):
    ctx.I.copy_mem(ctx.st, ctx.args[0], ctx.args[1], ctx.args[2], ctx.c["intrinsic"] != "copy"); return [(ctx.st, UNIT)]
@model("intrinsic:compare_bytes", "intrinsic:raw_eq")
def _cmpb(ctx):
    I, st = ctx.I, ctx.st
    a, b = I.leafify(ctx.args[0]), I.leafify(ctx.args[1])
    n = st.norm(ctx.args[2]) if len(ctx.args) > 2 else None
    if n is None or not n.const() or n.k > 64:
        r = fresh("memcmp", -255, 255)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and n is not None and a.path and b.path and a.path[-1][0] == b.path[-1][0] == "e":
            st.preds[("memcmp", a.root, st.norm(a.path[-1][1]), b.root, st.norm(b.path[-1][1]), n)] = r
        return [(st, r)]
    out = []
    cur = st
    for i in range(n.k):
        x = I.load(cur, a.root, a.path[:-1] + (("e", cur.norm(a.path[-1][1] + i)),))
        y = I.load(cur, b.root, b.path[:-1] + (("e", cur.norm(b.path[-1][1] + i)),))
        e, ne = I.branch(cur, Cond("eq", x - y))
        if ne is not None: out.append((ne, fresh("memcmp", 1, 255) if False else L(1)))
        if e is None: cur = None; break
        cur = e
    if cur is not None: out.append((cur, ZERO))
    return out

# ---------------------------------------------------------------- MaybeUninit
@model("core::mem::maybe_uninit::MaybeUninit::<T>::uninit")
def _uninit(ctx):
    t = ctx.I.T(ctx.dty)
    # MaybeUninit<[MaybeUninit<u8>; N]> -> array of uninit
    a = ctx.I.T(ctx.c["args"][0])
    if a["k"] == "array": return [(ctx.st, Agg([None] * a["n"]))]
    return [(ctx.st, None)]
@model("core::mem::maybe_uninit::MaybeUninit::<T>::assume_init")
def _ainit(ctx): 
    v = ctx.args[0]
    return [(ctx.st, _inited(ctx, v))]
def _inited(ctx, v):
    if v is None and ctx.I.h: ctx.I.h.on_unsafe(ctx.I, ctx.st, "uninit-read", None)
    t = ctx.I.T(ctx.dty)
    return ctx.I.leafify(v) if t and t["k"] in ("int", "bool", "char", "float", "ref", "ptr") else v
@model("core::mem::maybe_uninit::MaybeUninit::<T>::write")
def _muwrite(ctx):
    p = ctx.I.leafify(ctx.args[0])
    ctx.I.store(ctx.st, p.root, p.path, ctx.args[1]); return [(ctx.st, p)]
@pattern(r"^core::mem::maybe_uninit::MaybeUninit::<T>::(as_ptr|as_mut_ptr|assume_init_ref|assume_init_mut|as_bytes)$")
def _muptr(ctx):
    p = ctx.I.leafify(ctx.args[0]); return [(ctx.st, p)]
@pattern(r"^core::mem::maybe_uninit::MaybeUninit::<T>::(new|assume_init_read)$")
def _munew(ctx):
    v = ctx.args[0]
    if ctx.c["p"].endswith("read"): v = _inited(ctx, ctx.deref(v))
    return [(ctx.st, v)]

# ---------------------------------------------------------------- str
def slice_key(st, p): return (p.root, tuple(x if x[0] == "f" else ("e", st.norm(x[1])) for x in p.path), st.norm(p.meta))
@model("core::str::converts::from_utf8", "core::str::converts::from_utf8_mut")
def _from_utf8(ctx):
    I, st = ctx.I, ctx.st
    p = I.leafify(ctx.args[0])
    if I.h and hasattr(I.h, "on_utf8"):
        r = I.h.on_utf8(ctx, p)
        if r is not None: return r
    s2 = st.copy()
    s2.preds[("badutf8",) + slice_key(st, p)] = True
    st.preds[("utf8",) + slice_key(st, p)] = True
    return [(st, ok(p)), (s2, err(Opaque(None, "utf8error")))]
@model("core::str::converts::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked_mut")
def _from_utf8u(ctx):
    p = ctx.I.leafify(ctx.args[0])
    if ctx.I.h: ctx.I.h.on_unsafe(ctx.I, ctx.st, "utf8_unchecked", p)
    return [(ctx.st, p)]
@pattern(r"(Utf8Error::valid_up_to|Utf8Error::error_len|FromUtf8Error::(utf8_error|into_bytes|as_bytes))$")
def _utf8err(ctx): return [(ctx.st, ctx.I.fresh(ctx.st, ctx.dty, "utf8error"))]
def range_of(ctx, name, v, ln):
    """(start, end) of a range value given its type name"""
    if "RangeFull" in name: return ZERO, ln
    if "RangeFrom" in name: return ctx.I.leafify(v), ln
    if "RangeToInclusive" in name: return ZERO, ctx.I.leafify(v) + 1
    if "RangeTo" in name: return ZERO, ctx.I.leafify(v)
    if "RangeInclusive" in name: return v.f[0], v.f[1] + 1
    if "Range" in name: return v.f[0], v.f[1]
    raise Imprecise("range " + name)
def str_index(ctx, p, name, rv, checked):
    I, st = ctx.I, ctx.st
    p = I.leafify(p)
    a, b = range_of(ctx, name, rv, p.meta)
    out = []
    oks, bad = I.branch(st, Cond("ge", b - a))
    if bad is not None: out.append((bad, None))
    if oks is not None:
        oks, bad = I.branch(oks, Cond("ge", p.meta - b))
        if bad is not None: out.append((bad, None))
    if oks is not None:
        for e in (a, b):
            if oks is None: break
            d = boundary(I, oks, p, e)
            if d is True: continue
            if d is None:
                bad = oks.copy(); bad.preds[("notboundary", p.root, repr(e))] = True
                out.append((bad, None))
        base = p.path[-1][1]
        if oks is None: return out
        oks.preds[("cb", p.root)] = oks.preds.get(("cb", p.root), ()) + tuple(oks.norm(base + e) for e in (a, b))
        out.append((oks, Ptr(p.root, p.path[:-1] + (("e", oks.norm(base + a)),), oks.norm(b - a))))
    return out
def boundary(I, st, p, e):
    """is offset e inside the str p certainly a char boundary?"""
    n = st.num
    e = n.norm(e)
    if n.prove_eq0(e) or n.prove_eq0(e - p.meta): return True
    if I.h and hasattr(I.h, "boundary"):
        r = I.h.boundary(I, st, p, e)
        if r is not None: return r
    # the byte at e is ASCII, or the byte before e is ASCII
    base = p.path[-1][1]
    for o in st.preds.get(("cb", p.root), ()):       # an earlier slicing of the same text ended here
        if n.prove_eq0(o - base - e): return True
    v = st.mem.get(p.root)
    if isinstance(v, Buf):
        for d in (0, -1):
            x = n.norm(base + e + d)
            for o, s in n.by.get(v.name, []):
                if n.prove_eq0(o - x):
                    lo, hi = n.bounds(symlin(s))
                    if hi < 0x80: return True
            m = n.seg_mask(v.name, x, x + 1)
            if m is not None and max(m) < 0x80: return True
    # end of an earlier char boundary with an all-ascii region: handled by segments above
    return None
@pattern(r"<impl core::ops::index::Index(Mut)?<I> for str>::index(_mut)?$")
def _strindex(ctx):
    I = ctx.I
    t = I.T(ctx.c["args"][1])
    out = []
    for s, v in str_index(ctx, ctx.args[0], t["s"], ctx.args[1], True):
        if v is None: I.finish(s, "panic", "str index", ctx.res)
        else: out.append((s, v))
    return out
@pattern(r"^core::str::<impl str>::get$")
def _strget(ctx):
    t = ctx.I.T(ctx.c["args"][0])
    return [(s, NONE if v is None else some(v)) for s, v in str_index(ctx, ctx.args[0], t["s"], ctx.args[1], True)]
@pattern(r"^core::str::<impl str>::is_char_boundary$")
def _iscb(ctx):
    I, st = ctx.I, ctx.st
    p = I.leafify(ctx.args[0]); e = ctx.args[1]
    d = boundary(I, st, p, e)
    if d is True: return [(st, ONE)]
    return [(st, Cond("p", ("cb", slice_key(st, p), st.norm(e))))]
@model("core::str::validations::next_code_point")
def _ncp(ctx):
    I, st = ctx.I, ctx.st
    itp = I.leafify(ctx.args[0])
    it = I.load(st, itp.root, itp.path)
    # Iter { ptr: NonNull, end_or_len, marker }
    cur = I.leafify(it.f[0]); end = I.leafify(it.f[1])
    a, b = cur.path[-1][1], end.path[-1][1]
    out = []
    emp, non = I.branch(st, Cond("eq", b - a))
    if emp is not None: out.append((emp, NONE))
    if non is not None:
        key = "char@%s@%r" % (cur.root, non.norm(a))
        c = named(key, 0, 0x10ffff); n = named("charlen@%s@%r" % (cur.root, non.norm(a)), 1, 4)
        if non.num.assume_ge0(b - a - n):
            # utf-8 length
            ncur = I.ptr_add(non, cur, n)
            it2 = I.load(non, itp.root, itp.path)
            I.store(non, itp.root, itp.path + (("f", 0),), I.rewrap_like(it2.f[0], ncur))
            out.append((non, some(c)))
    return out
@pattern(r"^core::char::methods::<impl char>::len_utf8$|^core::char::methods::len_utf8$")
def _lenutf8(ctx):
    """of a character read from text: the number of bytes it was read from"""
    v = ctx.args[0]
    v = ctx.st.norm(v) if isinstance(v, Lin) else None
    if v is None or v.k or len(v.t) != 1 or v.t[0][1] != 1: return NotImplemented
    n = getattr(SYMS[v.t[0][0]], "name", None)
    if not isinstance(n, str) or not n.startswith("char@"): return NotImplemented
    r = named("charlen@" + n[5:], 1, 4)
    if ctx.I.T(ctx.c["args"][0])["k"] not in ("char", "int"): return NotImplemented
    return [(ctx.st, r)]
@pattern(r"^core::str::<impl str>::(len)$")
def _strlen(ctx): return [(ctx.st, ctx.I.leafify(ctx.args[0]).meta)]
@pattern(r"^core::str::<impl str>::as_bytes$|^core::str::<impl str>::as_ptr$|^core::str::<impl str>::as_bytes_mut$|^core::str::converts::as_bytes")
def _asbytes(ctx):
    p = ctx.I.leafify(ctx.args[0])
    return [(ctx.st, p if not ctx.c["p"].endswith("as_ptr") else Ptr(p.root, p.path))]

# ---------------------------------------------------------------- integer conversions and checked arithmetic (width independent)
@pattern(r"TryFrom<(u|i)\w+> for (u|i)\w+>::try_from$")
def _tryfrom(ctx):
    I, st = ctx.I, ctx.st
    v = ctx.args[0]
    t = I.T(ctx.dty)
    okty = t["vs"][0][2][0][1]
    if not isinstance(v, Lin): return NotImplemented
    lo, hi = I.int_range(okty)
    out = []
    a, b = I.branch(st, Cond("ge", v - lo))
    if b is not None: out.append((b, err(UNIT)))
    if a is not None:
        a, b = I.branch(a, Cond("ge", L(hi) - v))
        if b is not None: out.append((b, err(UNIT)))
        if a is not None: out.append((a, ok(v)))
    if not out: return []
    return out
@pattern(r"core::num::<impl [ui]\w+>::checked_(add|sub|mul|neg)$|core::num::(\w+::)?<impl [ui]\w+>::checked_(add|sub|mul|neg)$")
def _checked(ctx):
    I, st = ctx.I, ctx.st
    n = ctx.c["p"].split("_")[-1]
    a = ctx.args[0]; b = ctx.args[1] if len(ctx.args) > 1 else None
    if not isinstance(a, Lin) or (b is not None and not isinstance(b, Lin)): return NotImplemented
    t = I.T(ctx.dty); ty = t["vs"][1][2][0][1]
    if n == "add": r = a + b
    elif n == "sub": r = a - b
    elif n == "neg": r = -a
    else:
        r = I.mulv(st, a, b); I.note_scale(st, a, b)
    r = st.norm(r)
    lo, hi = I.int_range(ty)
    out = []
    x, y = I.branch(st, Cond("ge", r - lo))
    if y is not None: out.append((y, NONE))
    if x is not None:
        x, y = I.branch(x, Cond("ge", L(hi) - r))
        if y is not None: out.append((y, NONE))
        if x is not None: out.append((x, some(r)))
    return out
@pattern(r"core::num::(\w+::)?<impl ([ui]\w+)>::(to|from)_(be|le|ne)_bytes$")
def _bytes(ctx):
    I, st = ctx.I, ctx.st
    nm = ctx.c["p"].split("::")[-1]
    le = "_be_" not in nm
    if nm.startswith("to"):
        v = ctx.args[0]
        t = I.T(ctx.dty); n = t["n"]
        if not isinstance(v, Lin): return NotImplemented
        bs = decompose(I, st, v, n)
        if not le: bs = bs[::-1]
        return [(st, Agg(bs))]
    a = ctx.args[0]
    if not isinstance(a, Agg): return NotImplemented
    bs = list(a.f)
    if not le: bs = bs[::-1]
    e = ZERO
    for i, b in enumerate(bs):
        if not isinstance(b, Lin): return NotImplemented
        e = e + b * (1 << (8 * i))
    return I.wrap_fork(st, st.norm(e), ctx.dty)

# ---------------------------------------------------------------- floats from text
@pattern(r"<impl core::str::traits::FromStr for f(32|64)>::from_str$")
def _fparse(ctx):
    I, st = ctx.I, ctx.st
    p = I.leafify(ctx.args[0])
    bits = 32 if "f32" in ctx.c["rp"] else 64
    if st.num.prove_eq0(p.meta): return [(st, err(Opaque(None, "parsefloat")))]
    s2 = st.copy()
    key = ("parse", slice_key(st, p), bits)
    st.preds[("fparse", key)] = True; s2.preds[("fparse", key)] = False
    return [(st, ok(FloatV(key, "fin", bits))), (s2, err(Opaque(None, "parsefloat")))]
@pattern(r"<impl core::str::traits::FromStr for [iu](8|16|32|64|128|size)>::from_str$")
def _iparse(ctx):
    """std contract: Ok(value denoted by the whole text) or Err"""
    I, st = ctx.I, ctx.st
    p = I.leafify(ctx.args[0])
    rt = I.T(ctx.dty)
    ity = rt["args"][0]
    lo, hi = I.int_range(ity)
    key = ("parse", slice_key(st, p), I.T(ity)["s"])
    s2 = st.copy()
    st.preds[("iparse", key)] = True; s2.preds[("iparse", key)] = False
    return [(st, ok(named("int(%s,%s)" % (key[1], key[2]), lo, hi))), (s2, err(Opaque(None, "parseint")))]
@model("ryu_js::buffer::Buffer::new")
def _ryunew(ctx): return [(ctx.st, Opaque(None, "ryu"))]
@model("ryu_js::buffer::Buffer::format_finite")
def _ryu(ctx):
    I, st = ctx.I, ctx.st
    p = I.new_buf(st, "ryu")
    if I.h and hasattr(I.h, "on_ryu"): I.h.on_ryu(ctx, p)
    return [(st, p)]

# ---------------------------------------------------------------- misc
@pattern(r"^core::mem::(forget|drop)$|^core::ptr::drop_in_place")
def _drop(ctx): return [(ctx.st, UNIT)]
@pattern(r"^alloc::string::ToString::to_string$|^alloc::fmt::format|^core::fmt::Arguments|^core::fmt::rt::")
def _opq(ctx):
    if hasattr(ctx.I.h, "fmt_call"):
        r = ctx.I.h.fmt_call(ctx)
        if r is not NotImplemented: return r
    return [(ctx.st, Opaque(ctx.dty, "text"))]
@pattern(r"core::num::error::|core::str::error::")
def _opq2(ctx):
    if "body" in ctx.c: return NotImplemented
    return [(ctx.st, Opaque(ctx.dty, "errinfo"))]
@pattern(r"^core::num::nonzero::NonZero::<T>::get$|core::num::nonzero::NonZero<T>::get$")
def _nzget(ctx):
    """validity invariant of NonZero"""
    v = ctx.I.leafify(ctx.args[0])
    if not isinstance(v, Lin): return NotImplemented
    if not ctx.st.num.assume_ne0(v): return []
    lo, hi = ctx.I.int_range(ctx.dty)
    if not ctx.st.num.assume_ge0(v - (lo or 1)) or not ctx.st.num.assume_ge0(L(hi) - v): return []
    return [(ctx.st, v)]
