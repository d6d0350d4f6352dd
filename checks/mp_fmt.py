"""MessagePack collect_str."""
from .lib import *
from . import cause
from .mp_ser import *
from .fmtm import *

def justified(chk, w, x, h):
    """a refusal needs a reason: the writer, the value's own failure, a text of 2^32 bytes or more, or passes that differ"""
    if err_caused(x): return
    ps = x.st.gh["passes"]; num = x.st.num.copy()
    if cause.ON: causes(chk, w, x, ps, [l for n, l in ps] or [q.meta for q in h.texts if q.root in x.st.mem])
    if any(n == "fmt_fail" for n, l in ps): return
    tot = [l for n, l in ps] or [q.meta for q in h.texts if q.root in x.st.mem]
    if not tot: return
    good = True
    for l in tot:
        if num.assume_ge0(L(0xffffffff) - l) is False: good = False
    if len(tot) == 2:
        # could both passes have given the same text so far?
        r = num.assume_ge0(tot[0] - tot[1]) if ps[1][0] == "fmt_err" else num.assume_eq0(tot[0] - tot[1])
        if r is False: good = False
    chk.ob("refusals have a reason", w, not good, "%r although the text fits and is the same in every pass" % (x.val,))

def causes(chk, w, x, ps, tot):
    v = variant(x.val); num = x.st.num.copy(); fits = True; feas = True
    for l in tot:
        if num.prove_ge0(l - (1 << 32)): fits = False
        if num.assume_ge0(L(0xffffffff) - l) is False: feas = False; break
    if v == "StrLength": cause.whole(chk, w, x.val, cause.LEN["str"] if not fits else ("FormatError",), "the text is too long" if not fits else "formatting fails or the passes differ"); return
    same = feas and not any(n != "fmt_ok" for n, l in ps)
    if same and len(tot) == 2: same = num.assume_eq0(tot[0] - tot[1]) is not False
    cause.whole(chk, w, x.val, cause.LEN["str"] if not fits and not any(n != "fmt_ok" for n, l in ps) else ("FormatError",), "the text is too long" if not fits else "formatting fails or the passes differ")

CHARS = ((0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff))
def one_char(c, P, b, cfg):
    """a `fmt::Write` that implements write_char itself: the same effect as writing the character's UTF-8 text"""
    for k, (lo, hi) in enumerate(CHARS, 1):
        w = where(b) + "[%s] %d byte(s)" % (cfg, k); box = {}
        def pre(I, st, a):
            st.num.assume_ge0(a[1] - lo); st.num.assume_ge0(L(hi) - a[1])
            p = I.leafify(a[0]); box["v"] = ints(I, I.load(st, p.root, p.path))
        h = SerHandler()
        I, rs, a = run(c, P, b, h, pre=pre)
        for x in basic(c, b, rs):
            num = x.st.num; tr = x.st.gh["trace"]; p = I.leafify(a[0]); v0 = box["v"]
            if not is_ok(x.val):
                c.ob("refusals have a reason", w, err_caused(x) or any(num.prove_ge0(L(k - 1) - o) or num.prove_ge0(o + k - (1 << 32)) for o in v0), "%r" % (x.val,)); continue
            v = ints(I, I.load(x.st, p.root, p.path))
            for q, o in zip(v, v0):
                d = num.norm(q - o)
                c.ob("a character counts as its UTF-8 bytes", w, num.eq(d, L(k)) or num.eq(d, L(-k)), "counted %r" % (d,))
            if v and not tr and not writes(P, b): continue
            u = utf8_of(num, num.norm(a[1]))
            c.ob("a character is written as its UTF-8 bytes", w, u is not None and len(tr) == len(u) and all(isinstance(t, Lin) and num.eq(t, e) for t, e in zip(tr, u)), "wrote %r" % (tr,))
def writes(P, b):
    """does the type's write_str reach a writer?"""
    for o in P.find("write_str"):
        if is_write_impl(o) and o.root["selfs"] == b.root["selfs"]: return "'" in o.root["selfs"] or "<" in o.root["selfs"]
    return True
def ints(I, v):
    if isinstance(v, Lin): return [v]
    if isinstance(v, Agg): return [y for x in v.f for y in ints(I, x)]
    return []

def C09(chk):
    chk.rule("collect_str with an arbitrary Display value (any pieces, different in each pass): on success the header's length equals the number of text bytes "
             "written after it, which are exactly the formatter's pieces in order (loop invariants over the pieces); on error, the writer or the value failed, the text is too long or the passes differ")
    for cfg in cfgs("std", "alloc", "nostd"):
        P = prog(MP, cfg)
        for b in P.find("write_char"):
            if is_write_impl(b, "write_char"): one_char(chk, P, b, cfg)
        for b in ser_fns(P, "collect_str"):
            h = FmtHandler()
            I, rs, a = run(chk, P, b, h)
            n = 0; w = where(b) + "[" + cfg + "]"
            for x in basic(chk, b, rs):
                if not is_ok(x.val): justified(chk, w, x, h); continue
                if err_caused(x):
                    chk.ob("a failed write is not reported as success", w, False, "Ok although the writer failed"); continue
                num = x.st.num; tr = x.st.gh["trace"]
                if x.st.gh.get("badtext"): chk.ob("text is the formatter's output", w, False, x.st.gh["badtext"]); continue
                tr = [t for t in tr if not (not isinstance(t, Lin) and t[0] == "text" and num.eq(t[2], ZERO) and not num.eq(t[1], ZERO)) ]
                hd = header(num, tr, "str")
                if isinstance(hd, str): chk.ob("str header first", w, False, hd); continue
                L_, lo, used = hd
                n += 1
                chk.ob("minimal header", w, num.prove_ge0(L_ - lo), "%d-byte header for length in %s" % (used, num.bounds(L_)))
                rest = tr[used:]
                # what follows: segments of one text, or the pieces written in the last pass
                tot = ZERO; good = True; why = ""
                for t in rest:
                    if isinstance(t, Lin): tot = tot + 1; good = False; why = "a byte %r that is not text" % (t,)
                    elif t[0] == "seg":
                        p = [q for q in h.texts if q.root == t[1]] if h.texts else []
                        if not p: good = False; why = "segment of something else"
                        elif not (num.eq(t[2], ZERO) and num.eq(t[3], p[0].meta)): good = False; why = "only part of the text was written"
                        tot = tot + t[3]
                    elif t[0] == "text":
                        if not num.eq(t[1], t[2]): good = False; why = "only part of the formatter's output was written: %r of %r bytes" % (num.norm(t[2]), num.norm(t[1]))
                        tot = tot + t[2]
                    else: good = False; why = "unexpected %r" % (t,)
                chk.ob("exactly the formatter's text", w, good and len(rest) <= 1, why or "%r" % (rest,))
                chk.ob("length matches the text", w, num.eq(tot, L_), "header states %r, %r bytes follow" % (num.norm(L_), num.norm(tot)))
            if not n: chk.undecided(w, "no successful path")
CHECKS = {"C09": C09}
