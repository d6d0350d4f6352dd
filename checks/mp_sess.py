"""MessagePack compound serializers: every possible client history of the compound API, as one abstract session per container kind."""
from .lib import *
from . import cause
from .mp_ser import *
from .synth import *

def compound_name(P, start):
    t = P.types[P.types[start.locals[0]]["vs"][0][2][0][1]]
    return t.get("path", "").split("::")[-1]

def methods(P, start, trait, names):
    cn = compound_name(P, start)
    out = []
    for n in names:
        bs = [b for b in P.roots if b.root.get("name") == n and (b.root.get("trait") or "").endswith("::" + trait) and cn + "<" in b.root["selfs"]]
        if len(bs) != 1: return None
        out.append(bs[0])
    return out

class MpSession(SessionHandler):
    def __init__(self, chk, where, nops, kind, roles):
        SessionHandler.__init__(self, chk, where, nops)
        self.kind = kind      # "seq" | "map" | "array" (struct as array) | "int" | "str"
        self.len = cause.LEN["array" if kind in ("seq", "array") else "map"]
        self.roles = roles    # per op: "elem" | "entry" | "field" | "skip"
    def at_choice(self, ctx):
        # a struct has fewer than 2^32 declared fields
        if self.kind == "int": ctx.st.num.assume_ge0(L((1 << 32) - 2) - ctx.st.gh["d"])
    def tell(self, props, rule, ok, detail=""):
        if self.chk.pid in props: self.chk.ob(rule, self.where, ok, detail)
    def setup(self, st):
        SessionHandler.setup(self, st)
        st.gh["n"] = ZERO; st.gh["k"] = ZERO; st.gh["d"] = ZERO
    def started(self, ctx, c):
        st = ctx.st; num = st.num; tr = st.gh["trace"]
        used = 0
        if self.variant is not None:
            m, used = self.check_tag(ctx, tr)
            self.tell(("C08",), "variant prefix", m is True, m if m is not True else "one-entry map header then the tag")
            if m is not True: used = None
        if used is not None:
            hk = "array" if self.kind in ("seq", "array") else "map"
            m, u = check_header(num, tr[used:], hk, self.n)
            self.tell(("C06", "C08") if self.variant is not None else ("C06",), "declared count in the header", m is True, m if m is not True else "%s header with the declared length" % hk)
            self.tell(("C06",), "nothing but the header", m is not True or len(tr) == used + u, "also wrote %r" % (tr[used + u:],))
        st.gh["n"] = self.n
    def check_tag(self, ctx, tr):
        num = ctx.st.num
        return check_tag(num, tr, self.variant)
    def start_failed(self, ctx, r):
        st = ctx.st
        if st.gh.get("err") is not None: return
        if self.variant and self.variant[0] == "name" and st.num.prove_ge0(self.variant[1].meta - (1 << 32)):
            cause.whole(self.chk, self.where, r, cause.LEN["str"] + self.len, "the name is too long"); return
        cause.whole(self.chk, self.where, r, self.len, "the declared length does not fit")
        self.tell(("C06",), "refused only when the length does not fit", st.num.prove_ge0(self.n - (1 << 32)), "refused for a length in %s" % (st.num.bounds(self.n),))
    def is_val(self, ctx, it, arg):
        return not isinstance(it, Lin) and it[0] == "val" and same_value(ctx.I, ctx.st, it[1], arg) and same_ptr(ctx.I, ctx.st, it[2], self.ser)
    def done(self, ctx, i):
        st = ctx.st; num = st.num; tr = st.gh["trace"]; role = self.roles[i]
        k, n, d = st.gh["k"], st.gh["n"], st.gh["d"]
        args = [a[j] for a in self.opvals[i] for j in range(len(a))]
        if role == "skip":
            self.tell(("C06", "C07"), "skipping writes nothing", not tr, "wrote %r" % (tr,))
            if self.kind == "array":
                self.tell(("C07",), "array struct skips only after the last declared field", num.eq(k, n), "skipped with %r of %r written" % (num.norm(k), num.norm(n)))
            st.gh["d"] = num.norm(d + 1)
            return
        # a value was written: there was room for it
        self.tell(("C06",), "never more elements than declared", num.prove_ge0(n - k - 1), "wrote element %r of %r" % (num.norm(k), num.norm(n)))
        if role == "elem": want = [args[0]]
        elif role == "entry": want = [args[0], args[1]]
        else:
            key = tr[0] if tr else None
            if self.kind == "array": want = [args[1]]
            elif self.kind == "int":
                ok_ = self.int_key(ctx, tr, d)
                self.tell(("C07",), "key is the declaration index", ok_ is True, ok_)
                want = [args[1]]; tr = tr[1:] if tr and not isinstance(tr[0], Lin) else tr[self.klen:]
            else:
                ok_ = key is not None and not isinstance(key, Lin) and key[0] == "str" and same_value(ctx.I, st, key[1], args[0]) and same_ptr(ctx.I, st, key[2], self.ser)
                self.tell(("C07",), "key is the field name", ok_, "wrote %r" % (tr,))
                want = [args[1]]; tr = tr[1:]
        good = len(tr) == len(want) and all(self.is_val(ctx, t, w) for t, w in zip(tr, want))
        self.tell(("C06", "C07") if role == "field" else ("C06",), "exactly the element's value(s), once, in order", good, "wrote %r, expected %r" % (tr, want))
        st.gh["k"] = num.norm(k + 1); st.gh["d"] = num.norm(d + 1)
    klen = 1
    def int_key(self, ctx, tr, d):
        num = ctx.st.num
        if not tr: return "no key"
        it = tr[0]
        if isinstance(it, Lin): return "key byte %r" % (it,)
        if it[0] != "u32" or not same_ptr(ctx.I, ctx.st, it[2], self.ser): return "key %r" % (it,)
        v = num.norm(it[1])
        return True if num.eq(v, d) else "key is %r, declaration index is %r" % (v, num.norm(d))
    def failed(self, ctx, i, r):
        st = ctx.st; num = st.num; tr = st.gh["trace"]
        if st.gh.get("err") is not None: return
        k, n = st.gh["k"], st.gh["n"]
        cause.whole(self.chk, self.where, r, ("FieldSkipped",) if self.roles[i] == "skip" else self.len, "a field is skipped in the middle" if self.roles[i] == "skip" else "there are more elements than declared")
        if self.roles[i] == "skip":
            self.tell(("C07",), "skip refused only by the array form with fields outstanding", self.kind == "array" and num.prove_ge0(n - k - 1), "skip refused with %r of %r written" % (num.norm(k), num.norm(n)))
            return
        self.tell(("C06",), "refused before writing anything", not tr, "wrote %r before refusing" % (tr,))
        self.tell(("C06",), "refused only when full", num.eq(k, n), "element %r of %r refused" % (num.norm(k), num.norm(n)))
    def ended(self, ctx, r):
        st = ctx.st; num = st.num; k, n = st.gh["k"], st.gh["n"]
        if st.gh["trace"]: self.tell(("C06",), "end writes nothing", False, "%r" % (st.gh["trace"],))
        cause.whole(self.chk, self.where, r, self.len, "elements are missing")
        if is_ok(r): self.tell(("C06",), "end succeeds only when all declared elements were written", num.eq(k, n), "ended with %r of %r" % (num.norm(k), num.norm(n)))
        else: self.tell(("C06",), "end fails only with elements missing", num.prove_ge0(n - k - 1), "refused at %r of %r" % (num.norm(k), num.norm(n)))

def check_tag(num, tr, variant):
    """81 then tag; variant = ("idx", Lin) or ("name", ptr)"""
    if not tr or not isinstance(tr[0], Lin) or not num.eq(tr[0], L(0x81)): return "does not start with a one-entry map header: %r" % (tr[:1],), 0
    m, u = bare_tag(num, tr[1:], variant)
    return m, 1 + u

def bare_tag(num, tr, variant):
    if variant[0] == "idx":
        x = variant[1]; n = 1
        if not tr or not isinstance(tr[0], Lin): return "no tag: %r" % (tr[:1],), 0
        b0 = num.norm(tr[0])
        if b0.const() and b0.k in (0xcc, 0xcd, 0xce): n = {0xcc: 2, 0xcd: 3, 0xce: 5}[b0.k]
        bs = tr[:n]
        if len(bs) < n or not all_bytes(bs): return "tag bytes missing", 0
        d = denotes(num, bs, x)
        if d is not True: return "tag: " + d, 0
        m = minimal_int(num, n, x)
        return (True, n) if m is True else ("tag: " + m, n)
    p = variant[1]
    m, u = check_header(num, tr, "str", p.meta)
    if m is not True: return "tag: " + m, 0
    rest = tr[u:]
    # the name's bytes: one segment (or its bytes)
    for j in range(0, len(rest) + 1):
        r = payload_ok(num, rest[:j], p)
        if r is True: return True, u + j
        if j >= 1 and not (isinstance(rest[j - 1], Lin) or rest[j - 1][0] == "seg"): break
    return "tag: the variant name's bytes do not follow the header: %r" % (rest[:2],), 0

SESS = [("serialize_seq", "SerializeSeq", ["serialize_element"], 1), ("serialize_tuple", "SerializeTuple", ["serialize_element"], 1),
        ("serialize_tuple_struct", "SerializeTupleStruct", ["serialize_field"], 2), ("serialize_tuple_variant", "SerializeTupleVariant", ["serialize_field"], 4),
        ("serialize_map", "SerializeMap", ["serialize_key", "serialize_value"], 1),
        ("serialize_struct", "SerializeStruct", ["serialize_field", "skip_field"], 2), ("serialize_struct_variant", "SerializeStructVariant", ["serialize_field", "skip_field"], 4)]

def form(selfs): return "array" if "Compact" in selfs else "int" if "Idx" in selfs else "str"

def sessions(chk, which=None):
    for cfg in cfgs("std", "nostd"):
        P = prog(MP, cfg)
        for name, trait, ops, ni in SESS:
            if which and name not in which: continue
            for b in ser_fns(P, name):
                w = where(b)
                isstruct = "struct" in name and "tuple" not in name
                kind = form(b.root["selfs"]) if isstruct else "map" if name == "serialize_map" else "seq"
                opn = [o for o in ops if not (o == "skip_field" and methods(P, b, trait, [o]) is None)]
                ms = methods(P, b, trait, opn); en = methods(P, b, trait, ["end"])
                if ms is None or en is None:
                    chk.undecided(w, "compound methods not found"); continue
                if isstruct and "skip_field" not in opn and kind != "str":
                    # serde's provided skip_field accepts and does nothing
                    chk.ob("a skipped field is noticed", w, chk.pid != "C07", "skip_field is left to serde's default, which does nothing: the %s form needs to know" % ("array" if kind == "array" else "index-keyed"))
                if name == "serialize_map":
                    seqs = [ms]; roles = ["entry"]
                    both = methods(P, b, trait, ["serialize_entry"])
                    if both is not None: seqs.append(both); roles.append("entry")
                else: seqs = [[m] for m in ms]; roles = ["elem" if not isstruct else "field" if o == "serialize_field" else "skip" for o in opn]
                sb, sargs, opargs = session(P, b, seqs, en[0], "%s %s" % (cfg, w))
                h = MpSession(chk, w, len(seqs), kind, roles)
                def setargs(I, st, a, h=h, b=b, name=name, ni=ni, sargs=sargs, opargs=opargs):
                    v = a[ni]
                    if isinstance(v, Ptr): raise RuntimeError("unexpected argument")
                    if name in ("serialize_seq", "serialize_map"):
                        h.n = fresh("n", 0, (1 << 64) - 1); a[ni] = some(h.n)
                    else: h.n = v
                    h.ser = a[0]
                    h.opvals = [[[a[x - 1] for x in seq] for seq in op] for op in opargs]
                    h.variant = None
                    if "variant" in name:
                        h.variant = ("name", I.leafify(a[3])) if form(b.root["selfs"]) == "str" else ("idx", a[2])
                run_session(chk, P, sb, h, setargs)
        # unknown lengths
        if chk.pid == "C06" or cause.ON:
            for name in ("serialize_seq", "serialize_map"):
                for b in ser_fns(P, name):
                    I, rs, a = run(chk, P, b, SerHandler(), args=lambda I, st, a: a.__setitem__(1, NONE))
                    for x in basic(chk, b, rs):
                        chk.ob("unknown length refused, nothing written", where(b), is_err(x.val) and not x.st.gh["trace"] and not err_caused(x), "%r after %r" % (x.val, x.st.gh["trace"]))
                        cause.whole(chk, where(b), x.val, cause.LEN["map" if "map" in name else "array"], "the length is not known")

def C06(chk):
    chk.rule("for every history of calls on the compound serializer (abstract session with loop invariants): elements written == declared count on Ok, refusals only as stated")
    sessions(chk)
def C07(chk):
    chk.rule("for every history of field/skip calls: key (index of declaration / field name / none) and value written, skips refused only by the array form while fields are outstanding")
    sessions(chk, ("serialize_struct", "serialize_struct_variant"))
def C08(chk):
    chk.rule("bytes written by serialize_*_variant before the payload: one-entry map header and the tag (index in shortest form / name), or the bare tag for unit variants; payload header declares the length")
    sessions(chk, ("serialize_tuple_variant", "serialize_struct_variant"))
    for cfg in cfgs("std", "nostd"):
        P = prog(MP, cfg)
        for name in ("serialize_unit_variant", "serialize_newtype_variant"):
            for b in ser_fns(P, name):
                I, rs, a = run(chk, P, b, SerHandler())
                v = ("name", I.leafify(a[3])) if form(b.root["selfs"]) == "str" else ("idx", a[2])
                oks = 0
                for x in basic(chk, b, rs):
                    if err_caused(x): continue
                    tr = x.st.gh["trace"]; num = x.st.num
                    if is_err(x.val):
                        chk.ob("refused only for an unencodable name", where(b), v[0] == "name" and num.prove_ge0(v[1].meta - (1 << 32)), "refused")
                        cause.whole(chk, where(b), x.val, cause.LEN["str"], "the name is too long")
                        continue
                    oks += 1
                    if name == "serialize_unit_variant":
                        m, u = bare_tag(num, tr, v); rest = tr[u:]
                        chk.ob("unit variant is the bare tag", where(b), m is True and not rest, m if m is not True else "then %r" % (rest,))
                    else:
                        m, u = check_tag(num, tr, v); rest = tr[u:]
                        good = m is True and len(rest) == 1 and not isinstance(rest[0], Lin) and rest[0][0] == "val" and same_value(I, x.st, rest[0][1], a[4]) and same_ptr(I, x.st, rest[0][2], a[0])
                        chk.ob("newtype variant is a one-entry map from tag to value", where(b), good, m if m is not True else "payload %r" % (rest,))
                if not oks: chk.undecided(where(b), "no successful path")
CHECKS = {"C06": C06, "C07": C07, "C08": C08}
