"""Abstract interpreter over the exported MIR (trace partitioned; all calls with a body are inlined).
Values: Lin (integers, chars, constants of bool), Cond (booleans), Agg, Enum, Ptr, Fn, Opaque, Buf, None (uninit / zst)."""
import json, os, re, sys
from .dom import *

class Imprecise(Exception): pass
DEBUG = os.environ.get("SA_DEBUG")

class Agg:
    __slots__ = ("f", "tag", "_tbl")
    def __init__(self, f, tag=None): self.f = tuple(f); self.tag = tag; self._tbl = None
    def __repr__(self): return "%s(%s)" % (self.tag or "", ", ".join(map(repr, self.f))) if len(self.f) < 12 else "%s[..%d]" % (self.tag or "", len(self.f))
    def table(self):
        if self._tbl is None:
            self._tbl = tuple(x.k for x in self.f) if all(isinstance(x, Lin) and x.const() for x in self.f) else False
        return self._tbl
class Enum:
    __slots__ = ("v", "f", "name")
    def __init__(self, v, f=(), name=None): self.v = v; self.f = tuple(f); self.name = name
    def __repr__(self): return "%s%s" % (self.name or "#%d" % self.v, "(%s)" % ", ".join(map(repr, self.f)) if self.f else "")
class Ptr:
    """pointer to root+path; when meta is not None it is a slice/str of meta elements and path ends in ('e', start)"""
    __slots__ = ("root", "path", "meta")
    def __init__(self, root, path=(), meta=None): self.root = root; self.path = path; self.meta = meta
    def __repr__(self): return "&%r%r%s" % (self.root, list(self.path), "" if self.meta is None else "[len %r]" % self.meta)
class Cond:
    """op in ge/eq/ne on e (vs 0), or 'p' with an opaque predicate key"""
    __slots__ = ("op", "e")
    def __init__(self, op, e): self.op = op; self.e = e
    def __repr__(self): return "(%r %s 0)" % (self.e, self.op)
class Opaque:
    __slots__ = ("id", "ty", "info")
    _n = 0
    def __init__(self, ty, info=None):
        Opaque._n += 1; self.id = Opaque._n; self.ty = ty; self.info = info
    def __repr__(self): return "?%s%d" % (self.info or "", self.id)
class Fn:
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __repr__(self): return "fn %s" % self.c.get("p")
class Buf:
    """symbolic byte buffer; dirty = (lo, hi) hull of written positions or None"""
    __slots__ = ("name", "len", "mut", "dirty")
    def __init__(self, name, len, mut=False, dirty=None): self.name = name; self.len = len; self.mut = mut; self.dirty = dirty
    def __repr__(self): return "Buf(%s,%r)" % (self.name, self.len)
class FloatV:
    """float constant / symbolic float: cls in nan,inf,fin (or None), e = identity key"""
    __slots__ = ("key", "cls", "bits")
    def __init__(self, key, cls=None, bits=64): self.key = key; self.cls = cls; self.bits = bits
    def __repr__(self): return "f%d<%s:%s>" % (self.bits, self.key, self.cls)
    def __eq__(self, o): return isinstance(o, FloatV) and (self.key, self.cls, self.bits) == (o.key, o.cls, o.bits)
    def __hash__(self): return hash((self.key, self.cls, self.bits))
UNIT = Agg(())
ONE = L(1)

class Frame:
    __slots__ = ("body", "fid", "bb", "si", "dest", "destty", "ret", "active", "post", "unr")
    def copy(self):
        f = Frame.__new__(Frame)
        for a in Frame.__slots__: setattr(f, a, getattr(self, a))
        return f

class State:
    __slots__ = ("num", "mem", "frames", "gh", "preds", "out", "forks", "scaled", "steps", "log", "depth")
    def __init__(self):
        self.num = Num(); self.mem = {}; self.frames = []; self.gh = {}; self.preds = {}; self.out = None
        self.forks = 0; self.scaled = 0; self.steps = 0; self.log = None; self.depth = 0
    def copy(self):
        s = State.__new__(State)
        s.num = self.num.copy(); s.mem = dict(self.mem); s.frames = [f.copy() for f in self.frames]; s.gh = dict(self.gh)
        s.preds = dict(self.preds); s.out = self.out; s.forks = self.forks; s.scaled = self.scaled; s.steps = self.steps; s.log = self.log; s.depth = self.depth
        return s
    def norm(self, e): return self.num.norm(e)

class Body:
    def __init__(self, prog, d):
        self.d = d; self.key = d["key"]; self.path = d["path"]; self.blocks = d["blocks"]; self.locals = d["locals"]; self.nargs = d["nargs"]
        self.file = d.get("file"); self.root = d.get("root"); self.spread = d.get("spread")
        self._loops = None; self._live = None; self.local = d.get("local")
    def succs(self, i):
        t = self.blocks[i]["t"]; k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [b for _, b in t[3]] + ([t[4]] if t[4] is not None else [])
        if k == "drop": return [t[2]]
        if k == "assert": return [t[5]]
        if k == "call": return [t[4]] if t[4] is not None else []
        return []
    def loops(self):
        """head -> set of blocks of the natural loop (all back edges of the head merged)"""
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        succ = [self.succs(i) for i in range(n)]
        # dfs order + dominators (simple iterative)
        order = []; seen = set()
        st = [(0, iter(succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: pred[s].append(b)
        dom = {b: None for b in rpo}; dom[0] = 0
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in pred[b]:
                    if dom[p] is None: continue
                    if nd is None: nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        nd = x
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in rpo:
            for h in succ[b]:
                x = b; isdom = False
                while True:
                    if x == h: isdom = True; break
                    if x == 0: break
                    x = dom[x]
                if isdom:
                    s = loops.setdefault(h, {h}); w = [b]
                    while w:
                        y = w.pop()
                        if y in s: continue
                        s.add(y); w += pred[y]
        self._loops = loops
        return loops
    def live(self):
        """live-in locals per block (address-taken locals are treated as live wherever their address may be live: see prune)"""
        if self._live is not None: return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
        def places(x, out):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list): pass
                for y in x: places(y, out)
        def op(o, u):
            p = o.get("c") or o.get("m")
            if p is not None: pl(p, u)
        def pl(p, u):
            u.append(p[0])
            for e in p[1]:
                if e[0] == "i": u.append(e[1])
        def rv(r, u):
            k = r[0]
            if k in ("use", "repeat"): op(r[1], u)
            elif k == "ref": pl(r[2], u)
            elif k == "rawptr": pl(r[1], u)
            elif k == "cast": op(r[2], u)
            elif k == "bin": op(r[2], u); op(r[3], u)
            elif k == "un": op(r[2], u)
            elif k == "discr": pl(r[1], u)
            elif k == "agg":
                for o in r[2]: op(o, u)
        for i, b in enumerate(self.blocks):
            U, D = use[i], df[i]
            def add(u):
                for x in u:
                    if x not in D: U.add(x)
            for s in b["s"]:
                u = []
                if s[0] == "=":
                    rv(s[2], u)
                    if s[1][1]: pl(s[1], u)
                    add(u)
                    if not s[1][1]: D.add(s[1][0])
                elif s[0] == "sd": pl(s[1], u); add(u)
                elif s[0] == "assume": op(s[1], u); add(u)
                elif s[0] == "copynon":
                    for o in s[1:4]:
                        if isinstance(o, dict): op(o, u)
                    add(u)
            t = b["t"]; u = []
            if t[0] == "switch": op(t[1], u)
            elif t[0] == "drop": pl(t[1], u)
            elif t[0] == "assert":
                op(t[1], u)
                for o in t[4]: op(o, u)
            elif t[0] == "call":
                for o in t[2]: op(o, u)
                if t[1].get("op"): op(t[1]["op"], u)
                if t[3][1]: pl(t[3], u)
            elif t[0] == "ret": u.append(0)
            add(u)
            if t[0] == "call" and not t[3][1]: D.add(t[3][0])
        live = [set(use[i]) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(i): o |= live[s]
                new = use[i] | (o - df[i])
                if new != live[i]: live[i] = new; ch = True
        self._live = live
        return live

class Prog:
    def __init__(self, path, crate):
        d = json.load(open(os.path.join(path, crate + ".json")))
        self.crate = crate
        self.types = d["types"]
        self.bodies = {b["key"]: Body(self, b) for b in d["bodies"]}
        self.roots = [b for b in self.bodies.values() if b.root]
    def ty(self, i): return self.types[i]
    def find(self, name, trait=None, selfs=None, path=None):
        """root bodies by method name / trait / self type prefix"""
        out = []
        for b in self.roots:
            r = b.root
            if r["name"] != name: continue
            if trait is not None and (r.get("trait") or "") .split("::")[-1] != trait: continue
            if selfs is not None and not selfs(r.get("selfs") or ""): continue
            if path is not None and not path(b.path): continue
            out.append(b)
        return out

def trunc_name(p):
    return p

class Result:
    """a finished path"""
    __slots__ = ("kind", "val", "st", "where")
    def __init__(self, kind, val, st, where=None): self.kind = kind; self.val = val; self.st = st; self.where = where
    def __repr__(self): return "<%s %r %s>" % (self.kind, self.val, self.where or "")

BYTES = {}   # (value, n) -> little endian bytes of a byte-swapped value

class Interp:
    def __init__(self, prog, handler=None, ptrbits=64, models=None, maxpaths=4000, policy=None):
        self.prog = prog; self.h = handler; self.ptrbits = ptrbits
        from . import models as M
        self.models = models or M.MODELS
        self.M = M
        self.fid = 0; self.maxpaths = maxpaths; self.npaths = 0
        self.visited = set()      # functions analysed
        self.ncalls = 0; self.nloops = 0; self.obl = 0
        self.unmodelled = {}
        self.policy = policy or {}
        self.roottypes = {}
    # ------------------------------------------------------------ types
    def T(self, i): return self.prog.types[i] if isinstance(i, int) else i
    def int_range(self, t):
        t = self.T(t)
        k = t["k"]
        if k == "bool": return 0, 1
        if k == "char": return 0, 0x10ffff
        if k == "int":
            b = t["bits"]
            if t.get("ptr"): b = self.ptrbits
            if t["signed"]: return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        raise Imprecise("int_range of %s" % t.get("s"))
    def bits(self, t):
        t = self.T(t)
        if t["k"] == "char": return 32
        if t["k"] == "bool": return 8
        return self.ptrbits if t.get("ptr") else t["bits"]
    def is_int(self, t): return self.T(t)["k"] in ("int", "char", "bool")
    def fresh(self, st, ty, name, depth=0):
        """an arbitrary value of a type"""
        t = self.T(ty); k = t["k"]
        if k in ("int", "char", "bool"):
            lo, hi = self.int_range(t)
            return fresh(name, lo, hi)
        if k == "float": return FloatV(name + "#%d" % Opaque(None).id, None, t.get("bits", 64))
        if k in ("ref", "ptr"):
            e = self.T(t["e"])
            if e["k"] in ("slice", "str"):
                if e["k"] == "str" or self.T(e["e"])["k"] == "int" and self.bits(e["e"]) == 8:
                    return self.new_buf(st, name, mut=bool(t.get("mut")))
                # slice of something else: opaque elements
                root = ("H", name + "#%d" % Opaque(None).id)
                ln = fresh("len(%s)" % name, 0, (1 << (self.ptrbits - 1)) - 1)
                st.mem[root] = Opaque(t["e"], name)
                return Ptr(root, (("e", ZERO),), ln)
            root = ("H", name + "#%d" % Opaque(None).id)
            self.roottypes[root] = t["e"]
            st.mem[root] = self.fresh(st, t["e"], name, depth + 1) if depth < 6 else Opaque(t["e"], name)
            return Ptr(root)
        if k == "tuple": return Agg([self.fresh(st, x, "%s.%d" % (name, i), depth + 1) for i, x in enumerate(t["es"])])
        if k == "struct" and depth < 6 and t.get("vs"):
            return Agg([self.fresh(st, x, "%s.%s" % (name, n), depth + 1) for n, x in t["vs"][0][2]], t.get("path"))
        if k == "array":
            if t["n"] is not None and t["n"] <= 64:
                return Agg([self.fresh(st, t["e"], "%s[%d]" % (name, i), depth + 1) for i in range(t["n"])])
        if k == "other":
            m = re.match(r"pattern_type!\((u8|u16|u32|u64|usize) is (\d+)\.\.(=?)(\d*)\)$", t.get("s") or "")
            if m:
                bits = self.ptrbits if m.group(1) == "usize" else int(m.group(1)[1:])
                hi = (1 << bits) - 1
                if m.group(4): hi = min(hi, int(m.group(4)) - (not m.group(3)))
                return fresh(name, int(m.group(2)), hi)
        return Opaque(ty, name)
    def new_buf(self, st, name, mut=False, ln=None):
        root = ("B", "%s#%d" % (name, Opaque(None).id))
        if ln is None: ln = fresh("len(%s)" % name, 0, (1 << (self.ptrbits - 1)) - 1)
        st.mem[root] = Buf(root[1], L(ln), mut)
        return Ptr(root, (("e", ZERO),), L(ln))
    # ------------------------------------------------------------ memory
    def load(self, st, root, path, ty=None):
        if root not in st.mem: 
            return None
        v = st.mem[root]
        for i, p in enumerate(path):
            v = self.step_val(st, v, p, ty if i == len(path) - 1 else None, root, path[:i])
        return v
    def step_val(self, st, v, p, ty, root, prefix):
        if p[0] == "f":
            if isinstance(v, (Agg, Enum)):
                if p[1] < len(v.f): return v.f[p[1]]
                raise Imprecise("field %d of %r" % (p[1], v))
            if isinstance(v, Opaque):
                key = ("fld", v.id, p[1])
                if key not in st.preds:
                    st.preds[key] = self.opaque_field(st, v, p, ty)
                return st.preds[key]
            if v is None: return None
            # transparent wrappers around a pointer / integer
            if p[1] == 0: return v
            raise Imprecise("field of %r" % (v,))
        off = st.norm(p[1])
        arr = ty is not None and self.T(ty)["k"] == "array"
        if isinstance(v, Buf):
            if arr:
                n = self.T(ty)["n"]
                return Agg([self.buf_read(st, v, off + i, root) for i in range(n)])
            return self.buf_read(st, v, off, root)
        if isinstance(v, Agg):
            if arr and not any(isinstance(x, Agg) for x in v.f[:1]):
                n = self.T(ty)["n"]
                if off.const(): 
                    if 0 <= off.k and off.k + n <= len(v.f): return Agg(v.f[off.k:off.k + n])
                raise Imprecise("array view")
            if off.const():
                if 0 <= off.k < len(v.f): return v.f[off.k]
                raise Imprecise("index %r of %d" % (off, len(v.f)))
            tb = v.table()
            if tb:
                return st.num.op(("tbl", tb), [off], min(tb), max(tb))
            if len(set(map(repr, v.f))) == 1: return v.f[0]
            lo, hi = 0, 255
            if all(isinstance(x, Lin) for x in v.f):
                bs = [st.num.bounds(x) for x in v.f]
                lo = min(b[0] for b in bs); hi = max(b[1] for b in bs)
                return fresh("elem", lo, hi)
            return Opaque(ty, "elem")
        if isinstance(v, Opaque):
            return self.fresh(st, ty, "elem") if ty is not None else Opaque(None, "elem")
        if v is None:
            return None
        if off == ZERO: return v
        raise Imprecise("element of %r" % (v,))
    def opaque_field(self, st, v, p, ty):
        if ty is not None: return self.fresh(st, ty, "%s.%d" % (v.info or "o", p[1]))
        if v.ty is not None:
            t = self.T(v.ty)
            if t["k"] == "struct": return self.fresh(st, t["vs"][0][2][p[1]][1], "%s.%d" % (v.info or "o", p[1]))
            if t["k"] == "tuple": return self.fresh(st, t["es"][p[1]], "%s.%d" % (v.info or "o", p[1]))
        return Opaque(None, "fld")
    def buf_read(self, st, b, off, root):
        if b.dirty is not None:
            lo, hi = b.dirty
            if not (st.num.lt(off, lo) or st.num.le(hi, off)):
                if self.h: self.h.on_dirty_read(self, st, b, off)
                return fresh("dirty", 0, 255)
        if self.h: self.h.on_read(self, st, b, off)
        return st.num.byte(b.name, off)
    def store(self, st, root, path, val):
        if not path:
            st.mem[root] = val; return
        if root[0] == "K": raise Imprecise("store to constant")
        st.mem[root] = self._upd(st, st.mem.get(root), path, val, root)
    def _upd(self, st, v, path, val, root):
        if not path: return val
        p = path[0]
        if p[0] == "f":
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= p[1]: f.append(None)
                f[p[1]] = self._upd(st, f[p[1]], path[1:], val, root); return Agg(f, v.tag)
            if isinstance(v, Enum):
                f = list(v.f)
                while len(f) <= p[1]: f.append(None)
                f[p[1]] = self._upd(st, f[p[1]], path[1:], val, root); return Enum(v.v, f, v.name)
            if v is None:
                f = [None] * (p[1] + 1); f[p[1]] = self._upd(st, None, path[1:], val, root); return Agg(f)
            if isinstance(v, Opaque):
                t = self.T(v.ty) if v.ty is not None else None
                if t and t["k"] == "struct":
                    n = Agg([self.step_val(st, v, ("f", i), x[1], root, ()) for i, x in enumerate(t["vs"][0][2])], t["path"])
                    return self._upd(st, n, path, val, root)
            if p[1] == 0: return self._upd(st, v, path[1:], val, root)
            raise Imprecise("store field into %r" % (v,))
        off = st.norm(p[1])
        if isinstance(v, Buf):
            vals = list(val.f) if isinstance(val, Agg) else [val]
            return self.buf_write(st, v, off, L(len(vals)), vals, root)
        if isinstance(v, Agg):
            f = list(v.f)
            if isinstance(val, Agg) and len(path) == 1 and not any(isinstance(x, Agg) for x in f[:1]) and off.const() and off.k + len(val.f) <= len(f):
                f[off.k:off.k + len(val.f)] = val.f
                return Agg(f, v.tag)
            if off.const():
                if not 0 <= off.k < len(f): raise Imprecise("store index %d of %d" % (off.k, len(f)))
                f[off.k] = self._upd(st, f[off.k], path[1:], val, root)
            else:
                f = [fresh("weak", 0, 255) if isinstance(x, Lin) else Opaque(None, "weak") for x in f]
            return Agg(f, v.tag)
        if v is None and off.const():
            f = [None] * (off.k + 1); f[off.k] = self._upd(st, None, path[1:], val, root); return Agg(f)
        if off == ZERO and not isinstance(v, Opaque): return self._upd(st, v, path[1:], val, root)
        if isinstance(v, Opaque): return v
        raise Imprecise("store element into %r" % (v,))
    def buf_write(self, st, b, off, n, vals, root):
        """n bytes written at off; vals list of byte expressions or None"""
        if self.h: self.h.on_buf_write(self, st, b, off, n, vals)
        b = st.mem.get(root, b) if isinstance(st.mem.get(root), Buf) else b
        num = st.num
        end = off + n
        if b.dirty is None: d = (off, end)
        else:
            lo, hi = b.dirty
            if num.le(lo, off): nlo = lo
            elif num.le(off, lo): nlo = off
            else: nlo = ZERO
            if num.le(hi, end): nhi = end
            elif num.le(end, hi): nhi = hi
            else: nhi = b.len
            d = (num.norm(nlo), num.norm(nhi))
        return Buf(b.name, b.len, b.mut, d)
    # ------------------------------------------------------------ places
    def unsized_tail(self, ty, depth=0):
        t = self.T(ty)
        if t is None: return False
        if t["k"] in ("slice", "str"): return True
        if t["k"] == "struct" and depth < 6 and t.get("vs") and t["vs"][0][2]:
            return self.unsized_tail(t["vs"][0][2][-1][1], depth + 1)
        return False
    def resolve(self, st, fr, place):
        """-> (root, path, meta, ty)"""
        loc, proj = place
        root = (fr.fid, loc); path = (); meta = None; ty = fr.body.locals[loc]
        for p in proj:
            if p == "*":
                v = self.load(st, root, path, ty)
                t = self.T(ty)
                ty = t.get("e", None)
                while isinstance(v, Agg) and len(v.f) >= 1: v = v.f[0]      # Box / NonNull wrappers
                if isinstance(v, Opaque):
                    key = ("deref", v.id)
                    if key not in st.preds:
                        r = ("H", "o%d" % v.id); st.mem[r] = self.fresh(st, ty, "deref") if ty is not None else Opaque(None, "deref")
                        st.preds[key] = Ptr(r)
                    v = st.preds[key]
                if not isinstance(v, Ptr): raise Imprecise("deref of %r" % (v,))
                root, path, meta = v.root, v.path, v.meta
                continue
            k = p[0]
            if k == "f":
                path = path + (("f", p[1]),); ty = p[2]
                if meta is not None:
                    if not self.unsized_tail(ty): meta = None
                    elif self.T(ty)["k"] == "slice" and isinstance(self.load_raw(st, root, path), Agg): path = path + (("e", ZERO),)
            elif k == "v": pass
            elif k in ("i", "c"):
                t = self.T(ty); ety = t["e"]
                if k == "i": off = self.load(st, (fr.fid, p[1]), ())
                else:
                    off = L(p[1])
                if t["k"] == "slice":
                    base = path[-1][1]
                    if k == "c" and p[3]: off = meta - p[1]
                    path = path[:-1] + (("e", st.norm(base + off)),)
                else:
                    if k == "c" and p[3]: off = L(t["n"] - p[1])
                    if path and path[-1][0] == "e" and not isinstance(self.load_raw(st, root, path), Agg):
                        path = path[:-1] + (("e", st.norm(path[-1][1] + off)),)
                    else: path = path + (("e", st.norm(off)),)
                meta = None; ty = ety
            elif k == "s":
                t = self.T(ty)
                frm, to, fe = p[1], p[2], p[3]
                if t["k"] == "slice":
                    base = path[-1][1]
                    n = (meta - to - frm) if fe else L(to - frm)
                    path = path[:-1] + (("e", st.norm(base + frm)),); meta = st.norm(n)
                else:
                    n = (t["n"] - to - frm) if fe else to - frm
                    path = path + (("e", L(frm)),); meta = L(n); ty = {"k": "slice", "e": t["e"], "s": "[..]"}
            else: raise Imprecise("projection %r" % (p,))
        return root, path, meta, ty
    def load_raw(self, st, root, path):
        v = st.mem.get(root)
        for p in path:
            if isinstance(v, Buf): return v if p is path[-1] else None
            if isinstance(v, (Agg, Enum)):
                i = p[1] if p[0] == "f" else (p[1].k if p[1].const() else None)
                if i is None or i >= len(v.f): return None
                v = v.f[i]
            else: return None
        return v
    def read_place(self, st, fr, place):
        root, path, meta, ty = self.resolve(st, fr, place)
        t = self.T(ty) if ty is not None else None
        if t and t["k"] in ("slice", "str"): raise Imprecise("unsized read")
        v = self.load(st, root, path, ty)
        if isinstance(v, Agg) and t and t["k"] in ("int", "bool", "char", "float"): v = self.leafify(v)
        return v
    def place_ty(self, st, fr, place):
        return self.resolve(st, fr, place)[3]
    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if "c" in o: return self.read_place(st, fr, o["c"])
        if "m" in o: return self.read_place(st, fr, o["m"])
        if "rt" in o: return ZERO
        return self.const(st, o["k"])
    def operand_ty(self, st, fr, o):
        if "k" in o: return o["k"]["t"]
        if "rt" in o: return None
        pl = o.get("c") or o.get("m")
        ty = fr.body.locals[pl[0]]
        for p in pl[1]:
            if p == "*": ty = self.T(ty)["e"]
            elif p[0] == "f": ty = p[2]
            elif p[0] in ("i", "c"): ty = self.T(ty)["e"]
            elif p[0] == "v": pass
            else: ty = None
        return ty
    def const(self, st, c):
        k = c["k"]
        if isinstance(k, str):
            kk = k
        if kk == "int":
            t = self.T(c["t"])
            v = int(c["v"])
            if t["k"] == "int" and t.get("ptr") and self.ptrbits == 32:
                if v == (1 << 64) - 1: v = (1 << 32) - 1
                elif v == (1 << 63) - 1: v = (1 << 31) - 1
                elif v == -(1 << 63): v = -(1 << 31)
            if t["k"] == "float": return FloatV(("bits", v), self.float_class(v, t.get("bits", 64)), t.get("bits", 64))
            if t["k"] in ("ptr", "ref"): return Opaque(c["t"], "intptr")
            return L(v)
        if kk == "slice":
            root = ("K", json.dumps(c["v"]) if len(c["v"]) > 64 else tuple(map(str, c["v"])))
            if root not in st.mem: st.mem[root] = self.const_agg(c["v"], st)
            n = len(c["v"])
            return Ptr(root, (("e", ZERO),), L(n))
        if kk == "ref":
            if isinstance(c["v"], dict) and c["v"].get("k") == "slice":
                return self.const(st, c["v"])
            key = ("K", "ref", json.dumps(c["v"], sort_keys=True))
            if key not in st.mem: st.mem[key] = self.const(st, c["v"])
            return Ptr(key)
        if kk == "agg":
            f = [self.const(st, x) for x in c["f"]]
            t = self.T(c["t"])
            if t["k"] == "enum": return Enum(c.get("var") or 0, f, t["vs"][c.get("var") or 0][0])
            return Agg(f, t.get("path"))
        if kk == "zst":
            t = self.T(c["t"])
            if t["k"] == "fndef": return Fn(t["callee"])
            if t["k"] == "enum" and len(t["vs"]) == 1: return Enum(0, (), t["vs"][0][0])
            if t["k"] == "struct" and t.get("vs"): 
                return Agg([None] * len(t["vs"][0][2]), t.get("path")) if not t["vs"][0][2] else Agg([self.zst(x[1]) for x in t["vs"][0][2]], t.get("path"))
            if t["k"] == "closure": return Agg((), "closure")
            return UNIT
        if kk == "fnptr": return Fn(c)
        return Opaque(c.get("t"), "const")
    def zst(self, ty):
        t = self.T(ty)
        if t["k"] == "fndef": return Fn(t["callee"])
        if t["k"] == "struct" and t.get("vs"): return Agg([self.zst(x[1]) for x in t["vs"][0][2]], t.get("path"))
        return UNIT
    _ca = {}
    def const_agg(self, vs, st):
        key = None
        if all(isinstance(x, int) for x in vs):
            key = tuple(vs)
            if key in self._ca: return self._ca[key]
        a = Agg([L(x) if isinstance(x, int) else self.const(st, x) for x in vs])
        if key is not None: self._ca[key] = a
        return a
    @staticmethod
    def float_class(v, bits):
        if bits == 32: e, m = (v >> 23) & 0xff, v & 0x7fffff; mx = 0xff
        else: e, m = (v >> 52) & 0x7ff, v & ((1 << 52) - 1); mx = 0x7ff
        if e == mx: return "nan" if m else "inf"
        return "fin"
    # ------------------------------------------------------------ conditions
    def cond_neg(self, c):
        if isinstance(c, Lin): return L(1) - c
        if c.op == "ge": return Cond("ge", -c.e - 1)
        if c.op == "eq": return Cond("ne", c.e)
        if c.op == "ne": return Cond("eq", c.e)
        return Cond("np" if c.op == "p" else "p", c.e)
    def decide(self, st, c):
        """True / False / None"""
        if isinstance(c, Lin):
            c = st.norm(c)
            if c.const(): return c.k != 0
            if st.num.prove_ne0(c): return True
            return None
        if c.op in ("p", "np"):
            v = st.preds.get(c.e)
            return None if v is None else (v if c.op == "p" else not v)
        n = st.num
        if c.op == "ge":
            if n.prove_ge0(c.e): return True
            if n.prove_ge0(-c.e - 1): return False
        elif c.op == "eq":
            if n.prove_eq0(c.e): return True
            if n.prove_ne0(c.e): return False
        else:
            if n.prove_ne0(c.e): return True
            if n.prove_eq0(c.e): return False
        return None
    def assume(self, st, c, val):
        if isinstance(c, Lin):
            return st.num.assume_eq0(c - 1) if val else st.num.assume_eq0(c)
        if not val: c = self.cond_neg(c)
        if c.op == "ge": return st.num.assume_ge0(c.e)
        if c.op == "eq": return st.num.assume_eq0(c.e)
        if c.op == "ne": return st.num.assume_ne0(c.e)
        st.preds[c.e] = c.op == "p"; return True
    def size_like(self, st, c):
        """does the condition talk about something other than byte contents?"""
        if isinstance(c, Cond) and isinstance(c.e, Lin):
            e = st.norm(c.e)
            return any(small_root(SYMS[s]) is None for s, _ in e.t)
        return False
    def branch(self, st, c):
        """-> (state if true or None, state if false or None)"""
        d = self.decide(st, c)
        if d is True: return st, None
        if d is False: return None, st
        sl = self.size_like(st, c)
        s2 = st.copy()
        a = st if self.assume(st, c, True) else None
        b = s2 if self.assume(s2, c, False) else None
        if a is not None and b is not None:
            if sl: a.forks += 1; b.forks += 1
        return a, b
    def as_lin(self, st, v):
        """-> list of (state, Lin) (forks a condition into 0/1)"""
        if isinstance(v, Cond):
            a, b = self.branch(st, v)
            out = []
            if a is not None: out.append((a, ONE))
            if b is not None: out.append((b, ZERO))
            return out
        return [(st, v)]
    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, e, ty):
        lo, hi = self.int_range(ty)
        a, b = st.num.bounds(e)
        if a is not None and b is not None and a >= lo and b <= hi: return e
        if st.num.prove_ge0(e - lo) and st.num.prove_ge0(L(hi) - e): return e
        m = hi - lo + 1
        if lo == 0: return st.num.mod(e, m)
        return st.num.mod(e - lo, m) + lo
    def in_range(self, st, e, ty):
        lo, hi = self.int_range(ty)
        return st.num.prove_ge0(e - lo) and st.num.prove_ge0(L(hi) - e)
    def mulv(self, st, a, b):
        a = st.norm(a); b = st.norm(b)
        if a.const(): return b * a.k
        if b.const(): return a * b.k
        la, ha = st.num.bounds(a); lb, hb = st.num.bounds(b)
        ps = [x * y for x in (la, ha) for y in (lb, hb)]
        return st.num.op("mul", [a, b], min(ps), max(ps))
    def bitop(self, st, op, a, b, ty):
        num = st.num
        a = num.norm(a); b = num.norm(b)
        t = self.T(ty)
        if t["k"] == "bool":
            if op == "and":
                if a == ZERO or b == ZERO: return ZERO
                if a.const(): return b
                if b.const(): return a
            if op == "or":
                if a == ZERO: return b
                if b == ZERO: return a
                if a.const() or b.const(): return ONE
            if op == "xor":
                if a.const(): return b if a.k == 0 else ONE - b
                if b.const(): return a if b.k == 0 else ONE - a
        if a.const() and not b.const(): a, b = b, a
        lo, hi = self.int_range(ty)
        if a.const() and b.const():
            r = {"and": a.k & b.k, "or": a.k | b.k, "xor": a.k ^ b.k}[op]
            return L(r)
        # single small root on both sides: exact pointwise operator
        rs = set()
        for e in (a, b):
            for s, _ in e.t: rs |= SYMS[s].roots
        if len(rs) == 1 and small_root(SYMS[(a.t or b.t)[0][0]]) is not None:
            return num.op(op, [a, b], lo, hi)
        if b.const():
            m = b.k
            if op == "and" and m >= 0:
                if m & (m + 1) == 0: return num.mod(a, m + 1) if m else ZERO
                # contiguous mask
                z = (m & -m).bit_length() - 1; h = m >> z
                if h & (h + 1) == 0:
                    return num.mod(num.div(a, 1 << z), h + 1) * (1 << z)
                al, ah = num.bounds(a)
                w = hi + 1
                nm = (~m) & hi
                # mask clearing low bits
            if op == "or" and m >= 0:
                al, ah = num.bounds(a)
                low = (m & -m)
                if m and num.prove_ge0(a) and num.prove_ge0(L(low - 1) - a): return a + m
                ak = a.k
                if m and ak > 0 and a.t:
                    g = (ak | m) & -(ak | m); r = a - ak
                    if num.prove_ge0(r) and num.prove_ge0(L(g - 1) - r): return r + (ak | m)
                if al is not None and al >= 0 and ah is not None:
                    if ah < low or m == 0: return a + m
                    # multiple of a power above m
                    k = m.bit_length()
                    if num.prove_eq0(num.mod(a, 1 << k)): return a + m
        if op in ("or", "xor"):
            for x, y in ((a, b), (b, a)):
                l, h = num.bounds(y); l2, h2 = num.bounds(x)
                if l is not None and l >= 0 and h is not None and l2 is not None and l2 >= 0:
                    k = h.bit_length()
                    if num.prove_eq0(num.mod(x, 1 << k)): return a + b
        if op == "and":
            al, ah = num.bounds(a); bl, bh = num.bounds(b)
            if al is not None and al >= 0 and bl is not None and bl >= 0:
                return num.op(op, [a, b], 0, min(ah, bh))
        return num.op(op, [a, b], lo, hi)
    def binop(self, st, op, a, b, ty, fr=None):
        """-> list of (state, value)"""
        num = st.num
        if isinstance(a, Agg) and op != "Cmp": a = self.leafify(a)
        if isinstance(b, Agg) and op != "Cmp": b = self.leafify(b)
        if isinstance(a, FloatV) or isinstance(b, FloatV): return [(st, self.fcmp(st, op, a, b))]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b, ty)
        if op == "Offset": return [(st, self.ptr_add(st, a, b))]
        if op == "Cmp":
            out = []
            x, y = self.branch(st, Cond("ge", b - a - 1))
            if x is not None: out.append((x, Enum(0, (), "Less")))
            if y is not None:
                p, q = self.branch(y, Cond("eq", a - b))
                if p is not None: out.append((p, Enum(1, (), "Equal")))
                if q is not None: out.append((q, Enum(2, (), "Greater")))
            return out
        # booleans used as integers
        if isinstance(a, Cond) or isinstance(b, Cond):
            out = []
            for s, x in self.as_lin(st, a):
                for s2, y in self.as_lin(s, b): out += self.binop(s2, op, x, y, ty)
            return out
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Imprecise("ptr arith %s" % op)
        if a is None or b is None or isinstance(a, Opaque) or isinstance(b, Opaque):
            return [(st, Opaque(ty, op))]
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            k = op[:3]
            if k == "Add": r = a + b
            elif k == "Sub": r = a - b
            else: r = self.mulv(st, a, b); self.note_scale(st, a, b)
            r = num.norm(r)
            if op.endswith("Overflow"):
                out = []
                lo, hi = self.int_range(ty)
                s, f = self.branch(st, Cond("ge", r - lo))
                if f is not None: out.append((f, Agg([self.wrap(f, r, ty), ONE])))
                if s is not None:
                    s, f = self.branch(s, Cond("ge", L(hi) - r))
                    if f is not None: out.append((f, Agg([self.wrap(f, r, ty), ONE])))
                    if s is not None: out.append((s, Agg([r, ZERO])))
                return out
            if op.endswith("Unchecked"): return [(st, r)]
            return self.wrap_fork(st, r, ty)
        if op in ("Div", "Rem"):
            b = num.norm(b); a = num.norm(a)
            self.note_scale(st, a, b)
            if b.const() and b.k > 0:
                lo, _ = num.bounds(a)
                if lo is not None and lo >= 0:
                    return [(st, num.div(a, b.k) if op == "Div" else num.mod(a, b.k))]
                out = []
                s, f = self.branch(st, Cond("ge", a))
                if s is not None: out.append((s, s.num.div(a, b.k) if op == "Div" else s.num.mod(a, b.k)))
                if f is not None:
                    q = -f.num.div(-a, b.k)
                    out.append((f, q if op == "Div" else f.norm(a - q * b.k)))
                return out
            lo, hi = self.int_range(ty)
            return [(st, fresh(op, lo, hi))]
        if op in ("BitAnd", "BitOr", "BitXor"):
            return [(st, self.bitop(st, {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b, ty))]
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            b = num.norm(b); a = num.norm(a)
            self.note_scale(st, a, None)
            if b.const():
                n = b.k % self.bits(ty)
                if op.startswith("Shl"): return [(st, self.wrap(st, a * (1 << n), ty))]
                return [(st, num.div(a, 1 << n))]
            if a.const() and op.startswith("Shr"):
                bl, bh = num.bounds(b)
                if bl is not None and bh is not None and 0 <= bl and bh < 256:
                    tb = tuple(a.k >> (i % self.bits(ty)) for i in range(bh + 1))
                    return [(st, num.op(("tbl", tb), [b], min(tb), max(tb)))]
            if a.const() and op.startswith("Shl"):
                bl, bh = num.bounds(b)
                lo, hi = self.int_range(ty)
                if bl is not None and bh is not None and 0 <= bl and bh < 256 and lo == 0:
                    tb = tuple((a.k << (i % self.bits(ty))) & hi for i in range(bh + 1))
                    return [(st, num.op(("tbl", tb), [b], min(tb), max(tb)))]
            lo, hi = self.int_range(ty)
            return [(st, fresh(op, lo, hi))]
        raise Imprecise("binop %s" % op)
    def note_scale(self, st, a, b):
        def nontriv(e):
            return isinstance(e, Lin) and any(True for s, _ in st.norm(e).t)
        if nontriv(a) or (b is not None and nontriv(b)): st.scaled += 1
    def wrap_fork(self, st, r, ty):
        """wrapping result; forks into the (at most two) cases when the sum is linear and out of range by one period"""
        if self.in_range(st, r, ty): return [(st, r)]
        lo, hi = self.int_range(ty)
        g, rest = st.num.groups(st.norm(r))
        if not rest and len(g) == 1: return [(st, self.wrap(st, r, ty))]
        m = hi - lo + 1
        a, b = st.num.bounds(r)
        if a is None or b is None or (b - lo) // m - (a - lo) // m > 2: return [(st, self.wrap(st, r, ty))]
        out = []
        s, f = self.branch(st, Cond("ge", r - lo))
        if f is not None: out.append((f, r + m))
        if s is not None:
            s, f = self.branch(s, Cond("ge", L(hi) - r))
            if s is not None: out.append((s, r))
            if f is not None: out.append((f, r - m))
        return out
    def compare(self, st, op, a, b, ty):
        for x in (a, b):
            if isinstance(x, Cond):
                out = []
                for s, u in self.as_lin(st, a):
                    for s2, v in self.as_lin(s, b): out += self.compare(s2, op, u, v, ty)
                return out
        if isinstance(a, Agg) and len(a.f) == 1: a = a.f[0]
        if isinstance(b, Agg) and len(b.f) == 1: b = b.f[0]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.root == b.root and len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1]:
                if not a.path or a.path[-1] == b.path[-1]: x, y = ZERO, ZERO
                elif a.path[-1][0] == "e" and b.path[-1][0] == "e": x, y = a.path[-1][1], b.path[-1][1]
                else: return [(st, L(1 if op == "Ne" else 0))]
                a, b = x, y
            else: return [(st, L(1 if op in ("Ne",) else 0))] if op in ("Eq", "Ne") else [(st, Cond("p", ("cmp", repr(a), op, repr(b))))]
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return [(st, Cond("p", ("cmp", op, self.vkey(a), self.vkey(b))))]
        d = a - b
        c = {"Eq": ("eq", d), "Ne": ("ne", d), "Lt": ("ge", -d - 1), "Le": ("ge", -d), "Gt": ("ge", d - 1), "Ge": ("ge", d)}[op]
        c = Cond(*c)
        r = self.decide(st, c)
        if r is not None: return [(st, ONE if r else ZERO)]
        return [(st, c)]
    def vkey(self, v):
        if isinstance(v, Opaque): return ("o", v.id)
        return repr(v)
    def fcmp(self, st, op, a, b):
        if not isinstance(a, FloatV) or not isinstance(b, FloatV): return Cond("p", ("fcmp", op, repr(a), repr(b)))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            ne = op == "Ne"
            if a.cls == "nan" or b.cls == "nan": return L(1 if ne else 0)
            if a == b and a.cls: return L(1 if op in ("Eq", "Le", "Ge") else 0)
            if a.cls and b.cls and self.isabs(a) and b.key and isinstance(b.key, tuple) and b.key[0] == "bits" and b.cls == "inf" and b.key[1] in (0x7f800000, 0x7ff0000000000000):
                lt = a.cls == "fin"
                return L({"Eq": not lt, "Ne": lt, "Lt": lt, "Le": 1, "Gt": 0, "Ge": not lt}[op])
            if a.cls and b.cls and a.cls != b.cls and op in ("Eq", "Ne"): return L(1 if ne else 0)
            return Cond("p", ("fcmp", op, a, b))
        return FloatV((op, a, b), None, a.bits)
    @staticmethod
    def isabs(a): return isinstance(a.key, tuple) and a.key[0] == "abs"
    # ------------------------------------------------------------ pointers
    def ptr_add(self, st, p, n):
        while isinstance(p, Agg) and len(p.f): p = p.f[0]
        if not isinstance(p, Ptr): raise Imprecise("ptr add on %r" % (p,))
        if p.path and p.path[-1][0] == "e":
            return Ptr(p.root, p.path[:-1] + (("e", st.norm(p.path[-1][1] + n)),), p.meta)
        if st.norm(n) == ZERO: return p
        # pointer to a single object: treat as one-element array
        return Ptr(p.root, p.path + (("e", st.norm(L(n))),), p.meta)
    def cast(self, st, kind, v, fty, tty):
        """-> list of (state, value)"""
        t = self.T(tty); f = self.T(fty) if fty is not None else None
        if kind == "IntToInt":
            out = []
            for s, x in self.as_lin(st, v):
                if isinstance(x, Enum):   # fieldless enum as integer
                    d = f["vs"][x.v][1]
                    x = L(int(d))
                if not isinstance(x, Lin): 
                    out.append((s, self.fresh(s, tty, "cast"))); continue
                out += self.wrap_fork(s, x, tty) if t["k"] == "int" and f is not None and f["k"] == "int" and t["signed"] != f["signed"] and self.bits(t) == self.bits(f) else [(s, self.wrap(s, x, tty))]
            return out
        if kind in ("PtrToPtr", "FnPtrToPtr", "PointerCoercion(MutToConstPointer)", "MutToConstPointer"):
            return [(st, self.ptr_cast(st, v, f, t))]
        if "Unsize" in kind:
            return [(st, self.unsize(st, v, f, t))]
        if kind in ("ReifyFnPointer", "ClosureFnPointer", "UnsafeFnPointer") or "FnPointer" in kind: return [(st, v)]
        if "ArrayToPointer" in kind:
            return [(st, Ptr(v.root, v.path + (("e", ZERO),)))]
        if kind in ("Transmute", "BoundedTransmute", "Subtype"):
            return self.transmute(st, v, f, t)
        if kind in ("IntToFloat",):
            return [(st, FloatV(("from_int", self.lkey(st, v), f.get("s")), "fin", t.get("bits", 64)))]
        if kind in ("FloatToFloat",):
            return [(st, FloatV(("cast", v, t.get("bits")), v.cls if isinstance(v, FloatV) else None, t.get("bits", 64)))]
        if kind == "FloatToInt":
            return [(st, self.fresh(st, tty, "f2i"))]
        if "Expose" in kind or "Provenance" in kind:
            return [(st, Opaque(tty, "addr"))]
        raise Imprecise("cast %s" % kind)
    def lkey(self, st, v): return st.norm(v) if isinstance(v, Lin) else v
    def pointee(self, t):
        if t is None: return None
        if t["k"] in ("ref", "ptr"): return t.get("e")
        if t["k"] == "struct" and t.get("path", "").endswith("::NonNull") and t.get("args"): return t["args"][0]
        return None
    def ptr_cast(self, st, v, f, t):
        while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
        if isinstance(v, Opaque) or not isinstance(v, Ptr): return v
        fe = self.T(f["e"]) if f and "e" in f else None; te = self.T(t["e"]) if "e" in t else None
        if te is None or fe is None: return v
        thin_to = te["k"] not in ("slice", "str", "dyn") and not self.unsized_tail(te)
        if fe["k"] in ("slice", "str") and thin_to: return Ptr(v.root, v.path)
        if fe["k"] in ("slice", "str"): return v
        if fe["k"] in ("struct", "union") and te["k"] == "int":
            # pointer to a wrapper of an array of scalars -> pointer to the first scalar
            cur = self.load_raw(st, v.root, v.path); path = v.path; ft = fe
            while isinstance(cur, Agg) and cur.f:
                if ft["k"] == "array": return Ptr(v.root, path + (("e", ZERO),))
                if ft["k"] not in ("struct", "union"): break
                fs = ft["vs"][0][2]
                j = [i for i, x in enumerate(cur.f) if not (isinstance(x, Agg) and not x.f) and x is not None]
                if len(j) != 1 and ft["k"] == "struct" or not j: break
                if ft["k"] == "union":
                    # a union holds the value of one of its fields
                    fs = [x for x in fs if self.T(x[1])["k"] != "tuple"]
                    if len(fs) != 1: break
                    nt = self.T(fs[0][1])
                    if cur.tag == ft.get("path"): path = path + (("f", 0),); cur = cur.f[0]
                    ft = nt; continue
                path = path + (("f", j[0]),); cur = cur.f[j[0]]; ft = self.T(fs[j[0]][1])
        if fe["k"] == "array" and te["k"] != "array":
            # pointer to the array -> pointer to its first element
            cur = self.load_raw(st, v.root, v.path)
            if isinstance(cur, Agg) and not (v.path and v.path[-1][0] == "e" and not isinstance(cur, Agg)):
                if te["k"] in ("int", "struct", "enum", "union", "float", "ref", "ptr", "tuple", "param"): return Ptr(v.root, v.path + (("e", ZERO),))
            if cur is None and v.root in st.mem: return Ptr(v.root, v.path + (("e", ZERO),))
            return v
        return v
    def unsize(self, st, v, f, t):
        if not isinstance(v, Ptr): return v
        fe = self.T(f["e"]) if "e" in f else None
        te = self.T(t["e"]) if "e" in t else None
        if fe and te and te["k"] in ("slice",) and fe["k"] == "array":
            cur = self.load_raw(st, v.root, v.path)
            if v.path and v.path[-1][0] == "e" and not (isinstance(cur, Agg)):
                return Ptr(v.root, v.path, self.arrlen(fe))
            return Ptr(v.root, v.path + (("e", ZERO),), self.arrlen(fe))
        if fe and te and fe["k"] == "struct" and te["k"] == "struct" and v.meta is None and self.unsized_tail(te):
            n = self.array_tail(fe)
            if n is not None: return Ptr(v.root, v.path, L(n))
        return Ptr(v.root, v.path, v.meta)
    def arrlen(self, t):
        """length of an array type; a const parameter is any length"""
        return L(t["n"]) if t["n"] is not None else named("array length %s" % (t.get("s") or t["e"]), 0, (1 << 31) - 1)
    def array_tail(self, t, depth=0):
        if t["k"] == "array": return t["n"]
        if t["k"] == "struct" and depth < 6 and t.get("vs") and t["vs"][0][2]: return self.array_tail(self.T(t["vs"][0][2][-1][1]), depth + 1)
        return None
    def leafify(self, v):
        while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
        if isinstance(v, Agg):
            nz = [x for x in v.f if not (isinstance(x, Agg) and not x.f) and x is not None]
            if len(nz) == 1: return self.leafify(nz[0])
        return v
    def rewrap(self, st, leaf, ty):
        """place a scalar leaf inside the (nested) single-field wrappers of a type"""
        t = self.T(ty)
        if t["k"] == "struct":
            fs = t["vs"][0][2]
            out = []; done = False
            for n, x in fs:
                xt = self.T(x)
                if not done and not (xt["k"] == "struct" and not xt["vs"][0][2] or xt["k"] == "tuple" and not xt["es"] or "PhantomData" in xt.get("s", "")):
                    out.append(self.rewrap(st, leaf, x)); done = True
                else: out.append(UNIT)
            return Agg(out, t["path"])
        return leaf
    def rewrap_like(self, old, leaf):
        """same wrapper nesting as old, with its pointer leaf replaced"""
        if isinstance(old, Agg):
            f = list(old.f)
            for i, x in enumerate(f):
                if isinstance(self.leafify(x), (Ptr, Lin)): f[i] = self.rewrap_like(x, leaf); return Agg(f, old.tag)
        return leaf
    def transmute(self, st, v, f, t):
        if f is not None and f.get("k") == "int" or isinstance(v, Lin):
            fb = self.bits(f) if f and f["k"] in ("int", "char", "bool") else None
            if t["k"] == "array" and self.T(t["e"])["k"] == "int" and isinstance(v, Lin):
                n = t["n"]; eb = self.bits(t["e"])
                if eb == 8 and (v, n) in BYTES: return [(st, Agg([self.wrap(st, st.norm(x), t["e"]) for x in BYTES[(v, n)]]))]
                return [(st, Agg([self.wrap(st, st.num.mod(self.byte_of(st, v, i, eb), 1 << eb), t["e"]) for i in range(n)]))]
            if t["k"] in ("int", "char", "bool") and isinstance(v, Lin):
                return [(st, self.wrap(st, v, t))] if t["k"] == "int" else [(st, v)]
            if t["k"] == "enum" and isinstance(v, Lin):
                e = st.norm(v)
                out = []
                none = [i for i, vv in enumerate(t["vs"]) if not vv[2]]
                one = [i for i, vv in enumerate(t["vs"]) if len(vv[2]) == 1]
                if len(t["vs"]) == 2 and len(none) == 1 and len(one) == 1:
                    pt = self.T(t["vs"][one[0]][2][0][1])
                    if not (pt["k"] == "struct" and "NonZero" in (pt.get("path") or "")): raise Imprecise("transmute to %s" % t.get("s"))
                    s = st.copy()
                    if s.num.assume_eq0(e): s.forks += 1; out.append((s, Enum(none[0], (), t["vs"][none[0]][0])))
                    if st.num.assume_ne0(e): st.forks += 1; out.append((st, Enum(one[0], (self.rewrap(st, v, pt),), t["vs"][one[0]][0])))
                    return out
                if len(none) != len(t["vs"]): raise Imprecise("transmute to %s" % t.get("s"))
                for i, vv in enumerate(t["vs"]):
                    s = st.copy()
                    if s.num.assume_eq0(e - int(vv[1])): out.append((s, Enum(i, (), vv[0])))
                return out
            if t["k"] == "float":
                return [(st, self.float_from_bits(st, v, t.get("bits", 64)))]
            if t["k"] == "struct": return [(st, self.rewrap(st, v, t))]
        if isinstance(v, FloatV):
            if t["k"] == "int":
                return [(st, self.float_bits(st, v))]
            if t["k"] == "array":
                b = self.float_bits(st, v)
                return [(st, Agg([st.num.mod(self.byte_of(st, b, i, 8), 256) for i in range(t["n"])]))]
        if t["k"] == "int" and isinstance(v, Agg) and f is not None and f["k"] == "array":
            eb = self.bits(f["e"])
            e = ZERO
            for i, x in enumerate(v.f):
                if not isinstance(x, Lin): return [(st, self.fresh(st, t, "tr"))]
                e = e + st.norm(x) * (1 << (eb * i))
            return self.wrap_fork(st, e, t) if t["signed"] else [(st, self.wrap(st, e, t))]
        if t["k"] == "float" and isinstance(v, Agg):
            e = ZERO
            for i, x in enumerate(v.f): e = e + st.norm(x) * (1 << (8 * i))
            return [(st, self.float_from_bits(st, e, t.get("bits", 64)))]
        if t["k"] == "array" and isinstance(v, Agg) and f is not None:
            ft = f
            while ft["k"] in ("struct", "union") and isinstance(v, Agg):
                if ft["k"] == "union":
                    fs = [x for x in ft["vs"][0][2] if not (self.T(x[1])["k"] == "tuple" and not self.T(x[1])["es"])]
                    if len(fs) != 1: break
                    if v.tag == ft.get("path") and len(v.f) == 1: v = v.f[0]
                    ft = self.T(fs[0][1]); continue
                if v.tag != ft.get("path"): break
                j = [i for i, x in enumerate(v.f) if not (isinstance(x, Agg) and not x.f) and x is not None]
                if len(j) != 1: break
                ft = self.T(ft["vs"][0][2][j[0]][1]); v = v.f[j[0]]
            if ft["k"] == "array": return [(st, v)]
        if t["k"] in ("ref", "ptr", "struct"):
            l = self.leafify(v)
            pf, pt = self.pointee(f), self.pointee(t)
            if isinstance(l, Ptr) and pf is not None and pt is not None: l = self.ptr_cast(st, l, {"e": pf}, {"e": pt})
            if t["k"] != "struct": return [(st, l)]
            if isinstance(l, (Ptr, Lin)): return [(st, self.rewrap(st, l, t))]
            if isinstance(v, Agg): return [(st, v)]
        if isinstance(v, Opaque): return [(st, v)]
        l = self.leafify(v)
        if isinstance(l, (Ptr, Lin)): return [(st, l)]
        return [(st, v)]
    def byte_of(self, st, v, i, eb=8):
        return st.num.div(v, 1 << (eb * i)) if i else v
    def float_bits(self, st, v):
        if isinstance(v.key, tuple) and v.key[0] == "bits": return L(v.key[1])
        if isinstance(v.key, tuple) and v.key[0] == "sym": return v.key[1]
        return named("bits(%r)" % (v.key,), 0, (1 << v.bits) - 1)
    def float_from_bits(self, st, e, bits):
        e = st.norm(e)
        if e.const(): return FloatV(("bits", e.k), self.float_class(e.k, bits), bits)
        return FloatV(("sym", e), None, bits)
    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        """-> list of (state, value)"""
        k = r[0]
        if k == "use": return [(st, self.operand(st, fr, r[1]))]
        if k == "ref" or k == "rawptr":
            root, path, meta, ty = self.resolve(st, fr, r[2] if k == "ref" else r[1])
            t = self.T(ty) if ty is not None else None
            if t and (t["k"] in ("slice", "str") or self.unsized_tail(ty)): return [(st, Ptr(root, path, meta))]
            return [(st, Ptr(root, path))]
        if k == "repeat":
            v = self.operand(st, fr, r[1]); n = r[2]
            if n is None or n > 4096: return [(st, Opaque(dty, "repeat"))]
            return [(st, Agg([v] * n))]
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), self.operand_ty(st, fr, r[2]), r[3])
        if k == "bin":
            a = self.operand(st, fr, r[2]); b = self.operand(st, fr, r[3])
            ty = self.operand_ty(st, fr, r[2])
            if ty is None: ty = self.operand_ty(st, fr, r[3])
            return self.binop(st, r[1], a, b, ty, fr)
        if k == "un":
            v = self.operand(st, fr, r[2]); op = r[1]
            ty = self.operand_ty(st, fr, r[2])
            if op == "Not":
                if isinstance(v, Cond): return [(st, self.cond_neg(v))]
                if self.T(ty)["k"] == "bool":
                    return [(st, ONE - v)] if isinstance(v, Lin) else [(st, Opaque(ty, "not"))]
                if not isinstance(v, Lin): return [(st, Opaque(ty, "not"))]
                lo, hi = self.int_range(ty)
                return [(st, L(hi) - v if lo == 0 else -v - 1)]
            if op == "Neg":
                if isinstance(v, FloatV): return [(st, FloatV(("neg", v), v.cls, v.bits))]
                return self.wrap_fork(st, -v, ty)
            if op == "PtrMetadata":
                while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
                if isinstance(v, Ptr): return [(st, v.meta if v.meta is not None else UNIT)]
                return [(st, fresh("meta", 0, (1 << (self.ptrbits - 1)) - 1))]
            raise Imprecise("unop " + op)
        if k == "discr":
            root, path, meta, ty = self.resolve(st, fr, r[1])
            t = self.T(ty)
            v = self.load(st, root, path, ty)
            if isinstance(v, Opaque) and t["k"] == "enum":
                out = []
                for i, vv in enumerate(t["vs"]):
                    if self.uninhabited(vv): continue
                    s = st.copy()
                    e = Enum(i, [self.fresh(s, x[1], "%s.%s" % (v.info or "o", vv[0])) for x in vv[2]], vv[0])
                    self.store(s, root, path, e)
                    self.refine_same(s, v, e)
                    out.append((s, L(int(vv[1]))))
                return out
            if isinstance(v, Enum): return [(st, L(int(t["vs"][v.v][1])))]
            if isinstance(v, Lin): return [(st, v)]
            if v is None or isinstance(v, Agg) and not v.f:
                live = [vv for vv in t.get("vs", []) if not self.uninhabited(vv)] if t["k"] == "enum" else []
                if len(live) == 1: return [(st, L(int(live[0][1])))]      # zero-sized enum
            if v is None: raise Imprecise("discriminant of uninit %s" % t.get("s"))
            if isinstance(v, Agg) and t["k"] != "enum": return [(st, ZERO)]
            raise Imprecise("discriminant of %r" % (v,))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            kd = r[1]
            kk = kd[0] if isinstance(kd, list) else kd
            if kk == "adt":
                t = self.T(dty)
                if t["k"] == "enum": return [(st, Enum(kd[2], ops, t["vs"][kd[2]][0]))]
                if t["k"] == "union":
                    return [(st, Agg(ops[:1], t.get("path")))]
                return [(st, Agg(ops, kd[1]))]
            if kk == "rawptr":
                p = self.leafify(ops[0])
                if isinstance(p, Ptr):
                    if isinstance(ops[1], Lin):
                        path = p.path
                        if not (path and path[-1][0] == "e"): path = path + (("e", ZERO),)
                        return [(st, Ptr(p.root, path, st.norm(ops[1])))]
                    return [(st, p)]
                return [(st, p)]
            if kk == "closure": return [(st, Agg(ops, "closure"))]
            return [(st, Agg(ops))]
        raise Imprecise("rvalue %s" % k)
    def refine_same(self, st, old, new):
        """replace an opaque enum everywhere it is stored"""
        def sub(v):
            if v is old: return new
            if isinstance(v, Agg):
                f = [sub(x) for x in v.f]
                return Agg(f, v.tag) if any(a is not b for a, b in zip(f, v.f)) else v
            if isinstance(v, Enum):
                f = [sub(x) for x in v.f]
                return Enum(v.v, f, v.name) if any(a is not b for a, b in zip(f, v.f)) else v
            return v
        for k in list(st.mem):
            if k[0] != "K": st.mem[k] = sub(st.mem[k])
    def uninhabited(self, vv):
        for n, x in vv[2]:
            t = self.T(x)
            if t["k"] == "never": return True
            if t["k"] == "enum" and not t["vs"]: return True
        return False
    # ------------------------------------------------------------ execution
    def push(self, st, body, args, dest, destty, ret, post=None):
        self.fid += 1; self.ncalls += 1
        self.visited.add(body.key)
        f = Frame.__new__(Frame)
        f.body = body; f.fid = self.fid; f.bb = 0; f.si = 0; f.dest = dest; f.destty = destty; f.ret = ret; f.active = (); f.post = post; f.unr = None
        n = body.nargs
        if body.spread is not None and body.spread:
            # last argument is a tuple spread over nothing: MIR local `spread` receives the tuple itself
            pass
        for i in range(n):
            st.mem[(f.fid, i + 1)] = args[i] if i < len(args) else None
        st.frames.append(f)
        return f
    def start(self, body, mk, st=None):
        """state about to execute body; mk(interp, state) -> args"""
        st = st or State()
        args = mk(self, st)
        self.push(st, body, args, None, None, None)
        return st
    def run_root(self, body, mk, st=None):
        st = self.start(body, mk, st)
        return self.run([st])
    def call_body(self, st, body, args):
        """run a body on a state from outside; -> list of Result ('ret', value, state)"""
        base = len(st.frames)
        self.push(st, body, args, None, None, None)
        return self.run([st], base=base)
    # run until every state has returned from frame depth `base`+1, or hits the loop stop
    def run(self, states, base=0, stop=None):
        """stop = (fid, head, blocks): returns (results, backs, exits) if given, else results"""
        res = []; backs = []; exits = []
        work = list(states)
        while work:
            st = work.pop()
            try:
                nxt = self.step(st, base, stop, res, backs, exits)
            except Imprecise as e:
                res.append(Result("imprecise", str(e), st, self.where(st))); self.count()
                if DEBUG: import traceback; traceback.print_exc()
                continue
            except Infeasible:
                continue
            if nxt: work += nxt
        if stop is None: return res
        return res, backs, exits
    def count(self):
        self.npaths += 1
        if self.npaths > self.maxpaths: raise RuntimeError("path budget exceeded")
    def where(self, st):
        if not st.frames: return ""
        # innermost local function
        out = []
        for f in reversed(st.frames):
            if f.body.local:
                return f.body.path
        return st.frames[-1].body.path
    def trace(self, st): return [(f.body.path, f.bb, f.body.blocks[f.bb].get("l")) for f in st.frames]
    def step(self, st, base, stop, res, backs, exits):
        """execute to the next terminator of the top frame"""
        while True:
            fr = st.frames[-1]
            b = fr.body.blocks[fr.bb]
            if fr.si == 0:
                # loop bookkeeping
                if stop is not None and fr.fid == stop[0]:
                    if fr.bb == stop[1]:
                        if st.log == "start": st.log = None
                        else:
                            if self.h: self.h.on_back(self, st, fr)
                            backs.append(st); return None
                    elif fr.bb not in stop[2]:
                        fr.active = tuple(h for h in fr.active if h != stop[1])
                        exits.append(st); return None
                lp = fr.body.loops()
                if fr.bb in lp and fr.bb not in fr.active:
                    if self.h: self.h.on_back(self, st, fr)
                    return self.loop(st, fr, lp[fr.bb], res)
            st.steps += 1
            ss = b["s"]
            while fr.si < len(ss):
                s = ss[fr.si]
                r = self.stmt(st, fr, s)
                if r is None:
                    fr.si += 1; continue
                # forked
                out = []
                for s2 in r:
                    s2.frames[-1].si += 1
                    out.append(s2)
                return out
            r = self.term(st, fr, b["t"], base, res)
            if r is not None: return r
            if not st.frames: return None
            if len(st.frames) <= base: return None
    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            place = s[1]
            dty = fr.body.locals[place[0]] if not place[1] else None
            if dty is None and s[2][0] == "agg": dty = self.operand_ty(st, fr, {"c": place})
            vs = self.rvalue(st, fr, s[2], dty)
            if len(vs) == 1 and vs[0][0] is st:
                self.assign(st, fr, place, vs[0][1]); return None
            for s2, v in vs: self.assign(s2, s2.frames[-1], place, v)
            return [s2 for s2, _ in vs]
        if k == "sd":
            root, path, meta, ty = self.resolve(st, fr, s[1])
            v = self.load(st, root, path, ty)
            t = self.T(ty)
            self.store(st, root, path, Enum(s[2], v.f if isinstance(v, (Agg, Enum)) else (), t["vs"][s[2]][0]))
            return None
        if k == "assume":
            c = self.operand(st, fr, s[1])
            if isinstance(c, (Cond, Lin)):
                d = self.decide(st, c)
                if fr.body.local and self.h and d is not True: self.h.on_unsafe(self, st, "assume", c)
                if d is False and self.h: self.h.on_unreachable(self, st, fr)
                if not self.assume(st, c, True): raise Infeasible()
            return None
        if k == "copynon":
            self.copy_mem(st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]), self.operand(st, fr, s[3]), True)
            return None
        return None
    def assign(self, st, fr, place, v):
        if not place[1]:
            st.mem[(fr.fid, place[0])] = v; return
        root, path, meta, ty = self.resolve(st, fr, place)
        self.store(st, root, path, v)
    def copy_mem(self, st, src, dst, n, nonover):
        src = self.leafify(src); dst = self.leafify(dst)
        n = st.norm(n)
        if n == ZERO: return
        if not isinstance(src, Ptr) or not isinstance(dst, Ptr): raise Imprecise("copy")
        if self.h: self.h.on_copy(self, st, src, dst, n, nonover)
        def arr(p):
            v = self.load_raw(st, p.root, p.path[:-1]) if p.path and p.path[-1][0] == "e" else None
            return v
        sv, dv = arr(src), arr(dst)
        if sv is None and not (src.path and src.path[-1][0] == "e") and n == ONE:
            v = self.load(st, src.root, src.path); self.store(st, dst.root, dst.path, v); return
        if isinstance(dv, Buf):
            off = dst.path[-1][1]
            if n.const() and n.k <= 64:
                vals = [self.load(st, src.root, src.path[:-1] + (("e", st.norm(src.path[-1][1] + i)),)) for i in range(n.k)]
                self.store(st, dst.root, dst.path, Agg(vals) if n.k > 1 else vals[0])
            else:
                st.mem[dst.root] = self.buf_write(st, dv, off, n, ("copy", src), dst.root)
            return
        if n.const() and isinstance(dv, (Agg, type(None))) and n.k <= 4096:
            vals = [self.load(st, src.root, src.path[:-1] + (("e", st.norm(src.path[-1][1] + i)),)) for i in range(n.k)]
            for i, v in enumerate(vals):
                self.store(st, dst.root, dst.path[:-1] + (("e", st.norm(dst.path[-1][1] + i)),), v)
            return
        raise Imprecise("copy of %r to %r" % (sv, dv))
    def finish(self, st, kind, val, res):
        self.count()
        res.append(Result(kind, val, st, self.where(st)))
    def goto(self, st, bb):
        fr = st.frames[-1]; fr.bb = bb; fr.si = 0
    def term(self, st, fr, t, base, res):
        k = t[0]
        if k == "goto": fr.bb = t[1]; fr.si = 0; return None
        if k == "switch":
            v = self.operand(st, fr, t[1])
            ty = self.T(t[2])
            if isinstance(v, Cond):
                a, b = self.branch(st, v)
                out = []
                tv = None; fv = None
                for val, bb in t[3]:
                    if int(val) == 0: fv = bb
                    else: tv = bb
                if tv is None: tv = t[4]
                if fv is None: fv = t[4]
                if a is not None: self.goto(a, tv); out.append(a)
                if b is not None: self.goto(b, fv); out.append(b)
                if len(out) == 1 and out[0] is st: return None
                return out
            if isinstance(v, Opaque):
                out = []
                for val, bb in t[3]:
                    s = st.copy(); self.goto(s, bb); out.append(s)
                s = st.copy(); self.goto(s, t[4]); out.append(s)
                st.forks += 1
                return out
            if not isinstance(v, Lin): raise Imprecise("switch on %r" % (v,))
            v = st.norm(v)
            if v.const():
                for val, bb in t[3]:
                    if int(val) == v.k: fr.bb = bb; fr.si = 0; return None
                fr.bb = t[4]; fr.si = 0; return None
            out = []
            cur = st
            sl = any(small_root(SYMS[s]) is None for s, _ in v.t)
            # merge targets: group values by target block
            for val, bb in t[3]:
                x = int(val)
                d = cur.num.prove_ne0(v - x)
                if d: continue
                s = cur.copy()
                if s.num.assume_eq0(v - x):
                    self.goto(s, bb); s.forks += sl; out.append(s)
                if not cur.num.assume_ne0(v - x): cur = None; break
            if cur is not None:
                if t[4] is not None:
                    self.goto(cur, t[4]); cur.forks += sl; out.append(cur)
            return out
        if k == "ret":
            v = st.mem.get((fr.fid, 0))
            return self.do_return(st, fr, v, base, res)
        if k == "drop":
            if self.h: self.h.on_drop(self, st, fr, t)
            fr.bb = t[2]; fr.si = 0; return None
        if k == "assert":
            c = self.operand(st, fr, t[1])
            want = t[2]
            self.obl += 1
            if not isinstance(c, (Cond, Lin)): raise Imprecise("assert on %r" % (c,))
            a, b = self.branch(st, c)
            ok, bad = (a, b) if want else (b, a)
            if bad is not None:
                r = self.panic(bad, t[3], res)
            if ok is None: return []
            self.goto(ok, t[5])
            return None if ok is st else [ok]
        if k == "call": return self.call(st, fr, t, base, res)
        if k == "unreachable":
            if self.h: self.h.on_unreachable(self, st, fr)
            return []
        if k in ("resume", "abort"): return []
        raise Imprecise("terminator %s" % k)
    def panic(self, st, msg, res):
        self.finish(st, "panic", msg, res)
        return []
    def do_return(self, st, fr, v, base, res):
        st.frames.pop()
        # drop dead locals of the frame unless referenced (kept: cheap)
        if len(st.frames) <= base:
            if fr.post is not None:
                out = []
                for s, w in fr.post(st, v): self.finish_ret(s, w, res)
                return []
            self.finish_ret(st, v, res)
            return []
        if fr.post is not None:
            outs = fr.post(st, v)
        else: outs = [(st, v)]
        r = []
        for s, w in outs:
            top = s.frames[-1]
            if fr.dest is not None: self.assign(s, top, fr.dest, w)
            if fr.ret is None: continue
            top.bb = fr.ret; top.si = 0
            r.append(s)
        if len(r) == 1 and r[0] is st: return None
        return r
    def finish_ret(self, st, v, res):
        self.count(); res.append(Result("ret", v, st))
    # ------------------------------------------------------------ calls
    def call(self, st, fr, t, base, res):
        c = t[1]; dest, target, dty = t[3], t[4], t[5]
        args = [self.operand(st, fr, o) for o in t[2]]
        return self.do_call(st, fr, c, args, dest, target, dty, [self.operand_ty(st, fr, o) for o in t[2]], base, res, t)
    def do_call(self, st, fr, c, args, dest, target, dty, atys, base, res, t=None):
        p = c.get("p", ""); rp = c.get("rp") or p
        if p == "<indirect>":
            f = self.operand(st, fr, c["op"])
            if isinstance(f, Fn): return self.do_call(st, fr, f.c, args, dest, target, dty, atys, base, res, t)
            raise Imprecise("indirect call of %r" % (f,))
        m = self.models.get(rp) or self.models.get(p)
        if m is None and c.get("intrinsic"): m = self.models.get("intrinsic:" + c["intrinsic"])
        if m is None:
            for pat, f in self.M.PATTERNS:
                if pat(p, rp, c): m = f; break
        ctx = Ctx(self, st, fr, c, args, dest, target, dty, atys, base, res)
        if m is not None:
            r = m(ctx)
            if r is not NotImplemented: return self.deliver(r, st, fr, dest, target)
        if "ctor" in c:
            ty = self.T(c["ctor_ty"])
            v = Enum(c["ctor_v"], args, ty["vs"][c["ctor_v"]][0]) if ty["k"] == "enum" else Agg(args, ty.get("path"))
            return self.deliver([(st, v)], st, fr, dest, target)
        if "shim" in c: return self.shim(ctx)
        if "body" in c:
            body = self.prog.bodies.get(c["body"])
            if body is not None:
                if sum(1 for f in st.frames if f.body.key == body.key) >= (2 if not body.local else 1):
                    r = self.h.on_recursion(ctx, body) if self.h else NotImplemented
                    if r is NotImplemented: raise Imprecise("recursion into %s" % body.path)
                    return self.deliver(r, st, fr, dest, target)
                if len(st.frames) > 60: raise Imprecise("call depth")
                if self.h:
                    r = self.h.on_local_call(ctx, body)
                    if r is not NotImplemented and r is not None: return self.deliver(r, st, fr, dest, target)
                cargs = args
                if c.get("trait") in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn") :
                    cargs = self.closure_args(st, body, args)
                r = self.scalar_call(st, body, cargs)
                if r is not None: return self.deliver(r, st, fr, dest, target)
                self.push(st, body, cargs, dest, dty, target)
                return None
        if self.h:
            r = self.h.on_call(ctx)
            if r is not NotImplemented: return self.deliver(r, st, fr, dest, target)
        self.unmodelled[rp] = self.unmodelled.get(rp, 0) + 1
        raise Imprecise("call of %s" % rp)
    def scalar_call(self, st, body, args):
        """a call whose arguments are scalars depending on one byte only: its outcomes are
        tabulated over that byte and merged per result variant.  None = not applicable."""
        if not args or len(args) > 3 or self.in_scalar: return None
        root = None
        for a in args:
            a = self.leafify(a) if isinstance(a, Agg) else a
            if not isinstance(a, Lin): return None
            g, rest = st.num.groups(st.norm(a))
            if rest or len(g) > 1: return None
            for r in g:
                if root is not None and r != root: return None
                root = r
        if root is None or root in st.num.sub or len(st.num.mask(root)) < 3: return None
        if len(body.blocks) > 60 or body.loops(): return None
        s0 = st.copy()
        ncons, nne, nseg = len(s0.num.cons), len(s0.num.ne), len(s0.num.segs)
        self.in_scalar = True
        save = self.npaths
        try: rs = self.call_body(s0, body, args)
        finally: self.in_scalar = False; self.npaths = save
        groups = {}
        for x in rs:
            if x.kind != "ret": return None
            n = x.st.num
            if len(n.cons) != ncons or len(n.ne) != nne or len(n.segs) != nseg or len(x.st.mem) and x.st.gh != st.gh: return None
            v = x.val
            dom = [n.norm(symlin(root)).k] if root in n.sub else sorted(n.mask(root))
            if isinstance(v, Enum): key = ("E", v.v, len(v.f)); fl = list(v.f)
            elif isinstance(v, Lin): key = ("L",); fl = [v]
            else: return None
            cols = []
            for f in fl:
                w = self.leafify(f) if isinstance(f, Agg) else f
                if not isinstance(w, Lin): return None
                w = n.norm(w); g, rest = n.groups(w)
                if rest or any(r != root for r in g): return None
                if w.const(): cols.append({d: w.k for d in dom})
                else:
                    vs = n.gvals(root, g[root])
                    if vs is None: return None
                    cols.append({d: w.k + vs[d] for d in dom})
                if w is not f and not isinstance(f, Lin): return None
            e = groups.setdefault(key, [[], [dict() for _ in fl], v, x.st])
            e[0] += dom
            for a, b in zip(e[1], cols): a.update(b)
        out = []
        for key, (dom, cols, v, _) in groups.items():
            s2 = st if len(groups) == 1 else st.copy()
            try: s2.num.set_mask(root, s2.num.mask(root) & frozenset(dom))
            except Infeasible: continue
            fs = []
            for c in cols:
                vals = set(c.values())
                if len(vals) == 1: fs.append(L(vals.pop())); continue
                ds = {c[d] - d for d in c}
                if len(ds) == 1: fs.append(s2.norm(symlin(root) + ds.pop())); continue
                if min(c) < 0: return None
                hi = max(c)
                fill = min(c.values())
                tb = tuple(c.get(i, fill) for i in range(hi + 1))
                fs.append(s2.num.op(("tbl", tb), [symlin(root)], min(tb), max(tb)))
            s2.forks += 0
            out.append((s2, Enum(v.v, fs, v.name) if key[0] == "E" else fs[0]))
        return out
    in_scalar = False
    def closure_args(self, st, body, args):
        if len(args) == 2 and isinstance(args[1], Agg) and body.d["path"].find("{closure") >= 0 or (len(args) == 2 and body.nargs != 2 and isinstance(args[1], Agg)):
            env = args[0]
            lty = self.T(body.locals[1]) if body.nargs >= 1 else None
            if lty and lty["k"] == "ref" and not isinstance(env, Ptr):
                r = ("H", "env%d" % Opaque(None).id); st.mem[r] = env; env = Ptr(r)
            elif lty and lty["k"] != "ref" and isinstance(env, Ptr):
                env = self.load(st, env.root, env.path)
            return [env] + list(args[1].f)
        return args
    def shim(self, ctx):
        c = ctx.c
        k = c["shim"]
        if k == "closure_once":
            body = None
            cl = self.T(c["clty"])
            b = self.prog.bodies.get(cl.get("body")) if cl.get("body") else None
            if b is None: raise Imprecise("closure body of %s" % c.get("closure"))
            args = self.closure_args(ctx.st, b, ctx.args)
            self.push(ctx.st, b, args, ctx.dest, ctx.dty, ctx.target)
            return None
        if k == "fnptr":
            f = ctx.args[0]
            while isinstance(f, Ptr): f = self.load(ctx.st, f.root, f.path)
            if isinstance(f, Fn):
                a = list(ctx.args[1].f) if isinstance(ctx.args[1], Agg) else [ctx.args[1]]
                return self.do_call(ctx.st, ctx.fr, f.c, a, ctx.dest, ctx.target, ctx.dty, [None] * len(a), ctx.base, ctx.res)
            t = self.T(c["selfty"])
            while t["k"] in ("ref",): t = self.T(t["e"])
            if t["k"] == "fndef":
                a = list(ctx.args[1].f) if isinstance(ctx.args[1], Agg) else [ctx.args[1]]
                return self.do_call(ctx.st, ctx.fr, t["callee"], a, ctx.dest, ctx.target, ctx.dty, [None] * len(a), ctx.base, ctx.res)
        if k in ("clone",) :
            v = ctx.args[0]
            if isinstance(v, Ptr): v = self.load(ctx.st, v.root, v.path)
            return self.deliver([(ctx.st, v)], ctx.st, ctx.fr, ctx.dest, ctx.target)
        raise Imprecise("shim %s" % k)
    def deliver(self, r, st, fr, dest, target):
        """r: list of (state, value) | None (already handled) | [] (diverges)"""
        if r is None: return None
        out = []
        for s, v in r:
            top = s.frames[-1]
            if target is None: continue
            if dest is not None: self.assign(s, top, dest, v)
            top.bb = target; top.si = 0
            out.append(s)
        if len(out) == 1 and out[0] is st: return None
        return out
    # ------------------------------------------------------------ loops
    def loop(self, st, fr, blocks, res):
        from .loops import analyse_loop
        self.nloops += 1
        return analyse_loop(self, st, fr.fid, fr.bb, blocks, res)

class Ctx:
    __slots__ = ("I", "st", "fr", "c", "args", "dest", "target", "dty", "atys", "base", "res")
    def __init__(self, I, st, fr, c, args, dest, target, dty, atys, base, res):
        self.I = I; self.st = st; self.fr = fr; self.c = c; self.args = args; self.dest = dest; self.target = target
        self.dty = dty; self.atys = atys; self.base = base; self.res = res
    def deref(self, p):
        p = self.I.leafify(p) if not isinstance(p, Ptr) else p
        return self.I.load(self.st, p.root, p.path)

class Handler:
    """default event handler"""
    def on_read(self, I, st, buf, off): pass
    def on_dirty_read(self, I, st, buf, off): pass
    def on_buf_write(self, I, st, buf, off, n, vals): pass
    def on_copy(self, I, st, src, dst, n, nonover): pass
    def on_unsafe(self, I, st, what, c): pass
    def on_unreachable(self, I, st, fr): pass
    def on_drop(self, I, st, fr, t): pass
    def on_back(self, I, st, fr): pass
    def on_call(self, ctx): return NotImplemented
    def on_local_call(self, ctx, body): return NotImplemented
    def on_enter(self, I, st): pass
    def on_recursion(self, ctx, body): return NotImplemented
