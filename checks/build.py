"""Properties decided by the type checker and by reachability over the call graph: C50 (no unsafe), C51 (lifetimes), C52 (no allocation)."""
import json, shutil, subprocess, tempfile
from .lib import *
from engine.extract import REPO, CACHE, env, ExtractError

# ------------------------------------------------------------------------------------------------- C50
UNSAFE_CFGS = [("ser-write", []), ("ser-write", ["--no-default-features"]), ("ser-write", ["--no-default-features", "--features=alloc"]), ("ser-write", ["--all-features"]),
               ("ser-write-msgpack", []), ("ser-write-msgpack", ["--no-default-features"]), ("ser-write-msgpack", ["--no-default-features", "--features=alloc"])]

def cargo(args, flags, target, cwd=REPO):
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(CACHE, target); e["RUSTFLAGS"] = flags
    for sub in ("debug/.fingerprint", "debug/build"):
        d = os.path.join(CACHE, target, sub)
        if os.path.isdir(d):
            for x in os.listdir(d):
                if x.startswith("ser-write"): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib", "--message-format=json"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=cwd)
    msgs = []; arts = {}
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("reason") == "compiler-message": msgs.append(d["message"])
        if d.get("reason") == "compiler-artifact": arts[d["target"]["name"]] = d["filenames"]
    return r.returncode, msgs, arts, r.stderr

def spans(m): return ["%s:%d" % (s["file_name"], s["line_start"]) for s in m.get("spans", []) if s.get("is_primary")]

def C50(chk):
    chk.rule("rustc's own unsafe_code lint, forbidden for every feature configuration of the core and MessagePack crates (an inner allow cannot lift it)")
    n = 0
    for pkg, fl in UNSAFE_CFGS:
        rc, msgs, arts, e = cargo(["-p", pkg] + fl, "-Funsafe_code", "target-forbid")
        w = "%s %s" % (pkg, " ".join(fl) or "default features")
        bad = [m for m in msgs if m.get("level") == "error" and ((m.get("code") or {}).get("code") in ("unsafe_code", "E0453") or "unsafe" in m["message"])]
        for m in bad:
            chk.ob("no unsafe code", (spans(m) or [w])[0], False, "%s (%s)" % (m["message"], w))
        if not bad:
            if rc: raise ExtractError("cannot compile %s: %s" % (w, e[-1500:]))
            chk.ob("no unsafe code", w, True, "forbid(unsafe_code) accepted"); n += 1
    # source text that this platform's configurations do not compile
    import re
    for pkg in ("src", "ser-write-msgpack/src"):
        for d, ds, fs in os.walk(os.path.join(REPO, pkg)):
            for f in fs:
                if not f.endswith(".rs"): continue
                t = strip(open(os.path.join(d, f)).read())
                cut = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", t)
                if cut: t = t[:cut.start()]
                hit = [i + 1 for i, l in enumerate(t.split("\n")) if re.search(r"\bunsafe\b(?!_code)", l)]
                p = os.path.relpath(os.path.join(d, f), REPO)
                chk.ob("no unsafe keyword in any configuration", p, not hit, "line(s) %s" % hit if hit else "no unsafe token outside tests")
    chk.units = n; chk.extra["programs"] = len(UNSAFE_CFGS)

def strip(t):
    """source with comments, strings and char literals blanked (line structure kept)"""
    out = []; i = 0; n = len(t)
    def blank(s): return "".join(c if c == "\n" else " " for c in s)
    import re
    tok = re.compile(r'//[^\n]*|/\*|b?r(#*)"|b?"(?:\\.|[^"\\])*"|b?\'(?:\\[^u]|\\u\{[^}]*\}|[^\\\'])\'', re.S)
    while i < n:
        m = tok.search(t, i)
        if not m: out.append(t[i:]); break
        out.append(t[i:m.start()]); s = m.group(0); j = m.end()
        if s == "/*":
            d = 1
            while j < n and d:
                if t.startswith("/*", j): d += 1; j += 2
                elif t.startswith("*/", j): d -= 1; j += 2
                else: j += 1
        elif m.group(1) is not None:
            k = t.find('"' + m.group(1), j); j = n if k < 0 else k + 1 + len(m.group(1))
        out.append(blank(t[m.start():j])); i = j
    return "".join(out)

# ------------------------------------------------------------------------------------------------- C51
PRE = "#![allow(unused)]\nuse serde::Deserialize; use serde::de::Visitor;\n"
SHORT = ("E0597", "E0505", "E0515", "E0716"); MUTB = ("E0506", "E0502", "E0499", "E0503", "E0505"); LT = ("", "E0621", "E0623", "E0312", "E0495", "E0759", "lifetime")
# name, must compile?, accepted error codes, program
W = []
def w(name, ok_, codes, src): W.append((name, ok_, codes, src))
for fn in ("from_mut_slice", "from_mut_slice_hex_bytes", "from_mut_slice_base64_bytes"):
    J = "ser_write_json::" + fn
    for ty, kind in (("&str", "text"), ("&[u8]", "bytes")):
        w("json %s: borrowed %s is usable while the buffer lives" % (fn, kind), True, (), "pub fn f(b: &mut [u8]) -> usize { let s: %s = %s(b).unwrap(); s.len() }" % (ty, J))
        w("json %s: borrowed %s lives as long as the input borrow" % (fn, kind), True, (), "pub fn f<'a>(b: &'a mut [u8]) -> %s { %s(b).unwrap() }" % (ty.replace("&", "&'a "), J))
        w("json %s: borrowed %s outlives the buffer" % (fn, kind), False, SHORT, "pub fn f() -> usize { let s: %s; { let mut b = *b\"1\"; s = %s(&mut b).unwrap(); } s.len() }" % (ty, J))
        w("json %s: borrowed %s returned as 'static" % (fn, kind), False, LT, "pub fn f(b: &mut [u8]) -> %s { %s(b).unwrap() }" % (ty.replace("&", "&'static "), J))
        w("json %s: buffer written while %s is alive" % (fn, kind), False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let s: %s = %s(&mut b).unwrap(); b[0] = 0; s.len() }" % (ty, J))
        w("json %s: buffer read while %s is alive" % (fn, kind), False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let s: %s = %s(&mut b).unwrap(); let x = b[0] as usize; s.len() + x }" % (ty, J))
        w("json %s: buffer decoded again while %s is alive" % (fn, kind), False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let s: %s = %s(&mut b).unwrap(); let t: %s = %s(&mut b).unwrap(); s.len() + t.len() }" % (ty, J, ty, J))
        w("json %s: buffer usable again after %s is dead" % (fn, kind), True, (), "pub fn f() -> usize { let mut b = *b\"1\"; let n = { let s: %s = %s(&mut b).unwrap(); s.len() }; b[0] = 0; n }" % (ty, J))
    w("json %s: borrowed field in a structure is tied to the input" % fn, False, SHORT,
      "#[derive(Deserialize)] pub struct S<'a> { #[serde(borrow)] a: &'a str, b: u8 } pub fn f() -> usize { let s: S<'_>; { let mut b = *b\"1\"; s = %s(&mut b).unwrap(); } s.a.len() }" % J)
JD = "ser_write_json::de::DeserializerNopeByteStr"
for P_ in ("DeserializerNopeByteStr", "DeserializerHexByteStr", "DeserializerBase64ByteStr"):
    D = "ser_write_json::de::" + P_
    w("json %s: text outlives the deserializer object (zero copy)" % P_, True, (), "pub fn f<'a>(b: &'a mut [u8]) -> &'a str { let mut d = %s::from_mut_slice(b); <&str>::deserialize(&mut d).unwrap() }" % D)
    w("json %s: bytes outlive the deserializer object (zero copy)" % P_, True, (), "pub fn f<'a>(b: &'a mut [u8]) -> &'a [u8] { let mut d = %s::from_mut_slice(b); <&[u8]>::deserialize(&mut d).unwrap() }" % D)
    w("json %s: buffer used while the deserializer lives" % P_, False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let mut d = %s::from_mut_slice(&mut b); b[0] = 0; d.remaining_len() }" % D)
    w("json %s: buffer read while the deserializer lives" % P_, False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let mut d = %s::from_mut_slice(&mut b); let x = b[0]; d.remaining_len() + x as usize }" % D)
    w("json %s: raw input view excludes other use of the deserializer" % P_, False, MUTB, "pub fn f(b: &mut [u8]) { let mut d = %s::from_mut_slice(b); let v = d.input_mut().unwrap(); d.eat_some(1); v[0] = 0; }" % D)
    w("json %s: raw input view does not outlive the deserializer" % P_, False, SHORT, "pub fn f<'a>(b: &'a mut [u8]) -> &'a mut [u8] { let mut d = %s::from_mut_slice(b); d.input_mut().unwrap() }" % D)
    w("json %s: parsed text is not 'static" % P_, False, LT, "pub fn f(b: &mut [u8]) -> &'static str { let mut d = %s::from_mut_slice(b); d.parse_str_content().unwrap() }" % D)
    w("json %s: parsed byte strings are not 'static" % P_, False, LT, "pub fn f(b: &mut [u8]) -> &'static [u8] { let mut d = %s::from_mut_slice(b); d.parse_str_bytes_content().unwrap() }" % D)
    w("json %s: hex bytes are not 'static" % P_, False, LT, "pub fn f(b: &mut [u8]) -> &'static [u8] { let mut d = %s::from_mut_slice(b); d.parse_hex_bytes_content().unwrap() }" % D)
    w("json %s: base64 bytes are not 'static" % P_, False, LT, "pub fn f(b: &mut [u8]) -> &'static [u8] { let mut d = %s::from_mut_slice(b); d.parse_base64_bytes_content().unwrap() }" % D)
    w("json %s: split input is not 'static" % P_, False, LT, "pub fn f(b: &mut [u8]) -> &'static mut [u8] { let mut d = %s::from_mut_slice(b); d.split_input(0, 0) }" % D)
    w("json %s: split input keeps the whole lifetime" % P_, True, (), "pub fn f<'a>(b: &'a mut [u8]) -> &'a mut [u8] { let mut d = %s::from_mut_slice(b); d.split_input(0, 0) }" % D)
    w("json %s: split input keeps the buffer borrowed" % P_, False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let s = { let mut d = %s::from_mut_slice(&mut b); d.split_input(0, 0) }; b[0] = 0; s.len() }" % D)
    w("json %s: a shared buffer is refused" % P_, False, ("E0308",), "pub fn f(b: &[u8]) -> usize { let d = %s::from_mut_slice(b); d.remaining_len() }" % D)
    w("json %s: the deserializer cannot be duplicated" % P_, False, ("E0277", "E0382", "E0599"), "pub fn f(b: &mut [u8]) -> usize { let d = %s::from_mut_slice(b); let e = d; d.remaining_len() + e.remaining_len() }" % D)
for fn, sel in (("from_slice", "(s, n): (%s, usize)"), ("from_slice_split_tail", "(s, n): (%s, &[u8])")):
    M = "ser_write_msgpack::" + fn
    for ty, kind in (("&str", "text"), ("&[u8]", "bytes")):
        p_ = sel % ty
        w("msgpack %s: borrowed %s lives as long as the input borrow" % (fn, kind), True, (), "pub fn f<'a>(b: &'a [u8]) -> %s { let %s = %s(b).unwrap(); s }" % (ty.replace("&", "&'a "), p_, M))
        w("msgpack %s: borrowed %s outlives the buffer" % (fn, kind), False, SHORT, "pub fn f() -> usize { let k: %s; { let b = *b\"1\"; let %s = %s(&b).unwrap(); k = s; } k.len() }" % (ty, p_, M))
        w("msgpack %s: borrowed %s returned as 'static" % (fn, kind), False, LT, "pub fn f(b: &[u8]) -> %s { let %s = %s(b).unwrap(); s }" % (ty.replace("&", "&'static "), p_.replace("&", "&'static ", 1) if False else p_, M))
        w("msgpack %s: buffer written while %s is alive" % (fn, kind), False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let %s = %s(&b).unwrap(); b[0] = 0; s.len() }" % (p_, M))
        w("msgpack %s: buffer readable while %s is alive" % (fn, kind), True, (), "pub fn f() -> usize { let b = *b\"1\"; let %s = %s(&b).unwrap(); let x = b[0] as usize; s.len() + x }" % (p_, M))
w("msgpack: the tail lives as long as the input borrow", True, (), "pub fn f<'a>(b: &'a [u8]) -> &'a [u8] { let (s, t): (u8, &[u8]) = ser_write_msgpack::from_slice_split_tail(b).unwrap(); t }")
w("msgpack: the tail keeps the buffer borrowed", False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let (s, t): (u8, &[u8]) = ser_write_msgpack::from_slice_split_tail(&b).unwrap(); b[0] = 0; t.len() }")
w("msgpack: the tail is not 'static", False, LT, "pub fn f(b: &[u8]) -> &'static [u8] { let (s, t): (u8, &[u8]) = ser_write_msgpack::from_slice_split_tail(b).unwrap(); t }")
MD = "ser_write_msgpack::de::Deserializer"
w("msgpack Deserializer: text outlives the deserializer object (zero copy)", True, (), "pub fn f<'a>(b: &'a [u8]) -> &'a str { let mut d = %s::from_slice(b); <&str>::deserialize(&mut d).unwrap() }" % MD)
w("msgpack Deserializer: bytes outlive the deserializer object (zero copy)", True, (), "pub fn f<'a>(b: &'a [u8]) -> &'a [u8] { let mut d = %s::from_slice(b); <&[u8]>::deserialize(&mut d).unwrap() }" % MD)
w("msgpack Deserializer: buffer written while the deserializer lives", False, MUTB, "pub fn f() -> usize { let mut b = *b\"1\"; let d = %s::from_slice(&b); b[0] = 0; d.remaining_len() }" % MD)
w("msgpack Deserializer: split input is not 'static", False, LT, "pub fn f(b: &[u8]) -> &'static [u8] { let mut d = %s::from_slice(b); d.split_input(0).unwrap() }" % MD)
w("msgpack Deserializer: split input keeps the whole lifetime", True, (), "pub fn f<'a>(b: &'a [u8]) -> &'a [u8] { let mut d = %s::from_slice(b); d.split_input(0).unwrap() }" % MD)
SW = "ser_write::SliceWriter::new"
w("slice writer: the written part outlives the buffer", False, SHORT, "pub fn f() -> usize { let o: &[u8]; { let mut c = [0u8; 4]; o = %s(&mut c).split().0; } o.len() }" % SW)
w("slice writer: the written part outlives the writer", True, (), "pub fn f<'a>(b: &'a mut [u8]) -> &'a mut [u8] { let w = %s(b); w.split().0 }" % SW)
w("slice writer: the written part is not 'static", False, LT, "pub fn f(b: &mut [u8]) -> &'static mut [u8] { %s(b).split().0 }" % SW)
w("slice writer: the remaining writer is not 'static", False, LT, "pub fn f(b: &mut [u8]) -> ser_write::SliceWriter<'static> { %s(b).split().1 }" % SW)
w("slice writer: view of the written part excludes writing", False, MUTB, "pub fn f(b: &mut [u8]) -> usize { let mut w = %s(b); let r: &[u8] = w.as_ref(); ser_write::SerWrite::write(&mut w, &[1]).is_ok() as usize + r.len() }" % SW)
w("slice writer: the buffer cannot be used while the writer lives", False, MUTB, "pub fn f() { let mut b = [0u8; 4]; let mut w = %s(&mut b); b[0] = 1; ser_write::SerWrite::write(&mut w, &[1]).unwrap(); }" % SW)
w("slice writer: written slice keeps the buffer borrowed", False, MUTB, "pub fn f() -> usize { let mut b = [0u8; 4]; let (head, tail) = %s(&mut b).split(); b[0] = 1; head.len() + tail.len() }" % SW)
w("slice writer: split parts live as long as the buffer borrow", True, (), "pub fn f<'a>(b: &'a mut [u8]) -> (&'a mut [u8], ser_write::SliceWriter<'a>) { %s(b).split() }" % SW)
w("slice writer: split parts are usable together", True, (), "pub fn f(b: &mut [u8]) { let (h, mut w) = %s(b).split(); let r = ser_write::SerWrite::write(&mut w, &[1]); if r.is_ok() { for x in h { *x = 0 } } }" % SW)

def compile_all(W):
    """compile each client program against the three crates: [(exit code, [(error code, message)])]"""
    d = tempfile.mkdtemp(prefix="wit-", dir=CACHE)
    try:
        os.makedirs(os.path.join(d, "src"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\nser-write = { path = "%s" }\nser-write-json = { path = "%s/ser-write-json" }\n'
                    'ser-write-msgpack = { path = "%s/ser-write-msgpack" }\nserde = { version = "1", features = ["derive"] }\n' % (REPO, REPO, REPO))
        open(os.path.join(d, "src/lib.rs"), "w").close()
        if os.path.exists(os.path.join(REPO, "Cargo.lock")): shutil.copy(os.path.join(REPO, "Cargo.lock"), d)
        rc, msgs, arts, e = cargo([], "", "target-wit", cwd=d)
        if rc: raise ExtractError("witness crate: " + e[-2000:])
        dirs = sorted({os.path.dirname(f) for fs in arts.values() for f in fs})
        base = ["rustc", "+nightly", "--edition=2024", "--crate-type=lib", "--emit=metadata", "--error-format=json"]
        for x in dirs: base += ["-L", "dependency=" + x]
        for c in ("ser_write", "ser_write_json", "ser_write_msgpack", "serde"):
            m = [f for f in arts[c] if f.endswith(".rmeta")]
            base += ["--extern", "%s=%s" % (c, m[0])]
        from concurrent.futures import ThreadPoolExecutor
        def one(i):
            p = os.path.join(d, "w%d.rs" % i)
            with open(p, "w") as f: f.write(PRE + W[i][3] + "\n")
            r = subprocess.run(base + ["-o", os.path.join(d, "w%d.rmeta" % i), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
            errs = []
            for l in r.stderr.splitlines():
                try: m = json.loads(l)
                except ValueError: continue
                if m.get("level") == "error" and not m["message"].startswith("aborting"):
                    code = (m.get("code") or {}).get("code", "") if m.get("code") else ""
                    errs.append((code, m["message"]))
            return r.returncode, errs
        with ThreadPoolExecutor(8) as ex: return list(ex.map(one, range(len(W))))
    finally: shutil.rmtree(d, ignore_errors=True)

def C51(chk):
    chk.rule("client programs that misuse a borrow must be rejected by rustc with a borrow/lifetime error, their well-behaved twins must be accepted")
    rs = compile_all(W)
    for (name, good, codes, src), (rc, errs) in zip(W, rs):
        if good:
            life = [x for x in errs if x[0] in SHORT + MUTB or x[0] == "" and "lifetime" in x[1]]
            if rc == 0: chk.ob("accepted", name, True, src[:120])
            elif life: chk.ob("accepted", name, False, "rejected: %s" % (life[0],))
            else: chk.ob("accepted", name, None, "does not compile any more: %s" % (errs[:1],))
        else:
            if rc == 0: chk.ob("rejected", name, False, "compiles: " + src)
            elif any(x[0] in codes or (x[0] == "" and "lifetime" in x[1] and "" in codes) for x in errs): chk.ob("rejected", name, True, "%s %s" % errs[0])
            else: chk.ob("rejected", name, None, "rejected for another reason: %s" % (errs[:2],))
    chk.extra["programs"] = len(W); chk.units = len(W); chk.paths = len(W)
    chk.extra["disagreements_checked"] = len(W)

# ------------------------------------------------------------------------------------------------- C58
N = []
def same_fn(crate, mod, fns, extra=""):
    for f in fns:
        # two function items are the same type only when they are the same function
        N.append(("%s::%s is %s::%s::%s" % (crate, f, crate, mod, f), True, ("E0308",), "fn same<T>(_: T, _: T) {} type W = ser_write::SliceWriter<'static>; pub fn f() { same(%s::%s%s, %s::%s::%s%s) }" % ((crate, f, extra, crate, mod, f, extra))))
same_fn("ser_write_json", "ser", ("to_string", "to_string_hex_bytes", "to_string_base64_bytes", "to_string_pass_bytes"), "::<u8>")
same_fn("ser_write_json", "ser", ("to_writer", "to_writer_hex_bytes", "to_writer_base64_bytes", "to_writer_pass_bytes"), "::<W, u8>")
same_fn("ser_write_json", "ser", ("to_writer_with_encoder",), "::<ser_write_json::ser::HexStrByteEncoder, W, u8>")
same_fn("ser_write_json", "de", ("from_mut_slice", "from_mut_slice_hex_bytes", "from_mut_slice_base64_bytes"), "::<u8>")
same_fn("ser_write_json", "de", ("from_mut_slice_with_decoder",), "::<ser_write_json::de::StringByteHexDecoder, u8>")
same_fn("ser_write_msgpack", "ser", ("to_vec", "to_vec_compact", "to_vec_named"), "::<u8>")
same_fn("ser_write_msgpack", "ser", ("to_writer", "to_writer_compact", "to_writer_named"), "::<W, u8>")
same_fn("ser_write_msgpack", "de", ("from_slice", "from_slice_split_tail"), "::<u8>")
for al, en in (("SerializerByteArray", "ArrayByteEncoder"), ("SerializerByteHexStr", "HexStrByteEncoder"), ("SerializerByteBase64", "Base64ByteEncoder"), ("SerializerBytePass", "PassThroughByteEncoder")):
    N.append(("ser_write_json::ser::%s uses %s" % (al, en), True, ("E0308",), "use ser_write_json::ser::*; pub fn f<W>(x: %s<W>) -> Serializer<W, %s> { x }" % (al, en)))
for al, en in (("DeserializerNopeByteStr", "StringByteNopeDecoder"), ("DeserializerHexByteStr", "StringByteHexDecoder"), ("DeserializerBase64ByteStr", "StringByteBase64Decoder")):
    N.append(("ser_write_json::de::%s uses %s" % (al, en), True, ("E0308",), "use ser_write_json::de::*; pub fn f<'a>(x: %s<'a>) -> Deserializer<'a, %s> { x }" % (al, en)))
for c in ("ser_write_json", "ser_write_msgpack"):
    N.append(("%s re-exports the core crate's SerWrite" % c, True, ("E0277",), "fn g<T: ser_write::SerWrite>(_: T) {} pub fn f<T: %s::SerWrite>(x: T) { g(x) }" % c))
    N.append(("%s::ser_write is the core crate" % c, True, ("E0277", "E0308"), "pub fn f(x: %s::ser_write::SerError) -> ser_write::SerError { x }" % c))
N.append(("SerResult is a result with SerError", True, ("E0308",), "pub fn f<T>(x: ser_write::SerResult<T>) -> Result<T, ser_write::SerError> { x }"))
# the other direction: the witness does tell different items apart
N.append(("different functions have different types", False, ("E0308",), "fn same<T>(_: T, _: T) {} pub fn f() { same(ser_write_json::to_string::<u8>, ser_write_json::ser::to_string_hex_bytes::<u8>) }"))
N.append(("different encoders have different types", False, ("E0308",), "use ser_write_json::ser::*; pub fn f<W>(x: SerializerByteHexStr<W>) -> Serializer<W, Base64ByteEncoder> { x }"))

def C58(chk):
    chk.rule("every documented alias and re-export is unified by rustc's type checker with the item it must denote; a type mismatch in the witness is a violation")
    rs = compile_all(N)
    for (name, good, codes, src), (rc, errs) in zip(N, rs):
        hit = [x for x in errs if x[0] in codes]
        if good: chk.ob("denotes the documented item", name, True if rc == 0 else False if hit else None, src[:120] if rc == 0 else "%s" % (errs[:1],))
        else: chk.ob("the witness discriminates", name, True if rc and hit else None, "%s" % (errs[:1],))
    chk.extra["programs"] = len(N); chk.units = len(N); chk.paths = len(N)
    chk.extra["disagreements_checked"] = len(N)

# ------------------------------------------------------------------------------------------------- C52
NOALLOC = ("deref", "as_str", "as_bytes", "as_mut_slice", "as_slice", "eq", "ne", "hash", "cmp", "partial_cmp", "fmt", "from_utf8", "from_utf8_unchecked", "new", "len", "is_empty", "borrow", "as_ref", "clear", "drop", "capacity")
def callees(b):
    for bl in b.blocks:
        t = bl["t"]
        if t[0] == "call": yield t[1], bl.get("l")
def allocating(c):
    for q in (c.get("rp") or "", c.get("p") or ""):
        s = q.lstrip("<&'_mutdyn ")
        if q.startswith(("alloc::", "std::", "<alloc::", "<std::", "hashbrown::")) or " alloc::" in q.split(" as ")[0]:
            return q.split("::")[-1] not in NOALLOC
    return False
def exempt(b, crate, cfg):
    r = b.root
    if r is None: return False
    n = r["name"]; tr = r.get("trait") or ""
    if n == "custom" and tr.endswith("::Error"): return "custom error message"
    if n == "clone": return "copy of an error message"
    if crate == MP and n == "collect_str" and cfg != "nostd": return "string collection in MessagePack with std/alloc"
    out = b.prog.types[b.locals[0]]["s"] if hasattr(b, "prog") else ""
    if not tr and ("alloc::vec::Vec<" in out or "alloc::string::String" in out) and r["pub"] and "selfs" in r and not r["selfs"]: return "returns an owned Vec or String"
    return False

def C52(chk):
    chk.rule("call graph (with resolved std bodies) from every public function and trait method of both formats: no edge to an allocating function of alloc/std, except below the exempted functions")
    for crate in (JSON, MP):
        for cfg in ("std", "alloc", "nostd"):
            P = prog(crate, cfg)
            called = set()
            for b in P.bodies.values():
                for c, l in callees(b):
                    if "body" in c: called.add(c["body"])
            seen = {}; work = []
            for b in P.roots:
                r = b.root
                b.prog = P
                pub = r.get("trait") or r.get("reach") or r.get("pub") or b.key not in called
                if not pub: continue
                ex = exempt(b, crate, cfg)
                if ex: chk.ob("exempted", "%s %s" % (crate, where(b)), True, ex); continue
                if b.key not in seen: seen[b.key] = None; work.append(b)
            fn = 0
            while work:
                b = work.pop(); fn += 1; bad = []
                for c, l in callees(b):
                    if allocating(c): bad.append((c.get("rp") or c.get("p"), l))
                    k = c.get("body")
                    for kk in [k] + [x.get("body") for x in c.get("args", []) if isinstance(x, dict)]:
                        if kk and kk in P.bodies and kk not in seen:
                            n = P.bodies[kk]
                            n.prog = P
                            if exempt(n, crate, cfg): continue
                            seen[kk] = b.key; work.append(n)
                if b.local:
                    chk.fns[b.path] = 1
                    chk.ob("no allocation", "%s %s" % (crate, where(b) if b.root else b.path), not bad,
                           "[%s] calls %s (line %s), reached through %s" % (cfg, bad[0][0], bad[0][1], chain(P, seen, b)) if bad else "%d call sites" % sum(1 for _ in callees(b)))
                elif bad:
                    chk.ob("no allocation", "%s %s" % (crate, entry(P, seen, b)), False, "[%s] %s, reached through %s" % (cfg, bad[0][0], chain(P, seen, b)))
            chk.paths += fn; chk.units += 1
def chain(P, seen, b):
    out = [b.path]; k = seen.get(b.key)
    while k is not None and len(out) < 12: out.append(P.bodies[k].path); k = seen.get(k)
    return " <- ".join(out)
def entry(P, seen, b):
    k = b.key
    while seen.get(k) is not None and not P.bodies[k].local: k = seen[k]
    return P.bodies[k].path
CHECKS = {"C50": C50, "C51": C51, "C58": C58, "C52": C52}
