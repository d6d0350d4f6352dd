"""Errors name their cause: the documented meaning of the decoders' error variants."""
from .lib import *
from . import mp_de, cause

RULE = cause.RULE
INT = {"type": ("ExpectedInteger",), "value": ("InvalidInteger",)}
TEXT = {"type": ("ExpectedString",), "value": ("InvalidUnicodeCodePoint",)}
MP_TABLE = {"deserialize_bool": {"type": ("InvalidType",)}, "deserialize_unit": {"type": ("ExpectedNil",)}, "deserialize_unit_struct": {"type": ("ExpectedNil",)},
            "deserialize_f32": {"type": ("ExpectedNumber",)}, "deserialize_f64": {"type": ("ExpectedNumber",)}, "deserialize_str": TEXT, "deserialize_string": TEXT,
            "deserialize_char": {"type": ("ExpectedString",), "value": ("InvalidUnicodeCodePoint", "InvalidLength")},
            "deserialize_bytes": {"type": ("ExpectedBin",)}, "deserialize_byte_buf": {"type": ("ExpectedBin",)},
            "deserialize_seq": {"type": ("ExpectedArray",)}, "deserialize_tuple": {"type": ("ExpectedArray",)}, "deserialize_tuple_struct": {"type": ("ExpectedArray",)},
            "deserialize_map": {"type": ("ExpectedMap",)}, "deserialize_struct": {"type": ("ExpectedStruct",)},
            "deserialize_identifier": {"type": ("ExpectedIdentifier",), "value": ("InvalidUnicodeCodePoint",)}}
for t in mp_de.INTS: MP_TABLE["deserialize_" + t] = INT
ANY = {"eof": ("UnexpectedEof",), "left": ("TrailingElements",), "misuse": ("InvalidType",), "reserved": ("ReservedCode",)}

def mp_cause(h, st, val, what, name):
    if not is_err(val): return
    meth = name or getattr(h, "meth", None)
    if what in ANY: want = ANY[what]
    elif meth == "deserialize_any":
        c = h.cls[0]
        want = ("ReservedCode",) if c == "reserved" else ("UnsupportedExt",) if "ext" in c else ("InvalidUnicodeCodePoint",)
    else: want = MP_TABLE.get(meth, {}).get(what)
    if want is None: h.ob(RULE, None, "%s: %s" % (meth, what)); return
    h.ob(RULE, variant(val) in want, "%r where the input is %s: documented as %s" % (val, {"eof": "cut short", "type": "of another type", "value": "not representable", "left": "longer than what was read", "misuse": "of the other variant form", "reserved": "the reserved byte"}[what], "/".join(want)))

def keep(chk, f):
    """run another check's analyses and keep the obligations about causes"""
    c = Check(chk.pid, chk.tier, chk.level)
    mp_de.CAUSE = mp_cause; cause.ON = True
    try: f(c)
    finally: mp_de.CAUSE = None; cause.ON = False
    for o in c.obs:
        if o[0] == RULE: chk.obs.append(o)
        elif o[2] is None: chk.obs.append(o)
    for k, v in c.fns.items(): chk.fns[k] = chk.fns.get(k, 0) + v
    chk.units += c.units; chk.paths += c.paths

def C59(chk):
    chk.rule("for every deserialize method, lead byte class, payload, truncation and visitor history: UnexpectedEof exactly when the message is cut short, otherwise the variant documented for what is wrong (type, range, UTF-8, length, reserved byte, extension, unread elements)")
    par(chk, [lambda c, f=f: keep(c, f) for f in (mp_de.C10, mp_de.C11, mp_de.C12, mp_de.C13, mp_de.C14, mp_de.C15)])

def C60(chk):
    from . import js_de, js_mem, js_bytes, js_skip
    chk.rule("for every JSON deserialize method, first byte, text, truncation and visitor history: UnexpectedEof exactly when the input ends before the value does, otherwise the variant documented for what is wrong (kind, literal, number, escape, control character, comma, colon, bracket, key, variant form)")
    for f in (js_de.C33, js_mem.C35, js_de.C37, js_de.C38, js_de.C39, js_de.C40, js_bytes.C41, js_bytes.C42, js_bytes.C43, js_skip.C46): keep(chk, f)

def C61(chk):
    from . import mp_ser, mp_sess, mp_fmt, js_ser
    chk.rule("every refusal of both serializers that is not the writer's or a nested value's error: SeqLength/MapLength/StrLength/DataLength by the kind of length that is unknown, too large or not met, FieldSkipped for a skip the array form cannot express, "
             "FormatError for a failing Display value, InvalidKeyType for keys that are not string-like, Utf8Encode for output that is no text")
    for f in (mp_ser.C04, mp_sess.C06, mp_sess.C07, mp_sess.C08, mp_fmt.C09, js_ser.C20, js_ser.C22, js_ser.C25): keep(chk, f)
CHECKS = {"C59": C59, "C60": C60, "C61": C61}
