#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
SW="src/lib.rs"; FO="src/foreign.rs"; MS="ser-write-msgpack/src/ser.rs"; MD="ser-write-msgpack/src/de.rs"; ML="ser-write-msgpack/src/lib.rs"
JS="ser-write-json/src/ser.rs"; JD="ser-write-json/src/de.rs"; JB="ser-write-json/src/base64.rs"; JL="ser-write-json/src/lib.rs"

# ---------------------------------------------------------------- core
p("C01","Writers append all the bytes or report BufferFull",
  "For every writer type the core crate supports (slice writer, Vec, VecDeque, io Cursor, arrayvec, heapless, smallvec, tinyvec, and mutable references to them), a successful write, write_byte or write_str has appended exactly the given bytes in order after what was already there. If the bytes do not fit (or memory cannot be reserved) the call returns an error instead of truncating, panicking or aborting, and a slice writer's contents and length are then unchanged. A writer refuses only when the bytes do not fit. The containers are used within their own documented capacity limits.",
  ["inputs","configurations"],"every buffer, every fill level and capacity, every writer implementation and feature set",
  "Tests write three short strings into one fill level per writer; the guarantee is over all lengths/capacities including reservation failure.",
  [SW,FO],[("SerWrite for SliceWriter/&mut W, default methods",SW),("SerWrite for foreign containers",FO)],
  observe=["SerWrite::write","SerWrite::write_byte","SerWrite::write_str"])
p("C02","A writer error always fails serialization and nothing is written after it",
  "When any call to the underlying writer returns an error, the serializer call (both formats, every serializer, key serializer, compound serializer, byte encoder and helper) returns an error and makes no further write to that writer. An error returned by a nested value's serialization is propagated unchanged, and outside string collection a writer error is reported as the Writer variant carrying it.",
  ["fault_sequences","inputs"],"every write call site failing, for every value",
  "Tests fail a handful of writes by using a small buffer; each of ~150 write sites is a fault point.",
  [MS,JS,JB],[("? on every write","all serializer methods")],observe=["ser::Serializer methods","ser::Serialize* methods","ByteEncoder::serialize_bytes","base64::encode"])

# ---------------------------------------------------------------- msgpack ser
p("C03","MessagePack integers are written exactly and in the shortest form",
  "Serializing any integer of type i8..i64 or u8..u64 with any of the MessagePack serializers emits exactly one MessagePack integer whose decoded value equals the input, in the smallest number of bytes the format allows. Multi-byte payloads are big-endian.",
  ["inputs"],"all values of the eight integer types, all three serializers",
  "2^64 values; tests sample boundary constants.",
  [MS,ML],[("serialize_i8..u64, write_u32",MS),("marker constants",ML)])
p("C04","MessagePack str/bin/array/map headers carry the exact length in shortest form",
  "The header of every string, byte array, sequence, tuple, map and struct states the exact length in the shortest MessagePack form, followed for strings and byte arrays by exactly the payload bytes. A length that does not fit in 32 bits is refused with an error before any byte is written.",
  ["inputs"],"all lengths 0..usize::MAX, all three serializers",
  "Tests cannot allocate >4 GiB payloads and only sample lengths near 15/31/255/65535.",
  [MS,ML],[("write_str_len, write_array_len, write_map_len, serialize_bytes",MS)])
p("C05","MessagePack scalar forms: bool, nil, floats, char, Some, newtype",
  "bool is written as 0xc2/0xc3, unit, unit structs and None as 0xc0, f32/f64 as 0xca/0xcb followed by the big-endian IEEE bytes of the very value (including NaN and infinities), and char as the MessagePack str of its UTF-8 encoding. Some(x) and newtype structs add no bytes to what x itself writes, and neither serializers nor deserializer claim to be human readable.",
  ["inputs"],"all bool/char/f32/f64 values; all inner values of Some/newtype; all three serializers",
  "Value spaces are too large to enumerate and inner types are arbitrary.",
  [MS,ML,MD],[("serialize_bool/f32/f64/char/none/some/unit*/newtype_struct, is_human_readable",MS)])
p("C06","MessagePack containers: declared count equals elements written, or an error",
  "A sequence, tuple, map, struct or variant container serialized successfully contains exactly as many elements (key/value pairs) as its header declares: an unknown length is refused, one element too many is refused before anything of it is written, and ending with elements missing is refused. Each element is written once, in call order.",
  ["inputs","histories"],"every declared length and every sequence of serialize_element/field/key/value/skip/end calls, all three serializers",
  "Tests use derive-generated, always consistent Serialize impls plus a few hand-made wrong ones.",
  [MS],[("remaining-length counters in SerializeSeqMap and SerializeStruct*",MS)],
  [("remaining count","elements still owed to the header","SerializeSeqMap::len and siblings")])
p("C07","MessagePack struct layouts: array, index-keyed map, name-keyed map",
  "The compact serializer writes structs as an array of field values in order and refuses to skip a field while further declared fields are outstanding; the default serializer writes a map keyed by each field's declaration index, counting skipped fields; the named serializer writes a map keyed by field names. Each present field contributes exactly its key (if any) followed by its value.",
  ["inputs","histories"],"all structs, all patterns of skipped fields, all serializers",
  "Index bookkeeping across arbitrary skip patterns is sampled by a few structs.",
  [MS],[("SerializeStructArray/IntMap/StrMap",MS)],[("idx","index of the next declared field","SerializeStructIntMap::idx")])
p("C08","MessagePack enum representation",
  "A unit variant is written as its bare tag and a newtype, tuple or struct variant as a one-entry map from tag to payload, where the payload is the value, an array of the declared length, or the serializer's struct form. The tag is the variant index (shortest unsigned form) for the compact and default serializers and the variant name for the named serializer.",
  ["inputs"],"all variant indices/names/payload lengths, all three serializers",
  "Only small enums with small indices are tested.",
  [MS],[("serialize_*_variant, serialize_variant",MS)])
p("C09","MessagePack collect_str writes a well-formed string or fails",
  "Serializing any Display value as a string produces a str header whose length equals the number of text bytes that follow, or returns an error; this holds in every feature configuration and even if the value formats differently on repeated formatting. The text bytes are exactly those the formatter produced, in order, and an error needs a reason: the writer or the value failing, a text of 2^32 bytes or more, or formatting passes that differ.",
  ["inputs","configurations","histories"],"all Display implementations (including inconsistent ones), std/alloc/no-std",
  "No test uses a Display impl that changes between passes; the no-std path formats twice.",
  [MS],[("collect_str, StringLenCounter, StringCollector",MS)])

# ---------------------------------------------------------------- msgpack de
p("C10","MessagePack integers decode to their value or an error, never a different number",
  "Deserializing any integer type from any of the MessagePack integer encodings yields exactly the encoded value when it is representable in the target type and an error otherwise. Any other lead byte, and any truncated payload, is an error; on success exactly the encoding's bytes are consumed.",
  ["inputs"],"all inputs (256 lead bytes x payloads x truncations), 8 target types",
  "Tests sample a few values per marker/type pair out of 72 pairs.",
  [MD,ML],[("parse_integer and fetch_*",MD)])
p("C11","MessagePack scalar decoding: bool, nil, option, floats, str, bin, char",
  "Each scalar is accepted only from its own lead bytes with exactly the declared number of payload bytes consumed: bool from 0xc2/0xc3, unit from 0xc0, floats from either float format (big-endian), any integer encoding (converted) or nil (NaN), str/char from the str formats, bytes from the bin formats. Everything else, truncated input, non-UTF-8 strings and strings that are not a single char for char are errors; nil is None and anything else is Some of the whole following message.",
  ["inputs"],"all inputs, all scalar targets",
  "256 lead bytes x lengths x truncations are only sampled.",
  [MD,ML],[("deserialize_bool/unit/option/f32/f64/str/bytes/char, parse_str, parse_bytes",MD)])
p("C12","MessagePack containers yield exactly the declared elements",
  "Sequences and tuples decode only from array headers, maps only from map headers, structs from either; the visitor is offered exactly the declared number of elements (or key/value pairs) and then the end, with exact remaining counts as size hints. If the visitor leaves elements unread the result is an error, and a truncated header is an error.",
  ["inputs","histories"],"all headers, all visitors (including ones that stop early), all declared lengths",
  "Only derive-generated visitors and one early-stopping map visitor are tested.",
  [MD],[("deserialize_seq/map/struct, CountingAccess",MD)],[("count","elements left","CountingAccess::count")])
p("C13","MessagePack enum and identifier decoding",
  "An enum is decoded from a one-entry map as tag followed by payload and from anything else as a bare tag; a bare tag admits only unit variants and a one-entry map admits only newtype, tuple and struct variants. Identifiers are accepted from unsigned integer encodings up to 32 bits (as the number) and from str formats (as the text), anything else is an error.",
  ["inputs"],"all inputs and enum shapes",
  "Tests cover a few enums and tags.",
  [MD],[("deserialize_enum, deserialize_identifier, VariantAccess, UnitVariantAccess",MD)])
p("C14","MessagePack self-describing decoding chooses the type from the lead byte",
  "deserialize_any hands the visitor, for each of the 256 lead bytes, the value of the MessagePack type that byte denotes in its own width (unsigned markers as unsigned, signed and negative fixint as signed, float32/float64 as such), consuming exactly that message's bytes. The reserved byte and extension types are errors.",
  ["inputs"],"all 256 lead bytes and payloads",
  "Tests sample one or two values per lead-byte class.",
  [MD],[("deserialize_any",MD)])
p("C15","Skipping an ignored MessagePack value consumes exactly one whole message",
  "Skipping a value (ignored fields) advances the cursor past exactly one complete MessagePack message, of whatever type, ext types included, and reports an error for the reserved byte and for any truncation, never leaving the cursor beyond the input. Nested arrays and maps account for every declared element (two messages per map pair).",
  ["inputs"],"all byte sequences, all 256 lead bytes at any depth",
  "Combinatorial; tests sample flat messages.",
  [MD],[("eat_message, deserialize_ignored_any",MD)])
p("C16","MessagePack cursor accounting: consumed length and tail are exact",
  "from_slice reports exactly the number of input bytes consumed by the value and from_slice_split_tail returns exactly the remaining bytes after it. The cursor primitives agree with that: peek does not move, fetch moves by one, split_input returns exactly the next bytes or an error without moving, and the remaining length is the input length minus what was consumed.",
  ["inputs","histories"],"all inputs, all sequences of cursor operations",
  "Tests check one or two sequences.",
  [MD],[("from_slice, from_slice_split_tail, end, peek, fetch, split_input, remaining_len, input_ref",MD)],
  [("index","offset of the next unread byte","Deserializer::index"),("input","unread slice","Deserializer::input")])
p("C17","MessagePack decoding never panics or overflows, on 32-bit targets too",
  "No byte sequence can make MessagePack deserialization or value skipping panic, overflow an arithmetic operation or index out of bounds, whatever the target type; this includes targets where usize is 32 bits and lengths near 2^32.",
  ["inputs","configurations"],"all byte sequences, all target types, 32- and 64-bit usize, checked and wrapping arithmetic builds",
  "Malformed inputs are unbounded and 32-bit overflow cannot show up in 64-bit test runs.",
  [MD],[("checked slicing/arithmetic in every Deserializer method",MD)])
p("C18","Skipping an ignored MessagePack value needs bounded stack",
  "Skipping an ignored value uses an amount of stack that does not depend on how deeply the skipped value is nested, so hostile nesting cannot overflow the stack.",
  ["inputs"],"all nesting depths",
  "No test nests deeply.",
  [MD],[("eat_message",MD)])
p("C19","MessagePack writer and reader agree on every representation",
  "For every integer, bool, nil, float, string, byte array, container header, struct form and enum form, each byte sequence the three serializers can emit is accepted by the deserializer method of the corresponding serde type as the same value (same number, bit-identical float, same bytes, same count, same tag), and by self-describing decoding and skipping with the same number of bytes consumed.",
  ["inputs","programs"],"all scalar values and lengths; all emitted forms",
  "Agreement must hold for each of the value ranges that select different encodings; tests sample.",
  [MS,MD,ML],[("marker constants shared by ser and de",ML)])

# ---------------------------------------------------------------- json ser
p("C20","JSON string output is correctly escaped for every text",
  "Every string, char, collected Display text, variant name and field name is emitted between double quotes with each byte below 0x20, each double quote and each backslash replaced by a valid JSON escape denoting that very character and every other character copied verbatim, once, in order. No slicing of the text can panic.",
  ["inputs"],"all strings",
  "Each of 34 special bytes at every position among multi-byte characters.",
  [JS],[("serialize_str, format_escaped_str_contents, ESCAPE, collect_str",JS)])
p("C21","JSON containers are correctly punctuated",
  "Arrays, objects and enum wrappers are opened and closed by matching brackets, with exactly one comma between consecutive elements, none before the first or after the last, and exactly one colon between key and value. The four variant forms are \"Name\", {\"Name\":value}, {\"Name\":[...]} and {\"Name\":{...}}; unit, unit structs and None are null; Some and newtypes add nothing.",
  ["inputs","histories"],"every sequence of element/field/key/value/end calls for every compound kind",
  "Seven compound kinds each need empty/one/many checks; declared lengths are ignored by design.",
  [JS],[("SeqMapSerializer, serialize_* compound methods",JS)],[("first","no element written yet","SeqMapSerializer::first")])
p("C22","JSON object keys are always strings, other key kinds are refused",
  "A map key that is a string, char, bool, integer, unit variant or a newtype of one of these is emitted as a JSON string holding its text; every other key kind (float, bytes, unit, option, sequence, map, struct, data-carrying variant) is refused with the invalid-key error and nothing of the key is written.",
  ["inputs"],"all key values of all serde data model kinds",
  "29 serde kinds; tests sample some.",
  [JS],[("KeySer",JS)])
p("C23","JSON scalars: exact decimal integers, true/false/null, non-finite floats as null",
  "Every integer is written as its exact decimal text (minus sign only for negatives, no leading zeros), without overrunning its digit buffer or overflowing, bool as true/false, NaN and infinities as null, and a finite float as the finite-float formatter's text for that same value.",
  ["inputs"],"all values of 8 integer and 2 float types",
  "2^64 values; includes MIN values where negation overflows.",
  [JS],[("serialize_signed!/serialize_unsigned!/serialize_ryu!",JS)])
p("C24","JSON byte-array encoders emit their documented form",
  "The array encoder writes a JSON array of the byte values, the hex encoder a quoted string of two uppercase hex digits per byte, the base64 encoder a quoted string of the unpadded base64 text, the pass-through encoder the bytes verbatim; in each case every byte contributes exactly once and in order. Each to_writer/to_string flavour uses the encoder its name says.",
  ["inputs"],"all byte strings, four encoders",
  "All lengths and byte values.",
  [JS,JB],[("ByteEncoder impls, serialize_bytes_as_hex_str, base64::encode",JS)])
p("C25","JSON to_string functions return valid UTF-8",
  "The string-returning serializers never produce a String that is not valid UTF-8: bytes reach the output only as ASCII literals, as whole pieces of valid strings or through ASCII encoders, and where raw bytes can pass through, the result is validated and refused if invalid.",
  ["inputs"],"all serializable values",
  "Undefined behaviour is invisible to tests; pass-through bytes are arbitrary.",
  [JS],[("to_string*, from_utf8_unchecked",JS)])

# ---------------------------------------------------------------- json de
p("C30","JSON decoding never panics or overflows",
  "No input can make JSON deserialization, with any of the library's byte-string decoders, panic, index out of bounds, slice off a character boundary or overflow arithmetic, whatever the target type; this includes targets where usize is 32 bits.",
  ["inputs","configurations"],"all byte sequences, all targets, three decoders, 32/64-bit",
  "Malformed inputs are unbounded.",
  [JD,JB],[("checked access in Deserializer, parse_*; base64::decode",JD)])
p("C31","JSON unsafe code stays within its bounds and aliasing rules",
  "Every unsafe operation in the JSON crate satisfies its safety contract for every input and build profile: raw slices handed out and kept are inside the original buffer and disjoint, unchecked string conversions receive only valid UTF-8, unchecked unwraps only Some, raw writes land inside the input, and only initialised bytes are read.",
  ["inputs","configurations"],"all inputs, debug and release variants",
  "UB need not manifest; release-only unsafe writes are untested under instrumentation.",
  [JD,JB,JS],[("split_input, parse_array_bytes_content, base64::decode, from_utf8_unchecked, MaybeUninit digit buffers",JD)])
p("C32","JSON whitespace is exactly space, tab, LF and CR, skipped before every token",
  "Between tokens exactly the bytes 0x20, 0x09, 0x0A and 0x0D are skipped, in any number, before a value, a comma, a colon, a key or a closing bracket; any other byte is significant and the first significant byte is not consumed by skipping.",
  ["inputs"],"all inputs",
  "Tests sample positions and bytes.",
  [JD],[("eat_whitespace and its callers",JD)])
p("C33","JSON arrays and objects require exactly one comma between elements",
  "Element access accepts the next element only directly after the opening bracket or after exactly one comma, refuses leading, doubled and trailing commas and missing commas, stops at the matching closing bracket without consuming it, and object access additionally requires the key to start with a double quote and a colon between key and value. The enclosing value succeeds only if the visitor stops exactly at the matching closing bracket, which is consumed.",
  ["inputs","histories"],"all byte sequences x element position x visitors stopping early",
  "Tests sample some malformed arrays.",
  [JD],[("CommaSeparated, deserialize_seq/map, parse_key_colon",JD)],[("first","no element read yet","CommaSeparated::first")])
p("C34","JSON documents must end after the value",
  "Each of the from_mut_slice functions succeeds only if nothing but whitespace follows the deserialized value; any other trailing byte is reported as trailing characters.",
  ["inputs"],"all inputs and all entry points",
  "Any suffix byte.",
  [JD],[("end, from_mut_slice*",JD)])
p("C35","JSON string content is decoded exactly",
  "String content ends at the first unescaped double quote, which is consumed; the result is the content with every JSON escape replaced by the character it denotes and every other byte kept, in order. Raw control bytes below 0x20, unknown escapes, malformed \\u escapes, surrogate code units and unterminated strings are errors.",
  ["inputs"],"all string contents",
  "Escapes interact with in-place compaction; positions and lengths unbounded.",
  [JD],[("parse_str_bytes_content, UNESCAPE, parse_uuuu",JD)])
p("C36","Text handed out by JSON and MessagePack decoding is validated UTF-8",
  "No &str or char reaches a visitor unless its bytes went through UTF-8 validation of exactly those bytes (or are provably ASCII), and invalid UTF-8 is an error.",
  ["inputs"],"all inputs",
  "UB from unchecked conversion is silent.",
  [JD,MD],[("parse_str_content, parse_str",JD)])
p("C37","JSON integer parsing never yields a wrong number",
  "Parsing an integer target consumes the longest run of decimal digits (after an optional minus for signed targets, and only the single digit 0 when it starts with 0) and yields exactly its value, or an error if it does not fit the target type; a minus sign is an error for unsigned targets and a non-digit start is an error.",
  ["inputs"],"all digit strings, 8 target types",
  "Overflow boundaries of 8 types; tests sample.",
  [JD],[("parse_unsigned, parse_signed, NumParseTool, CheckedSub",JD)])
p("C38","JSON values are dispatched by their first significant byte",
  "Self-describing decoding, skipping and each typed entry choose by the first non-whitespace byte: null/true/false tokens only when spelled out completely, a string for a double quote, a number for a digit or minus, an array for [, an object for {; each typed target accepts only its own kinds (option: null or the value; unit: null; struct: array or object; enum: string or one-entry object; bytes: string or array; float: number or null as NaN) and everything else is an error.",
  ["inputs"],"256 first bytes x 25 targets",
  "Tests sample combinations.",
  [JD],[("deserialize_* dispatch, parse_token_content",JD)])
p("C39","JSON map keys written by the serializer can be read back",
  "Every key kind the serializer emits as a string (string, char, bool, each integer width, unit variant, newtype of these) is decoded from the quoted key by the same key type: quoted digits as the integer, quoted true/false as bool, and the closing quote is required and consumed.",
  ["inputs","programs"],"all key kinds and values",
  "Key types are arbitrary user types; tests use a few.",
  [JS,JD],[("KeySer",JS),("MapKey",JD)])
p("C40","JSON enums: wrapper object and bare string forms",
  "A bare string admits only unit variants; an object must have the tag string, a colon, the payload and the closing brace, admits only newtype, tuple and struct variants, and payload and brace are required. Errors from the payload are propagated.",
  ["inputs"],"all inputs and enum shapes",
  "Tests sample.",
  [JD],[("deserialize_enum, VariantAccess, UnitVariantAccess",JD)])
p("C41","JSON hex byte strings decode exactly",
  "A hex byte string decodes each consecutive pair of hex digits (either case) to one byte up to the closing quote, which is consumed; an odd digit count, any non-hex character or a missing quote is an error.",
  ["inputs"],"all inputs",
  "All digit pairs and lengths.",
  [JD],[("parse_hex_bytes_content, parse_hex_nib",JD)])
p("C42","Base64 decoding inverts encoding and stays within the buffer",
  "The decoder's alphabet is exactly the inverse of the encoder's (64 characters, every other byte stops decoding); each group of four characters yields the three bytes that encode to it and 2- and 3-character tails yield 1 and 2 bytes, in place. Reported lengths satisfy decoded <= encoded <= input, and only = padding followed by the closing quote may follow. The encoder reports how many padding characters its text lacks (0 to 2).",
  ["inputs"],"all inputs",
  "All groups and tails.",
  [JB,JD],[("base64::decode, get_code, handle_tail, parse_base64_bytes_content",JB)])
p("C43","JSON arrays of numbers decode to bytes exactly",
  "Bytes decoded from a JSON array are exactly the listed integers 0..=255 in order; larger or negative numbers, missing or doubled commas and missing brackets are errors, in debug and release builds alike.",
  ["inputs","configurations"],"all inputs, debug and release variants of the code",
  "Release build uses different (unsafe) code.",
  [JD],[("parse_array_bytes_content",JD)])
p("C44","In-place decoding never overwrites input not yet read",
  "While decoding strings and byte strings in place, the decoder writes only to positions it has already consumed, so no unread input byte and nothing outside the current value is changed before it is parsed.",
  ["inputs"],"all inputs",
  "A corruption needs specific lengths/escapes.",
  [JD,JB],[("parse_str_bytes_content, parse_hex_bytes_content, base64::decode, parse_array_bytes_content",JD)])
p("C45","Skipping an ignored JSON value needs bounded stack",
  "Skipping an ignored JSON value uses an amount of stack that does not depend on how deeply the skipped value is nested.",
  ["inputs"],"all nesting depths","No test nests deeply.",[JD],[("deserialize_ignored_any",JD)])
p("C46","JSON skipping and reading agree on where a value ends",
  "Skipping a string, number, literal, array or object consumes exactly the bytes that reading it as a value of its type would consume: a skipped string ends at the same unescaped quote, with raw control characters still refused, and a skipped number at the same first non-number byte.",
  ["inputs"],"all inputs",
  "Backslash runs of any length before a quote.",
  [JD],[("deserialize_ignored_any, eat_str_content, match_float",JD)])
p("C47","JSON building blocks for custom decoders do exactly what they document",
  "For every input and cursor, also a cursor beyond the end: remaining_len is the unparsed length or 0, peek returns the next byte or UnexpectedEof without moving, input_mut is exactly the unparsed input, eat_some advances by exactly len, split_input returns exactly the next len bytes for the whole input lifetime and continues exactly skip bytes after them and panics only when asked for more than there is, and parse_token_content consumes a token exactly when the input continues with it and leaves the cursor alone otherwise. A new deserializer starts at the beginning of the whole input.",
  ["inputs","histories"],"all inputs, cursors and arguments, 32- and 64-bit usize",
  "Tests call each once or twice.",
  [JD],[("from_mut_slice, remaining_len, peek, eat_some, input_mut, split_input, parse_token_content",JD)])
p("C56","JSON entry functions read byte strings with the documented decoder",
  "from_mut_slice reads byte strings as their unescaped text, from_mut_slice_hex_bytes as hex, from_mut_slice_base64_bytes as Base64 and from_mut_slice_with_decoder with the caller's decoder; the value is read exactly once.",
  ["inputs","programs"],"all inputs and types, all entry functions",
  "Most values read the same with each of them; tests try few byte strings.",
  [JD],[("from_mut_slice*, StringByteNopeDecoder",JD)])

# ---------------------------------------------------------------- cross
p("C48","Encoding and decoding always terminate and always make progress",
  "No input, value or visitor can make a library loop run forever: every round of every loop brings it closer to an end bounded by the input (bytes left, items declared, bytes to write). Every container consumes input before its content is read, so nesting is bounded by the input length, and every element or key given to a visitor brings the sequence closer to its end.",
  ["inputs","histories"],"all byte sequences, values and visitors, every loop of both formats",
  "A loop that gets stuck needs one specific byte or length; tests cannot wait for the others.",
  [MD,MS,JD,JS,JB],[("eat_message, eat_str_content, parse_*_content, number and whitespace loops",JD),("format_escaped_str, base64::encode",JS),("CountingAccess, CommaSeparated",MD)])
p("C57","Readers and writers of a format agree on human readability",
  "Every MessagePack serializer and deserializer reports that it is not human readable and every JSON one that it is, in every configuration, so that types with two representations are read back in the form in which they were written.",
  ["configurations","programs"],"all serializers and deserializers including key serializers and key deserializers, all types",
  "Needs a type whose implementation asks.",
  [MS,MD,JS,JD],[("is_human_readable",MS),("is_human_readable",MD)])
p("C58","Public names denote the documented items",
  "Every function re-exported at a crate root is the function of the same name in its module, the serializer and deserializer aliases use the byte encoder or decoder their name says, and the re-exported core crate is the same crate, so that writers implemented for one work with all.",
  ["programs"],"every public alias and re-export",
  "Tests use one path to each item.",
  [JL,ML,JS,JD],[("pub use, pub type",JL)])
p("C59","MessagePack decode errors name their cause",
  "When decoding a MessagePack message fails, the error is UnexpectedEof exactly when the message is cut short, and otherwise the variant documented for what is wrong: the expected type (ExpectedInteger, ExpectedNumber, ExpectedString, ExpectedBin, ExpectedNil, ExpectedArray, ExpectedMap, ExpectedStruct, ExpectedIdentifier), an integer out of range, invalid UTF-8, a char of another length, a reserved byte, an unsupported extension or elements left unread.",
  ["inputs","histories"],"every deserialize method, lead byte, payload, truncation point and visitor behaviour",
  "Tests provoke each variant once or twice; callers that wait for more data depend on UnexpectedEof for every truncation.",
  [MD],[("Error",MD),("deserialize_*, fetch, eat_message",MD)])
p("C60","JSON decode errors name their cause",
  "When decoding a JSON document fails, the error is UnexpectedEof exactly when the input ends before the value does, and otherwise the variant documented for what is wrong: the expected kind, a misspelled literal, a bad number, escape or control character, a missing colon, comma or bracket, a leading or trailing comma, a key that is no string, a malformed enum or trailing characters.",
  ["inputs","histories"],"every deserialize method, first byte, text, truncation point and visitor behaviour",
  "Tests provoke each variant for one or two documents.",
  [JD],[("Error",JD),("deserialize_*, parse_*, eat_*, MapKey, CommaSeparated",JD)])
p("C61","Serialization errors name their cause",
  "A refusal of a serializer that is neither the writer's nor a nested value's own error names what was wrong: SeqLength, MapLength, StrLength or DataLength according to the kind of length that is unknown, too large or not met, FieldSkipped for a skipped field the array form cannot express, FormatError when a collected value fails to format or changes between passes, InvalidKeyType for JSON keys that are not string-like, Utf8Encode for JSON output that is no text.",
  ["inputs","histories"],"every serializer method, length, history of calls and Display value",
  "Lengths of 2^32 and more and changing Display values are not tested; each variant is provoked once or twice.",
  [MS,JS],[("Error",MS),("write_*_len, Serialize* impls, collect_str",MS),("KeySer, collect_str, to_string_pass_bytes",JS)])
p("C62","Error values keep what they were made from and describe themselves",
  "An error made by a caller's Serialize or Deserialize implementation keeps its message and shows it, a writer's error is kept and shown, conversions of UTF-8, number and capacity errors give the matching variant, every variant displays a non-empty description of its own, and a failing formatter is reported.",
  ["inputs","configurations"],"every variant of every error type in every configuration, all messages and writer errors",
  "Tests print most variants once with one writer error.",
  [MS,MD,JS,JD,SW,FO],[("impl Display for Error, Error::custom, From",JD),("impl Display for Error, Error::custom, From<E>",MS),("SerError",SW)])
p("C50","No unsafe code outside the JSON crate",
  "The core and MessagePack crates contain no unsafe code in any feature configuration.",
  ["configurations"],"all feature sets","Tests do not look.",[SW,FO,MS,MD],[("forbid(unsafe_code)",SW)])
p("C51","Borrowed data is tied to the input, and the input buffer to its borrows",
  "Text and bytes deserialized by reference borrow from the input for its whole lifetime (zero-copy) and cannot outlive it, and while they are alive the JSON input buffer cannot be used again.",
  ["programs"],"all client programs","Only programs that compile can be tested.",[JD,MD],[("lifetimes of from_slice/from_mut_slice, split_input",JD)])
p("C52","Decoding and serializing allocate nothing",
  "Apart from the functions that return an owned Vec or String, string collection in MessagePack with std/alloc, owned writers and custom error messages, no serializer or deserializer path calls the allocator.",
  ["inputs","configurations"],"all paths in all configurations","Tests do not observe allocations.",[JS,JD,JB,MS,MD],[("no_std design",JL)])
p("C54","The slice writer's views are exactly its populated part and the rest",
  "For every slice and fill level, SliceWriter::len, capacity, rem_capacity and is_empty report the populated, total and remaining lengths; as_ref and as_mut view exactly the populated bytes; split returns exactly the populated bytes and a new empty writer over exactly the rest; new and clear start empty over the whole slice; none of them writes a byte or panics.",
  ["inputs"],"every slice and fill level","Tests look at one 22-byte buffer at two fill levels.",[SW],[("SliceWriter inherent methods, AsRef, AsMut",SW)],observe=["SliceWriter accessors"])
p("C55","Entry functions use the documented serializer and return exactly what it wrote",
  "Each to_vec, to_string and to_writer function of both formats serializes the given value exactly once, with the serializer or byte encoder its documentation names, into the given writer or a fresh buffer that it returns unchanged; it fails with the serializer's own error when serializing fails and otherwise only where documented (invalid UTF-8 from to_string_pass_bytes). Serializer constructors and writer accessors hold, return and expose the given writer.",
  ["inputs","configurations"],"every value and writer, std/alloc/no-std","Tests serialize samples, each of which looks the same with several encoders.",[JS,MS],[("to_* functions, new/into_inner/writer/writer_ref",JS)],observe=["to_vec*","to_string*","to_writer*"])
p("C53","Behaviour is the same in every feature configuration and profile",
  "With std, alloc or neither, and in debug or release builds, the serializers emit the same bytes and the deserializers accept the same inputs with the same values; only the content of custom error messages and the float width chosen by the documented feature differ.",
  ["configurations","inputs"],"std/alloc/no-std x debug/release","Tests run per configuration and sample inputs.",[JS,JD,MS,MD],[("cfg-gated twins",MS)])

# ---------------------------------------------------------------- expected not applicable
p("C90","Values of arbitrary types round-trip",
  "For every type implementing Serialize and Deserialize consistently, deserializing what was serialized yields an equal value in each format, serializer and byte encoder.",
  ["inputs","programs"],"all types and values","Unbounded.",[JS,JD,MS,MD],[("all","")])
p("C91","JSON floats round-trip to the nearest value",
  "Every finite f32/f64 serialized to JSON parses back to the identical value, and every JSON number text parses to the nearest float.",
  ["inputs"],"all floats","2^64.",[JS,JD],[("ryu_js, FromStr","")])
p("C92","Decoding time is linear in the input",
  "Decoding or skipping takes time proportional to the input length.",
  ["inputs"],"all inputs","No timing tests.",[JD,MD],[("eat_str_content, parse_str_bytes_content",JD)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
    print(len(P))
