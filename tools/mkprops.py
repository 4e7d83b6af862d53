#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BIN=["src/serde_bin.rs","derive/src/serde_bin.rs"]; JS=["src/serde_json.rs","derive/src/serde_json.rs"]; RON=["src/serde_ron.rs","derive/src/serde_ron.rs"]; TOML=["src/toml.rs"]
SH=["derive/src/shared.rs","derive/src/parse.rs"]

prop("C01","Binary round trip is the identity",
 "For every value of every type with derived or built-in binary support, decoding the encoded bytes yields an equal value (floating point compared bit for bit, NaN payloads and signed zeros included), except that fields marked skip come back as their type's Default and times before the Unix epoch come back as the epoch. Decoding consumes exactly the bytes that encoding produced, so values written one after another into one buffer are read back one after another with a shared offset.",
 ["inputs","programs"],"all values of all supported built-in types (integers, floats, bool, String, Option, Vec, LinkedList, sets, maps, arrays of any length, tuples, Box, (), Duration, SystemTime) and of all derived structs and enums built from them, at all nesting depths and collection sizes",
 "Tests round-trip about a dozen hand-picked types with one small value each; they sample no boundary integers, NaN payloads, large collections, long arrays, mixed nesting or sequences of values in one buffer.",
 BIN,[("SerBin/DeBin impls for built-ins","src/serde_bin.rs"),("derived encoders and decoders","derive/src/serde_bin.rs")],["serialize_bin / deserialize_bin","ser_bin / de_bin with an explicit offset"],
 [("offset","index of the next unread byte","de_bin's first argument")])

prop("C02","Binary wire format is the fixed little-endian layout",
 "Encoded bytes follow one fixed layout: little-endian fixed-width numbers, usize and collection or string lengths as 8 bytes, one byte for bool (1 or 0) and for the Option tag (1 or 0), a two-byte variant index in declaration order, struct fields, tuples and arrays back to back without framing, Duration as u64 seconds then u32 nanoseconds, and SystemTime as an optional Duration since the epoch. Any byte string in that layout decodes to the value it denotes, with any non-zero bool byte read as true, any Option tag other than 1 read as None, repeated set members and map keys collapsing with the last map value winning, and bytes after the value ignored.",
 ["inputs","programs"],"all values and all byte strings in the layout, for all supported types",
 "A symmetric change to encoder and decoder keeps every round-trip test green while making stored data unreadable; only a handful of encodings are pinned by tests.",
 BIN,[("fixed-width little-endian macro","src/serde_bin.rs impl_ser_de_bin_for"),("length prefixes","src/serde_bin.rs"),("u16 variant index","derive/src/serde_bin.rs")],["serialize_bin output bytes","deserialize_bin on independently built bytes"])

prop("C03","Binary decoding is total on hostile bytes",
 "Decoding any byte string as any supported type, from any offset inside the buffer, returns a value or an error: it never panics, aborts, overflows an integer or reads out of bounds. For types whose collection elements occupy at least one byte and whose nesting is bounded by the type, the memory and the work it takes are bounded by the length of the input, whatever length prefixes the input claims.",
 ["inputs","programs"],"all byte strings (random, mutated valid encodings, adversarial length prefixes, discriminants and time fields) and all offsets, for all supported types",
 "Tests decode well-formed bytes only, plus a few truncated arrays; hostile lengths, discriminants, UTF-8 and time fields are never tried, and memory use is not observed.",
 BIN,[("bounds check before each read","src/serde_bin.rs"),("reservation capped by the remaining input","src/serde_bin.rs Vec/HashSet/HashMap"),("UTF-8 validation","src/serde_bin.rs String")],["deserialize_bin result, panic hook, allocator counters"])

prop("C04","Truncated or invalid binary data is rejected",
 "No strict prefix of a value's encoding decodes successfully as that type. Invalid UTF-8 in a string, a variant index that does not exist, nanoseconds above 1,000,000,000 and times the platform cannot represent are errors, the error's offset lies inside the input, and no invalid String or enum value is ever produced.",
 ["inputs","programs"],"all values, all cut points of their encodings, and all single-field corruptions to invalid content",
 "Tests cut two arrays at one or two points; whether every read of every type checks its length depends on all cut points of all types.",
 BIN,[("length checks","src/serde_bin.rs"),("UnknownDiscriminant arm","derive/src/serde_bin.rs"),("from_utf8","src/serde_bin.rs")],["deserialize_bin Err and its offset"])

prop("C05","JSON output is valid RFC 8259 JSON denoting the value",
 "For every value with finite floats and string (or unit-variant) map keys, the serialized text is one well-formed RFC 8259 document that an independent strict parser accepts, and the data it parses to is exactly the value: all strings and member names character for character, all numbers exactly, sequences in order, every non-skipped field once under its (renamed) name, enums as \"Variant\", {\"Variant\":[..]} or {\"Variant\":{..}}. Absent optional fields are left out, or written as null when so annotated.",
 ["inputs","programs"],"all values of all derived and built-in types with JSON support, within the stated key and float restriction",
 "Tests compare a few outputs with literal strings; they cannot sample every character class, comma placement around every combination of absent optional fields, or every number.",
 JS,[("string escaping","src/serde_json.rs impl_ser_json_string"),("member separators","derive/src/serde_json.rs"),("float and integer formatting","src/serde_json.rs")],["serialize_json output"])

prop("C06","JSON round trip is the identity",
 "For every value with finite floats, parsing the serialized text gives back an equal value, with floats bit for bit (zero sign included) and strings character for character, for all sizes and nesting depths. The only differences are those the format implies: skipped fields take their default, an absent optional field reads back as its declared default if it has one, a present Option whose content itself serializes to null reads back as None, and times before the Unix epoch read back as the epoch.",
 ["inputs","programs"],"all values of all supported types, including every Unicode scalar value in strings, every integer boundary, every finite f32 and the whole f64 range",
 "Tests round-trip single small values of a dozen types; they cannot cover the character, float and Option combinations on which encoder and decoder must agree.",
 JS,[("tokenizer","src/serde_json.rs next_tok"),("derived member dispatch","derive/src/serde_json.rs")],["deserialize_json(serialize_json(v))"])

prop("C07","JSON parsing accepts every conforming spelling of a value",
 "Every RFC 8259 document whose structure matches the target type decodes to the value it denotes, whatever the insignificant whitespace, the choice of string escapes (short escapes, \\uXXXX in either case, surrogate pairs, raw characters), the spelling of numbers, the order of object members, and any unknown members with arbitrary JSON content in a struct or variant with named fields, which are ignored. // and /* */ comments between tokens and a comma after the last element of a list, map, struct or tuple of several elements change nothing, and when a member or map key occurs twice the last occurrence wins.",
 ["inputs","programs"],"all documents for all values of all supported types, over all layouts, escapings, number spellings, member orders, unknown members and comment placements",
 "Tests contain a few literal documents; the space of equivalent spellings of one value is unbounded and each spelling takes its own path through the tokenizer.",
 JS,[("tokenizer","src/serde_json.rs next_tok, hex_unescape_char"),("unknown member skipping","src/serde_json.rs whole_field"),("member dispatch","derive/src/serde_json.rs derive_de_json_named")],["deserialize_json result"])

prop("C08","JSON documents that do not match the type are rejected",
 "A document is rejected with an error when it is cut short at any point before its last token, when a required member is missing, when a value has the wrong JSON type, when an integer is outside the target type or is written as a fraction or with an exponent, when an array or tuple has the wrong number of elements, when an enum variant is unknown, when a string holds a lone surrogate or an incomplete escape, when a number is malformed, or when a separator, colon or bracket that the type's structure requires is missing or wrong. No such document ever yields a value.",
 ["inputs","programs"],"all documents derived from valid ones by one such defect at any position, for all supported types",
 "Tests try a handful of malformed documents; acceptance of a wrong document can hide in any type, position or token combination.",
 JS,[("typed token accessors","src/serde_json.rs u64_range, i64_range, as_*"),("separator checks","src/serde_json.rs eat_comma_*"),("missing member check","derive/src/serde_json.rs err_nf")],["deserialize_json Err"])

prop("C09","Text parsers are total on hostile input",
 "Parsing any text as JSON or RON into any supported type, or as TOML, returns a value or an error: it never panics, never overflows an integer or the stack, and never loops without consuming input. For types whose nesting is bounded by the type, and TOML arrays nested at most a thousand deep, time and memory are bounded in proportion to the length of the input (for TOML, times the length of its longest table name, which every key under the table repeats).",
 ["inputs","programs"],"all strings: random Unicode, token soup, mutated and truncated valid documents, long runs of one construct, deeply nested unknown members, NUL and other control characters",
 "Tests feed well-formed documents and a few errors; a panic, runaway loop or runaway recursion needs an input nobody wrote down.",
 ["src/serde_json.rs","src/serde_ron.rs","src/toml.rs","derive/src/serde_json.rs","derive/src/serde_ron.rs"],[("tokenizers","next_tok in src/serde_json.rs, src/serde_ron.rs, src/toml.rs"),("whole_field","src/serde_json.rs"),("parse_line / to_val","src/toml.rs")],["deserialize_json, deserialize_ron, TomlParser::parse: result, panic hook, allocator counters, characters consumed"])

prop("C10","Numbers in text formats keep their value or are rejected",
 "A decimal integer read from JSON or RON into an integer type yields exactly that integer if it fits and an error otherwise, for every width and sign. A decimal literal read into f32 or f64 yields the representable number nearest to it, and every finite float is written so that it reads back identically.",
 ["inputs"],"all integer literals around and beyond the range of every integer type, and all decimal literals (fractions, exponents, long digit strings, subnormals, halfway cases) for f32 and f64, in both formats",
 "Silent wrap-around, truncation or double rounding shows only on particular boundary literals; tests use a few small numbers.",
 ["src/serde_json.rs","src/serde_ron.rs"],[("u64_range / i64_range / as_f64","src/serde_json.rs, src/serde_ron.rs"),("number tokenizer","next_tok")],["deserialize_json / deserialize_ron of number literals, serialize_* of numbers"])

prop("C11","RON round trip is the identity",
 "For every value with finite floats, parsing the serialized RON text gives back an equal value, with floats bit for bit and strings character for character, for all sizes and nesting depths, provided renamed fields and variants are ASCII identifiers. The only differences are those the format implies: skipped fields take their default, an absent optional field reads back as its declared default if it has one, a present Option whose content prints as None reads back as None, and times before the Unix epoch read back as the epoch.",
 ["inputs","programs"],"all values of all supported types, including every Unicode scalar value in strings, every integer boundary, sampled f32 and f64 ranges",
 "Tests round-trip a few small values; the RON printer and parser are separate code from JSON's and have to agree on every construct.",
 RON,[("printer","src/serde_ron.rs Ser impls"),("tokenizer","src/serde_ron.rs next_tok"),("derived code","derive/src/serde_ron.rs")],["deserialize_ron(serialize_ron(v))"])

prop("C12","RON parsing accepts every equivalent spelling of a value",
 "A RON document whose structure matches the target type decodes to the value it denotes, whatever the whitespace, // and /* */ comments, a comma after the last element of a list, map, tuple or struct, choice of string escapes, spelling of numbers and order of named fields. Absent optional fields read as None, Option values are written bare, and when a field or map key occurs twice the last occurrence wins.",
 ["inputs","programs"],"all documents for all values of all supported types over all layouts, escapings, number spellings, field orders and comment placements",
 "Tests contain a few literal documents; the space of equivalent spellings is unbounded.",
 RON,[("tokenizer","src/serde_ron.rs next_tok"),("field dispatch","derive/src/serde_ron.rs derive_de_ron_named")],["deserialize_ron result"])

prop("C13","RON documents that do not match the type are rejected",
 "A RON document is rejected with an error when it is cut short at any point before its last token (other than inside a variant name it starts with), when a required field is missing or a field is unknown, when a value has the wrong kind, when an integer is outside the target type or written as a fraction, when a tuple or array has the wrong number of elements, when a variant is unknown, when a string holds a lone surrogate or an incomplete escape, when a number is malformed, or when a separator, colon or bracket is missing or wrong. No such document ever yields a value.",
 ["inputs","programs"],"all documents derived from valid ones by one such defect at any position, for all supported types",
 "Tests try very few malformed RON documents.",
 RON,[("typed token accessors","src/serde_ron.rs"),("unknown field arm","derive/src/serde_ron.rs err_exp"),("separator checks","src/serde_ron.rs eat_comma_*")],["deserialize_ron Err"])

prop("C14","TOML documents parse to the data they denote",
 "Every document in the supported subset of TOML (bare, dotted and quoted keys; integers with sign and underscores, decimal fractions, inf and nan, booleans, dates, basic and multi-line basic strings with escapes, nested and multi-line arrays; tables, arrays of tables with sub-tables; comments, blank lines and any spacing) parses to exactly the keys and values it denotes: values under \"table.key\", array-of-tables entries in order under their name, later assignments replacing earlier ones. Layout, comments and spacing never change the result, and each accessor of a parsed value gives the content of its own kind and panics on any other.",
 ["inputs"],"all documents in the supported subset, over all values, key shapes, table structures, layouts and comment placements",
 "Tests parse about a dozen literal documents; strings, arrays, comments and tables interact in ways no fixed list covers.",
 TOML,[("tokenizer","src/toml.rs next_tok, parse_num, parse_ident"),("table scoping","src/toml.rs parse_line, Out")],["TomlParser::parse result map"],
 [("local scope","current table prefix","parse_line"),("active array element","table array entry receiving keys","Out")])

prop("C15","Malformed TOML is rejected",
 "A document is rejected with an error when a key has no equals sign or is followed by something that is no value, when a string, array or table header is not closed before the end of the input, when an escape is incomplete or not a Unicode scalar value, when a value is a bare word or an unsupported construct such as a literal string or inline table, when an integer does not fit 64 bits, when a character or token stands where it means nothing, or when an array of tables reuses the name of a plain value. No such document yields a result.",
 ["inputs"],"all documents derived from valid ones by one such defect at any position",
 "Tests try very few malformed documents, so silent acceptance of damaged configuration would go unseen.",
 TOML,[("err_token / err_parse","src/toml.rs")],["TomlParser::parse Err"])

prop("C16","Derive attributes mean what they say in every combination",
 "For every derived type and every attribute its shape and format support: rename changes only the external name of the field or variant; skip never writes a field and, in the text formats, always restores the field's declared default; default, default = \"v\" and default_with = \"f\" supply exactly that value when, and only when, the member is absent (an absent field without any of them is an error unless optional). A container default fills every absent field with that field's own default; serialize_none_as_null, transparent, crate and proxy behave as documented. Attributes on one field never affect another field, and declaration order, generics, nesting in enum struct variants and the presence of other attributes do not change their meaning.",
 ["programs","inputs"],"all type declarations combining the attributes that the documentation's support matrix lists for the format and shape, and all documents obtained by omitting, reordering or repeating members",
 "Each attribute is tested on one or two hand-written types; combinations (rename with skip, default in an enum variant, optional with default, generic with proxy) are not.",
 ["derive/src/serde_json.rs","derive/src/serde_ron.rs","derive/src/serde_bin.rs"]+SH,[("attribute accessors","derive/src/shared.rs attrs_*"),("derive_de_json_named / derive_de_ron_named","derive/src/serde_json.rs, derive/src/serde_ron.rs")],["serialize_* output and deserialize_* results of generated types"])

prop("C17","Decoding never leaks, double-drops or touches invalid memory",
 "Whatever the input and wherever decoding fails, every element value created while decoding is dropped exactly once: those handed to the caller when the caller drops the result, all others before the error returns (or, if an element's own decoder panics, never twice). Decoding and encoding never read uninitialized or out-of-bounds memory and show no undefined behaviour, for fixed-size arrays of every length and element type (including zero-sized and over-aligned ones), nested arrays and all other containers, in all three formats.",
 ["inputs","fault_sequences","programs"],"every failure position (element error, separator error, closing bracket error, end of input, panic) in every container shape, array length and nesting, in binary, JSON and RON",
 "One test checks one leak at one failure point; the unsafe array code has a distinct cleanup path per index, per format and per failure kind, and undefined behaviour is invisible to ordinary tests.",
 ["src/serde_bin.rs","src/serde_json.rs","src/serde_ron.rs"],[("MaybeUninit array construction and cleanup","[T; N] impls in src/serde_bin.rs, src/serde_json.rs, src/serde_ron.rs")],["construction and drop events of instrumented elements; Miri; AddressSanitizer"],
 [("initialized prefix","elements of the array decoded so far","local `to` in the [T; N] decoders")])

prop("C18","Errors point at the place that is wrong",
 "When a JSON, RON or TOML document is well formed up to a damaged token, the error's line is the number of line ends before, and its column the distance from the last line end to, a character that lies in the damaged token or in the at most two tokens read ahead of it (for a missing member, the bracket that ends the object), never beyond the end of the input; the message shows the same position counted from one. A binary length error reports the offset at which the missing bytes start and the actual input length, and an unknown variant reports its own offset and index.",
 ["inputs","programs"],"all valid documents with one damaged token at any position and any layout, for all supported types",
 "Tests check one or two error messages; positions must be right for every layout and every error kind.",
 ["src/serde_json.rs","src/serde_ron.rs","src/toml.rs","src/serde_bin.rs","derive/src/serde_bin.rs"],[("line/col counters","next() in src/serde_json.rs, src/serde_ron.rs, src/toml.rs"),("offset reporting","src/serde_bin.rs")],["line/col fields and Display of the errors; DeBinErr.o"],
 [("line, col","position of the character read last","DeJsonState, DeRonState, TomlParser")])

prop("C19","Feature configurations agree with each other",
 "The same types and inputs give byte-identical output and identical results (values, or errors with the same message and position) whether the crate is built with its default features or without std, and with all formats enabled or only the one in use. Everything that does not need std hash collections or SystemTime is available without std.",
 ["configurations","inputs"],"the feature sets default, no-std with all formats, and each format alone with and without std, each over the same generated values and hostile documents",
 "The test suite runs per configuration but never compares configurations, and never builds single-format ones.",
 ["src/lib.rs","Cargo.toml","derive/src/lib.rs","src/serde_bin.rs","src/serde_json.rs","src/serde_ron.rs"],[("cfg(feature) gates","src/lib.rs, derive/src/lib.rs")],["transcript of outputs and results per configuration"])

prop("C20","Serialization is a pure function that composes",
 "Serializing never changes the value, gives the same text or bytes every time and from any thread, and appends to the caller's buffer or state exactly what serializing into an empty one gives. Parsing depends only on the input: successive values read from one stream through one parser state equal the values read from separate inputs, and earlier failures or concurrent use elsewhere never change a result.",
 ["inputs","histories","schedules"],"all sequences of serialize and parse operations on shared buffers and parser states, in any order, with failures in between, and concurrently from several threads",
 "Tests use one fresh buffer or state per value; leftovers in the parser's token, string, number and identifier buffers show only when operations follow one another.",
 ["src/serde_json.rs","src/serde_ron.rs","src/serde_bin.rs","derive/src/serde_json.rs","derive/src/serde_ron.rs"],[("parser state buffers","DeJsonState / DeRonState strbuf, numbuf, identbuf, tok")],["ser_*/de_* called on shared state"],
 [("tok, strbuf, numbuf, identbuf","look-ahead token and its text","DeJsonState, DeRonState")])

prop("C21","Derive depends on the type, not on how its declaration is written",
 "For every supported declaration, generics (type parameters with bounds, defaults and where clauses, const parameters), visibility, doc comments, foreign attributes, explicit discriminants, field type spelling (paths, nested generics, arrays, tuples, trailing commas) and the order, choice and macro origin of derives, attributes and types leave the generated code compiling and its behaviour equal to that of the plain declaration of the same type. Supported means the forms the documentation and tests show: no raw identifiers, unsized fields, fields borrowed by more than a plain reference (which may be written, not read), higher-ranked bounds, or empty tuple structs.",
 ["programs"],"all declarations of structs, tuple structs, newtypes, unit structs and enums within the supported syntax",
 "The derive macro has its own hand-written Rust parser; tests exercise a few dozen declarations, while every program that uses the crate supplies new ones.",
 ["derive/src/parse.rs","derive/src/lib.rs","derive/src/shared.rs"],[("token-stream parser","derive/src/parse.rs"),("bounds printing","derive/src/shared.rs")],["compilation of generated declarations and serialize/deserialize results compared with the plain declaration"])

prop("C22","RON output is well-formed RON denoting the value",
 "For every value with finite floats, the serialized text is well-formed RON that an independent strict reader accepts and that denotes exactly the value: structs and struct variants as (name: value, ..) with every non-skipped field once under its (renamed) name, variants by name, tuples and arrays in parentheses, lists in square brackets, maps in braces. Strings stand character for character, numbers exactly, and absent optional fields are left out.",
 ["inputs","programs"],"all values of all derived and built-in types with RON support",
 "Tests compare a few outputs with literal strings; a printer that writes something its own parser happens to accept passes every round trip while other RON readers reject or misread it.",
 RON,[("printer","src/serde_ron.rs Ser impls"),("derived printers","derive/src/serde_ron.rs")],["serialize_ron output"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
