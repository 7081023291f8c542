import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))],observe_at=observe)))
B=["src/serde_bin.rs"];J=["src/serde_json.rs"];R=["src/serde_ron.rs"];T=["src/toml.rs"]
p("C01","Binary encoding round-trips every built-in value",
"For every value of a built-in type that has both binary serialization and deserialization (fixed-width integers, usize, floats, bool, strings, unit, options, boxes, tuples, vectors, slices' owners, fixed-size arrays, linked lists, sets, maps, durations), decoding the bytes it encodes to yields an equal value (floats bit for bit). Decoding starts at any offset and consumes exactly the bytes that were produced, whatever bytes come before or after them. Encoding only appends to the output buffer and leaves what was already there unchanged.",
["inputs"],"all values of every built-in type including arbitrarily nested and arbitrarily long collections, all surrounding bytes, all offsets",
"The tests encode and decode a handful of small values starting at offset 0; they cannot cover all element values, nestings, lengths and surrounding bytes.",B,
"each ser_bin appends the type's encoding; each de_bin reads it back at *o and advances *o by its length",["serialize_bin","ser_bin","deserialize_bin","de_bin"])
p("C02","Binary decoding is total: any bytes give a value or an error",
"For every byte sequence and every starting offset not past its end, decoding any built-in type terminates with either a value or an error and never panics, overflows, or reads out of bounds. On success the offset has moved forward and stays within the input; on error it has not moved backward nor past the end. Memory reserved while decoding is bounded by the size of the input, whatever lengths the input claims.",
["inputs"],"all byte sequences (including hostile length prefixes), all offsets up to the end, every built-in type and nesting whose elements occupy at least one byte",
"The tests decode well-formed data and two or three corrupt ones; hostile lengths and boundary offsets are never sampled.",B,
"length checks before every slice access; offset arithmetic; capacity reservation from a length prefix",["deserialize_bin","de_bin"])
p("C03","Truncated binary input is rejected",
"If decoding a byte sequence succeeds and consumed n bytes, then decoding any shorter prefix of those n bytes fails with an error instead of producing a value. The outcome depends on no byte outside the consumed range.",
["inputs"],"all encodings of all values, every truncation point, every continuation",
"Tests truncate at most one or two encodings; the claim is about every cut of every encoding.",B,
"the bounds check preceding each read, and its propagation by ? through containers",["deserialize_bin","de_bin"])
p("C04","The binary wire format is fixed",
"Integers and floats are encoded little-endian in their natural width, usize and every collection or string length as 8 bytes, bool as one byte 0 or 1, an option as a tag byte 0 or 1 followed by the value when present, strings as their UTF-8 bytes after a byte length, sequences, sets and maps as a count followed by their elements (key before value), fixed-size arrays and tuples as their elements only, and durations as 8 bytes of seconds and 4 of nanoseconds. Decoding inverts exactly this layout, takes any non-zero byte as true, and rejects strings that are not valid UTF-8.",
["inputs"],"all values and all byte sequences",
"Tests pin the bytes of a few small values; a change in layout for large lengths, negative numbers or nested types would not be seen, and round trips alone cannot see a symmetric change.",B,
"to_le_bytes/from_le_bytes per primitive, u64 length prefixes, one-byte tags",["serialize_bin","deserialize_bin"])
p("C05","JSON strings survive serialization and parsing unchanged",
"Every string serializes to a double-quoted JSON literal in which every quote, backslash and ASCII control character is escaped, so that any JSON parser reads it back as the same string. Deserializing that literal yields the identical string, whatever token follows it.",
["inputs"],"all Unicode strings",
"Tests use a few strings with common escapes; the claim covers every character in every position and every combination.",J,
"the escaping match in the string serializer and the string branch of the tokenizer",["serialize_json","deserialize_json"])
p("C06","JSON string escapes decode correctly or are rejected",
"Inside a JSON string literal \\b \\f \\n \\r \\t \\\" \\\\ \\/ and \\uXXXX (either case of hex digit) denote their standard characters, and a leading surrogate escape immediately followed by a trailing surrogate escape denotes the combined character. A literal with a non-hex digit, fewer than four digits, an unpaired surrogate, or no closing quote is rejected with an error.",
["inputs"],"all string literals: every code unit, every surrogate pair, every malformation and position",
"65,536 code units, a million surrogate pairs and all malformed variants cannot be enumerated by the present handful of assertions.",J,
"string branch of next_tok and the \\u helper with surrogate handling",["deserialize_json"])
p("C07","JSON integers are exact, and out-of-range ones are rejected",
"Every integer value of every supported integer type serializes to its decimal digits and deserializes back to itself. A decimal integer outside the range of the requested type, whatever its magnitude or sign, is rejected with an error and never wraps, truncates or saturates.",
["inputs"],"all values of all nine integer types, and all decimal literals (including those beyond 64 bits) against each type",
"Tests try a few in-range numbers and a couple of limits; wrap-around cases such as values above the signed maximum are not sampled.",J,
"number branch of the tokenizer, u64_range/i64_range and the per-type casts",["serialize_json","deserialize_json"])
p("C08","JSON decoding is total: any text gives a value or an error",
"For every input text, deserializing any supported type (including derived structs and enums, with unknown fields of any shape) terminates with a value or an error; it never panics, overflows or loops forever (recursive user types, whose nesting depth is bounded by the stack, excepted). Memory and stack use do not grow with the number of comments, tokens or nesting of ignored fields.",
["inputs"],"all texts, including malformed, truncated, deeply nested and comment-ridden ones, for every supported target type",
"Tests feed well-formed documents and a few errors; non-termination and panics hide in malformed corners such as truncation inside an ignored field.",J+["derive/src/serde_json.rs"],
"tokenizer loops, container loops, and the skipping of unknown fields",["deserialize_json","de_json"])
p("C09","JSON containers and scalars round-trip",
"For every value built from booleans, integers, finite floats, strings, unit, options, boxes, tuples, vectors, slices, fixed-size arrays, linked lists, sets and string-keyed maps (with non-null contents under options), the serialized text is well-formed JSON denoting that value, and deserializing it yields an equal value, whatever delimiter follows. Finite floats come back bit for bit, empty containers included; array and tuple deserialization enforces its exact length. Options directly inside options are excepted.",
["inputs"],"all values of all nestings of these types, including empty and singleton containers",
"Tests cover a fixed set of shapes with few elements; separators at every position and every nesting are beyond sampling.",J,
"container ser_json separators and the block/curly/comma parsing loops",["serialize_json","deserialize_json"])
p("C10","Whitespace and comments in JSON are insignificant",
"Between any two JSON tokens any amount of spaces, tabs, carriage returns, newlines, // line comments and /* */ block comments (holding no NUL character) may be inserted or removed (keeping adjacent literals apart) without changing the result. Comment markers inside string literals are ordinary text, a block comment ends at the first */ after its opener, and an unterminated block comment is an error.",
["inputs"],"all documents and all ways of inserting whitespace and comments between tokens",
"Tests contain two or three commented documents; the claim ranges over all insertions.",J,
"the skipping loop at the start of the tokenizer",["deserialize_json"])
p("C11","RON strings survive serialization and parsing, and escapes are checked",
"Every string serializes to a RON string literal that deserializes to the identical string, whatever token follows it. Escapes in RON string literals (including \\uXXXX and surrogate pairs) decode as they do in JSON, and malformed escapes or a missing closing quote are rejected.",
["inputs"],"all Unicode strings; all string literals",
"Only a few strings and escapes are tested.",R,
"string serializer escaping, string branch of the RON tokenizer, \\u helper",["serialize_ron","deserialize_ron"])
p("C12","RON integers are exact, and out-of-range ones are rejected",
"Every integer value of every supported integer type serializes to its decimal digits in RON and deserializes back to itself. A decimal integer outside the range of the requested type is rejected with an error and never wraps, truncates or saturates.",
["inputs"],"all values of all nine integer types, and all decimal literals against each type",
"Tests use small in-range values only.",R,
"number branch of the RON tokenizer, u64_range/i64_range and per-type casts",["serialize_ron","deserialize_ron"])
p("C13","RON decoding is total: any text gives a value or an error",
"For every input text, deserializing any supported type from RON terminates with a value or an error; it never panics, overflows or loops forever (recursive user types, whose nesting depth is bounded by the stack, excepted). An unterminated string or block comment, an unexpected token, or a premature end of input is always an error.",
["inputs"],"all texts, for every supported target type",
"Tests feed well-formed documents and a few errors.",R+["derive/src/serde_ron.rs"],
"RON tokenizer loops and container loops",["deserialize_ron","de_ron"])
p("C14","RON containers and scalars round-trip",
"For every value built from booleans, integers, finite floats, strings, unit, options, boxes, tuples, vectors, slices, fixed-size arrays, linked lists, sets and maps, deserializing its RON serialization yields an equal value (options holding another option or unit-like None excepted), whatever delimiter follows. Whitespace, line comments and block comments between tokens, and trailing commas in sequences and maps, do not change the result.",
["inputs"],"all values of all nestings of these types, including empty and singleton containers; all insertions of whitespace and comments",
"Tests cover a fixed set of shapes.",R,
"container ser_ron separators and the block/paren/curly parsing loops",["serialize_ron","deserialize_ron"])
p("C15","TOML parsing is total: any text gives a document or an error",
"For every input text, parsing terminates with a document or an error (arrays nested more than 128 deep are an error) and never panics, overflows or loops forever. Malformed headers, keys without a value, unterminated strings and unterminated arrays are always errors.",
["inputs"],"all texts",
"Seven tests parse seven small documents; hostile text is never sampled.",T,
"tokenizer and line loops, array-of-tables bookkeeping",["TomlParser::parse"])
p("C16","TOML values and keys are read faithfully",
"In a document of sections, arrays of tables and key/value lines (bare keys not starting with a digit or sign), each key (prefixed by its section name and a dot) maps to exactly the value written: integers and decimals numerically, booleans, dates as written, strings with their exact contents after decoding backslash escapes of quotes, backslashes, control characters and code points (\\uXXXX, \\UXXXXXXXX), and arrays with their elements in order. Each [[name]] header starts a new element of that array and later keys go to it until a [section] outside that array; comments and blank space never alter values, and # inside a string is text.",
["inputs"],"all documents of this form: all strings (empty and multi-line included), numbers, nestings of arrays and numbers of sections",
"The tests read a dozen literal values; empty strings, adjacent delimiters, all characters and long documents are not sampled.",T,
"parse_line/parse_key_value/to_val, the string, identifier and number branches of the tokenizer, and array-of-tables insertion",["TomlParser::parse"])
p("C17","Derived binary serialization writes fields in order and round-trips",
"A derived struct encodes as its fields in declaration order with nothing in between, and a derived enum as a two-byte little-endian variant index in declaration order followed by that variant's fields; decoding inverts this for every value (the skipped fields of a derived struct take their default, its proxied fields go through their proxy). An unknown variant index or truncated input is an error, never a wrong variant or a panic.",
["inputs","programs"],"all values of every derivable shape (named, tuple, unit and generic structs; enums mixing unit, tuple and struct variants; skip and proxy)",
"Tests derive for a few types and encode one or two values of each.",["derive/src/serde_bin.rs","derive/src/parse.rs","derive/src/shared.rs","src/serde_bin.rs"],
"code generated by the SerBin/DeBin derive macros",["derive(SerBin)","derive(DeBin)"])
p("C18","Derived JSON maps fields by name, in any order, with defaults and renames",
"For every value of a derived struct or enum (None in an Option field that has a default other than None excepted) the serialized text is well-formed JSON holding each non-skipped field under its own (or renamed) name, and deserializing it yields an equal value. When reading, fields may come in any order and with unknown extra fields of any shape, the last occurrence of a repeated field wins, a missing field is an error naming that field unless it is an Option or has a default, in which case it takes exactly None or that default, and enum variants are selected by exact (renamed) name with unknown names rejected.",
["inputs","programs"],"all values of every derivable shape and attribute combination; all field orders, subsets, repetitions and unknown fields",
"Tests check individual documents; permutations, absent subsets and unknown-field shapes multiply beyond sampling.",["derive/src/serde_json.rs","derive/src/parse.rs","derive/src/shared.rs","src/serde_json.rs"],
"code generated by the SerJson/DeJson derive macros: match on key text, option slots per field, skipping of unknown fields",["derive(SerJson)","derive(DeJson)"])
p("C19","Derived RON maps fields by name, with defaults and renames",
"For every value of a derived struct or enum (None in an Option field that has a default other than None excepted), deserializing its RON serialization yields an equal value. When reading, named fields may come in any order, the last occurrence of a repeated field wins, a missing field is an error naming that field unless it is an Option or has a default (then it takes exactly None or that default), and unknown fields and unknown enum variants are rejected with an error.",
["inputs","programs"],"all values of every derivable shape and supported attribute; all field orders, subsets and repetitions",
"Tests check individual documents of a few shapes.",["derive/src/serde_ron.rs","derive/src/parse.rs","derive/src/shared.rs","src/serde_ron.rs"],
"code generated by the SerRon/DeRon derive macros",["derive(SerRon)","derive(DeRon)"])
p("C20","Fixed-size array decoding owns each element exactly once",
"When decoding a fixed-size array from any of the three formats, every element that was decoded is either part of the returned array or dropped exactly once when decoding fails, wherever it fails (at any element, separator or closing delimiter); no element is leaked, dropped twice, or observed uninitialized. The returned array holds the elements in input order.",
["inputs"],"all array lengths, element types with drop glue, and all failure positions",
"One test per format fails at one position of a two-element array.",["src/serde_bin.rs","src/serde_json.rs","src/serde_ron.rs"],
"the MaybeUninit element loop and its error path",["de_bin","de_json","de_ron"])
p("C21","Durations and system times are exact and range-checked in every format",
"Every duration, and every system time at or after the Unix epoch, round-trips exactly through binary, JSON and RON. Nanosecond counts above one billion and times that cannot be represented are rejected with an error and never panic or wrap; in JSON and RON the seconds field is required, nanoseconds default to zero, and repeated or unknown fields are errors.",
["inputs"],"all second and nanosecond counts, all field orders and repetitions",
"Tests use a few durations; limits and carry cases are not sampled.",["src/serde_bin.rs","src/serde_json.rs","src/serde_ron.rs"],
"Duration and SystemTime impls in each format",["Duration","SystemTime"])
p("C22","Error positions point into the input",
"The line and column reported by a failed JSON, RON or TOML parse are those of one character of the input (the furthest one read): the line is the number of newlines up to and including it, and the column the number of characters since the last newline up to and including it. An error in a document's k-th line is never reported on an earlier line than the text that caused it, and never beyond the end of the input.",
["inputs"],"all malformed texts",
"Tests hardly look at positions; where they do, it is for one document.",["src/serde_json.rs","src/serde_ron.rs","src/toml.rs"],
"line/col bookkeeping in the character reader and its use by the error constructors",["DeJsonErr","DeRonErr","TomlErr"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
