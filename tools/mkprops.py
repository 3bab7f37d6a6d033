#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay readable)."""
import json, os
T = "crates/toon/src/"
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    a = {"files": [f if f.startswith("crates") else T + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
IC = ["inputs", "configurations"]
p("P01", "Decoding an encoded value gives the value back",
  "For every JSON value and every choice of delimiter, indentation unit of at least one space, and strict or lenient decoding, decoding the encoded text under the same options (folding and expansion off) gives back the same value. Structure, strings, booleans, nulls, integers and object key order come back exactly and every finite float comes back as the same double (possibly spelled as an integer); only the rows of a table may take the column order of its first row.",
  IC, "every JSON value (any depth, any Unicode string or key, any 64-bit integer, any finite double) x 3 delimiters x every indentation unit >= 1 x strict/lenient",
  "Round-trip tests and fixtures use a few hundred fixed values, almost all with the default delimiter and unit 2; the values that break it combine an odd string, position, delimiter and unit.",
  ["encode/encoders.rs", "encode/primitives.rs", "encode/writer.rs", "number.rs", "decode/scanner.rs", "decode/parser.rs", "de/mod.rs"],
  [("encoder", T + "encode/encoders.rs"), ("quoting and escaping", T + "encode/primitives.rs"), ("line classification", T + "decode/scanner.rs"), ("recursive descent over lines", T + "decode/parser.rs")],
  ["toon_rs::encode_to_string", "toon_rs::decode_from_str"])
p("P02", "Every string survives in every position",
  "Every Unicode string used as a value or as an object key, in any position (document root, field, key, inline array item, list item, table cell, table column), comes back from encode then decode as the same string and as a string. A quoted token decodes exactly by the JSON escapes (\\\" \\\\ \\/ \\b \\f \\n \\r \\t and \\uXXXX), and one that is unterminated or holds any other escape is rejected.",
  IC, "every Unicode string x every position x every delimiter x strict/lenient; every quoted token",
  "Tests quote a few dozen strings; the quoting decision and the scanner, splitter and unescaper that have to agree with it run over all Unicode strings.",
  ["encode/primitives.rs", "decode/parser.rs", "decode/scanner.rs"],
  [("when to quote", T + "encode/primitives.rs: needs_quotes, key_needs_quotes"), ("escaping", T + "encode/primitives.rs: escape_and_quote"), ("unescaping", T + "decode/parser.rs: try_unescape_json_string"), ("quote-aware scanning and splitting", T + "decode/scanner.rs, decode/parser.rs: find_unquoted_colon, split_delim_aware")],
  ["toon_rs::encode_to_string", "toon_rs::decode_from_str"])
p("P03", "Bare tokens have exactly one type, and quoting respects it",
  "An unquoted token decodes to true, false or null if it is spelled so; to a number exactly if it is an optional sign, decimal digits with an optional point and an optional exponent, without superfluous leading zeros; and to the string of its characters otherwise. Integers of 64 bits decode exactly and other numbers to the nearest double, and the encoder quotes every string that would otherwise decode to something else.",
  IC, "every token text in every unquoted position, every string given to the encoder",
  "Tests list a handful of number-like tokens; the classification is a language over all byte strings, decided by hand-written scanning code in several places that must agree.",
  ["decode/parser.rs", "encode/primitives.rs"],
  [("number classification", T + "decode/parser.rs: classify_numeric_hint, has_forbidden_leading_zeros, parse_scalar_token_at_line"), ("encoder's number-likeness test", T + "encode/primitives.rs: is_numeric_like")],
  ["toon_rs::decode_from_str", "toon_rs::encode_to_string"])
p("P04", "Numbers are written canonically; non-finite ones as null",
  "Every number written, at any position and by any encoding entry point, is plain decimal: no exponent, no leading or trailing superfluous zero, no negative zero. The digits denote the number exactly (integers) or read back as the same double (floats), and NaN and the infinities are written null.",
  IC, "every 64-bit integer, every f64 and f32 bit pattern x position x encoding entry point",
  "Tests print about twenty numbers; formatting works digit by digit on the shortest decimal of any double, across an exponent range of 600.",
  ["number.rs", "encode/primitives.rs", "ser/stream.rs", "ser/value_builder.rs", "ser/value_builder_alloc.rs", "encode/encoders.rs"],
  [("canonical decimal form", T + "number.rs: format_canonical_f64, expand_exponent, trim_fraction")],
  ["toon_rs::encode_to_string", "toon_rs::ser::to_string", "toon_rs::ser::to_string_streaming"])
p("P05", "Decoding any text ends with a value or an error",
  "Decoding any text under any options, through any decoding entry point and into any type, terminates and returns a value or an error. It never panics: no index out of bounds, no slice inside a character, no arithmetic overflow.",
  IC, "every text x every option combination x every decoding entry point",
  "A decoder fed with tests' texts meets mostly well-formed ones; the index arithmetic over bytes and lines must be safe for all, and termination is not observable in samples.",
  ["decode/parser.rs", "decode/scanner.rs", "decode/validation.rs", "decode/path_expand.rs", "de/mod.rs"],
  [("line cursor", T + "decode/parser.rs: Parser"), ("byte scanning", T + "decode/scanner.rs")],
  ["toon_rs::decode_from_str", "toon_rs::decode_from_reader"],
  [("idx", "next unread line; never decreases", T + "decode/parser.rs: Parser")])
p("P06", "Declared lengths and row widths are enforced",
  "In strict and in lenient mode alike, a document is rejected unless every array, at every nesting level and in every form (inline, list, table), has exactly as many elements as its header declares and every table row has exactly one cell per declared column. A well-formed document is never rejected on these grounds.",
  IC, "every document, every array in it, every form and nesting, both modes",
  "Tests check a wrong length at the top level in two or three shapes; nesting, list items, delimiters inside quotes and non-default units multiply the shapes.",
  ["decode/parser.rs"],
  [("length check of list and table", T + "decode/parser.rs: parse_array_with_length_check, parse_tabular_rows"), ("inline length check", T + "decode/parser.rs: parse_keyed_array_value"), ("cell splitting", T + "decode/parser.rs: split_delim_aware")],
  ["toon_rs::decode_from_str"])
p("P07", "Strict mode only rejects more, and ignores no line",
  "Every text that strict mode accepts is accepted in lenient mode with the same value. An accepted strict document has no line that could be deleted without effect, except blank lines and a list header that has a line to itself; and a blank line between two rows of a table or two items of a list is rejected in strict mode, while lenient mode reads the document as if it were not there.",
  IC, "every text, every line of it, both modes",
  "Relates two decodings of every text, and the text with each line removed; tests compare neither.",
  ["decode/parser.rs", "decode/validation.rs", "de/mod.rs"],
  [("strict-only errors", T + "decode/parser.rs"), ("leftover lines", T + "decode/parser.rs: parse_document")],
  ["toon_rs::decode_from_str"])
p("P08", "Strict mode accepts exactly well-formed indentation",
  "With strict decoding, a text in which some non-blank line is indented by a number of spaces that is no multiple of the configured unit (two where it is given as zero), or has a tab among its leading white space, is rejected with an error that names the first such line. A text without such a line is never rejected for its indentation unit, and lenient decoding never applies this rule.",
  IC, "every text x every indentation unit x both modes",
  "Tests use a few texts with unit 2 and 4; the rule is about all lines of all texts and all units.",
  ["decode/validation.rs", "decode/scanner.rs", "de/mod.rs"],
  [("indentation check", T + "decode/validation.rs: validate_indentation_with_size"), ("entry point", T + "de/mod.rs: from_str_via_internal_value")],
  ["toon_rs::decode_from_str"])
p("P09", "Arrays become tables exactly when they are eligible",
  "An array at the document root or in a field is written as a table exactly when it is non-empty, its elements are all non-empty objects with the same set of keys, and every member is a primitive. The columns are the first element's keys in their order, the header declares the number of elements, and each element is one row with one cell per column in that order.",
  IC, "every array of JSON values, at every root or field position x every delimiter and unit",
  "Tests show a handful of eligible and ineligible arrays; eligibility quantifies over all elements and keys and the row layout over all cells.",
  ["encode/encoders.rs", "ser/stream.rs"],
  [("eligibility", T + "encode/encoders.rs: is_tabular_array"), ("rows", T + "encode/encoders.rs: encode_array, encode_keyed_array")],
  ["toon_rs::encode_to_string"])
p("P10", "Encoded text has a regular line layout",
  "Encoded text consists of non-empty lines separated by single line feeds, with no line feed at the end, no trailing space on any line, and leading spaces in a multiple of the indentation unit. No control character appears raw, except the line feed between lines and the tab when it is the chosen delimiter.",
  IC, "every value x every option combination x every encoder",
  "A statement about every line of every output; tests compare whole outputs of fixed values.",
  ["encode/writer.rs", "encode/encoders.rs", "encode/primitives.rs"],
  [("line writer", T + "encode/writer.rs: LineWriter"), ("quoting of controls", T + "encode/primitives.rs: needs_quotes, escape_and_quote")],
  ["toon_rs::encode_to_string"])
p("P11", "Key folding and path expansion are inverse",
  "For every JSON value in which no key is itself a dotted path of identifiers, encoding with safe key folding (any depth limit) and decoding with safe path expansion gives the value back. No folded key has more segments than the depth limit, and a chain of single-key objects with identifier keys ending in a value that is no such object is folded as far as the limit allows.",
  IC, "every such value x every depth limit x delimiter x unit",
  "Folding interacts with sibling keys, lists, tables and collisions in nested objects; tests try a dozen shapes.",
  ["encode/encoders.rs", "decode/path_expand.rs", "ser/stream.rs"],
  [("folding", T + "encode/encoders.rs: encode_object_field_with_siblings and the chain collector"), ("expansion", T + "decode/path_expand.rs: expand_paths")],
  ["toon_rs::encode_to_string", "toon_rs::decode_from_str"])
p("P12", "Path expansion merges deeply and treats conflicts by mode",
  "With path expansion on, an unquoted key that is a dotted path of identifiers stands for the nested objects it names, and equal keys merge deeply in document order. Where an object meets anything else, or two non-objects meet, strict mode rejects the document and lenient mode keeps the later value; every other key, quoted dotted keys included, stays exactly as written.",
  IC, "every sequence of keys and values, in any order and nesting x both modes",
  "Merging depends on the order and nesting of all keys; tests show a few pairs.",
  ["decode/path_expand.rs", "decode/parser.rs"],
  [("merge", T + "decode/path_expand.rs: deep_merge"), ("which keys expand", T + "decode/path_expand.rs: should_expand_key, is_valid_identifier"), ("quoted keys", T + "decode/parser.rs: parse_key_token")],
  ["toon_rs::decode_from_str"])
p("P13", "All encoding entry points agree",
  "For every serialisable value and every option combination, the buffered, streaming and writer entry points produce the same text or all fail. That text, decoded, is the value's JSON form (fractional number keys written like numbers), for every kind of serde data: structs, maps with string, number, bool, unit-variant, newtype or optional keys, tuples, options, newtypes, all enum variant kinds, bytes and chars.",
  IC, "every tree of serde data x every option combination x every entry point",
  "There are two independent serialiser implementations; equivalence tests compare them on about ten values.",
  ["ser/mod.rs", "ser/stream.rs", "ser/value_builder.rs", "lib.rs", "encode/mod.rs"],
  [("streaming serializer", T + "ser/stream.rs"), ("value builder", T + "ser/value_builder.rs")],
  ["toon_rs::encode_to_string", "toon_rs::ser::to_string", "toon_rs::ser::to_string_streaming", "toon_rs::encode_to_writer"])
p("P14", "All decoding entry points agree",
  "For every text and option combination, decoding from a string and from a reader (however it delivers its bytes), give the same result or both fail. Decoding straight into a type gives the same as decoding into a generic JSON value and converting that to the type, wherever the generic value holds everything the text says (no repeated keys, no overflowing numbers).",
  IC, "every text x options x reader behaviour x target type",
  "Tests decode fixed texts one way; agreement is a relation over all texts and types.",
  ["lib.rs", "de/mod.rs"],
  [("single decode path", T + "de/mod.rs: from_str, from_str_via_internal_value"), ("serde deserializer", T + "de/mod.rs: Deserializer")],
  ["toon_rs::decode_from_str", "toon_rs::decode_from_reader", "toon_rs::de::from_str"])
p("P15", "Build features change speed, not results",
  "The optional scanning, allocation and number-parsing speed features, and builds without JSON support or without the standard library, give the same encoded text and the same decoded value (or all fail) as the default build, for every input, with key folding off. The experimental direct deserializer is outside this statement.",
  IC, "every input x every feature set",
  "CI runs the same fixed tests per feature; the alternatives are separate implementations of the same scanners and encoders that must agree on all inputs.",
  ["decode/scanner.rs", "decode/parser.rs", "ser/stream.rs", "ser/value_builder_alloc.rs", "encode/encoders.rs"],
  [("two scanners", T + "decode/scanner.rs: find_unquoted_colon (two versions)"), ("two splitters", T + "decode/parser.rs: split_delim_aware (two versions)"), ("alloc encoder", T + "ser/stream.rs: encode_internal_value_alloc")],
  ["builds with perf_memchr, perf_smallvec, perf_lexical; --no-default-features alloc,serde"])
p("P16", "Serde-typed data round-trips",
  "For every value of a type with derived serialisation (structs, optional fields, maps with string or integer keys, tuples, newtypes, all enum representations, chars, numbers of every width), encoding and decoding into the same type under any options gives an equal value, with folding paired with expansion.",
  IC, "every value of every such type x every option combination",
  "Typed tests cover a handful of structs and values.",
  ["de/mod.rs", "ser/stream.rs", "ser/value_builder.rs"],
  [("serde deserializer", T + "de/mod.rs: Deserializer, KeyDeserializer, VariantDe"), ("serializers", T + "ser/stream.rs, ser/value_builder.rs")],
  ["toon_rs::encode_to_string", "toon_rs::decode_from_str"])
p("P17", "The command line tool and wasm functions add nothing of their own",
  "The command line tool prints, followed by one line feed, exactly what the library gives for its input (from a file or standard input) in strict mode under the chosen delimiter and pretty-printing, and exits non-zero printing nothing to standard output where the library fails. The JavaScript functions return exactly the library's result for their flags, and an input of more than 10 MiB is refused, and only for that reason, before anything else is done with it.",
  IC, "every input text x every flag combination x input size",
  "Tests call each function on a few inputs; the option mapping and the size bound are about all.",
  ["crates/toon-cli/src/main.rs", "crates/toon-wasm/src/lib.rs"],
  [("option mapping", "crates/toon-cli/src/main.rs: main"), ("size limit and option mapping", "crates/toon-wasm/src/lib.rs: json_to_toon, toon_to_json")],
  ["toon-cli", "json_to_toon", "toon_to_json"])
p("P18", "Encoding is deterministic and stable under re-encoding",
  "Encoding the same value twice gives the same text. Encoding what was decoded from an encoded text, under the same options, gives that text again, byte for byte.",
  IC, "every value and every decodable text x options",
  "Stability compares two passes over every value; tests make one.",
  ["encode/encoders.rs", "encode/primitives.rs", "number.rs", "decode/parser.rs"],
  [("canonical numbers", T + "number.rs"), ("table eligibility", T + "encode/encoders.rs: is_tabular_array")],
  ["toon_rs::encode_to_string", "toon_rs::decode_from_str"])
p("P19", "Equivalent spellings of a value decode alike",
  "A document decodes to the same value whichever equivalent spelling each part uses: a string quoted or, where allowed, bare; any escape form in a quoted token; an array inline, as a list or as a table; any delimiter declared in an array's header, chosen per array; spaces around delimiters; blank lines between fields.",
  IC, "every value x every combination of spellings at every position",
  "Tests mostly decode what the encoder writes; other producers' spellings are sampled by fixtures only.",
  ["decode/parser.rs", "decode/scanner.rs"],
  [("header parsing", T + "decode/parser.rs: parse_array_header, parse_bracket_content"), ("cell splitting", T + "decode/parser.rs: split_delim_aware"), ("scalar tokens", T + "decode/parser.rs: parse_scalar_token_at_line")],
  ["toon_rs::decode_from_str"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
