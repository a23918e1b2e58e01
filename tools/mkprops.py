#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DECL = "all declarations of the corpus (a supported type expression times wrapper times tag, declarations supported in one direction only, pairs and triples of member kinds, feature packages)"
P = []

def prop(id, title, statement, over, text, why, files, mech, level, tech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, tech=tech, note=note, state=state or [], observe=observe or []))

FILL = "generator/codegen/field/fill.go"
FIELDS = "generator/codegen/field/fields.go"
EXTR = "generator/codegen/field/extractors.go"
MARSH = "generator/codegen/field/marshal.go"
MARSHS = "generator/codegen/field/marshalers.go"
BYTES = "generator/codegen/field/byteslice.go"
STRUCT = "generator/codegen/struct.go"
ARRAY = "generator/codegen/array.go"
MAP = "generator/codegen/map.go"
BSL = "generator/codegen/byteslice.go"
TRANSIT = "generator/codegen/transit.go"
CODEGEN = "generator/codegen/codegen.go"
TPL = "generator/static/tpl/valyjson_utils.go.tpl"
STATIC = "generator/static/static.go"
TAGS = "generator/codegen/tags/tags.go"
HELP = "generator/codegen/helpers/asthelpers.go"
GOT = "generator/codegen/helpers/gotypes.go"
GEN = "generator/parser.go"
ANA = "generator/analyse.go"
DISC = "generator/discoverer/parser.go"
DISCP = "generator/discoverer/projstruct.go"
MAINGO = "main.go"

ENUM = "exhaustive bounded enumeration on the real generated code against a reference semantics"
BFS = "explicit-state search over operation histories of the real generated code"
NOTE = ("The generator of the working tree is built, run on the whole corpus of declarations and the produced code is compiled; every %s within the stated bounds is executed on it and compared with an independent reference semantics working on reflection. "
        "Trusted: the Go toolchain, fastjson, encoding/json (for JSON validity), and the reference. Recorded findings are matched by exact input and outcome.")
NI = NOTE % "input"
NV = NOTE % "value"
NH = NOTE % "history up to the depth bound"

TESTS = "The existing tests feed a handful of documents to about forty hand-picked types; nothing compares the generated code with what the declaration means, over all kinds of members in all wrappers."

# ---- decoding ---------------------------------------------------------------
prop("D01", "A well-formed document decodes to exactly what the declaration says",
 "For every supported declaration and every JSON document, the generated decoder run on a new value either accepts, and then each member of the value holds what the document gives for the declared name, element for element, with absent members left at zero or their default, or it returns an error. It accepts exactly the documents whose values have the JSON kinds the declared Go types call for. It never panics.",
 ["programs", "inputs"], DECL + " x documents up to nesting depth 4 (5) that differ in one place, or in two places of one container, from a well-typed one, over an alphabet of all JSON kinds and type-specific values",
 TESTS, [FILL, EXTR, STRUCT, ARRAY, MAP, BSL, TRANSIT, BYTES],
 [("fill statements of a struct member", FILL), ("typed extraction", EXTR), ("fill function of a list", ARRAY), ("fill function of a map", MAP)],
 "exploration", ENUM, NI, observe=["UnmarshalJSON"])
prop("D02", "A value of the wrong JSON kind is refused, never guessed, never a panic",
 "When a document holds, at any depth, a value of another JSON kind than the declared Go type at that place calls for, decoding fails with an error. This holds on a new value and on one already filled; it neither panics nor converts.",
 ["programs", "inputs"], DECL + " x well-typed documents with one node at any depth replaced by a value of every kind x start states new / filled",
 "Tests try a few wrong kinds on a few types at the top level; a check lost in one wrapper (list of pointers, map of lists, third nesting level) is visible only on that combination.",
 [FILL, EXTR, ARRAY, MAP, STRUCT], [("error checks after every typed extraction", FILL), ("element loops", EXTR)],
 "exploration", ENUM, NI)
prop("D03", "Numbers keep their exact value or are refused",
 "An integer or floating-point member receives exactly the number written in the document, for every width and signedness; a number that is not an integer, is negative for an unsigned type, or is out of the type's range is refused with an error. Integers between 2^53 and 2^64 lose no digit.",
 ["programs", "inputs"], "every numeric position of the corpus x about 90 literals at and around all width limits in all spellings; thorough: every integer in [-70000,140000) for 8 and 16 bit types",
 "Tests use small numbers; a wrong bit size, a missing range check or a detour through float64 shows only at the limits of one width in one wrapper.",
 [FILL, EXTR, GOT], [("range checks of narrow types", EXTR), ("numeric extraction by type", EXTR)],
 "exploration", ENUM, NI)
prop("D04", "Times, UUIDs and binary data are read in their textual forms only",
 "A time member accepts the declared layout (or RFC 3339 and the documented alternatives when none is declared) and yields that instant and offset; a UUID accepts the standard textual forms; byte slices and byte arrays accept standard base64, arrays only of exactly their length. Every other text is refused with an error, without a panic.",
 ["programs", "inputs"], "every time, UUID and bytes position of the corpus x (6 instants x 20 layouts, all one-character edits of a time and of a UUID, all strings up to length 4 (5) over a base64 alphabet, encodings of 0..33 bytes)",
 "Tests decode one or two literals per type; length and layout boundaries and malformed texts in lists, maps and pointers are not exercised.",
 [EXTR, BYTES, BSL, TPL, HELP], [("time parsing helper", TPL), ("base64 decoding into slices and arrays", BYTES)],
 "exploration", ENUM, NI)
prop("D05", "null means no value, by one rule everywhere",
 "A null given for a pointer, list, map or array member counts as the member being absent, and as a nil element inside lists and maps; for scalars, structs, times and UUIDs it is an error. This holds at every depth and on new and filled values alike.",
 ["programs", "inputs"], DECL + " x well-typed documents with every one and every two nodes replaced by null x start states",
 "Tests set one member to null on a new value; combinations of nulls, nested nulls and nulls over already filled values are not covered.",
 [FILL, EXTR, ARRAY, MAP, TPL], [("null test before a nullable member is filled", FIELDS), ("null elements of lists and maps", FILL)],
 "exploration", ENUM, NI)
prop("D06", "Unknown and repeated members: strict refuses, others ignore; repeats always fail",
 "A type declared strict refuses any document with a member it does not declare, at whatever position and whatever its value; every other type ignores such members completely. A declared member that occurs twice is always refused, names being compared exactly (case, prefix and escapes included).",
 ["programs", "inputs"], DECL + " x insertion of an undeclared, nearly equal or repeated member at every position of every object of a well-typed document, with three values, x start states",
 "Tests insert one extra member in one strict type.",
 [STRUCT, TAGS], [("validation pass over the members of the object", STRUCT), ("strict directive", TAGS)],
 "exploration", ENUM, NI)
prop("D07", "Required members must be there; defaults fill exactly what is absent",
 "A document that lacks a required member is refused with an error naming that member; a member with a declared default receives it exactly when the document gives no value for it, also when the value was filled before; any other absent member keeps what the value held. No present value is ever overwritten by a default.",
 ["programs", "inputs"], "declarations with required or default members x every combination of present / null / absent for up to 6 (8) members of every object x start states new / filled",
 "Presence is exponential in the members; tests sample two or three combinations on a new value.",
 [FILL, FIELDS, TAGS], [("default and required branches of a member", FILL)],
 "exploration", ENUM, NI)
prop("D08", "A decoding error tells where the offending element is and why",
 "When decoding fails on an element, the error names its location as the dot-separated chain of member names, map keys and list positions from the root, complete and in order, and carries the cause. A failure is located at the element itself, not at a parent or neighbour.",
 ["programs", "inputs"], DECL + " x documents with exactly one offending node at any depth",
 "Tests compare a few error texts of shallow structures.",
 [FILL, ARRAY, MAP, TPL], [("error wrapping with the element's name", FILL), ("path concatenation", TPL)],
 "exploration", ENUM, NI + " The location is recorded as lost on the unchanged code for many nested places; each such case is listed individually.")
prop("D09", "Malformed and truncated text is refused and leaves the value alone",
 "For every text that is not a JSON document (truncated anywhere, with a character dropped, inserted or replaced, or followed by further text) the decoder returns an error, does not panic, and the value it was given is unchanged. A text that is a document is decoded as such.",
 ["programs", "inputs"], DECL + " x every prefix of a well-typed document, every one-character deletion, and insertion and replacement by 6 (16) characters at every position, on a filled value",
 "Tests pass one malformed text or none per type.",
 [CODEGEN, TRANSIT, STRUCT], [("parse before fill", CODEGEN), ("parser taken from and given back to the pool", TPL)],
 "exploration", ENUM, NI)
prop("D10", "Spelling does not matter: white space, member order, escapes",
 "Documents that differ only in white space, in the order of the members of an object, or in how the characters of strings and member names are escaped decode to equal values.",
 ["programs", "inputs"], DECL + " x white space at every token boundary, all permutations of up to 4 (5) members (reversal, rotations, exchanges for more), each string and name escaped fully, at the first and at the last character",
 "Tests use one spelling of each document.",
 [STRUCT, FILL, MAP], [("lookup by name", FILL), ("comparison of names", STRUCT)],
 "exploration", ENUM, NI)
prop("D11", "Embedded structs behave as declared: nested under a name or inlined",
 "The members of an inlined embedded struct are members of the struct that holds it, in both directions, subject to the same rules (required, defaults, strictness, repeats, omission) as its own; an embedded struct with a name of its own is an ordinary nested object. Decoding, encoding, Reset and IsZero agree on it.",
 ["programs", "inputs"], "declarations with embedded structs (by value, pointer-free, nested twice, first / middle / last, in lists and maps) x documents of D01, D06, D07 and all pairs of member values",
 "Two fixtures of the test suite embed a struct; required, default and strict members inside inlined structs are not combined.",
 [FIELDS, STRUCT, ANA, GEN], [("flattening of inlined fields", ANA)],
 "exploration", ENUM, NI)
# ---- encoding ---------------------------------------------------------------
prop("M01", "Encoding yields well-formed JSON for every value",
 "For every value of every supported declaration the encoder returns either an error or a text that is exactly one well-formed JSON document, whatever members are empty, nil, omitted or hold special characters or numbers. It never panics.",
 ["programs", "inputs"], DECL + " x values: every field and every pair of fields over an alphabet of zero, empty, nil, extreme and special values; all products of 2..5 values per field within a bound; every one-byte string in every string position; NaN and infinities in every float position",
 TESTS, [FIELDS, MARSH, MARSHS, STRUCT, ARRAY, MAP], [("comma handling between members", FIELDS), ("render of member encoders", MARSHS)],
 "exploration", ENUM, NV, observe=["MarshalJSON", "MarshalTo"])
prop("M02", "The encoded text has the declared members, names, order and values",
 "The text has exactly one member per declared field that is not omitted, in declaration order, under the declared name, and the value written denotes the field's value: numbers exactly, strings character for character, times in the declared layout, bytes in base64, lists in order, maps with all their entries. Fields excluded from JSON never appear.",
 ["programs", "inputs"], DECL + " x the values of M01, the text compared token by token with the reference encoder",
 "Tests compare whole texts of a few values; a value written by the neighbour's rule or a name from another field shows on particular member combinations only.",
 [FIELDS, MARSH, MARSHS, STRUCT, ARRAY, MAP, BYTES], [("member encoders by type", MARSH), ("composite encoders", MARSHS)],
 "exploration", ENUM, NV)
prop("M03", "omitempty drops exactly the empty members; otherwise nil is written as null",
 "A member declared omitempty is left out exactly when its value is empty (zero scalar, nil pointer, nil list or map, zero time or struct) and written otherwise, also when it is not nil but points to or holds an empty value. A member without omitempty is always written, a nil pointer, list or map as null.",
 ["programs", "inputs"], DECL + " restricted to values holding at least one unset component, alone and in all pairs with other members",
 "Each omission also decides about a comma; tests cover single members, not their combinations.",
 [FIELDS, MARSH, MARSHS], [("omission conditions", FIELDS), ("null branches", MARSHS)],
 "exploration", ENUM, NV)
prop("M04", "Encoding only looks, is repeatable, and appends cleanly to a shared writer",
 "Encoding a value does not change it; encoding again gives the same text; writing into a caller's writer appends exactly that text after what the writer holds already, without disturbing it. A nil pointer encodes as null in both ways.",
 ["programs", "histories"], DECL + " x all values of M01 and all states reachable by decode / Reset histories up to depth 2 (3); each encoded twice and into writers with three different contents",
 "Tests encode each value once into a fresh writer.",
 [CODEGEN, STRUCT, ARRAY, MAP, TRANSIT], [("MarshalTo of every kind", STRUCT), ("writer creation", CODEGEN)],
 "model_checking", BFS, NH)
prop("M05", "Round trip: decoding an encoded value gives an equal value",
 "For every value that the declaration can represent in JSON, decoding the text the encoder produces for it into a new value succeeds and yields an equal value (nil and empty collections being equal).",
 ["programs", "inputs"], DECL + " x the values of M01 which the reference round-trips",
 "Tests round-trip some sample values; encoder and decoder are generated by separate code paths for each kind and wrapper.",
 [FIELDS, MARSHS, FILL, EXTR, BYTES, TRANSIT], [("encoder", MARSHS), ("decoder", FILL)],
 "exploration", ENUM, NV)
prop("M06", "The methods work through encoding/json as they do alone",
 "Used by the standard package inside its own lists, maps and structs, a type's generated methods produce the same members and accept, refuse and yield the same as when they are called directly, whatever white space surrounds the fragment.",
 ["programs", "inputs"], DECL + " x documents and values up to depth 2, in a standard list, map and struct",
 "Tests call the methods directly or through one standard wrapper on a few values.",
 [CODEGEN, TRANSIT], [("MarshalJSON and UnmarshalJSON", CODEGEN)],
 "exploration", ENUM, NI)
prop("M07", "A failure inside a hand-written nested encoder or decoder is never lost",
 "When a nested type with hand-written methods refuses to encode or to decode, at whatever place it occurs (member, pointer, list, array, map, deeper), the whole operation fails with an error that tells the cause; when none refuses the operation succeeds.",
 ["programs", "fault_sequences"], "types holding such members in every wrapper x the failing value planted at every single place, alone and among good ones, in both directions",
 "No test has a failing nested method.",
 [MARSHS, FIELDS, ARRAY, MAP, FILL, TRANSIT], [("error propagation of nested encoders", MARSHS), ("error propagation of nested decoders", FILL)],
 "exploration", ENUM, NV)
prop("D12", "Filling from a parsed document equals decoding the text and only reads it",
 "FillFromJSON with a document that the caller parsed, whole or as a part of a larger one, gives the value, the verdict and the error location that UnmarshalJSON gives for the text. It leaves the parsed document saying the same, so that it can be used again, and the value it fills shares no memory with it: it stays as it is when the caller's parser is used for other documents.",
 ["programs", "inputs"], DECL + " x all documents of D01; each filled twice from the same parsed document, once from a part of another one, then the parsers used again",
 "All tests decode through UnmarshalJSON, which parses itself and drops the document.",
 [TPL, CODEGEN, FILL, EXTR, STRUCT, ARRAY, MAP, TRANSIT], [("UnmarshalJSON and FillFromJSON", TPL), ("copying out of the parsed document", EXTR)],
 "exploration", ENUM, NV)
prop("M08", "The length of lists, maps and texts makes no difference",
 "Lists, maps, texts and byte strings of any length, at any level of nesting, are encoded completely and in order, and decoded to the same value, whatever the length was that the value had before it was reset.",
 ["programs", "inputs"], DECL + " x lengths 0 to 9 (33) and 2^k-1, 2^k, 2^k+1 up to 256 (4096), 1000, at each of the levels 0 to 3 of nesting, all other lengths being one; decoded into a new value, and after values of half the length and one more element, reset",
 "Tests use lists of one to three elements; limits of buffers and capacities are never crossed.",
 [FILL, EXTR, MARSHS, ARRAY, MAP, BSL], [("growth and reuse of capacity", EXTR), ("separators", MARSHS)],
 "exploration", ENUM, NV)
prop("S01", "Where encoding/json knows a declaration too, the generated code means the same",
 "For declarations that use nothing of valyjson's own (time layouts, defaults, lists of bytes of a fixed length), encoding/json applied to the same declaration without methods reads every text the generated encoder writes back to the same value; the generated decoder reads every text encoding/json writes for a value to that value; and a document that the generated decoder accepts (its names in their exact case) is accepted by encoding/json as well and yields the same value.",
 ["programs", "inputs"], DECL + " x all values of M02 and all documents of D01, the declaration rebuilt by reflection without methods",
 "The suite compares with encoding/json nowhere; the README promises to match the behaviour of the standard parser.",
 [FIELDS, FILL, EXTR, MARSHS, STRUCT, ARRAY, MAP, TRANSIT, TAGS], [("names and options of members", TAGS), ("encoding", MARSHS), ("decoding", FILL)],
 "exploration", "exhaustive bounded enumeration of declarations, values and documents, the generated code executed on each; encoding/json on the bare declaration is the oracle", NV)
# ---- histories --------------------------------------------------------------
prop("H01", "Decoding into a used value: present members replaced, absent ones kept",
 "Decoding a document into a value that already holds data replaces every member the document gives as a whole (lists and elements are not mixed with old contents), adds to maps, and leaves members the document does not mention as they were, after every history of earlier successful and failed decodings and resets.",
 ["programs", "histories"], DECL + " x all histories of decode and Reset operations up to depth 2 (3) over an alphabet of full, partial, null, failing documents; states identified including the spare capacity of slices",
 "Reuse is advertised for performance; stale contents surface only after particular sequences that fill, shrink and refill a value.",
 [FILL, EXTR, ARRAY, MAP, STRUCT], [("reuse of slice capacity", EXTR), ("map reuse", FILL)],
 "model_checking", BFS, NH, state=[("value under reuse", "visible contents plus spare slice capacity", EXTR)])
prop("H02", "After Reset a value is as good as new",
 "Reset makes every value empty, and decoding any document into a reset value gives the same result and the same verdict as decoding it into a new one, whatever the value held before. Nothing of the earlier contents ever shows up again.",
 ["programs", "histories"], DECL + " x all values of M01 and all states reachable by histories up to depth 2 (3), then Reset, then each document",
 "The suite resets a few values and looks at them once; reuse of retained memory by a later document is not tested.",
 [STRUCT, ARRAY, MAP, TRANSIT, BSL], [("Reset of every kind", STRUCT), ("truncation of slices", HELP)],
 "model_checking", BFS, NH)
prop("H03", "Values, input buffers and encoded texts do not share memory",
 "A decoded value keeps its contents when the input buffer is overwritten afterwards, when other documents are decoded or fail to decode, when other values are changed, and when encoded texts are overwritten; the decoder does not modify its input. An encoded text is not disturbed by later encodings.",
 ["programs", "histories"], DECL + " x all pairs (document, later operation) over the document alphabets, all memory reachable from the other values overwritten",
 "The generated code reuses pooled parsers whose memory is recycled; aliasing shows only when a later operation reuses it.",
 [EXTR, FILL, TPL, CODEGEN], [("copying of strings and bytes out of the parser", EXTR), ("parser pool", TPL)],
 "exploration", "exhaustive bounded enumeration of operation pairs on the real generated code", NH)
prop("H04", "IsZero is true exactly for empty values and changes nothing",
 "IsZero holds for a new value and after every history that leaves all members empty, and does not hold as soon as any member, at any depth, is set; asking does not change the value.",
 ["programs", "histories"], DECL + " x all values of M01 and all states reachable by histories up to depth 2 (3)",
 "Tests ask for the zero value and one filled value; a member forgotten in the predicate makes omitempty drop data.",
 [STRUCT, ARRAY, MAP, TRANSIT, HELP], [("ZeroFunc of every kind", STRUCT)],
 "model_checking", BFS, NH)
prop("H05", "After Reset the memory of lists and maps serves the next document",
 "When a value of a struct type that holds lists ([]T, other than []byte) and maps (map[string]T) as members is reset and then decodes a document, a list that fits into the memory held by that member before is stored there, and a map is the same map; no new memory is taken for them.",
 ["programs", "histories"], DECL + " that are struct types with their own members, x all pairs of documents of the alphabet (first document, Reset, second document)",
 "This is why Reset exists (README, benchmark line 'reuse'); the suite measures it in a benchmark but asserts nothing.",
 [STRUCT, FILL, EXTR, HELP], [("ResetStmt of every kind", STRUCT), ("capacity reuse in decoders", EXTR)],
 "exploration", "exhaustive bounded enumeration of operation histories on the real generated code", NH)
exec(open(os.path.join(V, "tools", "props2.py")).read())

NA = []
TITLES = set()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/bin/setup.sh", "checks": [], "not_applicable": NA,
     "notes": "No hooks in /repo. Every check rebuilds the generator from /repo's working tree, generates and compiles the corpus in a scratch directory below $TMPDIR, explores, and removes the directory. Recorded findings: known_findings.json (narrative) and known/*.txt (exact cases)."}
for p in sorted(P, key=lambda p: p["id"]):
    m["checks"].append({"property": p["id"], "quick_cmd": "bash /verif/bin/check.sh %s quick" % p["id"], "thorough_cmd": "bash /verif/bin/check.sh %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
