#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BP = "protocol/bin-prot/src/"
PROPS = []
def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": hook}}
    if state: p["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: p["anchors"]["observe_at"] = observe
    PROPS.append((p, technique, note))

prop("C01", "Scalars are encoded byte for byte as the Bin_prot format prescribes",
 "Encoding any bool, unit, integer of any width, byte, char, float or length writes exactly the bytes the Bin_prot format prescribes, with integers and lengths in their shortest form. A char that does not fit into one byte is refused with an error and never silently changed.",
 ["inputs"], "every value of every scalar type",
 "The tests compare a few dozen integers and literals; a wrong width boundary or sign is only visible at particular values out of 2^32 or 2^64.",
 [BP+"ser.rs", BP+"write_ext.rs", BP+"consts.rs"], [("bin_write_integer / bin_write_nat0", BP+"write_ext.rs"), ("serde::Serializer scalar methods", BP+"ser.rs")],
 "explicit-state enumeration of all values (all 2^32 for 32-bit), real encoder vs reference model",
 "Exhaustive for 8/16/32-bit integers, all chars, boundary neighbourhoods for 64-bit integers; trusts the reference encoder in mc/binprot/src/model.rs.")
prop("C02", "Composite values are laid out exactly as the Bin_prot format prescribes",
 "Encoding any option, list, string, tuple, record, newtype or sum value, at any nesting, writes exactly its flag, length or variant index followed by its members in declaration order and nothing else. This holds for every length and every combination of member types.",
 ["inputs", "programs"], "every type built from the supported constructors and every value of it",
 "Tests encode a few fixed structs; type trees multiply and length-dependent faults need particular lengths.",
 [BP+"ser.rs", BP+"write_ext.rs"], [("compound serializers", BP+"ser.rs:216-476")],
 "explicit-state enumeration of type trees and values, real encoder vs reference model",
 "All types of up to 3 (4-5 over fewer leaves) constructors with boundary values, all string lengths up to 66000; larger types are assumed to behave alike.")
prop("C03", "Decoding is the exact inverse of encoding, also for values back to back",
 "Whatever value of a supported type is encoded, decoding its bytes as the same type gives an equal value and consumes exactly the bytes the encoding produced. So several values written one after another are read back one after another.",
 ["inputs", "programs", "histories"], "every type, every value, every sequence of values in one stream",
 "Round trips in the tests cover a few values, each alone in its stream; off-by-one consumption only shows when something follows.",
 [BP+"de.rs", BP+"ser.rs", BP+"read_ext.rs", BP+"write_ext.rs"], [("Serializer", BP+"ser.rs"), ("Deserializer", BP+"de.rs")],
 "explicit-state enumeration of types, values and value sequences through the real encoder and decoder",
 "Two findings are listed (u64 above i64::MAX; fields using the integer/nat0 'with' modules cannot be read).")
prop("C04", "Integers and lengths decode to the exact value or are refused",
 "For every byte string, reading an integer or length gives exactly the value the format assigns to it if that value fits the destination type, and an error otherwise. No value is ever wrapped, truncated or sign-changed on reading, and codes the format does not define are errors.",
 ["inputs"], "every byte string at every integer position, every destination width",
 "The tests read a handful of well-formed integers; wrong codes, overlong forms and out-of-range values are not sampled.",
 [BP+"read_ext.rs", BP+"de.rs", BP+"consts.rs"], [("bin_read_integer / bin_read_nat0", BP+"read_ext.rs")],
 "explicit-state enumeration of the input tree of integer readers against the reference decoder",
 "All first bytes, all 1- and 2-byte payloads, 4- and 8-byte payloads over significant byte values, all truncations, 15 destinations.")
prop("C05", "Malformed input gives an error: no panic, no hang, no oversized allocation",
 "Decoding any byte string as any type, or by any layout, either returns the value the format assigns to a prefix of it or returns an error. It never panics, never runs on, and never takes memory out of proportion to the input actually supplied, whatever lengths the input claims.",
 ["inputs", "configurations"], "every byte string of every length, every type and layout",
 "Robustness is about the inputs nobody wrote down; the tests decode valid input only.",
 [BP+"de.rs", BP+"loose_deserializer.rs", BP+"read_ext.rs", BP+"value/layout/traverse.rs"], [("error returns of the readers", BP+"read_ext.rs"), ("UnsupportedRule errors", BP+"loose_deserializer.rs")],
 "bounded exhaustive exploration of the input tree of the real decoder with panic, allocation and hang monitors",
 "All byte strings up to 3 bytes for scalar types, the tree of significant bytes up to 14 bytes for 1000s of types and layouts; memory cap 64 MiB per call.")
prop("C06", "Decoding does not depend on how the reader delivers its bytes",
 "The result of decoding from a reader is a function of the bytes it delivers, not of how they are split into reads or of interrupted reads in between. A read error or the end of the stream inside a value is returned as an error, never as a value.",
 ["schedules", "fault_sequences", "inputs"], "every partition of the input into reads, every placement of interruptions, failures and end of stream",
 "The tests read from byte slices, which deliver everything at once and never fail.",
 [BP+"de.rs", BP+"read_ext.rs"], [("BufReader and read_exact", BP+"de.rs:39")],
 "stateless model checking of the real decoder under a controlled reader (all choices of each read)",
 "All partitions up to a length bound, all placements of a bounded number of deviations beyond it.")
prop("C07", "Encoding delivers exactly the bytes, or an error and only a prefix of them",
 "When the writer accepts bytes piecemeal or is interrupted, encoding still delivers every byte of the value exactly once and in order. If the writer fails or accepts nothing, encoding returns an error and what was delivered is a prefix of the value's bytes; it never reports success with bytes missing.",
 ["schedules", "fault_sequences", "inputs"], "every split of every write, every placement of interruptions and failures",
 "The tests write into vectors, which accept everything.",
 [BP+"ser.rs", BP+"write_ext.rs"], [("write_all", BP+"write_ext.rs")],
 "stateless model checking of the real encoder under a controlled writer (all choices of each write)",
 "All placements of a bounded number of deviations for all value shapes.")
prop("C08", "Strict decoding accepts a stream exactly when it holds one value and no more",
 "Strict decoding succeeds exactly when the stream consists of one complete value with no byte after it, and then gives that value. One or more leftover bytes are reported as an error however the reader delivers them.",
 ["schedules", "inputs", "fault_sequences"], "every value, every tail, every partition into reads",
 "Whether the leftover bytes are noticed depends on when the reader delivers them; tests use slices.",
 [BP+"de.rs"], [("from_reader_strict", BP+"de.rs:72")],
 "stateless model checking of strict decoding under a controlled reader",
 "All partitions up to a length bound, tails of up to 4 kinds also around the buffer size.")
prop("C09", "A sum value's variant is selected by its index byte, in both directions",
 "A variant of a sum type is written as the byte holding its declaration index and read back as the variant with that index; an index byte no variant has is an error. By a layout, the summand is the one whose declared index equals the byte, in whatever order the layout lists them, and variants whose index does not fit a byte are refused on encoding.",
 ["inputs", "configurations"], "all variant counts, all index bytes, all declared-index assignments",
 "Tests use sums of two to four variants in order.",
 [BP+"de.rs", BP+"ser.rs", BP+"loose_deserializer.rs"], [("Enum access", BP+"de.rs:395-500"), ("check_variant_index", BP+"ser.rs"), ("Sum rule", BP+"loose_deserializer.rs")],
 "explicit-state enumeration of variant counts, index bytes and declared indices on the real code",
 "All sizes up to 300 variants, all 256 bytes, all assignments of up to 4 summands over 9 indices.")
prop("C10", "Polymorphic variants are tagged by OCaml's label hash",
 "The tag of a polymorphic variant is the 31-bit hash OCaml assigns to its label, written as the 4 little-endian bytes of (hash*2)+1. Reading a tag selects the variant with that label's hash wherever it is declared, and an unknown tag is an error.",
 ["inputs", "programs"], "all labels, all tags, all positions in the type",
 "Tests know a handful of labels from OCaml.",
 [BP+"polyvar/caml_hash_variant.rs", BP+"polyvar/mod.rs", BP+"ser.rs", BP+"de.rs", BP+"write_ext.rs", BP+"read_ext.rs"], [("caml_hash_variant", BP+"polyvar/caml_hash_variant.rs"), ("bin_write_polyvar_tag", BP+"write_ext.rs")],
 "explicit-state enumeration of labels and tags, real hash/encoder/decoder vs reference model",
 "All ASCII labels up to 3 characters, 4 over identifiers; one finding listed (labels whose unreduced hash exceeds 32 bits panic in builds with overflow checks).")
prop("C11", "Decoding by a layout gives the value the layout describes",
 "For every layout and every byte string, decoding by the layout gives exactly the tree of named fields, variants and scalars that the layout's rules assign to the bytes, consuming exactly those bytes, or an error if they are not a value of the layout. References are followed, known opaque hashes are 32 raw bytes, known vectors have their fixed length and terminator.",
 ["inputs", "configurations"], "every layout, every byte string",
 "Tests decode a few layouts with one input each.",
 [BP+"loose_deserializer.rs", BP+"value/visitor.rs", BP+"value/layout/traverse.rs", BP+"value/enum_data.rs"], [("deserialize_loose", BP+"loose_deserializer.rs"), ("ValueVisitor", BP+"value/visitor.rs"), ("BinProtRuleIterator", BP+"value/layout/traverse.rs")],
 "explicit-state enumeration of layouts and their input trees, real decoder vs reference interpreter of layouts",
 "All rule trees of up to 3 rules (4 over fewer leaves), all custom types; trusts mc/binprot/src/loose.rs.",
 state=[("layout_iter", "stack of rules still to be decoded", BP+"value/layout/traverse.rs")])
prop("C12", "A value read by a layout is written back as the bytes it was read from",
 "Encoding a value obtained by decoding canonical bytes with any layout reproduces those bytes exactly; a loose value built in memory encodes like the typed value it stands for.",
 ["inputs", "configurations"], "every layout and canonical input",
 "The tests round-trip a few values of a few layouts.",
 [BP+"value/ser.rs", BP+"value/mod.rs", BP+"loose_deserializer.rs"], [("Serialize for Value", BP+"value/ser.rs")],
 "explicit-state enumeration of layouts and inputs through decode and encode of the real code",
 "Same space as C11, restricted to canonical inputs, plus loose values built in memory.")
prop("C13", "Layout documents are read faithfully or refused",
 "Reading a layout document gives the rule tree the document describes, with every name, index, hash, parameter and nesting kept, in any member order. A document with an unknown rule, a missing or surplus parameter or a missing required member is refused with an error, never misread or accepted in part, and never a panic.",
 ["inputs"], "every layout document",
 "Tests read a few example layouts.",
 [BP+"value/layout/mod.rs", BP+"value/layout/list_tagged_enum.rs"], [("TryFrom<ListTaggedEnum>", BP+"value/layout/mod.rs:91"), ("ListTaggedEnum", BP+"value/layout/list_tagged_enum.rs")],
 "explicit-state enumeration of documents (tags x parameters x positions) against a reference reader",
 "All tags with 0-3 parameters of 24 kinds in all 10 positions; members left out in turn.")
prop("C14", "Indexing into a loose value finds exactly the named or numbered part",
 "Indexing a decoded value by number or name yields exactly the corresponding element or first field of that name, also through a sum variant. Asking for a part that is not there never yields another part.",
 ["inputs"], "every value tree and every index path",
 "Tests index a few values.",
 [BP+"value/index.rs", BP+"value/mod.rs"], [("Index for usize/str", BP+"value/index.rs"), ("inner", BP+"value/mod.rs:92")],
 "explicit-state enumeration of value trees and indices against a reference lookup",
 "All value trees of depth up to 3 over all value kinds.")
prop("C15", "Version wrappers write their versions in front of the value and unwrap to it",
 "A value wrapped at any number of version levels is written as the version numbers, outermost first, followed by the value's own bytes, and reading and unwrapping gives the value back with the same versions. Bytes with another version number at any level are refused. The provided conversions to and from wrapped, newtype and proxy types lose and invent nothing.",
 ["inputs", "programs"], "every version number, wrapping depth, content type",
 "Tests wrap one or two types with version 1.",
 ["protocol/versioned/src/lib.rs", "protocol/versioned/src/macros.rs"], [("Versioned", "protocol/versioned/src/lib.rs"), ("impl_from_* macros", "protocol/versioned/src/macros.rs")],
 "explicit-state enumeration of wrapper programs (depth x versions x contents) on the real crate",
 "Depth up to 4, 9 inner and 3 outer versions in all combinations.")
prop("C16", "Derived conversions map every field and variant to its namesake, both ways",
 "For every pair of types for which a two-way conversion is derived, converting a value gives the value whose every field or variant is the converted counterpart of the same name or position, and converting back gives the original. The same holds through one to four levels of version wrappers, which get their declared versions.",
 ["programs", "inputs"], "every pair of struct or enum declarations and every value",
 "The derive is a program generator: the tests expand three declarations.",
 ["protocol/serialization-types-macros/src/auto_from.rs", "protocol/serialization-types-macros/src/lib.rs"], [("auto_from derive", "protocol/serialization-types-macros/src/auto_from.rs")],
 "explicit-state enumeration of declarations (generated programs) and all their member values",
 "Generated programs of up to 3-4 members and variants; trusts gen_programs.py.")
prop("C18", "The layout reader shows the value in the file, or fails and shows nothing",
 "Given any layout file and any data file, raw or in hexadecimal digits of either case, the layout reader program prints or writes the decoded value and exits 0, or exits non-zero having shown nothing and left the output file alone. With the round-trip option it succeeds exactly when the value encodes to the very bytes of the file.",
 ["inputs", "configurations"], "every layout, data file and option combination",
 "The program has no tests.",
 ["apps/bin-prot-layout-reader/src/main.rs"], [("main", "apps/bin-prot-layout-reader/src/main.rs")],
 "explicit-state enumeration of (layout, file, options) runs of the real program against the reference interpreter",
 "About 160 layouts, each with inputs of the input tree in 2-7 file forms and all options; layouts nested 300 deep.")
prop("C19", "The interoperability checker writes and reads the documented values",
 "For each of its tests, the checker program writes exactly the Bin_prot bytes of the documented value, to standard output or a file, and reading prints the value the bytes stand for. Input that is not a value of the test's type makes it fail with a non-zero exit status and print no value.",
 ["inputs", "configurations"], "every test, every input, both input and output routes",
 "The program has no tests.",
 ["protocol/bin_prot_checker/src/main.rs"], [("main", "protocol/bin_prot_checker/src/main.rs")],
 "explicit-state enumeration of (test, input, route) runs of the real program against the reference model",
 "All first bytes, the input trees of the 8 tests, integers at width boundaries.")

exec(open(os.path.join(ROOT, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "spec_more.py")) else None
NA = globals().get("NA", [])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in PROPS:
        f.write(json.dumps(p) + "\n")
    for p, _ in NA:
        f.write(json.dumps(p) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "bash ./setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": f"bash ./check.sh {p['id']} quick", "thorough_cmd": f"bash ./check.sh {p['id']} thorough",
                "technique": t, "level": "model_checking", "level_note": n} for p, t, n in PROPS],
    "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
    "notes": "No hooks in /repo: everything is explored through public interfaces. Findings and repaired defects are in KNOWN_FINDINGS.txt.",
}
json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
