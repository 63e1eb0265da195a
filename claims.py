#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json for those that have a check."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

SER, DE, READER = "steit/src/ser.rs", "steit/src/de/de.rs", "steit/src/de/reader.rs"
VARINT, WIRE = "steit/src/impls/varint.rs", "steit/src/wire_fmt.rs"
LIST, MAP, KEY, MAYBE, BYTES = ("steit/src/types/list.rs", "steit/src/types/map/map.rs", "steit/src/types/map/key.rs",
                                "steit/src/types/maybe.rs", "steit/src/types/bytes.rs")
DF, DS, DENUM = ("steit-derive/src/derive/field.rs", "steit-derive/src/derive/struct.rs", "steit-derive/src/derive/enum.rs")
RT, NODE, RLOG, CACHE = ("steit/src/rt/runtime.rs", "steit/src/rt/node.rs", "steit/src/rt/logger.rs", "steit/src/rt/size_cache.rs")
STATE, ENTRY, LOGS = "steit/src/state.rs", "steit/src/log/entry.rs", "steit/src/log/loggers"
IMPLS = "steit/src/impls"

# id: (title, statement, over, quantifier text, why tests can't, files, mechanism, mechanism anchor)
CLAIMS = {
    "C01": ("Varint and ZigZag coding is exact for every integer and every encoding",
            "Every value of every integer type and bool encodes to the shortest varint (ZigZag for signed types), reports exactly "
            "that many bytes as its size, and decodes back to itself. Decoding any byte sequence yields the value its bits denote, "
            "truncated to the type, consumes exactly the bytes of the varint, and an encoding cut short is an error.",
            ["inputs"], "all values of u8..u64, i8..i64 and bool; all byte sequences of 1 to 10 bytes",
            "Tests sample a handful of values per type; sign, width and length boundaries form a space of up to 2^64 values times encodings.",
            [VARINT, f"{IMPLS}/bool.rs"], "7-bit group coding and ZigZag mapping", VARINT),
    "C02": ("The size announced for a value is the number of bytes written",
            "For every value, alone, as a list item or as a field under any field number, the computed size, the cached size and the "
            "number of bytes serialized agree, whatever stale sizes earlier calculations have left behind. A field is left out exactly "
            "when it is omissible and both size and serialization agree on that.",
            ["inputs", "histories"], "all values of each type within the size bounds; all field numbers' tag lengths; changes between size calculations",
            "A size prefix that is off by one corrupts everything after it; the sizes depend on data-dependent lengths at every nesting level and on the history of the caches.",
            [SER, CACHE, f"{IMPLS}", DF], "compute_size/cache_size before serialize_cached", SER),
    "C03": ("Built-in types survive an encode/decode round trip",
            "Every value of every built-in serializable type (strings, byte strings, vectors, options, arrays, tuples, maps, boxes and "
            "nestings of them) decodes to an equal value from its own encoding, using exactly the bytes of that encoding. This holds "
            "for the bare value, for one of a row of values, and for a field followed by others.",
            ["inputs"], "all values within the size bounds (lengths around 127/128 included)",
            "Tests check a few hand-picked encodings per type; the failing lengths, nestings and contents are not among them.",
            [f"{IMPLS}"], "matching size, serialize and merge implementations", IMPLS),
    "C04": ("Derived messages survive a round trip and have the documented layout",
            "Every value of a derived struct or enum decodes to an equal value from its own encoding. The encoding consists of the "
            "fields in order, each tagged with its number and wire type, default values left out; enums start with the number of their variant.",
            ["inputs", "programs"], "all field values; field numbers of every tag length; structs, tuple structs, enums, generics, renamed or absent hidden fields",
            "The code under test is generated per type by a macro; the tests instantiate it for few shapes with few values.",
            [DS, DENUM, DF], "derived sizer, serializer and merger", DF),
    "C05": ("State collections survive a round trip",
            "Lists, maps, optional states and derived states of any nesting decode to an equal value from their own encoding, keeping "
            "order and keys.",
            ["inputs"], "all contents within the size bounds, all keys that are field numbers",
            "Tests encode a few small collections; keys at the limits of their type and nested empties are not reached.",
            [LIST, MAP, MAYBE], "collection serialize/merge", MAP),
    "C06": ("Decoding arbitrary bytes is total and safe",
            "Decoding any bytes as any type returns a value or a data error: it never panics, overflows, loops, or allocates out of "
            "proportion to the input. What it accepts is a proper value that encodes and decodes to itself.",
            ["inputs"], "all byte strings up to the bounds, for every type",
            "Tests feed well-formed input only; hostile lengths, tags and truncations are a combinatorial space.",
            [DE, READER, VARINT, IMPLS, LIST, MAP], "bounded nested readers and checked tags", READER),
    "C07": ("Unknown, reordered, mistyped and padded fields are tolerated",
            "A decoder skips fields it does not know or whose wire type is not the expected one, without disturbing any other field, "
            "and accepts fields in any order and tags, sizes and numbers in longer than necessary encodings. So newer and older "
            "versions of a message can read each other's encodings.",
            ["inputs", "programs"], "all field numbers, wire types and payloads of inserted fields; all positions; padded encodings",
            "Forward and backward compatibility has to hold for fields nobody has thought of yet.",
            [DE, READER, DS, MAP], "skip_field and merge_nested's wire type check", DE),
    "C08": ("Merging an encoding overlays it field by field",
            "Merging an encoding into a value replaces what the encoding holds: scalars, strings and fixed-size collections are "
            "replaced, lists appended to, maps merged by key, messages merged field by field, enums merged if the variant is the same and reset otherwise. "
            "Decoding two encodings in a row equals merging the second into the first.",
            ["inputs"], "all pairs of values within the bounds",
            "Merge results depend on pairs of values; tests have a few pairs per type.",
            [DE, DS, DENUM, LIST, MAP], "merge implementations", DE),
    "C09": ("Tags carry field number and wire type without loss",
            "A tag read back gives the field number and wire type it was made of, for every field number up to the maximum; larger "
            "numbers and unknown wire types are refused instead of being truncated. Every kind of value has one fixed wire type and is written with it.",
            ["inputs"], "all 2^32 tags, all field numbers",
            "Tests use single-digit field numbers.",
            [WIRE, SER], "tag and parse_tag", WIRE),
    "C10": ("Replaying the log of a message's setters reproduces it",
            "After any sequence of setter calls on a state, replaying what was logged on a copy of the initial state gives an equal "
            "state, both step by step and all at once. Each setter logs exactly one update of its field, preceded by one of the variant if that changes.",
            ["inputs", "histories"], "all histories of setters up to the bound with all values",
            "Log and state agree only if every setter variant, nesting and path encoding does; tests replay canned logs.",
            [DF, DS, DENUM, STATE], "setters log through the runtime, handle applies", DF),
    "C11": ("Replaying the log of a list's history reproduces the list",
            "After any sequence of pushes, pops, removals and changes of items, replaying the log gives an equal list with equal encoding.",
            ["histories", "inputs"], "all histories up to the bound over lists of numbers, messages, enums and lists",
            "The failing histories combine removal with later changes of moved items; tests replay single operations.",
            [LIST], "push/pop/swap_remove logging and handle", LIST),
    "C12": ("Replaying the log of a map's history reproduces the map",
            "After any sequence of insertions, removals and changes of values, replaying the log gives an equal map.",
            ["histories", "inputs"], "all histories up to the bound, all keys and values",
            "The failing histories combine insertion with later changes of what was inserted; tests replay single operations.",
            [MAP], "insert/remove logging and handle", MAP),
    "C13": ("Replaying the log of any nested history reproduces the state",
            "After any sequence of changes at any depth of a nested state (messages, lists, maps, optional and boxed states, "
            "recursive types), including replacing a part and then changing inside it, replaying the log gives an equal state with equal encoding.",
            ["histories", "inputs"], "all histories up to the bound of 19 kinds of changes over a state of 9 parts, and over recursive and generic states",
            "This is the purpose of the library; the space of histories over nested states is far beyond a list of unit tests.",
            [STATE, RT, LIST, MAP, MAYBE, DF], "paths in runtimes, handle along the path", STATE),
    "C14": ("Every part of a state knows its place, however it came there",
            "At any time the path recorded in each part of a state is its actual place below the root, and it logs where the root logs: "
            "after construction, decoding, merging, replaying, moving, and any change. What is removed from a state is detached from it.",
            ["histories", "inputs"], "all base paths; all operations, decodings and log entries up to the bounds",
            "A wrong path stays invisible until a later change is logged and replayed elsewhere.",
            [RT, NODE, LIST, MAP, MAYBE, DS, DENUM], "nested runtimes and set_runtime", RT),
    "C15": ("Only real changes are logged, once, and never while paused",
            "Decoding, merging, replaying, reading, copying, moving and encoding log nothing; each change logs exactly its own entries, "
            "and whatever a building closure does is part of its one entry. While logging is paused, by any number of nested pauses, nothing is "
            "logged, and failures on the way never leave logging switched off.",
            ["histories", "inputs"], "all histories of pauses and changes up to the bound; arbitrary bytes for failing operations",
            "Tests look at the log after single successful calls only.",
            [RLOG, RT, LIST, MAP, DF], "pause counter", RLOG),
    "C16": ("Replaying any log applies it exactly or reports an error",
            "Replaying an entry either has exactly the effect its kind, path and value describe, or is refused with a data error when path, "
            "kind, key or value do not fit; it never panics. Entries before a refused one stay applied, those after it are not, and the "
            "state stays consistent and usable.",
            ["inputs", "histories"], "all entries with paths and values up to the bounds, all byte strings up to the bounds",
            "Logs come from other processes; tests replay a few valid ones.",
            [STATE, LIST, MAP, DS, DENUM, MAYBE], "handle's path and kind checks", STATE),
    "C17": ("Equality and hashing see exactly the values that take part",
            "Two values are equal exactly if all fields that take part in equality are equal, whatever they are called; equality is "
            "reflexive and symmetric. Equal values hash alike, and neither cached sizes, paths nor loggers matter.",
            ["inputs", "programs"], "all pairs of values within the bounds; excluded fields; field names resembling generated ones",
            "Derived per type by a macro; an equality that misses a field makes every other test pass.",
            [DF, DENUM, CACHE, RT, MAP], "derived eq and hash", DF),
    "C18": ("Collections behave like the plain collections they stand for",
            "Over any history, a list behaves like a vector and a map like an association list in insertion order: results of every "
            "operation, length, lookups, and iteration agree. Setters change exactly their field; fresh values are empty.",
            ["histories", "inputs"], "all histories up to the bound, all keys and values",
            "Tests exercise single operations on fixed contents.",
            [LIST, MAP, KEY, MAYBE, BYTES, DF], "delegation to Vec and IndexMap", LIST),
    "C19": ("Decoding does not depend on how the input arrives",
            "Whatever sizes the reads of the underlying source return and however often they are interrupted, decoding gives the same "
            "result, uses the same number of bytes, and looking for the end of the input loses nothing. An error of the source is "
            "reported as that error.",
            ["fault_sequences", "inputs"], "all splittings into reads, interruptions at all points, errors at all points, up to the bounds",
            "Tests decode from slices only.",
            [READER, DE], "end-of-input look-ahead", READER),
    "C20": ("Encoding does not depend on how the output accepts it",
            "Whatever sizes the writes of the underlying sink accept and however often they are interrupted, either exactly the encoding "
            "is written, or the sink's error is reported and what was written is a prefix of the encoding.",
            ["fault_sequences", "inputs"], "all splittings into writes, interruptions and errors at all points, up to the bounds",
            "Tests write to vectors only.",
            [SER, VARINT, IMPLS], "write_all and error propagation", VARINT),
    "C21": ("A cut-off encoding never passes for something else",
            "Every prefix of an encoding is either refused or decodes to what the complete fields in it say; a sized value that is cut "
            "short is always refused. Replaying a log cut short applies exactly the entries that are complete.",
            ["crash_points", "inputs"], "all cut points of all encodings within the bounds",
            "Tests decode complete input only.",
            [READER, DE, STATE], "completeness check of nested readers", READER),
    "C22": ("The metadata of a type describes its encoding",
            "Every encoding of every value parses by the type's metadata alone: each field is declared with that number and a type of "
            "that wire type, each variant number is declared, down to the primitive values. Code generated from the metadata for other "
            "languages relies on it.",
            ["inputs", "programs"], "all values within the bounds of all message shapes",
            "Tests do not relate metadata and encodings at all.",
            ["steit/src/meta", DF, DS, DENUM], "derived metadata", DS),
    "C23": ("Log entries have the documented format",
            "Each kind of entry is written as its size, its kind number, its path and its value or key in the documented layout, for every path, "
            "value and key; and every such encoding reads back as that entry. A log is the concatenation of its entries.",
            ["inputs"], "all paths, values and keys within the bounds",
            "Readers in other languages depend on it; tests show single-digit examples.",
            [ENTRY, RT, f"{LOGS}/buffer.rs"], "derived entry encoding", ENTRY),
    "C24": ("A shared value can be encoded by several writers at once",
            "Encoding a value while another encoding of the same value is at any point of its way gives each writer exactly the "
            "encoding, since sizes cached by one are those needed by the other.",
            ["schedules", "inputs"], "all points (writes) at which a second and third encoding is started, all values within the bounds",
            "Size caches are shared mutable state behind shared references; tests encode from one place only.",
            [CACHE, SER], "atomic size caches", CACHE),
    "C25": ("Runtimes form a tree of paths that share their logger",
            "Going down to a child, up to a parent and over to a sibling gives exactly the corresponding paths for every sequence of field "
            "numbers; all runtimes derived from one share its logger and its pauses. No derived runtime changes the one it came from.",
            ["inputs", "histories"], "all field numbers, all walks up to the bound",
            "Tests do not cover it directly.",
            [RT, NODE, RLOG], "parent-linked immutable nodes", NODE),
    "C26": ("Loggers deliver every entry, in order, exactly once",
            "What loggers hand over is what was logged, in order, without loss or repetition, over any history of logging, reading, taking and "
            "clearing; several entries logged together stay together. The error of a sink is reported.",
            ["histories", "fault_sequences"], "all histories up to the bound",
            "Tests look at logs after one or two calls.",
            [LOGS, "steit/src/log/logger.rs", RLOG], "entry buffer", f"{LOGS}/buffer.rs"),
    "C27": ("Generated code names and numbers fields as the metadata says",
            "For every message, the generated C# source declares each field and variant once, under its converted name, with exactly its number and wire "
            "type wherever it is read, written or dispatched on, and refers to a generic type with its parameters. Braces and indentation are balanced.",
            ["inputs", "programs"], "all field numbers and names up to the bounds; all messages of the harness",
            "Tests do not run the generator.",
            ["steit/src/gen/generators/csharp.rs", "steit/src/gen/str_util.rs", "steit/src/gen/writer.rs", "steit/src/gen/gen_util.rs"],
            "generator templates", "steit/src/gen/generators/csharp.rs"),
    "C28": ("Invalid declarations are rejected at compile time",
            "#[steit_derive] turns a declaration into a compile error exactly if it makes no proper message: two fields of a struct or "
            "variant, or two variants, with the same number; a number that its declaration reserves; a part without a number, or with "
            "one that is no integer or over 2^29 - 1; no variant numbered 0; no variants, a union or a const generic; an attribute "
            "that is unknown, has a value of the wrong kind or comes twice; the same derive twice; a type of which there is no metadata "
            "(unless there is none). It never panics on these, and whatever else is declared compiles to an implementation.",
            ["programs", "inputs"], "all numbers, names and tables of parts up to the bounds, in all shapes of declarations",
            "Whole programs are the input; the tests instantiate valid ones.",
            ["steit-derive/src/attr.rs", "steit-derive/src/derive/tag.rs", "steit-derive/src/derive/field.rs",
             "steit-derive/src/derive/variant.rs", "steit-derive/src/derive/struct.rs", "steit-derive/src/derive/enum.rs",
             "steit-derive/src/derive/derive.rs"],
            "attribute parsing and tag checks", "steit-derive/src/derive/tag.rs"),
    "C29": ("The macro keeps the declaration and adds what it is asked for",
            "#[steit_derive] outputs the declaration itself unchanged - names, types, visibilities, generics, other attributes and "
            "other derives, in order - without its own attributes, plus exactly the hidden fields it needs (a size cache to serialize, "
            "unless declined; a runtime for states), last and under the declared names. It adds the constructors and setters that the "
            "derives ask for, under names made of the declared prefix and the part's name, with a variant's name in snake case, and "
            "refers to the library as crate only where it is told that this is the library.",
            ["programs", "inputs"], "all names up to the bounds, in all shapes of declarations",
            "Whole programs are the input; the tests use a few declarations.",
            ["steit-derive/src/derive/struct.rs", "steit-derive/src/derive/enum.rs", "steit-derive/src/derive/field.rs",
             "steit-derive/src/str_util.rs", "steit-derive/src/attr.rs", "steit-derive/src/impl.rs"],
            "code generation", "steit-derive/src/derive/struct.rs"),
    "C30": ("A snapshot and the log since then recover a state, wherever the log was cut off",
            "Decoding a snapshot and replaying the log written since it was taken gives the state. If the log was cut off at any byte, "
            "every complete entry is applied, the loss of the rest is reported unless the cut is between entries, and the result is the "
            "state of that moment of the history; replaying the lost part later completes it. A replay logs nothing itself, and the "
            "recovered state knows its place and logs its own changes, so that it can take over.",
            ["crash_points", "histories", "inputs"], "all snapshots, cuts and histories up to the bounds",
            "Tests replay complete logs from the initial state.",
            ["steit/src/state.rs", "steit/src/log/entry.rs", LOGS, "steit/src/de/reader.rs", "steit/src/types"],
            "entry-wise replay", "steit/src/state.rs"),
}

NOT_APPLICABLE = {
    "C90": ("Generated C# code and its runtime agree with the Rust implementation",
            "Code generated for C#, with the C# runtime, decodes every encoding the Rust implementation writes to the same values and "
            "applies every log to the same effect.",
            ["inputs", "histories", "programs"], "all values and histories",
            "The C# tests are not run by the baseline, and cover single examples.",
            ["steit-csharp/src"], "C# reader and replayer", "steit-csharp/src/State/StateReplayer.cs",
            "no .NET compiler or runtime is installed, and no symbolic executor for CIL, so the real C# code can neither be encoded "
            "nor counterexamples replayed against it (the Rust side of the contract is C22, C23 and C27)"),
}


def line(i, c):
    return {"id": i, "title": c[0], "statement": c[1], "quantifier": {"over": c[2], "text": c[3]}, "why_tests_cant": c[4],
            "anchors": {"files": c[5], "mechanism": [{"name": c[6], "where": c[7]}]}}


def main():
    claimed = [i for i in sorted(CLAIMS) if i in props.PROPS]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i in claimed:
            f.write(json.dumps(line(i, CLAIMS[i])) + "\n")
        for i, c in sorted(NOT_APPLICABLE.items()):
            f.write(json.dumps(line(i, c)) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": "bounded symbolic execution of the LLVM IR of the real code, Z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": "Exhaustive within: " + props.PROPS[i].bounds + (". Outside: " + props.PROPS[i].outside if props.PROPS[i].outside else "")
            + ". Trusted: rustc down to LLVM IR, Z3, the executor (sampled paths are compared with native runs; counterexamples are "
              "replayed natively before they are reported).",
        } for i in claimed],
        "not_applicable": [{"property": i, "reason": c[8]} for i, c in sorted(NOT_APPLICABLE.items())],
        "notes": "No hooks: the harness crate (harness/) uses the public API of /repo's crates only.",
    }
    json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
