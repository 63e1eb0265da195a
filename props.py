import os
import re

"""The harnesses of each property, their bounds and their vacuity witnesses."""


class H:
    def __init__(self, name, covers=(1,), tier="both", jobs=1, max_instr=3000000, time=600, format=False, samples=6,
                 compare=True, what="", weight=1):
        self.__dict__.update(locals())


class P:
    def __init__(self, harnesses, bounds, outside="", assumptions=()):
        self.harnesses, self.bounds, self.outside, self.assumptions = harnesses, bounds, outside, list(assumptions)


COMMON_ASSUMPTIONS = [
    "LLVM IR is produced by rustc (stable) from /repo and std at opt-level 1 with overflow checks and debug assertions; "
    "codegen below LLVM IR is trusted",
    "z3 4.8.12's verdicts are trusted; executor semantics are validated against native runs of sampled paths",
    "allocation succeeds below 32 MiB; a single larger request is reported as a violation",
    "format!/Display output is an empty string (message texts are not modelled) unless a harness enables it",
    "HashMap/IndexMap hash keys are the fixed zero seed; single thread",
]

INTS = "u8 u16 u32 u64 i8 i16 i32 i64 bool".split()

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "src")


def family(module, over=None, covers=(1,), **kw):
    """One harness per exported function of a harness module; `over` changes single ones."""
    over = over or {}
    text = open(os.path.join(SRC, module + ".rs")).read()
    names = sorted(set(re.findall(r"\b(%s_\w+)" % module, text)), key=text.index)
    unknown = set(over) - set(names)
    assert not unknown, unknown
    return [H(n, **dict(dict(covers=covers, what=n[4:].replace("_", " ")), **dict(kw, **over.get(n, {})))) for n in names]


HUGE = dict(max_instr=40000000, weight=3)

PROPS = {
    "C01": P(
        [H("c01_enc_" + t, [1], what="encode, size, decode-back of every %s" % t) for t in INTS]
        + [H("c01_dec_" + t, [2, 4] if t in ("u64", "i64", "bool") else [2, 3, 4], what="decode any varint of up to 10 bytes as %s" % t) for t in INTS],
        bounds="all values of all nine types; all encodings of 1 to 10 bytes; truncations of 0 to 10 bytes",
        outside="encodings longer than 10 bytes",
    ),
    "C02": P(family("c02", dict(c02_huge_string=HUGE, c02_huge_bytes=HUGE, c02_huge_nested=HUGE, c02_huge_msg=HUGE, c02_hash=dict(compare=False), c02_hash_str=dict(compare=False), c02_hash_vec=dict(compare=False), c02_msg=dict(compare=False), c02_stale_world=dict(jobs=4, weight=9))),
        bounds="about 70 types: integers, bool, strings up to 3 characters (any scalar values), byte strings up to 4, vectors up to 4 items, options, arrays, tuples, maps up to 2 entries, boxes, derived structs/enums, state collections; lengths 126-129, 300, 16383, 16384, 65535, 65536, 70001 and 2^21 around the size prefix's boundaries; 130 items; field numbers 0, 15, 16, 2047, 2048 and the maximum; stale caches left by one change between two size calculations (thorough: one more item/character/change)",
        outside='longer collections than stated'),
    "C03": P(family("c03", dict(c03_huge_string=HUGE, c03_huge_bytes=HUGE, c03_huge_nested=HUGE, c03_many_hash=dict(compare=False)), covers=(1, 2)),
        bounds='strings up to 3 characters (any scalar values), plus lengths around 127/128, 2^14, 2^16 and 2^21, byte strings and vectors up to 4 items, vectors of 70 to 150 items of which one is arbitrary, a map of 40 entries, options nested 3 deep, arrays of 1 to 7, tuples of 2 to 7, maps up to 2 entries; each alone, in a row, and as a field followed by others (thorough: one more)',
        outside='longer collections than stated'),
    "C04": P(family("c04"),
        bounds='derived unit, named and tuple structs, enums, generics, fields with tags of 1 to 5 bytes, renamed and hidden fields; all integer values, strings up to 2 and collections up to 2 (thorough: one more)',
        outside='type shapes that the harness does not declare'),
    "C05": P(family("c05", dict(c05_many_u8=HUGE)),
        bounds='lists up to 4 numbers or 2 others, maps up to 2 entries with all u8/u16 keys and all u32 keys that are field numbers, optional states nested twice, a state of nine parts populated one part at a time, a recursive state of depth 3 (thorough: one more item); lists of 127 to 16384 numbers or 300 messages and maps of up to 131 entries with an arbitrary one among them, trees 40 deep',
        outside='larger collections'),
    "C06": P(family("c06", dict(c06_bytes=dict(covers=(1,)), c06_world=dict(jobs=4, weight=9), c06_merge_world=dict(jobs=2, weight=8)), covers=(1, 2)),
        bounds='every byte string of up to 4 to 6 bytes (9 for tuples of 7; thorough: one more) for about 45 types, decoded anew and merged into an existing value; strings in any position are valid UTF-8; a single allocation request over 32 MiB counts as out of proportion',
        outside='longer inputs; stack depth on hostile recursion'),
    "C10": P(family("c10"),
        bounds='all histories of 2 setter calls (thorough: 3) with all values, strings up to 1 character, on derived structs, nested structs, enums and generics, from all initial values within the same bounds; a history of 300 fixed changes and one arbitrary one; changes 40 levels down',
        outside='longer histories'),
    "C11": P(family("c11"),
        bounds='all histories of 3 operations (thorough: 4) on lists of up to 3 numbers, and of 2 (3) on lists of messages, enums, lists and maps; changes at chosen places of lists of 130, 256 and 300 messages, and at the end of a history of 150 changes',
        outside='longer histories'),
    "C12": P(family("c12"),
        bounds='all histories of 2 operations (thorough: 3) on maps of up to 2 entries, all keys and values; two changes at chosen places of maps of 64 to 130 entries',
        outside='longer histories'),
    "C13": P(family("c13", dict(c13_tree=dict(jobs=4, weight=9), c13_world=dict(jobs=2, weight=8))),
        bounds='one (thorough: two for most) of 19 changes to any part of a state of nine populated parts, and histories of 2 (3) over replaced, recursive, optional, boxed and generic states, and 40 levels down a tree',
        outside='longer histories'),
    "C07": P(family("c07"),
        bounds='an inserted unknown field with any number and wire type and a payload of up to 2 bytes, 128 or 9000 bytes, at any position, of up to 2^20 bytes in front, and up to 130 of them in each place; fields of every other wire type; all orders of up to 3 fields; tags, sizes and numbers padded with up to 2 extra bytes; pairs of older and newer schemas (thorough: one more byte)',
        outside='several unknown fields at once beyond two; longer payloads'),
    "C08": P(family("c08", dict(c08_many_map=HUGE)),
        bounds='all pairs of values of each type, strings up to 1 character, collections up to 2 items (thorough: one more); lists, byte strings and maps of 1 to 300 items on top of each other',
        outside='larger collections'),
    "C09": P(family("c09", covers=(1, 2)),
        bounds="all 2^32 tags, all field numbers, tag encodings padded by up to 2 bytes, every type's wire type",
        outside=''),
    "C14": P(family("c14", dict(c14_map=dict(jobs=4, weight=9))),
        bounds='any base path of up to 2 arbitrary numbers; construction, moving, decoding of any byte string of up to 4-5 bytes, replayed entries, and 1 to 2 changes (thorough: one more); lists of 300 and maps of 70 messages, trees 30 deep',
        outside='longer histories'),
    "C15": P(family("c15", dict(c15_many_pauses=HUGE)),
        bounds='histories of 2 to 3 changes and pauses nested up to 3, and 127 to 65537 times; any 4 to 5 bytes for failing decodes; entries with paths of up to 3 numbers (thorough: one more)',
        outside='longer histories; panics inside building closures'),
    "C16": P(family("c16", dict(c16_kind=dict(jobs=3, weight=8), c16_maybe_maybe=dict(jobs=4, weight=9), c16_list_maybe=dict(weight=8), c16_maybe_list=dict(weight=8)), covers=(1, 2)),
        bounds='every entry with a path of up to 4 arbitrary u32 numbers and a value of up to 4 bytes, for every kind; raw logs of up to 6 bytes; two entries in a row (thorough: one more byte/number); entries gone astray on a way 81 numbers long',
        outside='longer logs'),
    "C17": P(family("c17", covers=(1, 2)),
        bounds='all pairs (symmetry, hashing) and triples (transitivity) of values, strings up to 1-2 characters, collections up to 2 items (thorough: one more); collections of 64 to 300 items that differ at chosen places',
        outside='hash functions other than the std and a recording one'),
    "C18": P(family("c18"),
        bounds='all histories of 3 operations (2 for maps and messages; thorough: one more), all keys and values; lists of up to 16384 and maps of up to 130 items',
        outside='longer histories'),
    "C19": P(family("c19"),
        bounds='every read returning 1 to 3 bytes or one event (short read, interruption or error; thorough: two) at any of its calls, for encodings of every kind of value and for arbitrary bytes; messages of up to 28 KiB in pieces of 1000 to 8192 bytes',
        outside='Reader::into_inner after eof(), and a nested reader dropped while it holds a look-ahead byte'),
    "C20": P(family("c20", covers=(1, 2)),
        bounds="every write accepting 1 to 3 bytes, or one event (short write, interruption, error or zero; thorough: two) at any call, for every kind of value and for the state's logs; values of up to 20 KB written in pieces of 1000 to 8192 bytes",
        outside=''),
    "C21": P(family("c21"),
        bounds='every cut point of the encodings of all values of each type with strings and collections up to 2 (thorough: 3), and of logs of two entries; chosen cuts of byte strings of 4096 to 70000',
        outside='longer encodings'),
    "C22": P(family("c22"),
        bounds='encodings of all values of all message, enum, collection and map shapes of the harness, collections up to 2 items, and declared metadata for each type',
        outside='message shapes the harness does not declare'),
    "C23": P(family("c23"),
        bounds='paths of up to 2 (thorough: 3) arbitrary numbers and of 24 to 26, 130 and 300 numbers; values of up to 3 bytes and of lengths around 127/128; typed values and keys',
        outside='other path lengths'),
    "C24": P(family("c24"),
        bounds='one (thorough: two) other complete encodings of the same value started at any write of an encoding or at any size calculation or serialization of any part of it, for all values with collections up to 2',
        outside='interleavings in which the later encoding does not finish before the earlier one continues; weak memory'),
    "C25": P(family("c25"),
        bounds='walks of 5 steps with arbitrary field numbers, 4 operations on a shared log, paths 200 deep (thorough: one more step)',
        outside=''),
    "C26": P(family("c26", dict(c26_writer=dict(format=True), c26_writer_fails=dict(format=True))),
        bounds='all histories of 4 operations (thorough: 5) over the buffering, writing and printing loggers, logs of two entries together, refusing loggers, and a sink that fails at any of its first 60 bytes',
        outside='longer histories; several threads'),
    "C27": P(family("c27", dict(c27_faults=dict(covers=(1, 2), compare=False), c27_variants=dict(jobs=2, weight=9)), format=True),
        bounds='identifiers of up to 4 arbitrary ASCII characters, 13 field types, every field number up to the maximum, up to 2 fields and 2 variants with arbitrary contents, 19 derived messages, 7 projects of nested messages (every message reachable from the root has one file), and a failure to open any of the files or at any of the first three writes to it, with writes of limited size',
        outside='identifiers that are not ASCII; two messages of the same name; validity as C# beyond what is stated'),
    "C29": P(family("c29", format=True, max_instr=40000000),
        bounds="declarations of the shapes of the harness (named and tuple structs, enums with every kind of variant), in which the names of parts, variants, attributes, renamed fields and prefixes are arbitrary identifiers of 1 to 5 characters; the lists of derives, the setting attributes and the kinds of what is kept are all combinations the harness lists",
        outside="the bodies of what is generated (the other properties decide what they do); longer names"),
    "C28": P(family("c28", covers=(1, 2), format=True, max_instr=40000000),
        bounds="declarations of the shapes of the harness (named and tuple structs, enums with every kind of variant) with two to three numbers, each of up to 4 arbitrary decimal digits, or with one or two arbitrary digits at every position around 2^29 - 1, 2^32 and 2^64, also in hexadecimal, with a suffix or an underscore; attribute names of the known ones' lengths with arbitrary letters; values of attributes, kinds of items, types of fields and lists of derives from the harness's tables",
        outside="hexadecimal numbers that the pinned syn reads as floats (0x..f32, 0x..f64); names that are no identifiers in *_renamed and ctor_prefix (the macro panics, which rejects them too); what rustc itself rejects behind the macro"),
    "C30": P(family("c30", dict(c30_kind=dict(weight=9), c30_map_shape=dict(weight=8), c30_world=dict(weight=7))),
        bounds="histories of 1 or 2 changes of 15 kinds of states (lists, maps, optional and boxed states, messages, enums, nested ones), a snapshot before any change, a log cut off at any byte, and one more change after the recovery or the replay of what was lost (thorough: one more change); a log of 140 fixed changes cut off around some of its entries",
        outside="longer histories"),
}
