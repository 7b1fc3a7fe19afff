#!/usr/bin/env python3
"""Writes notes.json (texts used in evidence) and ../MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
KANI = "Kani/CBMC symbolic execution of the compiled real code, SAT (CaDiCaL)"
TRUST = [
    "Kani 0.68, CBMC 6.11, CaDiCaL and rustc's MIR are trusted; counterexamples are replayed natively, verdicts 'held' are not re-checked",
    "the oracle in harness/src/spec.rs is GLSL 4.60 section 7.6.2.2 as I read it",
    "target x86_64 linux, little endian, 64-bit usize",
]
MIR = [
    "engine M/W: the symbolic executor mirsym/sym.py, its models of the std functions the code calls, and z3 5.3; what it meets and does not model makes the case undecided (listed in the evidence), never held",
]
FAMILY = "K: the struct family in harness/src/family.rs (30 definitions: every field type, nesting to depth 3, up to 20 fields), all values"
SHAPES = "M: definitions of 0 to 20 fields (40 in thorough), all fields of different types, and of 2 to 16 fields with repeated types; each field type has any (alignment, size, Rust alignment, Rust size) of a built-in type or of a nested struct of up to 2^32 bytes"
STREAM = "W: types of any size up to 2^40 bytes and every alignment 1 to 32 (128 in thorough; 512 for dynamic uniforms); positions up to 2^62, reached by opaque history"
SINK = "K: sinks override Write::write_all by its loop-free equivalent, except in the *_std harnesses of C11 (thorough), which use std's own; W: the sink is a ghost that accepts write_all in full or fails at a symbolic byte"
STATE = "K: a Writer over a zero-sized sink is started at an arbitrary position by constructing its one-word state; if the Writer gets more state than its position, it is driven there by writes (positions below 512)"
def e(id, explanation, bounds, outside, assumptions=()):
    return id, dict(explanation=explanation, bounds=bounds, outside=outside,
                    assumptions=list(assumptions) + TRUST + (MIR if id in ENGINES["M"] + ENGINES["W"] else []))
ENGINES = {"M": ("C01", "C02", "C05", "C06", "C12", "C15", "C16", "C18"), "W": ("C09", "C10", "C11", "C12", "C13", "C14", "C17")}
NAMES = "definitions with more fields; generic structs, which the derive macros do not support"
NOTES = dict([
    e("C01", "M: offset of every field, size and alignment that the generated code gives, as terms over the field types' sizes and alignments, equal the GLSL std140 rules for every assignment of field types. K: every byte, the size and the alignment of the std140 encoding of an arbitrary value of each struct of a family.",
      SHAPES + ". " + FAMILY, NAMES),
    e("C02", "M: offset of every field, size and alignment that the generated code gives, as terms over the field types' sizes and alignments, equal the GLSL std430 rules for every assignment of field types. K: every byte, the size and the alignment of the std430 encoding of an arbitrary value of each struct of a family.",
      SHAPES + ". " + FAMILY, NAMES),
    e("C03", "For each built-in type (mint vectors, points and column matrices, scalars, crevice's own layout types) every byte of the std140 encoding of an arbitrary value is compared with the GLSL position of the component it belongs to; padding is zero.",
      "none on values: all bit patterns of all components of all 43 types and 21 layout types", "nothing known"),
    e("C04", "As C03 for std430.", "none on values: all bit patterns of all components of all 43 types and 21 layout types", "nothing known"),
    e("C05", "M: the generated encoder puts each field's own encoding, of this field's value, at the generated offset and zeros everywhere else, for every assignment of field types. K: every byte of the encoding of an arbitrary value of each struct of a family equals the byte of the field whose offset range covers it, and is zero where no field lies.",
      SHAPES + ". " + FAMILY + ", both layouts", NAMES),
    e("C06", "M: the generated decoder, applied to what the generated encoder produced, gives each field the decoding of its own encoding, for every assignment of field types. K: decode(encode(v)) has the component bits of v, directly and through a byte buffer, for an arbitrary v.",
      SHAPES + ". " + FAMILY + " and all built-in types, both layouts", NAMES),
    e("C07", "Byte image in both layouts, decode, alignment and GLSL name of an arbitrary value of each math-library type against the GLSL type with its components.",
      "none on values; all 74 supported cgmath, nalgebra and glam types", "the library versions are the ones in harness/Cargo.lock"),
    e("C08", "Encoding of each bool, alone and in vectors, points and structs; decoding of every 32-bit pattern per component.",
      "none on values", "comparing Bool values decoded from raw patterns with ==, which the property does not mention"),
    e("C09", "W: two writes of opaque types, by each way of writing, from an arbitrary position: padding zeros, value bytes, offset and length. K: one write from an arbitrary position of each listed type, byte by byte; three-write histories of arbitrary type order from a fresh writer.",
      STREAM + ". K: positions below 2^62; value types per tier as listed in samples", "positions of 2^62 bytes and above", [SINK, STATE]),
    e("C10", "W: slices, iterators (with arbitrary size_hint), the deprecated write_slice and slices of types that write several values, of opaque elements from an arbitrary position, against the elements one by one. K: the same for listed types, byte by byte.",
      STREAM + "; 0 to 3, 20 and 70 elements (0 to 6 and 20 to 280 in thorough). K: up to 3 elements (6 in thorough for f32)", "other numbers of elements; iterators that are not fused", [SINK, STATE]),
    e("C11", "W: the sink fails at a symbolic byte of a write of opaque types with a symbolic error kind: result, accepted bytes and length. K: the sink fails at an arbitrary byte with an arbitrary error kind or accepts nothing; or it interrupts and splits calls arbitrarily; compared with the fault-free run.",
      STREAM + "; one value or up to 2 or 3 elements (5 in thorough). K: one value or up to 3 elements; every failure byte; at most 2 interruptions or short writes per run", "more interruptions; a flush that fails (the writer never flushes)", [SINK, STATE]),
    e("C12", "M: static size and byte view of derived structs. W: value and slice sizes of opaque types, dynamic uniforms and types that write several values against what a fresh writer emits. K: static size, value size, byte-view length and slice size against the number of bytes a fresh Writer emits.",
      SHAPES + ". " + STREAM + "; slices of up to 3 elements (6 in thorough). K: all built-in types and the struct family; slices up to 3 elements (6 in thorough)", "longer slices", [SINK]),
    e("C13", "W: seven-step histories of a Sizer over opaque types from an arbitrary position, against the rule. K: one add from an arbitrary sizer position, against the rule and against one write from the same position; four-step histories of arbitrary type order from fresh ones.",
      STREAM + ". K: positions below 2^62; value types per tier as listed in samples", "positions of 2^62 and above", [SINK, STATE]),
    e("C14", "W: alignment, size, bytes, decoding, Sizer and Writer placement of dynamic uniforms of opaque inner types. K: image, decode and alignment of dynamic uniforms; Sizer placement from every position; Writer placement from positions near the next boundary (any multiple) and from chosen far ones; in thorough from every position.",
      STREAM + ". K: Sizer: positions below 2^62. Writer: quick up to 32 bytes of padding at any position below 2^62 and the positions listed; thorough every position below 2^62. Inner types in samples", "other inner alignments", [SINK, STATE]),
    e("C15", "M: the field list and the generated text of derived structs with field types of opaque names are exactly one member per field, in order. K: the text of hand-written field lists whose type and field names are arbitrary identifiers, and of derived structs whose field types have arbitrary names, is read token by token.",
      SHAPES.split(";")[0] + ", with raw identifiers, underscores, digits, case twins. K: identifiers of 1 to 8 bytes, all contents; hand-written lists of 0 to 6 fields (0 to 3 in quick); 7 derived structs with 0 to 9 fields", "other field names in derived structs; longer names in hand-written lists"),
    e("C16", "M: a struct declared from the generated text has, by the GLSL rules, its members at the offsets the generated layout gives the fields. K: the GLSL name a type reports is looked up in the table of GLSL types and the byte image of an arbitrary value is compared with that type's; for structs, a reader that follows the declared member list finds every member's bytes.",
      SHAPES + " (layout part: half as many fields). K: all types with a GLSL name, both layouts; structs of the family made of built-in types; all values", NAMES),
    e("C17", "W: the elements of a slice of an opaque type lie one stride (the size rounded up to the alignment) apart from an aligned base; std140 for alignments of at least 16. K: the byte at an arbitrary index of an arbitrary element of a written slice lies at base + i * stride with base and stride from the GLSL array rules.",
      STREAM + "; 0 to 3, 20 and 70 elements. K: up to 3 elements (2 where the alignment is at least 16), each length decided; positions below 2^62; element types in samples", "other numbers of elements; GLSL arrays of std140 elements with alignment below 16 are a known finding", [SINK, STATE]),
    e("C18", "M: the generated encoder applied to what the generated decoder makes of an arbitrary layout value gives each field's re-encoding at its place and zeros elsewhere, without panic. K: arbitrary bytes are decoded and encoded again; the byte at an arbitrary index is the original one, or zero in padding, or 0/1 in a boolean. Panics and invalid pointer use are checked on the way.",
      SHAPES + ". " + FAMILY + " and all built-in types, both layouts; all byte patterns", NAMES),
])
MZ = "symbolic execution of rustc's MIR of the {}, Z3 (bit vectors)"
TECH = {}
for id in NOTES:
    t = ([MZ.format("derived code for opaque field types")] if id in ENGINES["M"] else []) + ([MZ.format("writer, sizer and dynamic uniform for opaque types")] if id in ENGINES["W"] else [])
    TECH[id] = "; ".join(t + [KANI])
NOT = {}
checks = []
for id, n in NOTES.items():
    if id in NOT: continue
    checks.append(dict(property=id, quick_cmd=f"bin/check {id} quick", thorough_cmd=f"bin/check {id} thorough",
        technique=TECH.get(id, KANI), level="other",
        level_note=n["explanation"] + " Bounds: " + n["bounds"] + ". Outside: " + n["outside"] + ". Trusts Kani/CBMC, z3, mirsym/sym.py and the oracle in harness/src/spec.rs."))
man = dict(version=1, setup_cmd="bin/setup", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NOT.items()],
    notes="No hooks in /repo are needed: the harness crate uses crevice's public API only.")
json.dump(NOTES, open(os.path.join(HERE, "notes.json"), "w"), indent=1)
json.dump(man, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
