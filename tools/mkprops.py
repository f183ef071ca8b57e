#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
Z="crates/zserio/src/"; G="crates/zserio-rs-build/src/internal/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe)))

p("C01","Generated code round-trips every value of every supported schema",
 "For every supported schema and every value of its types, encoding the value with the generated code and decoding the resulting bytes with the same parameters yields an equal value and consumes exactly the bits that were written. Encoding the decoded value again yields the same bytes, wherever in a bit stream the object starts.",
 ["programs","inputs"],"all schemas (structs, choices, unions, enums, bitmasks, subtypes, parameters, templates, arrays, packing, optionals, offsets) x all values of every type x start bit positions",
 "The round-trip tests pin one hand-made value for about two dozen fixed schemas; combinations of features and boundary values are not reached.",
 [G+"generator/encode.rs",G+"generator/decode.rs",G+"generator/zstruct.rs",Z+"lib.rs",Z+"ztype/array.rs"],
 [("generated zserio_write / zserio_read",G+"generator/encode.rs, decode.rs"),("type mapping",G+"generator/types.rs")],
 ["bytes of the generated writer","decoded value == original","reader position"])
p("C02","Encoded bytes follow the zserio wire format bit for bit",
 "The bytes the generated code produces for a value are exactly those the zserio language definition (and its reference implementation) prescribes for that schema and value: field order, most-significant-bit-first integers, variable-length integers, strings, byte and bit blobs, array lengths, optional markers, union tags, padding and alignment. Bytes produced by a conforming encoder decode to the value they stand for.",
 ["programs","inputs"],"all supported schemas without packing x all their values",
 "A comparison with the reference implementation exists for one small schema and fixed values; a writer and reader that are wrong in the same way pass every round-trip test.",
 [G+"generator/encode.rs",G+"generator/decode.rs",Z+"ztype/bits_encode.rs",Z+"ztype/string_encode.rs",Z+"ztype/alignment.rs"],
 [("field encoders",G+"generator/encode.rs"),("primitive writers",Z+"ztype/*_encode.rs")],["bytes of to_bytes","values of from_bytes"])
p("C03","Bit size prediction equals the number of bits actually written",
 "For every value of every generated type and every start bit position, the reported bit size equals the number of bits the writer then emits when it starts at that position. The same holds for packed encodings and for the size functions of the built-in types and arrays.",
 ["programs","inputs"],"all schemas x values x start bit positions 0..127, packed and unpacked",
 "Bit sizes are asserted for a handful of structs at position 0; alignment, variable-length fields and packing make the size depend on value and position.",
 [G+"generator/bitsize.rs",Z+"ztype/array.rs",Z+"ztype/varint_bitsize.rs",Z+"ztype/varuint_bitsize.rs",Z+"ztype/alignment.rs"],
 [("zserio_bitsize generation",G+"generator/bitsize.rs"),("array bit size",Z+"ztype/array.rs zserio_bitsize")],["zserio_bitsize(pos)","bit_count of the writer"])
p("C04","Packed arrays are lossless and use zserio delta packing",
 "Packing an array never changes the decoded values: every packed array of integers, enums, bitmasks or compound objects decodes to the elements that were written, and element types that cannot be delta packed are stored as in an unpacked array. The packed bytes are those of the zserio delta packing scheme: packing is used per field only where it makes the data smaller, with the minimal delta width and the unpacked fallback otherwise.",
 ["programs","inputs"],"all packable and unpackable element types, array lengths from 0, value sequences (constant, monotone, alternating, extreme deltas), nested packed compounds",
 "Tests pack a few short fixed arrays; delta widths, sign changes, 62-bit limits, optional and union members inside packed compounds are value dependent.",
 [Z+"ztype/array_traits/delta_context.rs",Z+"ztype/array.rs",G+"generator/packed_contexts.rs",G+"generator/zunion.rs",G+"generator/zchoice.rs"],
 [("delta context",Z+"ztype/array_traits/delta_context.rs"),("packing context tree",G+"generator/packed_contexts.rs")],["bytes of packed arrays","decoded arrays"])
p("C05","Malformed or truncated input is an error, never a crash",
 "Decoding arbitrary, corrupted or truncated bytes with any generated type or any built-in reader either succeeds or returns an error; it never panics. A proper prefix of an encoding that ends before the last needed bit is always reported as an error.",
 ["inputs","programs"],"all byte strings (random, mutated encodings, every truncation point) x all schemas and built-in types",
 "Tests try a few hand-written truncated strings; each field kind at each cut position is a separate path.",
 [Z+"ztype/string_decode.rs",Z+"ztype/extern_type.rs",Z+"ztype/reader.rs",Z+"ztype/array_traits/delta_context.rs",Z+"ztype/varuint_decode.rs",G+"generator/decode.rs",G+"generator/zunion.rs",G+"generator/zenum.rs"],
 [("error propagation in readers",Z+"ztype/*_decode.rs"),("ZserioError",Z+"error.rs")],["Result of from_bytes / zserio_read"])
p("C06","Values that cannot be represented are rejected, never mis-encoded",
 "Writing a value the format cannot represent (an integer too large for its bit width or variable-length type, a blob whose declared size disagrees with its contents, an array whose length differs from its fixed length, an object whose parameters disagree with the enclosing object) is rejected. It never silently produces bytes that stand for something else.",
 ["inputs","programs"],"all out-of-range values for every field kind, at every nesting level, and every inconsistent object of the generated types",
 "No test writes an out-of-range value except two fixed cases; the limits differ per type and width.",
 [Z+"ztype/bits_encode.rs",Z+"ztype/varuint_encode.rs",Z+"ztype/varint_encode.rs",Z+"ztype/extern_type.rs",Z+"ztype/bytes_type.rs",Z+"ztype/array.rs",G+"generator/pass_parameters.rs"],
 [("range checks in writers",Z+"ztype/*_encode.rs"),("parameter checks",G+"generator/pass_parameters.rs")],["Result of to_bytes / zserio_write"])
p("C07","All serialization entry points agree and report I/O failures",
 "Encoding to a byte vector and encoding to any output stream give the same bytes, padded with zero bits to a whole byte; decoding from a slice, a stream or a file gives the same value and ignores trailing data. A failing or truncated stream, an unwritable output or a missing file is reported as an error, whatever the sizes of the individual reads and writes.",
 ["inputs","fault_sequences"],"all values x chunkings of reads and writes x injected I/O errors at every offset x trailing bytes",
 "The documentation tests use one empty object and a healthy file.",
 [Z+"lib.rs",Z+"error.rs"],[("to_bytes/to_writer/from_bytes/from_reader/from_file",Z+"lib.rs")],["returned bytes, values, errors"])
p("C08","Variable-length integers are canonical, exact and bounded",
 "Every value inside the documented range of a variable-length integer type is written in the shortest form of that type, its predicted size is the written size, and reading it back gives the same value and consumes exactly those bits; values outside the range are refused. Reading accepts every byte pattern of the type and returns the value it stands for, or an error when it does not fit.",
 ["inputs"],"all 16/32/64/72-bit signed and unsigned variable-length types and varsize x all values and byte patterns x bit offsets",
 "Only three or four boundary values per type are tested, only at bit offset 0.",
 [Z+"ztype/varint_encode.rs",Z+"ztype/varint_decode.rs",Z+"ztype/varuint_encode.rs",Z+"ztype/varuint_decode.rs",Z+"ztype/varint_bitsize.rs",Z+"ztype/varuint_bitsize.rs",Z+"ztype/limits.rs"],
 [("varint codec",Z+"ztype/varint_*.rs"),("varuint codec",Z+"ztype/varuint_*.rs")],["write/read/bitsize functions"])
p("C09","Fixed-width values, strings and blobs survive at any bit position",
 "Any sequence of fixed-width integers, bit fields of 0 to 64 bits, booleans, strings, byte blobs and bit blobs written one after the other reads back as the same sequence with the same bit positions, and the stream is the most-significant-bit-first concatenation of their encodings. This holds at every starting bit offset and after every alignment.",
 ["inputs","histories"],"all sequences of write operations x values x bit widths x start offsets",
 "Unit tests read single values from byte-aligned buffers.",
 [Z+"ztype/bits_encode.rs",Z+"ztype/bits_decode.rs",Z+"ztype/string_encode.rs",Z+"ztype/string_decode.rs",Z+"ztype/bytes_type.rs",Z+"ztype/extern_type.rs",Z+"ztype/alignment.rs"],
 [("bit writers/readers",Z+"ztype/bits_*.rs"),("blob codecs",Z+"ztype/bytes_type.rs, extern_type.rs")],["stream bytes and positions"])
p("C10","Floating point values keep their bits; half precision rounds correctly",
 "Every 32- and 64-bit floating point value, including negative zero, subnormals, infinities and NaN payloads, is stored as its big-endian IEEE 754 bits and read back bit-identically. Every 16-bit pattern reads as the number it denotes and writes back unchanged (a NaN stays a NaN), and a value written as 16-bit float is rounded to the nearest representable half, ties to even.",
 ["inputs"],"all float64/float32 bit patterns, all 65536 half patterns, all float32 values written as half; in fields, optional fields and arrays",
 "Tests contain a few ordinary numbers.",
 [Z+"ztype/float_encode.rs",Z+"ztype/float_decode.rs",Z+"ztype/array_traits/float16_array_trait.rs",Z+"ztype/array_traits/float32_array_trait.rs",Z+"ztype/array_traits/float64_array_trait.rs"],
 [("float codec",Z+"ztype/float_encode.rs, float_decode.rs")],["stream bits, read values"])
p("C11","Alignment and offset fields place data on the promised boundaries",
 "A field with an alignment of n bits starts at the next multiple of n counted from the start of the stream, only when the field is present, with zero padding; a field or array element addressed by an offset starts on a byte boundary. Reader, writer and size prediction agree on these positions for every preceding content and every start position.",
 ["programs","inputs"],"all schemas with align() and (indexed) offsets x preceding fields of every bit length x values x start positions",
 "The alignment test has one struct at position 0.",
 [Z+"ztype/alignment.rs",G+"generator/encode.rs",G+"generator/decode.rs",G+"generator/bitsize.rs",G+"generator/index_offsets.rs",Z+"ztype/array.rs"],
 [("align_writer/align_reader/align_bitsize",Z+"ztype/alignment.rs"),("indexed offsets",G+"generator/index_offsets.rs")],["bit position of the field in the encoding"])
p("C12","Optional and conditional fields are stored exactly when present",
 "An optional field costs one presence bit plus its value only when set; a field with a condition is stored exactly when its condition holds for the values of the fields and parameters it refers to. Decoding reads the field in exactly those cases, reports an optional field that was not stored as absent, and takes nothing from the stream for it.",
 ["programs","inputs"],"all conditions over fields and parameters x all values x nesting, arrays and packing of optional fields",
 "Tests cover a few fixed conditions with one value each.",
 [G+"generator/encode.rs",G+"generator/decode.rs",G+"generator/bitsize.rs",G+"generator/packed_contexts.rs",G+"generator/expression.rs"],
 [("optional clause / presence bit",G+"generator/encode.rs, decode.rs")],["encoded bytes, decoded Option values"])
p("C13","Choices and unions store exactly the selected member",
 "A choice stores nothing but the member its selector value designates, including shared case labels, the default member and empty cases; a union stores the index of its active member followed by that member. Decoding selects the same member, and a selector or tag that designates no member is an error.",
 ["programs","inputs"],"all choices over integer, boolean, enum and bitmask selectors x all selector values; all unions x all members; nested, in arrays, packed",
 "Tests pick one case of a few fixed choices and unions.",
 [G+"generator/zchoice.rs",G+"generator/zunion.rs",G+"visitor.rs"],
 [("choice match",G+"generator/zchoice.rs"),("union selector",G+"generator/zunion.rs")],["encoded bytes, decoded member, errors"])
p("C14","Enums and bitmasks carry their declared values and reject others",
 "Every enum item is encoded as its declared or implied value in the width of the base type and decodes to the same item, and an encoded value that belongs to no item is an error. Bitmask values carry exactly the declared (or implied, next free) bits, survive encoding in any combination, and keep their declared constants.",
 ["programs","inputs"],"all enum and bitmask declarations (base types, explicit, implicit and mixed values) x all items, combinations and raw values",
 "A handful of enums with one value each are encoded.",
 [G+"generator/zenum.rs",G+"generator/zbitmask.rs",G+"visitor.rs"],
 [("enum codec",G+"generator/zenum.rs"),("bitmask codec",G+"generator/zbitmask.rs")],["encoded values, decode errors"])
p("C15","Parameters reach nested objects with the right values",
 "When an object is decoded, each parameterized field or array element receives exactly the values of the argument expressions, evaluated on the enclosing object (including the element index), and its own decoding uses them. Lengths, conditions and bit widths that depend on fields or parameters use the values of the object being processed, at any nesting depth, on reading, writing, sizing and packing.",
 ["programs","inputs"],"all parameter declarations and argument expressions x nesting x arrays x values",
 "Four fixed schemas with one value each are tested.",
 [G+"generator/pass_parameters.rs",G+"generator/decode.rs",G+"generator/encode.rs",G+"generator/array.rs"],
 [("parameter passing",G+"generator/pass_parameters.rs")],["parameters and fields of decoded nested objects; bytes"])
p("C16","An instantiated template behaves like the hand-expanded type",
 "A template instantiated with type arguments encodes, decodes and sizes exactly as the type obtained by substituting the arguments by hand, for every kind of template and argument, including templates nested in templates and instantiated from other packages. Different argument lists yield independent types and instantiating twice yields the same type.",
 ["programs","inputs"],"all template declarations (struct, choice, union, several parameters) x arguments (built-in, compound, instantiated) x use sites x values",
 "A few fixed instantiations are generated and round-tripped.",
 [G+"compiler/template_instantiation.rs",G+"compiler/symbol_scope.rs",G+"compiler/resolve_types.rs"],
 [("template instantiation",G+"compiler/template_instantiation.rs")],["bytes of template schema vs. expanded schema"])
p("C17","Schema expressions, constants and functions evaluate as defined",
 "Constants, function results, array lengths and bit widths computed by the generated code equal the value that the zserio expression rules (operator precedence and associativity, integer arithmetic, comparisons, logical and bitwise operators, conditional operator, numbits, lengthof, valueof, isset) give for the current field values. This includes literals of every notation and operands of mixed integer types.",
 ["programs","inputs"],"all well-typed expressions over literals, constants, enum items, fields, parameters and functions x field values for which no intermediate result leaves the operand types",
 "Tests contain about thirty fixed expressions with one value each.",
 [G+"ast/expression.rs",G+"ast/evaluate_mixing_native_types.rs",G+"generator/expression.rs",G+"generator/casts.rs",G+"generator/function.rs",G+"generator/zconst.rs",Z+"numbits.rs"],
 [("expression typing/evaluation",G+"ast/expression.rs"),("expression code generation",G+"generator/expression.rs")],["results of generated functions and constants"])
p("C18","Names resolve to the declared type across packages and subtypes",
 "Every type or constant reference in a schema resolves to the declaration the zserio scoping rules designate: the own package first, imported names (single or wildcard) next, through any chain of subtypes, independent of declaration order and file order. The generated code of such a schema compiles and encodes as the resolved types prescribe.",
 ["programs","configurations"],"all package trees, import forms, subtype chains, declaration orders, equal names in different packages",
 "A few fixed packages with one import style each are compiled.",
 [G+"compiler/symbol_scope.rs",G+"compiler/resolve_types.rs",G+"compiler/fundamental_type.rs",G+"model.rs",G+"generator/package.rs"],
 [("symbol scope",G+"compiler/symbol_scope.rs"),("fundamental type",G+"compiler/fundamental_type.rs")],["bytes of generated types","compilability"])
p("C19","Code generation is deterministic and yields compilable Rust",
 "For every supported schema the generator terminates without failing and produces Rust code that compiles under the configured root module, through the library call and through the command line alike. Generating twice from the same input gives byte-identical output, independent of directory listing order and of previous contents of the output directory.",
 ["programs","configurations"],"all supported schemas x root prefixes x generation runs",
 "The build generates one fixed set of schemas once.",
 ["crates/zserio-rs-build/src/lib.rs","crates/zserio-rs-build/src/main.rs","crates/rust-zserio/src/main.rs",G+"model.rs",G+"generator/model.rs",G+"generator/mod_file.rs",G+"generator/file_generator.rs"],
 [("model generation",G+"generator/model.rs"),("command line","crates/zserio-rs-build/src/main.rs")],["generated files","rustc result"])
p("C20","Claimed array lengths cannot force allocation; chunk size is invisible",
 "While decoding an array, memory reserved ahead of the data is bounded by the configured allocation chunk, whatever length the stream claims, and a length without matching data ends in an error. The configured chunk, zero included, never changes any decoded value, error or position, and the setting reads back as it was set.",
 ["inputs","configurations"],"all element types x claimed lengths up to the maximum x payload lengths x chunk sizes, in arrays of generated types and of the runtime",
 "One fixed length and two chunk values are tested, and the capacity actually used during decoding is not observed.",
 [Z+"ztype/array.rs",Z+"ztype/reader.rs",Z+"ztype/string_decode.rs",G+"generator/decode.rs"],
 [("allocation cap",Z+"ztype/array.rs"),("remaining-data check",Z+"ztype/reader.rs, string_decode.rs")],["allocator statistics, decoded values"])
p("C21","Decoding replaces the previous contents of the target object",
 "Decoding into an object that already holds data leaves it with the value a fresh object would get: no field, array element, optional value or parameterized child of the earlier contents survives in the decoded value. Decoding several objects in sequence from one stream gives the same objects as decoding each on its own.",
 ["histories","programs","inputs"],"all sequences of decodes of values of one type into one object, and of several objects from one stream",
 "Every test decodes once into a default object.",
 [G+"generator/decode.rs",G+"generator/zstruct.rs",G+"generator/zunion.rs",G+"generator/zchoice.rs",Z+"ztype/array.rs"],
 [("field decoders",G+"generator/decode.rs"),("array clear",Z+"ztype/array.rs")],["decoded object after re-use"])
p("C22","Bit-count helper functions match their definition",
 "For every non-negative integer of every integer type, the bit-length helper returns the number of bits of its binary representation (0 for 0), and the numbits helper returns the minimum number of bits needed to tell that many different values apart (0 for 0, 1 for 1).",
 ["inputs"],"all values of u8..u64 and the non-negative values of i8..i64",
 "Ten values are tested.",
 [Z+"numbits.rs"],[("bit_length/numbits",Z+"numbits.rs")],["return values"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
