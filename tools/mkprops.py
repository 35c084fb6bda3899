#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
G = "bitfields_impl/src/generating/bitfield/features/"
GH = G + "common/generator_helper.rs"
P = "bitfields_impl/src/parsing/"
BP = P + "bitfields/bitfield_parser.rs"
def m(name, where): return {"name": name, "where": where}
props = []
def add(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": mech}
    if observe: a["observe_at"] = observe
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

add("C01", "Fields occupy exactly their declared bits; getters/setters touch only them",
 "For every accepted bitfield, fields are packed back to back without gaps from the least (lsb) or most (msb) significant end in declaration order, and the generated BITS/OFFSET constants report that layout. Setting a field stores the value truncated to the field's width in exactly those bits and leaves every other bit unchanged; reading a field returns those bits zero-extended for unsigned, sign-extended for signed, as a boolean, as bytes with byte 0 lowest, or through the custom type's conversion. This holds for every backing (integer, inline array, heap array), field type, width, offset and prior state.",
 ["programs", "inputs"], "all accepted declarations x all prior states x all field values",
 "The layout space (widths x offsets x types x backing x order) is combinatorial; tests pin a few aligned layouts, while shift/mask mistakes appear only for particular offset/width/type combinations.",
 [GH, G+"field_getters_feature.rs", G+"field_setters_feature.rs", G+"field_constants_feature.rs", BP],
 [m("field extraction and insertion", GH), m("offset computation", BP), m("field getters", G+"field_getters_feature.rs"), m("field setters", G+"field_setters_feature.rs"), m("BITS/OFFSET constants", G+"field_constants_feature.rs")],
 ["field(), set_field(), FIELD_BITS, FIELD_OFFSET, internal value"])

add("C02", "Checked setters accept exactly the values that fit and fail without effect",
 "A checked field setter, on the bitfield or on its builder, succeeds exactly when the value is representable in the field's width (0..2^w-1 for unsigned, -2^(w-1)..2^(w-1)-1 for signed, any bool, no bits above the width for arrays and for the bits a custom value converts to). On success its effect equals the plain setter's and the field reads back as the value given; on failure it returns an error and the bitfield is unchanged.",
 ["programs", "inputs"], "all accepted declarations x all fields x all values of the field type, especially around each bound",
 "Rejection bounds depend on width, signedness, type and backing width together; tests sample a handful of in-range and far-out-of-range values and never every boundary.",
 [GH, G+"field_setters_feature.rs", G+"builder_feature.rs"],
 [m("unsigned/signed/array/custom fit checks", GH), m("checked setter", G+"field_setters_feature.rs"), m("checked builder setter", G+"builder_feature.rs")],
 ["checked_set_field(), Builder::checked_with_field(), internal value"])

add("C03", "Construction yields zero plus exactly the documented defaults",
 "new(), Default and the builder's new()/default start from all-zero bits with every field's declared default applied; new_without_defaults() (and the builder's) is all zero except reserved fields with a default, which keep it. A default stores the declared value (literal of any form including negative, constants, const functions and other constant expressions, which are evaluated with the field's type, bool, byte arrays, custom values) exactly as the field's own setter would, also for fields without a setter, and never disturbs other fields. Each builder with-call sets only its field, later calls win, and build() returns the accumulated bits.",
 ["programs", "histories"], "all accepted declarations with any mix of defaults x all sequences of builder calls",
 "Defaults travel through several code paths (setter, no setter, array, custom, builder inlining) and interact with access, order and disabled constructors; tests fix single examples of each.",
 [G+"new_functions_feature.rs", G+"builder_feature.rs", G+"default_trait_feature.rs", GH, P+"common/const_expr.rs"],
 [m("new functions", G+"new_functions_feature.rs"), m("builder", G+"builder_feature.rs"), m("Default trait", G+"default_trait_feature.rs"), m("default value parsing", P+"common/const_expr.rs")],
 ["new(), new_without_defaults(), Default::default(), Builder"])

add("C04", "Integer conversions round-trip with exact endianness and defaults",
 "For integer-backed bitfields, converting from an integer and back with the same endianness is the identity for every integer, big-endian conversions use the value as is and little-endian ones swap its bytes, and the unsuffixed functions and the From/Into traits follow the declared from/into endianness. Conversion from bits overwrites every field including read-only, no-access and reserved ones; the with-defaults variants then set exactly the fields that have a default to it. Explicit-endian functions ignore the configured endianness.",
 ["inputs", "configurations", "programs"], "all integer backings x all endianness configurations x all input values x all field layouts",
 "Conversions decode and re-encode field by field, so one wrong field in one layout/endian combination corrupts only some values; tests use a few fixed constants and mostly aligned layouts.",
 [G+"from_into_bits_feature.rs", G+"from_traits_feature.rs", "bitfields_impl/src/generating/common/endian_conversion.rs", P+"common/conversion_endian.rs"],
 [m("from/into bits", G+"from_into_bits_feature.rs"), m("From traits", G+"from_traits_feature.rs"), m("endian conversion", "bitfields_impl/src/generating/common/endian_conversion.rs")],
 ["from_*_bits*, into_*_bits, From/Into"])

add("C05", "Byte-array and slice conversions are exact, bounded and endian-correct",
 "For array-backed bitfields (inline or heap), little-endian bytes put bits 0..7 in byte 0 and big-endian bytes are the reverse, from/into with equal endianness is the identity, and unsuffixed functions and From/Into traits follow the declared endianness. Conversion from a slice uses its first N bytes, a shorter slice being extended with zero bytes at its end before endianness is applied, and the checked variants fail exactly when the slice is shorter than N; conversion into a slice writes exactly the first min(len, N) bytes of the converted value and nothing else, and the checked variants fail exactly when len < N, writing nothing. With-defaults variants then set exactly the fields that have a default.",
 ["inputs", "configurations", "programs"], "all array lengths and layouts x all endianness configurations x all byte contents x all slice lengths including empty and longer than needed",
 "Slice length, endianness, padding and default interplay multiply; tests use short arrays, full-length slices and one short example.",
 [G+"from_into_bits_feature.rs", G+"from_traits_feature.rs"],
 [m("from/into bytes and slices", G+"from_into_bits_feature.rs"), m("From traits", G+"from_traits_feature.rs")],
 ["from_*_bytes*, from_*_slice*, into_*_bytes, into_*_slice, From/Into"])

add("C06", "Whole-value writes change exactly the writable fields",
 "Writing bits or bytes replaces every read-write and write-only field with the corresponding bits of the given value and leaves every read-only, no-access and reserved field as it was; for integers a big-endian write uses the value as is and a little-endian one swaps its bytes, for byte arrays a big-endian write takes byte 0 as bits 0..7 and a little-endian write takes the bytes reversed, and the unsuffixed write follows the configured write endianness. The with-defaults variants, and write_defaults on its own, then set every field that has a default (whatever its access) to it and touch nothing else.",
 ["inputs", "histories", "configurations"], "all declarations x all prior states x all written values x all write-endian configurations",
 "Needs arbitrary prior states of protected fields (only reachable through raw conversions) together with arbitrary written values; tests write a couple of constants onto freshly built values.",
 [G+"write_bit_ops_feature.rs", GH], [m("write operations", G+"write_bit_ops_feature.rs"), m("field-by-field copy", GH)],
 ["write_*_bits*, write_*_bytes*, write_defaults"])

add("C07", "Single-bit reads and writes respect bounds and field access",
 "Reading bit i returns exactly bit i of the value when i is in range and belongs to a readable field (read-write, read-only or reserved); for out-of-range offsets and bits of write-only or no-access fields the plain read returns false and the checked read returns an error. Writing bit i changes exactly that bit when i is in range and belongs to a writable field (read-write or write-only); otherwise the plain write does nothing and the checked write returns an error and changes nothing.",
 ["inputs", "programs"], "all declarations x all prior states x all 32-bit offsets x both bit values",
 "Access masks are computed per layout at expansion time; an off-by-one only shows at particular offsets next to protected fields in particular orders and backings.",
 [G+"set_get_bit_ops_feature.rs", GH], [m("single bit operations", G+"set_get_bit_ops_feature.rs"), m("protected bits mask", GH)],
 ["get_bit, checked_get_bit, set_bit, checked_set_bit"])

add("C08", "Range reads and writes move exactly the addressed accessible bits",
 "A plain range read returns the addressed bits shifted to position 0 with bits of write-only and no-access fields read as zero, and zero if the range leaves the bitfield; the checked read returns an error exactly when a non-empty range leaves the bitfield or contains an unreadable bit, and otherwise the same value. A plain range write stores the low bits of the value into the addressed bits, skipping bits of read-only, no-access and reserved fields, and does nothing if the range leaves the bitfield; the checked write returns an error without any change exactly when a non-empty range leaves the bitfield or contains a protected bit. No offset or length, however large, panics or touches bits outside the range.",
 ["inputs", "programs"], "all declarations x all prior states x all 32-bit offset/length pairs x all values",
 "Ranges crossing byte, word and field boundaries with mixed access, plus overflow of offset+length, form a space the fixed examples never enter.",
 [G+"set_get_bit_ops_feature.rs", GH], [m("range operations", G+"set_get_bit_ops_feature.rs"), m("protected bits mask", GH)],
 ["get_bits_range/get_bytes_range, set_*_range and checked variants"])

add("C09", "Clear operations reset exactly what they name",
 "Clearing the whole bitfield makes every bit zero, whatever the field's access, except reserved fields with a default, which get that default; clearing with defaults yields the same value as fresh construction with all defaults. Clearing one writable field zeroes exactly that field's bits, and clearing it to its default stores exactly the declared default in them, leaving all other bits unchanged.",
 ["programs", "inputs"], "all declarations x all prior states x all fields",
 "Must hold from every prior state, including protected fields set through raw conversions, for every access/default/reserved mix; tests clear a few freshly built values.",
 [G+"clear_bit_ops_feature.rs", GH], [m("clear operations", G+"clear_bit_ops_feature.rs"), m("zero and default initialisation", GH)],
 ["clear_bits/clear_bytes, *_with_defaults, clear_field, clear_field_to_default"])

add("C10", "Invert operations flip exactly the writable bits they name and are involutions",
 "Inverting the whole bitfield flips every bit of every read-write and write-only field and no other bit; inverting one writable field flips exactly that field's bits; applying either twice restores the value. Reading a field inverted returns the complement of the field's bits within its width, converted as the field getter would (sign-extended for signed fields, zero above the width otherwise), and changes nothing.",
 ["programs", "inputs"], "all declarations x all prior states x all fields",
 "Complement masking depends on width, offset, signedness and backing; over-wide complements only show for particular widths and states.",
 [G+"invert_bit_ops_feature.rs", GH], [m("invert operations", G+"invert_bit_ops_feature.rs"), m("inverted extraction", GH)],
 ["invert_bits/invert_bytes, invert_field, field_inverted"])

add("C11", "Protected fields survive every history; failed checked calls change nothing",
 "Over any sequence of instance operations (setters, checked setters, bit and range writes, whole writes, inversions, field clears, failed checked calls), read-only, no-access and reserved fields keep their bits; only whole clears, writes that reapply defaults and conversions/construction may change them, and then only as those operations document. Every checked operation that returns an error leaves the bitfield bit-for-bit unchanged, reads never change it, and a copy or clone taken at any point is unaffected by later operations on the original.",
 ["histories", "programs"], "all operation sequences over all declarations",
 "It is a statement about histories: protection must compose over interleavings of all operation groups, which example tests of single calls cannot show.",
 [G+"set_get_bit_ops_feature.rs", G+"write_bit_ops_feature.rs", G+"invert_bit_ops_feature.rs", G+"clear_bit_ops_feature.rs", G+"field_setters_feature.rs", G+"bitfield_struct_feature.rs"],
 [m("protected bits mask", GH), m("write operations", G+"write_bit_ops_feature.rs"), m("struct derives", G+"bitfield_struct_feature.rs")],
 ["all generated instance methods, Copy/Clone"])

add("C12", "Integer, inline-array and heap-array backings behave identically",
 "For one and the same list of fields, order and defaults, a bitfield backed by an N-byte integer, by an inline N-byte array and by a heap N-byte array give the same results for every corresponding operation and hold the same bits after any common operation sequence; an integer corresponds to its bytes (little-endian representation for raw bits, big-endian representation of the argument for conversions). Storage choice changes only where the bits live, not what they are.",
 ["programs", "histories"], "all field lists whose total is 8, 16, 32, 64 or 128 bits x all common operation sequences",
 "Integer and array code generation are separate implementations of one specification; agreement over all layouts and histories is a differential property no single-backing unit test states.",
 [GH, G+"set_get_bit_ops_feature.rs", G+"from_into_bits_feature.rs", G+"invert_bit_ops_feature.rs"],
 [m("integer vs array code paths", GH), m("integer vs array range operations", G+"set_get_bit_ops_feature.rs")],
 ["every generated operation on three twin types"])

add("C13", "Bitflags map every integer to the declared variant or the base",
 "For every bitflag enum, converting a declared discriminant (after the configured from-endianness) gives exactly its variant and converting a variant back (with the configured into-endianness) gives its discriminant; every other integer of the backing type converts to the base variant, or to the default variant when no base is marked, base taking precedence. Copy/Clone are derived exactly when copying is enabled, the conversions are usable in constants, and attributes and visibility on the enum and its variants are preserved.",
 ["programs", "inputs", "configurations"], "all enums with explicit discriminants over all five backings x all input integers x all endianness settings",
 "The fallback and byte-swapped mapping must hold for all integers of the type; tests check the declared values of a few enums with contiguous small discriminants.",
 ["bitfields_impl/src/generating/bitflag/bitflag_generator.rs", P+"bitflags/bitflag_parser.rs", P+"bitflags/bitflag_arguments.rs"],
 [m("bitflag generation", "bitfields_impl/src/generating/bitflag/bitflag_generator.rs"), m("bitflag parsing", P+"bitflags/bitflag_parser.rs")],
 ["Flag::from_bits, Flag::into_bits"])

add("C14", "Declarations are accepted exactly when they are well-formed",
 "Every well-formed declaration compiles: supported backing, field widths that are positive, no wider than the field's type and sum exactly to the backing width, fitting integer literal defaults, and at least one field. Every ill-formed one is rejected at compile time: wrong sums in either direction, zero or too wide widths, integer literal defaults (and byte lists) outside the field's bits, defaults of the wrong kind, unsupported types, unknown or malformed arguments, missing widths for custom types, access arguments on reserved fields, duplicate field names, a field with more than one bits attribute, generic parameters, enums without discriminants, with variants that carry fields, with discriminants outside the backing type or without a fallback variant, or attributes on the wrong kind of item. The macro never crashes on a malformed declaration.",
 ["programs"], "all declarations, and all single-fault mutations of well-formed ones",
 "Acceptance is a predicate over programs; compile-fail tests list a few dozen programs, while bounds must hold for all widths, types and defaults.",
 [BP, P+"bitfields/bitfield_attribute/bitfield_attribute_parser.rs", P+"bitfields/bits_attribute/bits_attribute_parser.rs", P+"common/const_expr.rs", P+"common/spanned_data_type.rs", P+"bitflags/bitflag_parser.rs", P+"common/attribute_argument_parser.rs"],
 [m("bitfield validation", BP), m("bits attribute parsing", P+"bitfields/bits_attribute/bits_attribute_parser.rs"), m("default literal bounds", P+"common/const_expr.rs")],
 ["rustc accepts/rejects"])

add("C15", "Each field's access level and visibility decide exactly which API exists",
 "Read-write and read-only fields have getters (and inverted getters), read-write and write-only fields have setters, checked setters, field clears and field inverts, all three have constants and builder setters, while no-access and reserved fields have none of these; clear-to-default exists exactly for writable fields with a default. A field declared with its own visibility gives its accessors that visibility, other fields get the struct's, and nothing generated is visible more widely than declared. Generated names follow the field name, also for raw identifiers.",
 ["programs"], "all declarations x all access levels x all visibilities x all generated items",
 "It is a statement about which programs compile: presence and absence of every item for every access/visibility combination; tests only call items that exist.",
 [P+"bitfields/bitfield.rs", G+"field_getters_feature.rs", G+"field_setters_feature.rs", G+"builder_feature.rs", G+"common/naming_extensions.rs", P+"common/visibility.rs"],
 [m("access predicates", P+"bitfields/bitfield.rs"), m("visibility", P+"common/visibility.rs"), m("naming", G+"common/naming_extensions.rs")],
 ["presence/absence of items for code inside and outside the defining module"])

add("C16", "Configuration switches generate or omit exactly their own API group",
 "Each boolean argument (new, conversions, traits, Default, Debug, copy, builder, each bit-operation group) generates exactly its documented items when true and omits exactly those when false, for any combination of the others; the master bit-operation switch set to false omits all groups except those explicitly set to true. Whatever remains generated still compiles and behaves the same as with everything enabled.",
 ["configurations", "programs"], "all combinations of the boolean arguments x all declarations",
 "There are thousands of switch combinations, and features reuse each other's code (e.g. the builder without constructors); tests toggle one switch at a time on one struct.",
 ["bitfields_impl/src/generating/bitfield/bitfield_generator.rs", "bitfields_impl/src/generating/bitfield/feature.rs", P+"bitfields/bitfield_attribute/bitfield_arguments.rs"],
 [m("feature selection", "bitfields_impl/src/generating/bitfield/bitfield_generator.rs"), m("argument defaults", P+"bitfields/bitfield_attribute/bitfield_arguments.rs")],
 ["presence/absence of items; behaviour of the remaining ones"])

add("C17", "Cargo features set configuration defaults, and explicit arguments override them",
 "Each cargo feature of the macro crate changes exactly the default it names (generation switches, copy, order, endianness, heap arrays, bitflag endianness and copy) for declarations that do not mention that argument, and any argument given on a declaration wins over the features. With no features, the documented defaults apply.",
 ["configurations", "programs"], "all feature selections with at most one of each opposing pair x all explicit argument choices",
 "Test runs use two feature sets only; the matrix of feature selection x explicit arguments is never exercised.",
 [P+"bitfields/bitfield_attribute/bitfield_arguments.rs", P+"bitflags/bitflag_arguments.rs", "bitfields_impl/Cargo.toml", "bitfields/Cargo.toml"],
 [m("feature-dependent defaults", P+"bitfields/bitfield_attribute/bitfield_arguments.rs"), m("bitflag defaults", P+"bitflags/bitflag_arguments.rs")],
 ["presence/absence of items and layout under each feature selection"])

add("C18", "Debug output lists every field in order with its current value",
 "The generated Debug output is the struct name followed by every non-ignored field in declaration order, each with its name and current value as stored: unsigned and sign-extended signed numbers in decimal, booleans as true/false, arrays as the stored bytes (or their number for integer-backed bitfields) and custom fields as the number their bits form. It agrees with what the getters return for every state, in plain and in pretty-printed form, and printing never changes the bitfield.",
 ["programs", "inputs"], "all declarations x all states x formatter modes",
 "Formatting reads the bits independently of the getters; disagreement needs unusual widths, signs, orders or access levels that fixed expectations do not cover.",
 [G+"debug_trait_feature.rs", GH], [m("Debug generation", G+"debug_trait_feature.rs")],
 ["format!(\"{:?}\") and {:#?}"])

add("C19", "Custom, nested and bitflag fields convert through the type's own functions",
 "A field of a user-defined type, a nested bitfield or a bitflag is read by applying the type's from-bits conversion to exactly the field's bits and written by storing the low field-width bits of the type's into-bits result; setting then reading returns the equivalent value whenever it fits, at every offset, width and backing. Nested bitfields compose: reading an inner field through the outer bitfield sees the corresponding outer bits, and writing a modified inner value back changes only those, to any nesting depth. Where a type's conversions lose information, operations on the whole bitfield may replace that field's bits by the bits of the value they convert to, and never affect any other field by it.",
 ["programs", "inputs"], "all custom/nested/bitflag types (including lossy conversions and narrow or wide conversion integers) x widths x offsets x states",
 "User types are arbitrary programs; the composition through several levels and integer widths is not enumerable by examples.",
 [GH, G+"field_getters_feature.rs", G+"field_setters_feature.rs", "bitfields_impl/src/generating/bitflag/bitflag_generator.rs"],
 [m("custom conversion", GH), m("getters of custom fields", G+"field_getters_feature.rs")],
 ["getters/setters/defaults/conversions of custom fields"])

add("C20", "Generated code is const-evaluable, no_std, unsafe-free and has no size overhead",
 "For bitfields without ignored fields or heap storage every generated inherent function (constructors, getters, setters, conversions, bit operations, builder) can be evaluated in constants and gives there the same result as at run time. Generated code (except for heap arrays) compiles in no_std crates without allocation, contains no unsafe code, raises no compiler warnings, and the bitfield has exactly the size of its backing type.",
 ["programs"], "all declarations without ignored fields or heap storage x all generated functions x values",
 "Const-evaluability, no_std and lint cleanliness are properties of every expansion for every layout; tests compile only std crates with a few const items.",
 [GH, G+"bitfield_struct_feature.rs", G+"builder_feature.rs", "bitfields_impl/src/generating/bitfield/bitfield_generator.rs"],
 [m("const modifier", GH), m("struct generation", G+"bitfield_struct_feature.rs")],
 ["compilation in const contexts and no_std crates; size_of"])

add("C21", "No generated operation panics, and debug and release builds agree",
 "No generated operation panics, overflows or aborts for any argument values in any state: extreme offsets and lengths, slices of any length, extreme field values. The same operation sequence gives the same results and the same bits whether arithmetic overflow checks are on or off and whatever the optimisation level.",
 ["inputs", "histories", "configurations"], "all declarations x all operation sequences with extreme arguments x both build profiles",
 "Overflow panics exist only in debug builds and only for extreme arguments or full-width fields; tests run one profile with ordinary arguments.",
 [GH, G+"set_get_bit_ops_feature.rs", G+"from_into_bits_feature.rs", G+"field_getters_feature.rs"],
 [m("range operations", G+"set_get_bit_ops_feature.rs"), m("shifts and masks", GH)],
 ["panics; transcripts of two builds"])

add("C22", "Ignored fields are carried alongside and never mix with the bits",
 "Fields marked as ignored take no bits and do not influence the layout or value of any other field: a declaration with ignored fields behaves, bit for bit and operation for operation, like the same declaration without them. They are initialised with their type's Default by every way of constructing the bitfield, are accessible as plain struct fields with their declared visibility, and no generated operation on an existing bitfield changes them.",
 ["programs", "histories"], "all declarations with ignored fields at any positions and of any Default types x all operation sequences",
 "Positions, types and counts of ignored fields interact with both field orders and every constructor; tests place one or two primitives at the end.",
 [G+"bitfield_struct_feature.rs", GH, BP], [m("struct generation", G+"bitfield_struct_feature.rs"), m("ignored field initialisation", GH)],
 ["twin declarations with and without ignored fields"])

add("C23", "A declaration means the same in every syntactic context",
 "What a bitfield or bitflag declaration means depends only on what it declares, not on how or where it is written: directly or through macro_rules macros (with types, widths, names, visibilities, arguments, defaults or whole items and attributes passed as fragments, $crate paths and operator precedence of expression fragments preserved), at module level or inside function bodies, in modules whose own items shadow names of core, std or the prelude, without the prelude, in any edition since 2018, with the macro imported, renamed or named by path, and with documentation and lint attributes, derives after the macro, any delimiter, spacing, type path or literal notation. It compiles in each of them and then behaves identically.",
 ["programs"], "all declarations x all syntactic contexts",
 "Hygiene and fragment handling fail only for particular combinations of a declaration and its surroundings; tests declare everything directly at module level of ordinary 2021 crates.",
 [P+"common/const_expr.rs", P+"common/spanned_data_type.rs", P+"common/attribute_argument_parser.rs", BP, P+"bitflags/bitflag_parser.rs", GH],
 [m("type fragments", P+"common/spanned_data_type.rs"), m("default expressions", P+"common/const_expr.rs"), m("paths in generated code", GH)],
 ["rustc accepts; same histories as the reference model"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))
