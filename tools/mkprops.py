#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
G = "bitfields_impl/src/generating/bitfield/features/"
P = "bitfields_impl/src/parsing/"
H = G + "common/generator_helper.rs"
props = []

def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})

STORE = [("storage", "the integer or byte array holding all bits of a bitfield value; bit i of an array is bit i%8 of byte i/8",
          G + "bitfield_struct_feature.rs")]
T = "The unit tests call each generated function on a handful of constants for a few dozen definitions; "

p("C01", "Fields tile the storage in declaration order without gap or overlap",
  "In every accepted bitfield the fields (reserved and padding fields included) occupy consecutive, pairwise disjoint bit ranges that cover the storage exactly, in declaration order, starting at the least significant bit with lsb order and at the most significant bit with msb order. The published `<FIELD>_OFFSET` and `<FIELD>_BITS` constants state exactly that range, and every getter reads and every setter writes exactly that range of the raw value. A definition whose widths add up to the storage width is accepted.",
  ["inputs", "programs"], "for every definition (storage type, order, list of widths) and every raw value",
  T + "an offset that is wrong only for a particular width, order or storage size is not sampled.",
  [P + "bitfields/bitfield_parser.rs", G + "field_constants_feature.rs", G + "field_getters_feature.rs", G + "field_setters_feature.rs", H],
  [("calculate_field_offset", P + "bitfields/bitfield_parser.rs"), ("field constants", G + "field_constants_feature.rs"),
   ("get_field_offset_tokens / get_field_bits_tokens", H)],
  ["X_OFFSET / X_BITS constants", "getters and setters against into_bits / into_le_bytes"], STORE)

p("C02", "A value written to a field is read back, truncated to the field's width",
  "For every field with a getter and a setter, after `set_f(v)` the getter returns `v` whenever `v` is representable in the field's width, and otherwise the value made of the low `width` bits of `v` (sign-extended for signed types). This holds for every previous state of the bitfield, every storage kind and every built-in field type.",
  ["inputs", "programs", "histories"], "for every field type, width, offset, storage kind, prior raw state and value",
  T + "masks and shifts that fail only at a width or offset limit (1 bit, full width, bit 127, byte crossing) or only for one prior state escape them.",
  [G + "field_setters_feature.rs", G + "field_getters_feature.rs", H],
  [("generate_setting_field_from_variable_tokens", H), ("generate_extract_field_bits_from_source_into_variable_tokens", H)],
  ["f() after set_f(v)"], STORE)

p("C03", "Operations on one field never disturb anything else",
  "`set_f`, `checked_set_f`, `clear_f`, `clear_f_to_default` and `invert_f` leave every bit outside the field's own range unchanged, reserved, read-only and padding bits included, and never modify ignored struct members. Getters and all other `&self` operations change nothing.",
  ["inputs", "programs", "histories"], "for every definition, field, argument and prior state",
  T + "a stray bit written outside the field is visible only with the right neighbouring contents.",
  [G + "field_setters_feature.rs", G + "clear_bit_ops_feature.rs", G + "invert_bit_ops_feature.rs", H],
  [("mask and shift of the setter", H), ("byte/bit loop of the array setter", H)],
  ["whole raw value before and after", "ignored members before and after"], STORE)

p("C04", "Signed fields behave as two's-complement integers of the field's width",
  "A signed field of width w stores the low w bits of the two's-complement representation, and its getter sign-extends from bit w-1, so every value from -2^(w-1) to 2^(w-1)-1 round-trips exactly through setter, builder, defaults and raw conversions. The inverted value of a signed field is also returned sign-extended, i.e. equals -1 - f().",
  ["inputs", "programs"], "for every signed type, width, offset, order and storage kind, and all values and raw states",
  T + "they use a few negative numbers; sign extension errors at other widths or types are not reached.",
  [G + "field_getters_feature.rs", G + "field_setters_feature.rs", G + "invert_bit_ops_feature.rs", H],
  [("generate_sign_extend_bit_operation_tokens", H)], ["getter of signed fields", "f_inverted", "new()"], STORE)

p("C05", "Checked setters accept exactly the values that fit, and reject without effect",
  "`checked_set_f(v)` and the builder's `checked_with_f(v)` succeed exactly when `v` fits in the field's width (signed range for signed fields, unsigned range otherwise, the raw value of custom types, all excess bits zero for array fields; always for bool). On success they have the effect of the unchecked variant; on failure they return an error and leave the bitfield unchanged.",
  ["inputs", "programs"], "for every field type (including types wider than the storage), width, value and prior state",
  T + "a limit that is off by one or compared after a lossy cast only shows on particular values.",
  [G + "field_setters_feature.rs", G + "builder_feature.rs", H],
  [("generate_bit_size_check_tokens", H), ("generate_signed_bit_size_check_tokens", H)],
  ["Result and raw value of checked_set_f / checked_with_f"], STORE)

p("C06", "Raw conversions are lossless and honour endianness",
  "Converting any raw integer or byte array into a bitfield and back with the same endianness returns it unchanged, for every access kind and also for reserved fields (custom-typed fields may normalise their own bits only). For integer storage big-endian conversion is the identity and little-endian conversion swaps the bytes; for array storage little-endian bytes are the storage order (byte 0 holds bits 0-7) and big-endian bytes are reversed, and the undecorated functions follow the `from_endian` / `into_endian` arguments independently.",
  ["inputs", "programs", "configurations"], "for every definition, endian configuration and raw value",
  T + "they convert a few constants; a lost bit of one field or a wrong byte for one array length stays unseen.",
  [G + "from_into_bits_feature.rs", "bitfields_impl/src/generating/common/endian_conversion.rs", H],
  [("from_* generation", G + "from_into_bits_feature.rs"), ("endian conversion", "bitfields_impl/src/generating/common/endian_conversion.rs")],
  ["from_bits/from_bytes (+_le/_be)", "into_bits/into_bytes (+_le/_be)"], STORE)

p("C07", "Slice conversions agree with array conversions and check the length",
  "For array-backed bitfields, `checked_from_*slice` fails exactly when the slice is shorter than the storage and otherwise equals the byte-array conversion of the slice's first bytes (same endianness, same treatment of defaults); `checked_into_*slice` fails exactly when the destination is shorter than the storage, leaving it untouched, and otherwise writes exactly the byte-array form at its start. The unchecked variants agree for sufficient lengths, read a short slice as if zero-padded at the end, and fill a short destination with as many leading bytes as fit. Bytes beyond the storage length are never read or written.",
  ["inputs", "configurations"], "for every slice length and content, endianness and definition",
  T + "they try one or two lengths; boundary lengths and the content of rejected destinations are not enumerated.",
  [G + "from_into_bits_feature.rs"], [("slice length checks", G + "from_into_bits_feature.rs")],
  ["from_slice family", "into_slice family"], STORE)

p("C08", "Constructors give exactly zero plus the declared defaults",
  "`new()`, `Default::default()` and the builder's `new()` produce the value in which every field with a default (any access, reserved included) holds that default and every other bit is zero; `new_without_defaults()` (type and builder) produces all zeros except that reserved fields with a default hold it. Zero means the raw zero of the field, as interpreted by the field's type for custom types.",
  ["inputs", "programs", "configurations"], "for every definition: field types, widths, access, order, storage, default expression",
  T + "defaults on unusual combinations (read-only negative, reserved in msb order, custom constants) are not sampled.",
  [G + "new_functions_feature.rs", G + "default_trait_feature.rs", G + "builder_feature.rs", H],
  [("generate_new_function_implementation_tokens", H), ("generate_setting_field_to_default_tokens", H)],
  ["new / new_without_defaults / Default / Builder::new"], STORE)

p("C09", "Every with-defaults operation restores exactly the declared defaults",
  "`from_*_with_defaults`, `write_*_with_defaults`, `write_defaults`, `clear_*_with_defaults` and `clear_f_to_default` leave each field that declares a default (including read-only, write-only, no-access and reserved ones) equal to it, and treat the other bits exactly like the operation without defaults (for `write_defaults`: leave them alone; for clearing with defaults: zero them).",
  ["inputs", "programs", "histories"], "for every definition, input bits and prior state",
  T + "a default skipped for one access kind, or a neighbour overwritten, needs a specific definition and state.",
  [G + "from_into_bits_feature.rs", G + "write_bit_ops_feature.rs", G + "clear_bit_ops_feature.rs", H],
  [("generate_setting_fields_to_default_value_tokens_list", H)], ["all *_with_defaults functions", "write_defaults", "clear_f_to_default"], STORE)

p("C10", "Whole-value writes change exactly the writable fields",
  "`write_bits`/`write_bytes` and their little- and big-endian forms set every writable field from the corresponding bits of the input and leave every read-only, no-access and reserved field and every ignored member unchanged. Big-endian input is taken as is, little-endian input is byte-reversed first, and the undecorated form follows `write_endian`.",
  ["inputs", "programs", "histories", "configurations"], "for every definition, input and prior state",
  T + "they check single constants; leakage into protected bits needs specific states and layouts.",
  [G + "write_bit_ops_feature.rs", H], [("ProtectionType::ReadOnly filter", H), ("write endian conversion", G + "write_bit_ops_feature.rs")],
  ["write_bits / write_bytes families"], STORE)

p("C11", "Single-bit access is exact, bounds-checked and respects field access",
  "`get_bit(i)` returns bit i when it lies in a readable field (read-only or read-write; reserved fields are readable only if they carry a bits attribute) and false otherwise (also out of range); `set_bit(i, b)` changes exactly bit i when it lies in a writable field and otherwise changes nothing. The checked forms do the same but return an error, with no effect, exactly when i is out of range or the bit is not accessible.",
  ["inputs", "programs", "histories"], "for every u32 index, bit value, prior state and definition",
  T + "they probe a few indices; access guards at the edges of fields are not covered exhaustively.",
  [G + "set_get_bit_ops_feature.rs"], [("generate_field_bits_access_guard_tokens", G + "set_get_bit_ops_feature.rs"), ("offset range guard", G + "set_get_bit_ops_feature.rs")],
  ["get_bit/checked_get_bit/set_bit/checked_set_bit"], STORE)

p("C12", "Bit-range access is exact, bounds-checked and respects field access",
  "For any offset and length, a range that does not lie inside the storage is rejected (zero result or no effect; an error from the checked forms). For a valid range, reading returns the bits at offset.. in the low bits with non-readable bits as zero, writing changes exactly the writable bits of the range to the low bits of the value; the checked forms instead return an error without effect exactly when the range touches a non-readable (for reading) or non-writable (for writing) bit or when the value to write has bits beyond the length.",
  ["inputs", "programs", "histories"], "for every (offset, length, value) including zero length and u32 extremes, every prior state and definition",
  T + "they use about twenty byte-aligned ranges; zero lengths, unaligned ranges and arithmetic extremes are untested.",
  [G + "set_get_bit_ops_feature.rs", H], [("range guards and masks", G + "set_get_bit_ops_feature.rs"), ("generate_protected_bits_mask_tokens", H)],
  ["get/set_bits_range, get/set_bytes_range and checked forms"], STORE)

p("C13", "Clearing zeroes exactly what it names",
  "`clear_bits`/`clear_bytes` set every field to zero whatever its access, except that reserved fields with a default hold that default afterwards; `clear_f` sets exactly field f to zero (zero as interpreted by a custom type). Ignored members are unchanged.",
  ["inputs", "programs", "histories"], "for every definition and prior state",
  T + "they clear one or two states; a field or bit not cleared in another layout is missed.",
  [G + "clear_bit_ops_feature.rs", H], [("clear generation", G + "clear_bit_ops_feature.rs"), ("generate_setting_field_to_zero_tokens", H)],
  ["clear_bits / clear_bytes / clear_f"], STORE)

p("C14", "Inversion flips exactly the named writable bits",
  "`invert_bits`/`invert_bytes` flip every bit of every writable field and no other bit; `invert_f` flips exactly the bits of field f; `f_inverted()` returns the complement of field f within its width and changes nothing. Applying an inversion twice restores the original value (fields of custom types follow their own conversions).",
  ["inputs", "programs", "histories"], "for every definition and prior state",
  T + "they invert constants; complement bits leaking above the width or into protected fields need other states.",
  [G + "invert_bit_ops_feature.rs", H], [("invert generation", G + "invert_bit_ops_feature.rs"), ("generate_protected_bits_mask_tokens", H)],
  ["invert_bits / invert_bytes / invert_f / f_inverted"], STORE)

p("C15", "The builder builds what the setters would set",
  "Starting from `new()` or `new_without_defaults()`, each `with_f(v)` has the same effect on field f as writing v (low width bits) into f's range and touches nothing else, for every non-reserved field including read-only and no-access ones, in any order of calls. `build()` returns exactly the accumulated value, and `checked_with_f` never changes the outcome of an accepted value.",
  ["inputs", "programs", "histories"], "for every definition, every sequence of with-calls and all values",
  T + "they build a few values; the direct-write path for read-only fields is sampled on few types.",
  [G + "builder_feature.rs", H], [("builder setters", G + "builder_feature.rs"), ("generate_builder_direct_setter_call_tokens", H)],
  ["Builder::with_f / checked_with_f / build"], STORE)

p("C16", "Custom and nested types are stored through their own conversions",
  "A field of a user-defined type (enum, bitflag, nested bitfield) is written as its `into_bits()` (re-interpreted by the type first when bits beyond the width are cut off) and read as its `from_bits()` of exactly the field's bits, in every operation that reads or writes fields (setters, builder, defaults, raw conversions, writes, clearing, inversion). A nested bitfield therefore round-trips losslessly at any position.",
  ["inputs", "programs"], "for every custom value and raw state, for types narrower than, equal to and wider than the storage",
  T + "they use a few enum values; truncation of the raw value and positions other than the tested ones are not covered.",
  [H, G + "field_getters_feature.rs", G + "field_setters_feature.rs"], [("DataType::Custom branches", H)],
  ["getter/setter/builder of custom fields", "from/into conversions"], STORE)

p("C17", "Array fields are stored byte by byte in little-endian bit order",
  "For a `[u8; K]` field of width w, bit i of the value (bit i%8 of byte i/8) is stored at bit offset+i for every i below w, in integer-backed and array-backed bitfields alike; the getter returns those bits with every bit at or above w zero. Widths that are not a multiple of eight and arrays longer than the width are handled the same way, and a width larger than the array is rejected at compile time.",
  ["inputs", "programs"], "for every K, w, offset, storage kind, value and prior state",
  T + "they use byte-multiple widths almost everywhere; partial bytes and oversized arrays are hardly sampled.",
  [H, G + "field_getters_feature.rs", G + "invert_bit_ops_feature.rs"], [("array packing", H), ("array getter", G + "field_getters_feature.rs")],
  ["getter/setter/builder/invert/clear of array fields"], STORE)

p("C18", "Bitflags map exactly their declared values and fall back to the base variant",
  "`from_bits(v)` of a bitflag returns the variant declared with value v, and the base variant (else the default variant) for every other v; `into_bits` returns the declared value of every variant, so converting a variant to bits and back is the identity when both endiannesses agree. With `from_endian = little` the input, and with `into_endian = little` the output, is byte-swapped; big is the identity; a declared value beyond the backing type is rejected at compile time.",
  ["inputs", "programs", "configurations"], "for every bitflag definition and every raw value of the backing type",
  T + "they convert the declared values and few others, so the fallback over the whole domain is not established.",
  ["bitfields_impl/src/generating/bitflag/bitflag_generator.rs", P + "bitflags/bitflag_parser.rs"],
  [("match arms and fallback", "bitfields_impl/src/generating/bitflag/bitflag_generator.rs")],
  ["from_bits", "into_bits"])

p("C19", "Storage kind does not change behaviour",
  "The same fields declared over an integer, over a byte array of the same size, over a heap-allocated array, or together with ignored members behave identically: corresponding operations applied to corresponding states give corresponding results and states. Ignored members start at their type's default and are never touched by bitfield operations.",
  ["inputs", "programs", "histories"], "for every field list, operation, argument and (related) prior state",
  T + "the two test files repeat constants; they do not relate the two implementations on all states.",
  [H, G + "bitfield_struct_feature.rs", G + "from_into_bits_feature.rs", G + "set_get_bit_ops_feature.rs"],
  [("integer and array branches of every generator", H)], ["paired definitions in lockstep"], STORE)

p("C20", "Operations are total: no panic, overflow or out-of-bounds access",
  "No generated function panics, overflows an arithmetic operation or shift, or indexes out of bounds for any argument and any state, in debug as in release builds, out-of-range offsets and lengths, oversized values and short slices included.",
  ["inputs", "programs", "histories"], "for every generated function, argument and prior state",
  T + "an overflow in a shift or index appears only for extreme arguments (zero length, u32::MAX offset, full width).",
  [G + "set_get_bit_ops_feature.rs", H, G + "from_into_bits_feature.rs"], [("range guards", G + "set_get_bit_ops_feature.rs"), ("mask computation", H)],
  ["every generated function"], STORE)

p("C21", "Standard trait conversions agree with the named conversions",
  "`From` conversions between the bitfield and its raw type equal `from_bits`/`into_bits` (or the byte forms) with the configured endianness, `Default` equals `new()`, and copies and clones hold the same bits (and ignored members).",
  ["inputs", "programs", "configurations"], "for every definition, endian configuration and raw value",
  T + "they compare a few constants; a trait path that ignores an endian argument or loses a field is not excluded.",
  [G + "from_traits_feature.rs", G + "default_trait_feature.rs", G + "bitfield_struct_feature.rs"],
  [("From generation", G + "from_traits_feature.rs")], ["From/Into/Default/Clone/Copy"], STORE)

p("C22", "Invalid definitions are rejected and valid ones accepted",
  "The macros reject every definition whose field widths do not add up to the storage width, whose field type cannot hold its width, whose width is zero, whose literal default does not fit its field (or is negative for an unsigned field), which gives a reserved field an access, repeats a field name or uses unsupported types; they accept the definitions that satisfy all of these rules. A positive literal on a signed field may be any bit pattern of the field's width, and non-literal constant defaults are left to the compiler's type check.",
  ["programs"], "for every definition",
  "The trybuild cases pin about seventy hand-written definitions; the numeric limits are not enumerated over widths, signs and types.",
  [P + "bitfields/bitfield_parser.rs", P + "common/const_expr.rs", P + "common/spanned_data_type.rs"],
  [("check_* functions", P + "bitfields/bitfield_parser.rs"), ("min_max_for_bits", P + "bitfields/bitfield_parser.rs")],
  ["compilation outcome", "validation functions of the macro"])

p("C23", "Access arguments and visibility decide exactly which operations exist",
  "Read-only fields get a getter and no setter, write-only fields a setter and no getter, no-access fields neither, reserved fields no accessors, builder setters or constants at all; read-write fields get both. Individual clear and invert operations exist exactly for writable fields and inverted getters exactly for readable ones, and each accessor is as visible as its field's declared visibility says (fields without one inherit the struct's).",
  ["programs", "configurations"], "for every definition and access argument",
  "The trybuild cases name single missing methods; they do not enumerate access kind x operation x storage kind.",
  [P + "bitfields/bitfield.rs", P + "bitfields/bitfield_parser.rs", G + "field_setters_feature.rs"],
  [("Field::has_setter / has_getter / has_read_access", P + "bitfields/bitfield.rs"), ("get_field_access", P + "bitfields/bitfield_parser.rs")],
  ["set of generated functions"])

p("C24", "Arguments and cargo features enable exactly the documented operations",
  "Each generation argument (new, from_into_bits, from_traits, default, debug, copy, builder, bit_ops, write/set_get/clear/invert bit ops) adds exactly its documented functions or trait impls when true and removes them when false, an explicit argument overrides the cargo feature default, and with bit_ops=false only the bit operation groups explicitly set to true exist. (`toggle_bit_ops` is accepted and adds nothing.)",
  ["programs", "configurations"], "for every combination of arguments and cargo features",
  "The tests compile with three feature sets and a few argument combinations and mostly check presence, not absence.",
  ["bitfields_impl/src/generating/bitfield/feature.rs", P + "bitfields/bitfield_attribute/bitfield_arguments.rs", G + "write_bit_ops_feature.rs"],
  [("is_bit_ops_feature_enabled", "bitfields_impl/src/generating/bitfield/feature.rs"), ("resolve_bool_feature", P + "bitfields/bitfield_attribute/bitfield_arguments.rs")],
  ["set of generated functions"])

p("C25", "Debug output lists every field with its stored bits",
  "The generated `Debug` implementation prints each field of the bitfield once (reserved ones included, ignored members not), in declaration order, with the field's current raw bits: as an unsigned number, or as a list of bytes for array fields of array-backed bitfields.",
  ["inputs", "programs"], "for every definition and state",
  "The tests compare a few formatted strings.",
  [G + "debug_trait_feature.rs"], [("debug generation", G + "debug_trait_feature.rs")], ["format!(\"{:?}\")"], STORE)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props))
