"""Contracts on the macro crate's own functions (the decisions the macros take), discharged by Kani.

On every run the modules `parsing` and `generating` of /repo/bitfields_impl/src are copied unchanged into a library
crate (a proc-macro crate cannot be verified: the copy drops lib.rs, i.e. the two proc_macro entry points and their
panic handler).  To each file named below the copy appends (cfg(kani) only) constructors for values with private
fields and a module `vproof` with the contracts; `derive(kani::Arbitrary)` is put on four plain types.  Error
construction (`create_user_parsing_compiler_error`) and `alloc::fmt::format` are stubbed: what an error says is
not part of any contract, that there is one is.
"""
import os, re, shutil, subprocess
import engine, runner

BPFILE = "parsing/bitfields/bitfield_parser.rs"
FEAT = "generating/bitfield/features/"

# constructors appended to the copy
CTORS = {
    "parsing/bitfields/bits_attribute/bits_attribute_parser.rs":
        "impl BitsAttribute { pub fn vk(bits: Option<u32>, arguments: BitsArguments) -> Self { Self { bits, arguments, span: Some(Span::call_site()) } } }",
    "parsing/bitfields/bits_attribute/bits_arguments.rs":
        "impl BitsArguments { pub fn vk(access: FieldAccess, user_set_access: bool, ignored: bool, default_value_expr: Option<ConstExpr>) -> Self { Self { access, "
        "access_span: if user_set_access { Some(Span::call_site()) } else { None }, user_set_access, ignored, default_value_expr } } }",
    "parsing/common/spanned_data_type.rs":
        "impl SpannedDataTypeToken { pub fn vk(data_type: DataType) -> Self { Self { data_type, spanned_token: SpannedToken::new(String::new(), Span::call_site()), "
        "original_type_tokens: TokenStream::new() } } }",
    "parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs":
        "impl BitfieldAttribute { pub fn vk(t: DataType, arguments: BitfieldArguments) -> Self { Self { spanned_data_type_token: SpannedDataTypeToken::vk(t), arguments } } }",
    "parsing/bitflags/bitflag_attribute_parser.rs":
        "impl BitflagAttribute { pub fn vk(t: DataType, arguments: BitflagArguments) -> Self { Self { spanned_data_type_token: SpannedDataTypeToken::vk(t), arguments } } }",
    "parsing/bitfields/bitfield.rs":
        "impl Field { pub fn vk(visibility: Visibility, bits: u32, offset: u32, reserved: bool, access: FieldAccess, ignored: bool, arguments: Option<BitsArguments>) -> Self { Self { visibility, "
        "name: String::new(), name_ident: Ident::new(\"a\", proc_macro2::Span::call_site()), "
        "spanned_data_type_token: SpannedDataTypeToken::vk(DataType::Custom), bits, offset, reserved, access, arguments, ignored } } }\n"
        "#[cfg(kani)] impl Bitfield { pub fn vk(arguments: BitfieldArguments) -> Self { Self { user_attributes_tokens: Vec::new(), visibility: Visibility::Public, name: String::new(), "
        "name_ident: Ident::new(\"a\", proc_macro2::Span::call_site()), spanned_data_type_token: SpannedDataTypeToken::vk(DataType::Custom), fields: Vec::new(), ignored_fields: Vec::new(), arguments } } }",
    "parsing/bitflags/bitflag.rs":
        "impl BitflagVariant { pub fn vk(value: ConstExpr, base: bool, default: bool) -> Self { Self { user_attributes_tokens: Vec::new(), "
        "name_ident: Ident::new(\"a\", proc_macro2::Span::call_site()), value, base, default } } }",
}
ARBITRARY = {"parsing/bitfields/bitfield_attribute/bitfield_arguments.rs": ["BitOrder", "BitfieldArguments"],
             "parsing/common/conversion_endian.rs": ["ConversionEndian"], "parsing/bitfields/bits_attribute/bits_arguments.rs": ["FieldAccess"],
             "parsing/bitflags/bitflag_arguments.rs": ["BitflagArguments"]}

SUPPORT = r'''
#[cfg(kani)]
pub mod vsupport {
    pub use core::mem::{forget, ManuallyDrop as M};
    pub use proc_macro2::Span;
    pub use crate::parsing::bitfields::bitfield::*;
    pub use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::*;
    pub use crate::parsing::bitfields::bitfield_attribute::bitfield_attribute_parser::*;
    pub use crate::parsing::bitfields::bits_attribute::bits_arguments::*;
    pub use crate::parsing::bitfields::bits_attribute::bits_attribute_parser::*;
    pub use crate::parsing::bitflags::bitflag_arguments::BitflagArguments;
    pub use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
    pub use crate::parsing::common::const_expr::ConstExpr;
    pub use crate::parsing::common::conversion_endian::ConversionEndian;
    pub use crate::parsing::common::spanned_data_type::{DataType, IntegerType, SpannedDataTypeToken};
    pub use crate::parsing::common::spanned_token::SpannedToken;
    pub use crate::parsing::common::visibility::Visibility;
    /// an error value; what it says is not under contract
    pub fn err_stub(_s: Span, _m: impl core::fmt::Display) -> syn::Error {
        unsafe { core::mem::transmute::<Vec<u64>, syn::Error>(Vec::new()) }
    }
    pub fn fmt_stub(_a: core::fmt::Arguments<'_>) -> String { String::new() }
    /// (type, size, signed); bool is an unsigned type of one bit
    pub fn ity(k: u8) -> (IntegerType, u32, bool) {
        match k {
            0 => (IntegerType::U8, 8, false), 1 => (IntegerType::U16, 16, false), 2 => (IntegerType::U32, 32, false),
            3 => (IntegerType::U64, 64, false), 4 => (IntegerType::U128, 128, false),
            5 => (IntegerType::I8, 8, true), 6 => (IntegerType::I16, 16, true), 7 => (IntegerType::I32, 32, true),
            8 => (IntegerType::I64, 64, true), 9 => (IntegerType::I128, 128, true), _ => (IntegerType::Bool, 1, false),
        }
    }
    pub fn any_ity() -> (IntegerType, u32, bool) { let k: u8 = kani::any(); kani::assume(k < 11); ity(k) }
    /// integer, array or custom type; size 0 for custom
    pub fn any_type() -> (DataType, u32) {
        let k: u8 = kani::any();
        kani::assume(k < 13);
        if k < 11 { let (t, b, _) = ity(k); (DataType::Integer(t), b) }
        else if k == 11 { let length: u32 = kani::any(); kani::assume(length >= 1 && length <= u32::MAX / 8); (DataType::Array { length }, 8 * length) }
        else { (DataType::Custom, 0) }
    }
    pub fn any_vis() -> Visibility {
        let k: u8 = kani::any();
        kani::assume(k < 3);
        match k { 0 => Visibility::Public, 1 => Visibility::Private, _ => Visibility::Restricted(String::new()) }
    }
    pub fn literal(number: u128, negative_sign: bool) -> ConstExpr {
        ConstExpr::Literal { number, negative_sign, spanned_token: SpannedToken::new(String::new(), Span::call_site()) }
    }
    pub fn path() -> ConstExpr { ConstExpr::Path { spanned_token: SpannedToken::new(String::new(), Span::call_site()) } }
    pub fn args(default_value_expr: Option<ConstExpr>) -> BitsArguments { BitsArguments::vk(FieldAccess::ReadWrite, false, false, default_value_expr) }
    /// is the default representable
    pub fn default_ok(n: u128, neg: bool, bits: u32, signed: bool) -> bool {
        if neg { signed && (bits == 128 || n <= 1u128 << (bits - 1)) } else { n <= u128::MAX >> (128 - bits) }
    }
}
'''


class K:
    """one contract: `body` of a proof harness in file `file`; `bound` labels a bounded one"""

    def __init__(self, name, prop, file, fns, body, bound=None, unwind=0, replay=None, stubs=True, also=()):
        self.also = also
        self.name, self.prop, self.file, self.fns, self.body = name, prop, file, fns, body
        self.bound, self.unwind, self.replay, self.stubs = bound, unwind, replay, stubs

    def src(self):
        return ("#[kani::proof]%s%s\npub fn %s() {\n%s\n    kani::cover!(true, \"reached\");\n}\n" % (
            "\n#[kani::unwind(%d)]" % self.unwind if self.unwind else "",
            "\n#[kani::stub(crate::parsing::common::compiler_error::create_user_parsing_compiler_error, err_stub)]\n#[kani::stub(alloc::fmt::format, fmt_stub)]" if self.stubs else "",
            self.name, self.body))


TYN = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool"]
TYB = [8, 16, 32, 64, 128, 8, 16, 32, 64, 128, 1]


def one_field(ty, attr, w, N=None):
    """a definition with one field of interest and padding; returns source text"""
    N = N or [x for x in (8, 16, 32, 64, 128, 256) if x >= w][0]
    st = "u%d" % N if N <= 128 else "[u8; %d]" % (N // 8)
    pad = N - w
    p = ""
    if pad:
        p = "#[bits(%d)] _p: %s," % (pad, "u128" if pad <= 128 else "[u8; %d]" % ((pad + 7) // 8))
    return "#[bitfield(%s)]\npub struct T {\n    #[bits(%s)] pub a: %s,\n    %s\n}" % (st, attr, ty, p)


def rep_default(v):
    b, n, neg, k = v[0], v[1], v[2] & 1, v[3]
    ty, tb = TYN[k], TYB[k]
    ok = (k in range(5, 10) and n <= 1 << (b - 1)) if neg else n < 1 << b
    return [(one_field(ty, "%d, default = %s%d" % (b, "-" if neg else "", n), b), ok)]


def rep_minmax(v):
    b = v[0]
    out = []
    for t in ("u", "i"):
        ty = [x for x in TYN[:10] if x[0] == t and int(x[1:]) >= b][0]
        vals = [((1 << b) - 1, True), (1 << b, False)] + ([(-(1 << (b - 1)), True), (-(1 << (b - 1)) - 1, False)] if t == "i" else [])
        out += [(one_field(ty, "%d, default = %d" % (b, x), b), ok) for x, ok in vals if not (b == 128 and x >> 127 in (1, -2))]
    return out


def rep_total(v):
    """n, four widths, type"""
    n, ws, k = v[0], v[1:5], v[5]
    if k > 11 or k in range(5, 11):
        return []
    st, size = (TYN[k], TYB[k]) if k < 5 else ("[u8; %d]" % v[6], 8 * v[6])
    fs = ["#[bits(%d)] pub f%d: %s" % (w, i, "u128" if w <= 128 else "[u8; %d]" % ((w + 7) // 8)) for i, w in enumerate(ws[:n])]
    return [("#[bitfield(%s)]\npub struct T { %s }" % (st, ", ".join(fs)), n > 0 and sum(ws[:n]) == size)] if n else []


def rep_offset(order):
    def f(v):
        """n, three widths, width, length: a definition with these fields"""
        from model import Def, Field
        n, ws, w, L = v[0], v[1:4], v[4], v[5]
        fs = [Field("f%d" % i, "u128", x) for i, x in enumerate(ws[:n] + [w])]
        left = 8 * L - sum(x.bits for x in fs)
        i = n + 1
        while left:
            fs.append(Field("f%d" % i, "u128", min(left, 128)))
            left -= fs[-1].bits
            i += 1
        return [Def("r", "[u8; %d]" % L, fs, order=order)]
    return f


def rep_flags(v):
    n1, n2, k = v[:3]
    if k > 4 or n1 == n2:
        return []
    return [("#[bitflag(%s)]\npub enum Fg { #[base] A = %d, B = %d }" % (TYN[k], n1, n2), max(n1, n2) < 1 << TYB[k])]


def rep_base(v):
    b, d = [x & 1 for x in v[:3]], [x & 1 for x in v[3:6]]
    if sum(d) > 1:
        return []
    vs = ", ".join("%s%sV%d = %d" % ("#[base] " if b[i] else "", "#[default] " if d[i] else "", i, i) for i in range(3))
    return [("#[bitflag(u8)]\n%spub enum Fg { %s }" % ("#[derive(Default)]\n" if any(d) else "", vs), sum(b) <= 1 and any(b + d))]


def contracts():
    D = []
    k = lambda *a, **kw: D.append(K(*a, **kw))
    # --- acceptance -----------------------------------------------------
    k("min_max", "C22", BPFILE, ["min_max_for_bits"], r'''
    let b: u32 = kani::any();
    kani::assume(1 <= b && b <= 128);
    let (lo, hi) = min_max_for_bits(b);
    assert!(hi == u128::MAX >> (128 - b), "C22|min_max_for_bits|maximum is 2^bits - 1");
    assert!(lo == i128::MIN >> (128 - b), "C22|min_max_for_bits|minimum is -2^(bits-1)");''', replay=rep_minmax)
    k("default_fits", "C22", BPFILE, ["check_default_value_fit_in_field", "min_max_for_bits"], r'''
    let b: u32 = kani::any();
    let n: u128 = kani::any();
    let neg: bool = kani::any();
    let (t, tb, s) = any_ity();
    kani::assume(1 <= b && b <= tb);
    let a = M::new(BitsAttribute::vk(Some(b), args(Some(literal(n, neg)))));
    let ty = M::new(SpannedDataTypeToken::vk(DataType::Integer(t)));
    let r = M::new(check_default_value_fit_in_field(Some(&a), b, &ty));
    assert!(r.is_ok() == default_ok(n, neg, b, s), "C22|check_default_value_fit_in_field|literal default accepted exactly when representable");''', replay=rep_default)
    k("default_absent_or_path", "C22", BPFILE, ["check_default_value_fit_in_field"], r'''
    let b: u32 = kani::any();
    let (t, tb, _s) = any_ity();
    kani::assume(1 <= b && b <= tb);
    let ty = M::new(SpannedDataTypeToken::vk(DataType::Integer(t)));
    let a = M::new(BitsAttribute::vk(Some(b), args(None)));
    let p = M::new(BitsAttribute::vk(Some(b), args(Some(path()))));
    let r0 = M::new(check_default_value_fit_in_field(None, b, &ty));
    let r1 = M::new(check_default_value_fit_in_field(Some(&a), b, &ty));
    let r2 = M::new(check_default_value_fit_in_field(Some(&p), b, &ty));
    assert!(r0.is_ok() && r1.is_ok() && r2.is_ok(), "C22|check_default_value_fit_in_field|no literal default, nothing to reject");''')
    k("bits_nonzero", "C22", BPFILE, ["check_bits"], r'''
    let b: u32 = kani::any();
    let a = M::new(BitsAttribute::vk(Some(b), args(None)));
    let r = M::new(check_bits(Some(&a), b));
    assert!(r.is_ok() == (b != 0), "C22|check_bits|zero width rejected, all others accepted");''',
      replay=lambda v: [(one_field("u8", "0", 0, 8), False)] if v[0] == 0 else [(one_field("u8", str(v[0]), v[0]), True)] if v[0] <= 8 else [])
    k("type_holds_bits", "C22", BPFILE, ["check_field_data_type_can_hold_bits", "DataType::bit_size", "IntegerType::bit_size"], r'''
    let b: u32 = kani::any();
    let (t, size) = any_type();
    kani::assume(size != 0);
    let a = M::new(BitsAttribute::vk(Some(b), args(None)));
    let ty = M::new(SpannedDataTypeToken::vk(t));
    let r = M::new(check_field_data_type_can_hold_bits(Some(&a), b, &ty));
    assert!(r.is_ok() == (b <= size), "C22|check_field_data_type_can_hold_bits|rejected exactly when the type is too small");
    let n = M::new(check_field_data_type_can_hold_bits(None, b, &ty));
    assert!(n.is_ok(), "C22|check_field_data_type_can_hold_bits|nothing to check without an attribute");''',
      replay=lambda v: [(one_field(TYN[v[1]], str(v[0]), v[0]), v[0] <= TYB[v[1]])] if v[1] < 11 and 1 <= v[0] <= 256 else [])
    k("field_bits", "C01", BPFILE, ["get_field_bits", "DataType::bit_size"], r'''
    let (t, size) = any_type();
    let w: Option<u32> = kani::any();
    let with: bool = kani::any();
    let a = M::new(BitsAttribute::vk(w, args(None)));
    let ty = M::new(SpannedDataTypeToken::vk(t));
    let r = M::new(get_field_bits(if with { Some(&*a) } else { None }, &ty));
    match (&*r, with, w) {
        (Ok(b), true, Some(w)) => assert!(*b == w, "C01|get_field_bits|the written width is taken"),
        (Ok(b), _, _) => assert!(size != 0 && *b == size, "C01|get_field_bits|otherwise the width of the type"),
        (Err(_), _, _) => assert!(size == 0 && !(with && w.is_some()), "C01|get_field_bits|only a custom type without a width is rejected"),
    }''')
    # the second, small one has counterexamples that can be replayed as definitions
    for order, exp, small in (("Lsb", "sum", 0), ("Msb", "size - w - sum", 0), ("Lsb", "sum", 1), ("Msb", "size - w - sum", 1)):
        k("offset_" + order.lower() + "_small" * small, "C01", BPFILE, ["calculate_field_offset", "Field::bits", "DataType::bit_size"], r'''
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let ws: [u32; 3] = [kani::any(), kani::any(), kani::any()];
    let (w, length): (u32, u32) = (kani::any(), kani::any());
    kani::assume(length >= 1 && length <= LIMIT);
    let size = 8 * length;
    let mut sum: u32 = 0;
    let mut i = 0;
    while i < 3 { if i < n { kani::assume(FITS ws[i] <= size - sum); sum += ws[i]; } i += 1; }
    kani::assume(WIDTH w <= size - sum);
    let f = |w: u32| Field::vk(Visibility::Public, w, 0, false, FieldAccess::ReadWrite, false, None);
    let fields = M::new([f(ws[0]), f(ws[1]), f(ws[2])]);
    let mut ba: BitfieldArguments = kani::any();
    kani::assume(ba.order() == BitOrder::%s);
    let att = M::new(BitfieldAttribute::vk(DataType::Array { length }, ba));
    let tok = M::new(syn::Field { attrs: Vec::new(), vis: syn::Visibility::Inherited, mutability: syn::FieldMutability::None, ident: None, colon_token: None,
        ty: syn::Type::Verbatim(TokenStream::new()) });
    let r = M::new(calculate_field_offset(&att, &tok, w, &fields[..n]));
    match &*r {
        Ok(o) => assert!(*o == %s, "C01|calculate_field_offset|%s order places the field after its predecessors"),
        Err(_) => assert!(false, "C01|calculate_field_offset|a field that fits is not rejected"),
    }'''.replace("LIMIT", "32" if small else "u32::MAX / 8").replace("FITS", "ws[i] >= 1 && ws[i] <= 128 &&" if small else "").replace("WIDTH", "w >= 1 && w <= 128 &&" if small else "") % (
            order, exp, order.upper()), bound="up to 3 preceding fields, " + ("storage up to 32 bytes (replayable)" if small else "all widths and storage sizes"), unwind=6,
          replay=rep_offset(order.lower()) if small else None)
    for small in (0, 1):
      k("total_bits" + "_small" * small, "C22", BPFILE, ["check_fields_fit_in_bitfield_type", "Field::bits", "DataType::bit_size"], r'''
    let n: usize = kani::any();
    kani::assume(n <= 4);
    let ws: [u32; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
    let (t, size) = any_type();
    kani::assume(size != 0 LIMIT);
    let mut sum: u64 = 0;
    let mut i = 0;
    while i < 4 { if i < n { FITS sum += ws[i] as u64; } i += 1; }
    kani::assume(sum <= u32::MAX as u64);
    let f = |w: u32| Field::vk(Visibility::Public, w, 0, false, FieldAccess::ReadWrite, false, None);
    let fields = M::new([f(ws[0]), f(ws[1]), f(ws[2]), f(ws[3])]);
    let att = M::new(BitfieldAttribute::vk(t, kani::any()));
    let r = M::new(check_fields_fit_in_bitfield_type(&att, &fields[..n]));
    assert!(r.is_ok() == (sum == size as u64), "C22|check_fields_fit_in_bitfield_type|accepted exactly when the widths add up to the storage");'''.replace(
          "LIMIT", "&& size <= 256" if small else "").replace("FITS", "kani::assume(ws[i] >= 1 && ws[i] <= 128);" if small else ""),
      bound="up to 4 fields, " + ("storage up to 256 bits (replayable)" if small else "all widths"), unwind=6, replay=rep_total if small else None)
    # --- access and visibility -------------------------------------------
    k("effective_access", "C23", BPFILE, ["get_field_access"], r'''
    let (acc, set, reserved, with, def): (FieldAccess, bool, bool, bool, bool) = (kani::any(), kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(set || acc == FieldAccess::ReadWrite);
    let a = M::new(BitsAttribute::vk(Some(3), BitsArguments::vk(acc, set, false, if def { Some(path()) } else { None })));
    let r = M::new(get_field_access(if with { Some(&*a) } else { None }, reserved));
    match &*r {
        Err(_) => assert!(with && set && reserved, "C22|get_field_access|only an access on a reserved field is rejected"),
        Ok(x) => {
            assert!(!(with && set && reserved), "C22|get_field_access|an access on a reserved field is rejected");
            assert!(reserved || *x == (if with { acc } else { FieldAccess::ReadWrite }), "C23|get_field_access|the written access, read-write by default");
        }
    }''')
    k("accessors", "C23", "parsing/bitfields/bitfield.rs", ["Field::has_getter", "Field::has_setter", "Field::has_constants", "Field::has_read_access", "Field::is_reserved"], r'''
    let (acc, reserved): (FieldAccess, bool) = (kani::any(), kani::any());
    let f = M::new(Field::vk(Visibility::Public, kani::any(), kani::any(), reserved, acc, false, None));
    let (r, w) = (matches!(acc, FieldAccess::ReadOnly | FieldAccess::ReadWrite), matches!(acc, FieldAccess::WriteOnly | FieldAccess::ReadWrite));
    assert!(f.has_getter() == (!reserved && r), "C23|Field::has_getter|getter exactly for readable fields");
    assert!(f.has_setter() == (!reserved && w), "C23|Field::has_setter|setter exactly for writable fields");
    assert!(f.has_constants() == (!reserved && acc != FieldAccess::NoAccess), "C23|Field::has_constants|constants exactly for accessible fields");
    assert!(f.has_read_access() == r && f.is_reserved() == reserved, "C23|Field|access predicates");''')
    k("accessor_visibility", "C23", "parsing/bitfields/bitfield.rs", ["Field::visibility"], r'''
    let acc: FieldAccess = kani::any();
    let ign: bool = kani::any();
    let v = M::new(any_vis());
    let f = M::new(Field::vk((*v).clone(), 1, 0, kani::any(), acc, ign, None));
    let r = M::new(f.visibility());
    let same = matches!((&*v, &*r), (Visibility::Public, Visibility::Public) | (Visibility::Private, Visibility::Private) | (Visibility::Restricted(_), Visibility::Restricted(_)));
    if ign || acc != FieldAccess::NoAccess { assert!(same, "C23|Field::visibility|accessors have the field's visibility"); }
    else { assert!(matches!(&*r, Visibility::Private), "C23|Field::visibility|fields without access stay private"); }''')
    k("default_present", "C23", "parsing/bitfields/bitfield.rs", ["Field::has_default_value"], r'''
    let (with, def): (bool, bool) = (kani::any(), kani::any());
    let f = M::new(Field::vk(Visibility::Public, 1, 0, kani::any(), kani::any(), false, if with { Some(args(if def { Some(path()) } else { None })) } else { None }));
    assert!(f.has_default_value() == (with && def), "C23|Field::has_default_value|exactly when one is written");''')
    k("ignored_attribute", "C24", BPFILE, ["is_ignored_field"], r'''
    let (with, ign): (bool, bool) = (kani::any(), kani::any());
    let a = M::new(BitsAttribute::vk(kani::any(), BitsArguments::vk(kani::any(), false, ign, None)));
    assert!(is_ignored_field(if with { Some(&*a) } else { None }) == (with && ign), "C24|is_ignored_field|exactly with ignore = true");''')
    # --- arguments and cargo features --------------------------------------
    for i, fl in enumerate(("parsing/bitfields/bitfield_attribute/bitfield_arguments.rs", "parsing/bitflags/bitflag_arguments.rs")):
        k("bool_feature%d" % i, "C24", fl, ["resolve_bool_feature"], r'''
    let (e, d): (bool, bool) = (kani::any(), kani::any());
    let r = resolve_bool_feature(e, d);
    assert!(r == (e || !d), "C24|resolve_bool_feature|off exactly when disabled and not enabled");''', stubs=False)
    k("order_feature", "C24", "parsing/bitfields/bitfield_attribute/bitfield_arguments.rs", ["resolve_bit_order_feature"], r'''
    let (l, m): (bool, bool) = (kani::any(), kani::any());
    assert!((resolve_bit_order_feature(l, m) == BitOrder::Msb) == (m && !l), "C24|resolve_bit_order_feature|msb exactly when only msb is set");''', stubs=False)
    k("endian_feature", "C24", "parsing/common/conversion_endian.rs", ["resolve_endian_feature"], r'''
    let (l, b): (bool, bool) = (kani::any(), kani::any());
    let d: ConversionEndian = kani::any();
    let r = resolve_endian_feature(l, b, d);
    let e = if l == b { d } else if l { ConversionEndian::Little } else { ConversionEndian::Big };
    assert!(r == e, "C24|resolve_endian_feature|the one that is set, the default otherwise");''', stubs=False)
    k("bit_ops", "C24", "generating/bitfield/feature.rs", ["is_bit_ops_feature_enabled"], r'''
    let (on, set, a): (bool, bool, BitfieldArguments) = (kani::any(), kani::any(), kani::any());
    let b = M::new(Bitfield::vk(a));
    assert!(is_bit_ops_feature_enabled(&b, on, set) == (on && (a.generate_bit_ops() || set)), "C24|is_bit_ops_feature_enabled|bit_ops = false leaves only what is asked for");''', unwind=4)
    simple = {"builder_feature": "generate_builder", "debug_trait_feature": "generate_debug", "default_trait_feature": "generate_default",
              "from_into_bits_feature": "generate_from_into_bits", "from_traits_feature": "generate_from_traits", "new_functions_feature": "generate_new"}
    ops = {"clear_bit_ops_feature": ("generate_clear_bit_ops", "user_set_clear_bit_ops"), "invert_bit_ops_feature": ("generate_invert_bit_ops", "user_set_invert_bit_ops"),
           "set_get_bit_ops_feature": ("generate_set_get_bit_ops", "user_set_set_get_bit_ops"), "write_bit_ops_feature": ("generate_write_bit_ops", "user_set_generate_write_bit_ops")}
    for n in list(simple) + list(ops) + ["bitfield_struct_feature", "field_constants_feature", "field_getters_feature", "field_setters_feature"]:
        exp = "a.%s()" % simple[n] if n in simple else "a.%s() && (a.generate_bit_ops() || a.%s())" % ops[n] if n in ops else "true"
        k("enabled", "C24", FEAT + n + ".rs", [n + "::enabled"], r'''
    let a: BitfieldArguments = kani::any();
    let b = M::new(Bitfield::vk(a));
    assert!(Feature::enabled(&%%s, &b) == (%s), "C24|%s::enabled|exactly when its arguments ask for it");''' % (exp, n), unwind=4)
    # --- bitflags ------------------------------------------------------------
    k("flag_values", "C22", "parsing/bitflags/bitflag_parser.rs", ["check_bitflag_variant_values"], r'''
    let n1: u128 = kani::any();
    let n2: u128 = kani::any();
    let (t, size, _s) = any_ity();
    let v = M::new([BitflagVariant::vk(literal(n1, false), true, false), BitflagVariant::vk(literal(n2, false), false, false), BitflagVariant::vk(path(), false, false)]);
    let att = M::new(BitflagAttribute::vk(DataType::Integer(t), kani::any()));
    let r = M::new(check_bitflag_variant_values(&att, &*v));
    let max = u128::MAX >> (128 - size);
    assert!(r.is_ok() == (n1 <= max && n2 <= max), "C22|check_bitflag_variant_values|literal values must fit the type");''', bound="3 variants, all values", unwind=5, replay=rep_flags)
    k("flag_base", "C22", "parsing/bitflags/bitflag_parser.rs", ["check_base_bitflag_variants"], r'''
    let b: [bool; 3] = [kani::any(), kani::any(), kani::any()];
    let d: [bool; 3] = [kani::any(), kani::any(), kani::any()];
    let v = M::new([BitflagVariant::vk(path(), b[0], d[0]), BitflagVariant::vk(path(), b[1], d[1]), BitflagVariant::vk(path(), b[2], d[2])]);
    let it = M::new(ItemEnum { attrs: Vec::new(), vis: syn::Visibility::Inherited, enum_token: Default::default(), ident: proc_macro2::Ident::new("a", Span::call_site()),
        generics: Default::default(), brace_token: Default::default(), variants: Punctuated::new() });
    let r = M::new(check_base_bitflag_variants(&it, &*v));
    let nb = b[0] as u8 + b[1] as u8 + b[2] as u8;
    let any = nb > 0 || d[0] || d[1] || d[2];
    assert!(r.is_ok() == (nb <= 1 && any), "C22|check_base_bitflag_variants|at most one base, at least one base or default");''', bound="3 variants", unwind=5, replay=rep_base)
    k("sizes", "C22", "parsing/common/spanned_data_type.rs", ["DataType::bit_size", "DataType::unsigned", "IntegerType::bit_size", "IntegerType::is_unsigned"], r'''
    let (t, b, s) = any_ity();
    assert!(DataType::Integer(t).bit_size() == b && DataType::Integer(t).unsigned() == !s, "C22|DataType|size and signedness of the integer types");
    let length: u32 = kani::any();
    kani::assume(length <= u32::MAX / 8);
    assert!(DataType::Array { length }.bit_size() == 8 * length && DataType::Array { length }.unsigned(), "C22|DataType|arrays are unsigned, 8 bits per byte");''', stubs=False)
    k("supported_type", "C22", "parsing/bitfields/bitfield_attribute/bitfield_attribute_parser.rs", ["BitfieldAttribute::check_supported_bitfield_type"], r'''
    let (t, size) = any_type();
    let signed = matches!(t, DataType::Integer(IntegerType::I8 | IntegerType::I16 | IntegerType::I32 | IntegerType::I64 | IntegerType::I128));
    let ty = M::new(SpannedDataTypeToken::vk(t));
    let r = M::new(BitfieldAttribute::check_supported_bitfield_type(&ty));
    assert!(r.is_ok() == (size != 0 && !signed), "C22|check_supported_bitfield_type|signed and custom storage is rejected");''')
    return D


def harness(k):
    return k.file[:-3].replace("/", "::") + "::vproof::" + k.name


def write(path, only):
    """copy the macro crate's modules and append constructors and contracts; returns {file: first appended line}"""
    src = os.path.join(runner.REPO, "bitfields_impl", "src")
    shutil.rmtree(path, ignore_errors=True)
    shutil.copytree(src, path + "/src")
    shutil.copy(runner.REPO + "/Cargo.lock", path + "/Cargo.lock")
    t = open(os.path.join(runner.REPO, "bitfields_impl", "Cargo.toml")).read()
    deps = t[t.index("[dependencies]"):]
    deps = deps[:deps.index("\n[", 5)] if "\n[" in deps[5:] else deps
    deps = re.sub(r"#.*", "", deps)
    # the procedural macro bridge does not exist outside a proc-macro crate
    deps = re.sub(r'^quote = .*$', 'quote = { version = "1", default-features = false }', deps, flags=re.M)
    deps = re.sub(r'^proc-macro2 = .*$', 'proc-macro2 = { version = "1", default-features = false }', deps, flags=re.M)
    deps = re.sub(r'^syn = .*$', 'syn = { version = "2", default-features = false, features = ["derive", "parsing", "printing", "clone-impls", "full", "extra-traits"] }', deps, flags=re.M)
    feats = t[t.index("[features]"):] if "[features]" in t else ""
    open(path + "/Cargo.toml", "w").write('[package]\nname = "vmf"\nversion = "0.0.0"\nedition = "2021"\n%s\n%s\n[workspace]\n[lints.rust]\nunexpected_cfgs = "allow"\nunused = "allow"\n'
                                         '[profile.dev]\ndebug = false\nincremental = false\n' % (deps, feats))
    lib = open(src + "/lib.rs").read()
    mods = re.findall(r"^(?:pub )?mod \w+;", lib, re.M)
    open(path + "/src/lib.rs", "w").write("#![allow(warnings)]\n" + "\n".join(mods) + SUPPORT)
    for f, names in ARBITRARY.items():
        p = path + "/src/" + f
        s = open(p).read()
        for n in names:
            s = re.sub(r"^(pub (?:struct|enum) %s\b)" % n, r"#[cfg_attr(kani, derive(kani::Arbitrary))]\n\1", s, flags=re.M)
        open(p, "w").write(s)
    for f, c in CTORS.items():
        open(path + "/src/" + f, "a").write("\n#[cfg(kani)] use crate::vsupport::*;\n#[cfg(kani)] %s\n" % c if False else "\n#[cfg(kani)]\n%s\n" % c)
    lines = {}
    byfile = {}
    for k in only:
        byfile.setdefault(k.file, []).append(k)
    for f, ks in byfile.items():
        p = path + "/src/" + f
        s = open(p).read()
        txt = ""
        for k in ks:
            body = k.src()
            if "%s" in body:
                m = re.search(r"impl Feature for (\w+)", s)
                body = body.replace("%s", "super::" + (m.group(1) if m else "Missing"))
            a = (s + "\n#[cfg(kani)]\nmod vproof {\n    #[allow(unused_imports)] use super::*;\n    use crate::vsupport::*;\n" + txt).count("\n") + 1
            txt += body
            lines.setdefault(f, []).append((a, a + body.count("\n"), k))
        open(p, "w").write(s + "\n#[cfg(kani)]\nmod vproof {\n    #[allow(unused_imports)] use super::*;\n    use crate::vsupport::*;\n" + txt + "}\n")
    return lines
