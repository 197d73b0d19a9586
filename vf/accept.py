"""C22: definitions the macros must reject, and definitions they must accept."""
import copy, random
import corpus
from model import Def, Field as F, tybits

INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]
ATTR = "use crate::prelude::*;\n"


def pad(n):
    """reserved fields covering n bits"""
    o, i = [], 0
    while n > 0:
        w = min(n, 128)
        o.append("#[bits(%d)] _p%d: u128," % (w, i))
        n -= w
        i += 1
    return " ".join(o)


def bf(storage, body, args="", name="T", vis="pub "):
    return ATTR + "#[bitfield(%s%s)]\n%sstruct %s { %s }" % (storage, ", " + args if args else "", vis, name, body)


def with_field(field, w, storage=None, args=""):
    """a definition holding the one field of width w and padding; storage big enough"""
    if storage is None:
        storage = next(s for s in ("u8", "u16", "u32", "u64", "u128") if int(s[1:]) >= w)
    n = int(storage[1:]) if storage[0] == "u" else 8 * int(storage[1:-1].split(";")[1])
    assert n >= w
    return bf(storage, "%s %s" % (field, pad(n - w)), args)


def lit(r, v, ty=None):
    """a literal for v in one of the notations"""
    a = abs(v)
    k = r.random()
    t = str(a) if k < 0.4 else hex(a) if k < 0.6 else "0x%X" % a if k < 0.7 else bin(a) if k < 0.85 else "0o%o" % a
    if k > 0.93 and len(t) > 4:
        t = t[:3] + "_" + t[3:]
    return ("-" if v < 0 else "") + t


ACC = ["", ", access = rw", ", access = ro", ", access = wo", ", access = na"]


def storages_for(r, w):
    s = [x for x in ("u8", "u16", "u32", "u64", "u128") if int(x[1:]) >= w]
    a = "[u8; %d]" % r.choice([k for k in range(1, 21) if 8 * k >= w])
    return r.choice(s + [a]) if s else a


def invalid(tier, seed):
    """[(rule, source)]"""
    r = random.Random("c22i-%d" % seed)
    o = []
    q = tier == "quick"
    # -- widths that do not add up ----------------------------------------
    n = 60 if q else 400
    k = 0
    while n:
        d = corpus.rnd_def(r, "x", customs=True)
        k += 1
        if d is None:
            continue
        d = copy.deepcopy(d)
        fs = [f for f in d.fields]
        f = r.choice(fs)
        delta = r.choice([-1, 1, -1, 1, -2, 2, -8, 8])
        full = tybits(f.ty)
        w = f.w + delta
        if w < 1 or (full and w > full):
            continue
        if f.kind == "custom" or f.default is not None:
            continue
        f.bits = w
        o.append(("the widths add up to %+d bits of the storage" % delta, ATTR + d.src()))
        n -= 1
    for st, N in (("u8", 8), ("u16", 16), ("u64", 64), ("u128", 128), ("[u8; 1]", 8), ("[u8; 3]", 24), ("[u8; 17]", 136)):
        for order in ("lsb", "msb"):
            for nb in (N - 1, N + 1, N + 8, 2 * N):
                if nb < 1:
                    continue
                o.append(("%d bits of fields in %d bits of storage" % (nb, N), bf(st, "pub a: bool, " + pad(nb - 1), "order = " + order)))
            o.append(("ignored members do not count as bits", bf(st, "#[bits(ignore = true)] pub x: u8, pub a: bool, " + pad(N - 9 if N > 8 else 0) + (
                " " if N > 8 else ""), "order = " + order)))
    for st in ("u8", "[u8; 2]"):
        o.append(("no field at all", bf(st, "")))
        o.append(("only ignored members", bf(st, "#[bits(ignore = true)] pub x: u8")))
    # -- zero width, too wide ----------------------------------------------
    for ty in INTS + ["bool", "[u8; 1]", "[u8; 2]", "E2"]:
        for st in ("u16", "[u8; 2]"):
            acc = r.choice(ACC)
            o.append(("zero width (%s)" % ty, bf(st, "#[bits(0%s)] pub z: %s, #[bits(16)] pub r: u16" % (acc, ty))))
    for ty in INTS + ["bool", "[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 16]"]:
        full = tybits(ty)
        for w in {full + 1, full + 7, 2 * full}:
            for nm in ("a", "_a"):
                if w <= 128 and r.random() < 0.8:
                    o.append(("%s cannot hold %d bits" % (ty, w), with_field("#[bits(%d)] %s: %s," % (w, nm, ty), w)))
                st = "[u8; %d]" % ((w + 7) // 8 + r.randint(0, 2))
                o.append(("%s cannot hold %d bits" % (ty, w), with_field("#[bits(%d)] %s: %s," % (w, nm, ty), w, st)))
    # -- literal defaults that do not fit ------------------------------------
    for ty in INTS:
        full = int(ty[1:])
        ws = {1, 2, full - 1, full} | {r.randint(1, full) for _ in range(2 if q else 12)}
        for w in sorted(ws):
            if ty[0] == "u":
                vs = [1 << w, (1 << w) + r.randint(0, 1 << w), -1, -(1 << (w - 1))]
            else:
                vs = [1 << w, (1 << w) + r.randint(0, 1 << w), -(1 << (w - 1)) - 1, -(1 << w), -((1 << 128) - 1)]
            for v in vs:
                if abs(v) >= 1 << 128 or (w == 128 and v > 0):
                    continue
                st = storages_for(r, w)
                acc = r.choice(ACC)
                res = r.random() < 0.2
                fld = "#[bits(%d, default = %s%s)] %s: %s," % (w, lit(r, v), "" if res else acc, "_a" if res else "pub a", ty)
                o.append(("default %d does not fit %d bits of %s" % (v, w, ty), with_field(fld, w, st, r.choice(["", "order = msb"]))))
    o.append(("default does not fit the field type", bf("u8", "#[bits(default = 256)] pub a: u8")))
    o.append(("default does not fit the field type", bf("u16", "#[bits(default = -129)] pub a: i8, pub b: u8")))
    o.append(("default below the i128 minimum", bf("u128", "#[bits(128, default = -170141183460469231731687303715884105729)] pub a: i128")))
    o.append(("default below the i128 minimum", bf("[u8; 17]", "#[bits(128, default = -170141183460469231731687303715884105729)] pub a: i128, pub b: u8")))
    o.append(("default does not fit", bf("u8", "#[bits(1, default = 2)] pub a: bool, #[bits(7)] pub b: u8")))
    for t in ("1.5", "2.0", "1f32", "1.0f64"):
        o.append(("float default", bf("u8", "#[bits(8, default = %s)] pub a: u8" % t)))
    # -- reserved with access ------------------------------------------------
    for acc in ("rw", "ro", "wo", "na"):
        for st in ("u8", "[u8; 1]"):
            o.append(("reserved field with access " + acc, bf(st, "pub a: bool, #[bits(7, access = %s)] _r: u8" % acc)))
            o.append(("reserved field with access " + acc, bf(st, "#[bits(7, default = 3, access = %s)] _r: u8, pub a: bool" % acc)))
    # -- names ------------------------------------------------------------
    for st in ("u16", "[u8; 2]"):
        o.append(("duplicate field name", bf(st, "pub a: u8, pub a: u8")))
        o.append(("duplicate field name", bf(st, "#[bits(4)] pub a: u8, pub b: u8, #[bits(4, access = na)] pub a: u8")))
        o.append(("ignored member repeats a field name", bf(st, "pub a: u8, #[bits(ignore = true)] pub a: u8, pub b: u8")))
        o.append(("ignored member repeated", bf(st, "pub a: u16, #[bits(ignore = true)] pub x: u8, #[bits(ignore = true)] pub x: u8")))
    # -- types -------------------------------------------------------------
    for ty in ("usize", "isize", "f32", "f64", "char", "&'static u8", "(u8, u8)", "[u16; 1]", "[i8; 1]", "[bool; 8]", "[u8; 0]", "[[u8; 1]; 1]",
               "*const u8", "fn()", "()", "str", "[u8]"):
        for st in ("u8", "[u8; 1]"):
            for nm in ("pub a", "_a"):
                o.append(("unsupported field type " + ty, bf(st, "#[bits(8)] %s: %s" % (nm, ty))))
    for st in ("u16", "[u8; 2]"):
        o.append(("custom type without a width", bf(st, "pub e: E2, #[bits(14)] pub r: u16")))
        o.append(("custom type without a width", bf(st, "#[bits(default = E2::A)] pub e: E2, #[bits(14)] pub r: u16")))
    for st, body in (("i8", "pub a: u8"), ("i128", "pub a: u128"), ("usize", "pub a: u64"), ("isize", "pub a: u64"), ("f32", "pub a: u32"), ("f64", "pub a: u64"),
                     ("bool", "pub a: bool"), ("E2", "#[bits(8)] pub a: u8"), ("[u16; 2]", "pub a: u32"), ("[i8; 2]", "pub a: u16"), ("[u8; 0]", "pub a: u8"),
                     ("[u8; 0]", ""), ("(u8, u8)", "pub a: u16"), ("&u8", "pub a: u8"), ("8", "pub a: u8"), ("order = lsb", "pub a: u8"), ("[bool; 8]", "pub a: u8"),
                     ("char", "pub a: u32"), ("", "pub a: u8")):
        o.append(("unsupported storage '%s'" % st, bf(st, body)))
    o.append(("no storage", ATTR + "#[bitfield]\npub struct T { pub a: u8 }"))
    # -- arguments ------------------------------------------------------------
    for a in ("order = foo", "from_endian = middle", "into_endian = be", "write_endian = 3", "new = yes", "debug = 1", "builder = maybe", "unknown = true",
              "orders = lsb", "bit_ops = on", "order", "order =", "copy = no", "default = 2", "array_heap = 7", "= lsb"):
        o.append(("bad argument '%s'" % a, bf("u8", "pub a: u8", a)))
    for a in ("8, access = xx", "8, acces = ro", "8, ignore = 1", "8, default", "8, default =", "-8", "8u8", "8.0", "\"8\"", "99999999999", "8, width = 3"):
        o.append(("bad bits argument '%s'" % a, bf("u8", "#[bits(%s)] pub a: u8" % a)))
    o.append(("bits attribute without a list", bf("u8", "#[bits] pub a: u8")))
    o.append(("bits attribute without a list", bf("u8", "#[bits = 8] pub a: u8")))
    # -- shape -----------------------------------------------------------------
    o.append(("tuple struct", ATTR + "#[bitfield(u8)]\npub struct T(u8);"))
    o.append(("unit struct", ATTR + "#[bitfield(u8)]\npub struct T;"))
    o.append(("enum", ATTR + "#[bitfield(u8)]\npub enum T { A }"))
    o.append(("function", ATTR + "#[bitfield(u8)]\npub fn t() {}"))
    # -- bitflags --------------------------------------------------------------
    fl = lambda a, body, pre="": ATTR + "#[bitflag(%s)]\n%spub enum Fg { %s }" % (a, pre, body)
    o += [("bitflag without base or default", fl("u8", "A = 1, B = 2")),
          ("bitflag with two bases", fl("u8", "#[base] A = 1, #[base] B = 2")),
          ("bitflag variant without value", fl("u8", "#[base] A = 1, B")),
          ("bitflag variant without value", fl("u8", "#[base] A, B = 2")),
          ("bitflag value beyond its type", fl("u8", "#[base] A = 1, B = 256")),
          ("bitflag value beyond its type", fl("u16", "#[base] A = 1, B = 0x1_0000")),
          ("bitflag negative value", fl("u8", "#[base] A = 1, B = -1")),
          ("bitflag duplicate value", fl("u8", "#[base] A = 1, B = 1")),
          ("bitflag float value", fl("u8", "#[base] A = 1, B = 2.0")),
          ("bitflag on a struct", ATTR + "#[bitflag(u8)]\npub struct Fg { a: u8 }"),
          ("bitflag unknown argument", fl("u8, order = lsb", "#[base] A = 1")),
          ("bitflag bad endian", fl("u8, from_endian = middle", "#[base] A = 1")),
          ("bitflag bad copy", fl("u8, copy = maybe", "#[base] A = 1")),
          ("bitflag no storage", ATTR + "#[bitflag]\npub enum Fg { #[base] A = 1 }")]
    for st in ("i8", "i32", "usize", "isize", "f32", "bool", "E2", "[u8; 1]", "(u8)x", "8"):
        o.append(("bitflag storage " + st, fl(st, "#[base] A = 1, B = 0")))
    return [("r%d" % i, a, b) for i, (a, b) in enumerate(o)]


def valid(tier, seed):
    r = random.Random("c22v-%d" % seed)
    o = []
    q = tier == "quick"
    for d in corpus.hand():
        o.append(("hand-written definition", ATTR + d.src()))
    n = 120 if q else 900
    while n:
        d = corpus.rnd_def(r, "x")
        if d is None:
            continue
        o.append(("widths add up", ATTR + d.src()))
        n -= 1
    # literal defaults at the limits
    for ty in INTS:
        full = int(ty[1:])
        ws = {1, 2, full - 1, full} | {r.randint(1, full) for _ in range(2 if q else 12)}
        for w in sorted(ws):
            if ty[0] == "u":
                vs = [(1 << w) - 1, 0, 1]
            else:
                vs = [(1 << (w - 1)) - 1, -(1 << (w - 1)), 0, -1]
                if w < full:
                    vs.append((1 << w) - 1)      # a bit pattern
            for v in vs:
                st = storages_for(r, w)
                acc = r.choice(ACC)
                res = r.random() < 0.2
                fld = "#[bits(%d, default = %s%s)] %s: %s," % (w, lit(r, v), "" if res else acc, "_a" if res else "pub a", ty)
                if res and w == (int(st[1:]) if st[0] == "u" else 8 * int(st[1:-1].split(";")[1])):
                    continue
                o.append(("default %d fits %d bits of %s" % (v, w, ty), with_field(fld, w, st, r.choice(["", "order = msb"]))))
    for st in ("u16", "[u8; 2]"):
        o += [("repeated reserved names", bf(st, "#[bits(3)] _: u8, pub a: u8, #[bits(5)] _: u8")) if False else
              ("repeated reserved names", bf(st, "#[bits(3)] __: u8, pub a: u8, #[bits(5)] __: u8")),
              ("raw identifiers", bf(st, "pub r#type: u8, #[bits(3)] pub r#fn: u8, #[bits(5, access = ro)] r#match: u8")),
              ("no bits attribute", bf(st, "pub a: u8, b: i8")),
              ("empty bits attribute", bf(st, "#[bits()] pub a: u8, b: i8")),
              ("trailing commas", bf(st, "#[bits(8,)] pub a: u8, #[bits(8, default = 3,)] b: u8,", "order = msb,")),
              ("ignored members of any type", bf(st, "pub a: u8, #[bits(ignore = true)] pub x: usize, pub b: u8, #[bits(ignore = true)] y: (u8, u16), "
                                                 "#[bits(ignore = true)] z: [u16; 3], #[bits(ignore = true)] o: Option<u8>", "")),
              ("float ignored member", bf(st, "pub a: u16, #[bits(ignore = true)] pub x: f32")),
              ("ignore = false", bf(st, "#[bits(8, ignore = false)] pub a: u8, b: i8")),
              ("restricted visibility", bf(st, "pub(crate) a: u8, pub(super) b: u8", vis="pub(crate) ")),
              ("restricted visibility with a path", bf(st, "pub(in crate) a: u8, b: u8", vis="pub ")),
              ("doc comments and attributes", ATTR + "/// doc\n#[bitfield(%s)]\n#[derive(PartialEq, Eq)]\npub struct T { /// a\n #[bits(8)] pub a: u8, /// b\n b: u8 }" % st),
              ("constant named like a float suffix", ATTR + "pub const BUF32: u8 = 3;\n#[bitfield(%s)]\npub struct T { #[bits(8, default = BUF32)] pub a: u8, b: u8 }" % st),
              ("hex digits like a float suffix", bf(st, "#[bits(16, default = -0xF32)] pub a: i16")),
              ("hex digits like a float suffix", bf(st, "#[bits(16, default = 0xF32)] pub a: u16")),
              ("suffixed literal", bf(st, "#[bits(6, default = 0x2Au8)] pub a: u8, #[bits(10, default = 7u16)] b: u16")),
              ("const expression", bf(st, "#[bits(8, default = 0x1 << 3)] pub a: u8, #[bits(8, default = 1 + 2)] b: u8")),
              ("const path and function", bf(st, "#[bits(8, default = u8::MAX)] pub a: u8, #[bits(8, default = f_u8())] b: u8")),
              ("constant named like a number", ATTR + "pub const _300: u8 = 3;\n#[bitfield(%s)]\npub struct T { #[bits(8, default = _300)] pub a: u8, b: u8 }" % st),
              ("constant named like a boolean", ATTR + "pub const TRUE: u8 = 200;\n#[bitfield(%s)]\npub struct T { #[bits(8, default = TRUE)] pub a: u8, b: u8 }" % st),
              ("method call on a literal", bf(st, "#[bits(8, default = 2u8.pow(3))] pub a: u8, b: u8")),
              ("byte literal", bf(st, "#[bits(8, default = b'A')] pub a: u8, b: u8")),
              ("bool defaults", bf(st, "#[bits(1, default = true)] pub a: bool, #[bits(default = false)] pub c: bool, #[bits(14)] b: u16")),
              ("custom type as wide as its width", bf(st, "#[bits(2)] pub a: E2, #[bits(14)] b: u16")),
              ("custom type wider than needed", bf(st, "#[bits(8)] pub a: E2, #[bits(8)] b: u16")),
              ("array field narrower than the array", bf(st, "#[bits(9)] pub a: [u8; 2], #[bits(7)] b: u16")),
              ("all arguments", bf(st, "pub a: u16", "order = msb, from_endian = little, into_endian = big, write_endian = little, new = true, from_into_bits = true, "
                                   "from_traits = true, default = true, debug = true, copy = true, bit_ops = true, builder = true")),
              ("upper-case argument values", bf(st, "#[bits(16, access = RO)] pub a: u16", "order = MSB"))]
    o.append(("i128 minimum", bf("u128", "#[bits(128, default = -170141183460469231731687303715884105728)] pub a: i128")))
    o.append(("heap array", bf("[u8; 3]", "pub a: u8, pub b: u16", "array_heap = true")))
    o.append(("heap argument on an integer has no effect", bf("u8", "pub a: u8", "array_heap = true")))
    fl = lambda a, body, pre="": ATTR + "#[bitflag(%s)]\n%spub enum Fg { %s }" % (a, pre, body)
    for st in ("u8", "u16", "u32", "u64", "u128"):
        m = (1 << int(st[1:])) - 1
        o += [("bitflag", fl(st, "#[base] A = 1, B = 0b10, C = 0x%X" % m)),
              ("bitflag with default", fl(st, "#[default] A = 1, B = 0o10", "#[derive(Default)]\n")),
              ("bitflag with both", fl(st + ", from_endian = little, copy = false", "#[base] A = 1, #[default] B = 2, C = 0", "#[derive(Default, Debug)]\n")),
              ("bitflag with one variant", fl(st, "#[base] A = 0"))]
    return [("v%d" % i, a, b) for i, (a, b) in enumerate(o)]
