"""C22-C25: what the macros accept, what they generate, what Debug prints."""
import copy, random
import corpus, model
from model import Def, Field as F
from runner import Unit, helpers

# ---------------------------------------------------------------------------
# presence probes.  `T::f` resolves to the inherent item when it exists and is
# visible, and to the blanket trait otherwise; the type name tells which.
HERE = """fn here<F>(_: F) -> bool { !core::any::type_name::<F>().contains("probe_::") }"""
TRAITS = {
    "Default": "Default", "Debug": "core::fmt::Debug", "Clone": "Clone", "Copy": "Copy",
}


def impls(ty, bound):
    return ("{ trait No_ { const HAS: bool = false; } struct W_<X>(core::marker::PhantomData<X>); impl<X> No_ for W_<X> {} "
            "#[allow(dead_code)] impl<X: %s> W_<X> { const HAS: bool = true; } <W_<%s>>::HAS }" % (bound, ty))


def field_items(d, f):
    """[(owner, name, const?, exists, visible outside)]"""
    u = f.name.upper()
    inv, clr = d.has("invert_bit_ops"), d.has("clear_bit_ops")
    # visible from the parent module; None where nothing is promised (the documentation leaves fields without access open)
    fv = None if f.acc == "na" else f.vis in ("pub", "pub(crate)", "pub(super)", "")
    o = [("T", f.name, False, f.getter, fv),
         ("T", "set_" + f.name, False, f.setter, fv),
         ("T", "checked_set_" + f.name, False, f.setter, fv),
         ("T", u + "_OFFSET", True, f.consts, fv),
         ("T", u + "_BITS", True, f.consts, fv),
         ("T", "clear_" + f.name, False, f.setter and clr, True),
         ("T", "clear_%s_to_default" % f.name, False, f.setter and clr and f.default is not None, True),
         ("T", "invert_" + f.name, False, f.setter and inv, True),
         ("T", f.name + "_inverted", False, f.getter and inv, True)]
    if d.has("builder"):
        o += [("TBuilder", "with_" + f.name, False, not f.reserved, fv),
              ("TBuilder", "checked_with_" + f.name, False, not f.reserved, fv)]
    return o


def group_items(d):
    b = d.bob
    g = {"new": ["new", "new_without_defaults"],
         "from_into_bits": ["from_" + b, "from_le_" + b, "from_be_" + b, "from_%s_with_defaults" % b, "from_le_%s_with_defaults" % b,
                            "from_be_%s_with_defaults" % b, "into_" + b, "into_le_" + b, "into_be_" + b],
         "write_bit_ops": ["write_" + b, "write_le_" + b, "write_be_" + b, "write_%s_with_defaults" % b, "write_le_%s_with_defaults" % b,
                           "write_be_%s_with_defaults" % b, "write_defaults"],
         "set_get_bit_ops": ["set_bit", "checked_set_bit", "get_bit", "checked_get_bit", "set_%s_range" % b, "checked_set_%s_range" % b,
                             "get_%s_range" % b, "checked_get_%s_range" % b],
         "clear_bit_ops": ["clear_" + b, "clear_%s_with_defaults" % b],
         "invert_bit_ops": ["invert_" + b]}
    if d.arr:
        for e in ("", "_le", "_be"):
            g["from_into_bits"] += ["from%s_slice" % e, "from%s_slice_with_defaults" % e, "checked_from%s_slice" % e,
                                    "checked_from%s_slice_with_defaults" % e, "into%s_slice" % e, "checked_into%s_slice" % e]
    out = []
    for k, fs in g.items():
        for f in fs:
            out.append(("T", f, False, d.has(k), True))
    return out


def trait_items(d):
    s = d.storage
    return [("Default", impls("T", "Default"), d.has("default")), ("Debug", impls("T", "core::fmt::Debug"), d.has("debug")),
            ("Clone", impls("T", "Clone"), d.copyable()), ("Copy", impls("T", "Copy"), d.copyable() and not d.heap),
            ("From<%s>" % s, impls("T", "From<%s>" % s), d.has("from_traits")),
            ("From<T>", impls(s, "From<super::d::T>"), d.has("from_traits"))]


def probe_unit(prop, d, items, traits=(), builder=None, macro_path=None):
    tr = ""
    seen = set()
    for (ow, n, const, _e, _v) in items:
        if n in seen:
            continue
        seen.add(n)
        tr += "const %s: Absent = Absent; " % n if const else "fn %s() -> Absent { Absent } " % n
    ins, outs = "", ""
    for (ow, n, const, ex, vis) in items:
        lab = "%s|%s|%s::%s|%s" % (prop, d.id, ow, n, "exists" if ex else "does not exist")
        t = 'ensures!(here(%s::%s) == %s, "%s"); ' % (ow, n, "true" if ex else "false", lab)
        ins += t
        if vis is not None and d.vis in ("pub", "pub(crate)"):
            outs += 'ensures!(here(d::%s::%s) == %s, "%s|%s|%s::%s|%s from another module"); ' % (
                ow, n, "true" if ex and vis else "false", prop, d.id, ow, n, "visible" if ex and vis else "not visible" if ex else "does not exist")
    for (n, ex, e) in traits:
        ins += 'ensures!(%s == %s, "%s|%s|impl %s|%s"); ' % (ex, "true" if e else "false", prop, d.id, n, "exists" if e else "does not exist")
    if builder is not None:
        ins += 'ensures!(!core::any::type_name::<TBuilder>().contains("probe_::") == %s, "%s|%s|TBuilder|%s"); ' % (
            "true" if builder else "false", prop, d.id, "exists" if builder else "does not exist")
    text = ("pub mod probe_ { pub struct Absent; pub trait P { %s } impl<X> P for X {} pub struct TBuilder; pub struct FgBuilder; }\n%s\n"
            "pub mod d { use crate::prelude::*;\n%s\n%s\npub fn inside() { #[allow(unused_imports)] use super::probe_::P as _; #[allow(unused_imports)] use super::here; %s } }\n"
            "pub fn h0() { d::inside(); { use probe_::P as _; %s } }" % (
                tr, HERE, "use super::probe_glob_::*;" if builder is not None else "", d.src(), ins, outs))
    if builder is not None:
        text = "pub mod probe_glob_ { pub use super::probe_::TBuilder; }\n" + text
    return Unit(d.id, text, [("h0", 0, [n for (_o, n, _c, _e, _v) in items])], d.src(), text.count("ensures!("))


def c23_units(tier, seed):
    ds = [d for d in corpus.hand()]
    for d in ds:
        d.vis = "pub"
    r = random.Random("c23-%d" % seed)
    n = 110 if tier == "quick" else 600
    while n:
        d = corpus.rnd_def(r, "v%d" % n)
        if d is None:
            continue
        d.vis = r.choice(["pub", "pub", "pub(crate)"])
        for f in d.fields:
            if not f.reserved and r.random() < 0.5:
                f.vis = r.choice(["pub(self)", "pub(super)", "pub(crate)", ""])
        ds.append(d)
        n -= 1
    out = []
    for d in ds:
        items = []
        for f in d.fields:
            items += field_items(d, f)
        # a name met twice (e.g. field `bit` against set_bit) would be ambiguous
        names = [(o, n) for (o, n, _c, _e, _v) in items]
        items = [i for i in items if names.count((i[0], i[1])) == 1]
        out.append(probe_unit("C23", d, items))
    return out


ARGS = ["new", "from_into_bits", "from_traits", "default", "debug", "copy", "builder", "bit_ops", "write_bit_ops", "set_get_bit_ops",
        "clear_bit_ops", "invert_bit_ops"]


def arg_def(did, st, a, heap=False, ign=False, order=None):
    """a = {argument: True / False}; copy handled apart"""
    big = st[0] == "["
    fs = [F("a", "u8", 3, default="5"), F("b", "i8", 5, "ro", "-3"), F("c", "u8", 4, "wo"), F("n", "u8", 2, "na", "1"), F("_r", "u8", 2, default="2")]
    N = 8 * int(st[1:-1].split(";")[1]) if big else int(st[1:])
    if N > 16:
        fs.append(F("t", "u128" if N - 16 <= 128 else "u8", N - 16))
    return Def(did, st, fs, order=order, heap=heap, ignored=[("p", "u32", "0u32")] if ign else [], copy=a.get("copy"),
               args=["%s = %s" % (k, "true" if v else "false") for k, v in a.items() if k != "copy"])


def c24_sets(tier, seed):
    r = random.Random("c24-%d" % seed)
    sets = [{}]
    for k in ARGS:
        sets += [{k: True}, {k: False}]
    G = ["write_bit_ops", "set_get_bit_ops", "clear_bit_ops", "invert_bit_ops"]
    for b in (True, False):
        for k in G:
            sets += [{"bit_ops": b, k: True}, {"bit_ops": b, k: False}]
        sets.append(dict([("bit_ops", b)] + [(k, True) for k in G]))
    sets.append({k: False for k in ARGS})
    sets.append({k: True for k in ARGS})
    for k in ARGS:
        sets.append({x: x == k for x in ARGS})
        sets.append({x: x != k for x in ARGS})
    for _ in range(40 if tier == "quick" else 600):
        s = {}
        ks = list(ARGS)
        r.shuffle(ks)
        for k in ks:
            v = r.choice([None, True, False])
            if v is not None:
                s[k] = v
        sets.append(s)
    return sets


def presence(prop, d):
    items = group_items(d)
    for f in d.fields:
        items += [x for x in field_items(d, f) if x[0] == "T"] + ([x for x in field_items(d, f) if x[0] == "TBuilder"] if d.has("builder") else [])
    if d.has("builder"):
        items += [("TBuilder", "new", False, True, True), ("TBuilder", "new_without_defaults", False, True, True), ("TBuilder", "build", False, True, True)]
    return probe_unit(prop, d, items, trait_items(d), builder=d.has("builder"))


def c24_units(tier, seed):
    out = []
    st = ["u16", "[u8; 2]", "u64", "[u8; 5]", "[u8; 2]", "u16"]
    for i, a in enumerate(c24_sets(tier, seed)):
        s = st[i % len(st)]
        d = arg_def("g%d" % i, s, a, heap=s[0] == "[" and i % 4 == 1, ign=i % 5 == 3)
        out.append(presence("C24", d))
    return out


# ---------------------------------------------------------------------------
def c25_units(tier, seed):
    ds = [d for d in corpus.hand() if d.has("debug")]
    r = random.Random("c25-%d" % seed)
    n = 90 if tier == "quick" else 500
    k = 0
    while n:
        d = corpus.rnd_def(r, "w%d" % k, storages=["u8", "u16", "[u8; 1]", "[u8; 2]"] if k % 3 == 0 else None)
        k += 1
        if d is None or not d.has("debug"):
            continue
        ds.append(d)
        n -= 1
    out = []
    for d in ds:
        V = d.V
        fm = ""
        for i, f in enumerate(d.fields):
            raw = "get(v, %d, %d)" % (f.off, f.w)
            sep = ", " if i else " "
            if f.kind == "array" and d.arr:
                val = 'format!("{:?}", to_le::<%s, %d>(%s))' % (V, f.K, raw)
            elif f.w <= 128:
                val = "%s.lo128().to_string()" % raw
            else:
                val = None
            fm += 'w.push_str("%s%s: "); w.push_str(&%s); ' % (sep, f.name, val)
        cond = ('fn want(v: %s) -> String { let mut w = String::from("T {"); %s w.push_str(" }"); w }\n'
                'fn pretty(v: %s) -> usize { %d }\n' % (V, fm, V, len(d.fields)))
        chk = ('let s_ = format!("{:?}", s); ensures!(s_ == want(v), "C25|%s|Debug|every field once, in order, with its raw value");' % d.id)
        body = "{ let s = mk(); let v = vw(&s); %s let q = format!(\"{:#?}\", s); ensures!(q.matches(\":\").count() >= %d, \"C25|%s|Debug|alternate form lists every field\"); }" % (
            chk, len(d.fields), d.id)
        ex = ""
        hs = [("h0", 0, ["Debug::fmt"])]
        simple = not any(f.kind == "custom" for f in d.fields)
        if d.N <= 16 and simple:
            mk = "at(x%s)" % "".join(", Default::default()" for _ in d.ignored)
            conv = "x" if not d.arr else "(x as u%d).to_le_bytes()" % d.N
            ex = ("pub fn hx() { static ONCE: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false); if ONCE.swap(true, core::sync::atomic::Ordering::Relaxed) { return; } for x in 0..%d { let x = x as u%d; let x = %s; let s = %s; let v = vw(&s); %s } }" % (
                1 << d.N, d.N, conv, mk, chk))
            hs.append(("hx", 1, ["Debug::fmt"]))
        text = "use crate::prelude::*;\n%s\n%s\n%s\npub fn h0() { %s }\n%s" % (d.src(), helpers(d), cond, body, ex)
        out.append(Unit(d.id, text, hs, d.src(), 2))
    return out
