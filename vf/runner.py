"""Turns definitions and contracts into a harness crate."""
import os, shutil
from dataclasses import dataclass, field as dfield
from typing import List, Tuple
from model import Def
from contracts import C

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


@dataclass
class Unit:
    """one module of the harness crate"""
    id: str
    text: str                                  # module body (without `pub mod`)
    harnesses: List[Tuple[str, int, list]]     # (name, unwind, functions under contract)
    definition: str = ""                       # what the user would write, for reports
    clauses: int = 0


def helpers(d: Def, T="T", sfx=""):
    """abstraction function vw, havoc mk, builder access; independent of the generated API
    (direct mode reads the private storage, repr mode transmutes it)"""
    V, N = d.V, d.nbytes
    o = []
    igt = "(" + "".join(t + ", " for (_n, t, _x) in d.ignored) + ")"
    o.append("fn ig%s(s: &%s) -> %s { %s (%s) }" % (
        sfx, T, igt, "" if d.ignored else "let _ = s;", "".join("s.%s, " % n for (n, _t, _x) in d.ignored)))
    acc = "s.val" if d.ignored else "s.0"
    if not d.arr:
        conv = lambda x: "<%s as View>::from128((%s) as u128)" % (V, x)
    else:
        conv = lambda x: "le::<%s, %d>(%s%s)" % (V, N, "*" if d.heap else "", x)
    o.append("#[cfg(not(repr_api))] fn vw%s(s: &%s) -> %s { %s }" % (sfx, T, V, conv(acc)))
    if not d.ignored:
        st = "Box<%s>" % d.storage if d.heap else d.storage
        tc = "core::mem::ManuallyDrop::new(unsafe { core::mem::transmute_copy::<%s, %s>(s) })" % (T, st)
        o.append("#[cfg(repr_api)] fn vw%s(s: &%s) -> %s { let r_ = %s; %s }" % (
            sfx, T, V, tc, conv("*r_")))
    elif d.arr:
        o.append("#[cfg(repr_api)] fn vw%s(s: &%s) -> %s { le::<%s, %d>(s.into_le_bytes()) }" % (sfx, T, V, V, N))
    else:
        o.append("#[cfg(repr_api)] fn vw%s(s: &%s) -> %s { <%s as View>::from128(unsafe { core::ptr::read(s) }.into_be_bits() as u128) }" % (sfx, T, V, V))
    raw = "Box::new(x_)" if d.heap else "x_"
    inv = ""
    c = C(d, "")
    for f in d.fields:
        if f.kind == "custom" and not f.setter:
            g = c.g("v_", f)
            n = c.norm(f, g)
            if n != g:
                inv += " assume(%s == %s);" % (g, n)
    inv = (" let v_ = vw%s(&s);" % sfx + inv) if inv else ""
    args = "x_: %s" % d.storage + "".join(", g%d: %s" % (i, t) for i, (_n, t, _x) in enumerate(d.ignored))
    if d.ignored:
        mk = "%s { val: %s, %s }" % (T, raw, ", ".join("%s: g%d" % (n, i) for i, (n, _t, _x) in enumerate(d.ignored)))
        mka = "let mut s = %s::%s(x_); %s" % (T, "from_le_bytes" if d.arr else "from_be_bits",
                                              "".join(" s.%s = g%d;" % (n, i) for i, (n, _t, _x) in enumerate(d.ignored)))
    else:
        mk = "%s(%s)" % (T, raw)
        mka = "let s = unsafe { core::mem::transmute::<%s, %s>(%s) };" % ("Box<%s>" % d.storage if d.heap else d.storage, T, raw)
    o.append("#[cfg(not(repr_api))] fn at%s(%s) -> %s { let s = %s;%s s }" % (sfx, args, T, mk, inv))
    o.append("#[cfg(repr_api)] fn at%s(%s) -> %s { %s %s s }" % (sfx, args, T, mka, inv))
    o.append("fn mk%s() -> %s { at%s(nd()%s) }" % (sfx, T, sfx, ", nd()" * len(d.ignored)))
    if d.has("builder"):
        B = T + "Builder"
        o.append("#[cfg(not(repr_api))] fn mkb%s() -> %s { %s { this: mk%s() } }" % (sfx, B, B, sfx))
        o.append("#[cfg(not(repr_api))] fn vb%s(b: &%s) -> %s { vw%s(&b.this) }" % (sfx, B, V, sfx))
        o.append("#[cfg(not(repr_api))] fn igb%s(b: &%s) -> %s { ig%s(&b.this) }" % (sfx, B, igt, sfx))
        o.append("#[cfg(repr_api)] fn mkb%s() -> %s { unsafe { core::mem::transmute::<%s, %s>(mk%s()) } }" % (sfx, B, T, B, sfx))
        o.append("#[cfg(repr_api)] fn vb%s(b: &%s) -> %s { vw%s(unsafe { &*(b as *const %s as *const %s) }) }" % (sfx, B, V, sfx, B, T))
        o.append("#[cfg(repr_api)] fn igb%s(b: &%s) -> %s { ig%s(unsafe { &*(b as *const %s as *const %s) }) }" % (sfx, B, igt, sfx, B, T))
    return "\n".join(o)


def harness_src(name, uw, codes):
    return ("#[cfg_attr(kani, kani::proof)]%s\npub fn %s() {\n%s\n  reached!();\n}" % (
        " #[cfg_attr(kani, kani::unwind(%d))]" % uw if uw else "", name, "\n".join("  " + c for c in codes)))


def plan(blks, limit=6.0):
    """group the blocks of one definition into harnesses"""
    out, cur, w, uw = [], [], 0.0, None
    for b in blks:
        if cur and (w + b.weight > limit or b.unwind != uw):
            out.append((uw, cur))
            cur, w = [], 0.0
        cur.append(b)
        w += b.weight
        uw = b.unwind
    if cur:
        out.append((uw, cur))
    return out


def unit_of(d: Def, blks, limit=6.0):
    hs, o = [], ["use crate::prelude::*;", d.src(), helpers(d)]
    cl = 0
    for i, (uw, bs) in enumerate(plan(blks, limit)):
        n = "h%d" % i
        o.append(harness_src(n, uw, [b.code for b in bs]))
        hs.append((n, uw, sorted(set(b.fn for b in bs))))
        cl += sum(b.code.count("ensures!(") for b in bs)
    return Unit(d.id, "\n".join(o), hs, d.src(), cl)


def write_crate(path, units, extra="", features=None, dep=None, name="vh"):
    """returns {unit id: (first line, last line)} of src/lib.rs"""
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path + "/src")
    shutil.copy(REPO + "/Cargo.lock", path + "/Cargo.lock")
    with open(path + "/Cargo.toml", "w") as f:
        f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n'
                '[[bin]]\nname = "replay"\npath = "src/main.rs"\n'
                '[dependencies]\nbitfields = { %s%s }\n[workspace]\n'
                '[lints.rust]\nunexpected_cfgs = "allow"\nunused = "allow"\n[profile.dev]\ndebug = false\nopt-level = 0\nincremental = false\n' % (name, dep or 'path = "%s/bitfields"' % REPO, features or ""))
    S = VERIF + "/spec/"
    text = ("#![allow(warnings)]\n#[macro_use]\n#[path = \"%snd.rs\"] pub mod nd;\n#[path = \"%sspec.rs\"] pub mod spec;\n"
            "#[path = \"%sprelude.rs\"] pub mod prelude;\n%s\n" % (S, S, S, extra))
    lines = {}
    for u in units:
        a = text.count("\n") + 1
        text += "pub mod %s {\n%s\n}\n" % (u.id, u.text)
        lines[u.id] = (a, text.count("\n"))
    text += "pub const HARNESSES: &[(&str, fn())] = &[\n%s];\n" % "".join(
        '("%s::%s", %s::%s),\n' % (u.id, h[0], u.id, h[0]) for u in units for h in u.harnesses)
    open(path + "/src/lib.rs", "w").write(text)
    open(path + "/src/main.rs", "w").write(MAIN)
    return lines


MAIN = r'''
#[cfg(not(kani))]
fn main() {
    use vh::nd::native::*;
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    // replay: <harness> <hex bytes>;   fuzz: fuzz <iterations> <seed> [harness or prefix]
    let run = |f: fn()| -> Vec<String> {
        FAILED.with(|x| x.borrow_mut().clear());
        let r = std::panic::catch_unwind(f);
        let mut v = FAILED.with(|x| x.borrow().clone());
        if let Err(e) = r {
            if e.downcast_ref::<AssumeFailed>().is_none() {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                v.push(format!("panic: {m}"));
            }
        }
        v
    };
    if a[1] == "fuzz" {
        let n: u64 = a[2].parse().unwrap();
        let seed: u64 = a[3].parse().unwrap();
        let mut seen = std::collections::BTreeSet::new();
        for (name, f) in vh::HARNESSES {
            if a.len() > 4 && !(name == &a[4] || (a[4].ends_with("::") && name.starts_with(&a[4]))) { continue; }
            for k in 0..n {
                let s = (seed * 1000003 + k + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                FEED.with(|x| *x.borrow_mut() = Feed::Rng(s, 0));
                LOG.with(|x| x.borrow_mut().clear());
                for m in run(*f) { if seen.insert(format!("{name} {m}")) {
                    let hex: String = LOG.with(|x| x.borrow().iter().map(|b| format!("{b:02x}")).collect());
                    println!("FAIL {name} {hex} {m}");
                } }
            }
        }
        println!("fuzz done, {} failures", seen.len());
        std::process::exit(if seen.is_empty() { 0 } else { 1 });
    }
    let hex = &a[2];
    let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    for (name, f) in vh::HARNESSES {
        if *name == a[1] {
            FEED.with(|x| *x.borrow_mut() = Feed::Rec(b.clone(), 0));
            let v = run(*f);
            for m in &v { println!("FAILED {m}"); }
            std::process::exit(if v.is_empty() { 0 } else { 1 });
        }
    }
    eprintln!("no such harness");
    std::process::exit(2);
}
#[cfg(kani)]
fn main() {}
'''


def pair_unit(uid, da, db, blks, limit=16.0):
    hs, o = [], ["use crate::prelude::*;", da.src("A"), db.src("B"), helpers(da, "A", "_a"), helpers(db, "B", "_b")]
    cl = 0
    for i, (uw, bs) in enumerate(plan(blks, limit)):
        n = "h%d" % i
        o.append(harness_src(n, uw, [b.code for b in bs]))
        hs.append((n, uw, sorted(set(b.fn for b in bs))))
        cl += sum(b.code.count("ensures!(") for b in bs)
    return Unit(uid, "\n".join(o), hs, da.src("A") + "\n" + db.src("B"), cl)
