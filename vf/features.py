"""C24: cargo features of the macro crate as defaults of the arguments."""
import copy, random
import contracts, corpus, decl, flags, runner
from model import Def, Field as F

GROUPS = ["new", "from_into_bits", "from_traits", "default", "debug", "bit_ops", "write_bit_ops", "clear_bit_ops", "set_get_bit_ops",
          "invert_bit_ops", "builder"]
DEFAULTS = ["order_lsb", "from_endian_big", "into_endian_big", "write_endian_big", "derive_copy", "bitflag_from_endian_big",
            "bitflag_into_endian_big", "bitflag_derive_copy", "disable_array_heap", "generate_toggle_bit_ops"] + ["generate_" + g for g in GROUPS]
LITTLE = ["from_endian_little", "into_endian_little", "write_endian_little", "bitflag_from_endian_little", "bitflag_into_endian_little"]
DISABLE = ["disable_" + g for g in GROUPS] + ["disable_copy", "bitflag_disable_copy", "disable_toggle_bit_ops"]


class Env:
    """what a set of features means, as documented: generate wins over disable, lsb over msb, big over little"""

    def __init__(self, S):
        S = set(S)
        en = lambda a, b: a in S or b not in S
        end = lambda p: "little" if p + "_little" in S and p + "_big" not in S else "big"
        self.groups = {g: en("generate_" + g, "disable_" + g) for g in GROUPS}
        self.copy = en("derive_copy", "disable_copy")
        self.order = "msb" if "order_msb" in S and "order_lsb" not in S else "lsb"
        self.ends = {k: end(k) for k in ("from_endian", "into_endian", "write_endian")}
        self.heap = "enable_array_heap" in S and "disable_array_heap" not in S
        self.flag = (end("bitflag_from_endian"), end("bitflag_into_endian"), en("bitflag_derive_copy", "bitflag_disable_copy"))


def adapt(d, e, r, keep=None):
    """read the definition under the feature defaults: some settings are left to the features, the others override them"""
    d = copy.deepcopy(d)
    imp = set()
    keep = keep if keep is not None else 0.6
    for k in ("order", "from_endian", "into_endian", "write_endian"):
        if r.random() < keep:
            setattr(d, k, e.order if k == "order" else e.ends[k])
            imp.add(k)
        else:
            setattr(d, k, r.choice(["lsb", "msb"] if k == "order" else ["little", "big"]))
    if d.arr and e.heap and not d.heap:
        if r.random() < 0.7:
            d.heap = True
            imp.add("heap")
    if d.copy is None:
        if not e.copy and r.random() < 0.6:
            d.copy = False
            imp.add("copy")
        elif not e.copy:
            d.copy = True
    d.env = dict(e.groups, array_heap=e.heap)
    d.implicit = frozenset(imp)
    d.__post_init__()
    return d


def sets(tier, seed):
    r = random.Random("c24f-%d" % seed)
    out = [("no features", []),
           ("everything the other way round", ["order_msb", "enable_array_heap"] + LITTLE + DISABLE),
           ("everything on both ways", DEFAULTS + ["order_msb", "enable_array_heap"] + LITTLE + DISABLE),
           ("README example", ["generate_builder", "generate_set_get_bit_ops", "order_msb", "from_endian_little", "into_endian_big"])]
    for _ in range(2 if tier == "quick" else 40):
        S = []
        for g in GROUPS:
            k = r.random()
            S += ["generate_" + g] * (k < 0.35 or k > 0.9) + ["disable_" + g] * (k > 0.6)
        if "disable_bit_ops" in S and "generate_bit_ops" not in S:
            # what generate_<group> means without bit operations is not documented
            S = [x for x in S if not (x.startswith("generate_") and x.endswith("_bit_ops"))]
        for a, b in (("order_lsb", "order_msb"), ("derive_copy", "disable_copy"), ("bitflag_derive_copy", "bitflag_disable_copy"), ("enable_array_heap", "disable_array_heap"),
                     *[(p + "_little", p + "_big") for p in ("from_endian", "into_endian", "write_endian", "bitflag_from_endian", "bitflag_into_endian")]):
            k = r.random()
            S += [a] * (k < 0.45 or k > 0.9) + [b] * (k > 0.45 and k < 0.75 or k > 0.9)
        out.append(("random", S))
    return out


def units(S, label, tier, seed):
    e = Env(S)
    r = random.Random("c24u-%s-%d" % (label, seed))
    us = []
    # which items exist
    asets = [{}, {k: True for k in decl.ARGS}, {k: False for k in decl.ARGS}, {"bit_ops": True}, {"bit_ops": False}]
    G = ["write_bit_ops", "set_get_bit_ops", "clear_bit_ops", "invert_bit_ops"]
    asets += [{k: v} for k in decl.ARGS for v in (True, False) if r.random() < 0.5]
    asets += [{"bit_ops": b, r.choice(G): True} for b in (True, False)]
    for i, a in enumerate(asets):
        st = ["u16", "[u8; 2]", "u64", "[u8; 5]"][i % 4]
        d = adapt(decl.arg_def("x%d" % i, st, a), e, r, 1.0)
        d.copy = a.get("copy") if a.get("copy") is not None else (None if e.copy else False)
        d.implicit = d.implicit | ({"copy"} if a.get("copy") is None else set())
        us.append(decl.presence("C24", d))
    # which order, endianness and storage they work with
    base = [corpus.rnd_def(r, "y%d" % i, customs=False) for i in range(14 if tier == "quick" else 60)]
    base += [Def("o%d" % i, st, [F("a", "u8", 3), F("b", "i8", 5, "ro", "-2"), F("c", "u8", 8, "wo", "0x5A")] +
                 ([F("t", "u16", 16)] if "4" in st or "32" in st else [])) for i, st in enumerate(["u16", "[u8; 2]", "u32", "[u8; 4]"])]
    for d in base:
        if d is None:
            continue
        d = adapt(d, e, r, 0.6 if d.id[0] == "y" else 1.0)
        blks = []
        for p in ("C01", "C06", "C08", "C10", "C21"):
            blks += contracts.PROPS[p](d) or []
        if not blks:
            continue
        u = runner.unit_of(d, blks, 1000.0)
        for p in ("C01", "C06", "C08", "C10", "C21"):
            u.text = u.text.replace('"%s|' % p, '"C24|')
        us.append(u)
    for f in flags.corpus("quick", seed):
        k = int(f.id[2:])
        if k % 3 != 0:
            continue
        fe, ie, cp = e.flag
        f = copy.copy(f)
        f.imp = set()
        if f.fe is None:
            f.fe = fe
            f.imp.add("fe")
        if f.ie is None:
            f.ie = ie
            f.imp.add("ie")
        if f.copy is None:
            f.copy = cp
            f.imp.add("copy")
        u = f.unit()
        u.text = u.text.replace('"C18|', '"C24|')
        us.append(u)
    return us


def forwarding_units():
    d = Def("fw", "u16", [F("a", "u8", 8, default="0xAB"), F("b", "u8", 8)])
    e = lambda fn, c: 'ensures!(%s, "C24|forwarding|%s|the features of the bitfields crate reach the macro");' % (c, fn)
    text = ("use crate::prelude::*;\nmod probe_ { pub struct Absent; pub trait P { fn new() -> Absent { Absent } } impl<X> P for X {} }\n%s\n%s\n"
            "pub fn h0() { use probe_::P as _; %s %s %s }" % (
                decl.HERE, d.src(), e("order_msb", "T::from_be_bits(0xAB00).a() == 0xAB"), e("from_endian_little", "T::from_bits(0x1234).into_be_bits() == 0x3412"),
                e("disable_new", "!here(T::new)")))
    return [runner.Unit("fw", text, [("h0", 0, ["order", "from_endian", "new"])], d.src(), 3)]
