"""C18: bitflag definitions and their contracts."""
import random
from runner import Unit, harness_src


class Flag:
    imp = frozenset()      # settings left to cargo features

    def __init__(self, id, storage, variants, base, default=None, fe=None, ie=None, copy=None, consts=()):
        """variants: [(name, value, source text)]; base / default: variant name or None"""
        self.id, self.storage, self.variants, self.base, self.default = id, storage, variants, base, default
        self.fe, self.ie, self.copy, self.consts = fe, ie, copy, consts

    def fallback(self):
        return self.base or self.default

    def src(self):
        a = [self.storage]
        if self.fe and "fe" not in self.imp:
            a.append("from_endian = " + self.fe)
        if self.ie and "ie" not in self.imp:
            a.append("into_endian = " + self.ie)
        if self.copy is not None and "copy" not in self.imp:
            a.append("copy = %s" % ("true" if self.copy else "false"))
        d = "#[derive(Default)]\n" if self.default else ""
        vs = ""
        for n, v, t in self.variants:
            at = ("#[base] " if n == self.base else "") + ("#[default] " if n == self.default else "")
            vs += "    %s%s = %s,\n" % (at, n, t)
        cs = "".join("pub const %s: %s = %s;\n" % (n, self.storage, v) for n, v in self.consts)
        return "%s#[bitflag(%s)]\n%spub enum Fg {\n%s}" % (cs, ", ".join(a), d, vs)

    def unit(self):
        b = int(self.storage[1:])
        sw = lambda x, e: "(%s).swap_bytes()" % x if e == "little" else x
        num = "".join("Fg::%s => %d, " % (n, i) for i, (n, _v, _t) in enumerate(self.variants))
        fb = [i for i, (n, _v, _t) in enumerate(self.variants) if n == self.fallback()][0]
        want = "".join("%d => %d, " % (v, i) for i, (n, v, _t) in enumerate(self.variants))
        vals = "".join("%d => %d, " % (i, v) for i, (n, v, _t) in enumerate(self.variants))
        mk = "".join("%d => Fg::%s, " % (i, n) for i, (n, _v, _t) in enumerate(self.variants[:-1])) + "_ => Fg::%s" % self.variants[-1][0]
        e = lambda fn, what, c: 'ensures!(%s, "C18|%s|%s|%s");' % (c, self.id, fn, what)
        code = ["{ let v: %s = nd(); let r = idx(&Fg::from_bits(v)); let x = %s; let want: u32 = match x { %s _ => %d };" % (
            self.storage, sw("v", self.fe), want, fb) + e("from_bits", "the variant of the value, else the fallback variant", "r == want") + " }",
            "{ let i: u32 = nd(); assume(i < %d); let r = mkv(i).into_bits(); let want: %s = match i { %s _ => 0 };" % (
                len(self.variants), self.storage, vals) + e("into_bits", "the declared value", "r == %s" % sw("want", self.ie)) + " }"]
        if (self.fe or "big") == (self.ie or "big"):
            code.append("{ let i: u32 = nd(); assume(i < %d); let r = idx(&Fg::from_bits(mkv(i).into_bits()));" % len(self.variants) +
                        e("from_bits", "variant to bits and back is the identity", "r == i") + " }")
        code.append("{ let v: %s = nd(); let r = Fg::from_bits(v).into_bits(); let x = %s; let want: %s = match x { %s _ => %d };" % (
            self.storage, sw("v", self.fe), self.storage, "".join("%d => %d, " % (v, v) for _n, v, _t in self.variants),
            [v for n, v, _t in self.variants if n == self.fallback()][0]) +
            e("into_bits", "declared values survive, others become the fallback", "r == %s" % sw("want", self.ie)) + " }")
        if self.copy is not False:
            code.append("{ let i: u32 = nd(); assume(i < %d); let a = mkv(i); let b = a; let c = Clone::clone(&a);" % len(self.variants) +
                        e("Copy", "same variant", "idx(&b) == i && idx(&c) == i && idx(&a) == i") + " }")
        text = "use crate::prelude::*;\n%s\nfn idx(f: &Fg) -> u32 { match f { %s } }\nfn mkv(i: u32) -> Fg { match i { %s } }\n%s" % (
            self.src(), num, mk, harness_src("h0", 0, code))
        return Unit(self.id, text, [("h0", 0, ["from_bits", "into_bits"])], self.src(), sum(c.count("ensures!(") for c in code))


def corpus(tier, seed):
    r = random.Random("bitflags-%d" % seed)
    out = []
    k = 0
    reps = 3 if tier == "quick" else 12
    for st in ("u8", "u16", "u32", "u64", "u128"):
        b = int(st[1:])
        for fe in (None, "big", "little"):
            for ie in (None, "big", "little"):
                for rep in range(reps):
                    n = r.choice([1, 2, 3, 4, 5, 7])
                    pool = {0, 1, 2, 3, (1 << b) - 1, 1 << (b - 1), (1 << b) - 2, 1 << (b // 2), 0x80, 0x7f}
                    while len(pool) < 18:
                        pool.add(r.getrandbits(b))
                    vals = r.sample(sorted(pool), n)
                    vs, consts = [], []
                    for i, v in enumerate(vals):
                        t = r.choice([str(v), hex(v), bin(v), "0o%o" % v])
                        if r.random() < 0.15:
                            consts.append(("VAL_%d" % i, v))
                            t = "VAL_%d" % i
                        vs.append(("V%d" % i, v, t))
                    mode = r.choice(["base", "base", "default", "both", "both-same"])
                    base = default = None
                    if mode == "base":
                        base = "V%d" % r.randrange(n)
                    elif mode == "default":
                        default = "V%d" % r.randrange(n)
                    elif mode == "both":
                        base, default = "V%d" % r.randrange(n), "V%d" % r.randrange(n)
                    else:
                        base = default = "V%d" % r.randrange(n)
                    out.append(Flag("fl%d" % k, st, vs, base, default, fe, ie, False if r.random() < 0.1 else None, consts))
                    k += 1
    return out
