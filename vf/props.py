"""Which definitions and contracts decide which property."""
import accept, contracts, corpus, decl, flags, runner

TRUSTED = ["Kani 0.68.0 compilation of Rust MIR to goto programs and its bundled rustc (macro expansion included)",
           "CBMC 6.11.0 and CaDiCaL", "spec/spec.rs: the specification functions over the bit-vector view",
           "vf/model.py: layout, access and default oracle computed from the definition text",
           "vf/contracts.py, vf/runner.py: generation of the harnesses"]


def assumptions(p):
    return ["the definitions are a finite corpus; within each, all states and arguments are unconstrained",
            "custom field types of the corpus (spec/prelude.rs) satisfy from_bits/into_bits idempotence",
            "states of custom-typed fields without a setter are normalised (reachable states)",
            "Rust type system, borrow checker and layout of single-field structs; machine arithmetic is modelled bit-precisely",
            "bundled Kani rustc expands the macro like the pinned toolchain"]


class Std:
    level = "proof"

    def __init__(self, p, defs):
        self.p, self.defs = p, defs

    def units(self, tier, seed):
        us = []
        for d in self.defs(tier, seed):
            b = contracts.PROPS[self.p](d)
            if b:
                u = runner.unit_of(d, b, LIMIT.get(self.p, 6.0))
                u.bytes = d.nbytes if d.arr else 0
                us.append(u)
        return us

    def run(self, R, chk):
        us = self.units(chk.TIER, chk.SEED)
        quick = chk.TIER == "quick"
        sw = sweep_units(self.p, chk.SEED, quick)
        if not quick:
            # the sweep itself is put before the verifier
            us += [u for u in sw if u.bytes <= 16 and u.id.startswith("w_")]
        big = []
        if chk.TIER == "quick" and self.p in MAXBYTES:
            big = [u for u in us if u.bytes > MAXBYTES[self.p]]
            us = [u for u in us if u.bytes <= MAXBYTES[self.p]]
        chk.kani_property(R, us, bounded=big, why="byte arrays longer than %d bytes (proved at the thorough tier)" % MAXBYTES.get(self.p, 0),
                          sweep=sw, sweep_iters=400 if quick else 20000)


def sweep_units(p, seed, quick):
    """every (storage, type, width) and random definitions: same contracts, evaluated natively"""
    out = []
    for d in corpus.sweep(seed, step=1) + corpus.scatter(seed, 400 if quick else 2000):
        b = contracts.PROPS[p](d)
        if b:
            u = runner.unit_of(d, b, 30.0)
            u.bytes = d.nbytes if d.arr else 0
            out.append(u)
    return out


# contract weight put into one harness
LIMIT = {"C07": 24.0, "C06": 10.0, "C09": 10.0, "C03": 9.0}
# largest array storage proved at the quick tier
MAXBYTES = {"C12": 9}

# verifier seconds per unit of contract weight, measured
def sec(d):
    return 0.05 if not d.arr else 0.033 * d.nbytes


FACTOR = {"C05": 1.6, "C07": 2.0, "C12": 4.0, "C20": 2.0}
# CPU seconds of generated definitions on top of the hand-written ones (quick, thorough)
BUDGET = {"C12": (60, 6000), "C07": (90, 5000), "C20": (60, 5000)}


def cost_fn(p, maxbytes=None):
    def cost(d):
        if maxbytes and d.arr and d.nbytes > maxbytes:
            return None
        b = contracts.PROPS[p](d)
        if not b:
            return None
        return 0.25 + sum(x.weight for x in b) * sec(d) * FACTOR.get(p, 1.0)
    return cost


def std_defs(p):
    def f(tier, seed):
        base = corpus.hand()
        q, t = BUDGET.get(p, (170, 5000))
        budget = q if tier == "quick" else t
        gen = corpus.covering(seed, cost_fn(p, {"C12": 5, "C20": 8}.get(p) if tier == "quick" else None), budget, cand=500 if tier == "quick" else 4000, prefix="q", base=base)
        return base + gen
    return f


class Flags:
    level = "proof"

    def units(self, tier, seed):
        return [f.unit() for f in flags.corpus(tier, seed)]

    def run(self, R, chk):
        chk.kani_property(R, self.units(chk.TIER, chk.SEED))


class Pairs:
    level = "proof"

    def units(self, tier, seed):
        out = []
        for i, (a, b) in enumerate(corpus.pairs(seed, 20 if tier == "quick" else 400)):
            out.append(runner.pair_unit("pr%d" % i, a, b, contracts.c19_blocks(a, b)))
        return out

    def run(self, R, chk):
        quick = chk.TIER == "quick"
        sw = [runner.pair_unit("sp%d" % i, a, b, contracts.c19_blocks(a, b, 9999), 60.0) for i, (a, b) in enumerate(
            corpus.pairs(chk.SEED, 320 if quick else 2000, (1, 2, 3, 4, 5, 8, 8, 9, 16, 16, 16, 17, 24, 32, 33, 40), "sp"))]
        chk.kani_property(R, self.units(chk.TIER, chk.SEED), sweep=sw, sweep_iters=400 if quick else 20000)


SPECS = {p: Std(p, std_defs(p)) for p in contracts.PROPS}
SPECS["C18"] = Flags()
SPECS["C19"] = Pairs()


class Native:
    level = "exploration"

    def __init__(self, mk, iters, rule):
        self.mk, self.iters, self.rule = mk, iters, rule

    def units(self, tier, seed):
        return self.mk(tier, seed)

    def run(self, R, chk):
        it = self.iters if chk.TIER == "quick" else 10 * self.iters
        chk.native_property(R, self.units(chk.TIER, chk.SEED), it, lambda us, n: sum(u.clauses for u in us) * n, self.rule)


SPECS["C23"] = Native(decl.c23_units, 1, "each clause probes one item of one definition (does T::item resolve to the generated item); all are distinct")
class Features(Native):
    """C24: arguments under the default features, then cargo feature sets of the macro crate"""

    def run(self, R, chk):
        import os, shutil, threading
        import features
        W = chk.WORK
        sets = features.sets(chk.TIER, chk.SEED)
        todo = list(enumerate(sets))
        lk = threading.Lock()

        def worker(w):
            while True:
                with lk:
                    if not todo or R.err:
                        return
                    i, (label, S) = todo.pop(0)
                us = features.units(S, "%s%d" % (label, i), chk.TIER, chk.SEED)
                for u in us:
                    u.text = u.text.replace('"C24|', '"C24|features %s: ' % (label if label != "random" else " ".join(S)))
                chk.native_property(R, us, 60, lambda us, n: sum(u.clauses for u in us) * n, self.rule, path=W + "/f%d" % i, target=W + "/ft%d" % w,
                                    dep='package = "bitfields-impl", path = "%s/bitfields_impl", default-features = false, features = [%s]' % (
                                        runner.REPO, ", ".join('"%s"' % x for x in S)), note="features: " + (" ".join(S) or "none"))
                shutil.rmtree(W + "/f%d" % i, ignore_errors=True)

        def forwarding():
            # the features of the user-facing crate
            us = features.forwarding_units()
            chk.native_property(R, us, 1, lambda us, n: sum(u.clauses for u in us) * n, self.rule, path=W + "/fw",
                                features=', default-features = false, features = ["order_msb", "from_endian_little", "disable_new"]', note="features of the bitfields crate")

        def guarded(f):
            def g():
                try:
                    f()
                except Exception as e:
                    import traceback
                    traceback.print_exc()
                    R.err = "internal error: %r" % e
            return g

        ts = [threading.Thread(target=guarded(f)) for f in [lambda: self.main(R, chk), forwarding] + [lambda w=w: worker(w) for w in range(3)]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def main(self, R, chk):
        chk.native_property(R, self.units(chk.TIER, chk.SEED), self.iters, lambda us, n: sum(u.clauses for u in us) * n, self.rule, path=chk.WORK + "/d")


SPECS["C24"] = Features(decl.c24_units, 1, "each clause probes one item or trait impl of one definition under one argument set; all are distinct")
SPECS["C25"] = Native(decl.c25_units, 400, "Debug output against the raw field values; definitions with up to 16 bits exhaustively, larger ones on pseudo-random states")


class Accept:
    level = "exploration"

    def run(self, R, chk):
        chk.accept_property(R, accept.invalid(chk.TIER, chk.SEED), accept.valid(chk.TIER, chk.SEED))


SPECS["C22"] = Accept()
