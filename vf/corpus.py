"""The definitions under contract."""
from model import Def, Field as F, tybits, NAMED


def hand():
    D = []

    def a(*args, **kw):
        D.append(Def(*args, **kw))
    # --- integer storage -------------------------------------------------
    a("i8_mixed", "u8", [F("a", "u8", 3), F("b", "bool"), F("c", "i8", 3, default="-2"), F("_r", "u8", 1)])
    a("i8_full", "u8", [F("a", "u8")])
    a("i8_sfull", "u8", [F("a", "i8", default="-128")])
    a("i8_bits", "u8", [F("b%d" % i, "bool", access=[None, "ro", "wo", "na"][i % 4], default=["true", None][i // 4]) for i in range(8)], order="msb")
    a("i8_wide", "u8", [F("a", "u32", 5, default="0x15"), F("b", "u16", 2, "ro", "3"), F("c", "u128", 1)])
    a("i16_acc", "u16", [F("a", "u8", 5, default="K_U8".replace("K_U8", "0x1B")), F("b", "i8", 4, "ro", "-5"), F("c", "u8", 3, "wo", "6"),
                         F("d", "i16", 2, "na", "-1"), F("_r", "u8", 2, default="2")], order="msb")
    a("i16_le", "u16", [F("a", "u16", 7), F("b", "i16", 9, default="-200")], from_endian="little", into_endian="little", write_endian="little")
    a("i32_mixed", "u32", [F("a", "u8"), F("b", "i16", 11, default="-1000"), F("_p", "u8", 3), F("c", "bool", default="true"),
                           F("d", "u32", 8, "ro", "0xA5"), F("e", "bool", None, "wo")], from_endian="little")
    a("i32_msb", "u32", [F("a", "i8", 5), F("b", "u16", 13, default="0x1ABC"), F("_r", "u16", 10, default="0x155"), F("c", "i32", 4, "na", "-8")],
      order="msb", into_endian="little", write_endian="little")
    a("i32_custom", "u32", [F("e", "E2", 2, default="E2::B"), F("o", "Odd", 3), F("n", "N8", 8), F("f", "Fl", 3, "ro", "Fl::B"),
                            F("r", "Raw32", 9, default="Raw32(0xABC)".replace("0xABC", "0x1F")), F("_x", "u8", 7)])
    a("i32_arr", "u32", [F("a", "[u8; 2]", 16), F("b", "[u8; 1]", 5), F("c", "[u8; 2]", 11)])
    a("i64_mixed", "u64", [F("a", "u64", 33, default="0x1_2345_6789"), F("b", "i32", 17, default="-65536"), F("_r", "u8", 3), F("c", "i64", 10, "ro", "-511"), F("d", "bool")])
    a("i64_msb", "u64", [F("a", "bool"), F("b", "i64", 40, default="K_I64"), F("c", "u8", 7, "wo"), F("_r", "u16"), ], order="msb", write_endian="little")
    a("i64_full", "u64", [F("a", "u64", default="K_U64")], order="msb", from_endian="little")
    a("i128_mixed", "u128", [F("a", "u64", 61), F("b", "i128", 66, default="-3"), F("c", "bool")], into_endian="little")
    a("i128_msb", "u128", [F("a", "u8", 1), F("b", "u128", 90), F("c", "i16", 13, "ro", "-4096"), F("_r", "u32", 24, default="0xC0FFEE")], order="msb")
    a("i128_full", "u128", [F("a", "i128")])
    a("i128_arr", "u128", [F("h", "u8", 3), F("p", "[u8; 12]", 90), F("t", "[u8; 16]", 35)])
    a("i16_nocopy", "u16", [F("a", "u8", 6), F("b", "u16", 10, default="K_U16".replace("K_U16", "0x2BC"))], copy=False)
    a("i16_ign", "u16", [F("a", "i8", 6, default="-32"), F("_r", "u8", 3, default="5"), F("b", "u16", 7)],
      ignored=[("p", "u32", "0u32"), ("q", "bool", "false")], from_endian="little")
    a("i8_nonew", "u8", [F("a", "u8", 3, default="5"), F("b", "i8", 3, "ro", "-2"), F("c", "u8", 2, "wo")], args=["new = false"])
    a("i16_priv", "u16", [F("a", "u8", 4, vis=""), F("b", "u16", 12, vis="pub(crate)", default="0x800")], vis="pub(crate)")
    a("i16_const", "u16", [F("a", "u8", 6, default="K_U8"), F("b", "i8", 4, "ro", "K_I8"), F("c", "bool", None, "na", "K_BOOL"), F("_r", "u8", 5, default="f_u8()")])
    # --- array storage ---------------------------------------------------
    a("a1_mixed", "[u8; 1]", [F("a", "u8", 3), F("b", "bool"), F("c", "i8", 3, default="-2"), F("_r", "u8", 1)])
    a("a2_acc", "[u8; 2]", [F("a", "u8", 5, default="0x1B"), F("b", "i8", 4, "ro", "-5"), F("c", "u8", 3, "wo", "6"),
                            F("d", "i16", 2, "na", "-1"), F("_r", "u8", 2, default="2")], order="msb")
    a("a3_le", "[u8; 3]", [F("a", "u16", 11), F("b", "i16", 9, default="-200"), F("_r", "u8", 4)],
      from_endian="little", into_endian="little", write_endian="little")
    a("a4_custom", "[u8; 4]", [F("e", "E2", 2, default="E2::B"), F("o", "Odd", 3), F("n", "N8", 8), F("f", "Fl", 3, "ro", "Fl::B"),
                               F("r", "Raw32", 9, default="Raw32(0x1F)"), F("_x", "u8", 7)])
    a("a4_heap", "[u8; 4]", [F("a", "u16", 13), F("b", "i32", 15, default="-9000"), F("c", "bool", None, "ro", "true"), F("_r", "u8", 3, default="5")],
      heap=True, from_endian="little")
    a("a4_arr", "[u8; 4]", [F("a", "[u8; 2]", 16), F("b", "[u8; 1]", 5), F("c", "[u8; 2]", 11)], order="msb")
    a("a5_ign", "[u8; 5]", [F("a", "u64", 33), F("_r", "u8", 3), F("b", "bool"), F("c", "u8", 3, default="6")],
      ignored=[("p", "u32", "0u32"), ("q", "bool", "false")], write_endian="little")
    a("a9_big", "[u8; 9]", [F("a", "u8", 3), F("b", "i64", 62, default="-7"), F("c", "u8", 7, "ro", "0x41")], order="msb", into_endian="little")
    a("a17_wide", "[u8; 17]", [F("a", "u128", 128), F("b", "u8", 8, default="0x81")])
    a("a18_arr", "[u8; 18]", [F("h", "u8", 4), F("p", "[u8; 17]", 131), F("t", "u16", 9, default="0x1FE")])
    return D


# ---------------------------------------------------------------------------
# pseudo-random definitions, selected greedily for coverage of feature pairs
import random

INT_STORAGES = ["u8", "u16", "u32", "u64", "u128"]
CUSTOMS = {"E2": (1, 8), "Odd": (1, 8), "Raw8": (1, 8), "Raw16": (1, 16), "Raw32": (1, 32), "Raw64": (1, 64), "Raw128": (1, 128),
           "Fl": (1, 8), "N8": (8, 8), "N16": (16, 16)}
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "speed", "mode_x", "id2", "flag"]


def rnd_default(r, ty, w):
    """a default literal that fits, as source text"""
    if ty == "bool":
        return r.choice(["true", "false", "true", "K_BOOL"])
    if ty in CUSTOMS:
        c = {"E2": ["E2::B", "E2::C", "E2::A"], "Odd": ["Odd::Three", "Odd::Five"], "Fl": ["Fl::B", "Fl::C"], "N8": ["N8::new()"]}
        if ty in c:
            c = [x for x in c[ty] if NAMED[x] < 1 << w]
            return r.choice(c) if c else None
        if ty == "N16":
            return None
        v = rnd_val(r, w)
        return "%s(0x%x)" % (ty, v)
    if ty[0] == "[":
        return None
    signed = ty[0] == "i"
    if signed:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        v = r.choice([lo, hi, -1, 0, lo + 1, r.randint(lo, hi), r.randint(lo, hi)])
        if v < lo or v > hi:
            v = lo
        # literals that need a wider type than i32 are legal
        return str(v) if v < 0 else r.choice([str(v), hex(v)])
    ks = {"u8": ("K_U8", 0x2A), "u16": ("K_U16", 0x1BCD), "u32": ("K_U32", 0xC0FFEE), "u64": ("K_U64", 0x0123456789ABCDEF)}
    if ty in ks and r.random() < 0.15 and ks[ty][1] < (1 << w):
        return ks[ty][0]
    v = rnd_val(r, w)
    f = r.random()
    return str(v) if f < 0.3 else bin(v) if f < 0.45 else oct(v) if f < 0.55 else hex(v)


OPTIONAL = ["new", "from_into_bits", "from_traits", "default", "debug", "builder", "bit_ops", "write_bit_ops", "set_get_bit_ops", "clear_bit_ops", "invert_bit_ops"]


def rnd_args(r, p):
    """some operation groups switched off"""
    if r.random() >= p:
        return []
    off = r.sample(OPTIONAL, r.choice([1, 1, 2, 3, 5]))
    a = [x + " = false" for x in off]
    if "bit_ops" in off:
        a += [x + " = true" for x in ("write_bit_ops", "set_get_bit_ops", "clear_bit_ops", "invert_bit_ops") if x not in off and r.random() < 0.5]
    r.shuffle(a)
    return a


def rnd_val(r, w):
    m = (1 << w) - 1
    return r.choice([m, 1, m ^ 1, 1 << (w - 1), r.getrandbits(w), r.getrandbits(w), r.getrandbits(w)]) & m


def rnd_type(r, maxw, arrays, customs):
    """(type, width)"""
    for _ in range(100):
        k = r.random()
        if k < 0.12:
            return ("bool", 1)
        if k < 0.72:
            ty = r.choice(["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"])
            b = int(ty[1:])
            w = rnd_w(r, min(b, maxw), b)
            return (ty, w)
        if k < 0.87 and customs:
            ty = r.choice(sorted(CUSTOMS))
            lo, hi = CUSTOMS[ty]
            if lo > maxw:
                continue
            return (ty, r.randint(lo, min(hi, maxw)))
        if arrays:
            K = r.choice([1, 2, 3, 4, 5, 8, 9, 16, 17])
            lo = 1
            hi = min(8 * K, maxw)
            w = rnd_w(r, hi, 8 * K)
            return ("[u8; %d]" % K, w)
    return ("u8", min(8, maxw))


def rnd_w(r, mx, full):
    k = r.random()
    if k < 0.2:
        return mx
    if k < 0.5:
        c = [x for x in (1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 127, 128) if x <= mx]
        return r.choice(c)
    if k < 0.8:
        return r.randint(1, min(mx, 12))
    return r.randint(1, mx)


def rnd_def(r, did, storages=None, arrays=True, customs=True, max_fields=7, defaults=True, ignored=True, reserved=True):
    st = r.choice(storages or (INT_STORAGES * 3 + ["[u8; %d]" % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20)]))
    arr = st[0] == "["
    N = 8 * int(st[1:-1].split(";")[1]) if arr else int(st[1:])
    left, fs, names = N, [], list(NAMES)
    nf = r.randint(1, max_fields)
    heap = arr and r.random() < 0.2
    i = 0
    while left > 0:
        last = len(fs) >= nf - 1
        res = reserved and r.random() < 0.18
        ty, w = rnd_type(r, left, arrays, customs and not res)
        if last and w < left:
            # close with one field covering the rest, or padding
            if r.random() < 0.5:
                c = [t for t in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128") if int(t[1:]) >= left]
                if c:
                    ty, w = r.choice(c), left
                    res = False
            if w < left and len(fs) > nf + 12:
                ty, w = ("u128" if left <= 128 else "[u8; %d]" % ((left + 7) // 8)), min(left, 128) if left <= 128 else left
                res = True
        if len(fs) >= 11:
            ty, w = ("u128", left) if left <= 128 else ("[u8; %d]" % ((left + 7) // 8), left)
            res = True
        name = ("_r%d" % i) if res else names.pop(0) if names else "z%d" % i
        i += 1
        f = F(name, ty)
        nat = tybits(ty)
        if nat != w or r.random() < 0.4:
            f.bits = w
        if not res:
            k = r.random()
            f.access = None if k < 0.5 else r.choice(["rw", "ro", "ro", "wo", "wo", "na", "na"])
            f.vis = r.choice(["pub", "pub", "pub", "pub(crate)", ""])
        if defaults and r.random() < 0.4 and not (arr and ty in CUSTOMS and res):
            f.default = rnd_default(r, ty, w)
        if f.default is not None and f.bits is None and ty in CUSTOMS:
            f.bits = w
        if ty in CUSTOMS:
            f.bits = w
        fs.append(f)
        left -= w
    if all(f.reserved for f in fs):
        return None
    ign = []
    if ignored and r.random() < 0.15:
        ign = [("p", "u32", "0u32"), ("q", "bool", "false")][: r.randint(1, 2)]
    e = lambda: r.choice([None, None, "big", "little", "little"])
    d = Def(did, st, fs, order=r.choice([None, "lsb", "msb", "msb"]), from_endian=e(), into_endian=e(), write_endian=e(),
            heap=heap, ignored=ign, copy=False if r.random() < 0.08 else None, vis=r.choice(["pub", "pub", "pub(crate)", ""]),
            args=rnd_args(r, 0.25))
    return d


def wclass(w, full):
    s = set()
    if full and w == full:
        s.add("w=type")
    if w == 1:
        s.add("w1")
    if w % 8 == 0:
        s.add("w8k")
    for b in (8, 16, 32, 64, 128):
        if w <= b:
            s.add("w<=%d" % b)
            break
    else:
        s.add("w>128")
    return s


def features(d):
    """pairs of features, for greedy coverage"""
    st = d.storage if not d.arr else "[u8;%s]" % ("1" if d.nbytes == 1 else "2-8" if d.nbytes <= 8 else "9-16" if d.nbytes <= 16 else ">16")
    glob = {"st:" + st, "arr" if d.arr else "int", "order:" + (d.order or "lsb"), "fe:" + (d.from_endian or "-"), "ie:" + (d.into_endian or "-"),
            "we:" + (d.write_endian or "-")}
    if d.heap:
        glob.add("heap")
    if d.ignored:
        glob.add("ign%d" % len(d.ignored))
    if d.copy is False:
        glob.add("nocopy")
    if len(d.fields) == 1:
        glob.add("single")
    glob |= {"arg:" + a for a in d.args}
    out = set()
    for i, f in enumerate(d.fields):
        full = tybits(f.ty)
        s = {"k:" + f.kind, "ty:" + (f.ty if f.kind != "array" else "array"), "acc:" + f.acc + ("r" if f.reserved else "")}
        s |= wclass(f.w, full)
        if f.default is not None:
            s.add("def")
            if f.default[0] == "-":
                s.add("negdef")
            elif f.default[0] not in "0123456789":
                s.add("constdef")
        if i == 0:
            s.add("first")
        if i == len(d.fields) - 1:
            s.add("last")
        if f.off == 0:
            s.add("off0")
        if f.off % 8 == 0:
            s.add("off8")
        if f.off // 8 != (f.off + f.w - 1) // 8:
            s.add("crossbyte")
        if f.off < 64 < f.off + f.w:
            s.add("cross64")
        if f.off >= 64:
            s.add("off64+")
        if f.off + f.w == d.N:
            s.add("top")
        if f.w == d.N:
            s.add("wholestorage")
        s = sorted(s)
        for x in range(len(s)):
            for g in glob:
                out.add((s[x], g))
            for y in range(x + 1, len(s)):
                out.add((s[x], s[y]))
    g = sorted(glob)
    for x in range(len(g)):
        for y in range(x + 1, len(g)):
            out.add((g[x], g[y]))
    return out


def covering(seed, cost, budget, cand=700, prefix="q", base=(), **kw):
    """definitions chosen greedily by newly covered feature pairs per cost, up to a cost budget"""
    r = random.Random("bitfields-%s-%d" % (prefix, seed))
    C = []
    while len(C) < cand:
        d = rnd_def(r, "%s%d" % (prefix, len(C)), **kw)
        if d is None:
            continue
        c = cost(d)
        if c is None:
            continue
        C.append((d, features(d), c))
    seen = set()
    for d in base:
        seen |= features(d)
    out, spent = [], 0.0
    C = [x for x in C if x[2] <= budget]
    while C and spent < budget:
        best = max(C, key=lambda x: len(x[1] - seen) / (0.5 + x[2]))
        C.remove(best)
        if spent + best[2] > budget:
            continue
        out.append(best[0])
        seen |= best[1]
        spent += best[2]
    return out


def variants(d):
    """the same fields over the other storage kinds: list of Def (no endianness differences)"""
    import copy
    out = []

    def mk(sfx, **kw):
        a = dict(id=d.id + sfx, storage=d.storage, fields=copy.deepcopy(d.fields), order=d.order, vis=d.vis, args=list(d.args))
        a.update(kw)
        out.append(Def(**a))
    n = d.nbytes
    arr = "[u8; %d]" % n
    ign = [("p", "u32", "0u32"), ("q", "bool", "false")]
    if n in (1, 2, 4, 8, 16):
        st = "u%d" % (8 * n)
        mk("_int", storage=st)
        mk("_int_ign", storage=st, ignored=ign)
    mk("_arr", storage=arr)
    mk("_arr_ign", storage=arr, ignored=ign)
    mk("_heap", storage=arr, heap=True)
    mk("_heap_ign", storage=arr, heap=True, ignored=ign[:1])
    return out


def pairs(seed, n, sizes=(1, 2, 2, 3, 4, 4, 5, 8, 8, 9, 16), prefix="p"):
    """(A, B) pairs of storage variants"""
    r = random.Random("bitfields-pairs-%s-%d" % (prefix, seed))
    out = []
    k = 0
    while len(out) < n:
        sz = sizes[k % len(sizes)]
        d = rnd_def(r, "%s%d" % (prefix, k), storages=["[u8; %d]" % sz], max_fields=4)
        if d is None or len(d.fields) > 7:
            continue
        if any(f.kind == "array" and f.default is not None for f in d.fields):
            continue
        k += 1
        vs = variants(d)
        others = vs[1:]
        # the first variant against two of the others, so that over the corpus all are met
        for j in range(2):
            b = others[(k + j * 2) % len(others)]
            out.append((vs[0], b))
    return out[:n]


# ---------------------------------------------------------------------------
# every (storage, type, width): the generator decides by width which code it emits

def sweep(seed, storages=("u8", "u16", "u32", "u64", "u128", "[u8; 7]", "[u8; 16]", "[u8; 40]"), prefix="w", step=1):
    """definitions in which every integer type occurs with every width that fits, in every storage kind; custom types
    and byte arrays likewise in the larger ones.  Packed greedily, random order of the fields."""
    r = random.Random("bitfields-sweep-%s-%d" % (prefix, seed))
    out = []
    for st in storages:
        arr = st[0] == "["
        N = 8 * int(st[1:-1].split(";")[1]) if arr else int(st[1:])
        items = []
        for ty in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"):
            b = int(ty[1:])
            for w in range(1, min(b, N) + 1):
                # a type wider than the field needs: all widths once, in the large storages only near the limits
                items.append((ty, w))
        items += [(ty, w) for ty in ("Fl", "Odd", "E2", "Raw8") for w in range(1, 8)]
        if N >= 128:
            for ty in ("Raw8", "Raw16", "Raw32", "Raw64", "Raw128", "Fl", "Odd", "E2"):
                items += [(ty, w) for w in range(1, CUSTOMS[ty][1] + 1)]
            for K in (1, 2, 3, 5):
                items += [("[u8; %d]" % K, w) for w in range(1, 8 * K + 1)]
            items += [("[u8; 16]", w) for w in range(1, 129, 3)]
        if step > 1:
            lim = {1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128}
            items = [x for i, x in enumerate(items) if x[1] in lim or r.randrange(step) == 0]
        r.shuffle(items)
        k = 0
        while items:
            fs, left, i = [], N, 0
            while left > 0 and len(fs) < 10:
                c = [x for x in range(len(items)) if items[x][1] <= left]
                if not c:
                    break
                # an exact fit first, so that fields end at the top of the storage
                ex = [x for x in c if items[x][1] == left]
                ty, w = items.pop(ex[0] if ex else c[0])
                f = F("f%d" % i, ty, bits=w)
                i += 1
                f.access = r.choice([None, None, None, "rw"]) if ty not in CUSTOMS else r.choice([None, "rw", "ro", "na"])
                if r.random() < 0.35 and not (arr and ty in CUSTOMS):
                    f.default = rnd_default(r, ty, w)
                fs.append(f)
                left -= w
            if left:
                # a neighbour with restricted access fills the rest
                ty = "u128" if left <= 128 else "[u8; %d]" % ((left + 7) // 8)
                f = F(r.choice(["_r", "rest"]), ty, bits=left)
                if not f.reserved:
                    f.access = r.choice(["ro", "wo", "na"])
                if left <= 128 and r.random() < 0.5:
                    f.default = hex(rnd_val(r, left))
                fs.insert(r.randint(0, len(fs)), f)
            e = lambda: r.choice([None, "big", "little", "little"])
            out.append(Def("%s_%s_%d" % (prefix, st.strip("[]").replace("; ", "x"), k), st, fs, order=r.choice([None, "lsb", "msb", "msb"]), from_endian=e(),
                           into_endian=e(), write_endian=e(), heap=arr and r.random() < 0.15,
                           ignored=[("p", "u32", "0u32")] if r.random() < 0.1 else [], args=rnd_args(r, 0.15)))
            k += 1
    return out


def scatter(seed, n, prefix="s"):
    """random definitions without regard to the verifier's cost, for native runs; storages up to 64 bytes"""
    r = random.Random("bitfields-scatter-%s-%d" % (prefix, seed))
    out = []
    while len(out) < n:
        d = rnd_def(r, "%s%d" % (prefix, len(out)), max_fields=r.choice([2, 4, 7, 11]),
                    storages=INT_STORAGES * 4 + ["[u8; %d]" % k for k in (1, 2, 3, 4, 5, 8, 9, 11, 16, 17, 24, 31, 32, 33, 40, 48, 64)])
        if d is not None:
            out.append(d)
    return out
