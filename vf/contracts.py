"""Contracts of the generated functions, one block of Rust per function.

A block is:  havoc the state and the arguments, assume the precondition, call the
real generated function, assert every postcondition clause over the whole view
(and the ignored members).  The oracle values (offsets, widths, masks, defaults)
come from model.py, i.e. from the definition text.
"""
from dataclasses import dataclass
from model import Def, Field, TRANSPARENT


@dataclass
class Blk:
    fn: str
    code: str
    weight: float = 1.0
    unwind: int = 0


def norm0(f):
    return {"Odd": 1}.get(f.ty, 0) & ((1 << f.w) - 1)


def zero_val(d):
    v = 0
    for f in d.fields:
        v |= norm0(f) << f.off
    return v


def apply_defaults(d, v, only=lambda f: True):
    for f in d.fields:
        if f.default is not None and only(f):
            m = ((1 << f.w) - 1) << f.off
            v = (v & ~m) | (f.defval << f.off)
    return v


def new_val(d):
    return apply_defaults(d, zero_val(d))


def nwd_val(d):
    return apply_defaults(d, zero_val(d), lambda f: f.reserved)


class C:
    """text helpers for one definition"""

    def __init__(self, d: Def, prop: str):
        self.d, self.p = d, prop
        self.V = d.V
        self.T = "T"

    # ---- typed values -------------------------------------------------
    def anyv(self, f):
        if f.kind == "custom":
            return "<%s>::from_bits(nd::<%s>())" % (f.ty, f.P)
        return "nd::<%s>()" % f.ty

    def full(self, f, x):
        """all bits of the value, before truncation"""
        V = self.V
        if f.kind == "custom":
            return "<%s as View>::from128(%s.into_bits() as u128)" % (V, x)
        if f.kind == "array":
            return "le::<%s, %d>(%s)" % (V, f.K, x)
        return "<%s as View>::from128(%s as u128)" % (V, x)

    def raw(self, f, x):
        return "get(%s, 0, %d)" % (self.full(f, x), f.w)

    def norm(self, f, raw):
        if f.kind == "custom" and f.ty not in TRANSPARENT:
            return "get(<%s as View>::from128(<%s>::from_bits((%s).lo128() as %s).into_bits() as u128), 0, %d)" % (
                self.V, f.ty, raw, f.P, f.w)
        return raw

    def sto(self, f, got, raw):
        if f.kind == "custom" and f.ty not in TRANSPARENT:
            return "{ let r_ = %s; pick(%s, r_, %s) }" % (raw, got, self.norm(f, "r_"))
        return raw

    def typed(self, f, raw):
        """the value a getter must return for raw bits"""
        k = f.kind
        if k == "uint":
            return "((%s).lo128() as %s)" % (raw, f.ty)
        if k == "int":
            return "(sext((%s).lo128(), %d) as %s)" % (raw, f.w, f.ty)
        if k == "bool":
            return "((%s).lo128() != 0)" % raw
        if k == "custom":
            return "<%s>::from_bits((%s).lo128() as %s)" % (f.ty, raw, f.P)
        return "to_le::<%s, %d>(%s)" % (self.V, f.K, raw)

    def eqv(self, f, a, b):
        if f.kind == "custom":
            return "%s.into_bits() == %s.into_bits()" % (a, b)
        return "%s == %s" % (a, b)

    def fits(self, f, x):
        k = f.kind
        if k == "bool":
            return "true"
        if k == "int":
            return "sfits(%s as i128, %d)" % (x, f.w)
        if k == "array":
            return "afits(%s, %d)" % (x, f.w)
        return "ufits(%s, %d)" % (self.full(f, x), f.w)

    def g(self, v, f):
        return "get(%s, %d, %d)" % (v, f.off, f.w)

    # ---- whole values --------------------------------------------------
    def view_of_input(self, x, endian, write=False):
        d = self.d
        if not d.arr:
            e = "%s.swap_bytes()" % x if endian == "little" else x
            return "<%s as View>::from128(%s as u128)" % (self.V, e)
        straight = (endian == "big") if write else (endian == "little")
        return "le::<%s, %d>(%s)" % (self.V, d.nbytes, x if straight else "rev(%s)" % x)

    def out_of_view(self, v, endian):
        """storage-typed output for a view"""
        d = self.d
        if not d.arr:
            e = "((%s).lo128() as %s)" % (v, d.storage)
            return e + (".swap_bytes()" if endian == "little" else "")
        e = "to_le::<%s, %d>(%s)" % (self.V, d.nbytes, v)
        return e if endian == "little" else "rev(%s)" % e

    def from_all(self, post, src, base=None, only=lambda f: True):
        """view after setting the fields selected by `only` from src; others as in base"""
        d = self.d
        m = d.maskof(only)
        full = (1 << d.N) - 1
        if base is None or m == full:
            s = "let mut e = %s;" % src
        else:
            s = "let mut e = sel(%s, %s, %s);" % (base, src, d.lit(m))
        for f in d.fields:
            if only(f) and f.kind == "custom" and f.ty not in TRANSPARENT:
                s += " e = put(e, %d, %d, %s);" % (f.off, f.w, self.sto(f, self.g(post, f), self.g(src, f)))
        return s

    def defaults(self):
        d = self.d
        s = ""
        for f in d.fields:
            if f.default is not None:
                s += " e = put(e, %d, %d, %s);" % (f.off, f.w, d.lit(f.defval))
        return s

    def ens(self, fn, what, cond):
        return 'ensures!(%s, "%s|%s|%s|%s");' % (cond, self.p, self.d.id, fn, what)

    def st(self):
        return "let mut s = mk(); let pre = vw(&s); let ig0 = ig(&s);"

    def same_ig(self, fn):
        if not self.d.ignored:
            return ""
        return self.ens(fn, "ignored members unchanged", "ig(&s) == ig0")

    def blk(self, fn, code, weight=1.0, unwind=0):
        return Blk(fn, "{ " + code + " }", weight, unwind)

    def endians(self, base):
        """(function, endian) for from_/into_/write_ families"""
        d = self.d
        cfgd = {"from": d.from_endian, "into": d.into_endian, "write": d.write_endian}[base] or "big"
        return [("%s_%s" % (base, d.bob), cfgd), ("%s_le_%s" % (base, d.bob), "little"), ("%s_be_%s" % (base, d.bob), "big")]


# ---------------------------------------------------------------------------
def setter_blk(c, f, fn="set_%s", extra=""):
    n = fn % f.name
    return c.blk(n, c.st() + " let v = %s; s.%s(v); let post = vw(&s);" % (c.anyv(f), n) +
                 " let r = %s;" % c.raw(f, "v") +
                 c.ens(n, "writes exactly bits %d..%d" % (f.off, f.off + f.w),
                       "post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "r"))) +
                 c.same_ig(n) + extra)


def getter_blk(c, f):
    n = f.name
    return c.blk(n, "let s = mk(); let pre = vw(&s); let r = s.%s();" % n +
                 c.ens(n, "reads exactly bits %d..%d" % (f.off, f.off + f.w),
                       c.eqv(f, "r", c.typed(f, c.g("pre", f)))))


def p_C01(d):
    c = C(d, "C01")
    out = []
    cs = ""
    for f in d.fields:
        if f.consts:
            u = f.name.upper()
            cs += c.ens("%s_OFFSET" % u, "offset is %d" % f.off, "T::%s_OFFSET as u32 == %d" % (u, f.off))
            cs += c.ens("%s_BITS" % u, "width is %d" % f.w, "T::%s_BITS as u32 == %d" % (u, f.w))
    if cs:
        out.append(c.blk("constants", cs, 0.3))
    for f in d.fields:
        if f.setter:
            out.append(setter_blk(c, f))
        if f.getter:
            out.append(getter_blk(c, f))
    return out


def p_C02(d):
    c = C(d, "C02")
    out = []
    for f in d.fields:
        if f.setter and f.getter:
            n = "set_%s" % f.name
            exp = c.typed(f, c.raw(f, "v"))
            fit = ""
            if f.kind != "custom":
                fit = c.ens(n, "a fitting value reads back unchanged", "!(%s) || %s" % (c.fits(f, "v"), c.eqv(f, "r", "v")))
            out.append(c.blk(n, "let mut s = mk(); let v = %s; s.%s(v); let r = s.%s();" % (c.anyv(f), n, f.name) +
                             c.ens(n, "reads back the low %d bits" % f.w, c.eqv(f, "r", exp)) + fit, 1.5))
    return out


def frame(c, fn, masks, pre="pre", post="post"):
    return c.ens(fn, "nothing outside the field changes",
                 "%s.and(%s) == %s.and(%s)" % (post, masks, pre, masks)) + c.same_ig(fn)


def p_C03(d):
    c = C(d, "C03")
    out = []
    for f in d.fields:
        if not f.setter:
            continue
        om = d.lit(~(((1 << f.w) - 1) << f.off))
        calls = [("set_" + f.name, "s.set_%s(%s);" % (f.name, c.anyv(f))),
                 ("checked_set_" + f.name, "let _ = s.checked_set_%s(%s);" % (f.name, c.anyv(f)))]
        if d.has("clear_bit_ops"):
            calls.append(("clear_" + f.name, "s.clear_%s();" % f.name))
            if f.default is not None:
                calls.append(("clear_%s_to_default" % f.name, "s.clear_%s_to_default();" % f.name))
        if d.has("invert_bit_ops"):
            calls.append(("invert_" + f.name, "s.invert_%s();" % f.name))
        for fn, call in calls:
            out.append(c.blk(fn, c.st() + " %s let post = vw(&s);" % call + frame(c, fn, om)))
    obs = ""
    for f in d.fields:
        if f.getter:
            obs += " let _ = s.%s();" % f.name
            if d.has("invert_bit_ops"):
                obs += " let _ = s.%s_inverted();" % f.name
    if d.has("set_get_bit_ops"):
        obs += " let _ = s.get_bit(nd()); let _ = s.checked_get_bit(nd());"
    if d.arr and d.has("from_into_bits"):
        obs += " let _ = s.into_bytes(); let _ = s.into_be_bytes(); let _ = s.into_le_bytes();"
    if obs:
        out.append(c.blk("shared-reference operations", c.st() + obs + " let post = vw(&s);" +
                         c.ens("observers", "value unchanged", "post == pre") + c.same_ig("observers"), 1.5))
    return out


def p_C04(d):
    c = C(d, "C04")
    out = []
    for f in d.fields:
        if f.kind != "int":
            continue
        n = f.name
        if f.setter:
            out.append(setter_blk(c, f))
        if f.getter:
            out.append(getter_blk(c, f))
            if d.has("invert_bit_ops"):
                out.append(c.blk(n + "_inverted", "let s = mk(); let pre = vw(&s); let x = s.%s(); let r = s.%s_inverted();" % (n, n) +
                                 c.ens(n + "_inverted", "is -1 - f()", "r == -1 - x") +
                                 c.ens(n + "_inverted", "sign-extended complement", "r as i128 == sext(!(%s).lo128(), %d)" % (c.g("pre", f), f.w))))
        if f.setter and f.getter:
            out.append(c.blk("set_" + n, "let mut s = mk(); let v = nd::<%s>(); assume(sfits(v as i128, %d)); s.set_%s(v);" % (f.ty, f.w, n) +
                             c.ens("set_" + n, "every value of the width round-trips", "s.%s() == v" % n)))
        if not f.reserved and d.has("builder") and d.has("new"):
            out.append(c.blk("with_" + n, "let v = nd::<%s>(); let b = TBuilder::new_without_defaults().with_%s(v).build();" % (f.ty, n) +
                             c.ens("with_" + n, "stores the low %d bits" % f.w, "%s == %s" % (c.g("vw(&b)", f), c.raw(f, "v"))) +
                             (c.ens("with_" + n, "reads back sign-extended", "b.%s() as i128 == sext(v as u128, %d)" % (n, f.w)) if f.getter else "")))
        if f.default is not None and d.has("new"):
            out.append(c.blk("new", "let b = T::new();" +
                             c.ens("new", "default of %s" % n, "%s == %s" % (c.g("vw(&b)", f), d.lit(f.defval)))))
    return out


def p_C05(d):
    c = C(d, "C05")
    out = []
    for f in d.fields:
        if f.setter:
            n = "checked_set_" + f.name
            out.append(c.blk(n, c.st() + " let v = %s; let ok = %s; let r = s.%s(v); let post = vw(&s); let raw = %s;" % (
                c.anyv(f), c.fits(f, "v"), n, c.raw(f, "v")) +
                c.ens(n, "succeeds exactly when the value fits", "r.is_ok() == ok") +
                c.ens(n, "on success writes the field", "!ok || post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "raw"))) +
                c.ens(n, "on failure changes nothing", "ok || post == pre") + c.same_ig(n), 1.3))
        if not f.reserved and d.has("builder"):
            n = "checked_with_" + f.name
            out.append(c.blk(n, "let b = mkb(); let pre = vb(&b); let v = %s; let ok = %s; let raw = %s; let r = b.%s(v);" % (
                c.anyv(f), c.fits(f, "v"), c.raw(f, "v"), n) +
                c.ens(n, "succeeds exactly when the value fits", "r.is_ok() == ok") +
                " if let Ok(b) = r { let post = vb(&b);" +
                c.ens(n, "on success writes the field", "post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "raw"))) + " }", 1.3))
    return out


def p_C06(d):
    c = C(d, "C06")
    out = []
    if not d.has("from_into_bits"):
        return out
    wt = 1.0 if not d.arr else 6.0
    for fn, e in c.endians("from"):
        out.append(c.blk(fn, "let x: %s = nd(); let s = T::%s(x); let post = vw(&s); let src = %s; %s" % (
            d.storage, fn, c.view_of_input("x", e), c.from_all("post", "src")) +
            c.ens(fn, "every bit is taken over (%s endian)" % e, "post == e"), wt))
    for fn, e in c.endians("into"):
        out.append(c.blk(fn, "let s = mk(); let pre = vw(&s); let r = s.%s();" % fn +
                         c.ens(fn, "every bit is given out (%s endian)" % e, "r == %s" % c.out_of_view("pre", e)), 0.7))
    if all(f.kind != "custom" or f.ty in TRANSPARENT for f in d.fields):
        for e in ("le", "be"):
            fn = "from_%s_%s" % (e, d.bob)
            out.append(c.blk("roundtrip_" + e, "let x: %s = nd(); let r = T::%s(x).into_%s_%s();" % (d.storage, fn, e, d.bob) +
                             c.ens(fn, "round trip is the identity", "r == x"), wt))
        if (d.from_endian or "big") == (d.into_endian or "big"):
            fn = "from_%s" % d.bob
            out.append(c.blk("roundtrip", "let x: %s = nd(); let r = T::%s(x).into_%s();" % (d.storage, fn, d.bob) +
                             c.ens(fn, "round trip is the identity", "r == x"), wt))
    return out


def p_C07(d):
    c = C(d, "C07")
    out = []
    if not d.arr or not d.has("from_into_bits"):
        return out
    N = d.nbytes
    M = N + 3
    ends = [("", d.from_endian or "big"), ("_le", "little"), ("_be", "big")]
    mx = max([f.w for f in d.fields] + [M]) + 2
    for (pe, e) in ends:
        for wd in ("", "_with_defaults"):
            for ck in ("", "checked_"):
                fn = "%sfrom%s_slice%s" % (ck, pe, wd)
                code = ("let buf: [u8; %d] = nd(); let len: usize = nd(); assume(len <= %d); let mut pad = [0u8; %d]; "
                        "let mut i_ = 0; while i_ < %d { if i_ < len { pad[i_] = buf[i_]; } i_ += 1; } " % (M, M, N, N))
                body = "let post = vw(&s); let src = %s; %s%s" % (
                    c.view_of_input("pad", e), c.from_all("post", "src"), c.defaults() if wd else "")
                if ck:
                    code += "let r = T::%s(&buf[..len]);" % fn
                    code += c.ens(fn, "fails exactly when the slice is too short", "r.is_ok() == (len >= %d)" % N)
                    code += " if let Ok(s) = r { " + body + c.ens(fn, "equals the byte array conversion", "post == e") + " }"
                else:
                    code += "let s = T::%s(&buf[..len]); " % fn + body
                    code += c.ens(fn, "equals the zero-padded byte array conversion", "post == e")
                out.append(c.blk(fn, code, 8.0, mx))
    ends = [("", d.into_endian or "big"), ("_le", "little"), ("_be", "big")]
    for (pe, e) in ends:
        for ck in ("", "checked_"):
            fn = "%sinto%s_slice" % (ck, pe)
            code = ("let s = mk(); let pre = vw(&s); let old: [u8; %d] = nd(); let mut buf = old; let len: usize = nd(); assume(len <= %d);" % (M, M) +
                    " let want = %s; " % c.out_of_view("pre", e))
            if ck:
                code += "let r = s.%s(&mut buf[..len]);" % fn
                code += c.ens(fn, "fails exactly when the destination is too short", "r.is_ok() == (len >= %d)" % N)
                n_ = "if len >= %d { %d } else { 0 }" % (N, N)
            else:
                code += "s.%s(&mut buf[..len]);" % fn
                n_ = "if len >= %d { %d } else { len }" % (N, N)
            code += (" let n_ = %s; let mut i_ = 0; let mut good = true; let mut rest = true; while i_ < %d { "
                     "if i_ < n_ { if buf[i_] != want[i_] { good = false; } } else if buf[i_] != old[i_] { rest = false; } i_ += 1; }" % (n_, M))
            code += c.ens(fn, "writes exactly the bytes", "good") + c.ens(fn, "leaves the rest of the destination", "rest")
            out.append(c.blk(fn, code, 2.0, mx))
    return out


def p_C08(d):
    c = C(d, "C08")
    out = []
    nv, nw = d.lit(new_val(d)), d.lit(nwd_val(d))
    igd = ""
    if d.ignored:
        igd = "(%s,)" % ", ".join(x[2] for x in d.ignored)

    def chk(fn, expr, want):
        code = "let s = %s;" % expr + c.ens(fn, "zero plus defaults", "vw(&s) == %s" % want)
        if d.ignored:
            code += c.ens(fn, "ignored members at their default", "ig(&s) == %s" % igd)
        out.append(c.blk(fn, code, 1.0))
    if d.has("new"):
        chk("new", "T::new()", nv)
        chk("new_without_defaults", "T::new_without_defaults()", nw)
    if d.has("default"):
        chk("default", "<T as Default>::default()", nv)
    if d.has("builder"):
        chk("Builder::new", "TBuilder::new().build()", nv)
        chk("Builder::new_without_defaults", "TBuilder::new_without_defaults().build()", nw)
        chk("Builder::default", "<TBuilder as Default>::default().build()", nv)
    return out


def p_C09(d):
    c = C(d, "C09")
    out = []
    wt = 1.0 if not d.arr else 6.0
    if d.has("from_into_bits"):
        for fn, e in c.endians("from"):
            fn += "_with_defaults"
            out.append(c.blk(fn, "let x: %s = nd(); let s = T::%s(x); let post = vw(&s); let src = %s; %s %s" % (
                d.storage, fn, c.view_of_input("x", e), c.from_all("post", "src"), c.defaults()) +
                c.ens(fn, "input bits, then every default", "post == e"), wt))
    if d.has("write_bit_ops"):
        for fn, e in c.endians("write"):
            fn += "_with_defaults"
            out.append(c.blk(fn, c.st() + " let x: %s = nd(); s.%s(x); let post = vw(&s); let src = %s; %s %s" % (
                d.storage, fn, c.view_of_input("x", e, True), c.from_all("post", "src", "pre", lambda f: f.setter), c.defaults()) +
                c.ens(fn, "writes, then every default", "post == e") + c.same_ig(fn), wt))
        out.append(c.blk("write_defaults", c.st() + " s.write_defaults(); let post = vw(&s); let mut e = pre; %s" % c.defaults() +
                         c.ens("write_defaults", "exactly the defaults", "post == e") + c.same_ig("write_defaults"), wt / 2))
    if d.has("clear_bit_ops"):
        fn = "clear_%s_with_defaults" % d.bob
        out.append(c.blk(fn, c.st() + " s.%s(); let post = vw(&s);" % fn +
                         c.ens(fn, "defaults, everything else zero", "post == %s" % d.lit(new_val(d))) + c.same_ig(fn), wt / 2))
        for f in d.fields:
            if f.setter and f.default is not None:
                fn = "clear_%s_to_default" % f.name
                out.append(c.blk(fn, c.st() + " s.%s(); let post = vw(&s);" % fn +
                                 c.ens(fn, "exactly this default", "post == put(pre, %d, %d, %s)" % (f.off, f.w, d.lit(f.defval))) + c.same_ig(fn)))
    return out


def p_C10(d):
    c = C(d, "C10")
    out = []
    if not d.has("write_bit_ops"):
        return out
    wt = 1.0 if not d.arr else 6.0
    for fn, e in c.endians("write"):
        out.append(c.blk(fn, c.st() + " let x: %s = nd(); s.%s(x); let post = vw(&s); let src = %s; %s" % (
            d.storage, fn, c.view_of_input("x", e, True), c.from_all("post", "src", "pre", lambda f: f.setter)) +
            c.ens(fn, "writable fields from the input, the rest unchanged (%s endian)" % e, "post == e") + c.same_ig(fn), wt))
    return out


def p_C11(d):
    c = C(d, "C11")
    if not d.has("set_get_bit_ops"):
        return []
    N = d.N
    rm, wm = d.lit(d.maskof(lambda f: f.readable)), d.lit(d.maskof(lambda f: f.setter))
    return [
        c.blk("get_bit", c.st() + " let i: u32 = nd(); let r = s.get_bit(i); let want = i < %d && bit(%s, i) && bit(pre, i);" % (N, rm) +
              c.ens("get_bit", "bit i if readable, else false", "r == want")),
        c.blk("checked_get_bit", c.st() + " let i: u32 = nd(); let r = s.checked_get_bit(i); let ok = i < %d && bit(%s, i);" % (N, rm) +
              c.ens("checked_get_bit", "error exactly when out of range or not readable", "r.is_ok() == ok") +
              c.ens("checked_get_bit", "bit i", "match r { Ok(b) => b == bit(pre, i), Err(_) => true }")),
        c.blk("set_bit", c.st() + " let i: u32 = nd(); let b: bool = nd(); s.set_bit(i, b); let post = vw(&s); let ok = i < %d && bit(%s, i);" % (N, wm) +
              c.ens("set_bit", "changes exactly bit i if writable", "post == if ok { with_bit(pre, i, b) } else { pre }") + c.same_ig("set_bit")),
        c.blk("checked_set_bit", c.st() + " let i: u32 = nd(); let b: bool = nd(); let r = s.checked_set_bit(i, b); let post = vw(&s); let ok = i < %d && bit(%s, i);" % (N, wm) +
              c.ens("checked_set_bit", "error exactly when out of range or not writable", "r.is_ok() == ok") +
              c.ens("checked_set_bit", "changes exactly bit i, nothing on error", "post == if ok { with_bit(pre, i, b) } else { pre }") + c.same_ig("checked_set_bit")),
    ]


def p_C12(d, prop="C12"):
    c = C(d, prop)
    if not d.has("set_get_bit_ops"):
        return []
    N, V = d.N, d.V
    rm, wm = d.lit(d.maskof(lambda f: f.readable)), d.lit(d.maskof(lambda f: f.setter))
    b = d.bob
    tov = (lambda x: "le::<%s, %d>(%s)" % (V, d.nbytes, x)) if d.arr else (lambda x: "<%s as View>::from128(%s as u128)" % (V, x))
    # (offset == N, length == 0) is an empty range at the very end: either answer is fine
    args = ("let o: u32 = nd(); let l: u32 = nd(); assume(!(o == %d && l == 0)); let inside = o < %d && l <= %d - o; "
            "let (oo, ll) = if inside { (o, l) } else { (0, 0) }; let rmask = mask::<%s>(ll).shl(oo);" % (N, N, N, V))
    wt = 2.0 if not d.arr else 12.0
    uw = N + 2 if d.arr else 0
    g, s_ = "get_%s_range" % b, "set_%s_range" % b
    out = [
        c.blk(g, c.st() + args + " let r = s.%s(o, l); let want = get(pre.and(%s), oo, ll);" % (g, rm) +
              c.ens(g, "the readable bits of the range, zero outside", "%s == want" % tov("r")), wt, uw),
        c.blk("checked_" + g, c.st() + args + " let r = s.checked_%s(o, l); let ok = inside && rmask.and(%s) == rmask; let want = get(pre, oo, ll);" % (g, rm) +
              c.ens("checked_" + g, "error exactly when outside or not readable", "r.is_ok() == ok") +
              c.ens("checked_" + g, "the bits of the range", "match r { Ok(x) => %s == want, Err(_) => true }" % tov("x")), wt, uw),
    ]
    if not d.arr:
        return out + [
            c.blk(s_, c.st() + args + " let v: %s = nd(); s.%s(o, l, v); let post = vw(&s); let want = sel(pre, %s.shl(oo), rmask.and(%s));" % (
                d.storage, s_, tov("v"), wm) +
                  c.ens(s_, "exactly the writable bits of the range", "post == want") + c.same_ig(s_), wt, uw),
            c.blk("checked_" + s_, c.st() + args + " let v: %s = nd(); let r = s.checked_%s(o, l, v); let post = vw(&s); let vv = %s; "
                  "let ok = inside && rmask.and(%s) == rmask && ufits(vv, ll); let want = sel(pre, vv.shl(oo), rmask);" % (d.storage, s_, tov("v"), wm) +
                  c.ens("checked_" + s_, "error exactly when outside, not writable or value too large", "r.is_ok() == ok") +
                  c.ens("checked_" + s_, "exactly the range, nothing on error", "post == if ok { want } else { pre }") + c.same_ig("checked_" + s_), wt, uw),
        ]
    # arrays: one symbolic bit index j instead of whole-vector equality (the same statement, cheaper to decide)
    nb = d.nbytes
    rows = lambda m: ", ".join(str((m >> (8 * i)) & 255) for i in range(nb))
    pre = ("let mut s = mk(); let ig0 = ig(&s); let p0 = to_le::<%s, %d>(vw(&s)); const WM: [u8; %d] = [%s]; let o: u32 = nd(); let l: u32 = nd(); "
           "assume(!(o == %d && l == 0)); let inside = o < %d && l <= %d - o; let j: u32 = nd(); assume(j < %d); let v: %s = nd(); " % (
               V, nb, nb, rows(d.maskof(lambda f: f.setter)), N, N, N, N, d.storage))
    post = " let q = to_le::<%s, %d>(vw(&s)); " % (V, nb)
    out.append(c.blk(s_, pre + "s.%s(o, l, v);" % s_ + post +
                     "let want = if inside && j >= o && j < o + l && abit(&WM, j) { abit(&v, j - o) } else { abit(&p0, j) };" +
                     c.ens(s_, "exactly the writable bits of the range", "abit(&q, j) == want") + c.same_ig(s_), wt, uw))
    out.append(c.blk("checked_" + s_, pre + "let r = s.checked_%s(o, l, v);" % s_ + post +
                     "let mut ok = inside; if inside { let mut k = 0u32; while k < %d { if k >= o && k < o + l && !abit(&WM, k) { ok = false; } "
                     "if k >= l && abit(&v, k) { ok = false; } k += 1; } } "
                     "let want = if ok && j >= o && j < o + l { abit(&v, j - o) } else { abit(&p0, j) };" % N +
                     c.ens("checked_" + s_, "error exactly when outside, not writable or value too large", "r.is_ok() == ok") +
                     c.ens("checked_" + s_, "exactly the range, nothing on error", "abit(&q, j) == want") + c.same_ig("checked_" + s_), wt, uw))
    return out


def p_C13(d):
    c = C(d, "C13")
    out = []
    if not d.has("clear_bit_ops"):
        return out
    wt = 1.0 if not d.arr else 3.0
    fn = "clear_%s" % d.bob
    out.append(c.blk(fn, c.st() + " s.%s(); let post = vw(&s);" % fn +
                     c.ens(fn, "all zero except reserved defaults", "post == %s" % d.lit(nwd_val(d))) + c.same_ig(fn), wt))
    for f in d.fields:
        if f.setter:
            fn = "clear_" + f.name
            out.append(c.blk(fn, c.st() + " s.%s(); let post = vw(&s);" % fn +
                             c.ens(fn, "exactly this field becomes zero", "post == put(pre, %d, %d, %s)" % (f.off, f.w, d.lit(norm0(f)))) + c.same_ig(fn)))
    return out


def p_C14(d):
    c = C(d, "C14")
    out = []
    if not d.has("invert_bit_ops"):
        return out
    wt = 1.0 if not d.arr else 6.0
    fn = "invert_%s" % d.bob
    out.append(c.blk(fn, c.st() + " s.%s(); let post = vw(&s); let src = pre.not().and(%s); %s" % (
        fn, d.lit((1 << d.N) - 1), c.from_all("post", "src", "pre", lambda f: f.setter)) +
        c.ens(fn, "flips exactly the writable bits", "post == e") + c.same_ig(fn), wt))
    if all(f.kind != "custom" or f.ty in TRANSPARENT for f in d.fields):
        out.append(c.blk(fn + " twice", c.st() + " s.%s(); s.%s(); let post = vw(&s);" % (fn, fn) +
                         c.ens(fn, "twice is the identity", "post == pre"), wt * 1.5))
    for f in d.fields:
        if f.setter:
            fn = "invert_" + f.name
            out.append(c.blk(fn, c.st() + " s.%s(); let post = vw(&s); let r = get(%s.not(), 0, %d);" % (fn, c.g("pre", f), f.w) +
                             c.ens(fn, "flips exactly the field", "post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "r"))) + c.same_ig(fn)))
        if f.getter:
            fn = f.name + "_inverted"
            out.append(c.blk(fn, c.st() + " let x = s.%s(); let post = vw(&s); let r = get(%s.not(), 0, %d);" % (fn, c.g("pre", f), f.w) +
                             c.ens(fn, "complement within the width", c.eqv(f, "x", c.typed(f, "r"))) +
                             c.ens(fn, "changes nothing", "post == pre")))
    return out


def p_C15(d):
    c = C(d, "C15")
    out = []
    if not d.has("builder"):
        return out
    nv, nw = d.lit(new_val(d)), d.lit(nwd_val(d))
    out.append(c.blk("Builder::new", "let b = TBuilder::new().build();" + c.ens("Builder::new", "starts from new()", "vw(&b) == %s" % nv)))
    out.append(c.blk("Builder::new_without_defaults", "let b = TBuilder::new_without_defaults().build();" +
                     c.ens("Builder::new_without_defaults", "starts from new_without_defaults()", "vw(&b) == %s" % nw)))
    out.append(c.blk("build", "let b = mkb(); let pre = vb(&b); let s = b.build();" + c.ens("build", "returns the accumulated value", "vw(&s) == pre")))
    fs = [f for f in d.fields if not f.reserved]
    for f in fs:
        n = "with_" + f.name
        out.append(c.blk(n, "let b = mkb(); let pre = vb(&b); let ig0 = igb(&b); let v = %s; let raw = %s; let s = b.%s(v).build(); let post = vw(&s);" % (
            c.anyv(f), c.raw(f, "v"), n) +
            c.ens(n, "writes exactly the field", "post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "raw"))) + c.same_ig(n)))
        n = "checked_with_" + f.name
        out.append(c.blk(n, "let b = mkb(); let pre = vb(&b); let v = %s; assume(%s); let raw = %s; let r = b.%s(v);" % (
            c.anyv(f), c.fits(f, "v"), c.raw(f, "v"), n) +
            c.ens(n, "accepts a fitting value", "r.is_ok()") +
            " if let Ok(b) = r { let post = vb(&b);" +
            c.ens(n, "same outcome as the unchecked form", "post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "raw"))) + " }"))
    # a chain over all fields starting from new(), in reverse declaration order
    if fs and len(fs) <= 10:
        code = ""
        for i, f in enumerate(fs):
            code += "let v%d = %s; let r%d = %s; " % (i, c.anyv(f), i, c.raw(f, "v%d" % i))
        chain = "".join(".with_%s(v%d)" % (f.name, i) for i, f in reversed(list(enumerate(fs))))
        code += "let s = TBuilder::new()%s.build(); let post = vw(&s); let mut e = %s;" % (chain, nv)
        for i, f in enumerate(fs):
            code += " e = put(e, %d, %d, %s);" % (f.off, f.w, c.sto(f, c.g("post", f), "r%d" % i))
        out.append(c.blk("chain", code + c.ens("with chain", "accumulates every field", "post == e"), 2.0 if not d.arr else 6.0))
    return out


def field_everything(c, f):
    """all operations touching one field, contract restricted to that field's bits"""
    d = c.d
    out = []
    n = f.name
    wt = 1.0 if not d.arr else 5.0
    if f.setter:
        out.append(setter_blk(c, f))
    if f.getter:
        out.append(getter_blk(c, f))
    if f.setter and f.getter:
        exp = c.typed(f, c.raw(f, "v"))
        out.append(c.blk("set/get " + n, "let mut s = mk(); let v = %s; s.set_%s(v); let r = s.%s();" % (c.anyv(f), n, n) +
                         c.ens("set_" + n, "reads back", c.eqv(f, "r", exp)), 1.5))
    if not f.reserved and d.has("builder"):
        out.append(c.blk("with_" + n, "let b = mkb(); let pre = vb(&b); let v = %s; let raw = %s; let s = b.with_%s(v).build(); let post = vw(&s);" % (
            c.anyv(f), c.raw(f, "v"), n) +
            c.ens("with_" + n, "writes exactly the field", "post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "raw")))))
    if d.has("from_into_bits"):
        for fn, e in c.endians("from"):
            out.append(c.blk(fn, "let x: %s = nd(); let s = T::%s(x); let got = %s; let r = %s;" % (
                d.storage, fn, c.g("vw(&s)", f), c.g(c.view_of_input("x", e), f)) +
                c.ens(fn, "field %s taken from its bits" % n, "got == %s" % c.sto(f, "got", "r")), wt))
    if d.has("write_bit_ops") and f.setter:
        fn, e = c.endians("write")[2]
        out.append(c.blk(fn, "let mut s = mk(); let x: %s = nd(); s.%s(x); let got = %s; let r = %s;" % (
            d.storage, fn, c.g("vw(&s)", f), c.g(c.view_of_input("x", e, True), f)) +
            c.ens(fn, "field %s taken from its bits" % n, "got == %s" % c.sto(f, "got", "r")), wt))
    if d.has("clear_bit_ops") and f.setter:
        out.append(c.blk("clear_" + n, c.st() + " s.clear_%s(); let post = vw(&s);" % n +
                         c.ens("clear_" + n, "zero", "post == put(pre, %d, %d, %s)" % (f.off, f.w, d.lit(norm0(f))))))
    if d.has("invert_bit_ops"):
        if f.setter:
            out.append(c.blk("invert_" + n, c.st() + " s.invert_%s(); let post = vw(&s); let r = get(%s.not(), 0, %d);" % (n, c.g("pre", f), f.w) +
                             c.ens("invert_" + n, "complement", "post == put(pre, %d, %d, %s)" % (f.off, f.w, c.sto(f, c.g("post", f), "r")))))
        if f.getter:
            out.append(c.blk(n + "_inverted", c.st() + " let x = s.%s_inverted(); let r = get(%s.not(), 0, %d);" % (n, c.g("pre", f), f.w) +
                             c.ens(n + "_inverted", "complement", c.eqv(f, "x", c.typed(f, "r")))))
    if f.default is not None and d.has("new"):
        out.append(c.blk("new", "let s = T::new();" + c.ens("new", "default of %s" % n, "%s == %s" % (c.g("vw(&s)", f), d.lit(f.defval)))))
    elif d.has("new"):
        out.append(c.blk("new", "let s = T::new();" + c.ens("new", "zero of %s" % n, "%s == %s" % (c.g("vw(&s)", f), d.lit(norm0(f))))))
    return out


def p_C16(d):
    c = C(d, "C16")
    out = []
    for f in d.fields:
        if f.kind == "custom":
            out += field_everything(c, f)
    return out


def p_C17(d):
    c = C(d, "C17")
    out = []
    for f in d.fields:
        if f.kind == "array":
            out += field_everything(c, f)
    return out


def p_C20(d):
    """every function once, all arguments unconstrained; the obligations are Kani's own checks"""
    c = C(d, "C20")
    out = []
    wt = 1.0 if not d.arr else 5.0
    mx = max([f.w for f in d.fields])

    def add(fn, code, w=1.0, uw=0):
        out.append(c.blk(fn, "let mut s = mk(); let _ = &mut s; " + code, w, uw))
    acc = ""
    for f in d.fields:
        if f.getter:
            acc += "let _ = s.%s(); " % f.name
            if d.has("invert_bit_ops"):
                acc += "let _ = s.%s_inverted(); " % f.name
        if f.setter:
            acc += "s.set_%s(%s); let _ = s.checked_set_%s(%s); " % (f.name, c.anyv(f), f.name, c.anyv(f))
            if d.has("clear_bit_ops"):
                acc += "s.clear_%s(); " % f.name
                if f.default is not None:
                    acc += "s.clear_%s_to_default(); " % f.name
            if d.has("invert_bit_ops"):
                acc += "s.invert_%s(); " % f.name
        if not f.reserved and d.has("builder"):
            acc += "let _ = mkb().with_%s(%s); let _ = mkb().checked_with_%s(%s); " % (f.name, c.anyv(f), f.name, c.anyv(f))
    add("field operations", acc, 3.0)
    st = ""
    if d.has("new"):
        st += "let _ = T::new(); let _ = T::new_without_defaults(); "
    if d.has("default"):
        st += "let _ = <T as Default>::default(); "
    if d.has("builder"):
        st += "let _ = TBuilder::new().build(); let _ = TBuilder::new_without_defaults().build(); "
    if st:
        add("constructors", st)
    if d.has("clear_bit_ops"):
        add("clear", "s.clear_%s(); s.clear_%s_with_defaults();" % (d.bob, d.bob), wt / 2)
    if d.has("invert_bit_ops"):
        add("invert", "s.invert_%s();" % d.bob, wt / 2)
    if d.has("from_into_bits"):
        code = ""
        for fn, e in c.endians("from"):
            code += "let _ = T::%s(nd()); let _ = T::%s_with_defaults(nd()); " % (fn, fn)
        for fn, e in c.endians("into"):
            code += "let _ = mk().%s(); " % fn
        add("from/into", code, wt)
        if d.arr:
            code = "let buf: [u8; %d] = nd(); let len: usize = nd(); assume(len <= %d); " % (d.nbytes + 3, d.nbytes + 3)
            for e in ("", "_le", "_be"):
                for wd in ("", "_with_defaults"):
                    code += "let _ = T::from%s_slice%s(&buf[..len]); let _ = T::checked_from%s_slice%s(&buf[..len]); " % (e, wd, e, wd)
                code += "{ let mut t = buf; s.into%s_slice(&mut t[..len]); let _ = s.checked_into%s_slice(&mut t[..len]); } " % (e, e)
            add("slices", code, wt * 2, max(mx, d.nbytes + 3) + 2)
    if d.has("write_bit_ops"):
        code = "s.write_defaults(); "
        for fn, e in c.endians("write"):
            code += "s.%s(nd()); s.%s_with_defaults(nd()); " % (fn, fn)
        add("write", code, wt)
    if d.has("set_get_bit_ops"):
        add("bit access", "s.set_bit(nd(), nd()); let _ = s.checked_set_bit(nd(), nd()); let _ = s.get_bit(nd()); let _ = s.checked_get_bit(nd());")
        b = d.bob
        for call in ("s.set_%s_range(nd(), nd(), nd());", "let _ = s.checked_set_%s_range(nd(), nd(), nd());",
                     "let _ = s.get_%s_range(nd(), nd());", "let _ = s.checked_get_%s_range(nd(), nd());"):
            add("range access", call % b, 0.6 if not d.arr else 6.0, d.N + 2 if d.arr else 0)
    if d.has("from_traits"):
        code = "let _ = <T as From<%s>>::from(nd()); let _ = <%s as From<T>>::from(mk());" % (d.storage, d.storage)
        add("From", code, wt / 2)
    return out


def p_C21(d):
    c = C(d, "C21")
    out = []
    wt = 1.0 if not d.arr else 4.0
    if d.has("from_traits"):
        e = d.from_endian or "big"
        code = "let x: %s = nd(); let s = <T as From<%s>>::from(x); let post = vw(&s); let src = %s; %s" % (
            d.storage, d.storage, c.view_of_input("x", e), c.from_all("post", "src"))
        code += c.ens("From<raw>", "takes over every bit (%s endian)" % e, "post == e")
        if d.has("from_into_bits"):
            code += " let t = T::from_%s(x);" % d.bob + c.ens("From<raw>", "equals from_%s" % d.bob, "vw(&t) == post")
        if d.ignored:
            code += c.ens("From<raw>", "ignored members at their default", "ig(&s) == (%s,)" % ", ".join(x[2] for x in d.ignored))
        out.append(c.blk("From<raw>", code, wt * 2))
        e = d.into_endian or "big"
        out.append(c.blk("From<T>", "let s = mk(); let pre = vw(&s); let r = <%s as From<T>>::from(s);" % d.storage +
                         c.ens("From<T>", "gives every bit (%s endian)" % e, "r == %s" % c.out_of_view("pre", e))))
    if d.has("default"):
        code = "let s = <T as Default>::default();" + c.ens("Default", "zero plus defaults", "vw(&s) == %s" % d.lit(new_val(d)))
        if d.has("new"):
            code += " let t = T::new();" + c.ens("Default", "equals new()", "vw(&t) == vw(&s)")
        if d.ignored:
            code += c.ens("Default", "ignored members at their default", "ig(&s) == (%s,)" % ", ".join(x[2] for x in d.ignored))
        out.append(c.blk("Default", code))
    if d.copyable():
        code = c.st() + " let t = Clone::clone(&s);" + c.ens("Clone", "same bits", "vw(&t) == pre && vw(&s) == pre")
        if d.ignored:
            code += c.ens("Clone", "same ignored members", "ig(&t) == ig0")
        if not d.heap:
            code += " let u = s; let _ = &s;" + c.ens("Copy", "same bits", "vw(&u) == pre")
            if d.ignored:
                code += c.ens("Copy", "same ignored members", "ig(&u) == ig0")
        out.append(c.blk("Clone/Copy", code))
    return out


PROPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("p_C")}


# ---------------------------------------------------------------------------
# C19: relational contracts over two storage variants of the same fields
def pair_group(d, name):
    """the operation group a pair operation belongs to; None for accessors"""
    own = {f.name for f in d.fields} | {p + f.name for f in d.fields for p in ("set_", "checked_set_")}
    if name in own:
        return None
    if name.startswith("new"):
        return "new"
    if name == "default":
        return "default"
    if name.startswith(("Builder", "with_", "checked_with_")):
        return "builder"
    if name.startswith("clear"):
        return "clear_bit_ops"
    if name.startswith("invert") or name.endswith("_inverted"):
        return "invert_bit_ops"
    if name.startswith("write"):
        return "write_bit_ops"
    if name.startswith(("from_", "into_")):
        return "from_into_bits"
    return "set_get_bit_ops"


def pair_ops(d, sfx, T, raw, ranges=32):
    """list of (operation, declarations of shared arguments, expression giving a comparable tuple).
    `raw` turns the shared byte array `y` into the storage type of this variant."""
    c = C(d, "C19")
    out = []
    B = T + "Builder"
    V = "vw" + sfx
    st = "let mut s = mk_st%s();" % sfx
    ign = "ig%s(&s) == ig0" % sfx if d.ignored else "true"
    i0 = "let ig0 = ig%s(&s);" % sfx if d.ignored else ""
    igd = ("ig%s(&s) == (%s,)" % (sfx, ", ".join(x[2] for x in d.ignored))) if d.ignored else "true"

    def mut(name, call, args="", res="()", pre=""):
        out.append((name, args, "{ %s %s %s %s (%s(&s), %s, %s) }" % (st, i0, pre, call, V, ign, res)))

    def ctor(name, expr, args=""):
        out.append((name, args, "{ let s = %s; (%s(&s), %s) }" % (expr, V, igd)))
    ctor("new", T + "::new()")
    ctor("new_without_defaults", T + "::new_without_defaults()")
    ctor("default", "<%s as Default>::default()" % T)
    ctor("Builder::new", B + "::new().build()")
    ctor("Builder::new_without_defaults", B + "::new_without_defaults().build()")
    for i, f in enumerate(d.fields):
        n = f.name
        a = "let v = %s;" % c.anyv(f)
        obs = {"custom": "%s.into_bits() as u128", "array": "%s"}.get(f.kind, "%s")
        if f.getter:
            mut(n, "let r = s.%s();" % n, res=obs % "r")
            mut(n + "_inverted", "let r = s.%s_inverted();" % n, res=obs % "r")
        if f.setter:
            mut("set_" + n, "s.set_%s(v);" % n, a)
            mut("checked_set_" + n, "let r = s.checked_set_%s(v);" % n, a, "r.is_ok()")
            mut("clear_" + n, "s.clear_%s();" % n)
            if f.default is not None:
                mut("clear_%s_to_default" % n, "s.clear_%s_to_default();" % n)
            mut("invert_" + n, "s.invert_%s();" % n)
        if not f.reserved:
            ctor("with_" + n, B + "::new().with_%s(v).build()" % n, a)
            out.append(("checked_with_" + n, a, "{ let r = %s::new_without_defaults().checked_with_%s(v); match r { Ok(b) => (true, %s(&b.build())), Err(_) => (false, %s) } }" % (
                B, n, V, d.lit(0))))
    b = d.bob
    mut("clear", "s.clear_%s();" % b)
    mut("clear_with_defaults", "s.clear_%s_with_defaults();" % b)
    mut("invert", "s.invert_%s();" % b)
    mut("write_defaults", "s.write_defaults();")
    y = "let y: [u8; %d] = nd();" % d.nbytes
    for e in ("be", "le"):
        mut("write_" + e, "s.write_%s_%s(%s);" % (e, b, raw), y)
        mut("write_%s_with_defaults" % e, "s.write_%s_%s_with_defaults(%s);" % (e, b, raw), y)
        # integer big-endian and array little-endian both are the identity on the view
        fe = e if not d.arr else {"be": "le", "le": "be"}[e]
        ctor("from_" + e, "%s::from_%s_%s(%s)" % (T, fe, b, raw), y)
        ctor("from_%s_with_defaults" % e, "%s::from_%s_%s_with_defaults(%s)" % (T, fe, b, raw), y)
        o = "le::<%s, %d>(r)" % (d.V, d.nbytes) if d.arr else "<%s as View>::from128(r as u128)" % d.V
        out.append(("into_" + e, "", "{ %s let r = s.into_%s_%s(); %s }" % (st, fe, b, o)))
    mut("get_bit", "let r = s.get_bit(i);", "let i: u32 = nd();", "r")
    mut("checked_get_bit", "let r = s.checked_get_bit(i);", "let i: u32 = nd();", "r.is_ok(), r.unwrap_or(false)")
    mut("set_bit", "s.set_bit(i, x);", "let i: u32 = nd(); let x: bool = nd();")
    mut("checked_set_bit", "let r = s.checked_set_bit(i, x);", "let i: u32 = nd(); let x: bool = nd();", "r.is_ok()")
    if d.N <= ranges:
        ol = "let o: u32 = nd(); let l: u32 = nd(); assume(!(o == %d && l == 0));" % d.N
        tv = (lambda r: "le::<%s, %d>(%s)" % (d.V, d.nbytes, r)) if d.arr else (lambda r: "<%s as View>::from128(%s as u128)" % (d.V, r))
        mut("get_range", "let r = s.get_%s_range(o, l);" % b, ol, tv("r"))
        mut("checked_get_range", "let r = s.checked_get_%s_range(o, l);" % b, ol, "match r { Ok(q) => (true, %s), Err(_) => (false, %s) }" % (tv("q"), d.lit(0)))
        mut("set_range", "s.set_%s_range(o, l, %s);" % (b, raw), ol + y)
        mut("checked_set_range", "let r = s.checked_set_%s_range(o, l, %s);" % (b, raw), ol + y, "r.is_ok()")
    return [o for o in out if pair_group(d, o[0]) is None or d.has(pair_group(d, o[0]))]


def c19_blocks(da, db, ranges=32):
    """blocks comparing variant A with variant B; the module defines structs A, B with helpers _a, _b"""
    def raw(d):
        return "y" if d.arr else "%s::from_le_bytes(y)" % d.storage
    A = pair_ops(da, "_a", "A", raw(da), ranges)
    Bo = {n: (a, e) for n, a, e in pair_ops(db, "_b", "B", raw(db), ranges)}
    n = da.nbytes
    out = []
    for name, args, ea in A:
        if name not in Bo:
            continue
        eb = Bo[name][1]
        igna = "".join("let ga%d: %s = nd(); " % (i, t) for i, (_n, t, _x) in enumerate(da.ignored))
        ignb = "".join("let gb%d: %s = nd(); " % (i, t) for i, (_n, t, _x) in enumerate(db.ignored))
        ca = "at_a(%s%s)" % ("st" if da.arr else "%s::from_le_bytes(st)" % da.storage, "".join(", ga%d" % i for i in range(len(da.ignored))))
        cb = "at_b(%s%s)" % ("st" if db.arr else "%s::from_le_bytes(st)" % db.storage, "".join(", gb%d" % i for i in range(len(db.ignored))))
        code = "{ let st: [u8; %d] = nd(); %s%s%s let ra = %s; let rb = %s; ensures!(ra == rb, \"C19|%s|%s|same result and state as the %s variant\"); }" % (
            n, igna, ignb, args, ea.replace("mk_st_a()", ca), eb.replace("mk_st_b()", cb), db.id, name, da.storage + (" heap" if da.heap else ""))
        arr = da.arr or db.arr
        w = 1.5
        if name.startswith(("write", "from", "clear", "invert", "set_range", "get_range", "checked_get_range", "checked_set_range")):
            w = 3.0
        if "range" in name:
            w = 10.0
        out.append(Blk(name, code, w, (da.N + 2) if "range" in name and arr else 0))
    return out
