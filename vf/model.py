"""Definition model and the independent layout / default oracle.

A `Def` is a bitfield definition (what a user writes); everything the contracts
say about it (offsets, masks, defaults) is computed here from the definition
text alone, never from the generated code.
"""
from dataclasses import dataclass, field as dfield
from typing import Optional, List

UINTS = ("u8", "u16", "u32", "u64", "u128")
SINTS = ("i8", "i16", "i32", "i64", "i128")

# custom types of spec/prelude.rs: parameter type of from_bits / into_bits
CUSTOM = {"E2": "u8", "Odd": "u8", "Raw8": "u8", "Raw16": "u16", "Raw32": "u32", "Raw64": "u64",
          "Raw128": "u128", "Fl": "u8", "N8": "u8", "N16": "u16"}
# do all raw values survive from_bits/into_bits unchanged
TRANSPARENT = {"Raw8", "Raw16", "Raw32", "Raw64", "Raw128", "N8", "N16"}

# named default expressions and their values
NAMED = {"K_U8": 0x2A, "K_U16": 0x1BCD, "K_U32": 0xC0FFEE, "K_U64": 0x0123456789ABCDEF,
         "K_I8": -3, "K_I16": -300, "K_I32": -70000, "K_I64": -5000000000, "K_BOOL": 1,
         "K_RAW8": 0x15, "f_u8()": 9, "f_i16()": -17,
         "E2::A": 0, "E2::B": 1, "E2::C": 2, "Odd::One": 1, "Odd::Three": 3, "Odd::Five": 5,
         "Fl::A": 0, "Fl::B": 2, "Fl::C": 5, "Raw8(0x7)": 7, "Raw16(0x1FF)": 0x1FF, "Raw32(0xABC)": 0xABC,
         "N8::new()": 0, "true": 1, "false": 0}


def tybits(ty):
    if ty == "bool":
        return 1
    if ty[0] == "[":
        return 8 * int(ty[1:-1].split(";")[1])
    if ty in CUSTOM:
        return None
    return int(ty[1:])


@dataclass
class Field:
    name: str
    ty: str
    bits: Optional[int] = None          # None: width of the type
    access: Optional[str] = None        # None: not written
    default: Optional[str] = None       # source text
    vis: str = "pub"
    attr: Optional[bool] = None         # force / forbid a #[bits] attribute
    # filled in by Def
    off: int = 0

    @property
    def w(self):
        return self.bits if self.bits is not None else tybits(self.ty)

    @property
    def kind(self):
        t = self.ty
        if t == "bool":
            return "bool"
        if t[0] == "[":
            return "array"
        if t in CUSTOM:
            return "custom"
        return "int" if t[0] == "i" else "uint"

    @property
    def K(self):
        return int(self.ty[1:-1].split(";")[1])

    @property
    def P(self):
        return CUSTOM[self.ty]

    @property
    def reserved(self):
        return self.name.startswith("_")

    @property
    def has_attr(self):
        return self.bits is not None or self.access is not None or self.default is not None

    @property
    def acc(self):
        """effective access"""
        if self.reserved:
            if not self.has_attr:
                return "na"
            return "ro" if self.default is not None else "rw"
        return self.access or "rw"

    @property
    def setter(self):
        return not self.reserved and self.acc in ("rw", "wo")

    @property
    def getter(self):
        return not self.reserved and self.acc in ("rw", "ro")

    @property
    def readable(self):
        return self.acc in ("rw", "ro")

    @property
    def consts(self):
        return self.getter or self.setter

    @property
    def defval(self):
        """raw bits of the default within the width (oracle)"""
        if self.default is None:
            return None
        t = self.default
        if t in NAMED:
            v = NAMED[t]
        else:
            u = t.replace("_", "")
            if u.startswith("Raw"):
                u = u[u.index("(") + 1:-1]
            for s in UINTS + SINTS:
                if u.endswith(s) and not u.startswith("0x"):
                    u = u[:-len(s)]
            neg = u.startswith("-")
            v = int(u.lstrip("-"), 0)
            v = -v if neg else v
        return v & ((1 << self.w) - 1)

    def src(self):
        a = []
        if self.bits is not None:
            a.append(str(self.bits))
        if self.access is not None:
            a.append("access = " + self.access)
        if self.default is not None:
            a.append("default = " + self.default)
        at = "#[bits(%s)] " % ", ".join(a) if a else ""
        v = self.vis + " " if self.vis else ""
        return "%s%s%s: %s," % (at, v, self.name, self.ty)


@dataclass
class Def:
    id: str
    storage: str                       # u8..u128 or "[u8; N]"
    fields: List[Field]
    order: Optional[str] = None
    from_endian: Optional[str] = None
    into_endian: Optional[str] = None
    write_endian: Optional[str] = None
    heap: bool = False
    ignored: List[tuple] = dfield(default_factory=list)   # (name, type, default literal)
    copy: Optional[bool] = None
    args: List[str] = dfield(default_factory=list)        # extra arguments, verbatim
    vis: str = "pub"
    tags: set = dfield(default_factory=set)
    note: str = ""
    implicit: frozenset = frozenset()   # settings that come from cargo features, not written in the definition
    env: dict = dfield(default_factory=dict)              # {group: default} from cargo features

    def __post_init__(self):
        cum = 0
        for f in self.fields:
            f.off = cum if self.order != "msb" else self.N - cum - f.w
            cum += f.w
        assert cum == self.N, (self.id, cum, self.N)

    @property
    def arr(self):
        return self.storage[0] == "["

    @property
    def nbytes(self):
        return self.N // 8

    @property
    def N(self):
        return 8 * int(self.storage[1:-1].split(";")[1]) if self.arr else int(self.storage[1:])

    @property
    def V(self):
        return "u128" if self.N <= 128 else "W256" if self.N <= 256 else "Wn<%d>" % ((self.N + 127) // 128)

    @property
    def bob(self):
        return "bytes" if self.arr else "bits"

    def field(self, n):
        return [f for f in self.fields if f.name == n][0]

    def off(self, flag):
        """is a feature switched off by an argument"""
        if (flag + " = true") in self.args:
            return False
        return (flag + " = false") in self.args or not self.env.get(flag, True)

    def has(self, group):
        """does the definition have the function group"""
        if group in ("write_bit_ops", "set_get_bit_ops", "clear_bit_ops", "invert_bit_ops"):
            if self.off("bit_ops"):
                return (group + " = true") in self.args
            return not self.off(group)
        return not self.off(group)

    def copyable(self):
        return self.copy is not False

    def src(self, name="T"):
        a = [self.storage]
        for k in ("order", "from_endian", "into_endian", "write_endian"):
            if getattr(self, k) and k not in self.implicit:
                a.append("%s = %s" % (k, getattr(self, k)))
        if "heap" not in self.implicit and self.heap:
            a.append("array_heap = true")
        if not self.heap and self.env.get("array_heap") and self.arr:
            a.append("array_heap = false")
        if self.copy is not None and "copy" not in self.implicit:
            a.append("copy = " + ("true" if self.copy else "false"))
        a += self.args
        v = self.vis + " " if self.vis else ""
        body = "\n".join("    " + f.src() for f in self.fields)
        for (n, t, _d) in self.ignored:
            body += "\n    #[bits(ignore = true)] pub %s: %s," % (n, t)
        return "#[bitfield(%s)]\n%sstruct %s {\n%s\n}" % (", ".join(a), v, name, body)

    def lit(self, x):
        x &= (1 << self.N) - 1
        if self.V == "u128":
            return "0x%x_u128" % x
        if self.V != "W256":
            return "Wn([%s])" % ", ".join("0x%x" % (x >> (128 * i) & ((1 << 128) - 1)) for i in range((self.N + 127) // 128))
        return "W256 { lo: 0x%x, hi: 0x%x }" % (x & ((1 << 128) - 1), x >> 128)

    def maskof(self, pred):
        m = 0
        for f in self.fields:
            if pred(f):
                m |= ((1 << f.w) - 1) << f.off
        return m
