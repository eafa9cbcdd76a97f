"""ASN.1 model: types, printing, X.680/X.690 reference encoder and decoder, C++ value builders.

Values: INTEGER int, BOOLEAN bool, NULL None, strings bytes, ENUMERATED item name, OBJECT IDENTIFIER tuple, REAL float,
SEQUENCE/SET dict (only the components given; a missing DEFAULT component means its default), ... OF list,
CHOICE (alternative name, value).
"""
import re

UNIV = {"BOOLEAN": 1, "INTEGER": 2, "BIT STRING": 3, "OCTET STRING": 4, "NULL": 5, "OBJECT IDENTIFIER": 6, "REAL": 9,
        "ENUMERATED": 10, "UTF8String": 12, "SEQUENCE": 16, "SET": 17, "NumericString": 18, "PrintableString": 19,
        "TeletexString": 20, "T61String": 20, "VideotexString": 21, "IA5String": 22, "UTCTime": 23,
        "GeneralizedTime": 24, "GraphicString": 25, "VisibleString": 26, "ISO646String": 26, "GeneralString": 27,
        "UniversalString": 28, "CHARACTER STRING": 29, "BMPString": 30, "DATE": 31, "TIME-OF-DAY": 32,
        "DATE-TIME": 33, "DURATION": 34}
CLS = {"UNIVERSAL": 0, "APPLICATION": 1, "": 2, "PRIVATE": 3}
STRINGS = ("OCTET STRING", "UTF8String", "PrintableString", "IA5String", "VisibleString", "NumericString",
           "GeneralString", "GraphicString", "TeletexString", "T61String", "VideotexString", "ISO646String",
           "UniversalString", "CHARACTER STRING", "BMPString")
REFUSE = "REFUSE"


class Type:
    def __repr__(self):
        return show(self)


class Prim(Type):
    def __init__(self, name, named=None, constraint=""):
        self.name, self.named, self.constraint = name, named, constraint  # named: [(name, number)] of an INTEGER


class Enum(Type):
    """items: [(name, number or None)]; ext: None, or the items after '...'"""

    def __init__(self, items, ext=None):
        self.items, self.ext = items, ext

    def numbers(self):
        out, used = {}, {n for (_, n) in self.items if n is not None}
        nxt = 0
        for name, n in self.items:  # X.680 20.5: implied numbers are the smallest not used in the root
            if n is None:
                while nxt in used:
                    nxt += 1
                n = nxt
                used.add(n)
            out[name] = n
        last = None
        for name, n in self.ext or []:  # 20.6: smallest not used yet and larger than preceding additions
            if n is None:
                n = 0 if last is None else last + 1
                while n in used:
                    n += 1
            used.add(n)
            last = n
            out[name] = n
        return out


class Comp:
    def __init__(self, name, type, opt=None):
        self.name, self.type, self.opt = name, type, opt  # opt: None, "OPTIONAL" or (text, value)


class CompsOf:
    def __init__(self, type):
        self.type = type


class In(Type):
    """a type as written in another module"""

    def __init__(self, mod, inner):
        self.mod, self.inner = mod, inner


class Seq(Type):
    """ext: None, "end" (marker after the last component), or (i, j): components i to j are additions, between two markers, or
    after one if j is the number of components"""

    def __init__(self, comps, kind="SEQUENCE", ext=None):
        self.comps, self.kind, self.ext = comps, kind, ext


def Set(comps, ext=None):
    return Seq(comps, "SET", ext)


class Of(Type):
    def __init__(self, elem, kind="SEQUENCE", name=None, size=""):
        self.elem, self.kind, self.name, self.size = elem, kind, name, size


class Choice(Type):
    def __init__(self, alts, ext=None):
        self.alts, self.ext = [Comp(a.name, a.type) if isinstance(a, Comp) else Comp(*a) for a in alts], ext


class Tag(Type):
    def __init__(self, cls, num, inner, mode=None):
        self.cls, self.num, self.inner, self.mode = cls, num, inner, mode


class Ref(Type):
    def __init__(self, name, args=None):
        self.name, self.args = name, args


class Raw(Type):
    """text as written in the schema, meaning the type `means`"""

    def __init__(self, text, means):
        self.text, self.means = text, means


class Module:
    """assigns: [(name, Type)] or [str] (any other assignment, as text); imports: [(names, module)]"""

    def __init__(self, name, assigns, tagging="", imports=()):
        self.name, self.assigns, self.tagging, self.imports = name, list(assigns), tagging, list(imports)

    def types(self):
        return {a[0]: a[1] for a in self.assigns if not isinstance(a, str)}

    def text(self):
        s = "%s DEFINITIONS %s::= BEGIN\n" % (self.name, (self.tagging + " TAGS ") if self.tagging else "")
        if self.imports:
            s += "IMPORTS " + " ".join("%s FROM %s" % (", ".join(n), m) for (n, m) in self.imports) + ";\n"
        for a in self.assigns:
            s += a + "\n" if isinstance(a, str) else "%s ::= %s\n" % (a[0], show(a[1]))
        return s + "END\n"


# --------------------------------------------------------------------------------------------------------- printing
def show(t):
    if isinstance(t, Raw):
        return t.text
    if isinstance(t, Prim):
        return t.name + (" {%s}" % ", ".join("%s(%s)" % x for x in t.named) if t.named else "") + t.constraint
    if isinstance(t, Enum):
        def items(l):
            return ", ".join(n if v is None else "%s(%d)" % (n, v) for (n, v) in l)
        s = items(t.items)
        if t.ext is not None:
            s += (", " if s else "") + "..." + (", " + items(t.ext) if t.ext else "")
        return "ENUMERATED { %s }" % s
    if isinstance(t, Seq):
        parts = []
        for c in t.comps:
            if isinstance(c, CompsOf):
                parts.append("COMPONENTS OF " + show(c.type))
                continue
            s = "%s %s" % (c.name, show(c.type))
            if c.opt == "OPTIONAL":
                s += " OPTIONAL"
            elif c.opt is not None:
                s += " DEFAULT " + c.opt[0]
            parts.append(s)
        if t.ext == "end":
            parts.append("...")
        elif t.ext:
            i, j = t.ext
            if j < len(parts) or i == j:
                parts.insert(j, "...")
            if i != j:
                parts.insert(i, "...")
        return "%s { %s }" % (t.kind, ", ".join(parts))
    if isinstance(t, Of):
        return "%s %sOF %s%s" % (t.kind, t.size, (t.name + " ") if t.name else "", show(t.elem))
    if isinstance(t, Choice):
        alts = ["%s %s" % (a.name, show(a.type)) for a in t.alts]
        if t.ext:
            alts.insert(len(alts) if t.ext is True else t.ext, "...")
        return "CHOICE { %s }" % ", ".join(alts)
    if isinstance(t, Tag):
        return "[%s%d] %s%s" % (t.cls + " " if t.cls else "", t.num, t.mode + " " if t.mode else "", show(t.inner))
    if isinstance(t, Ref):
        return t.name + (" {%s}" % ", ".join(show(a) for a in t.args) if t.args else "")
    raise TypeError(t)


# -------------------------------------------------------------------------------------------------------- reference
class Env:
    """Type environment: resolves references across modules."""

    def __init__(self, modules):
        self.mods = {m.name: m for m in modules}

    def lookup(self, name, mod):
        m = self.mods[mod]
        if "." in name:
            mod, name = name.split(".")
            return self.mods[mod].types()[name], mod
        t = m.types()
        if name in t:
            return t[name], mod
        for names, src in m.imports:
            if name in names:
                return self.lookup(name, src)
        raise KeyError(name)

    def base(self, t, mod):
        """(type without tags and references, its module)"""
        while True:
            if isinstance(t, Ref):
                t, mod = self.lookup(t.name, mod)
            elif isinstance(t, Tag):
                t = t.inner
            elif isinstance(t, Raw):
                t = t.means
            elif isinstance(t, In):
                t, mod = t.inner, t.mod
            else:
                return t, mod

    def chain(self, t, mod):
        """the tags of t, outermost first; empty for an untagged choice"""
        if isinstance(t, Raw):
            return self.chain(t.means, mod)
        if isinstance(t, In):
            return self.chain(t.inner, t.mod)
        if isinstance(t, Ref):
            return self.chain(*self.lookup(t.name, mod))
        if isinstance(t, Tag):
            inner = self.chain(t.inner, mod)
            mode = t.mode or {"": "EXPLICIT", "EXPLICIT": "EXPLICIT"}.get(self.mods[mod].tagging, "IMPLICIT")
            tag = (CLS[t.cls], t.num)
            if mode == "EXPLICIT" or not inner:
                return [tag] + inner
            return [tag] + inner[1:]
        if isinstance(t, Choice):
            return []
        if isinstance(t, Enum):
            return [(0, 10)]
        if isinstance(t, Seq) or isinstance(t, Of):
            return [(0, UNIV[t.kind])]
        if t.name == "ANY":
            return []
        return [(0, UNIV[t.name])]

    def comps(self, t, mod):
        """[(Comp, type with automatic tagging applied, module of the type)], COMPONENTS OF expanded"""
        src = t.alts if isinstance(t, Choice) else t.comps
        auto = self.mods[mod].tagging == "AUTOMATIC" and not any(
            isinstance(c.type, Tag) for c in src if isinstance(c, Comp))
        added = range(*t.ext) if isinstance(getattr(t, "ext", None), tuple) else ()
        out = []
        for k, c in enumerate(src):
            if isinstance(c, CompsOf):
                b, bm = self.base(c.type, mod)
                root = [d for i, d in enumerate(b.comps) if not (isinstance(b.ext, tuple) and i in range(*b.ext))]
                for (d, dt, dm) in self.comps(Seq(root, b.kind), bm):
                    # X.680 25.4, 25.8: components are included before automatic tagging of either type
                    out.append((d, d.type, dm, k in added))
            else:
                out.append((c, c.type, mod, k in added))
        if auto:
            order = [x for x in out if not x[3]] + [x for x in out if x[3]]
            out = [(c, AutoTag(next(i for i, o in enumerate(order) if o[0] is c), ty), m, x) for (c, ty, m, x) in out]
        return [(c, ty, m) for (c, ty, m, x) in out]

    def outer(self, t, mod):
        """the identifiers an encoding of t may begin with"""
        ch = self.chain(t, mod)
        if ch:
            return [ch[0]]
        b, m = self.base(t, mod)
        if isinstance(b, Prim):
            return None  # ANY
        return [x for (_, ty, tm) in self.comps(b, m) for x in self.outer(ty, tm)]

    # -- encoding
    def content(self, b, m, v):
        if isinstance(b, Enum):
            return integer(v[1] if isinstance(v, tuple) else b.numbers()[v])
        if isinstance(b, Of):
            return b"".join(self.encode(b.elem, m, x) for x in v)
        if isinstance(b, Seq):
            out = b""
            for c, ty, tm in self.comps(b, m):
                if c.name in v and not (isinstance(c.opt, tuple) and v[c.name] == c.opt[1]):
                    out += self.encode(ty, tm, v[c.name])
            return out
        n = b.name
        if n == "INTEGER":
            return integer(v)
        if n == "BOOLEAN":
            return b"\xff" if v else b"\x00"
        if n == "NULL":
            return b""
        if n == "OBJECT IDENTIFIER":
            return oid(v)
        if n == "REAL":
            return real(v)
        return v

    def encode(self, t, mod, v):
        ch = self.chain(t, mod)
        b, m = self.base(t, mod)
        if isinstance(b, Choice):
            (ty, tm) = next((ty, tm) for (c, ty, tm) in self.comps(b, m) if c.name == v[0])
            e = self.encode(ty, tm, v[1])
        elif isinstance(b, Prim) and b.name == "ANY":
            e = v
        else:
            cons = isinstance(b, (Seq, Of))
            e = tlv(ch[-1], cons, self.content(b, m, v))
            ch = ch[:-1]
        for tag in reversed(ch):
            e = tlv(tag, True, e)
        return e

    # -- decoding
    def decode(self, t, mod, data):
        """value of the element data begins with, or REFUSE"""
        e = parse(data)
        if e is None:
            return REFUSE
        return self._decode(t, mod, e)

    def _decode(self, t, mod, e):
        ch = self.chain(t, mod)
        b, m = self.base(t, mod)
        own = 0 if isinstance(b, Choice) or (isinstance(b, Prim) and b.name == "ANY") else 1
        for tag in ch[:len(ch) - own]:
            if (e.cls, e.tag) != tag or not e.cons:
                return REFUSE
            e = parse(e.content)
            if e is None:
                return REFUSE
        if isinstance(b, Choice):
            for c, ty, tm in self.comps(b, m):
                o = self.outer(ty, tm)
                if (e.cls, e.tag) in o:
                    v = self._decode(ty, tm, e)
                    return REFUSE if v is REFUSE else (c.name, v)
            return REFUSE
        if not own:
            return e.raw
        if (e.cls, e.tag) != ch[-1] or e.cons != isinstance(b, (Seq, Of)):
            return REFUSE
        return self.decode_content(b, m, e.content)

    def decode_content(self, b, m, c):
        if isinstance(b, Enum):
            n = unint(c)
            for k, x in b.numbers().items():
                if x == n:
                    return k
            return REFUSE if n is None else ("unknown", n)
        if isinstance(b, Of):
            out = []
            while c:
                e = parse(c)
                if e is None:
                    return REFUSE
                v = self._decode(b.elem, m, e)
                if v is REFUSE:
                    return REFUSE
                out.append(v)
                c = c[len(e.raw):]
            return out
        if isinstance(b, Seq) and b.kind == "SEQUENCE":
            out = {}
            for (k, ty, tm) in self.comps(b, m):
                e = parse(c)
                o = self.outer(ty, tm)
                if e is not None and ((e.cls, e.tag) in o if o is not None else True):
                    v = self._decode(ty, tm, e)
                    if v is REFUSE:
                        return REFUSE
                    out[k.name] = v
                    c = c[len(e.raw):]
                elif k.opt is None:
                    return REFUSE
            return self.normal(b, m, out)
        if isinstance(b, Seq):
            out, comps = {}, self.comps(b, m)
            while c:
                e = parse(c)
                if e is None:
                    break  # octets behind the last complete component are not looked at
                hit = [x for x in comps if (e.cls, e.tag) in self.outer(x[1], x[2])]
                if hit:
                    k, ty, tm = hit[0]
                    if k.name in out:
                        return REFUSE
                    v = self._decode(ty, tm, e)
                    if v is REFUSE:
                        return REFUSE
                    out[k.name] = v
                elif not b.ext:
                    return REFUSE
                c = c[len(e.raw):]
            if any(k.opt is None and k.name not in out for (k, _, _) in comps):
                return REFUSE
            return self.normal(b, m, out)
        n = b.name
        if n == "INTEGER":
            v = unint(c)
            return REFUSE if v is None or len(c) > 8 else v
        if n == "BOOLEAN":
            return REFUSE if len(c) != 1 else c != b"\x00"
        if n == "NULL":
            return REFUSE if c else None
        if n == "OBJECT IDENTIFIER":
            return unoid(c)
        if n == "REAL":
            return unreal(c)
        return c

    def normal(self, b, m, v):
        """components equal to their default are the same as absent ones"""
        return {k.name: v[k.name] for (k, _, _) in self.comps(b, m)
                if k.name in v and not (isinstance(k.opt, tuple) and v[k.name] == k.opt[1])}

    def normalize(self, t, mod, v):
        b, m = self.base(t, mod)
        if isinstance(b, Seq):
            types = {c.name: (ty, tm) for (c, ty, tm) in self.comps(b, m)}
            return self.normal(b, m, {k: self.normalize(*types[k], x) for k, x in v.items()})
        if isinstance(b, Of):
            return [self.normalize(b.elem, m, x) for x in v]
        if isinstance(b, Choice):
            ty, tm = next((ty, tm) for (c, ty, tm) in self.comps(b, m) if c.name == v[0])
            return (v[0], self.normalize(ty, tm, v[1]))
        return v


class AutoTag(Tag):
    def __init__(self, num, inner):
        Tag.__init__(self, "", num, inner, "IMPLICIT")


class Elem:
    pass


def parse(data):
    """the element data begins with, or None (definite lengths, as the library supports)"""
    if len(data) < 2:
        return None
    e = Elem()
    e.cls, e.cons, e.tag = data[0] >> 6, bool(data[0] & 0x20), data[0] & 0x1f
    i = 1
    if e.tag == 0x1f:
        e.tag = 0
        while True:
            if i >= len(data):
                return None
            e.tag = e.tag << 7 | data[i] & 0x7f
            i += 1
            if not data[i - 1] & 0x80:
                break
    if i >= len(data):
        return None
    n = data[i]
    i += 1
    if n & 0x80:
        k = n & 0x7f
        if k == 0 or k > 8 or i + k > len(data):
            return None
        n = int.from_bytes(data[i:i + k], "big")
        i += k
    if i + n > len(data):
        return None
    e.content, e.raw = data[i:i + n], data[:i + n]
    return e


def ident(tag, cons):
    c, n = tag
    b = c << 6 | (0x20 if cons else 0)
    if n < 31:
        return bytes([b | n])
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(0x80 | n & 0x7f)
        n >>= 7
    return bytes([b | 0x1f]) + bytes(reversed(out))


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def tlv(tag, cons, content):
    return ident(tag, cons) + length(len(content)) + content


def integer(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return v.to_bytes(n, "big", signed=True)


def unint(c):
    return int.from_bytes(c, "big", signed=True) if c else None


def oid(v):
    out = b""
    for a in (v[0] * 40 + v[1],) + tuple(v[2:]):
        s = [a & 0x7f]
        a >>= 7
        while a:
            s.append(0x80 | a & 0x7f)
            a >>= 7
        out += bytes(reversed(s))
    return out


def unoid(c):
    if not c or c[-1] & 0x80:
        return REFUSE
    subs, a = [], 0
    for b in c:
        a = a << 7 | b & 0x7f
        if not b & 0x80:
            subs.append(a)
            a = 0
    f = min(subs[0] // 40, 2)
    return (f, subs[0] - 40 * f) + tuple(subs[1:])


def real(v):
    """base 2, mantissa odd, as DER"""
    if v == 0:
        return b""
    s, (m, e) = v < 0, (abs(v).as_integer_ratio())
    exp = -(e.bit_length() - 1)
    while m % 2 == 0:
        m //= 2
        exp += 1
    eb = integer(exp)
    mb = m.to_bytes((m.bit_length() + 7) // 8, "big")
    return bytes([0x80 | (0x40 if s else 0) | len(eb) - 1]) + eb + mb


def unreal(c):
    if not c:
        return 0.0
    n = (c[0] & 3) + 1
    v = int.from_bytes(c[1 + n:], "big") * 2.0 ** unint(c[1:1 + n])
    return -v if c[0] & 0x40 else v


# ------------------------------------------------------------------------------------------------------ C++ builders
CPP_WORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const
constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false
float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private
protected public register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch
template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t
while xor xor_eq atomic_cancel atomic_commit atomic_noexcept char8_t char16_t char32_t concept consteval co_await
co_return co_yield import module reflexpr requires synchronized""".split())
# names of the library and of members every generated type has
CPP_RESERVED = set("""Integer Boolean BitString CharacterString Choice Date DateTime Duration EmbeddedPDV Enumerated External
GeneralizedTime IRI Id Identifier InstanceOf Null ObjectIdentifier OctetString Optional Prefixed Real RelativeIRI RelativeOID
Sequence SequenceOf Set SetOf TaggedType Time TimeOfDay decode encode encoded_length BerView BerViewIterator ChoiceId
Choices Class Construction DecodeResult Default DoubleId EncodeResult ExplicitId IsChoiceId StorageMode UniversalTag EOF errno
int64_t size_t uint8_t AcceptedIndex AcceptedType AsnId ExactlyOnce ToType ToTypeImpl decode_with_id encode_with_id encoded_length_with_id""".split())


def cppname(n):
    n = n.replace("-", "_")
    return n + "_" if n in CPP_WORDS or n in CPP_RESERVED else n


class Rep(bytes):
    """a long string of one octet"""

    def __new__(cls, n, fill=b"x"):
        return bytes.__new__(cls, fill * n)


def cstr(b):
    if isinstance(b, Rep) and len(b) > 64:
        return "std::string(%d, '%s')" % (len(b), chr(b[0]))
    return "absl::string_view(\"%s\", %d)" % ("".join("\\%03o" % x for x in b), len(b))


class Builder:
    """C++ statements that give an object (an lvalue expression) a value"""

    def __init__(self, env):
        self.env, self.n = env, 0

    def build(self, t, mod, v, x):
        b, m = self.env.base(t, mod)
        if isinstance(b, Enum):
            return "%s = std::decay_t<decltype(%s.value())>::%s;\n" % (x, x, cppname(v))
        if isinstance(b, Choice):
            comps = self.env.comps(b, m)
            i = next(i for i, (c, _, _) in enumerate(comps) if c.name == v[0])
            self.n += 1
            y = "c%d" % self.n
            return "{ auto& %s = %s.template emplace<%d>(); (void)%s;\n%s}\n" % (
                y, x, i, y, self.build(comps[i][1], comps[i][2], v[1], y))
        if isinstance(b, Of):
            out = ""
            for e in v:
                self.n += 1
                y = "e%d" % self.n
                out += "{ %s.emplace_back(); auto& %s = %s.back(); (void)%s;\n%s}\n" % (
                    x, y, x, y, self.build(b.elem, m, e, y))
            return out
        if isinstance(b, Seq):
            out = ""
            for c, ty, tm in self.env.comps(b, m):
                if c.name not in v:
                    continue
                p = "%s.%s" % (x, cppname(c.name))
                if c.opt == "OPTIONAL":
                    self.n += 1
                    y = "o%d" % self.n
                    out += "{ %s.emplace(); auto& %s = *%s; (void)%s;\n%s}\n" % (
                        p, y, p, y, self.build(ty, tm, v[c.name], y))
                elif c.opt is not None:
                    self.n += 1
                    y = "d%d" % self.n
                    out += "{ vf_element_t<decltype(%s)> %s;\n%s%s = %s; }\n" % (
                        p, y, self.build(ty, tm, v[c.name], y), p, y)
                else:
                    out += self.build(ty, tm, v[c.name], p)
            return out
        n = b.name
        if n == "INTEGER":
            return "%s = %s;\n" % (x, "int64_t(%dll)" % v if v > -2**63 else "std::numeric_limits<int64_t>::min()")
        if n == "BOOLEAN":
            return "%s = %s;\n" % (x, "true" if v else "false")
        if n == "NULL":
            return ""
        if n == "OBJECT IDENTIFIER":
            return "%s = fast_ber::ObjectIdentifierComponents{%s};\n" % (x, ", ".join(map(str, v)))
        if n == "REAL":
            return "%s = double(%r);\n" % (x, v)
        if n == "ANY":
            return "%s = %s;\n" % (x, cstr(v))
        if n in ("UTCTime", "GeneralizedTime"):  # set from its encoding
            return "%s.decode(fast_ber::BerView(absl::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(%s.data()), %d)));\n" % (
                x, cstr(self.env.encode(t, mod, v)), len(self.env.encode(t, mod, v)))
        return "%s = %s;\n" % (x, cstr(v))


# ----------------------------------------------------------------------------------------------------------- values
def values(env, t, mod, small=False, depth=3, cap=6):
    """a few values of every type, covering each alternative, each presence subset and both list ends"""
    b, m = env.base(t, mod)
    if isinstance(b, Enum):
        ns = list(b.numbers())
        return ns if not small else ns[:1] + ns[1:][-1:]
    if isinstance(b, Choice):
        out = []
        for c, ty, tm in env.comps(b, m)[:1 if depth <= 0 else None]:
            out += [(c.name, v) for v in values(env, ty, tm, True, depth - 1, 2)[:2 if not small else 1]]
        return out
    if isinstance(b, Of):
        if depth <= 0:
            return [[]]
        vs = values(env, b.elem, m, True, depth - 1, 2)
        return ([[], [vs[0]], vs + vs] if not small else [vs[:1], []])
    if isinstance(b, Seq):
        comps = env.comps(b, m)
        opts = [i for i, (c, _, _) in enumerate(comps) if c.opt is not None]
        if depth <= 0:
            subsets = [0]
        elif len(opts) <= (1 if small else 4):
            subsets = range(1 << len(opts))
        else:
            subsets = [(1 << len(opts)) - 1, 0] + [1 << i for i in range(len(opts))]
        out = []
        for k, s in enumerate(subsets):
            v = {}
            for i, (c, ty, tm) in enumerate(comps):
                if i in opts and not s >> opts.index(i) & 1:
                    continue
                vs = values(env, ty, tm, True, depth - 1, 2)
                if isinstance(c.opt, tuple):
                    vs = [x for x in vs if x != c.opt[1]] or vs
                v[c.name] = vs[(k + i) % len(vs)]
            out.append(v)
        return out[:64]
    n = b.name
    if n == "INTEGER":
        return [5, -129] if small else [0, 5, 127, 128, -128, -129, 2**63 - 1, -2**63]
    if n == "BOOLEAN":
        return [True, False]
    if n == "NULL":
        return [None]
    if n == "OBJECT IDENTIFIER":
        return [(1, 2, 840), (2, 100, 3)] if small else [(1, 2, 840, 113549), (2, 100, 3), (0, 0)]
    if n == "REAL":
        return [1.5, -0.25] if small else [0.0, 1.5, -0.25, 2.0**70]
    if n == "ANY":
        return [b"\x02\x01\x07"]
    if n == "UTCTime":
        return [b"200101000000Z", b"991231235959Z"]
    if n == "GeneralizedTime":
        return [b"20200101000000Z", b"19991231235959Z"]
    if n == "NumericString":
        return [b"12", b"3"]
    return [b"ab", b""] if small else [b"ab", b"", b"x" * 130]


def cpp(name):
    return re.sub("-", "_", name)


# ------------------------------------------------------------------------------------------------ rewriting, legality
def rewrite(t, f):
    """t with f applied to the types directly within it"""
    if isinstance(t, Seq):
        return Seq([CompsOf(f(c.type)) if isinstance(c, CompsOf) else Comp(c.name, f(c.type), c.opt) for c in t.comps], t.kind, t.ext)
    if isinstance(t, Choice):
        return Choice([Comp(a.name, f(a.type)) for a in t.alts], t.ext)
    if isinstance(t, Of):
        return Of(f(t.elem), t.kind, t.name, t.size)
    if isinstance(t, Tag):
        return Tag(t.cls, t.num, f(t.inner), t.mode)
    if isinstance(t, In):
        return In(t.mod, f(t.inner))
    if isinstance(t, Ref) and t.args:
        return Ref(t.name, [f(a) for a in t.args])
    return t


def substitute(t, args):
    if isinstance(t, Ref) and not t.args and t.name in args:
        return args[t.name]
    return rewrite(t, lambda x: substitute(x, args))


def supported(env, t, mod, seen=()):
    """t is legal (the tags of alternatives, of SET components and of SEQUENCE components that may be confused differ) and has
    no more nested tags than the library supports"""
    if isinstance(t, Ref):
        key = (t.name, mod)
        if key in seen:
            return True
        seen = seen + (key,)
    if len(env.chain(t, mod)) > 2 or (isinstance(env.base(t, mod)[0], Choice) and len(env.chain(t, mod)) > 1):
        return False
    if isinstance(t, Ref):
        t2, m2 = env.lookup(t.name, mod)
        return supported(env, t2, m2, seen)
    if isinstance(t, Raw):
        return supported(env, t.means, mod, seen)
    if isinstance(t, (Tag, In)):
        return supported(env, t.inner, t.mod if isinstance(t, In) else mod, seen)
    if isinstance(t, Of):
        return supported(env, t.elem, mod, seen)
    if isinstance(t, (Seq, Choice)):
        comps = env.comps(t, mod)
        run = set()
        for c, ty, tm in comps:
            if not supported(env, ty, tm, seen):
                return False
            o = env.outer(ty, tm)
            if len(set(o)) < len(o) or run & set(o):
                return False
            if isinstance(t, Choice) or t.kind == "SET" or c.opt is not None:
                run |= set(o)
            else:
                run = set()
    return True


def printed(env, t, mod, v):
    """what printing the value gives, as a pattern of harness/json.hpp"""
    b, m = env.base(t, mod)

    def text(s):
        return '"' + s.hex()
    if isinstance(b, Enum):
        return [text(cppname(v).encode())]
    if isinstance(b, Choice):
        _, ty, tm = next(x for x in env.comps(b, m) if x[0].name == v[0])
        return printed(env, ty, tm, v[1])
    if isinstance(b, (Of, Seq)):
        out = []
        if isinstance(b, Of):
            parts = [printed(env, b.elem, m, x) for x in v]
        else:
            parts = []
            for c, ty, tm in env.comps(b, m):
                if c.name in v:
                    p = printed(env, ty, tm, v[c.name])
                elif c.opt == "OPTIONAL":
                    p = ["null"]
                else:
                    p = printed(env, ty, tm, c.opt[1])
                parts.append([text(cppname(c.name).encode()), ":"] + p)
        for p in parts:
            out += ([","] if out else []) + p
        return ["["] + out + ["]"] if isinstance(b, Of) else ["{"] + out + ["}"]
    n = b.name
    if n == "INTEGER":
        return ["#%d" % v]
    if n == "BOOLEAN":
        return ["true" if v else "false"]
    if n == "NULL":
        return ["null"]
    if n == "OBJECT IDENTIFIER":
        return printed(env, Of(Prim("INTEGER")), m, v)
    if n == "REAL":
        return ["~" + float(v).hex()]
    if n in STRINGS and all(32 <= x < 127 for x in v):
        return [text(v)]
    if n in STRINGS or n in ("BIT STRING", "UTCTime", "GeneralizedTime", "DATE", "TIME-OF-DAY", "DATE-TIME", "DURATION"):
        return ["?s"]
    return ["?a"]
