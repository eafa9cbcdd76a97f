import itertools
import gen
from asn import *
from fam import *

HEX = "0123456789ABCDEF"


def real_text(v):
    """as printf %a"""
    m, e = v.hex().split("p")
    m = m.rstrip("0") if "." in m else m
    return (m[:-1] if m.endswith(".") else m) + "p" + e


def text_of(v):
    """the text of a value, as vf_text gives it"""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return real_text(v)
    if isinstance(v, tuple):
        return ".".join(map(str, v))
    return '"%s"' % v.hex()


def illegal(e):
    """X.680 20.3-20.6: numbers are distinct, those of additions ascending"""
    n = list(e.numbers().values())
    if len(set(n)) != len(n):
        return True
    return False


def ascending(e):
    nums = e.numbers()
    x = [nums[k] for (k, _) in e.ext or []]
    return all(a < b for a, b in zip(x, x[1:]))


def enumerations(c, w):
    numbers = (None, 0, 1, 3) if not c.thorough else (None, 0, 1, 3, -1)
    total = 3
    good, bad = [], []
    for n in range(1, total + 1):
        for choice in itertools.product(numbers, repeat=n):
            items = list(zip("abcd", choice))
            for root in range(1, n + 1):
                for ext in ([None, []] if root == n else [items[root:]]):
                    if ext == [] and n > 2:
                        continue
                    e = Enum(items[:root], ext)
                    if not ascending(e):
                        continue
                    (bad if illegal(e) else good).append(e)
    # larger and negative numbers, and many enumerators
    for big in (-129, -128, 127, 128, 32767, 32768, 2**31 - 1, -2**31):
        good.append(Enum([("a", None), ("b", big), ("c", None)]))
        good.append(Enum([("a", big)], [("b", None)]))
    good.append(Enum([("v%d" % i, None) for i in range(300)]))
    good.append(Enum([("v%d" % i, 299 - i if i % 3 else None) for i in range(300)]))
    per = 16
    for k in range(0, len(good), per):
        m = Module("Enums%d" % k, [("E%d" % i, e) for i, e in enumerate(good[k:k + per])])
        u = w.unit("enumerations-%d" % k, [m])
        for i, e in enumerate(good[k:k + per]):
            s = u.subject(m, "E%d" % i)
            for name in e.numbers():
                s.B(name)
    for k, e in enumerate(bad):
        w.unit("enumerations-clash-%d" % k, [Module("Clash%d" % k, [("E", e)])], expect="refuse")


STR = [('"ab"', b"ab"), ('""', b""), ('"q""q"', b'q"q'), ('"back\\slash"', b"back\\slash"), ('"??/x"', b"??/x"),
       ('"%s"' % ("x" * 200), b"x" * 200)]
OCTS = [("'00FF'H", b"\x00\xff"), ("'ABC'H", b"\xab\xc0"), ("''H", b""), ("'0001'B", b"\x10"),
        ("'0000000011'B", b"\x00\xc0"), ("'41003A22'H", b"A\x00:\""), ("'0a0B'H", b"\x0a\x0b")]
BITS = [("'0101'B", b"\x04\x50"), ("'A5'H", b"\x00\xa5"), ("''B", b"\x00"), ("'00000001'B", b"\x00\x01")]
INTS = [("0", 0), ("-1", -1), ("128", 128), (str(2**63 - 1), 2**63 - 1), (str(-2**63), -2**63),
        (str(2**31), 2**31), ("-1123983485334", -1123983485334)]
REALS = [("1.5", 1.5), ("0.1", 0.1), ("5523432.12323", 5523432.12323), ("123456789012.75", 123456789012.75), ("0.0", 0.0)]
EN, EN2 = Enum([("p", None), ("q", None), ("r", 9)]), Enum([("s", 5), ("t", None)], [("x", None)])
NAMED = Prim("INTEGER", [("low", -7), ("high", 300)])


def defaults(c, w):
    cases = [(INT, x) for x in INTS] + [(BOOL, ("TRUE", True)), (BOOL, ("FALSE", False))]
    cases += [(OCT, x) for x in OCTS + STR[:2]] + [(UTF8, x) for x in STR] + [(Prim("BIT STRING"), x) for x in BITS]
    cases += [(Prim(n), STR[2]) for n in ("IA5String", "VisibleString", "PrintableString")]
    cases += [(REAL, x) for x in REALS]
    cases += [(EN, (n, n)) for n in EN.numbers()] + [(EN2, (n, n)) for n in EN2.numbers()]
    cases += [(NAMED, ("low", -7)), (NAMED, ("high", 300)), (NAMED, ("5", 5))]
    other = {"INTEGER": [77, -78], "BOOLEAN": [True, False], "REAL": [2.5], "BIT STRING": [b"\x00\x77"]}
    per = 6
    for kind in ("SEQUENCE", "SET"):
        for k in range(0, len(cases), per):
            name = "Dflt%s%d" % (kind.capitalize(), k)
            assigns, subj = [], []
            for i, (t, (text, v)) in enumerate(cases[k:k + per]):
                assigns += [("R%d" % i, t), ("G%d" % i, Tag("APPLICATION", i, t)), ("C%d" % i, Ref("R%d" % i)),
                            ("H%d" % i, Tag("", i, Ref("C%d" % i), "IMPLICIT"))]
                uses = [t, Ref("R%d" % i), Ref("G%d" % i), Tag("", 40, t), Ref("C%d" % i), Ref("H%d" % i)]
                if kind == "SET" and not c.thorough:
                    uses = uses[:2] + [uses[-1]]
                comps = [Comp("u%d" % j, Tag("PRIVATE", j, x, "IMPLICIT" if j >= 2 else None)
                              if j or kind == "SET" else x, (text, v)) for j, x in enumerate(uses)]
                assigns.append(("S%d" % i, Seq(comps, kind)))
                b = t.name if isinstance(t, Prim) else None
                o = [x for x in (other.get(b) or (list(t.numbers()) if b is None else [b"zz"])) if x != v][0]
                subj.append(("S%d" % i, [x.name for x in comps], v, o))
            m = Module(name, assigns)
            u = w.unit("defaults-%s-%d" % (kind.lower(), k), [m])
            for s, names, v, o in subj:
                if isinstance(v, float):  # there is more than one encoding of a real number
                    T = "fast_ber::%s::%s" % (m.name, s)
                    u.expr(s + ".size", "int64_t(%s().encoded_length())" % T, "2")
                    for n in names:
                        u.expr(s + n, "double(%s().%s.value())" % (T, n), text_of(v))
                        u.expr(s + n + ".set", "[]{ %s s; s.%s = %r; return s.%s.is_default() && "
                               "s.encoded_length() == 2; }()" % (T, n, v, n), "true")
                        u.expr(s + n + ".other", "[]{ %s s; s.%s = %r; return !s.%s.is_default() && s.%s.value() == %r && "
                               "s.encoded_length() > 2; }()" % (T, n, o, n, n, o), "true")
                    continue
                s = u.subject(m, s)
                s.B({})
                s.B({n: v for n in names})
                s.B({n: o for n in names})
                for n in names:
                    s.B({n: o})
                    s.D(wrap(s, s.type, m.name, b"".join(  # a default value that was sent all the same
                        s.env.encode(ty, tm, v) for (x, ty, tm) in s.env.comps(*s.env.base(s.type, m.name))
                        if x.name == n)))
                s.H([s.encode({}), s.encode({n: o for n in names}), s.encode({}), s.encode({names[-1]: o})])


def references(c, w):
    """values by name: assigned, referenced from another value, imported, imported through a chain, and named like
    components, enumerators and named numbers"""
    vals = [("vi", INT, "-200", -200), ("vb", BOOL, "TRUE", True), ("vs", UTF8, '"text"', b"text"),
            ("vo", OCT, "'0001FF'H", b"\x00\x01\xff"), ("ve", Ref("E"), "r", "r"), ("vn", Ref("N"), "high", 300),
            ("vx", OID, "{ 1 2 840 }", (1, 2, 840)), ("vc", Ref("Chain"), "q", "q")]
    types = [("E", EN), ("N", NAMED), ("Chain", Ref("E"))]
    k = 0
    for where in ("local", "import", "chain", "local-late", "import-late"):
        base = "Vals%d" % k
        decls = ["%s %s ::= %s" % (n, show(t), text) for (n, t, text, v) in vals]
        second = ["w%s %s ::= %s" % (n[1:], show(t), n) for (n, t, text, v) in vals]
        defs = Module(base, [], "")
        names = [n for (n, _, _, _) in vals] + ["w" + n[1:] for (n, _, _, _) in vals]
        comps = []
        for i, (n, t, text, v) in enumerate(vals):
            comps += [Comp("c%d" % i, Tag("", 2 * i, t), (n, v)), Comp("d%d" % i, Tag("", 2 * i + 1, t), ("w" + n[1:], v))]
        # a component named like the value that is its default
        comps.append(Comp("vi", Tag("", 100, INT), ("vi", -200)))
        use = [("S", Seq(comps)), ("Z", Set(comps)), ("Inner", Seq([Comp("in", Seq([Comp("vi", INT, ("wi", -200))]))]))]
        if where == "local":
            defs.assigns = types + decls + second + use
            mods, um = [defs], defs
        elif where == "local-late":
            defs.assigns = use + list(reversed(second)) + list(reversed(decls)) + list(reversed(types))
            mods, um = [defs], defs
        else:
            defs.assigns = types + decls + second
            imp = [t for (t, _) in types] + names
            um = Module("Use%d" % k, use, "", [(imp, base)])
            mods = [defs, um]
            if where == "chain":
                mid = Module("Mid%d" % k, [("Own", NUL)], "", [(imp, base)])
                um.imports = [(imp, mid.name)]
                mods = [defs, mid, um]
            if where == "import-late":
                mods.reverse()
        u = w.unit("references-" + where, mods)
        for s in ("S", "Z"):
            s = u.subject(um, s)
            every = {x.name: x.opt[1] for x in comps}
            s.B({})
            s.B(every)
            for x in comps:
                s.B({x.name: x.opt[1]})
        s = u.subject(um, "Inner")
        s.B({"in": {}})
        s.B({"in": {"vi": -200}})
        s.B({"in": {"vi": 5}})
        for n, t, text, v in vals:
            for name in (n, "w" + n[1:]):
                if isinstance(v, str):
                    u.expr("%s" % name, "fast_ber::%s::%s" % (um.name, name), "enum %d" % EN.numbers()[v])
                else:
                    u.expr("%s" % name, "fast_ber::%s::%s" % (um.name, name), text_of(v))
        k += 1
    # literals of every kind, in value assignments
    lits = [(INT, x) for x in INTS] + [(OCT, x) for x in OCTS] + [(UTF8, x) for x in STR] + [(REAL, x) for x in REALS[:4]]
    lits += [(BOOL, ("TRUE", True)), (BOOL, ("FALSE", False)), (NAMED, ("low", -7)), (Prim("BIT STRING"), BITS[0])]
    oids = [("{ 1 3 6 1 }", (1, 3, 6, 1)), ("{ iso(1) member-body(2) us(840) }", (1, 2, 840)),
            ("{ iso member-body 5 }", (1, 2, 5)), ("{ joint-iso-itu-t 27 }", (2, 27)),
            ("{ itu-t recommendation 3 }", (0, 0, 3)), ("{ base 7 }", (1, 3, 6, 1, 7)), ("{ base leaf(8) arc }", (1, 3, 6, 1, 8, 12)),
            ("{ iso identified-organization dod(6) }", (1, 3, 6)), ("base", (1, 3, 6, 1)),
            ("{ 2 999 2147483647 4294967296 }", (2, 999, 2147483647, 4294967296))]
    lines = ["base OBJECT IDENTIFIER ::= { 1 3 6 1 }", "arc INTEGER ::= 12", "back OBJECT IDENTIFIER ::= { early 1 }",
             "early OBJECT IDENTIFIER ::= { 2 5 }"]
    u = w.unit("literals", [Module("Literals", lines + [
        "x%d %s ::= %s" % (i, show(t), text) for i, (t, (text, _)) in enumerate(lits + [(OID, o) for o in oids])])])
    for i, (t, (text, v)) in enumerate(lits + [(OID, o) for o in oids]):
        u.expr("x%d" % i, "fast_ber::Literals::x%d" % i, text_of(v))
    u.expr("back", "fast_ber::Literals::back", "2.5.1")
    # numbers by reference
    m = Module("ByRef", ["three INTEGER ::= 3", "alias INTEGER ::= three",
                         ("E", Raw("ENUMERATED { a, b(three), c, d(alias5), e }",
                                   Enum([("a", 0), ("b", 3), ("c", 1), ("d", 5), ("e", 2)]))),
                         "alias5 INTEGER ::= 5", ("N", Raw("INTEGER { t(alias) }", Prim("INTEGER", [("t", 3)]))),
                         ("S", Seq([Comp("n", Ref("N"), ("t", 3))]))])
    u = w.unit("numbers-by-reference", [m])
    s = u.subject(m, "E")
    for n in "abcde":
        s.B(n)
    s = u.subject(m, "S")
    s.B({})
    s.B({"n": 3})
    s.B({"n": 0})


def run(c):
    w = gen.World(c)
    enumerations(c, w)
    defaults(c, w)
    references(c, w)
    w.run()
    return c.finish(
        "model_checking",
        "a state is one value of one generated type, or one value assignment, with its encoding or text; every schema in the "
        "bound is compiled, every enumerator and every default is encoded, decoded and compared with the number or value "
        "X.680 gives it, and illegal enumerations must be refused",
        {"enumerations": "all of up to 3 items over implied and explicit numbers (%s), every place of the extension marker; "
                         "boundary numbers; 300 items" % ("0, 1, 3, -1" if c.thorough else "0, 1, 3"),
         "defaults": "every literal form x in place, referenced, tagged, referenced twice x SEQUENCE and SET",
         "references": "values named in the module, imported, through a chain, in both orders; numbers by reference"})
