"""Schemas that use everything the compiler generates code for, shared by the checks that explore all types at once."""
from asn import *
from fam import *

PRIMS = [("Int", INT), ("Bool", BOOL), ("Nul", NUL), ("Oct", OCT), ("Oid", OID), ("Rea", REAL), ("Utf", UTF8),
         ("Bit", Prim("BIT STRING")), ("Enu", Enum([("p", None), ("q", 5), ("r", None)])), ("Ia5", Prim("IA5String")),
         ("Num", Prim("NumericString")), ("Prt", Prim("PrintableString")), ("Vis", Prim("VisibleString")),
         ("Utc", Prim("UTCTime")), ("Gen", Prim("GeneralizedTime")), ("Nam", Prim("INTEGER", [("low", 1), ("high", 300)]))]
MORE = [("Gst", Prim("GeneralString")), ("Gra", Prim("GraphicString")), ("Tel", Prim("TeletexString")), ("Vid", Prim("VideotexString")),
        ("Uni", Prim("UniversalString")), ("Bmp", Prim("BMPString")), ("T61", Prim("T61String")), ("Chs", Prim("CHARACTER STRING"))]


def opt(n, t):
    return Comp(n, t, "OPTIONAL")


def dflt(n, t, text, v):
    return Comp(n, t, (text, v))


def prim_modules(thorough):
    for n, t in PRIMS + (MORE if thorough else []):
        yield Module("Pr" + n, [
            ("Plain", t), ("Long", Tag("APPLICATION", 300, t, "IMPLICIT")), ("Twice", Tag("", 5, t, "EXPLICIT")),
            ("List", Of(Ref("Plain"))), ("Bag", Tag("", 2, Of(Ref("Twice"), "SET"))), ("Comps", Seq([
                Comp("a", Ref("Plain")), opt("b", Ref("Long")), opt("c", Ref("Twice"))])),
            ("Alts", Choice([("a", Ref("Plain")), ("b", Ref("Long")), ("c", Ref("Twice")), ("d", Tag("", 6, Ref("List")))]))], "")


def struct_modules(thorough):
    en = Enum([("red", None), ("green", 5), ("blue", 300)])
    for tagging in ("", "IMPLICIT", "AUTOMATIC"):
        T = (lambda n, t: t) if tagging == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
        name = {"": "Ex", "IMPLICIT": "Im", "AUTOMATIC": "Au"}[tagging]
        yield Module(name + "Seqs", [
            ("Empty", Seq([])), ("EmptyExt", Seq([], ext="end")),
            ("Flat", Seq([Comp("a", T(0, INT)), opt("b", T(1, BOOL)), Comp("c", T(2, UTF8)), opt("d", T(3, OCT))])),
            ("Defs", Seq([dflt("i", T(0, INT), "7", 7), dflt("b", T(1, BOOL), "TRUE", True), dflt("s", T(2, UTF8), '"abc"', b"abc"),
                          dflt("e", T(3, Ref("Colour")), "green", "green"), dflt("o", T(4, OID), "arcs", (1, 2, 3))])), "arcs OBJECT IDENTIFIER ::= { 1 2 3 }",
            ("Colour", en), ("Ext", Seq([Comp("a", T(0, INT)), opt("b", T(1, Ref("Colour")))], ext="end")),
            ("Deep", Seq([Comp("a", T(0, Seq([Comp("b", T(0, Seq([opt("c", T(0, INT)), Comp("d", T(1, NUL))]))), opt("x", T(1, BOOL))]))),
                          opt("y", T(1, Set([Comp("z", T(0, OCT)), opt("w", T(1, Seq([Comp("v", T(0, OID))])))])))])),
            ("Lists", Seq([Comp("a", T(0, Of(INT))), opt("b", T(1, Of(Seq([Comp("x", T(0, UTF8)), opt("y", T(1, NUL))])))),
                           opt("c", T(2, Of(Of(BOOL, "SET"))))]))], tagging)
        yield Module(name + "Sets", [
            ("Empty", Set([])), ("EmptyExt", Set([], ext="end")),
            ("Flat", Set([Comp("a", T(0, INT)), opt("b", T(1, BOOL)), Comp("c", T(2, UTF8)), opt("d", T(3, OCT))])),
            ("Defs", Set([dflt("i", T(0, INT), "7", 7), dflt("b", T(1, BOOL), "TRUE", True), dflt("s", T(2, UTF8), '"abc"', b"abc")])),
            ("Ext", Set([Comp("a", T(0, INT)), opt("b", T(1, BOOL))], ext="end")),
            ("Mixed", Set([Comp("a", T(0, INT)), Comp("b", T(1, Choice([("x", T(3, BOOL)), ("y", T(4, NUL))]))),
                           opt("c", T(2, Of(INT, "SET")))]))], tagging)
        yield Module(name + "Chos", [
            ("Flat", Choice([("a", T(0, INT)), ("b", T(1, BOOL)), ("c", T(2, UTF8)), ("d", T(3, NUL))])),
            ("Nest", Choice([("a", T(10, Ref("Flat"))), ("b", T(11, Choice([("x", T(12, INT)), ("y", T(13, OID))]))),
                             ("c", T(14, Seq([Comp("p", T(0, INT)), opt("q", T(1, Ref("Flat")))])))])),
            ("Tagged", Tag("APPLICATION", 3, Ref("Flat"), "EXPLICIT")),
            ("Lists", Choice([("a", T(0, Of(INT))), ("b", T(1, Of(Ref("Flat")))), ("c", T(2, Of(Seq([Comp("x", T(0, INT))]), "SET")))])),
            ("Use", Seq([Comp("c", Ref("Flat")), opt("d", T(20, Ref("Nest"))), Comp("e", T(21, INT))]))], tagging)


def rec_modules(thorough):
    yield Module("Rec", [
        ("Tree", Seq([Comp("v", INT), opt("l", Tag("", 0, Ref("Tree"), "IMPLICIT")), opt("r", Tag("", 1, Ref("Tree")))])),
        ("List", Seq([Comp("s", UTF8), Comp("t", Of(Ref("List")))])),
        ("Expr", Choice([("n", INT), ("neg", Tag("", 1, Ref("Expr"))), ("sum", Tag("", 2, Of(Ref("Expr")))),
                         ("pair", Set([Comp("x", Tag("", 3, Ref("Expr"))), opt("y", Tag("", 4, Ref("Expr")))]))])),
        ("Ping", Set([opt("p", Tag("", 5, Ref("Pong"))), Comp("b", BOOL)])),
        ("Pong", Seq([opt("q", Ref("Ping")), opt("o", OCT)])), ("Nest", Of(Ref("Nest")))], "")


def import_modules():
    return [Module("ImpA", [("A", Seq([Comp("b", Ref("B")), opt("c", Tag("", 9, Ref("C")))]))], "AUTOMATIC", [(["B", "C"], "ImpB")]),
            Module("ImpB", [("B", Tag("APPLICATION", 1, Seq([Comp("x", Tag("", 0, INT)), Comp("y", Tag("", 1, Ref("C")))]))),
                            ("C", Choice([("p", Tag("", 2, OCT)), ("q", Tag("", 3, Ref("D")))]))], "IMPLICIT", [(["D"], "ImpC")]),
            Module("ImpC", [("D", Set([Comp("e", Enum([("k", 3), ("l", 1)])), opt("f", Tag("PRIVATE", 70, REAL))]))], "")]


def groups(thorough):
    """[(unit name, modules)]"""
    out = [(m.name.lower(), [m]) for f in (prim_modules, struct_modules, rec_modules) for m in f(thorough)]
    return out + [("imports", import_modules())]


def world(w, thorough):
    """units with a subject for every type; [subject]"""
    out = []
    for name, mods in groups(thorough):
        u = w.unit(name, mods)
        for m in mods:
            for a in (a for a in m.assigns if not isinstance(a, str)):
                out.append(u.subject(m, a[0]))
    return out


def edits(env, t, mod, wire):
    """the message with one of its elements left out, doubled, emptied, of another class, of the other form, or with an octet
    more in it; lengths are right"""
    out = []

    def rebuild(data):
        # elements of a constructed content
        es, i = [], 0
        while i < len(data):
            e = parse(data[i:])
            if e is None:
                return None
            es.append(e)
            i += len(e.raw)
        return es

    def walk(data, put):
        es = rebuild(data)
        if es is None:
            return
        for k, e in enumerate(es):
            before, after = b"".join(x.raw for x in es[:k]), b"".join(x.raw for x in es[k + 1:])

            def here(b):
                put(before + b + after)
            here(b"")
            here(e.raw + e.raw)
            here(bytes([e.raw[0] ^ 0x40]) + e.raw[1:])
            here(bytes([e.raw[0] ^ 0x20]) + e.raw[1:])
            tag = (e.cls, e.tag)
            if e.content:
                here(tlv(tag, e.cons, b""))
            here(tlv(tag, e.cons, e.content + (b"\x85" if e.content == b"\x00" else b"\x05")))  # no padded integers
            if e.cons:
                walk(e.content, lambda b, tag=tag: here(tlv(tag, True, b)))
    walk(wire, out.append)
    return list(dict.fromkeys(out))
