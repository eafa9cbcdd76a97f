import gen
from asn import *
from fam import *

KEYWORDS = sorted(w.replace("_", "-") for w in CPP_WORDS)
# members, parameters and local names of generated code and of the library, macros and namespaces
LOWER = """encode decode encoded-length encode-with-id decode-with-id encoded-length-with-id index impl emplace value get
m-storage storage asnId aSN input output content iterator result res block id identifier length size data view os object
lhs rhs t i n c a self ok empty fast-ber absl std size-t uint8-t int64-t string vector optional variant swap begin end
holds-alternative visit print tag construction is-valid errno assert stdin unix linux x-y xY xy fooContained
defaultValueX name unnamedSequence0 noexcept-x null e nothing exactlyOnce acceptedIndex acceptedType toType toTypeImpl
in-place-index-t success encodeResult decodeResult berView integer boolean octetString sequenceOf choice choices default
enumerated any fastBer d b identifierT span move forward main signed-char int8-t nan infinity eof""".split()
UPPER = """Integer Boolean OctetString BitString ObjectIdentifier Null Real Enumerated Optional Default Choice Choices
SequenceOf SetOf Any BerView BerViewIterator BerContainer FixedIdBerContainer Id DoubleId ExplicitId ChoiceId Identifier
UniversalTag StorageMode Class Tag Construction EncodeResult DecodeResult Storage ToType ToTypeImpl AsnId ExactlyOnce
AcceptedIndex AcceptedType Nothing- T Args E Type Value Sequence Set Date Time DateTime Duration GeneralizedTime Std
DynamicOptional DynamicVariant X-Y XY Xy XContained XValues X-Values UnnamedSequence0 UnnamedSet0 UnnamedChoice0 UnnamedEnum0
UnnamedTagged0 DefaultValueX DefaultIdentifier Contained Values EOF- NAN INFINITY OuterIdentifier InnerIdentifier
StringImpl ObjectIdentifierComponents AlwaysConstructed IsChoiceId Base Derived Element Extract Fast-ber U G N""".split()
UPPER = [n.rstrip("-") for n in UPPER]
RESERVED_ASN1 = set("""ABSENT ALL ANY APPLICATION AUTOMATIC BEGIN BIT BMPString BOOLEAN BY CHARACTER CHOICE CLASS COMPONENT
COMPONENTS CONSTRAINED CONTAINING DATE DATE-TIME DEFAULT DEFINED DEFINITIONS DURATION EMBEDDED ENCODED END ENUMERATED EXCEPT
EXPLICIT EXPORTS EXTENSIBILITY EXTERNAL FALSE FROM GeneralizedTime INCLUDES INSTANCE INTEGER IMPLIED INFINITY NAN""".split())


def lower(k, n):
    e = Enum([("zz", None), (n, None)])
    return Module("Lo%d" % k, [
        ("Tseq", Seq([Comp(n, INT), Comp("yy", BOOL, "OPTIONAL")])),
        ("Tset", Set([Comp(n, Tag("", 1, OCT), "OPTIONAL"), Comp("yy", Of(BOOL))])),
        ("Tcho", Choice([(n, INT), ("yy", BOOL)])),
        ("Tnest", Seq([Comp(n, Seq([Comp(n, Set([Comp(n, INT)]))]), "OPTIONAL"), Comp("yy", Tag("", 2, Choice([(n, NUL), ("zz", BOOL)])))])),
        ("Tlist", Seq([Comp(n, Of(INT)), Comp("yy", Of(Seq([Comp(n, BOOL)])))])),
        ("Tenu", e), ("Tuse", Seq([Comp("yy", Ref("Tenu"), (n, n)), Comp("zz", Tag("", 3, INT), ("5", 5))])),
        ("Tin", Seq([Comp(n, Enum([(n, 3), ("zz", 5)]), (n, n)), Comp("yy", BOOL)])),
        ("Tdef", Seq([Comp(n, INT, ("7", 7)), Comp("yy", Tag("", 3, INT), ("val", 5))])),
        ("Tnum", Prim("INTEGER", [(n, 3)])), ("Tnuse", Seq([Comp("yy", Ref("Tnum"), (n, 3))])),
        ("Treq", Seq([Comp(n, Tag("", 0, Ref("Treq")), "OPTIONAL")])),
        "val INTEGER ::= 5"], "")


def lower_value(k, n):
    return Module("Va%d" % k, [("Tseq", Seq([Comp("yy", INT, (n, 7)), Comp(n, Tag("", 1, INT), (n, 7))])), "%s INTEGER ::= 7" % n])


def upper(k, n, kind):
    t = {"int": INT, "enum": Enum([("aa", None), ("bb", None)]), "seq": Seq([Comp("aa", INT), Comp("bb", BOOL, "OPTIONAL")]),
         "set": Set([Comp("aa", INT)]), "choice": Choice([("aa", INT), ("bb", BOOL)]), "list": Of(Seq([Comp("aa", INT)])),
         "tag": Tag("", 5, OCT), "ref": Ref("Hidden")}[kind]
    low = n[0].lower() + n[1:]
    return Module("Up%s%d" % (kind, k), [
        (n, t), ("Tuse", Seq([Comp("aa", Ref(n)), Comp("bb", Tag("", 1, Ref(n), "IMPLICIT" if kind != "choice" else None), "OPTIONAL")])),
        ("Tcho", Choice([("aa", Ref(n)), ("bb", Tag("APPLICATION", 3, NUL))])), ("Tlist", Of(Ref(n))),
        ("Tsame", Seq([Comp(low, Ref(n))])), ("Tdef", Seq([Comp("xx", Tag("", 4, INT), ("5", 5)), Comp("oo", Tag("", 6, OID))])),
        ("Trec", Seq([Comp("rr", Tag("", 7, Ref("Trec")), "OPTIONAL"), Comp("ee", Enum([("aa", None), ("bb", None)]), ("bb", "bb"))]))] + (
            [("Hidden", Seq([Comp("aa", INT)]))] if kind == "ref" else []))


# several names that get into each other's way; (assignments, subjects)
def clashes():
    c = {}
    for kind, t in (("int", INT), ("list", Of(INT)), ("seq", Seq([Comp("q", INT)])), ("enum", Enum([("q", None), ("r", None)])),
                    ("choice", Choice([("q", INT), ("r", BOOL)])), ("set", Set([Comp("q", INT)]))):
        # a component named like the type it is in, like its own type, like the type it is in and its own type
        c["in-own-" + kind] = [("Foo", Seq([Comp("foo", t), Comp("bar", Tag("", 1, t), "OPTIONAL")]))]
        c["in-own-set-" + kind] = [("Foo", Set([Comp("foo", t), Comp("bar", Tag("", 1, t))]))]
        c["in-own-choice-" + kind] = [("Foo", Choice([("foo", t), ("bar", Tag("", 1, t))]))]
        c["like-type-" + kind] = [("Use", Seq([Comp("foo", Ref("Foo")), Comp("foos", Of(Ref("Foo")), "OPTIONAL")])), ("Foo", t)]
        c["like-other-type-" + kind] = [("Use", Seq([Comp("foo", BOOL), Comp("bar", Ref("Foo"))])), ("Foo", t)]
        c["like-other-type-choice-" + kind] = [("Use", Choice([("foo", BOOL), ("bar", Tag("", 1, Ref("Foo")))])), ("Foo", t)]
        c["nested-same-" + kind] = [("Foo", Seq([Comp("foo", Seq([Comp("foo", Seq([Comp("foo", t)]))]))]))]
        c["nested-same-choice-" + kind] = [("Foo", Choice([("foo", Choice([("foo", t), ("b", NUL)]))]))]
        c["contained-" + kind] = [("Foo", Of(t)), ("FooContained", BOOL), ("FooValues", INT)]
        c["values-" + kind] = [("Foo", t), ("FooValues", Seq([Comp("foo", Ref("Foo"))])), ("FooContained", Of(Ref("FooValues")))]
        c["member-contained-" + kind] = [("Use", Seq([Comp("foo", Of(t)), Comp("fooContained", BOOL), Comp("fooValues", INT)]))]
        c["member-values-" + kind] = [("Use", Seq([Comp("foo", t, "OPTIONAL"), Comp("fooValues", NUL), Comp("fooContained", Of(BOOL))]))]
        c["unnamed-" + kind] = [("UnnamedSequence0", Of(Seq([Comp("x", t)]))), ("UnnamedSet1", Of(Set([Comp("x", t)]))),
                                ("UnnamedChoice0", Of(Choice([("x", t)]))), ("UnnamedEnum0", Of(Enum([("x", None)])))]
        c["module-" + kind] = [("MODULE", t), ("Use", Seq([Comp("x", Ref("MODULE"))]))]
        c["case-" + kind] = [("FOo", t), ("Foo", Seq([Comp("foo", t), Comp("fOo", Ref("FOo"))])), ("FoO", Choice([("foO", Ref("Foo")), ("fOO", BOOL)]))]
        c["number-" + kind] = [("F1", t), ("F-1", Seq([Comp("f1", t), Comp("f-1", Ref("F1")), Comp("f-1-a", OCT)]))]
        c["hyphen-" + kind] = [("A-B-c", t), ("D-e", Seq([Comp("a-b-c", Ref("A-B-c")), Comp("d-e", t)]))]
        c["default-" + kind] = [("Use", Seq([Comp("defaultValueX", t), Comp("x", Tag("", 2, INT), ("5", 5))])), ("DefaultValueX", t)]
    c["enumerators"] = [("Foo", Enum([("foo", None), ("fooValues", None), ("bar", 7), ("int-x", None)])), ("Bar", Enum([("foo", None), ("bar", None)])),
                        ("Use", Seq([Comp("foo", Ref("Foo"), ("foo", "foo")), Comp("bar", Tag("", 1, Ref("Bar")), ("foo", "foo"))]))]
    c["enum-value"] = ["foo Foo ::= bar", "bar INTEGER ::= 5", ("Foo", Enum([("foo", None), ("bar", None)])),
                       ("Use", Seq([Comp("foo", Ref("Foo"), ("bar", "bar")), Comp("bar", INT, ("bar", 5))]))]
    return c


def case(u, m, name):
    s = u.subject(m, name)
    vs = s.all_values()[:6]
    for v in vs:
        s.B(v)
    if len(vs) > 1:
        s.C(vs[0], vs[1])
        s.H([s.encode(v) for v in vs])


def run(c):
    w = gen.World(c)
    k = 0

    def unit(name, m, subj=None):
        u = w.unit(name, [m])
        for a in m.assigns:
            if not isinstance(a, str):
                case(u, m, a[0])
    for n in list(dict.fromkeys(KEYWORDS + LOWER)):
        if n.upper() in ("NULL",) and False:
            continue
        k += 1
        unit("lower-" + n, lower(k, n))
        if n != "val":
            unit("value-" + n, lower_value(k, n))
    kinds = ["int", "enum", "seq", "set", "choice", "list", "tag", "ref"]
    for i, n in enumerate(UPPER):
        if n in RESERVED_ASN1:
            continue
        for j, kind in enumerate(kinds):
            if not c.thorough and (i + j) % 4:
                continue
            k += 1
            unit("upper-%s-%s" % (n, kind), upper(k, n, kind))
        k += 1
        m = Module(n, [("Tseq", Seq([Comp("aa", Ref("Tenu"), ("bb", "bb")), Comp("xx", Of(Ref("Tcho")))])), ("Tenu", Enum([("aa", None), ("bb", None)])),
                       ("Tcho", Choice([("aa", INT), ("bb", Tag("", 1, Ref("Tseq")))])), ("Rec", Of(Ref("Rec")))])
        unit("module-" + n, m)
    for name, assigns in clashes().items():
        k += 1
        mod = "Clash%d" % k
        ren = [(mod if a[0] == "MODULE" else a[0], subst(a[1], mod)) if not isinstance(a, str) else a for a in assigns]
        unit("clash-" + name, Module(mod, ren))
    w.run(8)
    return c.finish(
        "model_checking",
        "a state is one value of one type of one schema; every name in the bound is used in every position, the generated "
        "code must compile, its members must be reachable under their C++ name and every value must have the reference octets",
        {"names": "%d C++ keywords, %d member, parameter, library and macro names as component, alternative, enumerator, named "
                  "number, value; %d type names x %s of 8 kinds of type; the same as module names" % (
                      len(KEYWORDS), len(LOWER), len(UPPER), "all" if c.thorough else "two"),
         "clashes": "18 patterns of names meeting each other x 6 kinds of type"})


def subst(t, mod):
    if isinstance(t, Ref):
        return Ref(mod) if t.name == "MODULE" else t
    if isinstance(t, Seq):
        return Seq([Comp(x.name, subst(x.type, mod), x.opt) for x in t.comps], t.kind, t.ext)
    return t
