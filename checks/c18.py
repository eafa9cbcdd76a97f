import itertools
import gen
from asn import *
from fam import *

EN = Enum([("p", None), ("q", None), ("r", 7)])


def families():
    """name -> assignments (at most 5), subjects; every kind of dependency between definitions"""
    f = {}
    f["chain"] = ([("A", Seq([Comp("b", Ref("B")), Comp("c", Ref("C"), "OPTIONAL")])), ("B", Tag("", 1, Ref("C"))),
                   ("C", Seq([Comp("d", Ref("D"))])), ("D", INT)], "ABCD")
    f["choice"] = ([("A", Choice([("b", Ref("B")), ("c", Ref("C"))])), ("B", Choice([("x", Ref("D")), ("y", NUL)])),
                    ("C", Tag("APPLICATION", 2, Ref("B"))), ("D", Set([Comp("e", EN)]))], "ABCD")
    f["lists"] = ([("A", Of(Ref("B"))), ("B", Of(Ref("C"), "SET")), ("C", Tag("", 3, Ref("D"))),
                   ("D", Seq([Comp("o", OCT, "OPTIONAL")]))], "ABCD")
    f["enums"] = ([("A", Seq([Comp("e", Ref("B"), ("q", "q")), Comp("f", Ref("C"), "OPTIONAL")])), ("B", EN),
                   ("C", Tag("APPLICATION", 4, Ref("B"))), ("D", Of(Ref("C")))], "ABCD")
    f["values"] = ([("A", Seq([Comp("i", INT, ("vi", -5)), Comp("s", Ref("C"), ("vs", b"ab"))])), "vi INTEGER ::= wi",
                    "wi INTEGER ::= -5", "vs C ::= \"ab\"", ("C", Tag("", 1, UTF8))], "AC")
    f["numbers"] = ([("A", Raw("ENUMERATED { a, b(vn), c }", Enum([("a", 0), ("b", 3), ("c", 1)]))), "vn INTEGER ::= wn",
                     "wn INTEGER ::= 3", ("B", Raw("INTEGER { three(vn) }", Prim("INTEGER", [("three", 3)]))),
                     ("C", Seq([Comp("b", Ref("B"), ("three", 3))]))], "ABC")
    f["inline"] = ([("A", Seq([Comp("x", Seq([Comp("y", Choice([("l", Of(Ref("B"))), ("m", Ref("C"))]))]), "OPTIONAL"),
                               Comp("z", Tag("", 1, Set([Comp("b", Ref("B"))])))])),
                    ("B", Seq([Comp("e", Enum([("u", None), ("v", None)]))])), ("C", Tag("", 5, BOOL))], "ABC")
    f["optionals"] = ([("A", Seq([Comp("b", Ref("B"), "OPTIONAL"), Comp("c", Tag("", 0, Ref("C")), "OPTIONAL"),
                                  Comp("d", Tag("", 1, Ref("D")), "OPTIONAL")])), ("B", Of(INT)),
                       ("C", Choice([("i", INT), ("d", Ref("D"))])), ("D", Tag("PRIVATE", 9, Ref("E"), "IMPLICIT")),
                       ("E", Seq([]))], "ABCDE")
    f["recursive"] = ([("A", Seq([Comp("n", Tag("", 0, Ref("A")), "OPTIONAL"), Comp("b", Tag("", 1, Ref("B")), "OPTIONAL")])),
                       ("B", Choice([("a", Ref("A")), ("c", Ref("C"))])), ("C", Of(Ref("D"), "SET")),
                       ("D", Tag("", 7, Seq([Comp("b", Ref("B"), "OPTIONAL")])))], "ABCD")
    f["string-size"] = ([("A", Raw("OCTET STRING (SIZE(1..max))", OCT)), "max INTEGER ::= 10",
                         ("B", Raw("SEQUENCE (SIZE(1..max)) OF A", Of(OCT))), ("C", Ref("B"))], "ABC")
    f["oids"] = (["va OBJECT IDENTIFIER ::= { vb 3 }", "vb OBJECT IDENTIFIER ::= { iso vc(7) }",
                  ("A", Seq([Comp("o", Ref("B"), ("va", (1, 7, 3)))])), ("B", OID)], "AB")
    return f


def run(c):
    w = gen.World(c)
    k = 0
    for tagging in ("", "AUTOMATIC") if not c.thorough else ("", "IMPLICIT", "AUTOMATIC"):
        for name, (assigns, subj) in families().items():
            perms = list(itertools.permutations(range(len(assigns))))
            if not c.thorough:
                # every pair of definitions in both orders at every distance: rotations of the order and its reverse,
                # and all orders of the smaller modules in one tagging environment
                if tagging or len(assigns) > 4:
                    n = len(assigns)
                    keep = {tuple((i + r) % n for i in range(n)) for r in range(n)} | \
                           {tuple(reversed([(i + r) % n for i in range(n)])) for r in range(n)} | \
                           {tuple(sorted(range(n), key=lambda i: (i * 2 + r) % n)) for r in range(n)}
                    perms = [p for p in perms if p in keep]
            first = None
            for p in perms:
                k += 1
                m = Module("Ord%d" % k, [assigns[i] for i in p], tagging)
                u = w.unit("order-%s-%s-%s" % (tagging.lower() or "explicit", name, "".join(map(str, p))), [m])
                for n in subj:
                    s = u.subject(m, n)
                    vs = s.all_values(depth=4)[:8]
                    for v in vs:
                        s.B(v)
                    if len(vs) > 1:
                        s.H([s.encode(v) for v in vs])
    # modules, in one file and in several, in every order
    defs = {
        "M1": ([("A", Seq([Comp("b", Ref("B")), Comp("v", INT, ("lim", 9))]))], [(["B", "lim"], "M2")]),
        "M2": ([("B", Choice([("c", Ref("C")), ("e", Ref("En"))])), "lim INTEGER ::= top"], [(["C", "En", "top"], "M3")]),
        "M3": ([("C", Of(Ref("D"))), ("D", Tag("", 1, Seq([Comp("i", INT)]))), ("En", EN), "top INTEGER ::= 9"], []),
    }
    for order in itertools.permutations(defs):
        for cut in ((), (1,), (2,), (1, 2)):
            k += 1
            mods = {n: Module("%sx%d" % (n, k), a, t, [(x, "%sx%d" % (f, k)) for x, f in i])
                    for (n, (a, i)), t in zip(defs.items(), ("", "AUTOMATIC", "IMPLICIT"))}
            l = [mods[n] for n in order]
            edges = (0,) + cut + (3,)
            u = w.unit("modules-%s-%s" % ("".join(x[1] for x in order), "".join(map(str, cut)) or "0"), l,
                       files=[l[a:b] for a, b in zip(edges, edges[1:])])
            for n, sub in (("M1", "A"), ("M2", "B"), ("M3", "CD")):
                for x in sub:
                    s = u.subject(mods[n], x)
                    for v in s.all_values()[:8]:
                        s.B(v)
    w.run(6)
    return c.finish(
        "model_checking",
        "a state is one value of one generated type of one arrangement of definitions; every arrangement in the bound is "
        "compiled, and every value must have the octets the reference gives it, which do not depend on the arrangement",
        {"definitions": "11 families of 4 or 5 definitions covering every kind of dependency x %s" % (
            "all permutations x 3 tagging environments" if c.thorough else
            "all permutations of 4 definitions, all rotations (forward, backward, interleaved) otherwise, 2 tagging environments"),
         "modules": "3 modules with chained imports x all orders x all splits into files"})
