import itertools
import gen
from asn import *
from fam import *

TAGS = ("", "IMPLICIT", "AUTOMATIC")
NAME = {"": "E", "EXPLICIT": "X", "IMPLICIT": "I", "AUTOMATIC": "A"}


def exporter(name, tagging):
    return Module(name, [
        ("Deep", Seq([Comp("i", Ref("Inner")), Comp("c", Tag("", 0, Choice([("a", Ref("Inner")), ("b", Ref("TInt"))])), "OPTIONAL"),
                      Comp("v", INT, ("lim", 5)), Comp("e", Tag("", 1, Ref("En")), ("q", "q"))])),
        ("Int", INT), ("TInt", Tag("", 1, INT)), ("En", Enum([("p", 4), ("q", None)])),
        ("Sq", Seq([Comp("i", Ref("Inner")), Comp("b", Tag("", 1, BOOL), "OPTIONAL")])),
        ("Au", Seq([Comp("x", Ref("Inner"), "OPTIONAL"), Comp("y", UTF8, "OPTIONAL")])),
        ("St", Set([Comp("i", Ref("Inner")), Comp("o", OCT, "OPTIONAL")])),
        ("Ch", Choice([("i", Ref("Inner")), ("t", Tag("", 3, Ref("Sq"))), ("n", NUL)])),
        ("Lo", Of(Ref("Inner"))), ("LoT", Of(Ref("TInt"), "SET")), ("LoC", Of(Ref("Ch"))), ("TSq", Tag("APPLICATION", 2, Ref("Sq"))),
        ("Rf", Ref("Sq")), ("RfT", Ref("TInt")), ("Str", Tag("", 7, OCT, "IMPLICIT")),
        ("Inner", INT), "lim INTEGER ::= lim2", "lim2 INTEGER ::= 5", "name UTF8String ::= \"ab\"", "id OBJECT IDENTIFIER ::= {1 2 7}"],
        tagging)


SYMBOLS = ["Deep", "Int", "TInt", "En", "Sq", "Au", "St", "Ch", "Lo", "LoT", "LoC", "TSq", "Rf", "RfT", "Str"]


def users(env, mod, syms, tagged=True):
    """definitions of the module that use the imported types (never more than two tags on anything)"""
    out = []
    for x in syms:
        r = Ref(x)
        forms = [("Al", r), ("Sq", Seq([Comp("a", r), Comp("z", Tag("", 3, r), "OPTIONAL")])),
                 ("Ls", Of(r)), ("Ch", Choice([("n", Tag("", 20, NUL)), ("x", Tag("", 21, r))])),
                 ("Op", Seq([Comp("h", BOOL), Comp("o", r, "OPTIONAL"), Comp("k", Tag("", 30, NUL))])),
                 ("Ta", Tag("APPLICATION", 9, r)), ("Lt", Of(Tag("PRIVATE", 4, r), "SET")),
                 ("St", Set([Comp("x", Tag("", 6, r)), Comp("y", Tag("", 8, r))]))]
        for f, t in forms:
            if most_tags(env, t, mod) <= 2 and not (f == "Op" and clash(env, r, mod)):
                out.append(("U" + f + x, t))
    return out


def clash(env, r, mod):
    return bool(set(env.outer(r, mod) or []) & {(2, 30)})


def most_tags(env, t, mod):
    if isinstance(t, Tag):
        return max(len(env.chain(t, mod)), most_tags(env, t.inner, mod))
    if isinstance(t, (Seq, Choice)):
        return max([0] + [max(len(env.chain(ty, m)), most_tags(env, c.type, mod)) for c, ty, m in env.comps(t, mod)])
    return most_tags(env, t.elem, mod) if isinstance(t, Of) else len(env.chain(t, mod))


def cases(u, m, name):
    s = u.subject(m, name)
    vs = s.all_values()
    vs = vs[:4] + vs[-3:] if len(vs) > 7 else vs
    for v in vs:
        s.B(v)
    if len(vs) > 1:
        s.H([s.encode(v) for v in vs])
    e = s.encode(vs[0])
    s.D(e[:-1])
    s.D(bytes([e[0] ^ 0x40]) + e[1:])


LOCAL = [("Inner", BOOL), ("Other", UTF8), "lim2 INTEGER ::= 77"]


def run(c):
    w = gen.World(c)
    k = 0
    # every kind of definition x every use x both modules' tagging; file and module order rotate
    splits = [(o, cut) for o in ((0, 1), (1, 0)) for cut in (0, 1)]
    for ta, tb in itertools.product(("", "EXPLICIT") + TAGS[1:] if c.thorough else TAGS, repeat=2):
        for part in range(3):
            for si, (order, cut) in enumerate(splits):
                if not c.thorough and si != (k % 4 if part else (k + 1) % 4) and not (part == 0 and si % 2):
                    continue
                k += 1
                a = exporter("A%d" % k, ta)
                syms = SYMBOLS[part::3]
                b = Module("B%d" % k, LOCAL, tb, [(syms + ["lim"], a.name)])
                us = users(Env([a, b]), b.name, syms)
                if not c.thorough:
                    us = us[k % 2::2]
                b.assigns += us + [("Vi", Seq([Comp("d", INT, ("lim", 5)), Comp("i", Tag("", 0, Ref("Inner")))]))]
                l = [[a, b][i] for i in order]
                u = w.unit("uses-%s%s-%d-%s%d" % (NAME[ta], NAME[tb], part, "".join(map(str, order)), cut), [a, b],
                           files=[[x] for x in l] if cut else [l])
                for n, _ in us + [("Vi", None)]:
                    cases(u, b, n)
    # all import graphs on three modules, every module defining the same local names differently
    local = [INT, BOOL, OCT]
    orders = list(itertools.permutations(range(3)))
    cuts = [(), (1,), (2,), (1, 2)]
    edges = [(1, 0), (2, 0), (2, 1)]
    g = 0
    for sub in itertools.product((0, 1), repeat=3):
        combos = [(t, orders[(i * 5) % 6], cuts[i % 4]) for i, t in enumerate(itertools.product(TAGS, repeat=3))]
        combos += [(TAGS[i % 3:] + TAGS[:i % 3], o, cu) for i, (o, cu) in enumerate(itertools.product(orders, cuts))]
        if not c.thorough:
            combos = combos[g % 4::4]
        g += 1
        for tags, order, cut in combos:
            k += 1
            mods = []
            for i in range(3):
                imps = [e[1] for s, e in zip(sub, edges) if s and e[0] == i]
                comps = [Comp("l", Ref("Local")), Comp("e", Ref("Kind"), ("b", "b"))]
                comps += [Comp("t%d" % j, Tag("", j + 1, Ref("T%d" % j)), "OPTIONAL") for j in imps]
                comps += [Comp("u%d" % j, Of(Ref("T%d" % j)), "OPTIONAL") for j in imps[:1]]
                comps += [Comp("v%d" % j, Tag("", 9, INT), ("v%d" % j, 10 + j)) for j in imps[-1:]]
                mods.append(Module("G%dm%d" % (k, i), [
                    ("T%d" % i, Seq(comps)), ("Local", local[i]), ("Kind", Enum([("a", i), ("b", i + 5)])),
                    "v%d INTEGER ::= base" % i, "base INTEGER ::= %d" % (10 + i)], tags[i],
                    [(["T%d" % j, "v%d" % j], "G%dm%d" % (k, j)) for j in imps]))
            l = [mods[i] for i in order]
            edge = (0,) + cut + (3,)
            u = w.unit("graph-%s-%s-%s-%s" % ("".join(map(str, sub)), "".join(NAME[t] for t in tags), "".join(map(str, order)),
                                             "".join(map(str, cut)) or "0"), mods,
                       files=[l[x:y] for x, y in zip(edge, edge[1:])])
            for i in range(3):
                cases(u, mods[i], "T%d" % i)
    # handed on through a module in between, and names qualified with their module
    for tags in itertools.product(TAGS, repeat=3):
        k += 1
        if not c.thorough and k % 3:
            continue
        a = exporter("H%da" % k, tags[0])
        syms = ["Deep", "TInt", "Ch", "En", "LoT", "TSq"]
        b = Module("H%db" % k, LOCAL, tags[1], [(syms + ["lim"], a.name)])
        d = Module("H%dc" % k, LOCAL, tags[2], [(syms + ["lim"], b.name)])
        us = users(Env([a, b, d]), d.name, syms)[k % 3::3]
        d.assigns += us + [("Vi", Seq([Comp("d", INT, ("lim", 5)), Comp("i", Tag("", 0, Ref("Inner")))]))]
        l = [[a, b, d][i] for i in orders[k % 6]]
        u = w.unit("chain-%s" % "".join(NAME[t] for t in tags), [a, b, d], files=[[x] for x in l] if k % 2 else [l])
        for n, _ in us + [("Vi", None)]:
            cases(u, d, n)
        k += 1
        a = exporter("Q%da" % k, tags[0])
        b = Module("Q%db" % k, LOCAL + [("Deep", NUL), ("TInt", UTF8)], tags[1], [(["En"], a.name)])
        q = lambda n: Ref("%s.%s" % (a.name, n))
        us = [("Q1", Seq([Comp("x", q("Deep")), Comp("y", Tag("", 2, q("TInt"), "IMPLICIT"), "OPTIONAL"), Comp("z", Ref("Deep"))])),
              ("Q2", q("Ch")), ("Q3", Of(q("TInt"))), ("Q4", Choice([("a", q("Int")), ("b", Ref("TInt"))]))]
        b.assigns += us
        u = w.unit("qualified-%s" % "".join(NAME[t] for t in tags), [a, b])
        for n, _ in us:
            cases(u, b, n)
    # the same name from different modules; imports spelled in all the ways there are
    k += 1
    a = Module("S%da" % k, [("T", INT), ("W", Seq([Comp("t", Ref("T"))])), ("X", Tag("", 1, Ref("T")))], "IMPLICIT")
    b = Module("S%db" % k, [("T", BOOL), ("Y", Seq([Comp("t", Ref("T")), Comp("w", Ref("W"))]))], "AUTOMATIC", [(["W"], a.name)])
    d = Module("S%dc" % k, [("T", OCT), ("V", Seq([Comp("t", Ref("T")), Comp("w", Ref("W")), Comp("y", Ref("Y")), Comp("x", Ref("X"))]))],
               "", [(["W", "X"], a.name), (["Y"], b.name)])
    u = w.unit("same-names", [a, b, d])
    cases(u, d, "V")
    cases(u, b, "Y")
    forms = {
        "exports": ("EXPORTS T, v;", "IMPORTS T, v FROM %s;", ""),
        "exports-all": ("EXPORTS ALL;", "IMPORTS T FROM %s v FROM %s;", ""),
        "exports-oid": ("EXPORTS ALL; IMPORTS ;", "IMPORTS T, v FROM %s {1 3 6};", " {iso org(3) dod(6)}"),
    }
    for (name, (ex, im, oid)), i in itertools.product(forms.items(), (0, 1)):
        k += 1
        am, bm = "F%da" % k, "F%db" % k
        ta = "%s%s DEFINITIONS IMPLICIT TAGS ::= BEGIN %s T ::= [1] INTEGER v INTEGER ::= 4 END\n" % (am, oid, ex)
        tb = "%s DEFINITIONS ::= BEGIN %s U ::= SEQUENCE { t T, i [2] INTEGER DEFAULT v } END\n" % (bm, im.replace("%s", am))
        means = [Module(am, [("T", Tag("", 1, INT))], "IMPLICIT"),
                 Module(bm, [("U", Seq([Comp("t", Ref("T")), Comp("i", Tag("", 2, INT), ("v", 4))]))], "", [(["T"], am)])]
        l = [[ta, tb], [tb, ta]][i]
        u = w.unit("form-%s-%d" % (name, i), l, files=[[x] for x in l], means=means)
        cases(u, means[1], "U")
    # what does not exist cannot be imported
    good = "Ra DEFINITIONS ::= BEGIN T ::= INTEGER v INTEGER ::= 1 END\n"
    for name, text in {
        "type": "Rb DEFINITIONS ::= BEGIN IMPORTS Nope FROM Ra; U ::= SEQUENCE { t Nope } END\n",
        "unused-type": "Rb DEFINITIONS ::= BEGIN IMPORTS T, Nope FROM Ra; U ::= SEQUENCE { t T } END\n",
        "value": "Rb DEFINITIONS ::= BEGIN IMPORTS T, nope FROM Ra; U ::= SEQUENCE { t T DEFAULT nope } END\n",
        "module": "Rb DEFINITIONS ::= BEGIN IMPORTS T FROM Rz; U ::= SEQUENCE { t T } END\n",
        "unused-module": "Rb DEFINITIONS ::= BEGIN IMPORTS T FROM Rz; U ::= INTEGER END\n",
        "not-imported": "Rb DEFINITIONS ::= BEGIN U ::= SEQUENCE { t T } END\n",
        "not-imported-value": "Rb DEFINITIONS ::= BEGIN IMPORTS T FROM Ra; U ::= SEQUENCE { t T DEFAULT v } END\n",
        "qualified-type": "Rb DEFINITIONS ::= BEGIN U ::= SEQUENCE { t Ra.Nope } END\n",
        "qualified-module": "Rb DEFINITIONS ::= BEGIN U ::= SEQUENCE { t Rz.T } END\n",
    }.items():
        for order in (0, 1):
            for cut in (0, 1):
                l = [good, text][::-1 if order else 1]
                w.unit("missing-%s-%d%d" % (name, order, cut), l, files=[[x] for x in l] if cut else [l], expect="refuse",
                       means=[])
    w.run(3)
    return c.finish(
        "model_checking",
        "a state is one value of one type of one arrangement of modules; every import graph in the bound is compiled, every "
        "value must have the octets it has where its type is defined, and imports of nothing must be refused",
        {"uses": "15 kinds of exported type x 8 uses x %d x %d tagging environments x both orders in one or two files%s" % (
            (4, 4, "") if c.thorough else (3, 3, ", halved alternately")),
         "graphs": "all import graphs on 3 modules defining the same names differently x %s" % (
             "27 tagging combinations, and x all orders and file splits" if c.thorough else "a quarter of 27 tagging combinations and 24 orders/splits"),
         "chains": "types and values handed on through a module in between; names qualified by module; export forms",
         "refused": "9 kinds of missing thing x both orders x one or two files"})
