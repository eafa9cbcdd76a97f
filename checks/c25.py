import itertools
import gen
from asn import *
from fam import *

EN = Enum([("red", None), ("green", 7)])
SEQ = Seq([Comp("i", INT), Comp("o", OCT, "OPTIONAL")])


class Template:
    def __init__(self, name, dummies, body, mod=None):
        self.name, self.dummies, self.body, self.mod = name, dummies, body, mod

    def text(self):
        return "%s{%s} ::= %s" % (self.name, ", ".join(self.dummies), show(self.body))


def expand(t, templates, mod):
    """t, written in mod, with instances written out. What is put in another's place is not written there, so that it does not
    decide on automatic tagging (X.680 25.3: the textual presence of tags)"""
    if isinstance(t, Ref) and t.args:
        p = templates[t.name]
        there = p.mod or mod
        args = [In(mod, expand(a, templates, mod)) for a in t.args]
        return In(there, expand(substitute(p.body, dict(zip(p.dummies, args))), templates, there))
    if isinstance(t, In):
        return In(t.mod, expand(t.inner, templates, t.mod))
    return rewrite(t, lambda x: expand(x, templates, mod))


def bodies(auto):
    T = (lambda n, t, mode=None: t) if auto else (lambda n, t, mode=None: Tag("", n, t, mode))
    A, B = Ref("A"), Ref("B")
    yield "Pair", Seq([Comp("a", T(0, A)), Comp("b", T(1, B), "OPTIONAL")])
    yield "Bag", Set([Comp("a", T(0, A)), Comp("b", T(1, Of(B)), "OPTIONAL")], ext="end")
    yield "Alt", Choice([("a", T(0, A)), ("b", T(1, B))])
    yield "List", Seq([Comp("l", T(0, Of(A))), Comp("m", T(1, Of(B, "SET")))])
    yield "Just", Of(A)
    yield "Bare", A
    yield "Mark", Tag("APPLICATION", 40, A, "EXPLICIT")
    yield "Deep", Seq([Comp("x", T(0, Seq([Comp("a", T(0, A)), Comp("y", T(1, Choice([("b", T(0, B)), ("n", T(1, NUL))])))]))),
                       Comp("z", T(1, Of(Seq([Comp("b", T(0, B), "OPTIONAL"), Comp("a", T(1, A))]), "SET")))])
    yield "Open", Seq([Comp("a", A), Comp("p", T(30, INT)), Comp("b", T(31, B))]) if not auto else \
        Seq([Comp("a", A), Comp("p", INT), Comp("q", OCT), Comp("b", B)], ext=(1, 3))
    yield "Loc", Seq([Comp("a", T(0, Ref("Local"))), Comp("b", T(1, A)), Comp("c", T(2, Ref("Hue")), ("green", "green"))])


LOCAL = [("Local", Tag("APPLICATION", 9, Seq([Comp("h", Ref("Hue")), Comp("k", INT, "OPTIONAL")]))), ("Hue", EN),
         ("Pick", Choice([("u", Tag("", 5, INT, "IMPLICIT")), ("v", Tag("", 6, BOOL, "IMPLICIT"))]))]
ARGS = [INT, Ref("Local"), SEQ, Ref("Pick"), Tag("", 8, UTF8), Of(INT), Ref("Hue"), Tag("PRIVATE", 77, SEQ, "IMPLICIT"), BOOL, NUL]


def module(name, tagging, templates, defs, order, imports=()):
    """the module with templates, and the one with the definitions written out"""
    texts = [p.text() for p in templates if p.mod in (None, name)]
    by = {p.name: p for p in templates}
    assigns = [x for x in LOCAL + defs]
    full = {0: texts + assigns, 1: assigns + texts, 2: texts[::-1] + assigns[::-1]}[order]
    return Module(name, full, tagging, imports), Module(name, [(n, expand(t, by, name)) for n, t in LOCAL + defs], tagging, imports)


def sites(name, inst, tagging):
    T = (lambda n, t: t) if tagging == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
    return (name, Seq([Comp("c", T(0, inst)), Comp("d", T(1, inst), "OPTIONAL"), Comp("e", T(2, Of(inst))),
                       Comp("f", T(3, Choice([("g", T(0, inst)), ("h", T(1, INT))])), "OPTIONAL")]))


def use(w, name, mods, means, targets, refs=(), more=True):
    u = w.unit(name, mods, means=means + list(refs))
    for mod, t in targets:
        s = u.subject(mod, t)
        vs = round_trips(s)
        if more and vs:
            for a, b in ((vs[0], vs[-1]), (vs[-1], vs[0])):
                s.C(a, b)
            e = s.encode(vs[-1])
            for x in mangle(e) + [e[:-1], e + e]:
                s.D(x)
    return u


def add(w, n, name, tagging, templates, defs, order, imports=(), others=(), other_means=()):
    m, mm = module(name, tagging, templates, defs, order, imports)
    env = Env([mm] + list(other_means))
    bad = {d for d, _ in defs if not supported(env, Ref(d), name)}
    if bad:
        defs = [d for d in defs if d[0] not in bad and d[0][1:] not in {b[1:] for b in bad}]
        if not defs:
            return
        m, mm = module(name, tagging, templates, defs, order, imports)
    use(w, n, list(others) + [m], list(other_means) + [mm], [(name, d) for d, _ in defs])


def parameters(c, w):
    k = 0
    for ti, tagging in enumerate(("", "IMPLICIT", "AUTOMATIC")):
        for bi, (bn, body) in enumerate(bodies(tagging == "AUTOMATIC")):
            pairs = [(ARGS[i], ARGS[(i + d) % len(ARGS)]) for i in range(len(ARGS)) for d in ((1,) if not c.thorough else (0, 1, 3, 5, 8))]
            if not c.thorough:
                pairs = [p for i, p in enumerate(pairs) if i % 2 == (ti + bi) % 2]
            for chunk in range(0, len(pairs), 5):
                k += 1
                part = pairs[chunk:chunk + 5]
                two = "B" in show(body).replace("BOOLEAN", "")
                tmpl = Template(bn, ["A", "B"] if k % 2 else ["B", "A"], body)
                defs = []
                for i, (a, b) in enumerate(part):
                    inst = Ref(bn, [a, b] if k % 2 else [b, a])
                    defs.append(("I%d" % i, inst))
                    if bn != "Open" or tagging == "AUTOMATIC":
                        defs.append(("S%d" % i, sites("S", inst, tagging)[1]) if i % 3 == 0 else ("S%d" % i, Tag("APPLICATION", 900 + i, inst, "EXPLICIT")))
                add(w, "p%d-%s-%s" % (k, tagging.lower() or "explicit", bn), "Par%d" % k, tagging, [tmpl], defs, k % 3)


def nesting(c, w):
    k = 0
    for tagging in ("", "IMPLICIT", "AUTOMATIC"):
        bs = dict(bodies(tagging == "AUTOMATIC"))
        T = (lambda n, t: t) if tagging == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
        inner = ["Pair", "Alt", "Just", "Bag", "Bare", "Deep"]
        for x, y in itertools.product(inner, repeat=2):
            if not c.thorough and (inner.index(x) + inner.index(y) + len(tagging)) % 3:
                continue
            k += 1
            tx, ty = Template(x, ["A", "B"], bs[x]), Template(y, ["A", "B"], bs[y])
            templates = [tx] + ([ty] if x != y else [])
            out = Template("Outer", ["X", "A"], Seq([Comp("p", T(0, Ref(x, [Ref("A"), Ref("X")]))), Comp("q", T(1, Of(Ref(y, [Ref("X"), INT])))),
                                                     Comp("r", T(2, Ref("A")), "OPTIONAL")]))
            defs = [("N0", Ref(x, [Ref(y, [INT, BOOL]), OCT])),                     # an instance as an argument
                    ("N1", Ref("Outer", [INT, Ref("Local")])),                      # dummies passed on, under other names
                    ("N2", Ref("Outer", [Ref(x, [NUL, BOOL]), SEQ]))]
            add(w, "nest%d" % k, "Nest%d" % k, tagging, [out] + templates, defs, k % 3)


def recursion(c, w):
    for k, tagging in enumerate(("", "IMPLICIT", "AUTOMATIC")):
        T = (lambda n, t: t) if tagging == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
        A = Ref("A")
        ts = [Template("Cell", ["A"], Seq([Comp("v", T(0, INT)), Comp("n", T(1, A), "OPTIONAL")])), Template("Many", ["A"], Of(A)),
              Template("May", ["A"], Choice([("none", T(0, NUL)), ("some", T(1, A))]))]
        for i, d in enumerate([("Node", Ref("Cell", [Ref("Node")])), ("Tree", Ref("Many", [Ref("Tree")])),
                               ("Cont", Seq([Comp("v", T(0, INT)), Comp("m", T(1, Ref("May", [Ref("Cont")])))])),
                               ("Mix", Ref("Cell", [Ref("Many", [Ref("Mix")])]))]):
            add(w, "rec%d-%d" % (k, i), "Rec%d%d" % (k, i), tagging, ts, [d], i % 3)


def modules(c, w):
    """the template is of another module, whose tagging, and whose definition of the names used, is another"""
    k = 0
    lib_local = [("Local", Seq([Comp("lib", Tag("", 0, INT))])), ("Hue", Enum([("cyan", 3), ("green", None)])), ("Own", Of(Ref("Local")))]
    for lt, ut in itertools.product(("", "IMPLICIT", "AUTOMATIC"), repeat=2):
        T = (lambda n, t: t) if lt == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
        A, B = Ref("A"), Ref("B")
        bs = dict(bodies(lt == "AUTOMATIC"))
        bs["Loc"] = Seq([Comp("a", T(0, Ref("Local"))), Comp("b", T(1, A)), Comp("c", T(2, Ref("Own"))),
                         Comp("d", T(3, Ref("Hue")), ("green", "green")), Comp("e", T(4, INT), ("seven", 7)), Comp("f", T(5, Ref("Far")), "OPTIONAL")])
        bs["Via"] = Seq([Comp("a", T(0, Ref("Loc", [B]))), Comp("b", T(1, Ref("Pair", [A, Ref("Local")])), "OPTIONAL")])
        names = ["Loc", "Via", "Pair", "Alt", "Deep"]
        for route in range(3):  # imported, imported by way of a third module, named with its module
            if not c.thorough and (len(lt) + len(ut) + route) % 3:
                continue
            k += 1
            lib, mid, far, usr = "Lib%d" % k, "Mid%d" % k, "Far%d" % k, "Use%d" % k
            ts = [Template(n, ["A", "B"] if n != "Loc" else ["A"], bs[n], lib) for n in names]
            texts = [t.text() for t in ts] + ["seven INTEGER ::= other", "other INTEGER ::= 7"]
            fm = Module(far, [("Far", Tag("PRIVATE", 4, Set([Comp("x", Tag("", 1, INT)), Comp("y", Tag("", 2, UTF8))])))], "IMPLICIT")
            lm = Module(lib, (texts + lib_local) if k % 2 else (lib_local + texts), lt, [(["Far"], far)])
            lmm = Module(lib, lib_local, lt, [(["Far"], far)])
            others, means = [fm, lm], [fm, lmm]
            imports = [(names, lib)]
            if route == 1:
                others.append(Module(mid, [("Dummy", NUL)], "", [(names, lib)]))
                means.append(Module(mid, [("Dummy", NUL)], ""))
                imports = [(names, mid)]
            q = ""
            defs = [("M0", Ref(q + "Loc", [Ref("Hue")])), ("M1", Ref(q + "Via", [Ref("Local"), INT])), ("M2", Ref(q + "Pair", [SEQ, Ref("Pick")])),
                    ("M3", Ref(q + "Alt", [Ref("Local"), Ref("Hue")])), ("M4", Ref(q + "Deep", [Ref("Hue"), Ref(q + "Loc", [OCT])]))]
            if route == 2:
                ts2 = ts + [Template(lib + "." + t.name, t.dummies, t.body, lib) for t in ts]
                defs = [(n, Ref(lib + "." + t.name, t.args)) for n, t in defs]
                defs[4] = ("M4", Ref(lib + ".Deep", [Ref("Hue"), Ref(lib + ".Loc", [OCT])]))
                add(w, "mod%d" % k, usr, ut, ts2, defs, k % 3, [(["Own"], lib)], others, means)
            else:
                add(w, "mod%d" % k, usr, ut, ts, defs, k % 3, imports, others, means)


def components(c, w):
    k = 0
    for kind in ("SEQUENCE", "SET"):
        for tagging in ("", "IMPLICIT", "AUTOMATIC"):
            T = (lambda n, t: t) if tagging == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
            mk = lambda comps, ext=None: Seq(comps, kind, ext)
            P = mk([Comp("pa", T(0, INT)), Comp("pb", T(1, OCT), "OPTIONAL")])
            Q = mk([Comp("qa", T(2, Ref("Hue")), ("green", "green")), Comp("qx", T(3, BOOL)), Comp("qy", T(4, INT), "OPTIONAL"), Comp("qz", T(5, UTF8))], (1, 3))
            E = mk([Comp("ea", T(6, INT)), Comp("eb", T(7, NUL), "OPTIONAL")], (1, 2))
            L = mk([Comp("la", T(8, Of(Seq([Comp("i", T(0, INT))])))), Comp("lb", T(9, Choice([("m", T(10, NUL)), ("n", T(11, BOOL))])))])
            named = [("P", P), ("Q", Q), ("E", E), ("L", L), ("G", Tag("APPLICATION", 5, Ref("P"))), ("H", Ref("G")),
                     ("N", mk([Comp("na", T(12, INT)), CompsOf(Ref("Q"))]))]
            own = [Comp("x", T(20, INT)), Comp("y", T(21, Ref("Local" if tagging else "Hue")), "OPTIONAL")]
            sources = [Ref("P"), Ref("Q"), Ref("E"), Ref("L"), Ref("G"), Ref("H"), Ref("N"), P, Tag("", 9, P)]
            groups = []
            for i, s in enumerate(sources):
                of = CompsOf(s)
                places = [mk([of]), mk([of] + own), mk(own + [of]), mk([own[0], of, own[1]])]
                if i % 3 == 0:
                    places.append(mk([own[0], of, own[1]], (2, 3)))
                    places.append(mk([Comp("w", T(22, Seq([CompsOf(s), Comp("v", T(23, NUL))], kind)))]))
                groups.append([(n, p) for n, p in enumerate(places) if c.thorough or n % 2 == (i + len(tagging)) % 2])
            groups.append([(0, mk([CompsOf(Ref("P")), CompsOf(Ref("Q")), CompsOf(Ref("L"))])), (1, mk([CompsOf(Ref("E")), own[1], CompsOf(Ref("N")), CompsOf(Ref("G"))])),
                           (2, mk(own + [CompsOf(Ref("L"))], (2, 3)))])
            if tagging == "":  # tags written by hand in a module that tags automatically otherwise
                pass
            for i, g in enumerate(groups):
                k += 1
                defs = [("T%d" % n, p) for n, p in g]
                assigns = needed(LOCAL + named, defs)
                order = k % 3
                full = defs + assigns if order == 0 else assigns + defs if order == 1 else assigns[::-1] + defs[::-1]
                m = Module("Com%d" % k, full, tagging)
                env = Env([m])
                assert all(supported(env, Ref(d), m.name) for d, _ in defs), (tagging, kind, [(d, show(t)) for d, t in defs if not supported(env, Ref(d), m.name)])
                use(w, "com%d" % k, [m], [m], [(m.name, d) for d, _ in defs])
    # included from another module, which has other meanings for the names used
    for k, (lt, ut) in enumerate(itertools.product(("", "IMPLICIT", "AUTOMATIC"), repeat=2)):
        if lt == "AUTOMATIC" and ut != "AUTOMATIC":
            continue
        T = (lambda n, t: t) if lt == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
        U = (lambda n, t: t) if ut == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
        lib, usr = "ComLib%d" % k, "ComUse%d" % k
        lm = Module(lib, [("Base", Seq([Comp("a", T(0, Ref("Local"))), Comp("b", T(1, Ref("Hue")), ("green", "green")), Comp("c", T(2, INT), ("seven", 7)),
                                        Comp("d", T(3, Of(Seq([Comp("e", T(0, Ref("Local")))]))), "OPTIONAL"), CompsOf(Ref("More"))])),
                          ("More", Seq([Comp("f", T(4, Choice([("g", T(5, Ref("Hue"))), ("h", T(6, Ref("Local")))])))])),
                          "seven INTEGER ::= 7", ("Local", Seq([Comp("lib", T(0, INT))])), ("Hue", Enum([("cyan", 3), ("green", None)]))], lt)
        um = Module(usr, LOCAL + ["seven INTEGER ::= 8", ("U", Seq([CompsOf(Ref("Base")), Comp("x", U(20, Ref("Local" if ut else "Hue")))])),
                                  ("V", Seq([Comp("x", U(20, Ref("Hue")), "OPTIONAL"), CompsOf(Ref("Base"))]))], ut, [(["Base"], lib)])
        use(w, "commod%d" % k, [lm, um] if k % 2 else [um, lm], [lm, um], [(usr, "U"), (usr, "V"), (lib, "Base")])


def classes(c, w):
    k = 0
    for tagging in ("", "IMPLICIT", "AUTOMATIC"):
        T = (lambda n, t: t) if tagging == "AUTOMATIC" else (lambda n, t: Tag("", n, t))
        fields = [("&id", INT), ("&local", Ref("Local")), ("&seq", Seq([Comp("p", T(0, INT)), Comp("q", T(1, OCT), "OPTIONAL")])),
                  ("&pick", Ref("Pick")), ("&tag", Tag("", 17, UTF8)), ("&list", Of(Ref("Hue"))), ("&oids", Of(OID))]
        text = "KIND ::= CLASS { %s, &Any }" % ", ".join("%s %s%s" % (n, show(t), [" UNIQUE", " OPTIONAL", ""][i % 3])
                                                         for i, (n, t) in enumerate(fields))
        for route in range(3):  # same module, alias of the class, imported
            k += 1
            lib, name = "ClsLib%d" % k, "Cls%d" % k
            cls = ["KIND", "ALSO", "KIND"][route]
            defs, means = [], []
            for i, (n, t) in enumerate(fields):
                tt = In(lib, t) if route == 2 else t
                r = lambda x: Raw("%s.%s" % (cls, n), x)
                two = [("F%d" % i, r(tt)), ("G%d" % i, Seq([Comp("a", T(0, r(tt))), Comp("b", T(1, Of(r(tt)))), Comp("c", T(2, r(tt)), "OPTIONAL"),
                                                            Comp("d", T(3, Choice([("e", T(4, r(tt))), ("f", T(5, INT))])))]))]
                defs += two if c.thorough or i % 2 == k % 2 else two[1:]
            if route == 2:
                lm = Module(lib, [text] + [("Local", Seq([Comp("lib", Tag("", 0, INT))])), ("Hue", Enum([("cyan", 3), ("green", None)])),
                                           ("Pick", Choice([("y", Tag("", 5, INT)), ("z", Tag("", 6, BOOL))]))], tagging)
                mods, imports, extra = [lm], [(["KIND"], lib)], []
            else:
                mods, imports, extra = [], [], [text] + (["ALSO ::= KIND"] if route == 1 else [])
            env = Env(mods + [Module(name, LOCAL + defs, tagging, imports)])
            defs = [d for d in defs if supported(env, Ref(d[0]), name)]
            half = LOCAL + defs
            m = Module(name, (half + extra) if k % 2 else (extra + half[::-1]), tagging, imports)
            use(w, "cls%d" % k, mods + [m], mods + [m], [(name, d) for d, _ in defs])


REFUSED = {
    "too-few": "T{A, B} ::= SEQUENCE { a A, b [0] B }\nU ::= T{INTEGER}",
    "too-many": "T{A} ::= SEQUENCE { a A }\nU ::= T{INTEGER, BOOLEAN}",
    "no-arguments": "T{A} ::= SEQUENCE { a A }\nU ::= SEQUENCE { t T }",
    "not-a-template": "T ::= SEQUENCE { a INTEGER }\nU ::= T{INTEGER}",
    "no-template": "U ::= T{INTEGER}",
    "undefined-argument": "T{A} ::= SEQUENCE { a A }\nU ::= T{Nothing}",
    "undefined-in-body": "T{A} ::= SEQUENCE { a A, b Nothing }\nU ::= T{INTEGER}",
    "endless": "T{A} ::= SEQUENCE { a A, b T{A} OPTIONAL }\nU ::= T{INTEGER}",
    "endless-argument": "T{A} ::= SEQUENCE { a A, b T{T{A}} OPTIONAL }\nU ::= T{INTEGER}",
    "endless-pair": "T{A} ::= SEQUENCE { a S{A} OPTIONAL }\nS{A} ::= SEQUENCE { a T{A} OPTIONAL }\nU ::= T{INTEGER}",
    "contains-itself": "T{A} ::= SEQUENCE { a A }\nU ::= T{U}",
    "is-itself": "T{A} ::= A\nU ::= T{U}",
    "clash": "T{A} ::= CHOICE { a A, b INTEGER }\nU ::= T{INTEGER}",
    "set-clash": "T{A, B} ::= SET { a A, b B }\nU ::= T{INTEGER, INTEGER}",
    "of-itself": "T ::= SEQUENCE { a INTEGER, COMPONENTS OF T }",
    "of-each-other": "T ::= SEQUENCE { a INTEGER, COMPONENTS OF U }\nU ::= SEQUENCE { b BOOLEAN, COMPONENTS OF T }",
    "of-deep-itself": "T ::= SEQUENCE { a INTEGER, COMPONENTS OF [0] V }\nV ::= U\nU ::= [1] T",
    "of-integer": "T ::= SEQUENCE { COMPONENTS OF INTEGER }",
    "of-choice": "T ::= SEQUENCE { COMPONENTS OF U }\nU ::= CHOICE { a INTEGER, b BOOLEAN }",
    "of-list": "T ::= SEQUENCE { COMPONENTS OF SEQUENCE OF INTEGER }",
    "of-undefined": "T ::= SEQUENCE { COMPONENTS OF U }",
    "of-value": "T ::= SEQUENCE { COMPONENTS OF U }\nu INTEGER ::= 5",
    "of-clash": "T ::= SET { a INTEGER, COMPONENTS OF U }\nU ::= SET { b INTEGER }",
    "no-class": "T ::= SEQUENCE { a NONE.&id }",
    "no-field": "KIND ::= CLASS { &id INTEGER }\nT ::= SEQUENCE { a KIND.&other }",
    "not-a-class": "K ::= SEQUENCE { id INTEGER }\nT ::= SEQUENCE { a K.&id }",
    "circular-class": "KIND ::= CLASS { &a KIND.&b, &b KIND.&a }\nT ::= SEQUENCE { a KIND.&a }",
    "circular-alias": "KIND ::= OTHER\nOTHER ::= KIND\nT ::= SEQUENCE { a KIND.&a }",
}


def run(c):
    w = gen.World(c)
    parameters(c, w)
    nesting(c, w)
    recursion(c, w)
    modules(c, w)
    components(c, w)
    classes(c, w)
    for name, text in REFUSED.items():
        w.unit("refuse-" + name, [Module("Ref", [text], "")], expect="refuse")
    w.run(2)
    return c.finish(
        "model_checking",
        "a state is one value or wire element of one type that is written with a template, COMPONENTS OF or a class field, with its "
        "outcome; every schema in the bound is compiled and every encoding compared with the one of the type written out by hand "
        "(expanded by the reference); what has no finite expansion must be refused",
        {"templates": "10 bodies x 10 arguments in pairs x 3 tagging environments x 3 definition orders; 6 x 6 nestings; 4 recursions; "
                      "templates of other modules: 9 tagging pairs x 3 routes",
         "components of": "9 sources x 6 places x SEQUENCE/SET x 3 tagging environments; 7 pairs of modules",
         "classes": "7 field types x 3 routes x 3 tagging environments",
         "refused": len(REFUSED), "depth": "every family in full" if c.thorough else "a half to a third of each family"})
