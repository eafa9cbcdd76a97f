import itertools
import gen
from asn import *
from fam import *

EN = Enum([("p", None), ("q", None)])
# distinct outermost tags; with a default value the schema can write, or without
POOL = [(INT, ("5", 5)), (BOOL, ("TRUE", True)),
        (Choice([("x", Tag("", 1, INT, "IMPLICIT")), ("y", NUL), ("z", Choice([("v", Tag("", 9, OCT, "IMPLICIT")), ("w", UTF8)]))]), None),
        (OCT, ("'AB'H", b"\xab")), (EN, ("q", "q")), (Of(BOOL), None), (Of(INT, "SET"), None),
        (Tag("APPLICATION", 3, Set([Comp("i", INT), Comp("b", BOOL, "OPTIONAL")]), "EXPLICIT"), None)]


def inside(c, u, m, n):
    for name, t in m.assigns:
        s = u.subject(m, name)
        vs = round_trips(s)
        al = components_alphabet(s, t, m.name, second=1, bad=1)
        hi = n + 1 if (c.thorough or n < 3) else 3
        for word in words(al, 0, hi):
            s.D(wrap(s, t, m.name, b"".join(word)))
        if n == 3 and not c.thorough:
            for word in itertools.permutations(al[:3]):  # every order, followed or interrupted by something
                for x in al:
                    for i in (0, 2, 3):
                        s.D(wrap(s, t, m.name, b"".join(word[:i]) + x + b"".join(word[i:])))
        for word in words(al[:n], 0, n):
            s.D(wrap(s, t, m.name, b"".join(word) + TRUNCATED))
        if n >= 2:  # used objects, in other orders
            es = al[:n]
            msgs = [wrap(s, t, m.name, b"".join(x)) for r in range(n + 1) for x in itertools.permutations(es, r)]
            for a, b in itertools.permutations(msgs, 2):
                if len(msgs) < 20 or len(a) + len(b) > 2 * len(msgs[-1]) - 8:
                    s.H([a, b])


def run(c):
    w = gen.World(c)
    k = 0
    for tagging in ("", "IMPLICIT", "AUTOMATIC"):
        for n in range(0, 4):
            for rot in range(0, len(POOL), 1 if c.thorough else 3):
                if n < 2 and rot % 2 and not c.thorough:
                    continue
                types = [POOL[(rot + i) % len(POOL)] for i in range(n)]
                assigns = []
                for j, pres in enumerate(itertools.product("MOD", repeat=n)):
                    if any(p == "D" and not d for p, (_, d) in zip(pres, types)):
                        continue
                    if n == 3 and not c.thorough and j % 2 and pres != ("M", "O", "M"):
                        continue
                    comps = [Comp("c%d" % i, t, {"M": None, "O": "OPTIONAL", "D": d}[p])
                             for i, (p, (t, d)) in enumerate(zip(pres, types))]
                    assigns.append(("T" + "".join(pres), Set(comps)))
                    if n < 2 or (j % 5 == 1):
                        assigns.append(("X" + "".join(pres), Set(comps, ext="end")))
                for part in range(0, len(assigns), 6):  # few types in one module: the C++ compiler takes long for many
                    k += 1
                    m = Module("Set%d" % k, assigns[part:part + 6], tagging)
                    u = w.unit("set-%s-%d-%d-%d" % (tagging.lower() or "explicit", n, rot, part), [m])
                    inside(c, u, m, n)
    # more components: all orders of four and five, all pairs of omissions
    for tagging in ("", "AUTOMATIC"):
        types = [INT, BOOL, OCT, EN, Tag("PRIVATE", 40, UTF8, "EXPLICIT")]
        assigns = []
        for n in (4, 5):
            assigns.append(("M%d" % n, Set([Comp("c%d" % i, t) for i, t in enumerate(types[:n])])))
            assigns.append(("O%d" % n, Set([Comp("c%d" % i, t, "OPTIONAL") for i, t in enumerate(types[:n])], ext="end")))
        many = Set([Comp("c%d" % i, Tag("", i * 5, [INT, OCT, BOOL][i % 3], "IMPLICIT"), "OPTIONAL" if i % 2 else None)
                    for i in range(40)])
        assigns.append(("Many", many))
        k += 1
        m = Module("Set%d" % k, assigns, tagging)
        u = w.unit("set-large-%s" % (tagging.lower() or "explicit"), [m])
        for name, t in assigns[:-1]:
            s = u.subject(m, name)
            round_trips(s)
            n = int(name[1])
            es = components_alphabet(s, t, m.name, second=0, bad=0)
            for r in range(max(0, n - 2), n + 1):
                for x in itertools.permutations(es[:n], r):
                    s.D(wrap(s, t, m.name, b"".join(x)))
            for x in itertools.permutations(es[:n]):
                s.D(wrap(s, t, m.name, b"".join(x) + es[0]))
                s.D(wrap(s, t, m.name, b"".join(x[:2]) + es[-1] + b"".join(x[2:])))
        s = u.subject(m, "Many")
        v = [{"c%d" % i: [i, b"o" * i, i % 2 == 0][i % 3] for i in range(40) if i % 2 == 0 or i in on}
             for on in ([], list(range(40)), [1], [39], [19, 21])]
        for x in v:
            s.B(x)
        es = [s.env.encode(ty, tm, v[1][x.name]) for (x, ty, tm) in s.env.comps(many, m.name)]
        for i in range(40):
            rotated = es[i:] + es[:i]
            s.D(wrap(s, many, m.name, b"".join(rotated)))
            s.D(wrap(s, many, m.name, b"".join(reversed(rotated))))
            s.D(wrap(s, many, m.name, b"".join(rotated[1:])))
            s.D(wrap(s, many, m.name, b"".join(rotated) + es[i]))
        s.H([s.encode(x) for x in v] + [s.encode(v[0])])
    alternatives_as_components(w, Set, "AltSet", c.thorough)
    w.run()
    return c.finish(
        "model_checking",
        "a state is one value or wire message of one generated type with its outcome; every schema in the bound is compiled, "
        "every presence subset is encoded, decoded, copied and compared, every sequence of wire components in the bound is "
        "decoded (alone, with other octets behind it, and after another message) and compared with the reference",
        {"schemas": "22 types with one or several identifiers of any class as optional and mandatory components; 3 tagging "
                    "environments x up to 3 components x every combination of mandatory, optional and default x "
                    "%s of 8 component types, extensible variants; 4, 5 and 40 components" % (
                        "every rotation" if c.thorough else "3 rotations"),
         "messages": "all sequences of %s elements over: each component, a second value, other construction, missing "
                     "content, a foreign element; all permutations of 3 to 5 components with omissions, repetitions and "
                     "insertions; all of them truncated; all pairs of permutations into one object" % (
                         "up to n + 1" if c.thorough else "up to 3")})
