import itertools
import gen
from asn import *
from fam import *

EN = Enum([("p", None), ("q", None)])
# types with a default value the schema can write, and without
D = [(INT, ("5", 5)), (BOOL, ("TRUE", True)), (EN, ("q", "q"))]
POOL = [(INT, ("5", 5)), (BOOL, ("TRUE", True)), (Choice([("x", Tag("", 1, INT, "IMPLICIT")), ("y", NUL)]), None),
        (OCT, None), (EN, ("q", "q")), (Of(BOOL), None), (Tag("APPLICATION", 3, Seq([Comp("i", INT)])), None)]


def run(c):
    w = gen.World(c)
    k = 0
    for tagging in ("", "IMPLICIT", "AUTOMATIC"):
        for n in range(0, 4):
            for rot in range(0, len(POOL), 1 if c.thorough else 3):
                if n < 2 and rot % 3:
                    continue
                types = [POOL[(rot + i) % len(POOL)] for i in range(n)]
                assigns, names = [], []
                for j, pres in enumerate(itertools.product("MOD", repeat=n)):
                    if any(p == "D" and not d for p, (_, d) in zip(pres, types)):
                        continue
                    comps = [Comp("c%d" % i, t, {"M": None, "O": "OPTIONAL", "D": d}[p])
                             for i, (p, (t, d)) in enumerate(zip(pres, types))]
                    assigns.append(("T" + "".join(pres), Seq(comps)))
                    if n < 2 or (j % 5 == 1):
                        assigns.append(("X" + "".join(pres), Seq(comps, ext="end")))
                k += 1
                m = Module("Seq%d" % k, assigns, tagging)
                u = w.unit("seq-%s-%d-%d" % (tagging.lower() or "explicit", n, rot), [m])
                for name, t in assigns:
                    s = u.subject(m, name)
                    round_trips(s)
                    al = components_alphabet(s, t, m.name, second=1, bad=1)
                    hi = n + 1 if (c.thorough or n < 3) else 3
                    for word in words(al, 0, hi):
                        s.D(wrap(s, t, m.name, b"".join(word)))
                    if n == 3 and not c.thorough:
                        for word in itertools.permutations(al[:3]):  # every order, followed by something
                            for x in al:
                                s.D(wrap(s, t, m.name, b"".join(word) + x))
                    for word in words(al[:n], 0, n):
                        s.D(wrap(s, t, m.name, b"".join(word) + TRUNCATED))
    alternatives_as_components(w, Seq, "AltSeq", c.thorough)
    w.run()
    return c.finish(
        "model_checking",
        "a state is one value or wire message of one generated type with its outcome; every schema in the bound is "
        "compiled, every presence subset is encoded into several buffers, decoded, copied and compared, and every sequence "
        "of wire components in the bound is decoded (alone and with other octets behind it) and compared with the reference",
        {"schemas": "22 types with one or several identifiers of any class as optional and mandatory components; 3 tagging "
                    "environments x up to 3 components x every combination of mandatory, optional and default x "
                    "%s of 7 component types, and extensible variants" % ("every rotation" if c.thorough else "3 rotations"),
         "messages": "all sequences of %s elements over: each component, a second value, other construction, missing "
                     "content, a foreign element; all of them truncated" % ("up to n + 1" if c.thorough else
                     "up to n + 1 (n < 3), 3, and permutations and one more (n = 3)")})
