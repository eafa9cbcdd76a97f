import gen, corpus
from asn import *
from fam import *


def spread(l, n):
    l = list(dict.fromkeys(l))
    return l if len(l) <= n else [l[i * (len(l) - 1) // (n - 1)] for i in range(n)]


def run(c):
    w = gen.World(c)
    nv, ne = (10, 40) if c.thorough else (7, 16)
    for s in corpus.world(w, c.thorough):
        vs = s.all_values()
        good = spread([s.encode(v) for v in vs], nv)
        bad = []
        for m in good:
            bad += corpus.edits(s.env, s.type, s.mod, m) + [m[:-1], b""]
        bad = [b for b in dict.fromkeys(bad) if b not in good]
        for v in spread_values(vs, 3):
            s._k(v)
        for part in range(8):
            s.cases.append("M %s %d %d %s" % (s.id, 3, part, ";".join(gen.hx(m) for m in good + spread(bad, ne))))
    w.run(2)
    return c.finish(
        "model_checking",
        "a state is one (type, value) pair an object reaches; every history of three decodes of messages from the message set "
        "of the type, from a new object and from built values, is executed on one object, and each outcome, value, equality and "
        "re-encoding is compared with that of a new object",
        {"messages": "per type up to %d encodings of distinct values and %d damaged ones (one element left out, doubled, emptied, "
                     "of another class or form, too long; truncated; empty)" % (nv, ne), "history length": 3,
         "types": "every type of lib/corpus.py: primitives under 4 kinds of identifiers, lists, sequences, sets, choices in three "
                  "tagging environments, recursive types, imports"})


def spread_values(vs, n):
    return vs if len(vs) <= n else [vs[i * (len(vs) - 1) // (n - 1)] for i in range(n)]
