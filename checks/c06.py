import gen, corpus
from asn import *
from fam import *

LENGTHS = [118, 120, 122, 123, 124, 125, 126, 127, 128, 129, 131, 250, 251, 252, 253, 254, 255, 256, 257, 258, 260]
HUGE = [65527, 65531, 65534, 65535, 65536, 65540]


def nested(t, levels):
    for i in range(levels):
        t = [lambda x: Seq([Comp("a", x)]), lambda x: Of(x), lambda x: Tag("", 3, x, "EXPLICIT"),
             lambda x: Set([Comp("m", x, "OPTIONAL")]), lambda x: Choice([("n", NUL), ("v", Tag("APPLICATION", 300, x))])][i % 5](t)
    return t


def fill(env, t, mod, leaf):
    """the value of the nested type whose innermost string is leaf"""
    b, m = env.base(t, mod)
    if isinstance(b, Seq):
        c, ty, tm = env.comps(b, m)[0]
        return {c.name: fill(env, ty, tm, leaf)}
    if isinstance(b, Of):
        return [fill(env, b.elem, m, leaf)]
    if isinstance(b, Choice):
        c, ty, tm = env.comps(b, m)[1]
        return (c.name, fill(env, ty, tm, leaf))
    return leaf


def run(c):
    w = gen.World(c)
    for s in corpus.world(w, c.thorough):
        for v in s.all_values(cap=64):
            s.S(v)
    # every level of nesting crosses the places where lengths need more octets
    # (REAL has several encodings; the others are compared with the reference elsewhere, and here when long)
    for levels in range(0, 6 if c.thorough else 5):
        for name, cls, mode in (("exp", "", "EXPLICIT"), ("imp", "APPLICATION", "IMPLICIT")):
            inner = nested(OCT, levels)
            if isinstance(inner, Choice) and mode == "IMPLICIT" or isinstance(inner, Tag):
                continue
            m = Module("Long%s%d" % (name, levels), [("T", Tag(cls, 40, inner, mode)), ("U", inner)])
            u = w.unit("long-%s-%d" % (name, levels), [m])
            for n in "TU":
                s = u.subject(m, n)
                for k in LENGTHS + HUGE + ([16777207, 16777216] if c.thorough and n == "T" else []):
                    v = fill(u.env, s.type, m.name, Rep(k))
                    s.S(v)
                for k in (126, 130, 255):
                    s.B(fill(u.env, s.type, m.name, Rep(k)))
    m = Module("Many", [("L", Of(INT)), ("S", Tag("", 4, Of(Seq([Comp("a", BOOL)]), "SET"))), ("O", Seq([Comp("l", Of(NUL)), Comp("i", INT)]))])
    u = w.unit("many", [m])
    for n in (40, 41, 42, 43, 60, 63, 64, 84, 85, 86, 127, 128, 129, 130):
        for t, v in (("L", [5] * n), ("S", [{"a": True}] * n), ("O", {"l": [None] * n, "i": 1})):
            s = next((x for x in u.subjects if x.name == t), None) or u.subject(m, t)
            s.B(v)
            s.S(v)
    w.run(2)
    return c.finish(
        "model_checking",
        "a state is one value of one type; it is encoded into heap blocks of exactly every size from nothing to two octets more "
        "than the reference encoding, with two different fillings, under address sanitizer: smaller ones must fail, others must "
        "hold the reference octets and then the filling",
        {"types": "every type of lib/corpus.py with all its values; OCTET STRING under up to %d levels of SEQUENCE, list, tag, SET, "
                  "CHOICE; lists" % (5 if c.thorough else 4),
         "lengths": "contents around every length-octet boundary to 65540 octets%s; of messages longer than 600 octets the first "
                    "and the last 250 buffer sizes" % (" and at 16 MB" if c.thorough else "")})
