import itertools, re
import gen
from asn import *
from fam import *

def shape(alts, ext=False):
    return Choice([("a%d" % i, t) for i, t in enumerate(alts)], ext)


def ids(env, t, mod):
    return [x for x in env.outer(t, mod)]


def run(c):
    w = gen.World(c)
    tags = (0, 1, 2, 5, 7, 10, 16, 31, 128) if not c.thorough else (0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 16, 17, 30, 31, 32, 127, 128, 16384)
    contents = [b"", b"\xff", bytes.fromhex("020105"), bytes.fromhex("870105")]
    wires = [tlv((cl, n), cons, x) for cl in range(4) for n in tags for cons in (False, True) for x in contents]
    k = 0
    for tagging in ("", "IMPLICIT", "AUTOMATIC"):
        P = alternatives()
        env = Env([Module("M", ALT_DEFS, tagging)])
        combos = [x for n in (1, 2) for x in itertools.combinations(range(len(P)), n)]
        share = {"": 0, "IMPLICIT": 1, "AUTOMATIC": 2}[tagging]
        combos += [x for x in itertools.combinations(range(len(P)), 3) if sum(x) % (4 if c.thorough else 37) == share]
        if not c.thorough:
            part, of = {"": (0, 3), "IMPLICIT": (1, 3), "AUTOMATIC": (2, 3)}[tagging]
            combos = [x for x in combos if len(x) != 2 or sum(x) % of == part]
        combos.append(tuple(i for i in range(len(P)) if i not in (14, 16, 17, 21)))
        good, bad = [], []
        for n, x in enumerate(combos):
            t = shape([P[i] for i in (x if n % 2 else reversed(x))], ext=n % 7 == 3)
            o = ids(env, t, "M")
            (good if len(o) == len(set(o)) else bad).append((len(x), t))
        per = 3  # compiling them takes time quadratic in their number
        for i in range(0, len(good), per):
            k += 1
            group = good[i:i + per]
            text = show(Seq([Comp("x", t) for (_, t) in group]))
            need = [h for h in ALT_DEFS if re.search(r"\b%s\b" % h[0], text) or (h[0] == "X" and re.search(r"\bR\b", text))]
            m = Module("Cho%d" % k, (need or [("N", NUL)]) + [("T%d" % j, t) for j, (_, t) in enumerate(group)] +
                       [("W%d" % j, Tag("APPLICATION", 1000 + j, Ref("T%d" % j))) for j, _ in enumerate(group[:i // per % 3 == 0])] +
                       [("S%d" % j, Seq([Comp("f", Ref("T%d" % j), "OPTIONAL"), Comp("l", Tag("", 99, Of(Ref("T%d" % j)))),
                                         Comp("t", Tag("", 100, t), "OPTIONAL")])) for j, (_, t) in enumerate(group[:i // per % 3 == 0])], tagging)
            u = w.unit("choice-%s-%d" % (tagging.lower() or "explicit", i // per), [m])
            for j, (n, t) in enumerate(group):
                s = u.subject(m, "T%d" % j)
                vs = round_trips(s)
                for wire in wires if n < 3 or c.thorough else wires[j % 3::3]:
                    s.D(wire)
                for v in vs:
                    e = s.encode(v)
                    for x in mangle(e) + [e[:-1], e + e]:
                        s.D(x)
                for a, b in itertools.product(range(len(vs)), repeat=2):
                    if n < 3:
                        s.C(vs[a], vs[b])
            for j, (n, t) in enumerate(group[:i // per % 3 == 0]):
                s = u.subject(m, "W%d" % j)
                round_trips(s)
                for wire in wires[::5]:
                    s.D(tlv((1, 1000 + j), True, wire))
                    s.D(tlv((1, 1000 + j), False, wire))
                    s.D(tlv((1, 1000 + j), True, wire + wire))
                s = u.subject(m, "S%d" % j)
                vals = [{"f": v, "l": [v, x], "t": x} for v, x in zip(s.env.mods and values(s.env, t, m.name),
                                                                    reversed(values(s.env, t, m.name)))]
                vals += [{"l": []}, {"l": [], "t": vals[0]["t"]}]
                for v in vals:
                    s.B(v)
                s.H([s.encode(v) for v in vals])
        if tagging != "AUTOMATIC":
            for i, (n, t) in enumerate(bad):
                if n < 3 or i % 9 == 0:
                    w.unit("choice-clash-%s-%d" % (tagging.lower() or "explicit", i),
                           [Module("Clash", ALT_DEFS + [("T", t)], tagging)], expect="refuse")
    w.run(1)
    return c.finish(
        "model_checking",
        "a state is one value or wire element of one generated CHOICE with its outcome; every choice in the bound is compiled, "
        "every alternative is encoded, decoded and copied over every other, and every wire identifier in the bound is decoded "
        "with several contents; choices with clashing identifiers must be refused",
        {"schemas": "all choices of 1 and 2 of 22 alternatives (4 classes, high tag numbers, explicit and implicit tags, nested, "
                    "tagged and referenced choices)%s, every %s choice of 3, and one of 18" % (
                        (" in 3 tagging environments", "4th") if c.thorough else (", each pair in one tagging environment", "37th")),
         "identifiers": "4 classes x 2 constructions x %d tag numbers x 4 contents" % len(tags),
         "sites": "top level, optional component, list element, explicitly tagged"})
