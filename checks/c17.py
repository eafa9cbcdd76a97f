import itertools
import gen
from asn import *
from fam import *

EN = Enum([("p", None), ("q", None)])
SEQ = Seq([Comp("i", INT), Comp("b", Tag("", 1, BOOL, "IMPLICIT"), "OPTIONAL")])
SET = Set([Comp("i", INT)])
CHO = Choice([("x", INT), ("y", Tag("", 1, NUL, "IMPLICIT"))])
NUMBERS = [0, 1, 30, 31, 127, 128, 16383, 16384, 2097151]
TYPES = [("Int", INT), ("Bool", BOOL), ("Nul", NUL), ("Oct", OCT), ("Oid", OID), ("Str", UTF8), ("Bit", Prim("BIT STRING")),
         ("Enu", EN), ("Sq", SEQ), ("St", SET), ("Cho", CHO), ("Sof", Of(INT)), ("Tof", Of(SEQ, "SET")), ("Cof", Of(CHO)),
         ("Ia5", Prim("IA5String")), ("Named", Prim("INTEGER", [("low", 1)])), ("Vis", Prim("VisibleString")),
         ("Cons", Prim("INTEGER", None, " (0..9)"))]
# types defined in terms of other definitions, tagged and not
DEFS = [("D" + n, t) for n, t in TYPES] + [("R" + n, Ref("D" + n)) for n, t in TYPES] + \
       [("G" + n, Tag("APPLICATION", 50 + i, t)) for i, (n, t) in enumerate(TYPES)] + \
       [("H" + n, Ref("G" + n)) for n, t in TYPES] + \
       [("K" + n, Tag("PRIVATE", 50 + i, Ref("D" + n), "IMPLICIT")) for i, (n, t) in enumerate(TYPES)
        if n not in ("Cho", "Any")]


def names(prefix):
    return [p + n for p in prefix for n, _ in TYPES if p != "K" or n not in ("Cho", "Any")]


def mutants(e):
    """the element with another class, construction, number or inner header"""
    p = parse(e)
    head = e[:len(e) - len(p.content)]
    out = [bytes([e[0] ^ x]) + e[1:] for x in (0x20, 0x40, 0x80, 0xC0)]
    for n in {p.tag + 1, max(0, p.tag - 1), p.tag + 128}:
        out.append(tlv((p.cls, n), p.cons, p.content))
    if p.cons and p.content:
        i = parse(p.content)
        if i:
            rest = p.content[len(i.raw):]
            for x in (0x20, 0x40, 0x80):
                out.append(tlv((p.cls, p.tag), True, bytes([i.raw[0] ^ x]) + i.raw[1:] + rest))
            out.append(tlv((p.cls, p.tag), True, tlv((i.cls, i.tag + 1), i.cons, i.content) + rest))
            out.append(i.raw)
            out.append(tlv((p.cls, p.tag), True, i.raw + rest + b"\x05"))
            out.append(tlv((p.cls, p.tag), True, b""))
    return out


def run(c):
    w = gen.World(c)
    k = 0
    refs = [Ref(n) for n in names("DRGHK")]
    # every type, in place and by reference, at the top level and as components of every kind
    for tagging in ("", "EXPLICIT", "IMPLICIT", "AUTOMATIC"):
        if tagging == "EXPLICIT" and not c.thorough:
            continue
        tl = tagging.lower() or "explicit"
        env = Env([Module("M", DEFS, tagging)])

        def legal(t):
            return len(env.chain(t, "M")) <= 2

        k += 1
        m = Module("Defs%d" % k, DEFS, tagging)
        u = w.unit("definitions-%s-%s" % (tl, tagging == ""), [m])
        for n, t in DEFS:
            s = u.subject(m, n)
            vs = round_trips(s)
            for v in vs[:3]:
                for x in mutants(s.encode(v)):
                    s.D(x)
        for cls, mode in itertools.product(("", "APPLICATION", "PRIVATE"), (None, "IMPLICIT", "EXPLICIT")):
            if tagging == "AUTOMATIC" and mode == "IMPLICIT" and not c.thorough:
                continue
            for off in ((0, 3, 6) if c.thorough else {"": (0, 4), "IMPLICIT": (2,), "AUTOMATIC": (6,)}[tagging]):
                uses = [t for _, t in TYPES] + refs[(off + len(cls) // 3) % 4::2 if c.thorough else 4]
                uses = [t for t in uses]
                tagged = [Tag(cls, NUMBERS[(i + off) % len(NUMBERS)], t, mode) for i, t in enumerate(uses)]
                tagged = [t for t in tagged if legal(t)]
                # an implicit tag does not apply to choices and open types
                tagged = [t for t in tagged if mode != "IMPLICIT" or env.chain(t.inner, "M")]
                distinct = [Tag(cls, NUMBERS[off] + 3 * i, t.inner, mode) for i, t in enumerate(tagged)]
                k += 1
                m = Module("Tags%d" % k, [], tagging)
                step = 16
                subj = []
                for j in range(0, len(tagged), step):
                    m.assigns.append(("Seq%d" % j, Seq([Comp("c%d" % i, t) for i, t in enumerate(tagged[j:j + step])])))
                    subj.append("Seq%d" % j)
                    mix = distinct[j:j + step]
                    if (j // step + off) % 2 or c.thorough:
                        m.assigns.append(("Set%d" % j, Set([Comp("c%d" % i, t, "OPTIONAL" if i % 2 else None)
                                                            for i, t in enumerate(mix)])))
                        subj.append("Set%d" % j)
                    if not (j // step + off) % 2 or c.thorough:
                        m.assigns.append(("Opt%d" % j, Seq([Comp("c%d" % i, t, "OPTIONAL") for i, t in enumerate(mix)])))
                        subj.append("Opt%d" % j)
                    for i, t in enumerate(mix):
                        if (i + off) % (3 if c.thorough else 8) == 0:
                            m.assigns.append(("Top%d" % (j + i), t))
                            m.assigns.append(("Lst%d" % (j + i), Of(t)))
                            subj += ["Top%d" % (j + i), "Lst%d" % (j + i)]
                m.assigns.append(("Alt", Choice([("a%d" % i, t) for i, t in enumerate(distinct[off % 4:][:9])])))
                subj.append("Alt")
                m.assigns = needed(DEFS, m.assigns) + m.assigns
                u = w.unit("tags-%s-%s-%s-%d" % (tl + ("" if tagging else "-default"), cls.lower() or "context",
                                                (mode or "none").lower(), off), [m])
                for n in subj:
                    s = u.subject(m, n)
                    vs = s.all_values()
                    if n[:3] in ("Seq", "Set"):
                        vs = vs[:3]
                    for v in vs:
                        s.B(v)
                    if n[:3] in ("Top", "Lst", "Alt"):
                        for x in mutants(s.encode(vs[-1])):
                            s.D(x)
                    if len(vs) > 1:
                        s.H([s.encode(v) for v in vs] + [s.encode(vs[0])])
    w.run(1)
    return c.finish(
        "model_checking",
        "a state is one value or wire element of one generated type with its outcome; every schema in the bound is compiled "
        "and every value encoded and decoded, with the identifier octets and nesting X.680 and X.690 prescribe; every "
        "element with one part of its identifiers changed is decoded and compared with the reference",
        {"tags": "%d tagging environments x 3 keywords x 3 classes x %d tag numbers x 18 types, in place and through 5 kinds of "
                 "reference%s" % (4 if c.thorough else 3, len(NUMBERS), " (numbers and references in rotation)"),
         "sites": "definition, component of SEQUENCE and SET, optional component, list element, alternative"})
