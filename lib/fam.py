"""Families of schemas and wire messages shared by the checks on generated code."""
import itertools
from asn import *
import gen

INT, BOOL, OCT, NUL = Prim("INTEGER"), Prim("BOOLEAN"), Prim("OCTET STRING"), Prim("NULL")
OID, REAL = Prim("OBJECT IDENTIFIER"), Prim("REAL")
UTF8 = Prim("UTF8String")
FOREIGN = bytes.fromhex("9e0100")       # [30]
TRUNCATED = bytes.fromhex("0205")       # promises more than there is


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def mangle(e):
    """variants of an element: other construction, no content, one octet more inside (outer length adjusted)"""
    p = parse(e)
    out = [bytes([e[0] ^ 0x20]) + e[1:]]
    if p.content:
        h = e[:1] if e[0] & 0x1f != 0x1f else e[:next(i for i in range(1, len(e)) if not e[i] & 0x80) + 1]
        out.append(h + b"\x00")
    return out


def components_alphabet(subj, t, mod, second=1, bad=1):
    """elements that may appear inside a message of the SEQUENCE/SET t: for every component a valid element, for the
    first `second` ones another value, for the first `bad` ones mangled elements; a foreign element; a truncated one"""
    env = subj.env
    good, more = [], []
    for i, (c, ty, tm) in enumerate(env.comps(t, mod)):
        vs = values(env, ty, tm, True)
        if isinstance(c.opt, tuple):
            vs = [x for x in vs if x != c.opt[1]] + [c.opt[1]]
        es = [env.encode(ty, tm, v) for v in vs]
        good.append(es[0])
        if i < second or isinstance(c.opt, tuple):
            more += es[-1:] if es[-1] != es[0] else []
        if i < bad:
            more += mangle(es[0])
    out = []
    for e in good + [FOREIGN] + more:
        if e not in out:
            out.append(e)
    return out


def wrap(subj, t, mod, content):
    """the element of type t (its tags) with this content"""
    env = subj.env
    ch = env.chain(t, mod)
    b, _ = env.base(t, mod)
    e = tlv(ch[-1], isinstance(b, (Seq, Of)), content)
    for tag in reversed(ch[:-1]):
        e = tlv(tag, True, e)
    return e


def round_trips(subj, buffers=False, history=True, **kw):
    vs = subj.all_values(**kw)
    for v in vs:
        subj.B(v)
        if buffers:
            subj.S(v)
    if history and len(vs) > 1:
        subj.H([subj.encode(v) for v in vs] + [subj.encode(vs[0])])
    return vs


def needed(defs, assigns):
    """the definitions the assignments refer to, directly or not, in their order"""
    import re
    names = {n: set(re.findall(r"[A-Za-z][\w-]*", show(t))) for n, t in defs}
    todo = set(re.findall(r"[A-Za-z][\w-]*", " ".join(show(a[1]) for a in assigns)))
    have = set()
    while todo:
        n = todo.pop()
        if n in names and n not in have:
            have.add(n)
            todo |= names[n]
    return [d for d in defs if d[0] in have]


# Alternatives of a CHOICE, and other types known by several or unusual identifiers
ALT_SEQ = Seq([Comp("i", INT), Comp("o", OCT, "OPTIONAL")])
ALT_EN = Enum([("p", None), ("q", None)])


def alternatives():
    """alternatives that differ in class, number, construction, depth and nesting (names are made unique later)"""
    p = [INT, NUL, ALT_SEQ, Of(INT, "SET"), ALT_EN,
         Tag("", 0, INT, "IMPLICIT"), Tag("APPLICATION", 0, INT, "IMPLICIT"), Tag("PRIVATE", 0, OCT, "IMPLICIT"),
         Tag("", 2, INT, "EXPLICIT"), Tag("APPLICATION", 2, ALT_SEQ, "EXPLICIT"), Tag("PRIVATE", 2, ALT_SEQ, "IMPLICIT"),
         Tag("", 31, BOOL, "IMPLICIT"), Tag("APPLICATION", 128, OCT, "EXPLICIT"),
         Choice([("n", Tag("", 5, INT, "IMPLICIT")), ("m", Tag("APPLICATION", 5, INT, "IMPLICIT"))]),
         Choice([("n", BOOL), ("m", Choice([("k", Tag("PRIVATE", 2, INT, "EXPLICIT")), ("l", UTF8)]))]),
         Tag("", 3, Choice([("n", INT), ("m", NUL)])), Ref("R"), Tag("", 4, Ref("R")), Ref("X"), Tag("PRIVATE", 5, Ref("X")),
         Ref("Y"), Choice([("n", Tag("", 2, INT, "IMPLICIT")), ("m", Tag("APPLICATION", 2, NUL, "IMPLICIT")),
                           ("k", Tag("PRIVATE", 2, OCT, "IMPLICIT")), ("l", INT), ("o", Tag("PRIVATE", 300, BOOL))])]
    return p


ALT_DEFS = [("R", Choice([("ra", Tag("", 7, INT, "IMPLICIT")), ("rb", Ref("X"))])),
            ("X", Tag("APPLICATION", 7, Choice([("xa", INT), ("xb", BOOL)]))),
            ("Y", Tag("PRIVATE", 7, Set([Comp("i", INT)]), "IMPLICIT"))]




PARTNER = Prim("GeneralString")


def alternatives_as_components(w, make, name, thorough):
    """Every type of alternatives() as an optional and a mandatory component of the SEQUENCE or SET made by make"""
    from corpus import edits
    P = alternatives()
    for e, tagging in enumerate(("", "IMPLICIT", "AUTOMATIC")):
        for i in range(e if not thorough else 0, len(P), 3 if not thorough else 1):
            t = P[i]
            again = Tag("PRIVATE", 201, t, "EXPLICIT")
            legal = len(Env([Module("M", ALT_DEFS, tagging)]).chain(again, "M")) <= 2  # at most two tags nest
            assigns = [("T", make([Comp("c", t, "OPTIONAL"), Comp("z", Tag("", 200, PARTNER))])),
                       ("U", make([Comp("a", PARTNER), Comp("c", t, "OPTIONAL")] + [Comp("d", again, "OPTIONAL")] * legal)),
                       ("V", make([Comp("c", t), Comp("z", PARTNER, "OPTIONAL")]))]
            m = Module("%s%s%d" % (name, tagging.capitalize(), i), needed(ALT_DEFS, assigns) + assigns, tagging)
            u = w.unit("%s-%s-%d" % (name.lower(), tagging.lower() or "explicit", i), [m])
            for n, ty in assigns:
                s = u.subject(m, n)
                seen = set()
                for v in round_trips(s):
                    e = s.encode(v)
                    for x in edits(s.env, ty, m.name, e):
                        if x not in seen:
                            s.D(x)
                        seen.add(x)
                for v in values(s.env, t, m.name):  # every value of the type in question
                    v = {"c": v, "z": b"pq"} if n != "U" else {"a": b"pq", "c": v}
                    s.B(v)
