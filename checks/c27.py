import itertools
import gen
from asn import *
from fam import *

# kind -> (does it end the recursion?, the type written with the next type of the cycle in it)
LEAF = Prim("INTEGER")


def kinds(ctx=0):
    c = lambda t: Choice([("nil", NUL), ("sub", Tag("", ctx + 1, t, "EXPLICIT"))])
    return {
        "seqopt": (True, lambda t: Seq([Comp("v", LEAF), Comp("n", Tag("", ctx, t), "OPTIONAL")])),
        "setopt": (True, lambda t: Set([Comp("v", LEAF), Comp("n", Tag("", ctx, t), "OPTIONAL")])),
        "two": (True, lambda t: Seq([Comp("l", Tag("", ctx, t), "OPTIONAL"), Comp("r", Tag("", ctx + 1, t), "OPTIONAL")])),
        "choice": (True, c),
        "seqof": (True, lambda t: Of(t)),
        "setof": (True, lambda t: Of(t, "SET")),
        "ofof": (True, lambda t: Of(Of(t, "SET"))),
        "oftag": (True, lambda t: Of(Tag("", ctx + 7, t, "EXPLICIT"))),
        "ofchoice": (True, lambda t: Of(c(t))),
        "list": (True, lambda t: Seq([Comp("v", LEAF), Comp("l", Of(t))])),
        "optlist": (True, lambda t: Set([Comp("v", LEAF), Comp("l", Tag("", 5, Of(t, "SET")), "OPTIONAL")])),
        "inchoice": (True, lambda t: Seq([Comp("c", c(t)), Comp("v", LEAF)])),
        "choicelist": (True, lambda t: Choice([("nil", NUL), ("sub", Tag("", ctx + 1, Of(t))), ("v", LEAF)])),
        "inner": (True, lambda t: Seq([Comp("o", Seq([Comp("p", Tag("", 0, t), "OPTIONAL")])), Comp("v", LEAF)])),
        "choiceseq": (True, lambda t: Choice([("nil", NUL), ("s", Seq([Comp("m", t), Comp("v", LEAF, "OPTIONAL")]))])),
        "optseq": (True, lambda t: Seq([Comp("o", Set([Comp("m", t)]), "OPTIONAL"), Comp("v", LEAF)])),
        "opttag": (True, lambda t: Set([Comp("o", Tag("", 2, Seq([Comp("i", Seq([Comp("m", t)]))])), "OPTIONAL")])),
        "deepchoice": (True, lambda t: Seq([Comp("c", Choice([("v", LEAF), ("s", Seq([Comp("d", Choice([("u", UTF8), (
            "e", Set([Comp("m", t)]))]))]))]))])),
        "mand": (False, lambda t: Seq([Comp("m", t), Comp("v", LEAF)])),
        "tag": (False, lambda t: Tag("APPLICATION", ctx + 4, t)),
        "ref": (False, lambda t: t),
    }


def trees(env, t, mod, budget, cap):
    """values of t in which at most `budget` references follow each other, leaves being a single value"""
    if isinstance(t, Raw):
        return trees(env, t.means, mod, budget, cap)
    if isinstance(t, Ref):
        if budget == 0:
            return []
        return trees(env, *env.lookup(t.name, mod), budget - 1, cap)
    if isinstance(t, Tag):
        return trees(env, t.inner, mod, budget, cap)

    def trim(l):
        return l if len(l) <= cap else l[:cap // 2] + l[-(cap - cap // 2):]
    if isinstance(t, Choice):
        out = []
        for c, ty, tm in env.comps(t, mod):
            out += [(c.name, v) for v in trees(env, ty, tm, budget, cap)]
        return trim(out)
    if isinstance(t, Of):
        vs = trees(env, t.elem, mod, budget, cap)
        return trim([[]] + [[v] for v in vs] + [[vs[0], vs[-1]] for _ in vs[:1]] + [[v, w] for v, w in zip(vs[1:], vs)])
    if isinstance(t, Seq):
        opts = []
        for c, ty, tm in env.comps(t, mod):
            vs = trees(env, ty, tm, budget, cap)
            opts.append(([(c.name, None, False)] if c.opt else []) + [(c.name, v, True) for v in vs])
        return trim([{n: v for n, v, there in x if there} for x in itertools.product(*opts)])
    if isinstance(t, Prim) and t.name == "INTEGER":
        return [300]
    return values(env, t, mod, True)[:1]


def ok_cycle(ks, table):
    return any(table[k][0] for k in ks)


def tags(env, t, mod):
    """the most tags any type written in t has (more than two are not supported)"""
    if isinstance(t, Tag):
        return max(len(env.chain(t, mod)), tags(env, t.inner, mod))
    if isinstance(t, (Seq, Choice)):
        return max([0] + [max(len(env.chain(ty, mod)), tags(env, c.type, mod)) for c, ty, _ in env.comps(t, mod)])
    return tags(env, t.elem, mod) if isinstance(t, Of) else len(env.chain(t, mod))


def run(c):
    w = gen.World(c)
    n = 0
    table = kinds()
    names = list(table)
    cycles = [(k,) for k in names] + [p for p in itertools.product(names, repeat=2)]
    few = ["seqopt", "choice", "setof", "oftag", "mand", "ref", "list"]
    cycles += list(itertools.product(few, repeat=3))
    if not c.thorough:
        cycles = [x for i, x in enumerate(cycles) if len(x) < 3 or i % 3 == 0]
    for tagging in ("", "IMPLICIT", "AUTOMATIC"):
        for ci, ks in enumerate(cycles):
            if not ok_cycle(ks, table):
                continue
            if not c.thorough and len(ks) > 1 and (ci + len(tagging)) % 3:
                continue
            if c.thorough and len(ks) == 3 and (ci + len(tagging)) % 2:
                continue
            l = len(ks)
            assigns = [("ABC"[i], kinds(i * 10)[k][1](Ref("ABC"[(i + 1) % l]))) for i, k in enumerate(ks)]
            if (ci % 2) and l > 1:
                assigns.reverse()
            if ci % 5 == 0:
                assigns.append(("R", Ref("A")))
            if ci % 5 == 1:
                assigns.insert(0, ("U", Seq([Comp("first", Ref("A")), Comp("z", Of(Ref("ABC"[l - 1])))])))
            n += 1
            m = Module("Rec%d" % n, assigns, tagging)
            try:
                env = Env([m])
                if max(tags(env, t, m.name) for _, t in assigns) > 2:
                    continue
            except RecursionError:
                continue  # no tag: not a legal type
            u = w.unit("rec-%s-%s" % (tagging.lower() or "explicit", "-".join(ks)), [m])
            for name, t in assigns:
                s = u.subject(m, name)
                vs = trees(u.env, Ref(name), m.name, 3 * l + 1 if c.thorough else 2 * l + 2, 8 if c.thorough else 6)
                assert vs, (ks, name)
                for v in vs:
                    s.B(v)
                for a, b in zip(vs, vs[1:] + vs[:1]):
                    s.C(a, b)
                    s.C(b, a)
                s.H([s.encode(v) for v in vs] + [s.encode(v) for v in reversed(vs)])
                e = max((s.encode(v) for v in vs), key=lambda e: (len(e) < 200) * len(e) - len(e) / 1e6)
                for i in range(1, len(e)):
                    s.D(e[:i])  # the decoder of every level sees a damaged message
                # far deeper values than can be written out
                deep = vs[-1]
                for _ in range(40):
                    nxt = grow(u.env, m.name, Ref(name), deep)
                    if nxt is None:
                        break
                    deep = nxt
                s.D(s.encode(deep))
    # the first alternative contains the choice
    m = Module("RecFirst", [("A", Choice([("not", Tag("", 1, Ref("A"), "EXPLICIT")), ("v", LEAF)]))], "")
    u = w.unit("rec-first-alternative", [m])
    s = u.subject(m, "A")
    for v in (("v", 1), ("not", ("v", 1)), ("not", ("not", ("v", 1)))):
        s.B(v)
    w.run(6)
    return c.finish(
        "model_checking",
        "a state is one value of one recursive type; every recursion shape in the bound is compiled, every value tree in the "
        "bound is built, encoded, decoded, copied and assigned over another one, and compared with the reference octets",
        {"shapes": "cycles of 1, 2 and 3 types x %d kinds of edge (optional, choice, lists, inline and tagged ones, mandatory, "
                   "tag, reference) x 3 tagging environments, both definition orders%s" % (
                       len(names), "" if c.thorough else ", of cycles of 2 and 3 types one third"),
         "values": "trees following up to %s references, of at most two elements per list; one with 40 more levels" % (
             "3n + 1" if c.thorough else "2n + 2"), "damage": "every truncation of the largest value below 200 octets"})


def grow(env, mod, t, v):
    """a value of t that contains v where t next contains itself"""
    want, start = env.base(t, mod), []

    def put(ty, tm, first):
        b = env.base(ty, tm)
        if not first and b[0] is want[0]:
            return v
        if b[0] in [x for x in start]:
            return None
        start.append(b[0])
        try:
            b, m = b
            if isinstance(b, Choice):
                for c, x, xm in env.comps(b, m):
                    r = put(x, xm, False)
                    if r is not None:
                        return (c.name, r)
            elif isinstance(b, Of):
                r = put(b.elem, m, False)
                return None if r is None else [r]
            elif isinstance(b, Seq):
                out, hit = {}, False
                for c, x, xm in env.comps(b, m):
                    r = None if hit else put(x, xm, False)
                    if r is not None:
                        out[c.name], hit = r, True
                    elif c.opt is None:
                        vs = trees(env, x, xm, 6, 2)
                        if not vs:
                            return None
                        out[c.name] = vs[0]
                return out if hit else None
            return None
        finally:
            start.pop()
    return put(t, mod, True)
