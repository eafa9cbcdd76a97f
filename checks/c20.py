import itertools, os, re, subprocess, tempfile, zlib
import cserver, vf
from asn import *
from fam import *

# ------------------------------------------------------------------------------------------------ edits of schemas
BASES = [
    """Kinds DEFINITIONS AUTOMATIC TAGS ::= BEGIN
EXPORTS ALL;
A ::= SEQUENCE { a INTEGER { one(1), two(2) } DEFAULT two, b B OPTIONAL, c SEQUENCE OF C, ... }
B ::= CHOICE { x UTF8String (SIZE(1..10)), y A, z ENUMERATED { p, q(5), ..., r } }
C ::= SET (SIZE(1..4)) OF B
D ::= SET { u NULL, s OCTET STRING DEFAULT '0F'H, t BIT STRING { f(0), g(1) } DEFAULT '01'B }
E ::= ENUMERATED { a(0), b(-1), c(k) }
k INTEGER ::= 7 /* multi
line */
F ::= SEQUENCE { COMPONENTS OF A, v VisibleString, w BOOLEAN DEFAULT TRUE, e E DEFAULT b }
END
""", """Tagged DEFINITIONS IMPLICIT TAGS ::= BEGIN
A ::= [APPLICATION 3] IMPLICIT SEQUENCE { a [0] INTEGER (0..255 | 300), b [1] EXPLICIT REAL OPTIONAL, c [k] B }
B ::= [PRIVATE 77] SET OF C -- a comment -- 
C ::= CHOICE { o [0] OBJECT IDENTIFIER, n [1] NULL, ..., l [2] SEQUENCE OF [5] A }
k INTEGER ::= 2
D ::= SEQUENCE { t GeneralizedTime, u UTCTime OPTIONAL, d DATE, s IA5String DEFAULT "ab" }
END
""", """Lib DEFINITIONS ::= BEGIN
X ::= [APPLICATION 3] IMPLICIT BOOLEAN
v INTEGER ::= 5
Pair{A, B} ::= SEQUENCE { a [0] A, b [1] B OPTIONAL }
KIND ::= CLASS { &id INTEGER UNIQUE, &Type } WITH SYNTAX { &Type ID &id }
H ::= ENUMERATED { red, green }
END
User DEFINITIONS EXPLICIT TAGS EXTENSIBILITY IMPLIED ::= BEGIN
IMPORTS X, v, H FROM Lib Pair, KIND FROM Lib;
A ::= SEQUENCE { x X DEFAULT TRUE, i INTEGER DEFAULT v, h H DEFAULT green }
B ::= Pair{A, SEQUENCE OF INTEGER}
C ::= SEQUENCE { id KIND.&id, b B, c Lib.X, d Pair{B, NULL} }
END
""", """Values DEFINITIONS ::= BEGIN
i INTEGER ::= -12
j INTEGER ::= i
b BOOLEAN ::= TRUE
s UTF8String ::= "text"
o OBJECT IDENTIFIER ::= { iso(1) standard(0) 8571 }
h OCTET STRING ::= 'AB'H
e E ::= two
E ::= ENUMERATED { one, two }
r REAL ::= 1.5
F ::= SEQUENCE { a INTEGER { x(1) } (x..MAX), b OCTET STRING (SIZE(1..i)), c UTF8String (FROM("a".."z")), ... }
G ::= INTEGER (1 | 3 | 5..7)
END
""",
]
TOKEN = re.compile(r'--.*?(?:--|(?=\n)|$)|/\*.*?\*/|"[^"]*"|\'[^\']*\'[BH]|::=|\.\.\.|\.\.|&?[A-Za-z][A-Za-z0-9]*(?:-[A-Za-z0-9]+)*|-?\d+(?:\.\d+)?|[{}()\[\],;:|.]', re.S)
INSERT = ["{", "}", "(", ")", "[", "]", ",", ";", "::=", ":", "...", "..", ".", "|", "-", "A", "nothing", "Nothing", "0", "-1", "99999999999999999999",
          "1.5", "\"x\"", "'01'B", "'0F'H", "'", "\"", "--", "/*", "END", "BEGIN", "OF", "SEQUENCE", "SET", "CHOICE", "INTEGER", "ENUMERATED", "CLASS",
          "OPTIONAL", "DEFAULT", "COMPONENTS", "NULL", "IMPORTS", "FROM", "&id", "[[", "]]", "@", "!", "<", "^", "ANY", "SIZE", "\xe9", "#"]


def lex(text):
    out, at = [], 0
    for m in TOKEN.finditer(text):
        assert not text[at:m.start()].strip(), text[at:m.start()]
        if not m.group().startswith(("--", "/*")):
            out.append((m.start(), m.end(), m.group()))
        at = m.end()
    return out


def balanced(tokens):
    stack = []
    for t in tokens:
        if t in "([{" and len(t) == 1:
            stack.append(t)
        elif t in ")]}" and len(t) == 1:
            if not stack or stack.pop() + t not in ("()", "[]", "{}"):
                return False
    return not stack


def edits(text, deep):
    """(what, text, must be refused) for single edits of the text"""
    toks = lex(text)
    words_ = [t[2] for t in toks]
    last = toks[-1][0]
    for n in range(len(text)):
        whole = [t[2] for t in toks if t[1] <= n][-1:] == ["END"] and not text[max(t[1] for t in toks if t[1] <= n):n].strip()
        yield "first %d octets" % n, text[:n], n < last + 3 and not whole
    names = {words_[i] for i in range(len(words_)) if i + 1 < len(words_) and words_[i + 1] == "::="}
    for i, (a, b, t) in enumerate(toks):
        rest = words_[:i] + words_[i + 1:]
        yield "without token %d" % i, text[:a] + " " + text[b:], not balanced(rest)
        yield "token %d twice" % i, text[:b] + " " + text[a:], not balanced(words_[:i] + [t] + words_[i:])
        if i + 1 < len(toks):
            c, d, u = toks[i + 1]
            yield "tokens %d and %d swapped" % (i, i + 1), text[:a] + u + " " + t + text[d:], not balanced(words_[:i] + [u, t] + words_[i + 2:])
        use = t in names and words_[i + 1:i + 2] != ["::="]
        for k, r in enumerate(INSERT):
            if r == t or (not deep and (k + i) % 2):
                continue
            safe = r not in ("--", "/*", "'", "\"", "[[", "]]")
            bad = safe and not balanced(words_[:i] + [r] + words_[i + 1:])
            if use and (t[0].isupper(), r) in ((True, "Nothing"), (False, "nothing")):
                bad = True
            yield "%s for token %d" % (r, i), text[:a] + " " + r + " " + text[b:], bad
            if deep:
                yield "%s before token %d" % (r, i), text[:a] + " " + r + " " + text[a:], safe and not balanced(words_[:i] + [r] + words_[i:])
    for i, (a, b, t) in enumerate(toks):  # every use of a name without a definition
        use = t in names and words_[i + 1:i + 2] != ["::="]
        if use:
            yield "undefined name for token %d" % i, text[:a] + ("Nowhere" if t[0].isupper() else "nowhere") + text[b:], True
    if deep:
        for i in range(len(text)):
            for ch in "\0\n\r-'\"{}[(/*&.\xff":
                yield "octet %d: %r" % (i, ch), text[:i] + ch + text[i + 1:], None


# ------------------------------------------------------------------------------------------------ legality of tags
ALPHABET = [INT, BOOL, Enum([("p", None)]), Tag("", 0, INT, "IMPLICIT"), Tag("", 0, BOOL, "EXPLICIT"), Tag("APPLICATION", 0, INT, "IMPLICIT"),
            Ref("Num"), Ref("Zero"), Ref("Alt"), Ref("Tags"), Tag("", 1, Ref("Alt"), "EXPLICIT"), Seq([]), Of(INT), Seq([], "SET"), Prim("IA5String"),
            Choice([("u", INT), ("v", Tag("", 0, NUL, "IMPLICIT"))]), Tag("UNIVERSAL", 2, OCT, "IMPLICIT"), Tag("PRIVATE", 2, INT, "IMPLICIT"), Ref("Lst")]
NAMED = [("Num", INT), ("Zero", Tag("", 0, UTF8, "IMPLICIT")), ("Alt", Choice([("i", INT), ("b", BOOL)])),
         ("Tags", Choice([("z", Tag("", 0, INT, "IMPLICIT")), ("o", Tag("", 1, Ref("Deep"), "EXPLICIT"))])), ("Deep", Choice([("x", INT), ("y", NUL)])),
         ("Lst", Of(Ref("Num"), "SET"))]


def legality(thorough):
    """(name, schema, accepted?) for collections of two and three components; accepted is None where the rules of X.680 and those
    the compiler implements on purpose differ (three and more components, the first of which may be mistaken for the third)"""
    env = Env([Module("L", NAMED)])
    n = 0
    for tagging in ("", "AUTOMATIC") if not thorough else ("", "IMPLICIT", "AUTOMATIC"):
        for size in (2, 3):
            combos = list(itertools.product(range(len(ALPHABET)), repeat=size))
            for ci, combo in enumerate(combos):
                if size == 3 and not thorough and (ci % 11 or tagging):
                    continue
                comps = [ALPHABET[i] for i in combo]
                for shape in range(8 if thorough or size == 2 else 3):
                    if shape == 0:
                        t = Choice([("c%d" % i, x) for i, x in enumerate(comps)])
                    elif shape == 1:
                        t = Seq([Comp("c%d" % i, x, "OPTIONAL" if i % 2 else None) for i, x in enumerate(comps)], "SET")
                    elif shape == 2:
                        t = Seq([Comp("c%d" % i, x, "OPTIONAL" if i == 0 else None) for i, x in enumerate(comps)])
                    elif shape == 3:
                        t = Seq([Comp("c%d" % i, x, "OPTIONAL") for i, x in enumerate(comps)])
                    elif shape == 4:
                        t = Seq([Comp("c%d" % i, x) for i, x in enumerate(comps)])
                    elif shape == 5:
                        t = Choice([("c%d" % i, x) for i, x in enumerate(comps)], ext=1)
                    elif shape == 6:
                        t = Seq([Comp("c%d" % i, x) for i, x in enumerate(comps)], "SET", ext=(1, size))
                    else:  # not at the top
                        t = Seq([Comp("x", Of(Choice([("c%d" % i, x) for i, x in enumerate(comps)])))])
                    m = Module("L", NAMED + [("T", t)], tagging)
                    e = Env([m])
                    ok = supported(e, Ref("T"), "L")
                    if size == 3 and isinstance(t, Seq) and t.kind == "SEQUENCE" and shape != 7 and not ok:
                        ok = None if adjacent(e, t) else False
                    if shape == 7:
                        ok = supported(e, Ref("T"), "L")
                    n += 1
                    yield "legal %s %s" % (tagging or "EXPLICIT", show(t)), m.text(), ok


def adjacent(env, t):
    """no component that may be absent is directly followed by one that may be mistaken for it"""
    comps = env.comps(t, "L")
    for (c, ty, m), (d, ty2, m2) in zip(comps, comps[1:]):
        if c.opt is not None and set(env.outer(ty, m)) & set(env.outer(ty2, m2)):
            return False
    return True


# ------------------------------------------------------------------------------------------------ circular definitions
def bodies(names):
    yield "INTEGER", []
    for x in names:
        yield x, [("alias", x)]
        yield "[1] %s" % x, [("tag", x)]
        yield "SEQUENCE { a %s }" % x, [("must", x)]
        yield "SET { a [0] %s, b NULL }" % x, [("must", x)]
        yield "SEQUENCE { a %s OPTIONAL }" % x, [("may", x)]
        yield "SEQUENCE OF %s" % x, [("may", x)]
        yield "CHOICE { n REAL, a %s }" % x, [("alt", x)]
        yield "CHOICE { n REAL, a [0] EXPLICIT %s }" % x, [("may", x)]
        yield "SEQUENCE { COMPONENTS OF %s, z NULL }" % x, [("comps", x)]


def reaches(edges, kinds):
    """a cycle made of edges of these kinds only"""
    g = {n: [x for k, x in es if k in kinds] for n, es in edges.items()}
    for n in g:
        seen, todo = set(), list(g[n])
        while todo:
            x = todo.pop()
            if x == n:
                return True
            if x not in seen:
                seen.add(x)
                todo += g[x]
    return False


def circular(thorough):
    names = ["A", "B", "C"]
    for size in (1, 2, 3):
        options = list(bodies(names[:size]))
        for ci, combo in enumerate(itertools.product(options, repeat=size)):
            if size == 3 and (ci % 7 if thorough else ci % 41):
                continue
            edges = {n: es for n, (_, es) in zip(names, combo)}
            cyclic = reaches(edges, {"alias", "tag", "must", "comps"}) or reaches(edges, {"alias", "alt"})
            text = "\n".join("%s ::= %s" % (n, b) for n, (b, _) in zip(names, combo))
            for tagging in ("IMPLICIT",) if size == 3 else ("IMPLICIT", "AUTOMATIC"):
                auto = tagging == "AUTOMATIC"
                if auto:
                    cyclic = reaches(edges, {"alias", "tag", "must", "comps"})
                yield "circular %s %s" % (tagging, text.replace("\n", "; ")), "Cir DEFINITIONS %s TAGS ::= BEGIN\n%s\nEND\n" % (tagging, text), False if cyclic else None if not auto else legal_cycle(combo)


def legal_cycle(combo):
    """accepted for sure: automatic tags keep alternatives and components apart"""
    return True if not any("[0]" in b or "COMPONENTS" in b or b.startswith("[1]") for b, _ in combo) else None


REFUSED = {
    "undefined-type": "A ::= Nowhere", "undefined-component": "A ::= SEQUENCE { a Nowhere }", "undefined-set": "A ::= SET { a Nowhere OPTIONAL }",
    "undefined-alternative": "A ::= CHOICE { a Nowhere, b NULL }", "undefined-element": "A ::= SEQUENCE OF Nowhere", "undefined-set-of": "A ::= SET OF Nowhere",
    "undefined-tagged": "A ::= [1] Nowhere", "undefined-deep": "A ::= SEQUENCE { a SEQUENCE OF CHOICE { b SET OF [3] Nowhere, c NULL } }",
    "undefined-module": "A ::= Elsewhere.X", "undefined-value": "a INTEGER ::= nowhere", "undefined-default": "A ::= SEQUENCE { a INTEGER DEFAULT nowhere }",
    "undefined-enumerator": "A ::= SEQUENCE { a ENUMERATED { p, q } DEFAULT r }", "undefined-tag-number": "A ::= [nowhere] INTEGER",
    "undefined-number": "A ::= ENUMERATED { p(nowhere) }", "undefined-value-type": "a Nowhere ::= 5", "undefined-components-of": "A ::= SEQUENCE { COMPONENTS OF Nowhere }",
    "undefined-class": "A ::= SEQUENCE { a NOWHERE.&id }", "undefined-template": "A ::= Nowhere{INTEGER}",
    "duplicate-type": "A ::= INTEGER\nA ::= BOOLEAN", "duplicate-value": "a INTEGER ::= 1\na INTEGER ::= 2",
    "duplicate-component": "A ::= SEQUENCE { a INTEGER, a BOOLEAN }", "duplicate-alternative": "A ::= CHOICE { a INTEGER, a BOOLEAN }",
    "duplicate-set-component": "A ::= SET { a INTEGER, a BOOLEAN }", "duplicate-enumerator": "A ::= ENUMERATED { p, q, p }",
    "duplicate-enum-number": "A ::= ENUMERATED { p(1), q(1) }", "duplicate-imported": "IMPORTS B FROM N;\nB ::= INTEGER\n",
    "value-cycle": "a INTEGER ::= b\nb INTEGER ::= a", "value-itself": "a INTEGER ::= a",
    "default-cycle": "A ::= SEQUENCE { a INTEGER DEFAULT b }\nb INTEGER ::= c\nc INTEGER ::= b", "tag-cycle": "A ::= [a] INTEGER\na INTEGER ::= a",
    "huge-tag": "A ::= [99999999999999999999999999] INTEGER", "huge-value": "a INTEGER ::= 99999999999999999999999999", "negative-tag": "A ::= [-1] INTEGER",
    "missing-import": "IMPORTS B FROM N;\nA ::= B", "missing-import-module": "IMPORTS B FROM Elsewhere;\nA ::= B",
}


def special():
    end = "S DEFINITIONS ::= BEGIN\n%s\nEND\n"
    yield "empty file", "", None
    yield "only a comment", "-- nothing", None
    yield "blanks", " " * 200000 + end % "A ::= INTEGER", True
    yield "comments", "-- x --" * 50000 + end % "A ::= INTEGER", True
    yield "lines", "\n" * 200000 + end % "A ::= INTEGER", True
    yield "crlf", (end % "A ::= SEQUENCE {\n a INTEGER -- c\n}").replace("\n", "\r\n"), True
    yield "unterminated comment", end % "A ::= INTEGER /* ", False
    yield "unterminated string", end % "a UTF8String ::= \"x", False
    yield "no end", "S DEFINITIONS ::= BEGIN A ::= INTEGER", False
    yield "many stray symbols", end % ("A ::= " + "#" * 100000 + " INTEGER"), None
    yield "long name", end % ("A%s ::= INTEGER" % ("a" * 100000)), None
    yield "long string", end % ("a UTF8String ::= \"%s\"" % ("x" * 200000)), None
    yield "many components", end % ("A ::= SEQUENCE { %s }" % ", ".join("c%d [%d] INTEGER" % (i, i) for i in range(700))), True
    yield "many definitions", end % "\n".join("A%d ::= SEQUENCE { a INTEGER, b A%d OPTIONAL }" % (i, i // 2) for i in range(400)), True
    yield "long chain of names", end % "\n".join("A%d ::= %s" % (i, "A%d" % (i + 1) if i < 150 else "INTEGER") for i in range(151)), True
    for depth in (20, 100, 1000, 20000, 300000):
        want = True if depth == 20 else None
        yield "lists in lists %d" % depth, end % ("A ::= " + "SEQUENCE OF " * depth + "INTEGER"), want
        yield "structures in structures %d" % depth, end % ("A ::= " + "SEQUENCE { a " * depth + "INTEGER" + " }" * depth), want
        yield "choices in choices %d" % depth, end % ("A ::= " + "CHOICE { b [0] BOOLEAN, a [1] " * depth + "INTEGER" + " }" * depth), want
        yield "tags on tags %d" % depth, end % ("A ::= " + "[1] " * depth + "INTEGER"), None
        yield "parentheses %d" % depth, end % ("A ::= INTEGER " + "(" * depth + "1" + ")" * depth), None
        yield "constraints %d" % depth, end % ("A ::= INTEGER " + "(1..5)" * min(depth, 20000)), None
        yield "unions %d" % depth, end % ("A ::= INTEGER (1" + " | 1" * depth + ")"), None
        yield "templates in templates %d" % depth, end % ("T{X} ::= SEQUENCE { x X }\nA ::= " + "T{" * depth + "INTEGER" + "}" * depth), want
        yield "values in values %d" % depth, end % ("A ::= SEQUENCE { a INTEGER DEFAULT " + "{" * depth + "}" * depth + "}"), None
        yield "open brackets %d" % depth, end % ("A ::= " + "{" * depth), False
        yield "open structures %d" % depth, end % ("A ::= " + "SEQUENCE { a " * depth), False


# ------------------------------------------------------------------------------------------------ where output goes
def outputs(c):
    """outside the compiler's control: inputs that can not be read, outputs that can not be written"""
    exe = vf.compiler()
    good = "O DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER, b SEQUENCE OF A OPTIONAL } END\n"

    def run(what, args, d, ok, setup=None):
        p = subprocess.run([exe] + args, cwd=d, capture_output=True, timeout=60, env=vf._env(), stdin=subprocess.DEVNULL)
        c.add("executed", 1)
        c.add("transitions", 1)
        c.states.add(zlib.crc32(what.encode()))
        replay = {"args": args, "what": what}
        if p.returncode < 0:
            c.violation("output", "%s: signal %d" % (what, -p.returncode), replay)
        elif (p.returncode == 0) != ok:
            c.violation("output", "%s: exit status %d" % (what, p.returncode), replay)
        elif not ok and not p.stderr:
            c.violation("output", "%s: failure without a diagnostic" % what, replay)
        if ok and p.returncode == 0:
            for x in (".hpp", ".fwd.hpp", ".detail.hpp"):
                if not os.path.getsize(os.path.join(d, "out" + x)):
                    c.violation("output", "%s: empty out%s" % (what, x), replay)

    for what in ("good", "no arguments", "one argument", "missing input", "input is a directory", "second input is missing", "missing directory",
                 "output is a directory", "full .hpp", "full .fwd.hpp", "full .detail.hpp"):
        with tempfile.TemporaryDirectory(prefix="vfo-") as d:
            with open(d + "/in.asn", "w") as f:
                f.write(good)
            os.mkdir(d + "/dir")
            args = ["in.asn", "out"]
            if what == "no arguments":
                args = []
            elif what == "one argument":
                args = ["in.asn"]
            elif what == "missing input":
                args = ["nothing.asn", "out"]
            elif what == "input is a directory":
                args = ["dir", "out"]
            elif what == "second input is missing":
                args = ["in.asn", "nothing.asn", "out"]
            elif what == "missing directory":
                args = ["in.asn", "nowhere/out"]
            elif what == "output is a directory":
                os.mkdir(d + "/out.hpp")
            elif what.startswith("full"):
                os.symlink("/dev/full", d + "/out" + what[5:])
            run(what, args, d, what == "good")


def run(c):
    exe = cserver.build()
    n = {}

    def cases():
        for i, b in enumerate(BASES):
            yield ("base", i, "", True), [b.encode()]
            for what, text, bad in edits(b, c.thorough):
                yield ("edit", "schema %d, %s" % (i, what), "", False if bad else None), [text.encode("latin-1")]
            if c.thorough:
                toks = lex(b)
                for x, y in itertools.combinations(range(len(toks)), 2):
                    if y - x > 12 and (x + y) % 17:
                        continue
                    text = b[:toks[x][0]] + " " + b[toks[x][1]:toks[y][0]] + " " + b[toks[y][1]:]
                    rest = [t[2] for k, t in enumerate(toks) if k not in (x, y)]
                    yield ("edit", "schema %d, without tokens %d and %d" % (i, x, y), "", None if balanced(rest) else False), [text.encode("latin-1")]
        for name, text, ok in legality(c.thorough):
            yield ("legality", name, "", ok), [text.encode()]
        for name, text, ok in circular(c.thorough):
            yield ("circular", name, "", ok), [text.encode()]
        for name, text in REFUSED.items():
            for k, tagging in enumerate(("", "IMPLICIT TAGS ", "AUTOMATIC TAGS ")):
                for before, after in (("", ""), ("Zz ::= SEQUENCE { a INTEGER }\n", "Yy ::= BOOLEAN\n")):
                    if text.startswith("IMPORTS"):
                        before = ""
                    whole = "N DEFINITIONS ::= BEGIN\nQ ::= INTEGER\n%sEND\nM DEFINITIONS %s::= BEGIN\n%s%s\n%sEND\n" % (
                        "B ::= NULL\n" if name == "duplicate-imported" else "", tagging, before, text, after)
                    yield ("refused", "%s %d%d" % (name, k, bool(before)), "", False), [whole.encode()]
        yield ("refused", "module given twice", "", False), [(BASES[0] + BASES[0]).encode()]
        yield ("refused", "module in two files", "", False), [BASES[0].encode(), BASES[0].encode()]
        yield ("two files", "apart", "", True), [BASES[0].encode(), BASES[2].encode()]
        yield ("two files", "imports split", "", True), [b"\n".join(BASES[2].encode().split(b"User")[:1]), b"User" + b"User".join(BASES[2].encode().split(b"User")[1:])]
        yield ("two files", "imports split, user first", "", True), [b"User" + b"User".join(BASES[2].encode().split(b"User")[1:]), BASES[2].encode().split(b"User")[0]]
        for name, text, ok in special():
            yield ("special", name, "", ok), [text.encode()]

    def verdict(tag, texts, r):
        family, name, _, want = tag
        c.add("executed", 1)
        c.add("transitions", 1)
        n[family] = n.get(family, 0) + 1
        c.states.add(hash((family, name)) & 0xffffffffffffff)
        replay = {"files": [t.decode("latin-1")[:20000] for t in texts]}
        d = r.defect()
        if d:
            c.violation("defect", "%s: %s: %s" % (family, name, d), replay)
        elif want is True and not r.accepted:
            c.violation("refused", "%s: %s is refused: %s" % (family, name, r.err.strip()[-160:]), replay)
        elif want is False and r.accepted:
            c.violation("accepted", "%s: %s is accepted" % (family, name), replay)

    cserver.run_all(exe, cases(), verdict)
    outputs(c)
    return c.finish(
        "model_checking",
        "a state is one input (or arrangement of inputs and outputs) of the compiler, explored by running the compiler, built with sanitizers, on "
        "it to the end: it must end by itself, within 10 s of processor time, without a report, having written its output or having written a "
        "diagnostic and failed; inputs which end before their last END, have unmatched brackets, undefined names, clashing tags or endless "
        "definitions must fail and legal ones must not",
        {"edits": "every prefix; every deletion, repetition and swap of tokens, and %s of %d tokens for every token of %d schemas%s" % (
            "every replacement and insertion" if c.thorough else "every second replacement", len(INSERT), len(BASES),
            "; 14 octets at every position; pairs of deletions" if c.thorough else ""),
         "legality": "CHOICE, SET and SEQUENCE of 2%s components from %d types, 8 shapes" % (" and 3" if c.thorough else " (a ninth of those of 3)", len(ALPHABET)),
         "circular": "all graphs of 1 and 2%s definitions over 10 kinds of definition" % ", a share of those of 3,",
         "cases": dict(n)})
