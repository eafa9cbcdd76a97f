import os, resource, subprocess, tempfile
import gen, corpus, vf
from asn import *
from fam import *


def command_line(c):
    """the executable itself: arguments, files it cannot read, output it cannot write"""
    exe = vf.build_binary("ber_view", [vf.REPO + "/src/view/view.cpp"] + vf.LIB_SRC)
    with tempfile.TemporaryDirectory(prefix="vf-") as d:
        os.makedirs(d + "/dir")
        good, bad, empty = (os.path.join(d, x) for x in ("good", "bad", "empty"))
        for f, b in ((good, b"\x30\x03\x02\x01\x05"), (bad, b"\x30\x05\x02"), (empty, b"")):
            with open(f, "wb") as fh:
                fh.write(b)
        for what, args, out, ok in (("no argument", [], None, False), ("two files", [good, good], None, False), ("an element", [good], None, True),
                                    ("half an element", [bad], None, False), ("an empty file", [empty], None, False),
                                    ("no file", [d + "/none"], None, False), ("a directory", [d + "/dir"], None, False), ("an empty name", [""], None, False),
                                    ("output to a full device", [good], "/dev/full", False), ("closed output", [good], "closed", False)):
            def pre():
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if out == "closed":
                    os.close(1)
            fh = open(out, "wb") if out and out != "closed" else subprocess.PIPE
            try:
                p = subprocess.run([exe] + args, stdin=subprocess.DEVNULL, stdout=fh, stderr=subprocess.PIPE, env=c._env(None), timeout=60, preexec_fn=pre)
                rc, text = p.returncode, (p.stdout or b"").decode("latin1")
            except subprocess.TimeoutExpired:
                rc, text = None, ""
            c.add("executed", 1)
            c.add("transitions", 1)
            c.states.add(hash(("run", what, rc, text if ok else "")))
            if rc is None or rc < 0 or rc == 98:
                c.violation("run", "%s: the viewer %s" % (what, "does not terminate" if rc is None else "crashes (%d)" % rc), {"args": args})
            elif (rc == 0) != ok:
                c.violation("run", "%s: the viewer exits with %d" % (what, rc), {"args": args})


def printing(c):
    """every type of the corpus, and every built-in type with all the characters and numbers that are written differently"""
    w = gen.World(c)
    for s in corpus.world(w, c.thorough):
        for v in s.all_values():
            s.P(v)
    special = [bytes([x]) for x in range(256)] + [b"", b'a"b', b"a\\b", b'\\"', b"\\u0041", b"</script>", b"\xc3\xa9", b"\xff\xfe", b"a\0b", b"x" * 300, b'"' * 200]
    special += [bytes(x) for x in itertools.product(b'"\\a\n\x7f', repeat=3 if c.thorough else 2)]
    strings = [n for n in STRINGS] + ["BIT STRING"]
    defs = [("S%d" % i, Prim(n)) for i, n in enumerate(strings)]
    comps = [Comp("a", Prim("UTF8String")), Comp("b", Tag("", 1, Prim("OCTET STRING")), "OPTIONAL"),
             Comp("c", Tag("", 2, Prim("IA5String")), ('"x"', b"x")), Comp("d", Tag("", 3, Of(Prim("VisibleString"))))]
    defs += [("Mix", Seq(comps)), ("Pick", Choice([("p", Prim("UTF8String")), ("q", Prim("REAL")), ("r", Of(Prim("REAL")))])), ("Num", Prim("INTEGER")), ("Flo", Prim("REAL")),
             ("Arcs", Prim("OBJECT IDENTIFIER")), ("Time", Prim("GeneralizedTime")), ("Utc", Prim("UTCTime")), ("Nul", Prim("NULL")), ("Boo", Prim("BOOLEAN")),
             ("Col", Enum([("red", None), ("a-b", 7), ("int", 9)]))]
    u = w.unit("Print", [Module("Print", defs, "")])
    for i, n in enumerate(strings):
        s = u.subject("Print", "S%d" % i)
        for v in special:
            s.P(b"\0" + v if n == "BIT STRING" else v)
    s = u.subject("Print", "Mix")
    for v in special:
        s.P({"a": v, "d": [v, b"", v]})
        s.P({"a": b"k", "b": v, "c": v, "d": []})
    s = u.subject("Print", "Pick")
    floats = [0.0, -0.0, 1.0, -1.5, 0.1, 1e6, 1e7, 123456789.0, 1e21, 1e300, 1e-300, 5e-324, 2.0 ** 1023, 1 / 3]
    for v in special:
        s.P(("p", v))
    for v in floats:
        s.P(("q", v))
        s.P(("r", [v, v]))
    s = u.subject("Print", "Flo")
    for v in floats:
        s.P(v)
    s = u.subject("Print", "Num")
    for k in range(64):
        for v in (2**k - 1, 2**k, -2**k, -2**k - 1):
            if -2**63 <= v < 2**63:
                s.P(v)
    s = u.subject("Print", "Arcs")
    for v in ((0, 0), (1, 39), (2, 0), (2, 40, 1), (2, 5000, 2**40), (1, 2, 840, 113549, 1, 1, 11), tuple([1, 2] + [3] * 60)):
        s.P(v)
    for n in ("Time", "Utc", "Nul", "Boo", "Col"):
        s = u.subject("Print", n)
        for v in s.all_values():
            s.P(v)
    w.run(2)


def run(c):
    b = vf.harness("viewer", defs=['VIEWER_SOURCE="%s/src/view/view.cpp"' % vf.REPO])
    c.explore(b)
    command_line(c)
    printing(c)
    return c.finish(
        "model_checking",
        "a state is one distinct output with its exit status; each case gives one octet string to the viewer's main() and compares every "
        "token of the JSON document it prints with the reference tree of the same octets, or prints one value of a type and compares "
        "the document with the value",
        {"octet strings": "all of length 0..2; all of length 3..%d over 36 octets, 4..%d over 9 octets, 6..%d over 4 octets" % ((4, 7, 10) if c.thorough else (3, 5, 8)),
         "contents": "of universal tags 0..35: all of length 0..%d, all of length up to %d over 22 and %d over 7 octets, repetitions up to 65536; of OIDs, "
                     "integers, reals: all over boundary octets; times: all edits of 12 strings" % ((2, 3, 5) if c.thorough else (1, 2, 4)),
         "identifiers": "4 classes x primitive, constructed x tags around every power of two x 4 contents; lengths in 1..9 octets",
         "trees": "7 leaves, up to three children, depth up to 4; each also with unreadable descendants and trailing octets; nesting up to 300000 levels; 100000 children",
         "values": "every value of the generated types of lib/corpus.py; every string type x all single octets and %d-tuples of special ones; boundary numbers"
                   % (3 if c.thorough else 2)})
