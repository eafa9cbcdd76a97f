import concurrent.futures as cf, hashlib, itertools, os, re, resource, shutil, subprocess, tempfile
import corpus, vf
from asn import *
from fam import *
import checks.c20 as c20

OUT = ("out.hpp", "out.fwd.hpp", "out.detail.hpp")


def graphs():
    """modules with many definitions, between which many orders are possible"""
    for k, (n, step, cyclic) in enumerate([(12, 5, False), (40, 7, False), (40, 11, True), (90, 17, True)]):
        defs = []
        for i in range(n):
            uses = sorted({(i * step + j) % n for j in (1, 3, 8)}) if cyclic else sorted({x for x in ((i * step) % n, i // 2, i - 3) if 0 <= x < i})
            kind = i % 4
            comps = [(["a", "b", "c"][j], Ref("D%d" % u)) for j, u in enumerate(uses)]
            if kind == 0:
                t = Seq([Comp(x, y, "OPTIONAL") for x, y in comps] + [Comp("z", INT)])
            elif kind == 1:
                t = Choice([("n", NUL)] + comps)
            elif kind == 2 and comps:
                t = Of(comps[0][1])
            else:
                t = Set([Comp(x, Of(y)) for x, y in comps] + [Comp("e", Enum([("p", None), ("q", None)])), Comp("s", Seq([Comp("i", Seq([Comp("j", INT)]))]))])
            defs.append(("D%d" % i, t))
        yield Module("Graph%d" % k, defs if k % 2 else defs[::-1], "AUTOMATIC")


def schemas(thorough):
    """(name, files)"""
    for g in graphs():
        yield g.name, [g.text()]
    for i, b in enumerate(c20.BASES):
        yield "base%d" % i, [b]
    ms = list(corpus.prim_modules(True)) + list(corpus.struct_modules(thorough))
    for m in ms[::1 if thorough else 5]:
        yield m.name, [m.text()]
    yield "all", ["".join(m.text() for m in ms)]
    yield "files", [m.text() for m in ms[:6]]
    # imports in both directions of the order of files
    lib, user = c20.BASES[2].split("User DEFINITIONS")
    yield "imports", ["User DEFINITIONS" + user, lib]
    # the tags of alternatives, defaults, classes: everything kept in tables by name
    many = ", ".join("c%d [%d] INTEGER { n%d(%d) } DEFAULT n%d" % (i, i, i, i, i) for i in range(60))
    yield "wide", ["Wide DEFINITIONS ::= BEGIN\nA ::= SEQUENCE { %s }\nB ::= SET { %s }\nC ::= CHOICE { %s }\nE ::= ENUMERATED { %s }\nEND\n" % (
        many, many, ", ".join("c%d [%d] A" % (i, i) for i in range(60)), ", ".join("e%d" % i for i in range(60)))]
    yield "modules", ["".join("M%d DEFINITIONS ::= BEGIN\n%sA ::= SEQUENCE { a INTEGER, %s }\nEND\n" % (
        i, "IMPORTS %s;\n" % " ".join("A FROM M%d" % j for j in (i - 2,)) if i > 1 else "", "b [0] M%d.A" % (i - 1) if i else "b [0] NULL") for i in range(24)) .replace("IMPORTS A FROM", "IMPORTS B FROM") if False else
        "".join("M%d DEFINITIONS ::= BEGIN\nA%d ::= SEQUENCE { a INTEGER, b [0] %s }\nEND\n" % (i, i, "M%d.A%d" % ((i * 5) % i, (i * 5) % i) if i else "NULL") for i in range(24))]


def configurations(thorough):
    """(name, environment, stack limit in octets, what else)"""
    for i in range(40 if thorough else 12):
        yield "layout %d" % i, {"VF_HEAP": str(i * 37)}, (8 << 20) + i * (1 << 20) + i * 69632, ""
    for i in range(8 if thorough else 3):
        yield "run %d" % i, {}, 0, ""
    for name, env in {"turkish": {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8", "LANGUAGE": "tr"}, "german": {"LC_ALL": "de_DE.UTF-8"}, "tokyo": {"TZ": "Asia/Tokyo"},
                      "home": {"HOME": "/nowhere", "USER": "nobody", "PWD": "/nowhere"}, "large environment": {"X%d" % i: "x" * 1000 for i in range(60)},
                      "freed memory": {"MALLOC_PERTURB_": "85"}, "freed memory 2": {"MALLOC_PERTURB_": "170", "MALLOC_ARENA_MAX": "1"}}.items():
        yield name, env, 0, ""
    for what in ("old output", "other directory", "no standard streams", "umask", "slow clock"):
        yield what, {}, 0, what
    yield "other stack content", {}, 0, "zero"


class Compiler:
    def __init__(self):
        # variables without a value have an arbitrary one: two builds in which it differs
        self.exes = {x: vf.compiler(["-O0", "-w", "-ftrivial-auto-var-init=" + x] +
                                    (["-enable-trivial-auto-var-init-zero-knowing-it-will-be-removed-from-clang"] if False else []),
                                    "fbcd-" + x, [vf.VERIF + "/harness/layout.cpp"]) for x in ("pattern", "zero")}

    def run(self, files, env=None, stack=0, what="", names=None):
        d = tempfile.mkdtemp(prefix="vfd-")
        try:
            cwd = d
            if what == "other directory":
                cwd = os.path.join(d, "a directory", "of another name")
                os.makedirs(cwd)
            names = names or ["in%d.asn" % i for i in range(len(files))]
            for n, t in zip(names, files):
                with open(os.path.join(cwd, n), "w") as f:
                    f.write(t)
            if what == "old output":
                for o in OUT:
                    with open(os.path.join(cwd, o), "w") as f:
                        f.write("// old\n" * 200000)
            e = {k: v for k, v in vf._env().items()}
            e.update(env or {})

            def pre():
                if stack:
                    resource.setrlimit(resource.RLIMIT_STACK, (stack, resource.getrlimit(resource.RLIMIT_STACK)[1]))
                if what == "umask":
                    os.umask(0o077)
                if what == "no standard streams":
                    os.close(0)

            p = subprocess.run([self.exes["zero" if what == "zero" else "pattern"]] + names + ["out"], cwd=cwd, env=e, timeout=120,
                               stdin=None if what == "no standard streams" else subprocess.DEVNULL, capture_output=True, preexec_fn=pre)
            out = []
            for o in OUT:
                path = os.path.join(cwd, o)
                with open(path, "rb") as f:
                    out.append(f.read())
            return p.returncode, out, p.stderr.decode("utf-8", "replace")
        except FileNotFoundError:
            return p.returncode, None, p.stderr.decode("utf-8", "replace")
        finally:
            shutil.rmtree(d, ignore_errors=True)


def blocks(out, module):
    """what the outputs define in the namespace of the module"""
    res = []
    for text in out:
        t = text.decode()
        for m in re.finditer(r"namespace\s+(?:\w+::)*%s\s*\{" % re.escape(cpp(module)), t):
            depth, i = 1, m.end()
            while depth and i < len(t):
                depth += {"{": 1, "}": -1}.get(t[i], 0)
                i += 1
            res.append(t[m.end():i])
    return res


def difference(a, b):
    for x, y in zip(a, b):
        for n, (p, q) in enumerate(itertools.zip_longest(x.splitlines(), y.splitlines())):
            if p != q:
                return "line %d of one output: %r instead of %r" % (n + 1, q, p)
    return "%d and %d outputs" % (len(a), len(b))


def run(c):
    comp = Compiler()
    pool = cf.ThreadPoolExecutor(vf.JOBS)
    todo = list(schemas(c.thorough))
    configs = list(configurations(c.thorough))
    base = dict(zip([n for n, _ in todo], pool.map(lambda x: comp.run(x[1]), todo)))
    jobs = []
    for name, files in todo:
        rc, out, err = base[name]
        if rc != 0 or out is None:
            c.violation("refused", "%s is refused: %s" % (name, err[-200:]), {"files": files})
            continue
        for cfg in configs:
            jobs.append((name, files, cfg))

    def one(j):
        name, files, (what, env, stack, else_) = j
        return comp.run(files, env, stack, else_)

    def note(*key):
        c.add("executed", 1)
        c.add("transitions", 1)
        c.states.add(int(vf._sha(*key)[:12], 16))

    for (name, files, cfg), (rc, out, err) in zip(jobs, pool.map(one, jobs)):
        note(name, cfg[0])
        if rc != 0 or out is None:
            c.violation("status", "%s, %s: exit status %s: %s" % (name, cfg[0], rc, err[-200:]), {"files": files, "configuration": cfg})
        elif out != base[name][1]:
            c.violation("output", "%s: other output with %s" % (name, re.sub(r"\d+$", "n", cfg[0])),
                        {"files": files, "configuration": cfg, "difference": difference([o.decode() for o in base[name][1]], [o.decode() for o in out])})

    # ---- companions
    ms = list(graphs())[:3] + list(corpus.struct_modules(True)) + [Module("Nums", [("A", INT), ("B", Enum([("p", None)])), "k INTEGER ::= 5"], "")]
    lib, user = c20.BASES[2].split("User DEFINITIONS")
    alone = {m.name: [m.text()] for m in ms}
    alone["Lib"] = [lib]
    alone["Kinds"] = [c20.BASES[0]]
    alone["Tagged"] = [c20.BASES[1]]
    names = list(alone)
    single = dict(zip(names, pool.map(lambda n: comp.run(alone[n]), names)))
    pairs = []
    for i, n in enumerate(names):
        others = [names[(i + k) % len(names)] for k in (range(1, len(names)) if c.thorough else (1, 4))]
        for o in others:
            pairs += [((n, o), [alone[n][0], alone[o][0]]), ((o, n), [alone[o][0], alone[n][0]]), ((n, o), [alone[n][0] + alone[o][0]]), ((o, n), [alone[o][0] + alone[n][0]])]
    pairs += [(("User", "Lib"), ["User DEFINITIONS" + user, lib]), (("Lib", "User"), [lib + "User DEFINITIONS" + user])]
    pairs += [(tuple(names), [alone[n][0] for n in names]), (tuple(names[::-1]), [alone[n][0] for n in names[::-1]])]
    for (who, files), (rc, out, err) in zip(pairs, pool.map(lambda x: comp.run(x[1]), pairs)):
        note("pair", *[hashlib.sha256(f.encode()).hexdigest() for f in files])
        if rc != 0 or out is None:
            c.violation("refused", "%s together: refused: %s" % (", ".join(who[:3]), err[-200:]), {"files": files})
            continue
        for n in who:
            if n not in single:
                continue
            a, b = blocks(single[n][1], n), blocks(out, n)
            if not a or not any(x.strip(" }\n") for x in a):
                raise RuntimeError("no definitions found for module " + n)
            if a != b:
                c.violation("companion", "%s: other definitions when given with %s" % (n, ", ".join(x for x in who if x != n)[:60]),
                            {"files": files, "difference": difference(a, b)})
    pool.shutdown()
    return c.finish(
        "model_checking",
        "a state is one schema compiled in one configuration of the process (address space layout, content of uninitialised variables and freed "
        "memory, environment, directory, streams, earlier output), or together with other modules; the whole output must be the same as in every "
        "other configuration, and the definitions of a module the same as without the others",
        {"schemas": len(todo), "configurations": [x[0] for x in configs], "companions": len(pairs)})
