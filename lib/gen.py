"""Compiles ASN.1 schemas with /repo's compiler, builds the generated code together with value builders, and executes
cases on it. Everything a schema should do comes from the reference in asn.py."""
import concurrent.futures as cf, hashlib, os, re, shutil, subprocess, sys
import asn, vf

FLAGS = ["-O0", "-g0", "-w"] + vf.SAN
TIMEOUT = 60


def hx(b):
    return b.hex() or "-"


class Subject:
    def __init__(self, unit, mod, name):
        self.unit, self.mod, self.name = unit, mod, name
        self.type = asn.Ref(name)
        self.id = "%s/%s.%s" % (unit.name, mod, name)
        self.values, self.cases = [], []

    def _k(self, v):
        for i, x in enumerate(self.values):
            if x == v and type(x) is type(v):
                return i
        self.values.append(v)
        return len(self.values) - 1

    @property
    def env(self):
        return self.unit.env

    def all_values(self, **kw):
        return asn.values(self.env, self.type, self.mod, **kw)

    def encode(self, v):
        return self.env.encode(self.type, self.mod, v)

    def B(self, v):
        self.cases.append("B %s %d %s" % (self.id, self._k(v), hx(self.encode(v))))

    def S(self, v):
        self.cases.append("S %s %d" % (self.id, self._k(v)))

    def C(self, v, w):
        self.cases.append("C %s %d %d" % (self.id, self._k(v), self._k(w)))

    def D(self, wire, verdict=None):
        """decode; the reference says what must come out"""
        if verdict == "U":
            self.cases.append("D %s %s U" % (self.id, hx(wire)))
            return
        v = self.env.decode(self.type, self.mod, wire)
        if v is asn.REFUSE:
            self.cases.append("D %s %s R" % (self.id, hx(wire)))
        else:
            self.cases.append("D %s %s A %s" % (self.id, hx(wire), hx(self.encode(v))))

    def P(self, v):
        self.cases.append("P %s %d %s" % (self.id, self._k(v), " ".join(asn.printed(self.env, self.type, self.mod, v))))

    def H(self, wires):
        self.cases.append("H %s %s" % (self.id, ";".join(hx(w) for w in wires)))


class Unit:
    """Modules given to the compiler together. files: the modules of each file, in the order given"""

    def __init__(self, name, modules, files=None, expect="accept", means=None):
        self.name, self.modules = name, modules
        self.files = files or [modules]
        self.expect = expect
        self.env = asn.Env(modules if means is None else means)
        self.subjects, self.exprs = [], []
        self.bad = False

    def subject(self, mod, name):
        s = Subject(self, mod.name if isinstance(mod, asn.Module) else mod, name)
        self.subjects.append(s)
        return s

    def expr(self, name, text, expected):
        """the C++ expression has this value (see vf_text)"""
        self.exprs.append(("%s/%s" % (self.name, name), text, expected))

    def texts(self):
        return ["\n".join(m.text() if isinstance(m, asn.Module) else m for m in f) for f in self.files]

    def cpp(self, header):
        b = asn.Builder(self.env)
        out = '#include "%s"\n' % header
        for k, s in enumerate(self.subjects):
            t = "fast_ber::%s::%s" % (asn.cppname(s.mod), asn.cppname(s.name))
            fns = []
            tag = "_%s_%d" % (re.sub(r"\W", "_", os.path.basename(header).split(".")[0]), k)
            for i, v in enumerate(s.values):
                out += "static void b%s_%d(void* p) { auto& x = *static_cast<%s*>(p); (void)x;\n%s}\n" % (
                    tag, i, t, b.build(s.type, s.mod, v, "x"))
                fns.append("b%s_%d" % (tag, i))
            out += 'static GenRegister r%s("%s", gen_type<%s>(), {%s});\n' % (tag, s.id, t, ", ".join(fns))
        for k, (name, text, _) in enumerate(self.exprs):
            tag = "_%s_%d" % (re.sub(r"\W", "_", os.path.basename(header).split(".")[0]), k)
            out += "static std::string e%s() { return vf_text(%s); }\n" % (tag, text)
            out += 'static GenExpression x%s("%s", e%s);\n' % (tag, name, tag)
        return out


def run_compiler(exe, files, out, cwd):
    e = vf._env()
    return subprocess.run([exe] + files + [out], capture_output=True, text=True, errors="replace", env=e, cwd=cwd,
                          timeout=TIMEOUT)


class World:
    def __init__(self, check, tag="w"):
        self.c, self.units = check, []
        self.name = "%s-%s-%s" % (check.prop, check.tier, tag)
        self.dir = os.path.join(vf.BUILD, "world-" + self.name)

    def add(self, unit):
        self.units.append(unit)
        return unit

    def unit(self, *a, **k):
        return self.add(Unit(*a, **k))

    # -- schema compilation ---------------------------------------------------------------------------------------
    def _asn(self, exe, i, u):
        d = os.path.join(self.dir, "u%d" % i)
        os.makedirs(d, exist_ok=True)
        files = []
        for k, text in enumerate(u.texts()):
            f = os.path.join(d, "in%d.asn" % k)
            with open(f, "w") as fh:
                fh.write(text)
            files.append(os.path.basename(f))
        u.header = os.path.join(d, "u%d.hpp" % i)
        try:
            r = run_compiler(exe, files, "u%d" % i, d)
        except subprocess.TimeoutExpired:
            return "the compiler does not terminate"
        if r.returncode < 0:
            return "the compiler dies with signal %d" % -r.returncode
        if r.returncode != 0:
            return "refused: " + (r.stderr.strip() or r.stdout.strip()).replace("\n", " ")[:300]
        return None

    def _generated(self, u):
        base = u.header[:-4]
        out = ""
        for x in (".hpp", ".fwd.hpp", ".detail.hpp"):
            with open(base + x) as fh:
                out += fh.read()
        return out

    # -- C++ compilation ------------------------------------------------------------------------------------------
    def _pch(self):
        key = vf._sha(vf.tree_hash("lib"), " ".join(FLAGS), "2")[:20]
        pch = os.path.join(vf.BUILD, "cases-%s.pch" % key)
        if not os.path.exists(pch):
            vf._atomic_run([vf.CXX] + vf.STD + FLAGS + self.inc() + ["-Xclang", "-fno-pch-timestamp", "-x", "c++-header",
                                                                    vf.VERIF + "/harness/cases.hpp"], pch)
        return pch

    def inc(self):
        return ["-I" + vf.VERIF + "/harness", "-I" + vf.REPO + "/include"]

    def _tu(self, units, pch, syntax=False):
        text = '#include "cases.hpp"\n' + "".join(u.cpp(u.header) for u in units)
        key = vf._sha(vf.tree_hash("lib"), " ".join(FLAGS), text, "".join(u.gen for u in units))[:24]
        src = os.path.join(self.dir, key + ".cpp")
        with open(src, "w") as fh:
            fh.write(text)
        o = os.path.join(self.dir, key + ".o")
        cmd = [vf.CXX] + vf.STD + FLAGS + self.inc() + ["-include-pch", pch]
        if syntax:
            r = subprocess.run(cmd + ["-fsyntax-only", src], capture_output=True, text=True, env=vf._env())
            return None if r.returncode == 0 else r.stderr
        if os.path.exists(o):
            return o, None
        r = subprocess.run(cmd + ["-c", src, "-o", o + ".tmp"], capture_output=True, text=True, env=vf._env())
        if r.returncode != 0:
            return None, r.stderr
        os.replace(o + ".tmp", o)
        return o, None

    def build(self, chunk=12):
        """compile everything; violations for legal schemas that are refused or do not give C++ that compiles"""
        c = self.c
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        exe = vf.compiler()
        names = [m.name for u in self.units for m in u.modules if isinstance(m, asn.Module) and u.expect == "accept"]
        assert len(names) == len(set(names)), "module names must be unique: %s" % sorted(
            n for n in names if names.count(n) > 1)[:5]
        assert len({u.name for u in self.units}) == len(self.units), "unit names must be unique"
        with cf.ThreadPoolExecutor(vf.JOBS) as ex:
            pch = ex.submit(self._pch)
            res = list(ex.map(lambda iu: self._asn(exe, *iu), enumerate(self.units)))
            c.add("schemas", len(self.units))
            for u, err in zip(self.units, res):
                c.add("executed", 1)
                if u.expect == "refuse":
                    u.bad = True
                    if err is None:
                        self.fail(u, "schema-accepted", "accepted although illegal")
                    elif not err.startswith("refused: ") or err == "refused: ":
                        self.fail(u, "schema", err or "refused without a diagnostic")
                elif err is not None:
                    u.bad = True
                    self.fail(u, "schema-refused", err)
                else:
                    u.gen = self._generated(u)
            good = [u for u in self.units if not u.bad]
            if not good:
                return None
            pch = pch.result()
            ntu = max(min(len(good), vf.JOBS), -(-len(good) // chunk))
            good.sort(key=lambda u: -len(u.gen) - sum(len(s.values) for s in u.subjects) * 200)
            groups, load = [[] for _ in range(ntu)], [0] * ntu
            for u in good:
                k = load.index(min(load))
                groups[k].append(u)
                load[k] += len(u.gen) + 3000
            objs = []

            def one(g):
                o, err = self._tu(g, pch)
                if o:
                    return [o]
                ok = []
                for u in g:
                    e = self._tu([u], pch, True)
                    if e is None:
                        ok.append(u)
                    else:
                        u.bad = True
                        m = re.search(r"error: (.*)", e)
                        self.fail(u, "does-not-compile", re.sub(r"%s/\S*" % re.escape(vf.BUILD), "", m.group(1)) if m
                                  else e[-200:], e[:2000])
                if not ok:
                    return []
                if len(ok) == len(g):
                    raise vf.BuildError(err[-3000:])
                o, err = self._tu(ok, pch)
                if not o:
                    raise vf.BuildError(err[-3000:])
                return [o]
            for r in ex.map(one, groups):
                objs += r
        main = self._main()
        exe = os.path.join(self.dir, "explorer")
        vf._atomic_run([vf.CXX] + FLAGS + objs + main + vf.absl_libs(), exe)
        return exe

    def _main(self):
        th = vf.tree_hash("lib")
        inc = ["-I" + vf.VERIF + "/harness", "-I" + vf.REPO + "/include"]
        objs, jobs = [], []
        for s in [vf.VERIF + "/harness/cases_main.cpp"] + vf.LIB_SRC:
            o = os.path.join(vf.BUILD, "cm-%s-%s.o" % (os.path.basename(s), vf._sha(th, s, " ".join(vf.FLAGS))[:20]))
            objs.append(o)
            jobs.append((o, [vf.CXX] + vf.STD + vf.FLAGS + inc + ["-c", s]))
        vf.compile_many(jobs)
        return objs

    def fail(self, u, key, what, more=""):
        self.c.violation(key, "%s: %s" % (u.name, what), {"schema": u.texts(), "message": more})

    def run(self, chunk=12):
        exe = self.build(chunk)
        if exe is None:
            return
        cases = os.path.join(self.dir, "cases.txt")
        n = 0
        with open(cases, "w") as fh:
            for u in self.units:
                if not u.bad:
                    for name, _, expected in u.exprs:
                        fh.write("V %s %s\n" % (name, expected))
                        n += 1
                    for s in u.subjects:
                        for line in s.cases:
                            fh.write(line + "\n")
                            n += 1
        self.c.add("subjects", sum(len(u.subjects) for u in self.units if not u.bad))
        self.c.explore(exe, ["--cases", cases])
        by = {u.name: u for u in self.units}
        for v in self.c.violations:
            u = by.get(v["detail"].split("/")[0])
            if u and "schema" not in v["replay"]:
                v["replay"]["schema"] = u.texts()
