"""Driver shared by all checks: builds /repo's current sources with the explorers, runs the explorers in shards,
replays what they report, applies the known-findings file and writes the evidence."""
import array, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = 8
CXX = "clang++"
STD = ["-std=c++17"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       # left shifts of negative values and memcpy(x, nullptr, 0) are harmless on every supported compiler
       "-fno-sanitize=shift,nonnull-attribute,returns-nonnull-attribute,function"]
FLAGS = ["-O1", "-gline-tables-only", "-w"] + SAN
_PKGS = "absl_flat_hash_set absl_flat_hash_map absl_strings absl_time absl_optional absl_variant " \
        "absl_bad_optional_access absl_bad_variant_access absl_raw_hash_set"


class BuildError(Exception):
    pass


def absl_libs():
    return subprocess.run(["pkg-config", "--libs"] + _PKGS.split(), capture_output=True, text=True,
                          check=True).stdout.split()


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()


def _tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_th = {}


def tree_hash(kind):
    """Hash of everything a compilation of this kind may read from /repo and /verif."""
    if kind not in _th:
        roots = {"lib": [REPO + "/include", REPO + "/src/util", REPO + "/src/ber_types", REPO + "/src/view",
                         VERIF + "/harness"],
                 "compiler": [REPO + "/src/compiler", REPO + "/src/compiler_main"]}[kind]
        _th[kind] = _tree_hash(*roots)
    return _th[kind]


def _env():
    e = dict(os.environ)
    for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
        e.pop(v, None)
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C"
    return e


def _atomic_run(cmd, out, cwd=None):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True, env=_env(), cwd=cwd)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-4000:]))
    os.replace(tmp, out)


def compile_many(jobs):
    """jobs: [(src, obj, cmd)] -> compile what is missing, in parallel"""
    os.makedirs(BUILD, exist_ok=True)
    todo = [(o, c) for (o, c) in jobs if not os.path.exists(o)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_atomic_run, c, o) for (o, c) in todo]:
            f.result()


def build_binary(name, sources, flags=None, kind="lib", incs=(), extra_hash=""):
    """Compile sources (paths) against /repo's headers and link with the library sources of /repo."""
    flags = FLAGS if flags is None else flags
    th = tree_hash(kind)
    incs = ["-I" + i for i in ([VERIF + "/harness", REPO + "/include"] if kind == "lib" else []) + list(incs)]
    objs, jobs = [], []
    for s in sources:
        with open(s, "rb") as fh:
            text = fh.read()
        key = _sha(th, s, text, " ".join(flags + incs), extra_hash)[:24]
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(s).replace(".cpp", ""), key))
        objs.append(o)
        jobs.append((o, [CXX] + STD + flags + incs + ["-c", s]))
    compile_many(jobs)
    b = os.path.join(BUILD, "%s-%s" % (name, _sha(*objs)[:24]))
    if not os.path.exists(b):
        _atomic_run([CXX] + flags + objs + absl_libs(), b)
    return b


LIB_SRC = [REPO + "/src/util/BerView.cpp", REPO + "/src/ber_types/Real.cpp"]


_built = {}  # binary -> how to build it again (for replays)


def harness(name, flags=None, defs=(), incs=(), extra_hash=""):
    b = _harness(name, flags, defs, incs, extra_hash)
    _built[b] = {"harness": name, "defs": list(defs)}
    return b


def _harness(name, flags, defs, incs, extra_hash):
    return build_binary(name, [VERIF + "/harness/%s.cpp" % name] + LIB_SRC,
                        flags=(FLAGS if flags is None else flags) + ["-D" + d for d in defs], incs=incs,
                        extra_hash=extra_hash)


def harnesses(specs):
    """[(name, defs)] -> binaries, compiled in parallel"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [f.result() for f in [ex.submit(harness, n, None, d) for (n, d) in specs]]


def parser_header(dst):
    """Put the parser that belongs to the current grammar at dst/autogen/asn_compiler.hpp (as build.sh does)."""
    os.makedirs(dst + "/autogen", exist_ok=True)
    out = dst + "/autogen/asn_compiler.hpp"
    yacc = REPO + "/src/compiler/asn_compiler.yacc"
    pinned = None
    with open(VERIF + "/lib/asn_compiler.yacc.sha256") as fh:
        pinned = fh.read().split()[0]
    with open(yacc, "rb") as fh:
        cur = hashlib.sha256(fh.read()).hexdigest()
    if cur == pinned:
        shutil.copyfile(REPO + "/src/compiler/autogen_copy/asn_compiler.hpp", out)
        return
    re_ = dst + "/asn_compiler.re"
    for cmd in (["bison", "-Wno-other", "-Wno-deprecated", "-Wno-empty-rule", yacc, "-t", "-o", re_],
                ["re2c", "--no-generation-date", "-o", out, re_]):
        r = subprocess.run(cmd, capture_output=True, text=True, env=_env())
        if r.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-3000:]))


COMPILER_FLAGS = ["-O0", "-gline-tables-only", "-w"]


def compiler(flags=None, tag="fbc", extra=()):
    """Build fast_ber_compiler from /repo's current sources; returns the path of the executable."""
    flags = COMPILER_FLAGS if flags is None else flags
    th = tree_hash("compiler")
    key = _sha(th, " ".join(flags), *[open(x).read() for x in extra])[:24]
    exe = os.path.join(BUILD, "%s-%s" % (tag, key))
    if os.path.exists(exe):
        return exe
    d = os.path.join(BUILD, "gen-" + key)
    os.makedirs(d, exist_ok=True)
    parser_header(d)
    srcs = sorted(os.path.join(REPO, "src/compiler", f) for f in os.listdir(REPO + "/src/compiler")
                  if f.endswith(".cpp")) + [REPO + "/src/compiler_main/CompilerMain.cpp"]
    srcs.sort(key=lambda s: -os.path.getsize(s) if "CompilerMain" not in s else -10**9)
    inc = ["-I" + REPO + "/src/compiler/include", "-I" + d, "-I" + REPO + "/include"]
    objs, jobs = [], []
    for s in srcs + list(extra):
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(s), key))
        objs.append(o)
        jobs.append((o, [CXX] + STD + flags + inc + ["-c", s]))
    compile_many(jobs)
    _atomic_run([CXX] + flags + objs + absl_libs(), exe)
    return exe


# ---------------------------------------------------------------------------------------------------------------
class Finding:
    def __init__(self, line):
        m = re.match(r"known: property=(\S+) key=(\S+) match=(.*?) \|\| (.*)$", line)
        if not m:
            raise ValueError("bad known-findings line: " + line)
        self.prop, self.key, self.match, self.what = m.groups()

    def covers(self, prop, key, detail):
        return prop == self.prop and key == self.key and re.fullmatch(self.match, detail) is not None


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.rstrip("\n")
                if line.startswith("known: "):
                    out.append(Finding(line))
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.stats, self.samples, self.states = {}, [], set()
        self.extra_states = 0
        self.violations, self.known = [], {}
        self.findings = known_findings()
        self.assumptions, self.notes = [], {}
        self.exhaustive = True
        self.seen = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, k, v):
        self.stats[k] = self.stats.get(k, 0) + v

    def violation(self, key, detail, replay):
        for f in self.findings:
            if f.covers(self.prop, key, detail):
                self.known.setdefault(f.what, 0)
                self.known[f.what] += 1
                return
        if (key, detail) in self.seen:
            return
        self.seen.add((key, detail))
        self.violations.append({"key": key, "detail": detail, "replay": replay})

    # -- explorers ------------------------------------------------------------------------------------------------
    def explore(self, binary, args=(), nshards=JOBS, timeout=840, name=None, env=None):
        """Run an explorer in shards, merging its records. A crash or hang of a case is a violation (replayed)."""
        tmp = tempfile.mkdtemp(prefix="vf-")
        try:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = [ex.submit(self._shard, binary, list(args), i, nshards, tmp, timeout, env)
                        for i in range(nshards)]
                res = [f.result() for f in futs]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for r in res:
            for k, v in r["stats"].items():
                if k != "state_overflow":
                    self.add(k, v)
                elif v:
                    self.notes["state_count_capped"] = True
            self.samples += r["samples"]
            self.states |= r["states"]
            for (idx, key, detail) in r["viol"]:
                self.violation(key, detail, {"binary_of": name or os.path.basename(binary), **_built.get(binary, {}),
                                             "args": list(args), "env": env or {}, "case": idx})

    def _env(self, extra):
        e = _env()
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:" \
                            "detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        e.update(extra or {})
        return e

    def _shard(self, binary, args, i, n, tmp, timeout, extra_env):
        out = {"stats": {}, "samples": [], "states": set(), "viol": []}
        skip = []
        for attempt in range(6):
            st = os.path.join(tmp, "st%d" % i)
            stf = os.path.join(tmp, "states%d" % i)
            e = self._env(extra_env)
            e["VF_STATUS"], e["VF_STATES"] = st, stf
            if os.path.exists(st):
                os.unlink(st)
            cmd = [binary, "--shard", str(i), "--nshards", str(n), "--tier", self.tier] + args
            if skip:
                cmd += ["--skip", ",".join(map(str, skip))]
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout,
                                   cwd=tmp)
            except subprocess.TimeoutExpired:
                raise RuntimeError("explorer exceeded its time budget: " + " ".join(cmd))
            so = p.stdout.decode("utf-8", "replace")
            done = False
            stats, samples, viol = {}, [], []
            for line in so.split("\n"):
                f = line.split("\t")
                if f[0] == "VIOL":
                    viol.append((int(f[1]), f[2], f[3] if len(f) > 3 else ""))
                elif f[0] == "STAT":
                    stats[f[1]] = stats.get(f[1], 0) + int(f[2])
                elif f[0] == "SAMPLE":
                    samples.append(f[1])
                elif f[0] == "DONE":
                    done = True
            if done and p.returncode == 0:
                out["stats"], out["samples"] = stats, samples
                out["viol"] += viol
                if os.path.exists(stf):
                    a = array.array("Q")
                    with open(stf, "rb") as fh:
                        a.frombytes(fh.read())
                    out["states"] = set(a)
                return out
            # the process died: name the case, replay it alone
            with open(st, "rb") as fh:
                idx = int.from_bytes(fh.read(8), "little")
            rc, txt = self.replay_case(binary, args, idx, extra_env)
            if rc == 0:
                txt = txt + p.stderr.decode("utf-8", "replace")
                if p.returncode in (-9, -15) or not re.search(r"runtime error: |AddressSanitizer|terminate called|HANG",
                                                              txt + so):
                    raise RuntimeError("explorer died (rc %d) but case %d alone does not reproduce it:\n%s" %
                                       (p.returncode, idx, txt[-3000:]))
            note = [l.split("\t", 1)[1] for l in txt.split("\n") if l.startswith("NOTE\t")]
            if rc == 97 or "HANG" in so:
                what = "does not terminate"
            else:
                m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: [\w-]+|terminate called.*|Assertion.*)",
                              txt)
                what = m.group(1) if m else "process died with status %d" % rc
                what = re.sub(r"0x[0-9a-f]+", "0x..", what)
            out["viol"].append((idx, "crash", "%s: %s" % (note[-1] if note else "case %d" % idx, what)))
            skip.append(idx)
            if attempt == 5:
                out["viol"] += viol
                out["stats"] = stats
                self.exhaustive = False
        return out

    def replay_case(self, binary, args, idx, extra_env=None):
        e = self._env(extra_env)
        try:
            p = subprocess.run([binary, "--only", str(idx), "--tier", self.tier] + args, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=e, timeout=120)
            return p.returncode, p.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as x:
            return 97, (x.stdout or b"").decode("utf-8", "replace") + "HANG"

    # -- result ---------------------------------------------------------------------------------------------------
    def finish(self, level, rule, bounds, extra=None):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        rd = os.path.join(ev, "replay")
        os.makedirs(rd, exist_ok=True)
        nstates = len(self.states) + self.extra_states
        cov = {"states": nstates, "transitions": self.stats.get("transitions", 0),
               "traces_validated_against_impl": self.stats.get("executed", 0),
               "comparisons_with_reference": self.stats.get("compared", 0), "rule": rule, "bounds": bounds, "exhaustive": self.exhaustive,
               "samples": self.samples[:12] or ["(none)"],
               "counters": dict(sorted(self.stats.items())), **self.notes, **(extra or {})}
        doc = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
               "level": level, "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(ev, self.prop + ".json"), "w") as fh:
            json.dump(doc, fh, indent=1)
            fh.write("\n")
        for what, n in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.prop, what, n))
        if not self.violations and (self.stats.get("executed", 0) == 0 or not self.exhaustive):
            raise RuntimeError("the space was not explored completely")
        if self.violations:
            for k, v in enumerate(self.violations):
                path = os.path.join(rd, "%s-%d.json" % (self.prop, k))
                if k < int(os.environ.get("VERIF_SHOW", "20")):
                    with open(path, "w") as fh:
                        json.dump({"property": self.prop, "tier": self.tier, **v}, fh, indent=1)
                    print("  %s: %s" % (v["key"], v["detail"][:600]))
                    print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("%d violation(s)" % len(self.violations))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d executions=%d wall=%.1fs" %
              (self.prop, self.tier, nstates, cov["transitions"], cov["traces_validated_against_impl"],
               time.time() - self.t0))
        return 0
