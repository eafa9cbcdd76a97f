"""Runs the compiler (built with sanitizers, see harness/server.cpp) on many inputs quickly."""
import os, queue, re, shutil, struct, subprocess, tempfile, threading
import vf

FLAGS = ["-O0", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def build():
    return vf.compiler(FLAGS, "fbcs", [vf.VERIF + "/harness/server.cpp"])


class Result:
    """status: exit status, or -signal; sizes of .hpp, .fwd.hpp, .detail.hpp (None: not written); err: its beginning"""

    def __init__(self, st, sizes, nerr, err):
        self.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        self.sizes = [None if s == 0xffffffff else s for s in sizes]
        self.nerr, self.err = nerr, err

    @property
    def accepted(self):
        return self.status == 0

    def defect(self):
        """what is wrong with this run whatever the input was, or None"""
        m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: .*|terminate called.*|Assertion.*)", self.err)
        if m:
            frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*/src/(\S+):\d+", self.err)
            return re.sub(r"0x[0-9a-f]+", "0x..", m.group(1)) + \
                (" in " + re.sub(r"\(.*", "", frames[0][0]) if frames else "")
        if self.status < 0:
            return {-24: "does not terminate", -14: "does not terminate", -9: "killed", -11: "crash (SIGSEGV)",
                    -6: "abort"}.get(self.status, "signal %d" % -self.status)
        if self.status == 0 and (None in self.sizes or 0 in self.sizes):
            return "success reported without all of the output"
        if self.status != 0 and self.nerr == 0:
            return "failure reported without a diagnostic"
        return None


class Server:
    def __init__(self, exe, nfiles):
        self.exe, self.nfiles = exe, nfiles
        self.dir = tempfile.mkdtemp(prefix="vfc-")
        e = vf._env()
        e["VF_SERVER"] = "1"
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=98:allocator_may_return_null=0:max_allocation_size_mb=2000:" \
                            "detect_stack_use_after_return=0:symbolize=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
        self.p = subprocess.Popen([exe] + ["in%d.asn" % i for i in range(nfiles)] + ["out"], cwd=self.dir, env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, texts):
        req = struct.pack("<I", len(texts))
        for t in texts:
            req += struct.pack("<I", len(t)) + t
        self.p.stdin.write(req)
        self.p.stdin.flush()
        h = struct.unpack("<6I", self._read(24))
        return Result(h[0], h[1:4], h[4], self._read(h[5]).decode("utf-8", "replace"))

    def _read(self, n):
        b = b""
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise RuntimeError("compile server died")
            b += c
        return b

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def run_all(exe, cases, verdict, jobs=None):
    """cases: iterable of (tag, [bytes per file]); verdict(tag, texts, Result) is called in the calling order per thread"""
    q = queue.Queue(4096)
    errors = []
    lock = threading.Lock()

    def work():
        servers = {}
        try:
            while True:
                item = q.get()
                if item is None:
                    break
                tag, texts = item
                if len(texts) not in servers:
                    servers[len(texts)] = Server(exe, len(texts))
                r = servers[len(texts)].run(texts)
                with lock:
                    verdict(tag, texts, r)
        except Exception as x:  # pylint: disable=broad-except
            errors.append(x)
            while q.get() is not None:
                pass
        finally:
            for s in servers.values():
                s.close()

    ts = [threading.Thread(target=work) for _ in range(jobs or vf.JOBS)]
    for t in ts:
        t.start()
    try:
        for c in cases:
            q.put(c)
    finally:
        for _ in ts:
            q.put(None)
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
