"""Images of the program under test and the runs forked from them."""
import os
import shutil
import subprocess
import tempfile

from . import build as B

KINDS = ["sched", "point", "gap", "preempt", "env", "wake", "spurious_wake", "epoll_order",
         "recv_short", "send_short", "recv_err", "send_err", "accept_err",
         "open_err", "read_short", "read_err", "read_eintr", "write_short", "write_err",
         "write_eintr", "close_err", "meta_err", "crash", "clock_jump", "misc", "alloc_fail",
         "torn_write", "stat_err", "dir_err"]
FAULT_KINDS = ["recv_short", "send_short", "recv_err", "send_err", "accept_err", "open_err",
               "read_short", "read_err", "read_eintr", "write_short", "write_err", "write_eintr",
               "close_err", "meta_err", "crash", "clock_jump", "alloc_fail", "torn_write",
               "stat_err", "dir_err", "spurious_wake"]
C_SITE, C_STORE, C_DATA, C_TMP, C_LEX, C_INOUT, C_LOG = 1, 2, 4, 8, 16, 32, 64


class Result:
    def __init__(self, raw):
        head, _, rest = raw.partition(b"\nbody ")
        n, _, self.body = rest.partition(b"\n")
        self.fired, self.asked, self.dec = {}, {}, []
        for line in head.decode("utf8", "replace").split("\n"):
            k, _, v = line.partition(" ")
            if k == "status":
                self.status, code = v.split()
                self.code = int(code)
            elif k == "outcome":
                self.outcome = v
            elif k == "detail":
                self.detail = v
            elif k == "meta":
                (self.hash, self.bb, self.events, self.simtime, self.switches, self.syscalls,
                 self.sched_hash, self.ndec, self.nseq, self.done) = map(int, v.split())
            elif k in ("fired", "asked"):
                d = self.fired if k == "fired" else self.asked
                for w in v.split():
                    a, _, b = w.partition("=")
                    d[a] = int(b)
            elif k == "dec":
                self.dec = [tuple(map(int, w.split(":"))) for w in v.split()]
        self._parse_body()

    def _parse_body(self):
        self.blobs, self.lines, self.probes, self.faults = {}, [], {}, []
        b, i = self.body, 0
        while i < len(b):
            j = b.find(b"\n", i)
            if j < 0:
                j = len(b)
            line = b[i:j]
            if line.startswith(b"B "):
                _, tag, n = line.decode().split(" ")
                n = int(n)
                self.blobs[tag] = b[j + 1:j + 1 + n]
                i = j + 1 + n + 1
                continue
            s = line.decode("utf8", "replace")
            if s.startswith("P "):
                _, k, v = s.split(" ")
                self.probes[k] = int(v)
            elif s.startswith("F "):
                self.faults.append(s[2:])
            else:
                self.lines.append(s)
            i = j + 1

    def recs(self, tag):
        out = []
        for s in self.lines:
            if s.startswith(tag + " "):
                d = {}
                for w in s.split(" ")[1:]:
                    a, _, v = w.partition("=")
                    d[a] = int(v) if v.lstrip("-").isdigit() else v
                out.append(d)
        return out

    @property
    def died(self):
        return self.status != "exit" or self.code != 0

    def end(self):
        """How the run ended, in one word or two."""
        if self.status == "timeout":
            return "timeout"
        if self.status == "signal":
            return f"signal{self.code}"
        if self.code != 0:
            return f"exit{self.code}"
        return self.outcome or "none"


class Workdir:
    """The simulated machine's disk: a scratch directory with the repository's data linked in."""

    def __init__(self, base=None):
        base = base or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.path = tempfile.mkdtemp(prefix="psisim.", dir=base)
        # fixed-length names: the length of the path is visible to the code under test
        for e in sorted(os.listdir(B.REPO)):
            if e not in ("build", ".git"):
                os.symlink(os.path.join(B.REPO, e), os.path.join(self.path, e))
        os.mkdir(os.path.join(self.path, "build"))
        shutil.copytree(os.path.join(B.REPO, "server/website"), self.p("build/site"),
                        ignore=shutil.ignore_patterns("storage"))
        for d in ("build/lex", "build/io", "build/log", "tmp", "build/site/storage"):
            os.makedirs(self.p(d), exist_ok=True)
        with open(self.p("build/site/css/probe.css"), "w") as f:
            f.write("probe { color: red }\n")
        self.site_extra = {}

    def p(self, *a):
        return os.path.join(self.path, *a)

    def add_site_file(self, rel, data):
        q = self.p("build/site", rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(data)

    def clean(self, keep_storage=False):
        for d in ("build/lex", "build/io", "build/log", "tmp") + \
                (() if keep_storage else ("build/site/storage",)):
            q = self.p(d)
            if not os.path.isdir(q):
                os.makedirs(q)
            for e in os.listdir(q):
                r = os.path.join(q, e)
                if os.path.isdir(r) and not os.path.islink(r):
                    shutil.rmtree(r)
                else:
                    os.unlink(r)

    def storage(self):
        q = self.p("build/site/storage")
        out = {}
        for e in sorted(os.listdir(q)):
            with open(os.path.join(q, e), "rb") as f:
                out[e] = f.read()
        return out

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)


class ImageError(Exception):
    pass


class Image:
    def __init__(self, wd, mode, args=(), trace=False, timeout=40, zero=False, wall=None):
        self.wd = wd
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PSISIM_TIMEOUT": str(timeout),
               "LD_LIBRARY_PATH": B.PLUGZ if zero else B.PLUG, "GVBINDIR": B.GVBIN, "HOME": wd.path}
        if wall is not None:
            env["PSISIM_WALL"] = str(wall)
        if trace:
            env["PSISIM_TRACE"] = "1"
        if os.environ.get("PSISIM_BT"):
            env["PSISIM_BT"] = "1"
        self.p = subprocess.Popen([B.ZERO if zero else B.EXE, mode, wd.path] + list(args), stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env,
                                  stderr=None if trace else subprocess.DEVNULL)
        if self.p.stdout.readline() != b"READY\n":
            self.p.wait()
            raise ImageError(f"{mode} {args}: the program never reached its start "
                             f"(exit {self.p.returncode})")

    def run(self, plan):
        text = plan if isinstance(plan, bytes) else plan.encode("latin-1")
        self.p.stdin.write(b"JOB %d\n" % len(text) + text)
        self.p.stdin.flush()
        h = self.p.stdout.readline()
        if not h.startswith(b"RES "):
            raise ImageError("image died")
        n = int(h.split()[1])
        return Result(self.p.stdout.read(n))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
