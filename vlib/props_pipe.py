"""The properties decided on simulated psi-pipe runs and on the library's own entry points."""
import os
import random
import re
import shutil
import time

from . import corpus as C
from . import engine as E
from . import runner as R


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


REF_STEPS = 400000000  # basic blocks an undisturbed run may take to be taken for a reference


class Ctx:
    def __init__(self):
        self.wd = R.Workdir()
        C.files(self.wd.p)
        self.base = set(os.listdir(self.wd.p("build/lex")))
        self._im = self._twin = None
        self.refs = {}

    @property
    def im(self):
        if self._im is None:
            self._im = R.Image(self.wd, "pipe", timeout=20)
        return self._im

    def fresh(self, lex=False):
        self.wd.clean()
        C.files(self.wd.p)

    # what earlier cases left behind (extracted archives, compiled lexicons) must not decide later ones
    def tidy(self):
        for d in ("tmp", "build/io", "build/log"):
            q = self.wd.p(d)
            for e in os.listdir(q):
                r = os.path.join(q, e)
                if os.path.isdir(r) and not os.path.islink(r):
                    shutil.rmtree(r)
                else:
                    os.unlink(r)
        q = self.wd.p("build/lex")
        for e in os.listdir(q):
            if e not in self.base:
                os.unlink(os.path.join(q, e))

    def run(self, plan, decs=None, twin=False):
        if twin and self._twin is None:
            self._twin = R.Image(self.wd, "pipe", timeout=20, zero=True)
        if "bb_limit" not in plan:
            # what a reference run may take, for each run, and as much again
            n = sum(l.split(" ", 1)[0] not in ("faults", "heap", "oom", "crashable", "drop") for l in plan["lines"])
            plan = dict(plan, bb_limit=REF_STEPS * (1 + n))
        return (self._twin if twin else self.im).run(E.plan_text(plan, decs))

    # what a command does in a process of its own, undisturbed
    def ref_main(self, args, inp, files=()):
        k = ("m", args, inp) + files
        if k not in self.refs:
            self.tidy()
            t = time.time()
            r = self.run({"seed": 1, "bb_limit": REF_STEPS, "lines": [main_line(args, inp)]})
            self.tidy()
            m = r.recs("M")
            # one that takes long undisturbed is not decided: disturbed it could run into the time limit
            ok = r.end() == "ok" and m and time.time() - t < 2.5
            self.keep(k, (m[0]["rc"], r.blobs["stdout"], m[0]) if ok else None)
        return self.refs[k]

    def ref_run(self, pipe, inp):
        k = ("r", pipe, inp)
        if k not in self.refs:
            self.tidy()
            t = time.time()
            r = self.run({"seed": 1, "bb_limit": REF_STEPS, "lines": ["run pipe=%s in=%s" % (hx(pipe), inp)]})
            self.tidy()
            x = xs(r)
            self.keep(k, x[0] if r.end() == "ok" and x and time.time() - t < 2.5 else None)
        return self.refs[k]

    def keep(self, k, v):
        if len(self.refs) > 3000:
            self.refs.clear()
        self.refs[k] = v

    def close(self):
        for im in (self._im, self._twin):
            if im is not None:
                im.close()
        self.wd.remove()


def main_line(args, inp, **kw):
    return "main args=%s in=%s" % (C.hexargs(args.split("\x00")), inp) + "".join(
        " %s=%s" % (k, ",".join(map(str, v)) if isinstance(v, list) else v) for k, v in sorted(kw.items()))


def xs(r):
    """(status, bytes, faults, allocs, fds) of every library call of a life"""
    out = []
    for s in r.lines:
        if s.startswith("X "):
            w = s.split(" ")
            f = dict(x.split("=") for x in w[3:])
            out.append((w[2], r.blobs.get("x" + w[1], b""), int(f["faults"]), int(f["allocs"]), int(f["fds"])))
    return out


REAL = ["framework/psi-pipe.cpp main()", "framework/pipe_runner.cpp and everything it runs: readers, tools, writers",
        "common/", "libstdc++ and stdio buffering", "the data files of the tree"]
STUBS = ["standard input and output (simulated pipes that cut, refuse and fail)",
         "file descriptors of data, lexicon, temporary and user files (real files on a scratch disk, faults injected "
         "in the system call layer)", "clocks", "operator new (fails on demand)"]
ASSUME = ["the pipelines are the ones of corpus.py: processors whose data is missing from this build or that need a Java "
          "virtual machine (morfologik, link parser, SFST) are not run",
          "the libraries behind the plug-ins (GraphViz, poppler, DjVuLibre, OpenFST, aspell) and the antiword command are "
          "the installed ones; allocations inside them do not fail",
          "the oracle is the same command run undisturbed in a fresh process of the same tree"]


class PipeProp(E.Prop):
    REAL, STUBS, ASSUMPTIONS = REAL, STUBS, ASSUME
    ONE_THREAD = True

    def open(self, w):
        return Ctx()

    def before(self, ctx):
        ctx.tidy()

    SWEEP = None

    def directed(self, ctx):
        """Every component and every document once; what happens to it is as random as elsewhere."""
        out = []
        for k, c in enumerate([] if self.SWEEP is None else C.sweep(docs=self.SWEEP)):
            C.FORCED[:] = [c]
            try:
                out.append(self.gen(ctx, random.Random("%s/%d" % (self.ID, k)), "quick"))
            finally:
                del C.FORCED[:]
        return out

    def sample(self, sc, o):
        s = {"seed": sc.get("seed")}
        for k in ("pipe", "opts", "doc", "kind", "p", "crash", "full", "lives", "at", "chunks"):
            if k in sc:
                s[k] = sc[k]
        return s

    def smaller_inputs(self, sc, key="in"):
        b = bytes.fromhex(sc[key])
        ls = b.split(b"\n")
        for i in range(len(ls)):
            if len(ls) > 1:
                yield dict(sc, **{key: b"\n".join(ls[:i] + ls[i + 1:]).hex()})
        if len(b) > 1:
            yield dict(sc, **{key: b[:len(b) // 2].hex()})
            yield dict(sc, **{key: b[len(b) // 2:].hex()})
        if len(b) < 60:
            for i in range(len(b)):
                yield dict(sc, **{key: (b[:i] + b[i + 1:]).hex()})

    def shrink(self, sc):
        if "in" in sc:
            yield from self.smaller_inputs(sc)


def judged(o, r, what="main"):
    """The life ended by itself and reported; otherwise that is the violation."""
    e = r.end()
    if e == "ok":
        return True
    o.bad("ended-" + e, f"the process did not end by itself: {e} {getattr(r, 'detail', '')[:300]}")
    return False


def chunks_of(rng, n):
    k = rng.random()
    if k < .25:
        return [1]
    if k < .5:
        return [rng.choice([2, 3, 4, 5, 7, 8, 16, 17, 64, 100, 511, 512, 4095, 4096])]
    if k < .75:
        a = rng.randrange(1, max(2, n + 1))
        return [a, max(1, n - a)]
    return [rng.randrange(1, 40) for _ in range(rng.randrange(2, 9))]


ENC = [("windows-1250", "cp1250"), ("ISO-8859-2", "iso8859-2"), ("UTF-8", "utf8"), ("windows-1251", "cp1251"),
       ("KOI8-R", "koi8-r")]
POLISH = ["Zażółć gęślą jaźń.", "Ala ma kota, a kot ma Alę.", "Łódź jest miastem.", "Pójdźże, kiń tę chmurność w głąb flaszy!"]
RUS = ["Привет, мир.", "Съешь ещё этих мягких французских булок."]


def with_opts(rng, sc):
    """Runner options: line by line, encoding conversion, log level."""
    sc["opts"] = []
    k = rng.random()
    if k < .12:
        sc["opts"], sc["pipe"] = [rng.choice(["--line-by-line", "-l"])], C.unit(sc["pipe"])
    elif k < .24:
        name, py = rng.choice(ENC)
        t = "\n".join(rng.choice(RUS if py in ("cp1251", "koi8-r") else POLISH) for _ in range(rng.randrange(1, 9)))
        b = t.encode(py, "replace") + b"\n"
        sc["in"] = b.hex()
        sc["pipe"] = rng.choice(["txt-reader ! psi-writer", "tp-tokenizer --lang pl ! simple-writer", "simple-writer"])
        sc["opts"] = ["--from-encoding", name] if rng.random() < .6 else [rng.choice(["-c", "--encoding-conversion"])]
    elif k < .3:
        sc["opts"] = ["--log-level", rng.choice(["INFO", "DEBUG", "TRACE"])]
    return sc


INFO_ARGS = [["--help"], ["--processors"], ["--aliases"], ["--list-encodings"], ["--version"],
             ["--help", "tp-tokenizer"], ["--help", "mapper"], ["--help", "lang-guesser"],
             ["--list-languages", "tp-tokenizer", "!", "simple-writer"]]


def info(rng, p):
    """Now and then an information command instead of a pipeline."""
    if C.FORCED or rng.random() >= p:
        return None
    return {"args": rng.choice(INFO_ARGS), "pipe": "", "in": ""}


def args_of(sc):
    if "args" in sc:
        return "\x00".join(["./framework/psi-pipe"] + sc["args"])
    return "\x00".join(C.argv(sc["pipe"], sc.get("opts", ())))


def named(sc):
    return sc["pipe"] or " ".join(sc["args"])


# -- P01 ------------------------------------------------------------------------------------------
class P01(PipeProp):
    ID = "P01"
    SWEEP = True
    RULE = ("one case: a pipeline and an input, the same input delivered in one piece and cut into random chunks, the "
            "output taken whole and in short writes; non-trivial: at least two reads of standard input or two writes "
            "were needed")

    def gen(self, ctx, rng, tier):
        sc = with_opts(rng, C.case(rng, zips=.04, heavy=tier == "thorough"))
        n = len(sc["in"]) // 2
        sc["chunks"] = chunks_of(rng, n)
        sc["out_max"] = rng.choice([0, 1, 1, 2, 3, 7, 100, 1000, 4095])
        return sc

    def execute(self, ctx, sc, o, decs):
        a = args_of(sc)
        ref = ctx.ref_main(a, sc["in"])
        if ref is None:
            o.notes["no reference"] = 1
            return
        r = ctx.run({"seed": 1, "lines": [main_line(a, sc["in"], chunks=sc["chunks"], out_max=sc["out_max"])]},
                    decs and decs[0])
        o.add(r)
        if judged(o, r):
            m = r.recs("M")[0]
            if m["rc"] != ref[0]:
                o.bad("exit-status", f"exit status {m['rc']}, but {ref[0]} when the input comes in one piece "
                                     f"({sc['pipe']}): {r.blobs['stderr'][-300:]!r}")
            elif r.blobs["stdout"] != ref[1]:
                o.bad("output", f"other output when the input comes in chunks of {sc['chunks'][:8]} ({sc['pipe']}): "
                                f"{diff(ref[1], r.blobs['stdout'])}")
            o.nontrivial = m["in_reads"] > ref[2]["in_reads"] or m["out_writes"] > ref[2]["out_writes"]
            if len(sc["chunks"]) and m["in_reads"] > ref[2]["in_reads"]:
                o.notes["fault:stdin_chunked"] = m["in_reads"] - ref[2]["in_reads"]
        o.key = r.hash

    def shrink(self, sc):
        yield from self.smaller_inputs(sc)
        if sc["out_max"]:
            yield dict(sc, out_max=0)
        if sc["chunks"] != [1]:
            yield dict(sc, chunks=[1])
            yield dict(sc, chunks=[1 << 20])


def diff(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return f"at byte {i} of {len(a)}/{len(b)}: {a[max(0, i - 20):i + 60]!r} became {b[max(0, i - 20):i + 60]!r}"


# -- P02 -------------------------------------------------------------------------------------------
class P02(PipeProp):
    ID = "P02"
    SWEEP = True
    RULE = ("one case: a pipeline or an information command whose standard output refuses everything after byte N with "
            "ENOSPC, EPIPE or EIO; non-trivial: the refusal happened")

    def gen(self, ctx, rng, tier):
        sc = info(rng, .12) or with_opts(rng, C.case(rng, zips=.03, heavy=False))
        sc["at"] = rng.random() if rng.random() < .8 else rng.choice([0.0, 1.0])
        sc["back"] = rng.choice([0, 0, 1, 2])
        sc["err"] = rng.choice([28, 28, 32, 5])
        sc["out_max"] = rng.choice([0, 0, 0, 1, 7, 100])
        return sc

    def execute(self, ctx, sc, o, decs):
        a = args_of(sc)
        ref = ctx.ref_main(a, sc["in"])
        if ref is None or ref[0] != 0 or not ref[1]:
            o.notes["no reference"] = 1
            return
        n = max(0, min(len(ref[1]), int(sc["at"] * len(ref[1]) + .5)) - sc["back"])
        r = ctx.run({"seed": 1, "lines": [main_line(a, sc["in"], out_fail_at=n, out_err=sc["err"],
                                                    out_max=sc["out_max"])]}, decs and decs[0])
        o.add(r)
        if judged(o, r):
            m = r.recs("M")[0]
            if n < len(ref[1]) and m["rc"] == 0:
                o.bad("success", f"exit status 0 although only {len(r.blobs['stdout'])} of {len(ref[1])} bytes of output "
                                 f"could be written ({sc['pipe'] or sc['args']})")
            if n >= len(ref[1]) and m["rc"] != 0 and not m["out_failed"]:
                o.bad("failure", f"exit status {m['rc']} although nothing failed ({sc['pipe']})")
            if not ref[1].startswith(r.blobs["stdout"]):
                o.bad("output", f"what was written is no prefix of the output ({sc['pipe'] or sc['args']}): "
                                f"{diff(ref[1], r.blobs['stdout'])}")
            o.nontrivial = bool(m["out_failed"])
        o.key = r.hash


# -- P03 -------------------------------------------------------------------------------------------
class P03(PipeProp):
    ID = "P03"
    SWEEP = True
    RULE = ("one case: a pipeline whose standard input fails with EIO, ENOMEM or ESTALE after byte N, in random chunks "
            "before it; non-trivial: the program met the error")

    def gen(self, ctx, rng, tier):
        sc = with_opts(rng, C.case(rng, docs=.45, zips=.06, heavy=False))
        sc["at"] = rng.random() if rng.random() < .8 else rng.choice([0.0, 1.0])
        sc["err"] = rng.choice([5, 5, 12, 116])
        sc["chunks"] = chunks_of(rng, len(sc["in"]) // 2) if rng.random() < .5 else []
        return sc

    def execute(self, ctx, sc, o, decs):
        a = args_of(sc)
        n = len(sc["in"]) // 2
        at = min(n, int(sc["at"] * (n + 1)))
        r = ctx.run({"seed": 1, "lines": [main_line(a, sc["in"], in_err_at=at, in_err=sc["err"], chunks=sc["chunks"])]},
                    decs and decs[0])
        o.add(r)
        if judged(o, r):
            m = r.recs("M")[0]
            hit = r.fired.get("read_err", 0) > 0
            if hit and m["rc"] == 0:
                o.bad("success", f"exit status 0 although reading the input failed after {at} of {n} bytes ({sc['pipe']} "
                                 f"{sc['opts']}); output {r.blobs['stdout'][:200]!r}")
            o.nontrivial = hit
        o.key = r.hash


# -- P04 -------------------------------------------------------------------------------------------
class P04(PipeProp):
    ID = "P04"
    SWEEP = False
    RULE = ("one case: a pipeline run with --line-by-line on 1-12 lines arriving in random chunks; each line is also run "
            "alone in a process of its own; non-trivial: at least three lines and at least two reads")

    def gen(self, ctx, rng, tier):
        while True:     # a model is trained on a text, not on its lines
            sc = C.case(rng, docs=0, lines=rng.randrange(1, 13), valid=.97, heavy=tier == "thorough")
            if "--train" not in sc["pipe"]:
                break
        sc["opts"], sc["pipe"] = [rng.choice(["--line-by-line", "-l"])], C.unit(sc["pipe"])
        b = bytes.fromhex(sc["in"])
        if rng.random() < .5:
            # one line at a time, as a terminal or a co-process delivers it
            sc["chunks"] = [len(x) + 1 for x in b.split(b"\n")]
            if sc["chunks"][-1] == 1:
                sc["chunks"].pop()
        else:
            sc["chunks"] = chunks_of(rng, len(b))
        return sc

    def execute(self, ctx, sc, o, decs):
        a = args_of(sc)
        b = bytes.fromhex(sc["in"])
        ls = b.split(b"\n")
        if not ls[-1]:
            ls.pop()
        refs = []
        for x in ls:
            f = ctx.ref_run(sc["pipe"], x.hex())
            if f is None:
                o.notes["no reference"] = 1
                return
            refs.append(f)
            if f[0] != "rc=0":
                break
        failing = bool(refs) and refs[-1][0] != "rc=0"
        good = [f[1] for f in refs if f[0] == "rc=0"]
        want = b"".join(good)
        r = ctx.run({"seed": 1, "bb_limit": REF_STEPS * (1 + len(ls)),
                     "lines": [main_line(a, sc["in"], chunks=sc["chunks"], progress=1)]}, decs and decs[0])
        o.add(r)
        if judged(o, r):
            m = r.recs("M")[0]
            got = r.blobs["stdout"]
            if failing:
                if m["rc"] == 0:
                    o.bad("status", f"exit status 0 although line {len(refs)} fails when run alone ({sc['pipe']})")
                if not got.startswith(want):
                    o.bad("output", f"the lines before the failing one came out differently ({sc['pipe']}): {diff(want, got)}")
            else:
                if m["rc"] != 0:
                    o.bad("status", f"exit status {m['rc']} although every line succeeds alone ({sc['pipe']}): "
                                    f"{r.blobs['stderr'][-200:]!r}")
                elif got != want:
                    o.bad("output", f"not what the lines give one by one ({sc['pipe']}): {diff(want, got)}")
            # whoever feeds the lines one by one sees the answer to each before having to send the next
            ends, p = [], 0
            for x in ls:
                p += len(x) + 1
                ends.append(p)
            for s in r.blobs["progress"].split():
                pos, size = map(int, s.split(b":"))
                k = sum(1 for e in ends if e <= pos and e <= len(b))
                need = sum(len(x) for x in good[:k])
                if pos < len(b) and size < need:
                    o.bad("withheld", f"asked for more input with {size} bytes of output out, {k} lines already read are "
                                      f"worth {need} ({sc['pipe']})")
                    break
            o.nontrivial = len(ls) >= 3 and m["in_reads"] >= 2
        o.key = r.hash


# -- P05 -------------------------------------------------------------------------------------------
class P05(PipeProp):
    ID = "P05"
    SWEEP = True
    RULE = ("one case: 2-7 runs of up to four pipelines in one process, on new or reused pipe runners, some of them hit by "
            "faults on data files or by failing allocations; non-trivial: at least one run followed another")

    def gen(self, ctx, rng, tier):
        cases = [C.case(rng, docs=.3, zips=.04, heavy=tier == "thorough") for _ in range(rng.randrange(1, 5))]
        while rng.random() < .45 and len(cases) < 5:
            # what is kept for one set of options must not serve another
            c = rng.choice(cases)
            cases.append(dict(c, pipe=C.variant(rng, c["pipe"])))
        steps, made = [], set()
        for _ in range(rng.randrange(2, 8)):
            c = rng.randrange(len(cases))
            k = rng.random()
            if k < .12:
                steps.append({"c": c, "how": "fault", "in": cases[c]["in"]})
            elif k < .2:
                steps.append({"c": c, "how": "oom", "in": cases[c]["in"], "at": rng.random()})
            elif k < .65:
                if rng.random() < .15 and c in made:
                    steps.append({"c": c, "how": "drop"})
                    made.discard(c)
                else:
                    made.add(c)
                    steps.append({"c": c, "how": "reuse", "in": cases[c]["in"]})
            else:
                steps.append({"c": c, "how": "new", "in": cases[c]["in"]})
            s = steps[-1]
            if "in" in s and rng.random() < .3 and "reader" not in cases[c]["pipe"].replace("txt-reader", ""):
                s["in"] = C.text(rng).hex()
        return {"seed": rng.getrandbits(40), "pipes": [c["pipe"] for c in cases], "steps": steps,
                "p": {"open_err": rng.choice([.02, .2]), "read_err": rng.choice([.01, .1]), "read_short": .2},
                "classes": R.C_DATA | R.C_LEX | R.C_TMP}

    def directed(self, ctx):
        # components one after another with different options, both ways round: those that name the same file of rules
        # or words first, then those of the same name
        rng, out, groups = random.Random("P05"), [], {}
        for mid, _ in C.TEXT:
            if mid.endswith("puddle --lang pl") or "--train" in mid:
                continue
            for part in mid.split(" ! "):
                words = part.split(" ")
                groups.setdefault((1, words[0]), []).append(mid)
                for w in words[1:]:
                    if w.startswith("lex/"):
                        groups.setdefault((0, w), []).append(mid)
        text = "Ala ma kota, a mały kot. Widzi psa, np. dużego; idzie.\n".encode().hex()
        for (kind, n), mids in sorted(groups.items()):
            mids = list(dict.fromkeys(mids))
            if kind == 0 and len(mids) < 2:
                continue
            for k in range(0, len(mids), 5):
                part = mids[k:k + 5]
                more = [C.variant(rng, m) for m in rng.sample(part, min(2, len(part)))]
                pipes = [C.join(m, "psi-writer") for m in dict.fromkeys(part + more)]
                for order in (1, -1):
                    out.append({"seed": 1, "pipes": pipes, "p": {}, "classes": R.C_DATA | R.C_LEX | R.C_TMP, "steps":
                                [{"c": c, "how": "new", "in": text} for c in range(len(pipes))][::order]})
        return out + super().directed(ctx)

    def execute(self, ctx, sc, o, decs):
        lines, plan, made = ["faults on=0"], [], set()
        for s in sc["steps"]:
            pipe = sc["pipes"][s["c"]]
            if s["how"] == "drop":
                lines.append("drop id=%d" % s["c"])
                made.discard(s["c"])
                continue
            ref = ctx.ref_run(pipe, s["in"])
            if ref is None:
                o.notes["no reference"] = o.notes.get("no reference", 0) + 1
                continue
            run = "run pipe=%s in=%s" % (hx(pipe), s["in"])
            if s["how"] == "fault":
                lines += ["faults on=1", run, "faults on=0"]
                plan.append((ref, s, True))
            elif s["how"] == "oom":
                at = 1 + int(s["at"] * ref[3])
                lines += ["oom at=%d len=1" % at, run]
                plan.append((ref, s, True))
            elif s["how"] == "reuse":
                if s["c"] not in made:
                    made.add(s["c"])
                    lines.append("runner id=%d pipe=%s" % (s["c"], hx(pipe)))
                    plan.append((None, s, False))
                lines.append("runon id=%d in=%s" % (s["c"], s["in"]))
                plan.append((ref, s, False))
            else:
                lines.append(run)
                plan.append((ref, s, False))
        r = ctx.run({"seed": sc["seed"], "p": sc["p"], "classes": sc["classes"], "lines": lines,
                     "bb_limit": REF_STEPS * (1 + len(plan))}, decs and decs[0])
        ctx.fresh()
        o.add(r)
        x = xs(r)
        if r.end() != "ok":
            # running out of memory may end the process, loudly
            if not (r.end() == "signal6" and r.done < len(plan) and plan[r.done][1]["how"] == "oom"):
                judged(o, r)
        for (ref, s, hurt), got in zip(plan, x):
            if ref is None:
                continue
            pipe = sc["pipes"][s["c"]]
            if ref[0] == "exception" and got[0] in ("exception", "norunner"):
                continue
            if hurt and got[0] == "exception":
                o.notes["failed runs in between"] = o.notes.get("failed runs in between", 0) + 1
                continue
            if hurt and ref[0] == "exception":
                continue
            if got[4]:
                o.bad("descriptors", f"{got[4]} files left open after a {s['how']} run of {pipe!r}")
            if got[0] != ref[0]:
                o.bad("status", f"{s['how']} run of {pipe!r} gave {got[0]} {got[1][:200]!r}, alone it gives {ref[0]}")
            elif got[1] != ref[1]:
                o.bad("output" if not hurt else "output-hurt",
                      f"{s['how']} run of {pipe!r} gave other output than alone in a new process: {diff(ref[1], got[1])}")
        o.nontrivial = len(x) >= 2
        o.key = r.hash

    def shrink(self, sc):
        for i in range(len(sc["steps"])):
            if len(sc["steps"]) > 1:
                yield dict(sc, steps=sc["steps"][:i] + sc["steps"][i + 1:])
        for i, s in enumerate(sc["steps"]):
            if "in" in s and len(s["in"]) > 4:
                for t in self.smaller_inputs(s):
                    yield dict(sc, steps=sc["steps"][:i] + [t] + sc["steps"][i + 1:])

    def sample(self, sc, o):
        return {"seed": sc["seed"], "pipes": sc["pipes"], "steps": [s["how"] for s in sc["steps"]]}


# -- P06 --------------------------------------------------------------------------------------------
LAST = (1, 2, 3, 5, 8, 12, 20, 35, 60, 100, 150, 220, 400)


class P06(PipeProp):
    ID = "P06"
    SWEEP = True
    RULE = ("one case: a pipeline during which opening and reading its data, rule and lexicon files, looking for them or listing "
            "their directories fails, or reads are short or interrupted; non-trivial: at least one such fault was injected")

    def gen(self, ctx, rng, tier):
        sc = info(rng, .06) or C.case(rng, docs=.2, heavy=tier == "thorough")
        sc["seed"] = rng.getrandbits(40)
        k = rng.random()
        if k < .4:
            p = {"open_err": rng.choice([.01, .05, .3])}
        elif k < .8:
            p = {"read_err": rng.choice([.002, .02, .2])}
        else:
            p = {"open_err": .02, "read_err": .02}
        p["read_short"] = rng.choice([0, .1, .5])
        p["read_eintr"] = rng.choice([0, 0, .05])
        sc["p"] = p
        k = rng.random()
        if k < .2:
            p.pop("open_err", 0), p.pop("read_err", 0)
            p["read_short"] = .5
        elif k < .36:
            # most of these calls are made when the toolkit looks for configurations, so one is aimed at
            p.update(open_err=0, read_err=0)
            p["stat_err" if k < .28 else "dir_err"] = 1.0
            sc["from"] = 1 - rng.random() ** 2 if rng.random() < .7 else rng.random()
        sc["max_faults"] = rng.choice([1, 1, 1, 2, 1000])
        return sc

    def directed(self, ctx):
        # the last listings of directories and the last looks for files, one failing each time
        out = super().directed(ctx)
        cases = [{"args": a, "pipe": "", "in": ""} for a in INFO_ARGS if len(a) > 1 or a[0] == "--processors"]
        cases += [{"pipe": p, "in": NO_LANG_TEXTS[0].encode().hex()} for p in NO_LANG]
        for c in cases:
            for last in range(1, 200, 4) if "tp-tokenizer" in c.get("args", ()) else LAST:
                for kind in ("dir_err", "stat_err"):
                    out.append(dict(c, seed=1, p={kind: 1.0}, last=last, max_faults=1))
        return out

    def execute(self, ctx, sc, o, decs):
        a = args_of(sc)
        ref = ctx.ref_main(a, sc["in"])
        if ref is None:
            o.notes["no reference"] = 1
            return
        pipe = sc["pipe"] or "read-text ! simple-writer"
        after = ctx.ref_run(pipe, sc["in"])
        plan = {"seed": sc["seed"], "p": sc["p"], "classes": R.C_DATA | R.C_LEX, "max_faults": sc["max_faults"],
                "lines": [main_line(a, sc["in"]), "faults on=0", "run pipe=%s in=%s" % (hx(pipe), sc["in"])]}
        if "from" in sc:
            plan["window"] = [int(sc["from"] * ref[2].get("ops", 0)), 1 << 40]
        elif "last" in sc:
            plan["window"] = [max(0, ref[2].get("ops", 0) - sc["last"]), 1 << 40]
        r = ctx.run(plan, decs and decs[0])
        o.add(r)
        if judged(o, r):
            m, x = r.recs("M")[0], xs(r)[0]
            o1, o2 = r.blobs["stdout"], x[1]
            if m["rc"] == 0 and ref[0] == 0 and o1 != ref[1]:
                o.bad("output", f"exit status 0 with other output after {r.faults[:4]} ({named(sc)}): {diff(ref[1], o1)}")
            if m["rc"] == 0 and ref[0] != 0 and m["faults"]:
                o.bad("success", f"exit status 0 although the undisturbed run fails ({named(sc)}; {r.faults[:4]})")
            # C streams take an interruption for an error, and saying so is as good as going on
            if m["rc"] != ref[0] and not m["faults"] and not r.fired.get("read_eintr"):
                o.bad("failure", f"exit status {m['rc']} although only short reads happened ({named(sc)})")
            # (a command line and a pipeline string need not be split into the same words)
            if after and (x[0] != after[0] or x[0] == "rc=0" and o2 != after[1]):
                o.bad("aftermath", f"after the faults ({r.faults[:4]}) stopped the same pipeline in the same process gives "
                                   f"{x[0]}, {diff(after[1], o2)} ({named(sc)})")
            o.nontrivial = sum(r.fired.get(k, 0) for k in ("open_err", "read_err", "read_short", "read_eintr", "stat_err",
                                                                "dir_err")) > 0
            if m["rc"] != 0:
                o.notes["runs that reported the fault"] = 1
        o.key = r.hash


# pipelines that leave the choice of the language, or of the processors, to the toolkit
NO_LANG = ["tokenize ! psi-writer", "segment ! psi-writer", "lang-guesser ! tokenize ! psi-writer", "tp-tokenizer ! psi-writer",
           "lang-guesser ! segment ! simple-writer --tags segment", "lang-guesser --force-language --langs pl,en ! psi-writer",
           "srx-segmenter ! psi-writer", "tokenize --lang de ! psi-writer", "segment --lang pl ! tokenize ! psi-writer",
           "parse ! psi-writer", "tag ! psi-writer"]
NO_LANG_TEXTS = ["Ala ma kota, a mały kot widzi psa. Pies też go widzi.\n", "The cat sat on the mat. He was a very old cat.\n", "12.5\n"]


# -- P07 ---------------------------------------------------------------------------------------------
class P07(PipeProp):
    ID = "P07"
    SWEEP = True
    TWIN = True
    RULE = ("one case: a pipeline run again with another heap layout, other contents of uninitialised heap memory and locals, directories listed in "
            "another order, another wall clock and short reads; non-trivial: at least one of these was changed")

    def gen(self, ctx, rng, tier):
        sc = info(rng, .03) or with_opts(rng, C.case(rng, docs=.35, zips=.05, heavy=rng.random() < .3))
        sc["seed"] = rng.getrandbits(40)
        sc["heap"] = [rng.getrandbits(30), rng.choice([0, 50, 1000, 20000])]
        sc["perturb"] = rng.choice([0, 1, 0x55, 0x80, 0xff, rng.randrange(256)])
        sc["twin"] = rng.random() < .5
        sc["dir"] = rng.getrandbits(30) if rng.random() < .6 else 0
        names = self.rules(sc)
        if names and rng.random() < .5:
            sc["edit"] = [rng.choice(names), rng.getrandbits(30)]
        sc["wall"] = rng.choice([0, 951782400, 1709210000, 4102444800, 2147483640, 1330560000 + rng.randrange(10 ** 8)])
        return sc

    def execute(self, ctx, sc, o, decs):
        a = args_of(sc)
        if "edit" in sc:
            q = ctx.wd.p("build/lex/" + sc["edit"][0])
            with open(q, "rb") as f:
                b = f.read()
            with open(q, "wb") as f:
                f.write(C.edited(b, sc["edit"][1]))
            try:
                self.compare(ctx, sc, o, decs, a, ctx.ref_main(a, sc["in"], tuple(sc["edit"])))
            finally:
                C.files(ctx.wd.p)
        else:
            self.compare(ctx, sc, o, decs, a, ctx.ref_main(a, sc["in"]))

    def directed(self, ctx):
        out = super().directed(ctx)
        seen = set()
        for sc in list(out):
            for n in self.rules(sc):
                if (n, sc["pipe"].split(" ! ")[0]) in seen:
                    continue
                seen.add((n, sc["pipe"].split(" ! ")[0]))
                with open(ctx.wd.p("build/lex/" + n), "rb") as f:
                    b = f.read()
                out += [dict(sc, edit=[n, e], twin=True) for e in C.edits(b, 5)]
        for a in INFO_ARGS:
            out += [{"args": a, "pipe": "", "in": "", "seed": 1, "heap": [1, 0], "perturb": 0, "wall": 0, "dir": d} for d in (1, 2, 3)]
        for pipe in NO_LANG:
            for text in NO_LANG_TEXTS:
                out += [{"pipe": pipe, "in": text.encode().hex(), "seed": 1, "heap": [1, 0], "perturb": 0, "wall": 0, "dir": d}
                        for d in (1, 2)]
        return out

    @staticmethod
    def rules(sc):
        return sorted(set(re.findall(r"lex/([a-z]+\.(?:srx|g|txt|pud))\b", args_of(sc))))

    def compare(self, ctx, sc, o, decs, a, ref):
        if ref is None:
            o.notes["no reference"] = 1
            return
        plan = {"seed": sc["seed"], "perturb": sc["perturb"], "dir_order": sc.get("dir", 0), "lines":
                ["heap seed=%d n=%d" % tuple(sc["heap"]), main_line(a, sc["in"])]}
        if sc["wall"]:
            plan["wall"] = sc["wall"] * 1000000
        r = ctx.run(plan, decs and decs[0], sc.get("twin", False))
        o.add(r)
        if judged(o, r):
            m = r.recs("M")[0]
            if m["rc"] != ref[0]:
                o.bad("status", f"exit status {m['rc']} instead of {ref[0]} ({named(sc)})")
            elif r.blobs["stdout"] != ref[1]:
                o.bad("output", f"other output with another heap layout, uninitialised memory or clock ({named(sc)}): "
                                f"{diff(ref[1], r.blobs['stdout'])}")
            o.nontrivial = sc["heap"][1] > 0 or sc["perturb"] > 0 or sc.get("twin", False) or sc.get("dir", 0) > 0
            if sc.get("dir"):
                o.notes["fault:directory_order"] = 1
            o.notes["fault:heap_layout"] = 1
            if sc.get("twin"):
                o.notes["fault:other_uninitialised_locals"] = 1
        o.key = (r.hash, sc["heap"][0], sc["perturb"], sc.get("dir", 0), sc.get("edit", [0])[-1])

    def shrink(self, sc):
        yield from self.smaller_inputs(sc)
        if sc["heap"][1]:
            yield dict(sc, heap=[sc["heap"][0], 0])
        if sc["perturb"]:
            yield dict(sc, perturb=0)
        if sc.get("twin"):
            yield dict(sc, twin=False)
        if sc.get("dir"):
            yield dict(sc, dir=0)
        if sc["wall"]:
            yield dict(sc, wall=0)


# -- P08 -----------------------------------------------------------------------------------------------
class P08(PipeProp):
    ID = "P08"
    SWEEP = True
    RULE = ("one case: a pipeline run five times, during which the N-th allocation, some or all later ones fail; non-trivial: an "
            "allocation failed")

    def gen(self, ctx, rng, tier):
        sc = info(rng, .04) or with_opts(rng, C.case(rng, docs=.35, zips=.05, heavy=False))
        # most allocations belong to the preparation of the pipeline: its work comes last
        sc["cases"] = [[rng.random() if rng.random() < .2 else 1 - rng.random() ** 2 * .5,
                        rng.choice([1, 1, 1, 2, 10, 10 ** 9, 10 ** 9, 10 ** 9])] for _ in range(5)]
        return sc

    def directed(self, ctx):
        out = super().directed(ctx)
        for sc in out:
            # memory that ends for good, all along the work
            sc["cases"] = [[1 - k / 24 * .15, 10 ** 9] for k in range(1, 24)] + sc["cases"]
        return out

    def shrink(self, sc):
        if len(sc["cases"]) > 1:
            for c in sc["cases"]:
                yield dict(sc, cases=[c])
        yield from super().shrink(sc)

    def execute(self, ctx, sc, o, decs):
        a = args_of(sc)
        ref = ctx.ref_main(a, sc["in"])
        if ref is None:
            o.notes["no reference"] = 1
            return
        for i, (at, length) in enumerate(sc["cases"]):
            at = 1 + int(at * ref[2]["allocs"])
            ctx.tidy()
            r = ctx.run({"seed": 1, "lines": ["oom at=%d len=%d" % (at, length), main_line(a, sc["in"])]},
                        decs and i < len(decs) and decs[i] or None)
            o.add(r)
            o.nontrivial = o.nontrivial or r.fired.get("alloc_fail", 0) > 0
            # std::terminate() is an abnormal end the caller sees
            if r.end() != "signal6" and judged(o, r):
                m = r.recs("M")[0]
                if m["rc"] == 0 and r.blobs["stdout"] != ref[1] and ref[0] == 0:
                    o.bad("output", f"exit status 0 with other output when allocation {at} failed ({named(sc)}): "
                                    f"{diff(ref[1], r.blobs['stdout'])}")
                if m["rc"] == 0 and ref[0] != 0:
                    o.bad("success", f"exit status 0 although the undisturbed run fails ({named(sc)})")
        o.key = tuple(o.hashes)


# -- F01 ------------------------------------------------------------------------------------------------
class F01(PipeProp):
    ID = "F01"
    SWEEP = True
    RULE = ("one case: PipeRunner runs from an input file to an output file while opening, reading, writing and closing "
            "them fails, is short or is interrupted, or the disk is full; non-trivial: a fault was injected")

    def gen(self, ctx, rng, tier):
        sc = C.case(rng, docs=.4, zips=.05, heavy=False)
        if rng.random() < .12:
            sc["pipe"] = "--line-by-line " + C.unit(sc["pipe"])
        if rng.random() < .1:
            sc["in"] = (bytes.fromhex(sc["in"]) * 40)[:30000].hex()
        sc["seed"] = rng.getrandbits(40)
        k = rng.random()
        p = {"read_short": rng.choice([0, .3]), "write_short": rng.choice([0, .3]), "read_eintr": rng.choice([0, 0, .1]),
             "write_eintr": rng.choice([0, 0, .1])}
        if k < .2:
            p["open_err"] = .5
        elif k < .45:
            p["read_err"] = .3
        elif k < .7:
            p["write_err"] = .4
        elif k < .8:
            p["close_err"] = 1.0
        elif k < .9:
            sc["full"] = [rng.randrange(0, 8), 1000]
        sc["p"] = p
        # what stood there before
        sc["old"] = rng.choice([None, b"old output, much longer than most new ones\n" * 50]) is not None
        return sc

    def execute(self, ctx, sc, o, decs):
        ref = ctx.ref_run(sc["pipe"], sc["in"])
        if ref is None:
            o.notes["no reference"] = 1
            return
        q = ctx.wd.p("build/io/in.txt")
        with open(q, "wb") as f:
            f.write(bytes.fromhex(sc["in"]))
        out = ctx.wd.p("build/io/out.txt")
        if sc["old"]:
            with open(out, "wb") as f:
                f.write(b"old output\n" * 900)
        plan = {"seed": sc["seed"], "p": sc["p"], "classes": R.C_INOUT,
                "lines": ["file pipe=%s in=%s out=%s" % (hx(sc["pipe"]), hx("io/in.txt"), hx("io/out.txt"))]}
        if "full" in sc:
            plan["full"] = sc["full"]
        r = ctx.run(plan, decs and decs[0])
        o.add(r)
        got = None
        if os.path.exists(out):
            with open(out, "rb") as f:
                got = f.read()
        for e in ("in.txt", "out.txt"):
            if os.path.exists(ctx.wd.p("build/io", e)):
                os.unlink(ctx.wd.p("build/io", e))
        if judged(o, r):
            x = xs(r)[0]
            if x[0] == "rc=0":
                if ref[0] != "rc=0":
                    o.bad("success", f"success although the same pipeline fails on a string ({sc['pipe']})")
                elif got != ref[1]:
                    o.bad("output", f"success, but the output file is not the output after {r.faults[:4]} ({sc['pipe']}): "
                                    f"{'missing' if got is None else diff(ref[1], got)}")
            elif not x[2] and ref[0] == "rc=0":
                o.bad("failure", f"{x[0]} {x[1][:200]!r} although nothing failed ({sc['pipe']})")
            if x[4]:
                o.bad("descriptors", f"{x[4]} files left open after the run ({sc['pipe']})")
            o.nontrivial = sum(r.fired.get(k, 0) for k in R.FAULT_KINDS) > 0 or x[2] > 0
        o.key = r.hash


# -- P10 --------------------------------------------------------------------------------------------
class P10(PipeProp):
    ID = "P10"
    RULE = ("one case: a pipeline run with a log level and a log file or the error output, while opening or writing the log fails, is "
            "short or interrupted, or the disk is full; non-trivial: something was logged or could not be")

    def gen(self, ctx, rng, tier):
        sc = with_opts(rng, C.case(rng, docs=.15, zips=.02))
        if "--log-level" in sc["opts"]:
            sc["opts"] = []
        sc["seed"] = rng.getrandbits(40)
        log = []
        if rng.random() < .85:
            log += ["--log-level", rng.choice(["INFO", "DEBUG", "DEBUG", "TRACE", "WARN", "FATAL", "NOTSET", "LOUD", "ERROR"])]
        if rng.random() < .7:
            log += ["--log-file", rng.choice(["log/a.log"] * 5 + ["log/none/a.log", "log", "log/" + "x" * 300])]
        sc["log"] = log
        p = {}
        k = rng.random()
        if k < .25:
            p["open_err"] = 1.0
        elif k < .6:
            p["write_err"] = rng.choice([.01, .2, 1.0])
        if rng.random() < .5:
            p["write_short"] = rng.choice([.1, .9])
        if rng.random() < .3:
            p["write_eintr"] = .1
        sc["p"] = p
        if rng.random() < .2:
            sc["full"] = [rng.randrange(1, 30), rng.choice([5, 100000])]
        if "--log-file" not in log and rng.random() < .6 or rng.random() < .1:
            sc["err_fail"] = [rng.choice([0, 1, 10, 100, 1000]), rng.choice([28, 32, 5])]
        return sc

    def execute(self, ctx, sc, o, decs):
        ref = ctx.ref_main(args_of(sc), sc["in"])
        if ref is None:
            o.notes["no reference"] = 1
            return
        a = args_of(dict(sc, opts=sc["log"] + sc["opts"]))
        kw = {"err_fail_at": sc["err_fail"][0], "err_err": sc["err_fail"][1]} if "err_fail" in sc else {}
        plan = {"seed": sc["seed"], "p": sc["p"], "classes": R.C_LOG, "max_faults": 1000000,
                "lines": ["faults on=1", main_line(a, sc["in"], **kw)]}
        if "full" in sc:
            plan["full"] = sc["full"]
        r = ctx.run(plan, decs and decs[0])
        o.add(r)
        if judged(o, r):
            m = r.recs("M")[0]
            how = f"({named(sc)} with {' '.join(sc['log'])}; {r.faults[:3]})"
            if m["rc"] != ref[0]:
                o.bad("status", f"exit status {m['rc']}, without logging {ref[0]} {how}: {r.blobs['stderr'][-150:]!r}")
            elif r.blobs["stdout"] != ref[1]:
                o.bad("output", f"other output than without logging {how}: {diff(ref[1], r.blobs['stdout'])}")
            o.nontrivial = len(r.blobs["stderr"]) > 0 or bool(r.faults) or "--log-file" in sc["log"]
        o.key = (r.hash, tuple(sc["log"]))

    def shrink(self, sc):
        yield from self.smaller_inputs(sc)
        for k in ("full", "err_fail"):
            if k in sc:
                yield {x: y for x, y in sc.items() if x != k}
        if len(sc["log"]) > 2:
            yield dict(sc, log=sc["log"][:2])
            yield dict(sc, log=sc["log"][2:])


ALL = [P01, P02, P03, P04, P05, P06, P07, P08, P10, F01]
