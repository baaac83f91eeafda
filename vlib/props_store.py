"""Properties of what psi-pipe keeps on disk or meets on it: damaged documents, binary lexicons, temporary files, logs."""
import os
import re

from . import corpus as C
from . import runner as R
from .props_pipe import PipeProp, diff, hx, judged, main_line, xs


# -- P09 -------------------------------------------------------------------------------------------
TOKENS = [b"0", b"-1", b"9999", b"*", b"[", b"]", b"\n", b"<", b">", b"\\", b"\xff", b"\xc5", b"\0", b",", b"=", b"{", b"}",
          b"(", b")", b"!", b";", b":", b"&", b"&#", b"</", b"\"", b"'", b"PK", b"#", b"\t", b"    "]


def torn(rng, b):
    """What an interrupted copy, a bad block or a bad editor leaves of a file."""
    if rng.random() < .3:
        return b[:rng.randrange(len(b) + 1)], "cut"
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        n = len(b)
        if not n:
            break
        a = rng.randrange(n)
        z = min(n, a + rng.choice([1, 1, 2, 5, 20, 100, 512]))
        m = rng.randrange(8)
        if m == 0:
            b = b[:a] + bytes([b[a] ^ 1 << rng.randrange(8)]) + b[a + 1:]
        elif m == 1:
            b = b[:a] + b[z:]
        elif m == 2:
            b = b[:z] + b[a:z] + b[z:]
        elif m == 3:
            k = rng.randrange(n)
            b = b[:a] + b[k:k + z - a] + b[a:]
        elif m == 4:
            b = b[:a] + rng.choice(TOKENS) + b[a:]
        elif m == 5:
            ls = b.split(b"\n")
            x, y = rng.randrange(len(ls)), rng.randrange(len(ls))
            ls[x], ls[y] = ls[y], ls[x]
            b = b"\n".join(ls)
        elif m == 6:
            b = b[:a] + b"\0" * (z - a) + b[z:]
        else:
            b = b[:a] + bytes([rng.randrange(256)]) + b[a + 1:]
    return b, "damaged"


NUM = re.compile(rb"\d{5,}")


class P09(PipeProp):
    ID = "P09"
    RULE = ("one case: a document cut at a byte or damaged (bit flips, lost, doubled, moved or zeroed blocks, swapped lines), "
            "read by its reader into a writer, then an intact document in the same process; non-trivial: the damage "
            "changed the document")
    MORE = ["documents whose damage creates numbers of five digits and more are left out: positions far beyond the text "
            "make the readers slow in proportion"]

    def gen(self, ctx, rng, tier):
        while True:
            if rng.random() < .15:
                r, f = rng.choice(C.ZIPS)
                ws, fs = ["simple-writer --tags frag"], [f]
            else:
                r, fs, ws, _ = C.pick(rng, C.DOCS)
            f = rng.choice(fs)
            b = C.doc(f)
            t, kind = torn(rng, b)
            if f in [z for _, z in C.ZIPS] or set(NUM.findall(t)) <= set(NUM.findall(b)):
                break
        return {"pipe": C.join(r, rng.choice(ws)), "in": t.hex(), "kind": kind, "doc": f,
                "then": C.doc(rng.choice(fs)).hex(), "reuse": rng.random() < .4}

    def execute(self, ctx, sc, o, decs):
        ref = ctx.ref_run(sc["pipe"], sc["then"])
        if ref is None:
            o.notes["no reference"] = 1
            return
        p = hx(sc["pipe"])
        if sc["reuse"]:
            lines = ["runner id=0 pipe=" + p, "runon id=0 in=" + sc["in"], "runon id=0 in=" + sc["then"]]
        else:
            lines = ["run pipe=%s in=%s" % (p, sc["in"]), "run pipe=%s in=%s" % (p, sc["then"])]
        r = ctx.run({"seed": 1, "lines": lines}, decs and decs[0])
        o.add(r)
        if ".docx" in sc["doc"] or ".pptx" in sc["doc"] or ".xlsx" in sc["doc"]:
            ctx.fresh()
        if judged(o, r):
            x = xs(r)
            if x[-1][:2] != ref[:2]:
                o.bad("aftermath", f"after a {sc['kind']} {sc['doc']} an intact document gives {x[-1][0]}, "
                                   f"{diff(ref[1], x[-1][1])} ({sc['pipe']})")
            if x[-1][4]:
                o.bad("descriptors", f"{x[-1][4]} files left open ({sc['pipe']}, {sc['kind']} {sc['doc']})")
            o.notes["fault:document_" + sc["kind"]] = 1
            o.notes["documents refused"] = int(x[-2][0] == "exception")
            o.nontrivial = sc["in"] != C.doc(sc["doc"]).hex()
        o.key = hash(sc["in"] + sc["pipe"])


# -- L01, L02: binary lexicons; L03: tagger models -----------------------------------------------------
TOK = "tp-tokenizer --lang pl ! "


def kinds():
    lem = lambda a, b="": "lamerlemma --lang pl " + a
    return {
        "lamerlemma": (TOK + "lamerlemma --lang pl %s ! simple-writer --tags lexeme", "lem", C.LEM),
        "bilexicon": (TOK + C.LL + " ! bilexicon --lang pl --trg-lang en %s ! simple-writer --tags !translation", "bi", C.BI),
        "mapper": (TOK + "mapper --lang pl --in-tags token --out-tags fake-translation --consider-text "
                   "--unknown-clone-attributes --unknown-clone-text %s ! simple-writer --tags fake-translation", "map", C.MAP),
    }


KINDS = kinds()


def sublex(rng, kind):
    """A lexicon made of some of the lines of the small one, and a few of its own."""
    ls = KINDS[kind][2].splitlines()
    k = rng.randrange(1, len(ls) + 1)
    out = sorted(rng.sample(range(len(ls)), k))
    ls = [ls[i] for i in out]
    for i in range(rng.choice([0, 0, 1, 5, 30, 150])):
        w = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.randrange(2, 9)))
        ls.append({"lamerlemma": "%s\t%s\tsubst\tcase=nom" % (w, w[::-1]), "bilexicon": "%s+subst %s+subst" % (w, w[::-1]),
                   "mapper": "%s %s" % (w, w[::-1])}[kind])
    # equal keys stand together, as the readers of plain lexicons want it
    seen = {}
    for x in ls:
        seen.setdefault(x.split()[0], []).append(x)
    return "\n".join("\n".join(v) for v in seen.values()) + "\n"


def words_of(lex, rng):
    ws = [re.split(r"[\s+]", x)[0] for x in lex.splitlines()]
    return ws


TEXT_IN = "Ala ala ma kota i psa w domu. Kot, pies! dobry komputer żółty; Żółty kot widzi"


class LexProp(PipeProp):
    def write(self, ctx, name, text):
        with open(ctx.wd.p("build/lex", name), "wb") as f:
            f.write(text.encode())

    def plain(self, sc, name):
        return KINDS[sc["kind"]][0] % ("--plain-text-lexicon lex/%s" % name)

    def saving(self, sc, name):
        return KINDS[sc["kind"]][0] % ("--plain-text-lexicon lex/%s --save-binary-lexicon lex/x.bin" % name)

    def loading(self, sc):
        return KINDS[sc["kind"]][0] % "--binary-lexicon lex/x.bin"

    def once(self, ctx, pipe, inp, plan=None, decs=None):
        p = {"seed": 1, "lines": ["run pipe=%s in=%s" % (hx(pipe), inp)]}
        p.update(plan or {})
        r = ctx.run(p, decs)
        x = xs(r)
        return r, (x[0] if x else None)

    def cached(self, ctx, sc, name):
        """What this lexicon's plain text gives; the directory holds it under the name."""
        k = ("lex", sc["kind"], sc[name], sc["in"])
        if k not in ctx.refs:
            r, x = self.once(ctx, self.plain(sc, name), sc["in"])
            ctx.keep(k, x[:2] if r.end() == "ok" and x else None)
        return ctx.refs[k]


class L01(LexProp):
    ID = "L01"
    RULE = ("one case: a binary lexicon saved over an older one (or none) while the process dies at a disk operation or "
            "opening, writing, closing or renaming fails; then it is loaded, saved again and loaded again; non-trivial: a "
            "fault or crash hit the save")

    def gen(self, ctx, rng, tier):
        kind = rng.choice(sorted(KINDS))
        sc = {"kind": kind, "a": sublex(rng, kind), "b": sublex(rng, kind), "old": rng.random() < .75, "again": rng.random() < .4,
              "seed": rng.getrandbits(40), "p": {"write_short": rng.choice([0, 0, .3]), "write_eintr": 0}}
        ws = words_of(sc["a"] + sc["b"], rng)
        sc["in"] = (TEXT_IN + " " + " ".join(rng.choice(ws) for _ in range(12))).encode().hex()
        k = rng.random()
        if k < .45:
            sc["crash"] = rng.random()
        elif k < .6:
            sc["full"] = rng.random()
            sc["len"] = rng.choice([1, 3, 1000])
        elif k < .75:
            sc["p"]["write_err"] = rng.choice([.02, .2, 1.0])
        elif k < .83:
            sc["p"]["close_err"] = 1.0
        elif k < .91:
            sc["p"]["meta_err"] = rng.choice([.3, 1.0])
        else:
            sc["p"]["open_err"] = .5
        return sc

    def execute(self, ctx, sc, o, decs):
        ctx.fresh()
        self.write(ctx, "a", sc["a"])
        self.write(ctx, "b", sc["b"])
        ref = {n: self.cached(ctx, sc, n) for n in "ab"}
        if not ref["a"] or not ref["b"] or ref["a"][0] != "rc=0" or ref["b"][0] != "rc=0":
            o.notes["no reference"] = 1
            return
        if sc["old"]:
            r, x = self.once(ctx, self.saving(sc, "a"), sc["in"])
            if not x or x[0] != "rc=0" or x[1] != ref["a"][1]:
                o.add(r)
                o.bad("clean-save", f"saving a {sc['kind']} lexicon undisturbed: {r.end()} {x and x[0]} {x and x[1][:200]!r}")
                return
        line = ["faults on=1", "crashable", "run pipe=%s in=%s" % (hx(self.saving(sc, "b")), sc["in"])]
        plan = {"seed": sc["seed"], "p": sc["p"], "classes": R.C_LEX, "lines": line}
        if "crash" in sc or "full" in sc:
            # how many disk operations the save makes; done on a copy
            keep = None
            q = ctx.wd.p("build/lex/x.bin")
            if os.path.exists(q):
                with open(q, "rb") as f:
                    keep = f.read()
            k = ("ops", sc["kind"], sc["b"])
            if k not in ctx.refs:
                r = ctx.run({"seed": 1, "lines": line, "classes": R.C_LEX})
                s = r.recs("S")
                ctx.keep(k, (s[0]["w0"], s[0]["w1"]) if s else (1, 40))
            w0, w1 = ctx.refs[k]
            if keep is None:
                if os.path.exists(q):
                    os.unlink(q)
            else:
                with open(q, "wb") as f:
                    f.write(keep)
            if "crash" in sc:
                plan["crash_at"] = w0 - 1 + int(sc["crash"] * (w1 - w0 + 3))
            else:
                plan["full"] = [w0 + int(sc["full"] * (w1 - w0 + 1)), sc["len"]]
        r = ctx.run(plan, decs and decs[0])
        o.add(r)
        x = xs(r)
        done = bool(x) and x[0][0] == "rc=0"
        crashed = r.end() == "crashed"
        if not crashed and not judged(o, r):
            return
        hit = crashed or r.faults or r.probes.get("fault.write_short", 0) > 0
        if done and x[0][1] != ref["b"][1]:
            o.bad("output", f"the saving run reported success with other output after {r.faults[:3]} ({sc['kind']}): "
                            f"{diff(ref['b'][1], x[0][1])}")
        if not hit and not done:
            o.bad("failure", f"saving failed although nothing happened: {x[0][0]} {x[0][1][:200]!r} ({sc['kind']})")
        if not crashed and x and x[0][4]:
            o.bad("descriptors", f"{x[0][4]} files left open after the save ({sc['kind']}, {r.faults[:3]})")
        what = "crash" if crashed else str(r.faults[:3])
        r2, y = self.once(ctx, self.loading(sc), sc["in"])
        o.add(r2)
        if r2.end() != "ok" or not y:
            o.bad("load-died", f"loading the lexicon after {what} during its save: {r2.end()} ({sc['kind']})")
        else:
            good = []
            if done:
                good = ["b"]
            elif sc["old"]:
                good = ["a", "b"]
            else:
                good = ["b"]
            if y[0] == "rc=0":
                if not any(y[1] == ref[n][1] for n in good):
                    o.bad("torn", f"after {what} during the save the lexicon loads but answers neither as the old nor as the "
                                  f"new one ({sc['kind']}): {diff(ref['b'][1], y[1])}")
            elif done:
                o.bad("lost", f"the save reported success ({what}), but loading fails: {y[1][:200]!r} ({sc['kind']})")
            elif sc["old"]:
                o.bad("old-lost", f"after {what} during the save neither the old nor the new lexicon can be loaded: "
                                  f"{y[1][:200]!r} ({sc['kind']})")
        # whatever was left lying about, the next save works
        if not sc["again"]:
            o.nontrivial, o.key = bool(hit), tuple(o.hashes)
            return
        r3, z = self.once(ctx, self.saving(sc, "b"), sc["in"])
        r4, w = self.once(ctx, self.loading(sc), sc["in"])
        o.add(r3)
        o.add(r4)
        if not z or z[0] != "rc=0" or not w or w[0] != "rc=0" or w[1] != ref["b"][1]:
            o.bad("no-recovery", f"after {what} a new save and load give {z and z[0]}, {w and w[0]} {w and w[1][:200]!r} "
                                 f"({sc['kind']})")
        o.nontrivial = bool(hit)
        if crashed:
            o.notes["fault:crash_during_save"] = 1
        o.key = tuple(o.hashes)

    def shrink(self, sc):
        for n in "ab":
            ls = sc[n].splitlines()
            if len(ls) > 2:
                yield dict(sc, **{n: "\n".join(ls[:len(ls) // 2]) + "\n"})
                yield dict(sc, **{n: "\n".join(ls[len(ls) // 2:]) + "\n"})


class L02(LexProp):
    ID = "L02"
    RULE = ("one case: a binary lexicon cut at a byte, or with read errors, short or interrupted reads or failing opens while it "
            "is loaded; then it is loaded undisturbed; non-trivial: the file was cut or a fault hit the load")

    def gen(self, ctx, rng, tier):
        kind = rng.choice(sorted(KINDS))
        sc = {"kind": kind, "a": sublex(rng, kind), "seed": rng.getrandbits(40)}
        ws = words_of(sc["a"], rng)
        sc["in"] = (TEXT_IN + " " + " ".join(rng.choice(ws) for _ in range(12))).encode().hex()
        if rng.random() < .5:
            sc["cut"] = rng.random() if rng.random() < .7 else rng.choice([0.0, .9999, .5])
            sc["back"] = rng.choice([0, 1, 4, 8]) if rng.random() < .4 else 0
        else:
            sc["p"] = {"read_short": rng.choice([0, .3, .8])}
            k = rng.random()
            if k < .5:
                sc["p"]["read_err"] = rng.choice([.05, .3])
            elif k < .8:
                sc["p"]["open_err"] = .4
        return sc

    def execute(self, ctx, sc, o, decs):
        ctx.fresh()
        self.write(ctx, "a", sc["a"])
        ref = self.cached(ctx, sc, "a")
        if not ref or ref[0] != "rc=0":
            o.notes["no reference"] = 1
            return
        k = ("bin", sc["kind"], sc["a"])
        q = ctx.wd.p("build/lex/x.bin")
        if k not in ctx.refs:
            r, x = self.once(ctx, self.saving(sc, "a"), sc["in"])
            if not x or x[0] != "rc=0":
                o.add(r)
                o.bad("clean-save", f"saving a {sc['kind']} lexicon undisturbed: {r.end()} {x and x[0]}")
                return
            with open(q, "rb") as f:
                ctx.keep(k, f.read())
        b = ctx.refs[k]
        n = len(b)
        if "cut" in sc:
            n = max(0, min(len(b), int(sc["cut"] * (len(b) + 1))) - sc["back"])
        with open(q, "wb") as f:
            f.write(b[:n])
        r, x = self.once(ctx, self.loading(sc), sc["in"],
                         {"seed": sc["seed"], "p": sc.get("p", {}), "classes": R.C_LEX}, decs and decs[0])
        o.add(r)
        if not judged(o, r):
            return
        what = f"{n} of {len(b)} bytes" if n < len(b) else str(r.faults[:3])
        if x[0] == "rc=0" and x[1] != ref[1]:
            o.bad("wrong", f"a {sc['kind']} lexicon with {what} loads and gives other answers: {diff(ref[1], x[1])}")
        if x[0] != "rc=0" and n == len(b) and not r.faults:
            o.bad("failure", f"loading failed although only short reads happened: {x[1][:200]!r} ({sc['kind']})")
        if x[4]:
            o.bad("descriptors", f"{x[4]} files left open after loading ({sc['kind']}, {what})")
        if n < len(b):
            with open(q, "wb") as f:
                f.write(b)
            o.notes["fault:lexicon_cut"] = 1
        r2, y = self.once(ctx, self.loading(sc), sc["in"])
        o.add(r2)
        if not y or y[:2] != ref[:2]:
            o.bad("clean-load", f"loading the complete lexicon: {r2.end()} {y and y[0]} ({sc['kind']}): "
                                f"{diff(ref[1], y[1]) if y else ''}")
        o.nontrivial = n < len(b) or bool(r.faults) or r.probes.get("fault.read_short", 0) > 0
        o.key = (tuple(o.hashes), n)

    def shrink(self, sc):
        ls = sc["a"].splitlines()
        if len(ls) > 2:
            yield dict(sc, a="\n".join(ls[:len(ls) // 2]) + "\n")
            yield dict(sc, a="\n".join(ls[len(ls) // 2:]) + "\n")


class L03(PipeProp):
    ID = "L03"
    RULE = ("one case: a tagger model saved over an older one (or none) while the process dies at a disk operation or opening, "
            "writing, closing or renaming fails, or a saved model cut at a byte or loaded while opening and reading fail; then "
            "the model is loaded undisturbed; non-trivial: a fault, crash or cut hit the save or the load")
    WORDS = [x.split("\t")[0] for x in C.LEM.splitlines()] + [".", ",", "Ala", "nic", "x", "7", "ZUS"]

    def text(self, rng):
        return " ".join(rng.choice(self.WORDS) for _ in range(rng.choice([4, 8, 15, 30, 60])))

    def gen(self, ctx, rng, tier):
        sc = {"tool": rng.choice(["metagger", "inflector"]), "text": rng.random() < .4, "old": rng.random() < .75,
              "a": self.text(rng), "b": self.text(rng), "in": self.text(rng).encode().hex(), "seed": rng.getrandbits(40),
              "it": rng.choice([1, 3]), "p": {"write_short": rng.choice([0, 0, .3]), "write_eintr": 0}}
        k = rng.random()
        if k < .3:
            sc["crash"] = rng.random()
        elif k < .42:
            sc["full"], sc["len"] = rng.random(), rng.choice([1, 3, 1000])
        elif k < .5:
            sc["p"]["write_err"] = rng.choice([.02, .2, 1.0])
        elif k < .55:
            sc["p"]["close_err"] = 1.0
        elif k < .6:
            sc["p"]["meta_err"] = rng.choice([.3, 1.0])
        elif k < .65:
            sc["p"]["open_err"] = .5
        elif k < .85:
            sc["cut"] = rng.random() if rng.random() < .6 else rng.choice([0.0, .9999, .5])
            sc["back"] = rng.choice([0, 1, 2, 4, 8])
        else:
            sc["read"] = 1
            sc["p"] = rng.choice([{"read_err": .3}, {"read_err": .05, "read_short": .5}, {"open_err": .4}, {"read_short": .8}])
        return sc

    def train(self, sc, name):
        return ("run pipe=%s in=%s" % (hx(TOK + C.LL + " ! %s --lang pl --model lex/x.mod --train --iterations %d%s ! simple-writer"
                                         % (sc["tool"], sc["it"], " --save-text-model-files" if sc["text"] else "")),
                                      sc[name].encode().hex()))

    def load(self, sc):
        return "run pipe=%s in=%s" % (hx(TOK + C.LL + " ! %s --lang pl --model lex/x.mod ! psi-writer" % sc["tool"]),
                                      sc["in"])

    def get(self, ctx):
        q = ctx.wd.p("build/lex/x.mod")
        if not os.path.exists(q):
            return None
        with open(q, "rb") as f:
            return f.read()

    def put(self, ctx, b):
        q = ctx.wd.p("build/lex/x.mod")
        if b is not None:
            with open(q, "wb") as f:
                f.write(b)
        elif os.path.exists(q):
            os.unlink(q)

    def saved(self, ctx, sc, name):
        """The model trained on this text undisturbed, what training prints, and the disk operations it takes."""
        k = ("model", sc["tool"], sc["text"], sc["it"], sc[name])
        if k not in ctx.refs:
            self.put(ctx, None)
            r = ctx.run({"seed": 1, "lines": ["faults on=1", "crashable", self.train(sc, name)], "classes": R.C_LEX})
            x, s = xs(r), r.recs("S")
            ok = r.end() == "ok" and x and x[0][0] == "rc=0"
            ctx.keep(k, (self.get(ctx), x[0][1], s[0]["w0"], s[0]["w1"]) if ok else None)
        return ctx.refs[k]

    def tags(self, ctx, sc, name):
        k = ("tags", sc["tool"], sc["text"], sc["it"], sc[name], sc["in"])
        if k not in ctx.refs:
            self.put(ctx, self.saved(ctx, sc, name)[0])
            r = ctx.run({"seed": 1, "lines": [self.load(sc)]})
            x = xs(r)
            ctx.keep(k, x[0][1] if r.end() == "ok" and x and x[0][0] == "rc=0" else None)
        return ctx.refs[k]

    def execute(self, ctx, sc, o, decs):
        ctx.fresh()
        ref = {n: self.saved(ctx, sc, n) for n in "ab"}
        if not ref["a"] or not ref["b"]:
            o.notes["no reference"] = 1
            return
        tags = {n: self.tags(ctx, sc, n) for n in "ab"}
        kind = sc["tool"] + (" text" if sc["text"] else " binary")
        if ref["a"][0] is None or ref["b"][0] is None or tags["a"] is None or tags["b"] is None:
            o.bad("clean", f"saving and loading a {kind} model undisturbed fails")
            return
        plan = {"seed": sc["seed"], "p": sc["p"], "classes": R.C_LEX}
        if "cut" in sc or "read" in sc:
            m = ref["b"][0]
            n = max(0, min(len(m), int(sc["cut"] * (len(m) + 1))) - sc["back"]) if "cut" in sc else len(m)
            self.put(ctx, m[:n])
            if "cut" in sc:
                plan = {"seed": 1}
            r = ctx.run(dict(plan, lines=[self.load(sc)]), decs and decs[0])
            o.add(r)
            if not judged(o, r):
                return
            x = xs(r)[0]
            what = f"{n} of {len(m)} bytes" if n < len(m) else str(r.faults[:3])
            if x[0] == "rc=0" and x[1] != tags["b"]:
                o.bad("wrong", f"a {kind} model with {what} loads and tags differently: {diff(tags['b'], x[1])}")
            if x[0] != "rc=0" and n == len(m) and not r.faults:
                o.bad("failure", f"loading failed although only short reads happened: {x[1][:200]!r} ({kind})")
            if x[4]:
                o.bad("descriptors", f"{x[4]} files left open after loading ({kind}, {what})")
            hit = n < len(m) or bool(r.faults) or r.probes.get("fault.read_short", 0) > 0
            if n < len(m):
                o.notes["fault:model_cut"] = 1
                self.put(ctx, m)
            good = "b"
        else:
            self.put(ctx, ref["a"][0] if sc["old"] else None)
            w0, w1 = ref["b"][2:]
            if "crash" in sc:
                plan["crash_at"] = w0 - 1 + int(sc["crash"] * (w1 - w0 + 3))
            elif "full" in sc:
                plan["full"] = [w0 + int(sc["full"] * (w1 - w0 + 1)), sc["len"]]
            r = ctx.run(dict(plan, lines=["faults on=1", "crashable", self.train(sc, "b")]), decs and decs[0])
            o.add(r)
            crashed = r.end() == "crashed"
            if not crashed and not judged(o, r):
                return
            x = xs(r)
            done = bool(x) and x[0][0] == "rc=0"
            hit = crashed or bool(r.faults) or r.probes.get("fault.write_short", 0) > 0
            what = "a crash" if crashed else str(r.faults[:3])
            if done and x[0][1] != ref["b"][1]:
                o.bad("output", f"training reported success with other output after {what} ({kind}): {diff(ref['b'][1], x[0][1])}")
            if not hit and not done:
                o.bad("failure", f"saving failed although nothing happened: {x[0][0]} {x[0][1][:200]!r} ({kind})")
            if x and x[0][4]:
                o.bad("descriptors", f"{x[0][4]} files left open after the save ({kind}, {what})")
            good = "b" if done else "ab" if sc["old"] else "b-"
            if crashed:
                o.notes["fault:crash_during_save"] = 1
        # what can be loaded now is one of the models that may be there
        r = ctx.run({"seed": 1, "lines": [self.load(sc)]})
        o.add(r)
        y = xs(r)
        if r.end() != "ok" or not y:
            o.bad("load-died", f"loading the {kind} model afterwards ({what}): {r.end()}")
        elif y[0][0] == "rc=0":
            if not any(y[0][1] == tags[n] for n in good if n != "-"):
                o.bad("torn", f"after {what} the {kind} model loads but tags neither as the old nor as the new one: "
                              f"{diff(tags['b'], y[0][1])}")
        elif "-" not in good:
            o.bad("lost", f"after {what} no {kind} model can be loaded ({'complete before' if good != 'b' else 'saved'}): "
                          f"{y[0][1][:200]!r}")
        o.nontrivial, o.key = hit, tuple(o.hashes)

    def shrink(self, sc):
        for n in "ab":
            ws = sc[n].split(" ")
            if len(ws) > 2:
                yield dict(sc, **{n: " ".join(ws[:len(ws) // 2])})
                yield dict(sc, **{n: " ".join(ws[len(ws) // 2:])})


# -- X01 ------------------------------------------------------------------------------------------------
class X01(PipeProp):
    ID = "X01"
    RULE = ("one case: a compressed or Word document read through the temporary directory while the process dies at an operation on the temporary directory, the disk "
            "is full, or opening, writing, closing, renaming or reading back fails; then it is read again, undisturbed, on "
            "the same disk; non-trivial: a fault or crash hit")

    def gen(self, ctx, rng, tier):
        if rng.random() < .3:
            sc = {"pipe": C.join(rng.choice(["doc-reader", "doc-reader", "guessing-reader"]), "psi-writer"), "doc": "ala.doc"}
        else:
            r, f = rng.choice(C.ZIPS)
            if rng.random() < .25:
                r = "guessing-reader"
            sc = {"pipe": C.join(r, "simple-writer --tags frag"), "doc": f}
        sc.update({"seed": rng.getrandbits(40), "p": {}, "lives": rng.choice([1, 1, 2, 3])})
        if rng.random() < .4:
            last = rng.random() < .5
            sc["twins"] = [[t, last] for t in rng.sample(range(7), rng.choice([2, 2, 3]))]
        k = rng.random()
        if k < .4:
            sc["crash"] = rng.randrange(0, 14)
        elif k < .55:
            sc["full"] = [rng.randrange(0, 12), rng.choice([1, 2, 1000])]
        elif k < .7:
            sc["p"]["write_err"] = rng.choice([.2, 1.0])
        elif k < .8:
            sc["p"]["read_err"] = rng.choice([.1, .5])
        elif k < .87:
            sc["p"]["close_err"] = 1.0
        elif k < .94:
            sc["p"]["meta_err"] = rng.choice([.3, 1.0])
        elif k < .97:
            sc["p"]["stat_err"] = rng.choice([.3, 1.0])
        else:
            sc["p"]["open_err"] = .5
        sc["p"]["write_short"] = rng.choice([0, 0, .5])
        sc["p"]["read_short"] = rng.choice([0, 0, .3])
        return sc

    def execute(self, ctx, sc, o, decs):
        ctx.fresh()
        # several documents of one length and almost the same bytes
        docs = [C.doc(sc["doc"]) if t is None else C.twin(sc["doc"], *t) for t in sc.get("twins", [None])]
        refs = [ctx.ref_run(sc["pipe"], d.hex()) for d in docs]
        ctx.fresh()
        if None in refs:
            o.notes["no reference"] = 1
            return
        if len(set(r[1] for r in refs)) > 1:
            o.notes["documents that differ in a letter"] = 1
        runs = ["run pipe=%s in=%s" % (hx(sc["pipe"]), d.hex()) for d in docs]
        hit, dead = False, set()
        for i in range(sc["lives"]):
            plan = {"seed": sc["seed"] + i, "p": sc["p"], "classes": R.C_TMP,
                    "lines": ["faults on=1", "crashable", runs[i % len(runs)]]}
            ref = refs[i % len(refs)]
            if "crash" in sc:
                plan["crash_at"] = sc["crash"] + i
            if "full" in sc:
                plan["full"] = sc["full"]
            r = ctx.run(plan, decs and decs[i])
            o.add(r)
            crashed = r.end() == "crashed"
            if not crashed:
                if not judged(o, r):
                    return
                x = xs(r)[0]
                if x[0] == "rc=0" and x[:2] != ref[:2]:
                    o.bad("output", f"success with other output after {r.faults[:3]} ({sc['pipe']}): {diff(ref[1], x[1])}")
                if x[0] != "rc=0" and ref[0] == "rc=0" and not r.faults:
                    o.bad("failure", f"{x[1][:200]!r} although nothing failed ({sc['pipe']})")
                if x[4]:
                    o.bad("descriptors", f"{x[4]} files left open after {r.faults[:3]} ({sc['pipe']})")
                left = set(e for e in os.listdir(ctx.wd.p("tmp")) if e.startswith("psi") and e[4:5] == "_") - dead
                if left:
                    o.bad("left-behind", f"{sorted(e[:5] for e in left)} left in the temporary directory after "
                                         f"{r.faults[:3]} ({sc['pipe']})")
            dead = set(os.listdir(ctx.wd.p("tmp")))
            hit = hit or crashed or bool(r.faults)
            if crashed:
                o.notes["fault:crash_while_extracting"] = o.notes.get("fault:crash_while_extracting", 0) + 1
        r = ctx.run({"seed": 1, "lines": runs})
        o.add(r)
        x = xs(r)
        for k, ref in enumerate(refs):
            if k >= len(x) or x[k][:2] != ref[:2]:
                o.bad("aftermath", f"on the disk the earlier runs left, document {k + 1} of {len(refs)} gives {r.end()} "
                                   f"{x[k:k + 1] and x[k][0]} {x[k:k + 1] and x[k][1][:200]!r} instead of {ref[0]} "
                                   f"{ref[1][:200]!r} ({sc['pipe']})")
                break
        o.nontrivial = hit
        o.key = tuple(o.hashes)

    def shrink(self, sc):
        if sc["lives"] > 1:
            yield dict(sc, lives=sc["lives"] - 1)
        for i in range(len(sc.get("twins", []))):
            if len(sc["twins"]) > 1:
                yield dict(sc, twins=sc["twins"][:i] + sc["twins"][i + 1:])


ALL = [P09, L01, L02, L03, X01]
