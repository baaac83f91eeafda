"""Simulated deployments of psi-server: workload generation, execution, judgement."""
import os
import re
import urllib.parse

from . import corpus as C
from . import engine as E
from . import model as M
from . import runner as R

ECHO = "read-text ! write-simple --tags frag"
PIPES = [ECHO, "txt-reader ! simple-writer --tags symbol", "read-text ! psi-writer",
         "guess-language ! simple-writer --tags text", "read-text | write-dot",
         "no-such-processor ! write-simple", "read-text ! write-simple --sep ^ --tags symbol",
         "read-text ! json-simple-writer --tags frag", "simple-writer --tags frag --sep ^",
         "srx-segmenter --rules lex/langs.srx --lang pl --force-language ! write-simple --tags segment",
         "srx-segmenter --rules lex/langs.srx --lang en --force-language ! write-simple --tags segment"]
UPLOAD_PIPES = [ECHO, PIPES[2], PIPES[8], PIPES[8], PIPES[3]]
SLOW_PIPES = ["tokenize --lang en ! write-simple --tags token",
              "tp-tokenizer --lang pl ! " + C.FORMS + " ! gobio --lang pl --rules lex/toy.g ! bracketing-writer "
              "--tags parse --opening-bracket %c[ --closing-bracket ]",
              "tp-tokenizer --lang pl ! mapper --lang pl --in-tags token --out-tags val --consider-text --set-text V "
              "--plain-text-lexicon lex/val.txt ! psi-writer --no-header",
              "tp-tokenizer --lang pl ! " + C.LL + " ! simple-writer --tags lemma"]
PAGES = ["/psitoolkit.html", "/index.html", "/", "/about.html", "/json.html", "/api.html",
         "/help/aliases.html", "/help/faq.html", "/contact.html", "/bin/mark.html",
         "/help/processor-documentation.html"]
DOCS = ["txt-reader", "simple-writer", "tp-tokenizer", "nothing-like-it"]
STATIC = ["/css/reset.css", "/css/style.css", "/css/tipsy.css", "/img/logo-linux.png",
          "/fonts/stylesheet.css", "/sitemap.xml", "/bin/all.bin", "/bin/empty.txt",
          "/bin/512.bin", "/bin/513.bin", "/bin/big.pdf", "/css/probe.css"]
MISSING = ["/none.html", "/img/none.png", "/storage/none.txt", "/css", "/a/b/c.js"]


def extra_site_files():
    import random
    rng = random.Random(99)
    return {"bin/all.bin": bytes(range(256)) * 5, "bin/empty.txt": b"",
            "bin/512.bin": bytes(rng.randrange(256) for _ in range(512)),
            "bin/513.bin": bytes(rng.randrange(256) for _ in range(513)),
            "bin/big.pdf": bytes(rng.randrange(256) for _ in range(70001)),
            # the template mark-up of the site itself, with nothing registered under the name
            "bin/mark.html": b"<a><!--#psis nobody --></a>\n<!-- plain --> <!--#psis unended"}


class Ctx:
    def __init__(self, threads=(1, 2, 3, 4), args=(), keep=False):
        self.wd = R.Workdir()
        self.clean_ = self.wd.clean
        self.wd.clean = self.clean
        self.images = {}
        self.args = list(args)
        self._lib = None
        for k, v in extra_site_files().items():
            self.wd.add_site_file(k, v)
        # that part of the page costs as much as thirty requests; it has a page of its own
        ex = b"<!--#psis help_site_pipeline_examples -->"
        for page in ("psitoolkit.html", "index.html"):
            q = self.wd.p("build/site", page)
            with open(q, "rb") as f:
                b = f.read()
            with open(q, "wb") as f:
                f.write(b.replace(ex, b""))
        self.wd.add_site_file("examples.html", b"<p>" + ex + b"</p>\n")
        # outside the document root, and recognisable
        with open(self.wd.p("build/outside.txt"), "w") as f:
            f.write("OUTSIDE-THE-ROOT\n")
        with open(self.wd.p("build/site-twin.txt"), "w") as f:
            f.write("OUTSIDE-THE-ROOT\n")
        self.learned = None
        self._model = None

    def clean(self, keep_storage=False):
        self.clean_(keep_storage)
        C.files(self.wd.p)

    def image(self, threads, extra=()):
        k = (threads,) + tuple(extra)
        if k not in self.images:
            self.wd.clean()
            self.images[k] = R.Image(self.wd, "server",
                                     ["--root", "site", "--threads", str(threads)] + list(extra) +
                                     M.INITIAL_PIPE.split(), timeout=20)
        return self.images[k]

    def restarted(self, threads, wall):
        """An image of its own, whose start-up code ran on the disk as it is now."""
        return R.Image(self.wd, "server", ["--root", "site", "--threads", str(threads)] + M.INITIAL_PIPE.split(),
                       timeout=20, wall=wall)

    def lib(self):
        if self._lib is None:
            self._lib = M.Lib(R.Image(self.wd, "pipe", timeout=20))
        return self._lib

    def model(self):
        if self._model is None:
            self._model = M.Model(self.wd.p("build/site"), self.lib(), self.learn())
        return self._model

    def learn(self):
        """What the includes that do not depend on a session expand to, asked one at a time."""
        names = ["processor_documentation_site_processor_documentation_menu"]
        for root, _, files in os.walk(self.wd.p("build/site")):
            for f in files:
                if f.endswith((".html", ".psis")):
                    with open(os.path.join(root, f), "rb") as fh:
                        names += [x.decode() for x in re.findall(rb"<!--#psis ([a-z_]+) -->", fh.read())]
        names = sorted({n for n in names if not n.startswith(("pipe_site_", "json_site_")) and
                        n not in ("help_site_processor_helps", "nobody") and
                        (not n.startswith("processor_documentation") or n.endswith("_menu"))})
        out = {}
        site = self.wd.p("build/site")
        doc3 = ["processor_documentation_site_processor_name",
                "processor_documentation_site_processor_full_name",
                "processor_documentation_site_processor_documentation"]
        for n in names:
            self.wd.add_site_file(f"l_{n}.html", b"\x02<!--#psis " + n.encode() + b" -->\x02")
        self.wd.add_site_file("l_doc3.html", b"\x02" + b"\x02".join(
            b"<!--#psis " + n.encode() + b" -->" for n in doc3) + b"\x02")
        im = self.image(1)
        get = lambda path, ck="": (f"GET {path} HTTP/1.0\r\n{ck}\r\n").encode().hex()
        self.wd.clean()
        r = im.run(E.plan_text({"lines": ["req client=%d data=%s" % (i, get(f"/l_{n}.html"))
                                          for i, n in enumerate(names)]}))
        for i, n in enumerate(names):
            rep = M.Reply(r.blobs.get(f"resp{i}", b""))
            out[n] = rep.body[1:-1] if rep.ok else b""
        for d in [None] + DOCS + [""]:
            self.wd.clean()
            lines = []
            if d is not None:
                uri = "/help/processor.psis?" + ("name=" + d if d else "x=1")
                lines.append("req client=0 data=" + get(uri))
            lines.append("req client=0 data=" + get("/l_doc3.html", "@CK@"))
            r = im.run(E.plan_text({"lines": lines}))
            rep = M.Reply(r.blobs.get(f"resp{len(lines) - 1}", b""))
            out[("doc", d)] = rep.body[1:-1].split(b"\x02") if rep.ok and rep.status == 200 else [b"?"] * 3
        for n in names:
            os.unlink(os.path.join(site, f"l_{n}.html"))
        os.unlink(os.path.join(site, "l_doc3.html"))
        return out

    def close(self):
        for im in self.images.values():
            im.close()
        if self._lib:
            self._lib.im.close()
        self.wd.remove()


# -- requests -------------------------------------------------------------------------------
def enc(b, rng):
    out = ""
    for c in b:
        ch = chr(c)
        if ch.isascii() and ch.isalnum():
            out += ch
        elif c == 32 and rng.random() < .7:
            out += "+"
        else:
            out += ("%%%02x" if rng.random() < .5 else "%%%02X") % c
    return out


WORDS = ["Ala", "ma", "kota", "i", "psa", "zażółć", "gęślą", "<b>", "&amp;", "\"x\"", "it's",
         "a/b", "\\", "x=y&z", "100%", "<!--#psis pipe_site_input_text -->", "-->", "\t", "\n",
         "[", "]", "{", "}", "ß", "日本", "++", "%41", ";", "#"]


def text(rng, tag, maxw=8, big=True):
    ws = [rng.choice(WORDS) for _ in range(rng.randrange(maxw))]
    ws.insert(rng.randrange(len(ws) + 1), tag)
    if big and rng.random() < .05:
        ws.append("long " * rng.choice([100, 200, 300, 800, 1640]))
    t = " ".join(ws).encode()
    if rng.random() < .06:
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice([b"\xe9", b"\xb3\xf3d\xbc", b"\xff"]) + t[i:]
    return t


def headers(rng, extra=()):
    h = []
    if rng.random() < .5:
        h.append("Host: localhost")
    if rng.random() < .3:
        h.append("User-Agent: sim/1.0 (x; y)")
    if rng.random() < .2:
        h.append("Accept-Language: pl,en;q=0.5")
    if rng.random() < .12:
        h.append("X-Folded: one\r\n  two\r\n\t three")
    if rng.random() < .06:
        h += ["X-H%d: %s" % (i, "v" * rng.randrange(1, 60)) for i in range(rng.randrange(1, 60))]
    if rng.random() < .03:
        h.append("X-Long: " + "".join(rng.choice("abc ;=,/") for _ in range(rng.choice([4000, 8150, 8192, 9000, 17000]))) + "x")
    h += extra
    if rng.random() < .3:
        rng.shuffle(h)
    return "".join(x + "\r\n" for x in h)


def make_req(rng, op, method=None):
    """Bytes of a well-formed request for op; @CK@ stands for the session cookie line."""
    return make_req_(rng, op).replace(b"@CK@", rng.choice([b"@CK@"] * 6 + [b"@CKX@", b"@CKY@"]))


def make_req_(rng, op):
    k = op["k"]
    ver = rng.choice(["HTTP/1.0", "HTTP/1.1"])
    f = [(a, bytes.fromhex(b)) for a, b in op.get("fields", ())]
    if k in ("pipe", "json", "doc"):
        base = {"pipe": "/pipe.psis", "json": "/json.psis", "doc": "/help/processor.psis"}[k]
        method = op["method"]
        body = "&".join(a + "=" + enc(b, rng) for a, b in f)
        if method == "GET":
            op["uri"] = base + "?" + body
            return f"GET {op['uri']} {ver}\r\n{headers(rng)}@CK@\r\n".encode("latin-1")
        op["uri"] = base
        if method == "POST":
            ct = [] if rng.random() < .4 else ["Content-Type: application/x-www-form-urlencoded"]
            b = body.encode("latin-1")
            h = headers(rng, ct + ["Content-Length: %d" % len(b)])
            return f"POST {base} {ver}\r\n{h}@CK@\r\n".encode("latin-1") + b
        # multipart; the file field carries a file name, which the server also stores
        bd = "----b%08x" % rng.randrange(1 << 32)
        parts = b""
        for a, b in f:
            if a.endswith("-filename"):
                continue
            parts += b"--" + bd.encode() + b"\r\nContent-Disposition: form-data; name=\"" + a.encode() + b"\""
            fn = [v for n, v in f if n == a + "-filename"]
            if fn:
                parts += b"; filename=\"" + fn[0] + b"\"\r\nContent-Type: text/plain"
            parts += b"\r\n\r\n" + b + b"\r\n"
        parts += b"--" + bd.encode() + b"--\r\n"
        h = headers(rng, ["Content-Type: multipart/form-data; boundary=" + bd,
                          "Content-Length: %d" % len(parts)])
        return f"POST {base} {ver}\r\n{h}@CK@\r\n".encode("latin-1") + parts
    if k == "link":
        op["uri"] = "@LINK@"
    elif k in ("page", "static", "missing"):
        op["uri"] = op["path"]
        if rng.random() < .15:
            # the same path, some of it percent-encoded
            i = rng.randrange(1, len(op["path"])) if len(op["path"]) > 1 else 0
            if i:
                op["uri"] = op["path"][:i] + "%%%02x" % ord(op["path"][i]) + op["path"][i + 1:]
    m = "GET"
    return f"{m} {op['uri']} {ver}\r\n{headers(rng)}@CK@\r\n".encode("latin-1")


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


def gen_op(rng, tag, slow=False, weights=None):
    w = weights or {"pipe": 30, "json": 20, "page": 18, "static": 10, "doc": 6, "missing": 4, "link": 8}
    k = rng.choices(list(w), list(w.values()))[0]
    op = {"k": k}
    if k == "pipe":
        op["method"] = rng.choice(["GET", "POST", "POST", "MULTI"])
        f = []
        pipe = rng.choice(SLOW_PIPES if slow and rng.random() < .15 else PIPES)
        # pipelines whose cost grows faster than their input never meet a long text
        costly = "dot" in pipe or "guess" in pipe or pipe in SLOW_PIPES
        inp = text(rng, tag, big=not costly)
        if rng.random() < .85 or len(inp) > 500:
            f.append(["pipe-text", hx(pipe)])
        if rng.random() < .85 or (costly and f):
            f.append(["input-text", hx(inp)])
        if rng.random() < .2:
            f.append(["output-type", hx("t" + tag)])
        if op["method"] == "MULTI" and rng.random() < .4:
            f = [x for x in f if x[0] != "pipe-text"] + [["pipe-text", hx(rng.choice(UPLOAD_PIPES))]]
            f.append(["radio-file", hx("on")])
            f.append(["input-file", hx("file of " + tag + rng.choice([" ", "", "\nsecond line", "\n\nx y\n"]))])
            f.append(["input-file-filename", hx("f" + tag + ".txt")])
        if not f:
            f.append(["x", hx(tag)])
        op["fields"] = f
    elif k == "json":
        op["method"] = rng.choice(["GET", "POST"])
        pipe = rng.choice(PIPES)
        op["fields"] = [["pipe", hx(pipe)], ["input", hx(text(rng, tag, big="dot" not in pipe and "guess" not in pipe))]]
        if rng.random() < .1:
            op["fields"] = op["fields"][:1] + [["zz", hx(tag)]]
    elif k == "doc":
        op["method"] = "GET"
        op["fields"] = [["name", hx(rng.choice(DOCS))]] if rng.random() < .85 else [["x", hx("1")]]
    elif k == "page":
        op["path"] = rng.choice(PAGES)
    elif k == "static":
        op["path"] = rng.choice(STATIC)
    elif k == "missing":
        op["path"] = rng.choice(MISSING[:3])
    return op


def segs(rng, n):
    style = rng.random()
    if style < .15:
        return [1]
    if style < .5:
        return [rng.randrange(1, 40) for _ in range(rng.randrange(1, 6))]
    if style < .8:
        return [rng.randrange(1, max(2, n)) for _ in range(rng.randrange(1, 4))]
    return []


def delivery(rng, raw, r):
    s = segs(rng, len(raw))
    if s == [1] and len(raw) > 1500:
        s = [1, 1, 1, 400]
    if s:
        r["seg"] = s
        r["dly"] = [rng.choice([0, 1, 5, 20, 100, 1000, 20000]) for _ in range(rng.randrange(1, 4))]
    if rng.random() < .25:
        r["win"] = rng.choice([0, 1, 7, 100, 1000, 8000])
        r["refill"] = rng.choice([50, 333, 1000, 20000])
        r["rdly"] = rng.choice([1, 50, 1000])


SCHED_P = [
    {"sched": .2, "point": .005, "gap": .1, "env": .1, "wake": .2, "epoll_order": .1},
    {"sched": .5, "point": .05, "gap": .4, "env": .3, "wake": .5, "epoll_order": .3},
    {"sched": .5, "point": .15, "gap": .9, "env": .5, "wake": .5, "epoll_order": .3, "spurious_wake": .1},
    {"sched": .5, "point": .01, "gap": 0, "env": .3, "wake": .5, "epoll_order": .3},
    {},
]


def base_plan(rng, threads):
    p = dict(rng.choice(SCHED_P))
    # long slices end rarely: the gap is drawn once per slice
    if rng.random() < .6:
        p["recv_short"] = rng.choice([.05, .3, .8])
    if rng.random() < .5:
        p["send_short"] = rng.choice([.05, .3])
    return {"seed": rng.getrandbits(48), "p": p, "bb_limit": 600000000}


def req_line(r):
    o = ["req"]
    for k in ("client", "start", "overlap", "need", "gap", "jar", "end", "endn", "win", "refill", "rdly"):
        if k in r:
            o.append(f"{k}={r[k]}")
    for k in ("seg", "dly"):
        if r.get(k):
            o.append(k + "=" + ",".join(map(str, r[k])))
    o.append("data=" + r["raw"])
    return " ".join(o)


def workload(rng, nclients, nreqs, slow=False, weights=None, share=.0, spread=3000, tagbase="T"):
    reqs = []
    for c in range(nclients):
        start = rng.randrange(spread) if rng.random() < .7 else 0
        for j in range(nreqs if isinstance(nreqs, int) else rng.randrange(*nreqs)):
            tag = f"{tagbase}{c}x{j}"
            op = gen_op(rng, tag, slow, weights)
            op["id"] = f"{c}_{j}"
            raw = make_req(rng, op)
            r = {"client": c, "op": op, "raw": raw.hex(), "start": start, "gap": rng.choice([5, 20, 200, 2000])}
            delivery(rng, raw, r)
            reqs.append(r)
    return reqs


def scenario_plan(sc):
    plan = dict(sc["plan"])
    lines = list(plan.get("lines", []))
    lines += [req_line(r) for r in sc["reqs"]]
    lines += sc.get("tail", [])
    lines.append("probes n=%d" % sc.get("probes", 2))
    plan["lines"] = lines
    return plan


def run_server(ctx, sc, o, decs, life=0, keep=False):
    im = fresh = None
    if sc.get("fresh"):
        im = fresh = ctx.restarted(sc["threads"], sc["plan"]["wall"] // 1000000)
    else:
        im = ctx.image(sc["threads"], sc.get("args", ()))
    if not keep:
        ctx.wd.clean()
    try:
        r = im.run(E.plan_text(scenario_plan(sc), None if decs is None else decs[life]))
    finally:
        if fresh:
            fresh.close()
    o.add(r)
    return r


class View:
    """A run's requests and replies, put together with the scenario's operations."""

    def __init__(self, sc, r):
        self.ops = []
        recs = r.recs("R")
        for i, rec in enumerate(recs):
            rec["reply"] = M.Reply(r.blobs.get(f"resp{i}", b""))
            rec["raw"] = r.blobs.get(f"req{i}", b"")
            rec["resp"] = r.blobs.get(f"resp{i}", b"")
            rec["op"] = sc["reqs"][i]["op"] if i < len(sc["reqs"]) else None
            q = sc["reqs"][i] if i < len(sc["reqs"]) else {}
            rec["deaf"] = int("win" in q and not q.get("refill"))
            rec["half"] = i < len(sc["reqs"]) and sc["reqs"][i].get("end") == "fin"
            m = re.search(rb"\r\nCookie:[^\r\n]*PSISESSIONID=([^\r\n;]*)", rec["raw"].split(b"\r\n\r\n")[0])
            rec["sent_cookie"] = m.group(1).decode("latin-1")[:25] if m else None
            self.ops.append(rec)
        s = r.recs("S")
        self.s = s[0] if s else {}
        self.q = {}
        for q in r.recs("Q"):
            if q["stage"] == 0 and 0 in self.q:
                for k in ("open", "unanswered"):
                    q[k] += self.q[0][k]
            self.q[q["stage"]] = q


def describe(rec):
    op = rec.get("op") or {}
    what = op.get("k", "probe") + " " + str(op.get("uri", ""))[:80]
    return f"request {rec['idx']} (client {rec['client']}, {what})"


# -- judgements shared by properties ---------------------------------------------------------------
def judge_end(o, r, v):
    """The process must live until it is told to stop, and then stop."""
    e = r.end()
    if e == "ok":
        return True
    err = r.detail
    if e.startswith("signal"):
        o.bad("server-died", f"the server process died ({e}) {err}")
    elif e == "stuck":
        o.bad("server-stuck", "the server stopped making progress (step limit reached inside one "
                              "stretch of computation)")
    elif e == "deadlock":
        o.bad("shutdown-hangs", "SIGTERM was delivered and main() never returned")
    elif e == "timeout":
        o.bad("server-stuck", "the server stopped making progress (CPU limit)")
    else:
        o.bad("server-ended-" + e, f"the server ended on its own: {e} {err}")
    return False


def clean_conn(rec):
    # closing the sending side after a whole request is no disturbance
    if rec.get("deaf"):
        return False
    if rec.get("half") and rec["sent"] and not rec.get("io_fault") and not rec.get("aborted") and \
            (not rec.get("rst") or rec.get("quit")):
        return True
    return not (rec.get("io_fault") or rec.get("aborted") or rec["gave_up"] or (rec.get("rst") and not rec.get("quit")))


def judge_replies(o, r, v, need_all=True):
    """Every request that arrived whole on an undisturbed connection has exactly one reply."""
    for rec in v.ops:
        if "conn" not in rec:
            continue
        if rec["sent"] and clean_conn(rec):
            if not rec["reply"].ok:
                o.bad("no-proper-reply", f"{describe(rec)}: {rec['reply'].why or 'no complete reply'}; "
                      f"closed={rec['closed']} got {len(rec['resp'])} bytes")
            elif not rec["closed"]:
                o.bad("left-open", f"{describe(rec)} was answered but the connection never closed")


def judge_probes(o, r, v):
    for rec in v.ops:
        if rec["probe"]:
            rep = rec["reply"]
            if not rep.ok or rep.status != 200 or rep.body != b"probe { color: red }\n":
                o.bad("not-serving-afterwards", "faults have stopped and a new client asked for "
                      f"/css/probe.css: {rep.why or (rep.status, rep.body[:60])}")


def judge_conserved(o, v, files=True):
    """Once every client has left, the server holds nothing of theirs."""
    for st in (1, 2):
        q = v.q.get(st)
        if not q:
            continue
        if q["socks"]:
            o.bad("connections-leaked", f"{q['socks']} connections are still held at stage {st}, all clients are gone")
        if files and q["fds"] - q["socks"]:
            o.bad("files-leaked", f"{q['fds'] - q['socks']} files are still open at stage {st}")


def judge_outside(o, v):
    for rec in v.ops:
        if b"OUTSIDE-THE-ROOT" in rec["resp"] or b"root:x:" in rec["resp"]:
            o.bad("outside-the-root", f"request {rec['idx']} {rec['raw'][:120]!r} was sent a file from outside the "
                                      "document root")


def judge_ids(o, v):
    """Session ids handed out are distinct."""
    seen = {}
    for rec in v.ops:
        c = rec["reply"].cookie
        if c is None:
            continue
        if c in seen:
            o.bad("session-id-reused", f"{describe(rec)} was given session id {c}, already given to "
                                       f"request {seen[c]}")
        seen[c] = rec["idx"]


def session_groups(v):
    """Requests by session; a request without a live session starts its own."""
    issued = {rec["reply"].cookie for rec in v.ops if rec["reply"].cookie}
    groups = {}
    for rec in v.ops:
        if "conn" not in rec or rec["probe"] or rec["op"] is None:
            continue
        sid = rec["sent_cookie"]
        if sid is None or sid not in issued:
            sid = rec["reply"].cookie or f"lost-{rec['idx']}"
        groups.setdefault(sid, []).append(rec)
    return issued, groups


def binds_of(v):
    b = {}
    for rec in v.ops:
        op = rec["op"]
        if op and op["k"] == "pipe" and rec["reply"].ok and rec["reply"].status == 200:
            m = re.search(rb"'fileToDownload' : '([^']*)'", rec["reply"].body)
            if m and m.group(1):
                b[op["id"]] = m.group(1)
    return b


def matches(mdl, exp, rec, binds, links, loose):
    """None if the reply is what the model expects, else why not."""
    rep = rec["reply"]
    if not rep.ok:
        if clean_conn(rec) and rec["sent"]:
            return "no proper reply: " + rep.why
        return None
    if loose and rep.status in (404, 500):
        return None
    if exp.status == 200 and isinstance(exp.body, tuple):
        uri = rec["raw"].split(b" ")[1]
        want = links.get(uri)
        if uri == b"/nolink":
            return None if rep.status == 404 else f"status {rep.status} for a file that does not exist"
        if want is None:
            return None
        if rep.status != 200 or rep.body != want:
            return f"the stored output {uri.decode()} came back as {rep.status} {rep.body[:80]!r}, stored was {want[:80]!r}"
        return None
    if exp.status is None:
        return None if rep.status in (404, 500) else f"status {rep.status} for a directory"
    if rep.status != exp.status:
        return f"status {rep.status}, expected {exp.status}"
    if exp.ctype and rep.ctype != exp.ctype:
        return f"Content-Type {rep.ctype!r}, expected {exp.ctype!r}"
    if not M.body_matches(exp.body, rep.body, binds):
        i = M.first_difference(exp.body, rep.body)
        return (f"body differs at byte {i}: got {rep.body[max(0, i - 20):i + 80]!r}, "
                f"expected {exp.body[max(0, i - 20):i + 80]!r}")
    return None


def judge_model(o, ctx, v, sig="reply-differs", loose=False):
    """Replies of each session agree with some order of its requests that respects time."""
    mdl = ctx.model()
    binds = binds_of(v)
    issued, groups = session_groups(v)
    links = {}
    for rec in v.ops:
        op = rec["op"]
        if op and op["id"] in binds and op["k"] == "pipe":
            links[binds[op["id"]]] = None
    # what each stored file must hold: the op's output under the model, filled in as found
    pend = []
    for sid, recs in groups.items():
        recs = sorted(recs, key=lambda x: x["e0"])
        order, why = linearise(mdl, recs, binds, links, loose)
        if order is None:
            o.bad(sig, why)
            continue
        first = recs[0]
        had = [x for x in recs if x["reply"].cookie]
        ans = [x for x in recs if x["reply"].ok]
        if len(ans) == len(recs) and first["sent_cookie"] not in issued and len(had) != 1 \
                and not sid.startswith("lost"):
            o.bad("cookie-handling", f"session {sid}: {len(had)} Set-Cookie headers over {len(recs)} replies")
    # links whose session had not been worked out yet when they were read
    return binds


def linearise(mdl, recs, binds, links, loose):
    """Search for an order. Aborted requests may or may not have happened."""
    n = len(recs)
    must = [x["reply"].ok for x in recs]
    best = [0, ""]
    seen = set()

    def go(done, data, depth):
        key = (done, tuple(sorted(data.items())))
        if key in seen:
            return False
        seen.add(key)
        if all(done >> i & 1 for i in range(n) if must[i] or clean_conn(recs[i]) and recs[i]["sent"]):
            return True
        horizon = min(recs[i]["e1"] if recs[i]["done"] else 1 << 62
                      for i in range(n) if not done >> i & 1 and (must[i]))  \
            if any(not done >> i & 1 and must[i] for i in range(n)) else 1 << 62
        for i in range(n):
            if done >> i & 1 or recs[i]["e0"] > horizon:
                continue
            exp, d2 = mdl.apply(recs[i]["op"], data)
            why = matches(mdl, exp, recs[i], binds, links, loose)
            if why is None:
                if go(done | 1 << i, d2, depth + 1):
                    return True
            elif depth >= best[0]:
                best[0], best[1] = depth, f"{describe(recs[i])}: {why}"
        return False

    if go(0, {}, 0):
        return True, ""
    return None, best[1] or "no order of the session's requests explains the replies"


REAL = ["server/ (psi-server main, ServerRunner, PsiServer, connection, request_parser, handlers, "
        "sites, sessions, multipart parser)", "common/ (file storage, GUIDs, file recognizer, logging, "
        "lattice)", "framework/ (PipeRunner)", "tools/, formats/ (all processors and their data files)",
        "Boost.Asio, Boost.Thread, log4cpp, libmagic, libstdc++"]
STUBS = ["kernel: sockets, epoll, timers, clocks, signals, mutexes and condition variables "
         "(interposed at the C library)", "HTTP clients", "external programs (system()): recorded, not run"]
ASSUMPTIONS = ["threads switch at intercepted calls and at basic-block edges of server/, common/ and "
               "framework/; the remaining libraries run atomically between those points",
               "memory is sequentially consistent", "the model is TCP over a lossless byte stream: loss "
               "and reordering below it appear as delay, segmentation, resets and timeouts"]


class ServerProp(E.Prop):
    REAL, STUBS, ASSUMPTIONS = REAL, STUBS, ASSUMPTIONS

    def open(self, w):
        return Ctx()

    def shrink(self, sc):
        reqs = sc["reqs"]
        by = {}
        for i, r in enumerate(reqs):
            by.setdefault(r["client"], []).append(i)
        for c in by:
            if len(by) > 1:
                yield dict(sc, reqs=[r for r in reqs if r["client"] != c])
        for i in range(len(reqs) - 1, -1, -1):
            if len(reqs) > 1:
                yield dict(sc, reqs=reqs[:i] + reqs[i + 1:])
        for i, r in enumerate(reqs):
            for k in ("seg", "win"):
                if k in r:
                    q = {a: b for a, b in r.items() if a not in ((k, "dly") if k == "seg" else (k, "refill", "rdly"))}
                    yield dict(sc, reqs=reqs[:i] + [q] + reqs[i + 1:])
        if sc.get("tail"):
            for i in range(len(sc["tail"])):
                yield dict(sc, tail=sc["tail"][:i] + sc["tail"][i + 1:])
        if sc["threads"] > 1:
            yield dict(sc, threads=sc["threads"] - 1)
        for k in list(sc["plan"].get("p", {})):
            p = {a: b for a, b in sc["plan"]["p"].items() if a != k}
            yield dict(sc, plan=dict(sc["plan"], p=p))

    def sample(self, sc, o):
        r = o.results[0]
        return {"threads": sc["threads"], "plan_seed": sc["plan"]["seed"], "p": sc["plan"].get("p", {}),
                "requests": ["%s client %d: %s" % (q["op"]["k"], q["client"],
                             bytes.fromhex(q["raw"])[:70].decode("latin-1")) for q in sc["reqs"]][:8],
                "switches": r.switches, "decisions": r.ndec, "fired": r.fired, "end": r.end()}
