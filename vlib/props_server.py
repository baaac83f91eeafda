"""The properties decided on simulated psi-server deployments."""
import os
import random
import re

from . import engine as E
from . import model as M
from . import runner as R
from . import server as S


class S01(S.ServerProp):
    ID = "S01"
    RULE = ("one case: random sessions of 1-4 clients, each request cut into segments with random delays, "
            "short reads and writes, small windows, 1-4 server threads, one seed; non-trivial: at least one "
            "request was cut or one thread switch was forced, and at least two replies were compared with "
            "the model")

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 2, 2, 3, 4])
        reqs = S.workload(rng, rng.randrange(1, 5), (1, 4), slow=tier == "thorough" or rng.random() < .1)
        return {"threads": t, "plan": S.base_plan(rng, t), "reqs": reqs, "probes": 1}

    def execute(self, ctx, sc, o, decs):
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        if S.judge_end(o, r, v):
            S.judge_replies(o, r, v)
            S.judge_model(o, ctx, v)
            S.judge_probes(o, r, v)
            S.judge_conserved(o, v)
        o.nontrivial = (r.fired.get("recv_short", 0) + r.fired.get("preempt", 0) + r.fired.get("point", 0) > 0
                        or any("seg" in q for q in sc["reqs"])) and len(v.ops) > 1
        o.key = r.hash


# -- S02 ------------------------------------------------------------------------------------------
JUNK = [b"", b"\r\n", b"\n", b"\r", b" ", b"\0", b"\xff\xfe", b"%", b"%4", b"%zz", b"..", b"/../", b":", b": ",
        b"\r\n\r\n", b"HTTP/1.1", b"Content-Length: 5\r\n", b"Content-Length: -1\r\n",
        b"Content-Length: 99999999999\r\n", b"Content-Length: x\r\n", b"Content-Type: multipart/form-data;\r\n",
        b"Cookie: PSISESSIONID\r\n", b"Cookie: PSISESSIONID=\r\n", b"Cookie: PSISESSIONID=short\r\n",
        b"Cookie: ; PSISESSIONID=120223-0001-aaaaaaaaaaaaa\r\n", b"=", b"&", b"&&", b"a=b&", b"?", b"+", b"\t",
        b".psis?", b".psis", b"<!--#psis x -->", b"\x7f", b"\x1f", b"A" * 300, b"--", b"\r\n \r\n"]
METHODS = [b"GET", b"POST", b"HEAD", b"PUT", b"DELETE", b"OPTIONS", b"get", b"G", b"POSTX", b"GET,"]
URIS = [b"/", b"/index.html", b"/css/probe.css", b"/pipe.psis", b"/pipe.psis?", b"/pipe.psis?x", b"/pipe.psis?=",
        b"/pipe.psis?pipe-text=", b"/json.psis?pipe=read-text+!+psi-writer&input=a", b"/json.psis?a=1&a=2",
        b"/json.psis?input=%", b"/json.psis?input=%4&pipe=x", b"/help/processor.psis?name=txt-reader",
        b"/nope.psis?x=1", b".psis?x=1", b"/x", b"", b"*", b"http://h/index.html", b"/..", b"/%2e%2e/",
        b"/%", b"/%1", b"/a%00b", b"/css/", b"/css", b"//", b"/./index.html", b"/" + b"x" * 5000,
        b"/pipe.psis?input-text=" + b"y" * 9000, b"/index.html?x=1", b"/json.psis?&=&", b"/css/probe.css#f",
        b"/css%2fprobe.css", b"/%63ss/probe.css", b"/css/probe%2ecss", b"/bin/all.bin", b"?.psis?"]
HDRS = [b"Host: x\r\n", b"A: b\r\n", b"A:b\r\n", b"A : b\r\n", b": b\r\n", b" folded\r\n", b"A: b\n", b"A: \r\n",
        b"A: b\r\n\tc\r\n", b"\xc3\xa9: x\r\n", b"A: \xc3\xa9\r\n", b"A: b\rc\r\n", b"A: \x01\r\n",
        b"content-length: 3\r\n", b"Content-Length: 0\r\n", b"Content-Length: 3\r\n", b"Content-Length: +3\r\n",
        b"Content-Length: 3x\r\n", b"Content-Length:  3\r\n", b"Content-Length: -3\r\n",
        b"Content-Length: 2147483648\r\n", b"Content-Length: 4294967299\r\n", b"Content-Length: 2\r\nContent-Length: 4\r\n",
        b"Content-Type: application/x-www-form-urlencoded\r\n", b"Content-Type: multipart/form-data; boundary=B\r\n",
        b"Content-Type: multipart/form-data\r\n", b"Content-Type: multipart/form-data; boundary=\r\n",
        b"Transfer-Encoding: chunked\r\n", b"Expect: 100-continue\r\n", b"Connection: keep-alive\r\n",
        b"Cookie: x\r\n", b"Cookie: PSISESSIONID=120223-0001-xxxxxxxxxxxxx\r\n", b"Cookie: PSISESSIONID",
        b"Cookie: PSISESSIONIDPSISESSIONID=\r\n", b"Cookie: PSISESSIONID\r\n"]
BODIES = [b"", b"abc", b"abcdef", b"a=b", b"input-text=x", b"pipe=read-text+!+psi-writer&input=q", b"a\r\nb", b"&&=",
          b"--B\r\nContent-Disposition: form-data; name=\"input-text\"\r\n\r\nhello\r\n--B--\r\n",
          b"--B\r\nContent-Disposition: form-data; name=\"input-file\"; filename=\"f\"\r\n\r\nhello\r\n--B--\r\n",
          b"--B\r\nContent-Disposition: form-data\r\n\r\nhello\r\n--B--\r\n", b"--B", b"--B--\r\n",
          b"--B\r\n\r\n\r\n--B--\r\n", b"%", b"a=%", b"a=%1", b"a=%zz&b=%41", b"=x", b"a==b&c=&=d"]


def weird(rng):
    k = rng.random()
    if k < .4:
        op = S.gen_op(rng, "W", weights={"pipe": 3, "json": 3, "page": 2, "static": 1, "doc": 1, "missing": 1})
        raw = S.make_req(rng, op)
        for t in (b"@CK@", b"@CKX@", b"@CKY@"):
            raw = raw.replace(t, b"")
        for _ in range(rng.randrange(1, 4)):
            n = len(raw)
            i = rng.randrange(n + 1)
            # most mutations belong near the head, where the structure is
            if rng.random() < .5:
                i = min(i, rng.randrange(200))
            j = min(n, i + rng.choice([1, 1, 2, 5, 30]))
            m = rng.randrange(7)
            if m == 0:
                raw = raw[:i] + bytes([rng.randrange(256)]) + raw[i + 1:]
            elif m == 1:
                raw = raw[:i] + raw[j:]
            elif m == 2:
                raw = raw[:i] + rng.choice(JUNK) + raw[i:]
            elif m == 3:
                raw = raw[:j] + raw[i:j] + raw[j:]
            elif m == 4:
                raw = raw[:max(1, i)]
            elif m == 5:
                raw = raw.replace(b"\r\n", b"\n", rng.randrange(1, 3))
            else:
                raw = raw[:i] + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9))) + raw[j:]
    elif k < .9:
        m = rng.choice(METHODS[:2] * 4 + METHODS)
        u = rng.choice(URIS)
        if rng.random() < .2:
            u += rng.choice(JUNK)
        ver = rng.choice([b"HTTP/1.0", b"HTTP/1.1"] * 4 + [b"HTTP/0.9", b"HTTP/10.23", b"HTTP/1", b"HTTP/1.",
                                                           b"HTTP/.1", b"http/1.0", b"", b"HTTP/1.1 "])
        h = b"".join(rng.choice(HDRS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])))
        b = rng.choice(BODIES)
        if b and rng.random() < .6:
            h += b"Content-Length: %d\r\n" % (len(b) + rng.choice([0, 0, 0, 0, -1, 1, 50]))
            if b.startswith(b"--B") and rng.random() < .8:
                h += b"Content-Type: multipart/form-data; boundary=B\r\n"
        raw = m + b" " + u + b" " + ver + b"\r\n" + h + b"\r\n" + b
        if rng.random() < .1:
            raw += rng.choice(JUNK) + raw
    else:
        raw = bytes(rng.randrange(256) if rng.random() < .5 else rng.choice(b"GET / HTP1.0\r\n:") for _ in
                    range(rng.choice([1, 3, 10, 60, 600])))
    return raw or b"\r"


class S02(S.ServerProp):
    ID = "S02"
    RULE = ("one case: 2-6 connections carrying mutated, malformed, oversized or random bytes next to ordinary "
            "clients, cut into random segments; non-trivial: at least one malformed and one answered request")

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 2, 3])
        reqs = S.workload(rng, rng.randrange(0, 2), (1, 3), spread=300) if rng.random() < .5 else []
        for i in range(rng.randrange(3, 9)):
            raw = weird(rng)
            r = {"client": 100 + i, "op": {"k": "raw", "id": f"w{i}"}, "raw": raw.hex(),
                 "start": rng.randrange(2000)}
            S.delivery(rng, raw, r)
            reqs.append(r)
        return {"threads": t, "plan": S.base_plan(rng, t), "reqs": reqs, "probes": 1}

    def execute(self, ctx, sc, o, decs):
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        more = known = bad = loose = 0
        if S.judge_end(o, r, v):
            for rec in v.ops:
                if not rec["op"] or rec["op"]["k"] != "raw":
                    continue
                st, req, n = M.parse_request(rec["raw"])
                oid = rec["op"]["id"]
                if st == "more":
                    more += 1
                    rec["op"] = None
                    if rec["resp"]:
                        o.bad("early-reply", f"request {rec['idx']} is not complete and was answered: "
                              f"{rec['raw'][:200]!r} got {rec['resp'][:80]!r}")
                    rec["skip"] = 1
                elif st == "bad":
                    bad += 1
                    rec["op"] = {"k": "bad", "id": oid, "uri": "?"}
                else:
                    op = M.op_of(req, oid)
                    known += op is not None
                    loose += op is None
                    rec["op"] = op
                    rec["form_only"] = op is None
            for rec in v.ops:
                if rec.get("skip"):
                    continue
                if rec["sent"] and "conn" in rec and not rec["probe"]:
                    if not rec["reply"].ok:
                        o.bad("no-proper-reply", f"request {rec['idx']} {rec['raw'][:300]!r}: "
                              f"{rec['reply'].why or 'no complete reply'}; closed={rec['closed']}")
                    elif not rec["closed"]:
                        o.bad("left-open", f"request {rec['idx']} was answered but the connection never closed")
                    elif rec.get("form_only") and rec["reply"].status not in (200, 400, 404, 500):
                        o.bad("odd-status", f"request {rec['idx']}: status {rec['reply'].status}")
            q = v.q.get(0)
            if q and q["open"] != more:
                o.bad("open-connections", f"{q['open']} connections open at the end, {more} requests are incomplete")
            S.judge_model(o, ctx, v)
            S.judge_probes(o, r, v)
            S.judge_conserved(o, v)
            S.judge_outside(o, v)
        o.notes = {"requests:incomplete": more, "requests:malformed": bad, "requests:modelled": known,
                   "requests:form-only": loose}
        o.nontrivial = bad + more > 0 and known > 0
        o.key = r.hash


# -- S03 ---------------------------------------------------------------------------------------------
LOGFILE = ["--log-file", "log/psi.log", "--log-level", "DEBUG"]


def spoil(rng, reqs, share):
    for q in reqs:
        if rng.random() < share:
            n = len(q["raw"]) // 2
            q["end"] = rng.choice(["rst", "fin", "stall", "rstrecv", "fin"])
            if q["end"] == "rstrecv":
                q["endn"] = rng.choice([0, 1, 20, 100, 400, 3000])
                if rng.random() < .5:
                    q["win"] = rng.choice([1, 100, 500])
                    q.pop("refill", None)
            else:
                q["endn"] = rng.choice([0, 1, n // 2, n - 1, n, rng.randrange(n + 1)])


class S03(S.ServerProp):
    ID = "S03"
    RULE = ("one case: 2-5 clients, some of which reset, half-close, stall or stop reading at a random byte, with "
            "injected accept, receive and send errors and (in part) a failing log file; non-trivial: a fault "
            "or an abandoned connection happened and an undisturbed request was answered")

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 2, 3, 4])
        reqs = S.workload(rng, rng.randrange(2, 6), (1, 4), spread=1500)
        spoil(rng, reqs, rng.choice([0, .2, .5]))
        plan = S.base_plan(rng, t)
        for k in ("accept_err", "recv_err", "send_err"):
            if rng.random() < .5:
                plan["p"][k] = rng.choice([.02, .1, .4])
        sc = {"threads": t, "plan": plan, "reqs": reqs, "probes": 2}
        if rng.random() < .2:
            sc["args"] = LOGFILE
            plan["classes"] = R.C_LOG
            if rng.random() < .5:
                plan["full"] = [rng.randrange(300), rng.choice([1, 50, 100000])]
            else:
                plan["p"].update(write_err=.1, write_short=.2, write_eintr=.1)
        return sc

    def execute(self, ctx, sc, o, decs):
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        good = 0
        if S.judge_end(o, r, v):
            S.judge_replies(o, r, v)
            S.judge_model(o, ctx, v)
            S.judge_probes(o, r, v)
            S.judge_conserved(o, v, files="args" not in sc)
        for rec in v.ops:
            if "conn" in rec and rec["op"] and rec["sent"] and S.clean_conn(rec):
                good += 1
        gave = sum(1 for rec in v.ops if rec["gave_up"])
        o.notes = {"undisturbed requests answered": good, "fault:client gone": gave}
        for q in sc["reqs"]:
            if q.get("end"):
                k = "fault:client " + q["end"]
                o.notes[k] = o.notes.get(k, 0) + 1
        o.nontrivial = good > 0 and (gave or any(r.fired.get(k) for k in R.FAULT_KINDS[2:5] + R.FAULT_KINDS[9:12]))
        o.key = r.hash


# -- S04 -----------------------------------------------------------------------------------------------
class S04(S.ServerProp):
    ID = "S04"
    RULE = ("one case: 1-3 sessions, each used by up to 3 overlapping connections, next to clients without or with "
            "forged cookies, 2-4 threads; non-trivial: two requests of different sessions or of one session "
            "overlapped in time")

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 2, 3, 4, 4])
        reqs = []
        w = {"pipe": 34, "json": 26, "page": 22, "doc": 8, "static": 2, "link": 8}
        ns = rng.randrange(1, 4)
        slow = rng.random() < .1
        for s in range(ns):
            for c in range(rng.randrange(1, 4)):
                for j in range(rng.randrange(1, 4)):
                    tag = f"S{s}c{c}x{j}"
                    op = S.gen_op(rng, tag, slow, w)
                    op["id"] = f"{s}_{c}_{j}"
                    raw = S.make_req(rng, op)
                    q = {"client": s * 10 + c, "jar": f"s{s}", "op": op, "raw": raw.hex(),
                         "start": rng.choice([0, 300, rng.randrange(1500)]), "gap": rng.choice([1, 5, 20, 200]),
                         "need": int(c > 0)}
                    if rng.random() < .4:
                        S.delivery(rng, raw, q)
                    reqs.append(q)
        for k in range(rng.randrange(0, 3)):
            op = S.gen_op(rng, f"N{k}", False, {"page": 2, "json": 1, "pipe": 1})
            op["id"] = f"n{k}"
            ck = rng.choice([b"", b"Cookie: PSISESSIONID=120223-0001-AAAAAAAAAAAAA\r\n",
                             b"Cookie: PSISESSIONID=xxxxxxxxxxxxxxxxxxxxxxxxx; a=b\r\n"])
            raw = S.make_req_(rng, op).replace(b"@CK@", ck)
            reqs.append({"client": 50 + k, "op": op, "raw": raw.hex(), "start": rng.randrange(1500)})
        plan = S.base_plan(rng, t)
        if rng.random() < .3:
            plan["p"]["send_err"] = .05
        sc = {"threads": t, "plan": plan, "reqs": reqs, "probes": 0}
        if rng.random() < .3:
            sc["tail"] = ["jump at=%d by=%d" % (rng.randrange(1500), rng.choice(JUMPS) * 1000000) for _ in range(rng.randrange(1, 3))]
        return sc

    def execute(self, ctx, sc, o, decs):
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        if S.judge_end(o, r, v):
            S.judge_replies(o, r, v)
            S.judge_model(o, ctx, v)
            S.judge_ids(o, v)
        n = 0
        ops = [x for x in v.ops if "conn" in x]
        for i, a in enumerate(ops):
            n += any(b["e0"] < a["e1"] and a["e0"] < b["e1"] for b in ops[i + 1:])
        o.notes = {"overlapping requests": n, "sessions": len({x["reply"].cookie for x in ops if x["reply"].cookie})}
        o.nontrivial = n > 0
        o.key = r.hash


# -- S05 -------------------------------------------------------------------------------------------------
JUMPS = [-86400 * 366, -86400, -10001, -10000, -9999, -3600, -60, -2, -1, 1, 2, 59, 3600, 86400, 86400 * 8, 86400 * 400]


class S05(S.ServerProp):
    ID = "S05"
    RULE = ("one case: either a server under clock jumps whose replies hand out session ids, or thousands of new "
            "sessions in one process while the clock jumps back and forth past the period of the id counter; "
            "non-trivial: at least two ids were handed out and the clock jumped")

    def open(self, w):
        ctx = S.Ctx()
        ctx.pipe_image = R.Image(ctx.wd, "pipe", timeout=40)
        return ctx

    def close(self, ctx):
        ctx.pipe_image.close()
        ctx.close()

    def gen(self, ctx, rng, tier):
        if rng.random() < .35:
            lines, n = [], 0
            for _ in range(rng.randrange(2, 7)):
                k = rng.choice([1, 2, 50, 1000, 4999, 9999, 10000, 10001])
                if n + k > (24000 if tier == "quick" else 60000):
                    break
                n += k
                lines.append("sess n=%d" % k)
                lines.append("sess_jump by=%d" % (rng.choice(JUMPS) * 1000000))
                if rng.random() < .5:
                    lines.append("sess_find x=1")
            if not lines:
                lines = ["sess n=5", "sess_jump by=-1000000", "sess n=5"]
            return {"bulk": lines, "plan": {"seed": rng.getrandbits(40)}}
        t = rng.choice([1, 2, 3, 4])
        keep = rng.random() < .4
        reqs = S.workload(rng, rng.randrange(3, 9), (1, 4) if keep else (1, 2), spread=2000,
                          weights={"static": 4, "missing": 2, "page": 1, "json": 1})
        for q in reqs:                       # some keep their cookie, the others keep none
            raw = bytes.fromhex(q["raw"]).replace(b"@CKX@", b"").replace(b"@CKY@", b"")
            q["raw"] = (raw if keep else raw.replace(b"@CK@", b"")).hex()
        tail = ["jump at=%d by=%d" % (rng.randrange(3000), rng.choice(JUMPS) * 1000000) for _ in range(rng.randrange(1, 6))]
        return {"threads": t, "plan": S.base_plan(rng, t), "reqs": reqs, "probes": 0, "tail": tail}

    def directed(self, ctx):
        return [{"bulk": ["sess n=10000", "sess_jump by=-10000000000", "sess n=10000"], "plan": {"seed": 1}},
                {"bulk": ["sess n=300", "sess_jump by=40000000000000", "sess n=3", "sess_find x=1"], "plan": {"seed": 1}},
                {"bulk": ["sess n=3", "sess_jump by=-20000000000", "sess n=19997", "sess n=9"], "plan": {"seed": 1}}]

    def execute(self, ctx, sc, o, decs):
        if "bulk" in sc:
            r = ctx.pipe_image.run(E.plan_text({"seed": sc["plan"]["seed"], "lines": sc["bulk"]},
                                               None if decs is None else decs[0]))
            o.add(r)
            if r.end() != "ok":
                o.bad("server-died", f"creating sessions ended in {r.end()} {r.detail}")
                return
            seen, n = {}, 0
            for i in range(len(sc["bulk"])):
                for s in r.blobs.get(f"x{i}", b"").decode("latin-1").split("\n"):
                    if not s:
                        continue
                    sid, back = s.split(" ")
                    if sc["bulk"][i].startswith("sess_find"):
                        o.bad("session-lost", f"session {seen[sid]} ({sid}) can not be found any more by its id")
                        return
                    n += 1
                    if sid in seen:
                        o.bad("session-id-reused", f"session {n} got id {sid}, which session {seen[sid]} already has")
                        return
                    if back != "1":
                        o.bad("session-lost", f"session {n} ({sid}) can not be found by its id")
                        return
                    seen[sid] = n
            o.nontrivial = n > 1
            o.notes = {"ids": n, "fault:clock_jump": sum("jump" in x for x in sc["bulk"])}
            o.key = r.hash
            return
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        if S.judge_end(o, r, v):
            S.judge_replies(o, r, v)
            S.judge_ids(o, v)
            given = {rec["reply"].cookie for rec in v.ops} - {None}
            for rec in v.ops:
                if rec["reply"].ok and rec["reply"].status != 500 and rec["reply"].cookie is None and rec["op"]:
                    if rec["sent_cookie"] is None:
                        o.bad("no-session", f"{S.describe(rec)} came without a cookie and was given no session")
                if rec["reply"].ok and rec["reply"].cookie and rec["sent_cookie"] in given:
                    o.bad("session-lost", f"{S.describe(rec)} came with the id it was given, and was given another one")
        n = sum(1 for x in v.ops if x["reply"].cookie)
        o.notes = {"ids": n, "fault:clock_jump": len(sc.get("tail", []))}
        o.nontrivial = n > 1
        o.key = r.hash

    def shrink(self, sc):
        if "bulk" in sc:
            b = sc["bulk"]
            for i in range(len(b)):
                yield dict(sc, bulk=b[:i] + b[i + 1:])
            return
        yield from super().shrink(sc)

    def sample(self, sc, o):
        return {"bulk": sc["bulk"]} if "bulk" in sc else super().sample(sc, o)


# -- S06 ---------------------------------------------------------------------------------------------------
ESCAPES = ["/../outside.txt", "/css/../../outside.txt", "/..%2foutside.txt", "/%2e%2e/outside.txt",
           "/%2e%2e%2foutside.txt", "/.%2e/outside.txt", "/%2e./outside.txt", "/css/%2e%2e/%2e%2e/outside.txt",
           "/..", "/../", "/../site-twin.txt", "/..%5coutside.txt", "/storage/../../outside.txt",
           "/%2E%2E/outside.txt", "/css/..%2f..%2foutside.txt", "/a/../../outside.txt", "/./../outside.txt",
           "/.../outside.txt", "/%252e%252e/outside.txt", "/..%00/outside.txt", "/../site/../outside.txt",
           "../outside.txt", "-twin.txt", "outside.txt", "/bin/../../outside.txt?x=1", "/%2e%2e%2f%2e%2e%2f%2e%2e%2fetc/hostname"]


class S06(S.ServerProp):
    ID = "S06"
    RULE = ("one case: 2-5 clients fetch static files, pages, missing and escaping paths while website-file opens "
            "and reads fail, are short or interrupted; non-trivial: a disk fault fired or an escaping path was asked "
            "for, and a file came back")

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 2, 3, 4])
        reqs = S.workload(rng, rng.randrange(2, 6), (1, 5), spread=800,
                          weights={"static": 60, "page": 25, "missing": 8, "doc": 4, "json": 4})
        for i in range(rng.randrange(0, 4)):
            path = rng.choice(ESCAPES)
            if rng.random() < .3:
                path = path.replace("outside.txt", "outside%2etxt")
            if rng.random() < .2:
                j = rng.randrange(1, len(path)) if len(path) > 1 else 0
                if j and path[j] != "%" and "%" not in path[max(0, j - 2):j]:
                    path = path[:j] + "%%%02x" % ord(path[j]) + path[j + 1:]
            op = {"k": "raw", "id": f"e{i}", "uri": path}
            m = rng.choice(["GET", "GET", "HEAD", "POST"])
            raw = (f"{m} {path} HTTP/1.0\r\n\r\n").encode()
            reqs.append({"client": 100 + i, "op": op, "raw": raw.hex(), "start": rng.randrange(800)})
        plan = S.base_plan(rng, t)
        sc = {"threads": t, "plan": plan, "reqs": reqs, "probes": 1}
        if rng.random() < .8:
            plan["classes"] = R.C_SITE
            for k, ps in (("open_err", (.05, .3)), ("read_err", (.05, .3, .9)), ("read_short", (.3, .9)), ("read_eintr", (.1, .5)),
                          ("stat_err", (.1, 1.0))):
                if rng.random() < .5:
                    plan["p"][k] = rng.choice(ps)
        return sc

    def execute(self, ctx, sc, o, decs):
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        faulty = bool(sc["plan"].get("classes"))
        ok = esc = 0
        if S.judge_end(o, r, v):
            for rec in v.ops:
                if rec["op"] and rec["op"]["k"] == "raw":
                    st, req, n = M.parse_request(rec["raw"])
                    esc += 1
                    rec["op"] = M.op_of(req, rec["op"]["id"]) if st == "ok" else {"k": "bad", "id": "x", "uri": "?"}
                    if rec["op"] is None and rec["reply"].ok and rec["reply"].status == 200 and \
                            not rec["raw"].split(b" ")[1].startswith((b"/css", b"/./css")):
                        pass
            S.judge_replies(o, r, v)
            S.judge_model(o, ctx, v, sig="file-differs", loose=bool(v_faults(r)))
            S.judge_probes(o, r, v)
            S.judge_outside(o, v)
            S.judge_conserved(o, v)
        ok = sum(1 for x in v.ops if x["reply"].ok and x["reply"].status == 200)
        o.notes = {"escaping paths asked for": esc, "files served": ok}
        o.nontrivial = ok > 0 and (bool(v_faults(r)) or esc > 0)
        o.key = r.hash


def v_faults(r):
    return sum(r.fired.get(k, 0) for k in ("open_err", "read_err", "read_short", "read_eintr", "write_err",
                                           "write_short", "write_eintr", "close_err", "meta_err", "stat_err", "dir_err"))


# -- S07 ---------------------------------------------------------------------------------------------------
STORE_PIPES = [S.ECHO, S.PIPES[2], S.PIPES[4], S.PIPES[7], S.PIPES[5]]


class S07(S.ServerProp):
    ID = "S07"
    RULE = ("one case: 1-3 lives of a server on one disk (clean stop, or a crash at a random disk operation), each "
            "storing outputs from several clients and fetching links of this and earlier lives, with the clock "
            "set back, repeated or months ahead between lives, some lives a restart of the whole program, and disk-full, "
            "write, rename and close errors; non-trivial: "
            "a link was handed out and fetched later")
    REAL = S.REAL

    def gen(self, ctx, rng, tier):
        lives = []
        wall = 1330000000000000
        # outputs that differ in their last word only, and outputs that are equal
        stem = b"same " * rng.choice([1, 10, 120, 700])
        alike = rng.choice([0, .3, .8])
        for l in range(rng.choice([1, 2, 2, 3])):
            t = rng.choice([1, 2, 3])
            reqs = []
            for c in range(rng.randrange(1, 5)):
                st = rng.choice([0, 0, rng.randrange(1000)])
                for j in range(rng.randrange(1, 4)):
                    tag = f"L{l}c{c}x{j}"
                    k = rng.choices(["pipe", "link", "old", "page"], [6, 4, 3 if l else 0, 1])[0]
                    if k == "pipe":
                        t_ = stem + rng.choice([tag, tag, "twin"]).encode() if rng.random() < alike else S.text(rng, tag)
                        f = [["pipe-text", S.hx(rng.choice(STORE_PIPES))], ["input-text", S.hx(t_)]]
                        op = {"k": "pipe", "method": rng.choice(["GET", "POST"]), "fields": f}
                        raw = S.make_req(rng, op)
                    elif k == "page":
                        op = {"k": "page", "path": "/psitoolkit.html"}
                        raw = S.make_req(rng, op)
                    else:
                        op = {"k": "link", "uri": "@LINK@"}
                        raw = S.make_req(rng, op)
                        if k == "old":
                            op["old"] = rng.randrange(1000)
                            raw = raw.replace(b"@LINK@", b"@OLD%d@" % op["old"])
                    op["id"] = f"{l}_{c}_{j}"
                    q = {"client": c, "op": op, "raw": raw.hex(), "start": st, "gap": rng.choice([1, 20, 300])}
                    if rng.random() < .2:
                        S.delivery(rng, raw, q)
                    reqs.append(q)
            plan = S.base_plan(rng, t)
            wall += rng.choice([0, 0, 0, 1, 2, 5, -1, -3, 3600, 86400, -86400, 86400 * 40, 86400 * 800]) * 1000000
            plan["wall"] = wall
            life = {"threads": t, "plan": plan, "reqs": reqs, "probes": 0}
            if rng.random() < .3:
                life["tail"] = ["jump at=%d by=%d" % (rng.randrange(1500), rng.choice([-3, -2, -1, 1, 2, 86400 * 2, 86400 * 100]) * 1000000)
                                for _ in range(rng.randrange(1, 4))]
            m = rng.random()
            if m < .3:
                plan["crash_at"] = rng.randrange(1, 60)
                life.setdefault("tail", []).append("crashable")
            elif m < .65:
                plan["classes"] = R.C_STORE
                x = rng.random()
                if x < .3:
                    plan["full"] = [rng.randrange(40), rng.choice([1, 3, 20, 1000])]
                else:
                    for k in ("open_err", "write_err", "write_short", "write_eintr", "close_err", "meta_err",
                              "read_err", "read_short", "stat_err"):
                        if rng.random() < .5:
                            plan["p"][k] = rng.choice([.05, .2, .5])
            if l and rng.random() < .06:
                # start-up code included: it meets what the lives before left on the disk
                life["fresh"] = 1
            lives.append(life)
        return {"lives": lives}

    def execute(self, ctx, sc, o, decs):
        promised = {}                  # link -> bytes
        attempts = set()
        handed = fetched = 0
        ctx.model()
        for life in sc["lives"]:
            ctx.image(life["threads"])
        ctx.wd.clean()
        for l, life in enumerate(sc["lives"]):
            old = sorted(promised)
            run = dict(life, reqs=[self.fill(q, old) for q in life["reqs"]])
            try:
                r = S.run_server(ctx, run, o, decs, l, keep=True)
            except R.ImageError as e:
                if not life.get("fresh"):
                    raise
                o.bad("restart-failed", f"life {l}: {e}")
                return
            v = S.View(run, r)
            crashed = r.end() == "crashed"
            if not crashed and not S.judge_end(o, r, v):
                return
            faults = v_faults(r) + (1 if "full" in life["plan"] else 0)
            content = {}
            mdl = ctx.model()
            for q in run["reqs"]:
                op = q["op"]
                if op["k"] == "pipe":
                    f = {a: bytes.fromhex(b) for a, b in op["fields"]}
                    pipe = f["pipe-text"].decode().replace(" | ", " ! ")
                    st, out = mdl.lib.run(pipe, f["input-text"])
                    content[op["id"]] = out if st != "exception" else None
                    if st != "exception":
                        attempts.add(out)
            before = dict(promised)
            if not crashed:
                for rec in v.ops:
                    op = rec["op"]
                    if not op or not rec["reply"].ok:
                        continue
                    if op["k"] == "pipe" and rec["reply"].status == 200:
                        m = re.search(rb"'fileToDownload' : '([^']*)'", rec["reply"].body)
                        link = m.group(1).decode("latin-1") if m else ""
                        want = content[op["id"]]
                        if want is None:
                            if link:
                                o.bad("link-without-output", f"{S.describe(rec)} failed but links to {link}")
                        elif not link:
                            if not faults:
                                o.bad("output-not-stored", f"{S.describe(rec)} succeeded on a healthy disk without a link")
                        else:
                            handed += 1
                            if promised.get(link, want) != want:
                                o.bad("link-reused", f"{S.describe(rec)} was given {link}, which already holds "
                                      f"{promised[link][:60]!r}")
                            promised[link] = want
                S.judge_replies(o, r, v)
                for rec in v.ops:
                    op = rec["op"]
                    if not op or op["k"] != "link" or not rec["reply"].ok:
                        continue
                    uri = rec["raw"].split(b" ")[1].decode("latin-1")
                    rep = rec["reply"]
                    if uri in promised:
                        fetched += 1
                        if rep.status in (404, 500) and faults:
                            continue
                        if rep.status != 200 or rep.body != promised[uri]:
                            o.bad("stored-output-differs", f"life {l}: {uri} came back as {rep.status} "
                                  f"{rep.body[:80]!r}, stored was {promised[uri][:80]!r}")
                        elif rep.ctype != M.content_type(uri):
                            o.bad("stored-output-type", f"{uri} came as {rep.ctype}")
                    elif uri == "/nolink" and rep.status != 404:
                        o.bad("no-such-file", f"/nolink came back as {rep.status}")
            else:
                self.after_crash(o, r, v, run, content, promised)
            # the disk itself
            for name, data in ctx.wd.storage().items():
                uri = "/storage/" + name
                if uri in promised:
                    if data != promised[uri]:
                        o.bad("stored-output-differs", f"life {l}: the file behind {uri} holds {data[:60]!r} "
                              f"({len(data)} bytes), promised was {promised[uri][:60]!r} ({len(promised[uri])} bytes)"
                              f"{' after a crash' if crashed else ''}")
                elif name.endswith(".part"):
                    if not crashed and not any(x["plan"].get("crash_at") for x in sc["lives"][:l]):
                        o.bad("part-left", f"life {l} ended in order and left {name}")
                elif data not in attempts:
                    o.bad("partial-output", f"life {l}{' (crashed)' if crashed else ''}: {name} holds {data[:60]!r} "
                          f"({len(data)} bytes), which is nobody's output")
            names = set(ctx.wd.storage())
            for uri in promised:
                if uri[len("/storage/"):] not in names:
                    o.bad("stored-output-lost", f"life {l}: {uri} is gone")
        o.notes = {"links handed out": handed, "links fetched": fetched, "lives": len(sc["lives"]),
                   "restarts of the whole program": sum(1 for x in sc["lives"] if x.get("fresh")),
                   "fault:disk_full": sum(1 for r in o.results for f in r.faults if f.startswith("disk_full"))}
        o.nontrivial = handed > 0 and (fetched > 0 or len(sc["lives"]) > 1)

    @staticmethod
    def after_crash(o, r, v, run, content, promised):
        # the process is gone; what the clients had in full before that still stands
        for i, q in enumerate(run["reqs"]):
            rep = M.Reply(r.blobs.get(f"resp{i}", b""))
            if rep.ok and rep.status == 200 and q["op"]["k"] == "pipe":
                m = re.search(rb"'fileToDownload' : '([^']*)'", rep.body)
                link = m.group(1).decode("latin-1") if m else ""
                if link and content[q["op"]["id"]] is not None:
                    if promised.get(link, content[q["op"]["id"]]) != content[q["op"]["id"]]:
                        o.bad("link-reused", f"{link} was given out twice")
                    promised[link] = content[q["op"]["id"]]

    @staticmethod
    def fill(q, old):
        n = q["op"].get("old")
        if n is None:
            return q
        uri = old[n % len(old)] if old else "/nolink"
        raw = bytes.fromhex(q["raw"]).replace(b"@OLD%d@" % n, uri.encode("latin-1"))
        return dict(q, raw=raw.hex(), op=dict(q["op"], uri=uri))

    def shrink(self, sc):
        ls = sc["lives"]
        for i in range(len(ls)):
            if len(ls) > 1:
                yield {"lives": ls[:i] + ls[i + 1:]}
        for i, life in enumerate(ls):
            for s in super().shrink(life):
                yield {"lives": ls[:i] + [s] + ls[i + 1:]}

    def sample(self, sc, o):
        return {"lives": [super(S07, self).sample(l, type("O", (), {"results": [r]})) for l, r in zip(sc["lives"], o.results)]}


# -- S08 --------------------------------------------------------------------------------------------------
class S08(S.ServerProp):
    ID = "S08"
    RULE = ("one case: 0-6 clients in any state (idle, half a request, waiting, not reading, being accepted) when "
            "SIGTERM, SIGINT or SIGQUIT arrives at a random moment, after which no client does anything; "
            "non-trivial: a connection was open when the signal came")

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 2, 3, 4])
        reqs = S.workload(rng, rng.randrange(0, 7), (1, 4), spread=600)
        spoil(rng, reqs, rng.choice([0, .3, .6]))
        plan = S.base_plan(rng, t)
        for k in ("accept_err", "recv_err", "send_err"):
            if rng.random() < .2:
                plan["p"][k] = .1
        at = rng.choice([0, 1, rng.randrange(50), rng.randrange(800), rng.randrange(3000)])
        tail = ["term at=%d sig=%d freeze=%d" % (at, rng.choice([2, 3, 15]), rng.random() < .7)]
        if rng.random() < .2:
            tail.append("term at=%d sig=%d" % (at + rng.randrange(5), rng.choice([2, 3, 15])))
        return {"threads": t, "plan": plan, "reqs": reqs, "probes": 0, "tail": tail}

    def execute(self, ctx, sc, o, decs):
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        t = r.recs("T")
        if S.judge_end(o, r, v):
            if r.detail != "rc=0":
                o.bad("exit-status", f"psi-server ended with {r.detail}")
            if v.s["threads"] != 1:
                o.bad("threads-left", f"{v.s['threads'] - 1} server threads are alive after main() returned")
            if v.s["socks"] != 0 or v.s["listening"] != 0:
                o.bad("sockets-left", f"after main() returned {v.s['socks']} connections are open, listening={v.s['listening']}")
            if t and v.s["end_t"] - t[0]["t"] > 60000000:
                o.bad("shutdown-slow", "the shutdown took more than a simulated minute")
        n = t[0]["open"] if t else 0
        o.notes = {"connections open at the signal": n, "fault:signal": len(t)}
        o.nontrivial = n > 0
        o.key = r.hash


# -- S09 ---------------------------------------------------------------------------------------------------
class S09(S.ServerProp):
    ID = "S09"
    RULE = ("one case: 10-40 requests of 4-10 clients with abandoned connections, network errors and website, "
            "storage and data-file faults; after everybody has left descriptors, threads and temporary files "
            "are counted; non-trivial: at least one fault or abandoned connection")

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 2, 3, 4])
        reqs = S.workload(rng, rng.randrange(4, 11), (1, 5), spread=1500, slow=rng.random() < .1,
                          weights={"static": 25, "page": 15, "pipe": 25, "json": 15, "missing": 10, "link": 10, "doc": 3})
        for i in range(rng.randrange(0, 4)):
            raw = weird(rng)
            reqs.append({"client": 200 + i, "op": {"k": "raw", "id": f"w{i}", "uri": "?"}, "raw": raw.hex(), "start": rng.randrange(1500)})
        spoil(rng, reqs, rng.choice([.1, .3, .6]))
        plan = S.base_plan(rng, t)
        for k in ("accept_err", "recv_err", "send_err"):
            if rng.random() < .4:
                plan["p"][k] = rng.choice([.02, .1, .3])
        if rng.random() < .6:
            plan["classes"] = rng.choice([R.C_SITE, R.C_STORE, R.C_DATA, R.C_SITE | R.C_STORE | R.C_DATA | R.C_TMP])
            for k in ("open_err", "read_err", "write_err", "close_err", "meta_err", "read_short", "write_short", "stat_err"):
                if rng.random() < .5:
                    plan["p"][k] = rng.choice([.02, .1, .3])
        return {"threads": t, "plan": plan, "reqs": reqs, "probes": 2}

    def execute(self, ctx, sc, o, decs):
        r = S.run_server(ctx, sc, o, decs)
        v = S.View(sc, r)
        if S.judge_end(o, r, v):
            S.judge_conserved(o, v)
            S.judge_probes(o, r, v)
            want = sc["threads"] + 2
            for st, q in v.q.items():
                if "threads" in q and q["threads"] != want:
                    o.bad("threads-lost", f"{q['threads']} threads at stage {st}, the server runs {want}")
            left = os.listdir(ctx.wd.p("tmp"))
            if left:
                o.bad("temporary-files-left", f"/tmp holds {left[:5]} after every client has left")
            part = [x for x in ctx.wd.storage() if x.endswith(".part")]
            if part:
                o.bad("temporary-files-left", f"the storage holds {part[:5]}")
        gave = sum(1 for rec in v.ops if rec["gave_up"])
        o.notes = {"requests": len(v.ops), "fault:client gone": gave}
        o.nontrivial = gave > 0 or v_faults(r) > 0 or any(r.fired.get(k) for k in ("accept_err", "recv_err", "send_err"))
        o.key = r.hash


# -- S10 ---------------------------------------------------------------------------------------------------
RECORD = re.compile(rb"^([A-Z]+) \d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} : ", re.M)


class S10(S.ServerProp):
    ID = "S10"
    RULE = ("one case: 2-6 clients whose requests, well-formed or not, overlap on 2-4 threads while accepting fails now and "
            "then, at log level INFO; the log's records are compared with those of the same requests one at a time; "
            "non-trivial: the server switched threads within a stretch of computation and wrote at least ten records")

    def gen(self, ctx, rng, tier):
        t = rng.choice([2, 3, 4, 4])
        reqs = []
        # at times all of them are refused at once, some with many headers
        refused = rng.random() < .3
        for c in range(rng.randrange(2, 7)):
            st = rng.choice([0, 0, rng.randrange(300)]) if not refused else 0
            for j in range(rng.randrange(1, 4)):
                k = rng.random()
                if refused:
                    h = "".join("X-%d-%d: %s\r\n" % (c, i, "v%d" % j * rng.choice([1, 5, 20])) for i in range(rng.choice([2, 10, 40, 90])))
                    raw = (rng.choice(["POST /%d_%d", "POST /%d_%d", "POST /%d b_%d", "GET /../../%d_%d"]) % (c, j) +
                           " HTTP/1.0\r\n" + h + "\r\n").encode()
                    op = {"k": "raw", "id": f"{c}_{j}", "uri": "?"}
                elif k < .35:
                    raw = rng.choice([b"POST /pipe.psis HTTP/1.0\r\nX: %d\r\n\r\n" % c, b"POST / HTTP/1.1\r\n\r\n",
                                      b"GET /a b\r\n\r\n", b"GET /css/../../outside.txt HTTP/1.0\r\n\r\n"])
                    op = {"k": "raw", "id": f"{c}_{j}", "uri": "?"}
                else:
                    op = S.gen_op(rng, f"L{c}x{j}", False, {"pipe": 3, "json": 6, "static": 3, "missing": 1, "page": 1})
                    op["id"] = f"{c}_{j}"
                    raw = S.make_req(rng, op)
                q = {"client": c, "op": op, "raw": raw.hex(), "start": st, "gap": rng.choice([1, 5, 20])}
                if rng.random() < .3:
                    S.delivery(rng, raw, q)
                reqs.append(q)
        plan = S.base_plan(rng, t)
        if refused and rng.random() < .7:
            plan["p"].update({"sched": .5, "point": rng.choice([.15, .4]), "gap": .9, "wake": .5, "recv_short": 0})
        if rng.random() < .6:
            plan["p"]["accept_err"] = rng.choice([.1, .4])
        return {"threads": t, "plan": plan, "reqs": reqs, "probes": 0, "level": "INFO"}

    @staticmethod
    def records(r):
        text = r.blobs.get("stderr", b"")
        ms = list(RECORD.finditer(text))
        head = text[:ms[0].start()] if ms else text
        out = []
        for i, m in enumerate(ms):
            body = text[m.end():ms[i + 1].start() if i + 1 < len(ms) else len(text)]
            body = re.sub(rb"PSISESSIONID=[A-Za-z0-9-]+", b"PSISESSIONID=@", body)
            body = re.sub(rb"/storage/[A-Za-z0-9-]+", b"/storage/@", body)
            body = re.sub(rb"(random example) .*", rb"\1", body, flags=re.S)
            out.append((m.group(1), body))
        return head, out

    def execute(self, ctx, sc, o, decs):
        run = dict(sc, args=["--log-level", sc["level"]], tail=["stderr x=1"])
        r = S.run_server(ctx, run, o, decs, 0)
        if not S.judge_end(o, r, None):
            return
        if any(k in ("send_err", "recv_err", "open_err", "read_err", "write_err") for k in r.fired):
            return      # only in a replay that is being made smaller: such errors decide what is logged
        # a connection that failed while it was accepted brought no request
        served = [x["idx"] for x in S.View(run, r).ops if x["reply"].ok and x["idx"] < len(sc["reqs"])]
        # one at a time, a simulated second apart
        calm = dict(run, threads=1, plan=dict(sc["plan"], p={}))
        calm["reqs"] = [dict({a: b for a, b in sc["reqs"][i].items() if a not in ("seg", "dly", "win", "refill", "rdly")},
                             start=1000000 * (n + 1)) for n, i in enumerate(served)]
        r0 = S.run_server(ctx, calm, o, decs, 1)
        if not S.judge_end(o, r0, None):
            return
        h0, want = self.records(r0)
        h, got = self.records(r)
        missed = r.fired.get("accept_err", 0)
        if h:
            o.bad("broken-record", f"the log begins with {h[:80]!r}, which is no record")
        # what depends on nothing but the request itself
        a, b = sorted(x for x in want), sorted(got)
        extra, lack = list(b), []
        for x in a:
            if x in extra:
                extra.remove(x)
            else:
                lack.append(x)
        fails = [x for x in extra if x[0] == b"ERROR" and x[1].count(b"\n") == 1]
        if len(fails) <= missed and len({x[1].split(b":")[0] for x in fails}) <= 1:
            extra = [x for x in extra if x not in fails]
        if lack or extra:
            o.bad("log-differs", f"records that the same requests one at a time give are missing: {lack[:3]}, and there are "
                                 f"others instead: {extra[:3]} (accepting failed {missed} times)")
        o.notes = {"records": len(got)}
        o.nontrivial = len(got) >= 10 and r.fired.get("preempt", 0) + r.fired.get("point", 0) + r.fired.get("gap", 0) > 0
        o.key = r.hash


# -- S11 ---------------------------------------------------------------------------------------------------
class S11(S.ServerProp):
    ID = "S11"
    RULE = ("one case: 1-4 clients whose requests run while allocations fail from a random one on, or while opening and "
            "reading rule, model and lexicon files fails, and afterwards requests of the same and of new clients; "
            "non-trivial: a failure took place and a reply was judged")
    CALM = 60000000

    def gen(self, ctx, rng, tier):
        t = rng.choice([1, 1, 2, 3, 4])
        mode = rng.choice(["oom", "oom", "data"])
        reqs = []
        n = rng.randrange(1, 5)
        if mode == "data" and rng.random() < .3:
            # pages of documentation, and the same ones for others later
            for c in range(n):
                reqs.append(self.req(rng, c, "a%d" % c, rng.choice([0, 0, rng.randrange(1500)]), "docs"))
            for c in range(n):
                op = dict(reqs[c]["op"], id="b%d" % c)
                reqs.append({"client": n + c, "op": op, "raw": S.make_req(rng, op).hex(), "start": self.CALM + 10, "gap": 1})
            return self.plan(rng, t, mode, reqs)
        for c in range(n):
            reqs.append(self.req(rng, c, "a%d" % c, rng.choice([0, 0, rng.randrange(1500)]), mode))
        for c in list(range(n)) + [n]:
            for j in range(rng.choice([1, 1, 2])):
                reqs.append(self.req(rng, c, "b%d_%d" % (c, j), self.CALM + 10 + rng.choice([0, rng.randrange(1500)]), mode))
        return self.plan(rng, t, mode, reqs)

    @staticmethod
    def plan(rng, t, mode, reqs):
        plan = S.base_plan(rng, t)
        sc = {"threads": t, "plan": plan, "reqs": reqs, "probes": 1, "mode": mode, "tail": []}
        if mode == "oom":
            sc["frac"] = rng.random()
            if rng.random() < .3:
                # buffers of messages grow with the first ones
                sc["args"] = ["--log-level", "INFO"]
                sc["frac"] **= rng.choice([1, 2, 4])
                sc["threads"] = rng.choice([1, 1, t])
            sc["len"] = rng.choice([1, 1, 1, 2, 5, 50, 3000, 1 << 40])
        else:
            plan["classes"] = R.C_DATA | R.C_LEX
            plan["max_faults"] = rng.choice([1, 1, 2, 5, 1000])
            for k in ("open_err", "read_err", "read_short", "read_eintr", "stat_err", "dir_err"):
                if rng.random() < .5:
                    plan["p"][k] = rng.choice([.02, .1, .3])
        return sc

    @staticmethod
    def req(rng, c, ident, start, mode):
        # what pages show depends on the session: only a client's first request asks for one
        w = [5, 5, 0, 1, 0] if ident[0] == "b" else [5, 5, 2, 1, .5] if mode == "oom" else [5, 5, .3, 0, 0]
        if mode == "docs":
            w = [0, 0, 1, 0, 3]
        k = rng.choices(["pipe", "json", "page", "static", "doc"], w)[0]
        tag = "T" + ident
        if k in ("page", "static", "doc"):
            op = S.gen_op(rng, tag, weights={k: 1})
        else:
            pipe = rng.choice(S.PIPES if rng.random() < (.75 if mode == "oom" else .35) else S.SLOW_PIPES)
            inp = S.text(rng, tag, big=False)
            op = {"k": k, "method": rng.choice(["POST", "POST", "MULTI"] if k == "pipe" else ["GET", "POST"]),
                  "fields": [["pipe-text", S.hx(pipe)], ["input-text", S.hx(inp)]] if k == "pipe" else
                  [["pipe", S.hx(pipe)], ["input", S.hx(inp)]]}
        op["id"] = ident
        raw = S.make_req(rng, op)
        q = {"client": c, "op": op, "raw": raw.hex(), "start": start, "gap": rng.choice([1, 20, 300])}
        if rng.random() < .2:
            S.delivery(rng, raw, q)
        return q

    def execute(self, ctx, sc, o, decs):
        mdl = ctx.model()
        calm = "calm at=%d" % self.CALM
        if sc["mode"] == "oom":
            r = S.run_server(ctx, dict(sc, tail=["oom at=-1 len=1", calm]), o, decs, 0)
            if r.end() != "ok":
                return S.judge_end(o, r, None) and None
            c = r.recs("C")
            n = c[0]["allocs"] if c else r.recs("S")[0]["allocs"]
            tail = ["oom at=%d len=%d" % (1 + int(sc["frac"] * n), sc["len"]), calm, "stderr x=1"]
            r = S.run_server(ctx, dict(sc, tail=tail), o, decs, 1)
            failed = r.fired.get("alloc_fail", 0)
        else:
            r = S.run_server(ctx, dict(sc, tail=[calm]), o, decs, 0)
            failed = v_faults(r)
        v = S.View(sc, r)
        answers = 0
        ended = failed and sc["mode"] == "oom" and r.end() in ("signal6", "returned_early", "exit1")
        if not ended and not S.judge_end(o, r, v):
            return
        judged = errors = 0
        store = ctx.wd.storage()
        for rec in v.ops:
            if not rec["op"] or "conn" not in rec:
                continue
            rep = rec["reply"]
            later = rec["op"]["id"].startswith("b")
            touched = not later and failed
            if not rep.ok:
                if rep.raw and not ended:
                    o.bad("broken-reply", f"{S.describe(rec)}: {rep.why}")
                elif not touched and not ended and rec["sent"] and S.clean_conn(rec):
                    o.bad("no-proper-reply", f"{S.describe(rec)}: {rep.why}")
                continue
            judged += 1
            why = self.wrong(mdl, rec, {})
            if why is None:
                self.stored(o, ctx, mdl, rec, store)
                answers += later
                continue
            if not touched:
                o.bad("later-reply-differs" if later else "reply-differs", f"{S.describe(rec)}: {why}")
            elif rep.status == 500:
                errors += 1
            elif rec["op"]["k"] in ("pipe", "json") and self.says_so(mdl, rec):
                errors += 1
            elif rec["op"]["k"] == "doc" and self.example_text(mdl, rec, r):
                o.bad("example-text", f"{S.describe(rec)} shows an example without its command or description after "
                                      f"{r.faults[:4]}")
            else:
                o.bad("wrong-answer", f"{S.describe(rec)} was disturbed and answered with {rep.status}: {why}")
        if not ended:
            S.judge_probes(o, r, v)
            logged = r.blobs.get("stderr", b"").count(b" : Answer headers: \n")
            if "args" in sc and logged < answers:
                o.bad("not-logged", f"{answers} requests were answered after the lack of memory, and only {logged} logged at all")
        o.notes = {"replies judged": judged, "requests answered with an error": errors, "server ended": int(bool(ended))}
        o.nontrivial = bool(failed) and judged > 0
        o.key = r.hash

    @staticmethod
    def wrong(mdl, rec, data):
        exp, _ = mdl.apply(rec["op"], data)
        return S.matches(mdl, exp, rec, {}, {}, False)

    def says_so(self, mdl, rec):
        """The reply is the right one for a pipeline that ended with an error."""
        b = rec["reply"].body
        m = re.search(rb"There are some problems: (.*)\"\n }" if rec["op"]["k"] == "json" else
                      rb"'errorOccured' : '(.*?)' };", b, re.S)
        if not m or not m.group(1):
            return False
        keep = mdl.lib.run
        mdl.lib.run = lambda pipe, text: ("exception", m.group(1))
        try:
            return self.wrong(mdl, rec, {}) is None
        finally:
            mdl.lib.run = keep

    def example_text(self, mdl, rec, r):
        """The page is the right one but for commands and descriptions of examples, whose files (WHAT, DESCRIPTION) could not
        be read: a known finding."""
        if not any(f.split(" ")[-1] in ("WHAT", "DESCRIPTION") for f in r.faults):
            return False
        f = {a: bytes.fromhex(b) for a, b in rec["op"]["fields"]}
        doc = mdl.learned.get(("doc", f.get("name", b"").decode("latin-1")))
        part = re.compile(rb'(<code class="example-pipe">|<div class="example-desc">)(.*?)'
                          rb'(?=</code>\n<div class="example-desc">|</div>\n<div class="in-out">)', re.S)
        want, rep = part.findall(doc[2] if doc else b""), rec["reply"]
        got = part.findall(rep.body)
        if not want or [x[0] for x in got] != [x[0] for x in want]:
            return False
        if any(a[1].strip() and a != b for a, b in zip(got, want)):
            return False
        left, keep = list(want), rep.body
        rep.body = part.sub(lambda m: b"".join(left.pop(0)), keep)
        try:
            return self.wrong(mdl, rec, {}) is None
        finally:
            rep.body = keep

    @staticmethod
    def stored(o, ctx, mdl, rec, store):
        m = re.search(rb"'fileToDownload' : '/storage/([^']*)'", rec["reply"].body)
        if m and rec["op"]["k"] == "pipe":
            f = {a: bytes.fromhex(b) for a, b in rec["op"]["fields"]}
            st, out = mdl.lib.run(f["pipe-text"].decode("latin-1").replace(" | ", " ! "), f["input-text"])
            if store.get(m.group(1).decode("latin-1")) != out:
                o.bad("stored-differs", f"{S.describe(rec)}: the link leads to something else than the output")


ALL = [S01, S02, S03, S04, S05, S06, S07, S08, S09, S10, S11]
