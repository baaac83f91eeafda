#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SRV = "server/server/"


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, level_note=None, na=None, observe=None, state=None,
      technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, level_note=level_note, na=na, observe=observe, state=state,
                      technique=technique or "deterministic simulation with fault injection"))


NOTE_SRV = ("Seeded exploration of the real psi-server linked with a simulated kernel (sockets, epoll, disk, clock, "
            "threads): no violation in the runs of this seed and budget; not a proof. Trusts the simulator's model of "
            "POSIX calls and a Python reference model whose answers to tool pipelines come from the same tree run alone.")
NOTE_PIPE = ("Seeded exploration of the real psi-pipe code on simulated standard streams and a simulated disk; no "
             "violation in the runs of this seed and budget, not a proof. The oracle is the same pipeline run "
             "undisturbed in a separate process.")

P("S01", "A reply depends only on the request and session, not on how bytes arrive",
  "For any way a client's request bytes are cut into pieces and delayed on the network, and for any split of the "
  "server's own reads and writes, the HTTP server sends exactly the reply that the same requests get when delivered "
  "whole and one at a time. This covers the status, headers and the complete body of every page, form, upload, JSON, "
  "redirect and error reply, and keeps replies in request order on each connection.",
  ["schedules", "inputs", "histories"],
  "every segmentation and timing of request bytes, every split of replies, 1-4 server threads, every sequence of requests "
  "of up to four clients",
  "The tests never open a socket: they call the session manager and template code directly. Whether a header, a form "
  "value or a multipart boundary cut in two is still understood depends on where the network cuts it.",
  [SRV + "request_parser.cpp", SRV + "connection.cpp", SRV + "request_handler.cpp", "server/psi_server.cpp",
   "server/mpfd-parser/Parser.cpp", SRV + "reply.cpp"],
  mech(("incremental request parser keeps its state between reads", SRV + "request_parser.cpp: consume"),
       ("body is read until Content-Length", SRV + "connection.cpp: handle_read"),
       ("reply is sent as one gathered write", SRV + "reply.cpp: to_buffers")),
  NOTE_SRV, observe=["bytes received by each simulated client"])

P("S02", "Any bytes a client sends get well-formed replies or a close, never a crash",
  "Whatever bytes a client sends, the server process survives, and every reply it sends is one complete, well-formed "
  "HTTP response whose Content-Length equals the body sent; a malformed request is answered with a client error or closed. "
  "Requests of well-behaved clients on other connections are answered correctly meanwhile.",
  ["inputs", "schedules"],
  "every byte sequence on up to six connections (random, mutated, truncated, oversized), every segmentation, "
  "1-4 threads",
  "No test sends malformed HTTP. The parser, the form decoder and the multipart parser see arbitrary untrusted bytes in "
  "states that depend on earlier bytes and on where reads end.",
  [SRV + "request_parser.cpp", SRV + "connection.cpp", "server/psi_server.cpp", "server/site/template_site.hpp",
   "server/mpfd-parser/Parser.cpp"],
  mech(("bad requests are answered with 400", SRV + "connection.cpp: handle_read"),
       ("exceptions while handling a request become a 500", SRV + "connection.cpp")),
  NOTE_SRV, observe=["bytes received by each simulated client", "end of the server process"])

P("S03", "One client's failure or a transient fault never harms other clients",
  "When some clients reset, half-close, stall, stop reading or leave in the middle of a request, and when accepting, "
  "receiving or sending fails, every other client's requests are still answered completely and correctly. Once the faults "
  "stop, the server goes on accepting connections and answers every complete request within a bounded time.",
  ["fault_sequences", "schedules"],
  "every sequence of client failures and network errors at any byte of up to five connections, 1-4 threads",
  "The tests contain no network and no failing system call.",
  [SRV + "connection.cpp", SRV + "server.cpp", "server/psi_server.cpp"],
  mech(("each connection has its own buffers, parser and lifetime", SRV + "connection.hpp"),
       ("accept is started again after every completion", SRV + "server.cpp: handle_accept")),
  NOTE_SRV, observe=["bytes received by each simulated client", "progress after the last fault"])

P("S04", "Sessions are isolated and each session's requests behave as if serialised",
  "Under any interleaving of concurrent requests, what a client sees (input text, pipe, output, links) comes only from "
  "requests that carried the same session identifier, and the replies of each session are those of some one-at-a-time "
  "order of its requests that respects real time. A request without a valid session identifier always starts a fresh session.",
  ["schedules", "histories"],
  "every interleaving of requests of up to three sessions with up to three overlapping connections each, on 2-4 threads",
  "Tests exercise the session store from one thread only; leaks between sessions need two requests inside the server at "
  "the same time.",
  ["server/psi_server.cpp", "server/session_manager.cpp", "server/session.cpp", "server/site/pipe_site.cpp",
   "server/site/json_site.cpp", "server/site/index_site.cpp"],
  mech(("session state is looked up by the PSISESSIONID cookie", "server/session_manager.cpp: getSession"),
       ("requests are handled one at a time", SRV + "connection.cpp")),
  NOTE_SRV, observe=["complete history of requests and replies with invocation and response order"])

P("S05", "A new session never receives an identifier that is already in use",
  "While the server runs, every client that starts without a valid session identifier is given one that no other session "
  "of this server holds, however many sessions are opened, however they interleave and however the system clock jumps. "
  "An identifier that was handed out keeps finding its session.",
  ["schedules", "fault_sequences", "histories"],
  "every clock history (standing still, jumping back and forth), thousands of sessions per process, concurrent requests "
  "on 1-4 threads",
  "The identifier is built from the wall clock and a counter; a test sees one clock and a handful of ids.",
  ["common/guid_generator.cpp", "server/session_manager.cpp", "server/psi_server.cpp"],
  mech(("identifiers combine date, counter and random digits", "common/guid_generator.cpp"),
       ("an identifier in use is not taken again", "server/session_manager.cpp: newSession")),
  NOTE_SRV, observe=["Set-Cookie of every reply", "ids returned by the session manager"])

P("S06", "Website files arrive byte-exact or as an error, and nothing outside is served",
  "A request for a file of the website returns exactly that file's bytes with status 200, or an error status, never a "
  "truncated or mixed body under a 200, also when opening or reading the file fails, is short or is interrupted. No request "
  "path, however encoded, returns the content of a file outside the website directory.",
  ["inputs", "fault_sequences", "schedules"],
  "every request path including escapes, every read fault and short read on website files, concurrent clients",
  "Tests do not serve files at all, and read errors cannot be produced by a unit test.",
  [SRV + "request_handler.cpp", "server/psi_request_handler.cpp", "server/site/template_site.hpp"],
  mech(("paths containing .. are refused", SRV + "request_handler.cpp"),
       ("read errors turn into a 500", SRV + "request_handler.cpp")),
  NOTE_SRV, observe=["bytes received by each simulated client"])

P("S07", "A stored result's link returns exactly the stored bytes, or no link is given",
  "A link to a stored output that was handed to a client returns exactly those output bytes, now, later, with concurrent "
  "clients storing their own, and after any crash and restart on the same disk; it never returns another client's or a "
  "partial output. When storing fails (disk full, write, close or rename error) the client gets its result without a "
  "link to broken content and the server goes on working.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "1-3 lives of a server with a crash at any disk operation, disk errors at any operation, clocks repeated between lives",
  "File storage has no test with two users, a failing disk or a restart.",
  ["common/file_storage.cpp", "server/site/pipe_site.cpp", "server/site/json_site.cpp", "common/guid_generator.cpp",
   SRV + "request_handler.cpp"],
  mech(("content is written under a temporary name and renamed", "common/file_storage.cpp"),
       ("names come from the id generator and are never reused while the file exists", "common/file_storage.cpp")),
  NOTE_SRV + " Crash model: process crash; bytes handed to the kernel survive.",
  observe=["links in replies", "replies to later requests for them", "files in the storage directory"])

P("S08", "Shutdown on a termination signal completes in bounded time in any state",
  "Whenever SIGTERM, SIGINT or SIGQUIT arrives, whatever connections are open, idle, half-way through a request or not "
  "reading, the server stops accepting, ends all its threads and exits normally within a bounded time. No further action of "
  "any client is needed.",
  ["schedules", "crash_points"],
  "a signal at any moment of any run with 0-6 clients in any state, 1-4 threads",
  "The tests never start the server.",
  ["server/psi_server.cpp", SRV + "server.cpp", SRV + "connection.cpp", "server/server_runner.cpp"],
  mech(("signals are blocked in workers and waited for in the main thread", "server/psi_server.cpp: run"),
       ("stop closes the acceptor and the io_service", SRV + "server.cpp: stop")),
  NOTE_SRV, observe=["end of the process", "simulated time after the signal"])

P("S09", "Serving requests leaks no descriptor, thread or temporary file",
  "After any history of requests, abandoned connections, network errors and disk faults, once all clients have left, the "
  "server holds the same number of open descriptors and threads as when it was idle and has left no file outside its "
  "storage directory. Every temporary file made for a request is gone.",
  ["histories", "fault_sequences", "schedules"],
  "10-40 requests of up to ten clients with abandonments and faults at any point",
  "Leaks show only as counts over long histories and mostly on error paths the tests do not take.",
  [SRV + "connection.cpp", SRV + "server.cpp", "server/mpfd-parser/Field.cpp", "common/file_extractor.cpp",
   "framework/pipe_runner.cpp"],
  mech(("connections are reference counted by their pending operations", SRV + "connection.hpp"),
       ("uploaded fields delete their temporary file", "server/mpfd-parser/Field.cpp")),
  NOTE_SRV, observe=["open descriptors, threads and files of the simulated process"])

P("S10", "Log records of concurrent requests are whole, one per message, none lost",
  "Whatever the interleaving of concurrent requests, each message the server logs appears as one whole record, never mixed "
  "with another, lost, repeated or truncated. The records are those that the same requests give one at a time.",
  ["schedules", "fault_sequences"],
  "2-6 clients, up to three overlapping requests each, 2-4 server threads, log level INFO, failing accepts",
  "The tests log from one thread; shared buffers break only when threads meet inside a message.",
  ["common/logging.hpp", "common/logging.cpp", SRV + "connection.cpp", SRV + "server.cpp", SRV + "psi_request_handler.cpp"],
  mech(("records are composed in a thread's own buffer", "common/logging.hpp")),
  NOTE_SRV, observe=["the log records of the simulated process"])

P("S11", "Short memory or unreadable data files never give a wrong answer with success",
  "When memory runs short or a rule, model or lexicon file cannot be opened or read while a request is handled, the client "
  "gets the right reply or an error, never a wrong answer under a success status; only for lack of memory may the server end. "
  "Later requests of any client are answered as if it had not happened.",
  ["fault_sequences", "schedules", "histories"],
  "1-4 clients; any allocation from any moment on fails, once or for good; open and read errors in any data file; up to ten "
  "later requests",
  "Neither allocations nor data files fail in the tests, and what a failed request leaves behind shows only in later ones.",
  ["server/psi_request_handler.cpp", SRV + "connection.cpp", "server/site/pipe_site.cpp",
   "framework/pipe_runner.cpp", "common/memory_shortage.cpp"],
  mech(("exceptions of a request end in an error reply", SRV + "connection.cpp"),
       ("processors are kept between requests", "framework/pipe_runner.cpp")),
  NOTE_SRV + " malloc and allocations of other projects' libraries are not failed.",
  observe=["reply of every request", "end of the process"])

for f in ("props_pipe.py", "props_more.py"):
    exec(open(os.path.join(HERE, "docs", f)).read())


def main():
    import sys
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import check
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            a = {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if p["id"] not in check.PROPS:
            na.append({"property": p["id"], "reason": "no check yet"})
            continue
        checks.append({"property": p["id"],
                       "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
    for i in check.PROPS:
        assert i in ids, i
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 vlib/build.py",
                   "hooks": {"guard": "PSISIM",
                             "enable": "no hook in /repo was needed: /verif/vlib/build.py compiles /repo's sources unchanged "
                                       "and links them with an in-process kernel (/verif/sim) that replaces the C library's "
                                       "socket, epoll, file, clock, thread and signal calls",
                             "source_commits": []},
                   "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
