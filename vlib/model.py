"""Reference model of psi-server: sessions, forms, pages, JSON replies, stored outputs.

Pipeline results and file-type recognition are taken from the library itself, run alone on
an undisturbed simulated machine (class Lib); everything the server adds is modelled here.
"""
import os
import re

INITIAL_PIPE = "read-text ! write-simple --tags frag"
INITIAL_TEXT = "My cat bit your dog."
MAX_INPUT = 524288
TOO_LARGE = b"Input is too large. Limit is 512 KBs."

CT = {"htm": "text/html", "html": "text/html", "shtml": "text/html", "css": "text/css",
      "js": "application/javascript", "pdf": "application/pdf", "ps": "application/postscript",
      "eps": "application/postscript", "ai": "application/postscript",
      "doc": "application/msword", "xdoc": "application/msword", "rtf": "application/rtf",
      "zip": "application/zip", "jpg": "image/jpeg", "jpeg": "image/jpeg", "jpe": "image/jpeg",
      "png": "image/png", "gif": "image/gif", "tiff": "image/tiff", "tif": "image/tif"}


def content_type(uri):
    s, e = uri.rfind("/"), uri.rfind("?")
    name = ""
    if s >= 0:
        name = uri[s + 1:e] if e > s else uri[s + 1:]
    if name == "json.psis":
        return "text/javascript;charset=UTF-8"
    ext = name[name.rfind(".") + 1:] if "." in name else ""
    return CT.get(ext, "text/html") + ";charset=UTF-8"


def stock(status):
    text = {400: "Bad Request", 404: "Not Found", 500: "Internal Server Error"}[status]
    return (f"<html><head><title>{text}</title></head><body><h1>{status} {text}</h1></body>"
            f"</html>").encode()


class Lib:
    """The library, asked directly."""

    def __init__(self, image):
        self.im = image
        self.cache = {}

    def _cmd(self, line):
        r = self.im.run("seed 1\nL " + line + "\n")
        if r.died or r.outcome != "ok":
            return ("died", b"" + r.end().encode())
        x = [w for w in r.lines if w.startswith("X 0 ")][0].split(" ")[2]
        return (x, r.blobs["x0"])

    def run(self, pipe, text):
        """(status, output bytes); status 'exception' carries the message."""
        k = ("run", pipe, text)
        if k not in self.cache:
            self.cache[k] = self._cmd(f"run pipe={pipe.encode('latin-1').hex()} in={text.hex()}")
        return self.cache[k]

    def recognize(self, data):
        k = ("rec", data)
        if k not in self.cache:
            st, b = self._cmd(f"recog in={data.hex()}")
            self.cache[k] = b.decode().split("\n")
        return self.cache[k]


def encode_html(b):
    return (b.replace(b"&", b"&amp;").replace(b'"', b"&quot;").replace(b"'", b"&apos;")
            .replace(b"<", b"&lt;").replace(b">", b"&gt;"))


def json_escape(b):
    for a, c in ((b"\b", b"\\b"), (b"\t", b"\\t"), (b"\n", b"\\n"), (b"\r", b"\\r"),
                 (b'"', b'\\"'), (b"/", b"\\/")):
        b = b.replace(a, c)
    return b


class Expected:
    def __init__(self, status, ctype, body):
        self.status, self.ctype, self.body = status, ctype, body


class Model:
    def __init__(self, site, lib, learned):
        self.site = site                    # directory of the website files
        self.lib = lib
        self.learned = learned              # include name -> expansion, ("doc", name) -> tuple
        self.files = {}

    def file(self, path):
        if path not in self.files:
            try:
                with open(os.path.join(self.site, path.lstrip("/")), "rb") as f:
                    self.files[path] = f.read()
            except OSError:
                self.files[path] = None
        return self.files[path]

    # -- page pieces ---------------------------------------------------------------------
    def include(self, name, d):
        if name in ("pipe_site_input_text", "pipe_site_pipe_text", "pipe_site_output_text"):
            key = {"pipe_site_input_text": "input-text", "pipe_site_pipe_text": "pipe-text",
                   "pipe_site_output_text": "output-text"}[name]
            if not d.get(key):
                d[key] = {"input-text": INITIAL_TEXT.encode(), "pipe-text": INITIAL_PIPE.encode(),
                          "output-text": self.initial_output()}[key]
            v = d[key]
            if key == "input-text":
                return v
            if key == "pipe-text":
                return encode_html(v)
            return self.output_html(v, d)
        if name == "pipe_site_options":
            g = lambda k: d.get(k, b"")
            s = (b"psisOptions = {'isInputFile' : '" + g("radio-file") + b"', "
                 b"'fileToDownload' : '" + g("output-file") + b"', "
                 b"'initialOutputType' : '" + g("output-type") + b"', "
                 b"'errorOccured' : '" + g("error-occured") + b"' };")
            d["radio-file"] = b""
            return s
        if name == "json_site_output":
            return d.get("\0json", b"{}")
        if name == "processor_documentation_site_processor_name":
            return self.learned[("doc", d.get("\0doc"))][0]
        if name == "processor_documentation_site_processor_full_name":
            return self.learned[("doc", d.get("\0doc"))][1]
        if name == "processor_documentation_site_processor_documentation":
            return self.learned[("doc", d.get("\0doc"))][2]
        return self.learned.get(name, b"")

    def initial_output(self):
        st, o = self.lib.run(INITIAL_PIPE, INITIAL_TEXT.encode())
        return o

    def output_html(self, raw, d):
        typ, ext, _ = self.lib.recognize(raw)
        out = b""
        if typ == "image":
            if ext == "svg":
                out += raw
            else:
                f = d.get("output-file", b"")
                out += (b'<a href="' + f + b'" target="_blank" ><img src="' + f +
                        b'" alt="image output" /></a>')
        if typ == "application":
            out += b"No output preview."
        if typ == "text":
            out += b"<pre>" + encode_html(raw) + b"</pre>"
        if typ == "UKNOWN":
            out += b"<pre>" + raw + b"</pre>[output format not recognized]"
        return out

    def expand(self, text, d):
        out, p = b"", 0
        while True:
            i = text.find(b"<!--#psis", p)
            if i < 0:
                return out + text[p:]
            j = text.find(b"-->", i)
            if j < 0:
                return out + text[p:]
            name = text[i + 10:j - 1].decode("latin-1")
            out += text[p:i] + self.include(name, d)
            p = j + 3

    # -- actions --------------------------------------------------------------------------
    def act_pipe(self, opid, d):
        inp = d.get("input-text", b"")
        from_file = d.get("radio-file", b"") == b"on"
        if from_file:
            inp = d.get("input-file", b"")
        inp = inp or INITIAL_TEXT.encode()
        pipe = (d.get("pipe-text") or INITIAL_PIPE.encode()).decode("latin-1")
        pipe = pipe.replace(" | ", " ! ")
        d["output-file"] = b""
        d["error-occured"] = b""
        if len(inp) > MAX_INPUT:
            d["error-occured"] = TOO_LARGE
            d["output-text"] = b"There are some problems: " + TOO_LARGE
            return
        if from_file:                       # uploads here are ASCII: no conversion happens
            if "read" not in pipe and not pipe.startswith(GUESSING):
                pipe = "guessing-reader ! " + pipe
            pipe = pipe.replace("--encoding-conversion ", " ", 1).replace("-c ", " ", 1)
        st, o = self.lib.run(pipe, inp)
        if st == "exception":
            d["error-occured"] = o
            d["output-text"] = b"There are some problems: " + o
        else:
            ext = self.lib.recognize(o)[2]
            if ext == "UKNOWN":
                ext = "txt"
            d["output-file"] = b"\x01F%s.%s\x01" % (str(opid).encode(), ext.encode())
            d["output-text"] = o

    def act_json(self, d):
        pipe, inp = d.get("pipe", b""), d.get("input", b"")
        s = b"{ \n" + b'"pipe": "' + json_escape(pipe) + b'",\n' + b'"input": "' + \
            json_escape(inp) + b'",\n'
        st, o = self.lib.run(pipe.decode("latin-1"), inp)
        if st == "exception":
            s += b'"output": null,\n"error": "There are some problems: ' + o + b'"\n'
        else:
            if b"json-simple-writer" in pipe:
                s += b'"output": ' + o + b",\n"
            else:
                s += b'"output": "' + o + b'",\n'
            s += b'"error": null\n'
        d["\0json"] = s + b" }"

    # -- one request ----------------------------------------------------------------------
    def apply(self, op, data):
        """Expected reply and the session's data afterwards."""
        d = dict(data)
        k = op["k"]
        if k == "bad":
            return Expected(400, None, stock(400)), d
        for key, val in op.get("fields", ()):
            d[key] = bytes.fromhex(val)
        uri = op["uri"]
        if k == "pipe":
            self.act_pipe(op["id"], d)
            path = "/psitoolkit.html"
        elif k == "json":
            self.act_json(d)
            path = "/json.html"
        elif k == "doc":
            name = d.get("name")
            d["\0doc"] = None
            if name:
                d["\0doc"] = name.decode("latin-1")
            elif name is None or name == b"":
                d["\0doc"] = ""
            d["name"] = b""
            path = "/help/processor-documentation.html"
        elif k == "link":
            return Expected(200, None, ("link",)), d
        elif k == "traversal":
            return Expected(400, content_type(uri), stock(400)), d
        else:
            path = op["path"]
            if path.endswith("/"):
                path += "index.html"
        f = self.file(path)
        if f is None and os.path.isdir(os.path.join(self.site, path.lstrip("/"))):
            return Expected(None, None, b""), d
        if f is None:
            return Expected(404, content_type(uri), stock(404)), d
        return Expected(200, content_type(uri), self.expand(f, d)), d


REPLY = re.compile(rb"^HTTP/1\.0 (\d\d\d) [A-Za-z ]+\r\n((?:[A-Za-z-]+: [^\r\n]*\r\n)*)\r\n", re.S)


class Reply:
    """A reply as received. ok: exactly one complete well-formed reply."""

    def __init__(self, raw):
        self.raw = raw
        self.ok, self.why = False, ""
        self.status, self.ctype, self.cookie, self.body, self.length = None, None, None, b"", None
        m = REPLY.match(raw)
        if not m:
            self.why = "no reply at all" if not raw else "not an HTTP reply: %r" % raw[:60]
            return
        self.status = int(m.group(1))
        names = []
        for line in m.group(2).split(b"\r\n"):
            if not line:
                continue
            n, _, v = line.partition(b": ")
            names.append(n)
            v = v.decode("latin-1")
            if n == b"Content-Length":
                self.length = v
            elif n == b"Content-Type":
                self.ctype = v
            elif n == b"Set-Cookie":
                mm = re.match(r"PSISESSIONID=([A-Za-z0-9-]+)$", v)
                self.cookie = mm.group(1) if mm else "?" + v
        self.body = raw[m.end():]
        if names.count(b"Content-Length") != 1 or names.count(b"Content-Type") != 1:
            self.why = "headers repeated or missing: %r" % names
        elif not self.length.isdigit() or int(self.length) != len(self.body):
            self.why = "Content-Length %s but the body has %d bytes" % (self.length, len(self.body))
        else:
            self.ok = True


def body_matches(exp, got, binds):
    """exp may hold \\x01F<op>.<ext>\\x01 for names of stored files."""
    if b"\x01F" not in exp:
        return exp == got
    parts = re.split(rb"\x01F([^.\x01]+)\.([^\x01]*)\x01", exp)
    rx = re.escape(parts[0])
    for i in range(1, len(parts), 3):
        b = binds.get(parts[i].decode())
        rx += (re.escape(b) if b is not None else rb"(?:/storage/[^'\"<>\s]+\." + re.escape(parts[i + 1]) + rb")")
        rx += re.escape(parts[i + 2])
    return re.fullmatch(rx, got, re.S) is not None


def first_difference(exp, got):
    """Where two bodies part, names of stored files put aside."""
    e = re.sub(rb"\x01F[^\x01]*\x01", b"@", exp)
    g = got
    if e != exp:
        g = re.sub(rb"/storage/[^'\"<>\s]*", b"@", got)
    i = 0
    while i < min(len(e), len(g)) and e[i] == g[i]:
        i += 1
    return min(i, len(exp), len(got)) if e == exp else max(0, min(i, len(got)))


# -- what bytes mean --------------------------------------------------------------------------
TSPECIAL = set(b'()<>@,;:\\"/[]?={} \t')


def _ctl(c):
    return c <= 31 or c == 127


def _token(c):
    return c < 128 and not _ctl(c) and c not in TSPECIAL


class Request:
    def __init__(self):
        self.method, self.uri, self.headers, self.body = b"", b"", [], b""

    def get(self, name):
        for n, v in reversed(self.headers):
            if n == name:
                return v
        return b""


def c_atoi(v):
    m = re.match(rb"[ \t\n\v\f\r]*([+-]?\d+)", v)
    if not m:
        return 0
    n = max(-(1 << 63), min((1 << 63) - 1, int(m.group(1))))
    n &= 0xffffffff
    return n - (1 << 32) if n >> 31 else n


REQ_LINE = re.compile(rb"([^ ]*) ([^ ]*) HTTP/(\d+)\.(\d+)\r\n")


def parse_request(b):
    """('more', None, None), ('bad', None, n) or ('ok', request, n): n bytes decide it."""
    r = Request()
    i, n = 0, len(b)

    def bad(i):
        return "bad", None, i + 1
    # method
    while True:
        if i >= n:
            return "more", None, None
        c = b[i]
        if c == 32 and i:
            break
        if not _token(c):
            return bad(i)
        i += 1
    r.method = b[:i]
    i += 1
    s = i
    while True:
        if i >= n:
            return "more", None, None
        if b[i] == 32:
            break
        if _ctl(b[i]):
            return bad(i)
        i += 1
    r.uri = b[s:i]
    i += 1
    for want in b"HTTP/":
        if i >= n:
            return "more", None, None
        if b[i] != want:
            return bad(i)
        i += 1
    for stop in b".\r":
        digits = 0
        while True:
            if i >= n:
                return "more", None, None
            if 48 <= b[i] <= 57:
                digits += 1
            elif b[i] == stop and digits:
                break
            else:
                return bad(i)
            i += 1
        i += 1
    if i >= n:
        return "more", None, None
    if b[i] != 10:
        return bad(i)
    i += 1
    while True:
        if i >= n:
            return "more", None, None
        c = b[i]
        if c == 13:
            i += 1
            if i >= n:
                return "more", None, None
            if b[i] != 10:
                return bad(i)
            i += 1
            break
        if c in (32, 9) and r.headers:
            while i < n and b[i] in (32, 9):
                i += 1
            # continues the previous value
        else:
            s = i
            while True:
                if i >= n:
                    return "more", None, None
                if b[i] == 58 and i > s:
                    break
                if not _token(b[i]):
                    return bad(i)
                i += 1
            r.headers.append([b[s:i], b""])
            i += 1
            if i >= n:
                return "more", None, None
            if b[i] != 32:
                return bad(i)
            i += 1
        s = i
        while True:
            if i >= n:
                return "more", None, None
            if b[i] == 13:
                break
            if _ctl(b[i]):
                return bad(i)
            i += 1
        r.headers[-1][1] += b[s:i]
        i += 1
        if i >= n:
            return "more", None, None
        if b[i] != 10:
            return bad(i)
        i += 1
    if r.method != b"POST":
        return "ok", r, i
    length = c_atoi(r.get(b"Content-Length"))
    if length <= 0:
        return "ok", r, i
    multi = r.get(b"Content-Type").startswith(b"multipart")
    body = b[i:i + length]
    if not multi:
        for j, c in enumerate(body):
            if c in (10, 13):
                return bad(i + j)
    if len(body) < length:
        return "more", None, None
    r.body = body[:-1] if multi else body        # a multipart body ends in a line end nobody needs
    return "ok", r, i + length


HEX2 = re.compile(rb"[0-9a-fA-F]{2}")


def url_path(uri):
    """The decoded path; None if it is malformed, 'odd' where only the reply's form is specified."""
    out, i = b"", 0
    while i < len(uri):
        c = uri[i:i + 1]
        if c == b"%":
            if i + 3 > len(uri):
                return None
            h = uri[i + 1:i + 3]
            if HEX2.fullmatch(h):
                out += bytes([int(h, 16)])
            else:
                return "odd"
            i += 2
        elif c == b"+":
            out += b" "
        else:
            out += c
        i += 1
    return out


def form_fields(data):
    """Fields of a urlencoded form; None where only the reply's form is specified."""
    f = []
    for part in data.split(b"&"):
        if b"=" not in part:
            return None
        n, _, v = part.partition(b"=")
        v = v.replace(b"+", b" ")
        if re.search(rb"%(?![0-9a-fA-F]{2})", v):
            return None
        v = re.sub(rb"%([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), v)
        f.append([n.decode("latin-1"), v.hex()])
    return f


GUESSING = ("guessing-reader",)
ACTIONS = {b"pipe": "pipe", b"json": "json", b"help/processor": "doc"}


def op_of(req, opid):
    """The operation a request asks for; None where only the form of the reply is specified."""
    ck = req.get(b"Cookie")
    if b"PSISESSIONID" in ck and not re.search(rb"^(?:(?!PSISESSIONID).)*PSISESSIONID=[A-Za-z0-9-]{25}(;|$)", ck, re.S):
        return None
    uri = req.uri
    mark = b".psis" if req.method == b"POST" else b".psis?"
    q = uri.find(mark)
    if q >= 1 and uri[1:q] in ACTIONS:
        k = ACTIONS[uri[1:q]]
        if req.get(b"Content-Type").startswith(b"multipart/form-data;"):
            return None
        f = form_fields(req.body if req.method == b"POST" else uri[q + 6:])
        if f is None or any(b"\0" in bytes.fromhex(v) for _, v in f):
            return None
        if any(n in ("radio-file", "input-file") for n, _ in f):
            return None
        if k == "doc" and any(bytes.fromhex(v) not in (b"txt-reader", b"simple-writer", b"tp-tokenizer", b"nothing-like-it")
                              for n, v in f if n == "name"):
            return None
        return {"k": k, "fields": f, "uri": uri.decode("latin-1"), "id": opid, "method": "GET"}
    if uri == b"/nolink":
        return {"k": "link", "uri": "/nolink", "id": opid}
    p = url_path(uri)
    u = uri.decode("latin-1")
    if p == "odd":
        return None
    if p is None or not p.startswith(b"/") or b".." in p:
        return {"k": "traversal", "uri": u, "id": opid}
    if b"\0" in p or p.startswith(b"/storage") or b"//" in p or b"/./" in p:
        return None
    if len(p) > 255:
        return {"k": "page", "uri": u, "path": "/none", "id": opid}
    return {"k": "page", "uri": u, "path": p.decode("utf8", "surrogateescape"), "id": opid}
