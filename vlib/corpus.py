"""Pipelines, inputs and lexicons the simulated psi-pipe runs work with."""
import io
import os
import random
import re
import zipfile

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")

LEM = """ala\tAla\tsubst\tcase=nom,gender=f
Ala\tAla\tsubst\tcase=nom,gender=f
ma\tmieć\tverb\taspect=imperf,number=sg
ma\tmój\tadj\tcase=nom,gender=f
kota\tkot\tsubst\tcase=acc,gender=m1
kota\tkota\tsubst\tcase=nom,gender=f
kot\tkot\tsubst\tcase=nom,gender=m1
pies\tpies\tsubst\tcase=nom,gender=m1
psa\tpies\tsubst\tcase=acc,gender=m1
widzi\twidzieć\tverb\taspect=imperf,number=sg
dobry\tdobry\tadj\tcase=nom,gender=m1
mały\tmały\tadj\tcase=nom,gender=m1
w\tw\tprep\tcase=loc
domu\tdom\tsubst\tcase=loc,gender=m3
i\ti\tconj\t
żółty\tżółty\tadj\tcase=nom
komputer\tkomputer\tsubst\tcase=nom,gender=m3
"""
BI = """komputer+subst  computer+subst
kot+subst  cat+subst
kot+subst  tomcat+subst
pies+subst dog+subst
mieć+verb have+verb
widzieć+verb see+verb
dom+subst  house+subst
dom+subst  home+subst
dobry+adj good+adj
żółty+adj yellow+adj
"""
MAP = "Ala Alice\nma has\nkota a_cat\npies a_dog\npies a_hound\ni and\nw in\nŻółty Yellow\n"


def files(p):
    """Writes the small lexicons and rule files a pipeline may name; p maps names to paths."""
    for n, t in (("lem.txt", LEM), ("bi.txt", BI), ("map.txt", MAP)):
        with open(p("build/lex", n), "wb") as f:
            f.write(t.encode())
    for n in ("simple.srx", "cascading.srx", "langs.srx", "toy.g", "forms.txt", "val.txt", "toy.pud", "tag.txt", "tag.bin",
              "infl.bin"):
        with open(os.path.join(HERE, n), "rb") as g, open(p("build/lex", n), "wb") as f:
            f.write(g.read())


def edited(b, seed):
    """A rule file or lexicon from which something is missing, or in which something stands twice or elsewhere."""
    if isinstance(seed, str):       # without the first element of this name, or this attribute anywhere
        k, n = seed.encode().split(b":")
        return re.sub(rb"<" + n + rb"\b[^>]*/>|<" + n + rb"\b.*?</" + n + rb">", b"", b, count=1, flags=re.S) if k == b"e" \
            else re.sub(rb" " + n + rb'="[^"]*"', b"", b)
    rng = random.Random(seed)
    k = rng.random()
    if k < .3 and b.lstrip().startswith(b"<"):
        n = rng.choice(sorted(set(re.findall(rb"<([a-z]+)[ >]", b))))
        ms = list(re.finditer(rb"<" + n + rb"\b[^>]*/>|<" + n + rb"\b.*?</" + n + rb">", b, re.S))
        if ms:
            m = rng.choice(ms)
            return b[:m.start()] + (m.group() * 2 if rng.random() < .2 else b"") + b[m.end():]
    if k < .6:
        ms = list(re.finditer(rb' [a-z]+="[^"]*"|[,;:+=|][^,;:+=|\s]+|\s\d+', b))
        if ms:
            m = rng.choice(ms)
            return b[:m.start()] + b[m.end():]
    ls = b.split(b"\n")
    i = rng.randrange(len(ls))
    if k < .8:
        del ls[i:i + rng.choice([1, 1, 2, 5])]
    elif k < .9:
        ls.insert(rng.randrange(len(ls)), ls[i])
    else:
        ls[i] = ls[i][:rng.randrange(len(ls[i]) + 1)]
    return b"\n".join(ls)


def edits(b, n):
    """Edits for edited(): everything a marked-up file can do without, and some of other kinds."""
    out = list(range(n))
    if b.lstrip().startswith(b"<"):
        out += ["e:" + x.decode() for x in sorted(set(re.findall(rb"<([a-z]+)[ >]", b)))]
        out += ["a:" + x.decode() for x in sorted(set(re.findall(rb' ([a-z]+)="', b)))]
    return out


FORMS = ("mapper --lang pl --in-tags token --out-tags gobio-tagset,parse-terminal --consider-text --clone-text "
         "--add-attributes --plain-text-lexicon lex/forms.txt")
LL = "lamerlemma --lang pl --plain-text-lexicon lex/lem.txt"
W_TEXT = ["psi-writer", "psi-writer --no-header", "simple-writer", "simple-writer --with-blank", "json-simple-writer",
          "dot-writer", "dot-writer --show-symbol-edges --show-tags", "bracketing-writer", "dot-writer --tree",
          "simple-writer --tags token --sep /", "bracketing-writer --tags token --with-blank",
          "json-simple-writer --tags token", "gv-writer --format dot", "gv-writer --format canon --show-tags",
          "gv-writer --format svg --tree --show-symbol-edges", "",
          "simple-writer --linear --no-alts --sep |", "simple-writer --tags frag,token --alt-sep @",
          "json-simple-writer --with-args --linear", "json-simple-writer --with-blank --no-alts --tags !pl",
          "dot-writer --align --color --tags token", "bracketing-writer --disambig --skip-symbol-edges",
          "bracketing-writer --no-collapse --opening-bracket <%T:%c> --closing-bracket </%c> --tag-separator +",
          "simple-writer --tags lemma --fallback-tags token"]
# name -> (the middle of the pipeline, weight)
TEXT = [
    ("", 1), ("txt-reader", 1), ("tp-tokenizer --lang pl", 3), ("tp-tokenizer --lang en", 2), ("tokenize", 1),
    ("txt-reader ! tp-tokenizer --lang en --token-length-soft-limit 5 --token-length-hard-limit 10", 1),
    ("srx-segmenter --lang pl", 2), ("srx-segmenter --lang en", 1), ("segment --lang pl ! tokenize --lang pl", 1),
    ("srx-segmenter --lang pl --sentence-length-hard-limit 10 --sentence-length-soft-limit 5", 1),
    ("srx-segmenter --rules lex/simple.srx --lang en", 1), ("srx-segmenter --rules lex/cascading.srx --lang pl", 1),
    ("txt-reader ! srx-segmenter --lang pl ! tp-tokenizer --lang pl", 2),
    ("lang-guesser", 2), ("lang-guesser ! tp-tokenize --lang pl", 1), ("lang-guesser --only-langs hsb --force", 1),
    ("lang-guesser --default-language none", 1), ("guess-language", 1),
    ("guessing-reader", 1), ("guessing-reader --block-size 16 ! tokenize --lang pl", 1),
    ("tp-tokenizer --lang pl ! simplenorm-normalizer --lang pl", 1),
    ("tokenize --lang pl ! mapper --lang pl --in-tags token --out-tags fake-translation --consider-text "
     "--plain-text-lexicon lex/map.txt --unknown-clone-attributes --unknown-clone-text", 2),
    ("tp-tokenizer --lang pl ! detok --lang pl", 1),
    ("tp-tokenizer --lang pl ! " + LL, 2),
    ("tp-tokenizer --lang pl ! " + LL + " ! bilexicon --lang pl --trg-lang en --plain-text-lexicon lex/bi.txt", 2),
    ("tp-tokenizer --lang pl ! " + LL + " ! selector --in-tag lemma", 1),
    ("tp-tokenizer --lang pl ! " + LL + " ! antiselector", 1),
    ("tp-tokenizer --lang pl ! " + LL + " ! puddle --lang pl", .6),
    ("tp-tokenizer --lang en ! aspell --lang en", .7), ("iayko --lang pl", .3),
    ("tp-tokenizer --lang pl ! niema --lang pl", .15),
    ("srx-segmenter --rules lex/langs.srx --lang pl --force-language", 1),
    ("srx-segmenter --rules lex/langs.srx --lang en --force-language ! tp-tokenizer --lang en --force-language", 1),
    ("srx-segmenter --rules lex/langs.srx --lang pl ! srx-segmenter --rules lex/simple.srx --lang pl", .5),
    ("tp-tokenizer --lang pl --rules %ITSDATA%/xx/simple.rgx --mapping common=%ITSDATA%/common.rgx", .5),
    ("txt-reader --whole-text ! tp-tokenizer --lang pl", .7), ("txt-reader --paragraphs ! tp-tokenizer --lang pl", .7),
    ("txt-reader --line-by-line --discard-comments ! srx-segmenter --lang pl", .7),
    ("txt-reader --pass-through-comments ! tp-tokenizer --lang en", .7),
    ("tp-tokenizer --lang pl ! " + FORMS + " ! gobio --lang pl --rules lex/toy.g", 2),
    ("tp-tokenizer --lang pl ! " + LL + " ! joiner --lang pl --left-mask lexeme --right-mask form --out-tags "
     "!joined,joined --take-right-text", 1),
    ("tp-tokenizer --lang pl ! " + LL + " ! joiner --lang pl --left-mask form --right-mask form --out-tags "
     "!joined,joined --take-right-attributes --extended-outer-join", .5),
    ("tp-tokenizer --lang pl ! " + LL + " ! puddle --lang pl --rules lex/toy.pud", 1.5),
    ("tp-tokenizer --lang pl ! mapper --lang pl --in-tags token --out-tags val --consider-text --clone-category "
     "--set-text V --unknown-set-text U --unknown-clone-category --plain-text-lexicon lex/val.txt", 1),
    ("tp-tokenizer --lang pl ! " + LL + " ! metagger --lang pl --model lex/tag.txt", 1),
    ("tp-tokenizer --lang pl ! " + LL + " ! metagger --lang pl --model lex/tag.bin", 1),
    ("tp-tokenizer --lang pl ! " + LL + " ! inflector --lang pl --model lex/infl.bin", 1),
    ("srx-segmenter --lang pl ! tp-tokenizer --lang pl ! " + LL + " ! metagger --lang pl --model io/m --train "
     "--iterations 3", .3),
    ("tp-tokenizer --lang pl ! lamerlemma --lang pl --level 1 --lexeme-ids --plain-text-lexicon lex/lem.txt", 1),
]
W_SPECIAL = {
    "aspell": ["simple-writer --tags corrected", "psi-writer"], "iayko": ["simple-writer --tags token", "psi-writer"],
    "mapper": ["simple-writer --tags fake-translation"], "detok": ["simple-writer --tags text,!pl"],
    "joiner": ["simple-writer --tags joined", "psi-writer --no-header"],
    "gobio": ["psi-writer --no-header", "bracketing-writer --tags parse --opening-bracket %c[ --closing-bracket ]",
              "dot-writer --tree --tags parse"],
    "puddle": ["bracketing-writer --tags parse --opening-bracket %c[ --closing-bracket ]", "psi-writer",
               "dot-writer --tree"],
    "niema": ["simple-writer --tags token", "psi-writer"],
    "lamerlemma": ["phrases-writer", "morphology-writer", "simple-writer --tags lemma", "simple-writer --tags lexeme", "psi-writer"],
    "bilexicon": ["simple-writer --tags !translation"], "selector": ["simple-writer --tags selected"],
    "srx-segmenter": ["simple-writer --tags segment", "psi-writer"], "segment": ["simple-writer --tags token --spec segment \\n"],
    "lang-guesser": ["simple-writer --tags !pl", "simple-writer --tags !en"],
}
# (reader, the files it reads, writers, weight)
DOCS = [
    ("psi-reader", ["empty_partition.psi", "long_text_edge.psi", "multiple_partitions.psi", "notext.psi",
                    "partitions_properties.psi", "partitions_zero_score.psi", "pl_sample.psi",
                    "pl_sample_nocomments.psi", "pl_sample_planes.psi", "pl_sample_simple.psi", "roles.psi",
                    "br-roles.psi", "br-collapse.psi", "discarded.psi"],
     ["psi-writer", "psi-writer --no-header", "dot-writer", "dot-writer --show-symbol-edges --tree", "simple-writer",
      "bracketing-writer --opening-bracket <%c> --closing-bracket </%c>", "json-simple-writer"], 4),
    ("psi-reader ! tagset-converter --lang pl --rules %ITSDATA%/test.u", ["unumsunt.psi"], ["psi-writer --no-header"], 1),
    ("utt-reader", ["fr_simple_puddle.utt", "omitted_position.utt", "omitted_position_2.utt", "structural.utt"],
     ["psi-writer --no-header", "simple-writer"], 2),
    ("nkjp-reader", ["nkjp-groups.xml", "nkjp-named.xml", "nkjp-segmentation.xml", "nkjp-text.xml", "nkjp-words.xml"],
     ["psi-writer --no-header", "simple-writer --tags token --sep / --spec sentence \\n"], 2),
    ("apertium-reader", ["simple.html", "complex.html"], ["simple-writer --tags frag", "psi-writer"], 2),
    ("apertium-reader --keep-tags true", ["simple.html", "complex.html"], ["simple-writer --tags tag"], 1),
    ("apertium-reader --format rtf", ["simple.rtf"], ["simple-writer --tags frag"], 1),
    ("apertium-reader --format odt --unzip-data false", ["unzipped-odt.xml"], ["simple-writer --tags frag"], 1),
    ("apertium-reader --format pptx --unzip-data false", ["unzipped-pptx.xml"], ["simple-writer --tags frag"], 1),
    ("apertium-reader --format xlsx --unzip-data false", ["unzipped-xlsx.xml"], ["simple-writer --tags frag"], 1),
    ("pdf-reader", ["ala.pdf", "newline.pdf"], ["psi-writer", "simple-writer"], .7),
    ("djvu-reader", ["ala.djvu"], ["psi-writer", "simple-writer"], .7),
    ("doc-reader", ["ala.doc"], ["psi-writer", "simple-writer"], .7),
    ("psi-reader", ["pl_sample_simple.psi", "roles.psi", "br-collapse.psi"],
     ["gv-writer --format plain", "gv-writer --format dot --show-tags --tree"], .4),
    ("guessing-reader", ["simple.html", "pl_sample_planes.psi", "structural.utt", "simple.rtf", "ala.pdf",
                         "ala.djvu", "ala.doc"],
     ["psi-writer --no-header", "psi-writer"], 2),
]
ZIPS = [("apertium-reader --format docx", "simple.docx"), ("apertium-reader --format pptx", "simple.pptx"),
        ("apertium-reader --format xlsx", "simple.xlsx")]

WORDS = ("Ala ma kota i psa w domu . , ! ? ... pies kot widzi dobry mały komputer żółty Żółty zażółć gęślą jaźń "
         "tel. 12 prof. Jan Kowalski ul. Długa 5/7 m. 3 np. 20.04.2011 r. 3,14 http://www.psi-toolkit.pl/x?y=z "
         "jan@kowalski.pl The quick brown fox jumps over the lazy dog . I enjoy travelling , don't you ? Mr. Smith's "
         "U.S. etc. e.g. (nawias) [x] \"cytat\" „cytat” – — -- a-b a/b 1. 2) * § € ½ 日本語 Привет мир Łódź łódź").split()


def words(rng, n):
    return [rng.choice(WORDS) for _ in range(n)]


def line(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 14]) if n is None else n
    out = ""
    for w in words(rng, n):
        if out and (rng.random() < .9 or w.isalnum()):
            out += rng.choice([" "] * 12 + ["  ", "\t", "\u00a0"])
        out += w
    return out


def text(rng, lines=None, valid=True):
    """Text of a few lines; the same rng gives the same text."""
    k = rng.random()
    if k < .04 and lines is None:
        return rng.choice([b"", b"\n", b" ", b"\n\n\n", b"a", b" \n ", b"\t\n"])
    n = lines or rng.choice([1, 1, 2, 3, 5])
    ls = [line(rng).encode() for _ in range(n)]
    if rng.random() < .05:
        ls[rng.randrange(n)] = rng.choice([b"a" * 300, b"x " * 200, b"\xc5\x82" * 150, b"- " * 90, b"." * 120])
    s = rng.choice([b"\n"] * 8 + [b"\r\n"]).join(ls)
    if rng.random() < .8:
        s += b"\n"
    if not valid and rng.random() < .5:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice([b"\xff", b"\xc5", b"\x80", b"\xe2\x82", b"\0", b"\x01"]) + s[i:]
    return s


_doc = {}


def doc(name):
    if name not in _doc:
        with open(os.path.join(HERE, name), "rb") as f:
            _doc[name] = f.read()
    return _doc[name]


def twin(name, k, last):
    """The document with other letters in its text: as long, equal but for those letters and, in archives, their
    checksums. The changed part stands first or last."""
    key = (name, k, last)
    if key in _doc:
        return _doc[key]
    if name.endswith(".doc"):
        b = bytearray(doc(name))
        i = b.index("Ala".encode("utf-16-le"))
        b[i:i + 1] = b"AOUEIYT"[k:k + 1]
        _doc[key] = bytes(b)
        return _doc[key]
    texts = ("word/document.xml", "ppt/slides/slide1.xml", "xl/sharedStrings.xml")
    out = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(doc(name))) as a, zipfile.ZipFile(out, "w", zipfile.ZIP_STORED) as z:
        for n in sorted(a.namelist(), key=lambda n: (n in texts) == last):
            b = a.read(n)
            if n in texts:
                m = [x for x in re.finditer(rb">[^<>]*?([a-z])[^<>]*<", b)][-1]
                i = m.start(1)
                b = b[:i] + b"aeioubcd"[k:k + 1] + b[i + 1:]
            z.writestr(zipfile.ZipInfo(n, (2011, 4, 20, 12, 0, 0)), b)
    _doc[key] = out.getvalue()
    return _doc[key]


def pick(rng, items):
    t = rng.random() * sum(i[-1] for i in items)
    for i in items:
        t -= i[-1]
        if t < 0:
            return i
    return items[-1]


def join(*parts):
    return " ! ".join(p for p in parts if p)


_values = {}


def values():
    """For each option with a value, the values seen for it anywhere in the corpus."""
    if not _values:
        pipes = [c["pipe"] for c in sweep(zips=True)]
        for p in pipes:
            for node in p.split(" ! "):
                w = node.split(" ")
                for a, b in zip(w[1:], w[2:] + ["--"]):
                    if a.startswith("--"):
                        _values.setdefault(a, set()).add(None if b.startswith("--") else b)
        _values["--lang"] |= {"de", "fr"}
        for k in _values:
            if all(v and v.isdigit() for v in _values[k]):
                _values[k] |= {"1", "7", "20", "100"}
    return _values


def variant(rng, pipe):
    """The same pipeline, but for one option."""
    nodes = [n.split(" ") for n in pipe.split(" ! ")]
    spots = [(i, j) for i, n in enumerate(nodes) for j, w in enumerate(n) if j and w.startswith("--")]
    if not spots:
        return pipe
    i, j = rng.choice(spots)
    n = nodes[i]
    has = j + 1 < len(n) and not n[j + 1].startswith("--")
    other = sorted(v for v in values().get(n[j], ()) if v is not None and v != (n[j + 1] if has else None))
    if has and other and rng.random() < .85:
        n[j + 1] = rng.choice(other)
    elif n[j] not in ("--plain-text-lexicon", "--format"):
        del n[j:j + 1 + has]
    return " ! ".join(" ".join(n) for n in nodes)


FORCED = []  # the next case, if any, is this one


def sweep(docs=True, zips=False):
    """Every component of the toolkit and every document at least once."""
    rng = random.Random("sweep")
    out = []
    for mid, _ in TEXT:
        last = mid.split(" ! ")[-1]
        ws = next((W_SPECIAL[n] for n in sorted(W_SPECIAL, key=len, reverse=True) if n in last), ["psi-writer"])
        for w in ws[:1] if "puddle --lang pl" == last or "niema" in mid or "iayko" in mid else ws:
            out.append({"pipe": join(mid, w), "in": "\n".join(
                ["Ala ma kota, a mały kot widzi psa.", line(rng, 6)]).encode().hex()})
    for w in W_TEXT:
        out.append({"pipe": join("tp-tokenizer --lang pl" if w else "txt-reader", w),
                    "in": "Jan ma 3 koty. Żółty pies?\n".encode().hex()})
    for r, fs, ws, _ in DOCS if docs else []:
        for k, f in enumerate(fs):
            out.append({"pipe": join(r, ws[k % len(ws)]), "in": doc(f).hex()})
    for r, f in ZIPS if zips else []:
        out.append({"pipe": join(r, "simple-writer --tags frag"), "in": doc(f).hex()})
    return out


def case(rng, docs=.35, zips=.0, lines=None, valid=.97, heavy=True):
    """A pipeline and an input for it."""
    if FORCED:
        return FORCED.pop()
    k = rng.random()
    if k < zips:
        r, f = rng.choice(ZIPS)
        return {"pipe": join(r, "simple-writer --tags frag"), "in": doc(f).hex()}
    if k < zips + docs:
        r, fs, ws, _ = pick(rng, DOCS)
        return {"pipe": join(r, rng.choice(ws)), "in": doc(rng.choice(fs)).hex()}
    while True:
        mid, _ = pick(rng, TEXT)
        if heavy or not mid.endswith("puddle --lang pl"):
            break
    ws = W_TEXT
    for n in sorted(W_SPECIAL):
        if n in mid.split(" ! ")[-1] and rng.random() < .6:
            ws = W_SPECIAL[n]
    if mid == "" or rng.random() < .12 and mid:
        w = rng.choice([x for x in W_TEXT if x]) if not mid else ""
    else:
        w = rng.choice(ws)
    t = text(rng, lines, rng.random() < valid)
    if "gv-writer" in w and len(t) > 160 and lines is None:
        t = t[:t.rfind(b" ", 0, 160) + 1]  # laying out big graphs takes GraphViz minutes
    elif "gv-writer" in w and len(t) > 600:
        w = "psi-writer"
    return {"pipe": join(mid, w) or "txt-reader", "in": t.hex()}


def unit(pipe):
    """The pipeline without an option that says what unit of text its reader takes at a time."""
    return re.sub(r"txt-reader --(line-by-line|whole-text|paragraphs)", "txt-reader", pipe)


def argv(pipe, opts=()):
    """The command line; the words of a pipeline are never quoted here."""
    return ["./framework/psi-pipe"] + list(opts) + pipe.split(" ")


def hexargs(args):
    return b"\0".join(a.encode() for a in args).hex()
