# Properties that are pure functions of their input: nothing for a schedule, clock, fault or crash to change.
PURE = "a pure function of its input (no schedule, clock, fault, I/O or other party in it), so simulation has nothing to decide: "


def N(id, title, statement, text, why, files, mechanism, reason, over=("inputs",)):
    P(id, title, statement, list(over), text, why, files, mechanism, na=PURE + reason)


N("N01", "The lattice keeps its structural invariants under every operation sequence",
  "After any sequence of edge insertions, discards and cuts, every edge goes forward between existing vertices, its "
  "partitions cover exactly its span, equal edges are merged, and iteration by source or target lists every kept edge once. "
  "Operations that would break this are refused with an exception and leave the lattice as it was.",
  "every sequence of lattice operations on every text",
  "The tests build a few dozen lattices by hand.",
  ["common/lattice.cpp", "common/lattice.hpp"], mech(("edges are checked on insertion", "common/lattice.cpp: addEdge")),
  "one thread builds one in-memory graph from its arguments; property-based testing or model checking fit")
N("N02", "Writing a lattice as PSI text and reading it back gives the same lattice",
  "For every lattice the toolkit can build, the PSI writer's output is accepted by the PSI reader and yields a lattice "
  "with the same text, edges, tags, categories, attributes, scores and partitions.",
  "every lattice", "The tests compare a few fixed files.",
  ["formats/psi/psi_writer/psi_lattice_writer.cpp", "formats/psi/psi_reader/psi_lattice_reader.cpp",
   "common/psi_quoter.cpp"], mech(("shared quoting rules", "common/psi_quoter.cpp")),
  "a round trip of data through two functions")
N("N03", "Quoting and escaping are inverted exactly by their counterparts",
  "For every string, unescaping what a quoter escaped gives the string back, and the escaped form contains none of the "
  "characters its format reserves.",
  "every byte string", "The tests try short fixed strings.",
  ["common/psi_quoter.cpp", "common/utt_like_quoter.cpp", "common/escaping.cpp", "common/quoter.cpp"],
  mech(("table driven quoter", "common/quoter.cpp")), "string functions")
N("N04", "Segmenters and tokenizers cover the text exactly",
  "For every UTF-8 text the token edges produced lie between character boundaries, do not overlap, and together with "
  "skipped blanks cover the whole text; length limits are honoured.",
  "every text and every rule set shipped", "The tests compare a few sentences per language.",
  ["common/cutter.cpp", "tools/tokenizers/tp/tp_token_cutter.cpp", "tools/segmenters/srx/srx_segmenter.cpp"],
  mech(("cutters walk the text from left to right", "common/cutter.cpp")), "text in, edges out")
N("N05", "Writers emit well-formed JSON, XML, DOT and PSI for every lattice",
  "Whatever characters the text and annotations contain, the output of a writer of a structured format parses in that "
  "format and carries the same strings.",
  "every lattice and every option set", "The tests use plain words.",
  ["formats/json-simple/json_lattice_writer_output.cpp", "formats/gv/gv_lattice_writer.cpp",
   "formats/dot/dot_lattice_writer.cpp"],
  mech(("per-format escaping", "formats")), "output formatting")
N("N06", "Character-set detection and conversion keep the text",
  "Text in any supported encoding is converted to valid UTF-8 with the same characters, and invalid input is reported or "
  "replaced, never passed on as invalid UTF-8.",
  "every byte string", "The tests convert a few samples.",
  ["common/encoding_converter.cpp", "formats/txt/txt_lattice_reader.cpp"],
  mech(("conversion by tiniconv", "common/encoding_converter.cpp")), "bytes in, bytes out")
N("N07", "Pipeline completion always finds a valid pipeline or says why not",
  "For every pipeline a user can write, the automatically completed pipeline provides every annotation that each "
  "processor requires, in order, or an error is given; completion terminates.",
  "every pipeline over the installed processors", "The tests complete a few pipelines.",
  ["framework/auto_completer.cpp", "framework/pipeline_element_specification.hpp"],
  mech(("search over promises", "framework/auto_completer.cpp")), "a search over an in-memory graph", ("programs",))
N("N08", "The lexicon stores return exactly the stored values",
  "For every set of key-value pairs, a lookup returns exactly the values stored under that key and nothing for any other key.",
  "every set of pairs and every query", "The tests store a dozen keys.",
  ["tools/datastructures/lexica/key_value_store.cpp", "tools/datastructures/psi_query/fsa_multi_store.cpp"],
  mech(("minimal perfect hash with fingerprints", "tools/datastructures/lexica/perfect_hash_index.cpp")),
  "in-memory data structures; what the saved files go through on a failing disk is another property")
N("N09", "Parsers produce only trees licensed by their rules",
  "Every edge added by a parser is an instance of a rule whose right-hand side matches the edges in its partition, and "
  "the result does not depend on the order rules are indexed in.",
  "every text and rule set", "The tests parse a few sentences.",
  ["tools/parsers/puddle/puddle.cpp", "tools/parsers/gobio/gobio.cpp"], mech(("chart parser", "tools/parsers/gobio")),
  "rules and text in, edges out")
N("N10", "File types are recognised from content for every supported format",
  "For every document of a supported format the recognised type is the right one, and unrecognised data is called plain "
  "text or unknown, never a wrong binary format.",
  "every document", "The tests try one file per format.",
  ["common/file_recognizer.cpp", "formats/guessing/guessing_reader/guessing_reader.cpp"],
  mech(("libmagic", "common/file_recognizer.cpp")), "bytes in, a name out")
N("N11", "String positions stay consistent under fragments and inflections",
  "Substrings, fragments and case inflections of a text refer to exactly the characters they name for every UTF-8 text, "
  "and comparing fragments equals comparing the strings they stand for.",
  "every text and every pair of positions", "The tests use ASCII and a few Polish words.",
  ["common/string_frag.cpp", "common/string_inflection.cpp"], mech(("short fragments are packed", "common/string_frag.hpp")),
  "value types")
N("N12", "Layer tags and masks follow set algebra",
  "Matching, union, intersection and negation of tag collections and masks agree with set operations on tag names for "
  "every sequence of tag creations.",
  "every sequence of tag operations", "The tests use a handful of tags.",
  ["common/layer_tag_manager.cpp", "common/layer_tag_mask.cpp", "common/layer_tag_collection.cpp"],
  mech(("bit sets indexed by tag number", "common/layer_tag_collection.hpp")), "sets of bits")
