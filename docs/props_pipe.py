# What psi-pipe and the pipeline framework promise whatever their streams, files and memory do.
FW = "framework/"

P("P01", "Output depends only on the bytes of the input, not on how they are delivered",
  "For any way standard input arrives in pieces, and for any size in which the output is accepted, psi-pipe gives the same "
  "output and exit status as when the input arrives in one piece. This holds for every reader, encoding option and "
  "line-by-line mode.",
  ["schedules", "inputs"],
  "every cut of every input of every pipeline of the toolkit's readers, processors and writers",
  "The tests give whole files or strings to processors; pipes and terminals give bytes in pieces.",
  [FW + "psi-pipe.cpp", FW + "pipe_runner.cpp", "formats/guessing/guessing_reader/guessing_reader.cpp",
   "common/stream_lattice_reader.cpp", "common/encoding_converter.cpp"],
  mech(("readers go on until the end of the stream", FW + "pipe_runner.cpp: run"),
       ("the guessing reader looks ahead by a buffer", "formats/guessing/guessing_reader/guessing_reader.cpp")),
  NOTE_PIPE, observe=["standard output", "exit status"])

P("P02", "A run whose output could not be written completely never reports success",
  "If writing any byte of standard output fails, psi-pipe exits with a non-zero status, and what was written is a prefix of "
  "the right output. Without a failure the status says success.",
  ["fault_sequences", "inputs"],
  "ENOSPC, EPIPE and EIO at every byte of the output of every pipeline and information command",
  "No test can make a write fail at a chosen byte.",
  [FW + "psi-pipe.cpp", FW + "pipe_runner.cpp"],
  mech(("the output stream is checked when all is written", FW + "psi-pipe.cpp")),
  NOTE_PIPE, observe=["standard output", "exit status"])

P("P03", "A read error on the input is never taken for the end of the input",
  "If reading standard input fails at any byte, psi-pipe reports an error and exits with a non-zero status, whichever reader, "
  "encoding option or mode is used. It ends in bounded time and does not crash.",
  ["fault_sequences", "inputs"],
  "EIO, ENOMEM and ESTALE at every byte of every input of every pipeline",
  "No test can make a read fail at a chosen byte.",
  [FW + "psi-pipe.cpp", FW + "pipe_runner.cpp", "formats/guessing/guessing_reader/guessing_reader.cpp"],
  mech(("a failed stream ends the run with an error", FW + "pipe_runner.cpp")),
  NOTE_PIPE, observe=["standard output", "exit status"])

P("P04", "Line-by-line runs answer each line as if alone, and before asking for more",
  "With --line-by-line the output is the concatenation of what each input line gives when run alone, in order, whatever the "
  "lines before it were. The answer to a line is out before more input than the following buffer is awaited, so that a "
  "partner feeding lines one at a time never waits for ever.",
  ["histories", "schedules", "inputs"],
  "every sequence of lines in every delivery, for every pipeline",
  "State kept between lines and withheld output need sequences and a partner that waits.",
  [FW + "pipe_runner.cpp", FW + "psi-pipe.cpp", "common/lattice_writer.hpp"],
  mech(("one lattice per line", FW + "pipe_runner.cpp"), ("output is flushed after each line", FW + "pipe_runner.cpp")),
  NOTE_PIPE, observe=["standard output at every read of standard input"])

P("P05", "A run's result does not depend on what the process did before",
  "A pipeline run on new or reused runners gives the same output as alone in a new process, whatever pipelines ran before in "
  "the same process and however they ended: normally, by an error in a data file, or by lack of memory. No run leaves "
  "files open.",
  ["histories", "fault_sequences"],
  "every history of up to seven runs of up to four pipelines, with faults in some of them",
  "Shared registries, lazily built resources and static state show only over histories; the tests of one binary each "
  "build their own.",
  [FW + "pipe_runner.cpp", FW + "main_factories_keeper.cpp", FW + "auto_completer.cpp", "common/object_cache.cpp",
   "common/cutter.cpp", "tools/tokenizers/tp/tp_tokenizer.cpp"],
  mech(("each runner builds its own processors", FW + "pipe_runner.cpp"),
       ("processors are const over a lattice", "common/annotator.hpp")),
  NOTE_PIPE, observe=["output of every run", "open files after every run"])

P("P06", "A data file that cannot be opened or read never changes results silently",
  "When opening, reading or looking for any rule, model, lexicon or table file fails, is short or is interrupted, a run gives "
  "exactly the output of an undisturbed run, or reports an error with a non-zero status. Once the faults stop, the same "
  "pipeline in the same process works again.",
  ["fault_sequences", "inputs"],
  "every fault at every operation on the data files of every pipeline",
  "Tests read intact files only.",
  ["common/stream_helpers.cpp", FW + "pipe_runner.cpp", "tools/tokenizers/tp/tp_tokenizer.cpp", "tools/parsers/gobio/gobio.cpp",
   "tools/normalizers/simplenorm/simplenorm_normalizer.cpp", "tools/datastructures/lexica/lexicon_base.cpp",
   "tools/converters/unumsunt/unumsunt.cpp", "tools/recognizers/langguesser/bigram_language_model.cpp"],
  mech(("streams are checked after loading", "common/stream_helpers.cpp: checkFileRead")),
  NOTE_PIPE, observe=["standard output", "exit status", "output of the run after the faults"])

P("P07", "Results do not depend on memory, directory order or the clock",
  "For every pipeline and input, output and exit status are the same for every heap layout, every content of fresh memory, "
  "every order in which directories list their files, every wall-clock time and every timing of reads. Repeating a run repeats its "
  "result.",
  ["schedules", "inputs"],
  "every arrangement of the heap, fill of fresh memory, directory order and clock value over all pipelines",
  "A test process sees one heap layout; order taken from addresses or uninitialised fields often looks stable there.",
  ["common/lattice.cpp", FW + "pipe_runner.cpp", "tools/parsers", "formats"],
  mech(("ordering uses values, not addresses", "common/lattice.hpp")),
  NOTE_PIPE, observe=["standard output", "exit status"])

P("P08", "Lack of memory ends a run with an error, never with a wrong answer or a hang",
  "If any allocations fail during a run, the run reports an error, ends the process abnormally, or still gives exactly the "
  "undisturbed output. It never reports success with other output and never runs on without end.",
  ["fault_sequences", "inputs"],
  "every allocation of every pipeline failing, once, for a while or from then on",
  "No test makes an allocation fail.",
  [FW + "pipe_runner.cpp", FW + "psi-pipe.cpp", "tools", "formats", "common"],
  mech(("exceptions reach main, which reports them", FW + "psi-pipe.cpp")),
  NOTE_PIPE + " terminate() (SIGABRT) counts as a reported error; SIGSEGV and success with other output do not.",
  observe=["standard output", "exit status"])

P("P09", "A damaged document is refused or read, and harms neither process nor later runs",
  "Any truncation or corruption of a document in any supported format makes its reader report an error or build some "
  "lattice in bounded time; it never crashes, hangs or ends the process. The next document in the same process is read as "
  "if the damaged one had never been there.",
  ["inputs", "fault_sequences", "histories"],
  "documents of every format cut at any byte or damaged as torn writes, lost blocks and bit rot do, then an intact one",
  "The tests read intact documents.",
  ["formats/psi/psi_reader", "formats/utt", "formats/apertium", "formats/nkjp", "formats/bracketing", "formats/phrases",
   "formats/txt", "formats/guessing", "common/file_extractor.cpp"],
  mech(("parse errors are exceptions", "formats/psi/psi_reader/psi_lattice_reader.cpp"),
       ("readers keep no state between documents", "formats/")),
  NOTE_PIPE, observe=["end of the process", "output of the run on the intact document"])

P("P10", "Logging never changes what a run answers",
  "With any logging level, a log file or the error output as the log, and whatever happens to the log (it cannot be opened, writing it "
  "fails or is short, the disk is full), psi-pipe gives the same output and exit status as without logging. It neither hangs nor "
  "crashes because of the log.",
  ["fault_sequences", "inputs"],
  "every fault at every operation on the log, every level, over all pipelines",
  "Tests do not log to files, and no test makes a write fail.",
  ["common/logging.cpp", "common/logging.hpp", FW + "pipe_runner.cpp"],
  mech(("log options are set apart from the pipeline", FW + "pipe_runner.cpp: stopAfterExecutingRunnerOptions_"),
       ("messages go to an appender, never to standard output", "common/logging.cpp")),
  NOTE_PIPE, observe=["standard output", "exit status"])

P("F01", "Runs from file to file deliver exactly the output or report failure",
  "A pipeline run from an input file to an output file that reports success has put exactly its output there and nothing "
  "else, whatever opening, reading, writing or closing did and whatever stood there before. Otherwise it reports an error, "
  "and in either case no file stays open.",
  ["fault_sequences", "inputs"],
  "every fault at every operation on the two files, disk full at any point, over all pipelines",
  "The tests read and write files that never fail.",
  [FW + "pipe_runner.cpp", FW + "pipe_runner.hpp"],
  mech(("streams are opened, checked and closed around the run", FW + "pipe_runner.cpp: run")),
  NOTE_PIPE, observe=["the output file", "the result of the call", "open files"])

P("L01", "Saving a binary lexicon is all or nothing under crashes and disk errors",
  "If the process dies at any moment while a binary lexicon is saved, or any disk operation fails, loading it afterwards "
  "gives the complete old or the complete new lexicon, or, if there was none, an error. A save that reported success has "
  "stored exactly the new one, and a later save always works.",
  ["crash_points", "fault_sequences", "histories"],
  "a crash before every disk operation of a save, every disk error, disk full at any operation; all three kinds of lexicon",
  "No test dies half-way through a save.",
  ["tools/datastructures/lexica/lexicon_base.cpp", "tools/datastructures/lexica/key_value_store.cpp",
   "tools/lexica/bilexicon/bilexicon.cpp", "tools/lexica/mapper/mapper.cpp", "tools/lemmatizers/lamerlemma/dictionary.cpp"],
  mech(("written under another name and renamed", "tools/datastructures/lexica/lexicon_base.cpp")),
  NOTE_PIPE + " Crash model: process crash; bytes handed to the kernel survive.",
  observe=["answers of pipelines that load the lexicon afterwards"])

P("L02", "An incomplete or unreadable binary lexicon is refused, never used in part",
  "Loading a binary lexicon that is cut at any byte, or whose opening or reading fails, is reported as an error; short and "
  "interrupted reads change nothing. A run never answers as if the lexicon held less than what was saved.",
  ["fault_sequences", "inputs"],
  "every length of truncated lexicon files, every fault at every operation of a load; all three kinds of lexicon",
  "The tests load complete files.",
  ["tools/datastructures/lexica/lexicon_base.cpp", "tools/datastructures/lexica/key_value_store.cpp",
   "tools/datastructures/lexica/perfect_hash_index.cpp", "tools/lemmatizers/lamerlemma/dictionary.cpp"],
  mech(("the stream is checked after every read", "tools/datastructures/lexica/lexicon_base.cpp")),
  NOTE_PIPE, observe=["answers and exit status of pipelines that load the lexicon"])

P("L03", "Tagger models are saved whole or not at all, and incomplete ones are refused",
  "When training metagger or inflector reports success the file holds the whole new model; when it fails or dies at any point, "
  "the model that was there can still be used, or the new one is complete. A model that cannot be read whole is refused with "
  "an error. So tagging always answers as one of the models that were trained.",
  ["crash_points", "fault_sequences", "inputs"],
  "a crash before every disk operation of a save, every disk error, disk full at any operation, every length of a truncated "
  "model, every fault of a load; both taggers, text and binary models",
  "No test trains a model.",
  ["tools/taggers/metagger/me_tagger.cpp", "tools/taggers/inflector/inflector.cpp", "maxent/modelfile.cpp"],
  mech(("written under another name, checked and renamed; every read checked", "maxent/modelfile.cpp")),
  NOTE_PIPE + " Crash model: process crash; bytes handed to the kernel survive. Models do not carry checksums: cuts and "
  "failing reads are injected, not changed bytes.",
  observe=["the pipelines' answers with the model afterwards", "result of the training run", "open files"])

P("X01", "Documents kept in temporary files are read whole, whatever earlier runs left",
  "Reading a compressed or Word document gives its text or an error, whatever fails or is interrupted while it is kept in "
  "the temporary directory. Whatever an earlier run left there, dead or alive, the next undisturbed run reads it correctly, and "
  "a run that ends has removed the copies it made of Word documents.",
  ["crash_points", "fault_sequences", "histories"],
  "up to three lives with a crash before any operation on the temporary directory, disk full, every error on it",
  "No test dies while it unpacks, and none starts on the remains.",
  ["common/file_extractor.cpp", "common/file_extractor.hpp", "formats/apertium",
   "formats/guessing", "formats/doc"],
  mech(("the archive is stored under a name made from its content", "common/file_extractor.cpp")),
  NOTE_PIPE + " Crash model: process crash; bytes handed to the kernel survive.",
  observe=["output of runs after the disturbed ones"])
