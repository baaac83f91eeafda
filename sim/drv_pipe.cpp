// Runs psi-pipe and the library's own entry points on the simulated machine.
#include "memory_shortage.hpp"
#include "sim.hpp"
#include "drv.hpp"

#include <boost/asio.hpp>
#include "config.hpp"
#include "logging.hpp"
#include "configurator.hpp"
#include "pipe_runner.hpp"
#include "session_manager.hpp"
#include "file_storage.hpp"
#include "file_recognizer.hpp"
#include "guid_generator.hpp"

#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

int psi_pipe_main(int argc, char **argv);

namespace sim {
extern std::vector<std::string> system_calls;

static std::vector<std::string> split0(const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find('\0', i);
        if (j == std::string::npos) j = s.size();
        v.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return v;
}
static std::vector<uint32_t> nums32(const std::string &s) {
    std::vector<uint32_t> v;
    std::istringstream is(s);
    std::string w;
    while (std::getline(is, w, ',')) v.push_back(strtoul(w.c_str(), nullptr, 10));
    return v;
}

static std::map<std::string, std::shared_ptr<PipeRunner>> runners;
static std::vector<std::string> made;
static int n_out = 0;

static void result(const std::string &status, const std::string &bytes) {
    sh->done++;
    int i = n_out++;
    out("X " + std::to_string(i) + " " + status + " faults=" + std::to_string(io_faults) +
        " allocs=" + std::to_string(alloc_count) + " fds=" + std::to_string(open_tracked()));
    out_blob("x" + std::to_string(i), bytes);
}

static int64_t oom_at = -1, oom_len = 1;
struct Armed {
    Armed() { alloc_count = 0; alloc_fail_from = oom_at; alloc_fail_len = oom_len; alloc_armed = true; }
    ~Armed() { alloc_armed = false; oom_at = -1; }
};

template <class F> static void guarded(F f) {
    std::string o, st;
    // as the main programs do
    MemoryShortage::watch();
    MemoryShortage::forget();
    try { Armed a; st = f(o); MemoryShortage::check(); }
    catch (std::exception &e) { st = "exception"; o = e.what(); }
    catch (...) { st = "exception"; o = "unknown"; }
    result(st, o);
}

// Where the heap puts things is not the program's to choose: a seeded pattern of blocks,
// some of them free again, shifts and permutes every later address.
static void shake_heap(uint64_t seed, int n) {
    static std::vector<char *> keep;
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
    auto next = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    std::vector<char *> blocks;
    for (int i = 0; i < n; ++i) {
        size_t k = next() % 8 ? 16 + next() % 240 : 16 + next() % 5000;
        char *b = (char *)malloc(k);
        memset(b, (int)next(), k);
        blocks.push_back(b);
    }
    for (size_t i = blocks.size(); i > 1; --i) std::swap(blocks[i - 1], blocks[next() % i]);
    for (size_t i = 0; i < blocks.size(); ++i)
        if (i % 4) free(blocks[i]); else keep.push_back(blocks[i]);
}

static void command(std::map<std::string, std::string> a) {
    const std::string k = a["."];
    auto num = [&](const char *n, int64_t d) { return a.count(n) ? strtoll(a[n].c_str(), nullptr, 10) : d; };
    if (k == "run") {
        guarded([&](std::string &o) {
            PipeRunner p(unhex(a["pipe"]));
            std::istringstream is(unhex(a["in"]));
            std::ostringstream os;
            int rc = p.run(is, os);
            o = os.str();
            return "rc=" + std::to_string(rc);
        });
    } else if (k == "runner") {
        guarded([&](std::string &) { runners[a["id"]].reset(new PipeRunner(unhex(a["pipe"]))); return std::string("ok"); });
    } else if (k == "runon") {
        guarded([&](std::string &o) {
            auto r = runners[a["id"]];
            if (!r) return std::string("norunner");
            std::istringstream is(unhex(a["in"]));
            std::ostringstream os;
            int rc = r->run(is, os);
            o = os.str();
            return "rc=" + std::to_string(rc);
        });
    } else if (k == "recog") {
        guarded([&](std::string &o) {
            FileRecognizer r;
            std::string t, e;
            r.recognizeMimeTypeAndFileExtension(unhex(a["in"]), t, e);
            o = t + "\n" + e + "\n" + r.recognizeFileExtension(unhex(a["in"]));
            return std::string("ok");
        });
    } else if (k == "sess") {
        guarded([&](std::string &o) {
            SessionManager *m = SessionManager::Instance();
            for (int64_t i = 0; i < num("n", 1); ++i) {
                std::string id = m->newSession()->getId();
                // the way a browser's cookie comes back
                std::string back = SessionManager::SessionId("lang=pl; " + SessionManager::CookieHeaderValue(id) + "; x=y");
                std::string found = m->isSession(back) && m->getSession(back)->getId() == id ? "1" : "0";
                o += id + " " + found + "\n";
                made.push_back(id);
            }
            return std::string("ok");
        });
    } else if (k == "sess_find") {
        // all identifiers handed out so far come back
        guarded([&](std::string &o) {
            SessionManager *m = SessionManager::Instance();
            for (const std::string &id : made) {
                std::string back = SessionManager::SessionId(SessionManager::CookieHeaderValue(const_cast<std::string &>(id)));
                if (!m->isSession(back) || m->getSession(back)->getId() != id) o += id + " 0\n";
            }
            return std::string("ok");
        });
    } else if (k == "sess_jump") {
        sh->fired[K_CLOCK]++;
        clock_jump(num("by", 0));
        result("ok", "");
    } else if (k == "heap") {
        shake_heap(num("seed", 1), num("n", 1000));
    } else if (k == "oom") {
        oom_at = num("at", -1);
        oom_len = num("len", 1);
    } else if (k == "file") {
        guarded([&](std::string &) {
            PipeRunner p(unhex(a["pipe"]));
            int rc = p.run(unhex(a["in"]), unhex(a["out"]));
            return "rc=" + std::to_string(rc);
        });
    } else if (k == "drop") {
        runners.erase(a["id"]);
    } else if (k == "main") {
        std::vector<std::string> args = split0(unhex(a["args"]));
        std::vector<char *> av;
        for (auto &s : args) av.push_back(&s[0]);
        av.push_back(nullptr);
        std_in = StdIn();
        std_in.data = unhex(a["in"]);
        std_in.chunks = nums32(a["chunks"]);
        std_in.err_at = num("in_err_at", -1);
        std_in.err = num("in_err", 5);
        std_out = StdOut();
        std_out.fail_at = num("out_fail_at", -1);
        std_out.err = num("out_err", 28);
        std_out.max_write = num("out_max", 0);
        std_err = StdOut();
        std_err.fail_at = num("err_fail_at", -1);
        std_err.err = num("err_err", 28);
        std::string progress;
        if (num("progress", 0))
            std_in.on_read = [&] { progress += std::to_string(std_in.pos) + ":" + std::to_string(std_out.data.size()) + "\n"; };
        int rc;
        { Armed ar; rc = psi_pipe_main(args.size(), av.data()); }
        // what exit() would do
        std::cout.flush();
        fflush(stdout);
        out("M rc=" + std::to_string(rc) + " out_failed=" + std::to_string(std_out.failed) +
            " in_pos=" + std::to_string(std_in.pos) + " in_reads=" + std::to_string(std_in.reads) +
            " eof=" + std::to_string(std_in.at_eof) + " out_writes=" + std::to_string(std_out.writes) +
            " faults=" + std::to_string(io_faults) + " ops=" + std::to_string(disk_ops) + " fds=" + std::to_string(open_tracked()) + " allocs=" + std::to_string(alloc_count));
        std_in.on_read = nullptr;
        out_blob("progress", progress);
        out_blob("stdout", std_out.data);
        out_blob("stderr", std_err.data);
    }
}

static void run_lines() {
    for (auto &l : plan.lines) {
        auto a = args_of(l);
        if (a["."] == "crashable") { disk_crashable = true; continue; }
        if (a["."] == "faults") { faults_on = a["on"] == "1"; continue; }
        command(a);
    }
}
}   // namespace sim

int drv_pipe_main(int argc, char **argv) {
    using namespace sim;
    Configurator::getInstance().setRunAsInstalled(false);
    warm_backtrace();
    image_point();
    std_err.data.clear();
    begin_main();
    run_lines();
    for (auto &s : system_calls) out("SYSTEM " + s);
    out("S fds=" + std::to_string(open_tracked()) + " diskops=" + std::to_string(disk_ops) + " w0=" + std::to_string(first_write_op) + " w1=" + std::to_string(last_write_op) + " faults=" + std::to_string(io_faults));
    finish("ok");
}
