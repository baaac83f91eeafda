// psisim: holds the program under test just before anything nondeterministic happens and
// forks one child per simulated run. Jobs come in on fd 0, results leave on fd 1.
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include "sim.hpp"
#include "real.hpp"
#include "drv.hpp"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
extern int result_fd;
void set_wall(int64_t us);

static void die(const char *m) {
    (void)!syscall(SYS_write, 2, m, strlen(m));
    (void)!syscall(SYS_write, 2, "\n", 1);
    _exit(96);
}

static bool read_exact(char *p, size_t n) {
    while (n) {
        ssize_t r = syscall(SYS_read, 0, p, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        p += r;
        n -= r;
    }
    return true;
}
static std::string read_line() {
    std::string s;
    char c;
    while (read_exact(&c, 1)) {
        if (c == '\n') return s;
        s += c;
    }
    return "";
}
static void write_exact(const std::string &s) {
    size_t i = 0;
    while (i < s.size()) {
        ssize_t r = syscall(SYS_write, 1, s.data() + i, s.size() - i);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(0);
        i += r;
    }
}

static void parse_plan(const std::string &text) {
    plan = Plan();
    std::istringstream is(text);
    std::string line;
    int64_t wall = -1;
    while (std::getline(is, line)) {
        if (line.compare(0, 2, "L ") == 0) { plan.lines.push_back(line.substr(2)); continue; }
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if (k == "seed") ls >> plan.seed;
        else if (k == "explicit") { int v; ls >> v; plan.explicit_mode = v; }
        else if (k == "dec") {
            Dec d = {0, 0, 0, 0};
            int kind = 0;
            ls >> d.seq >> d.val >> kind;
            d.kind = kind;
            plan.dec.push_back(d);
        } else if (k == "p") {
            std::string n;
            double v;
            ls >> n >> v;
            for (int i = 0; i < K_MAX; ++i)
                if (n == kind_name[i]) plan.p[i] = v;
        } else if (k == "bb_limit") ls >> plan.bb_limit;
        else if (k == "dir_order") ls >> plan.dir_order;
        else if (k == "classes") ls >> plan.file_classes;
        else if (k == "max_faults") ls >> plan.max_faults;
        else if (k == "crash_at") ls >> plan.crash_at;
        else if (k == "full") ls >> plan.full_from >> plan.full_len;
        else if (k == "window") ls >> plan.fault_from >> plan.fault_len;
        else if (k == "wall") ls >> wall;
        else if (k == "perturb") { int v; ls >> v; mallopt(M_PERTURB, v); }
    }
    if (wall >= 0) set_wall(wall);
}

static long timeout_s = 60;

// The parent stays in here; every return is a child with a plan to run.
void image_point() {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) die("mmap");
    signal(SIGPIPE, SIG_IGN);
    if (getenv("PSISIM_TIMEOUT")) timeout_s = atol(getenv("PSISIM_TIMEOUT"));
    write_exact("READY\n");
    for (;;) {
        std::string l = read_line();
        if (l.compare(0, 4, "JOB ") != 0) _exit(0);
        std::string text(strtoul(l.c_str() + 4, nullptr, 10), '\0');
        if (!read_exact(&text[0], text.size())) _exit(0);
        memset(sh, 0, offsetof(Shared, dec));
        int pf[2];
        if (syscall(SYS_pipe2, pf, O_CLOEXEC)) die("pipe");
        pid_t pid = REAL(fork)();
        if (pid < 0) die("fork");
        if (pid == 0) {
            syscall(SYS_close, pf[0]);
            result_fd = pf[1];
            int nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
            syscall(SYS_dup3, nul, 0, 0);
            syscall(SYS_dup3, nul, 1, 0);
            if (!getenv("PSISIM_TRACE")) syscall(SYS_dup3, nul, 2, 0);
            if (nul > 2) syscall(SYS_close, nul);
            struct rlimit rl = {(rlim_t)timeout_s, (rlim_t)timeout_s + 2};
            setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 6ull << 30;
            setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &rl);
            parse_plan(text);
            return;
        }
        syscall(SYS_close, pf[1]);
        std::string body;
        char buf[65536];
        int left = timeout_s * 1000 * 3;
        bool timed_out = false;
        for (;;) {
            struct pollfd p = {pf[0], POLLIN, 0};
            int r = REAL(poll)(&p, 1, 1000);
            if (r < 0 && errno == EINTR) continue;
            if (r == 0) {
                left -= 1000;
                if (left <= 0) { timed_out = true; kill(pid, SIGKILL); break; }
                continue;
            }
            ssize_t n = syscall(SYS_read, pf[0], buf, sizeof buf);
            if (n <= 0) break;
            body.append(buf, n);
        }
        syscall(SYS_close, pf[0]);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        std::ostringstream o;
        o << "status " << (timed_out ? "timeout" : WIFSIGNALED(st) ? "signal" : "exit") << " "
          << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << "\n";
        std::string det = sh->detail;
        for (char &c : det) if (c == '\n') c = ' ';
        o << "outcome " << sh->outcome << "\ndetail " << det << "\n";
        o << "meta " << sh->hash << " " << sh->bb << " " << sh->events << " " << sh->simtime << " "
          << sh->switches << " " << sh->syscalls << " " << sh->sched_hash << " " << sh->ndec << " "
          << sh->seq << " " << sh->done << "\n";
        o << "fired";
        for (int i = 0; i < K_MAX; ++i) if (sh->fired[i]) o << " " << kind_name[i] << "=" << sh->fired[i];
        o << "\nasked";
        for (int i = 0; i < K_MAX; ++i) if (sh->asked[i]) o << " " << kind_name[i] << "=" << sh->asked[i];
        o << "\ndec";
        for (uint32_t i = 0; i < sh->ndec; ++i)
            o << " " << sh->dec[i].seq << ":" << sh->dec[i].val << ":" << sh->dec[i].kind;
        o << "\nbody " << body.size() << "\n" << body;
        std::string res = o.str();
        write_exact("RES " + std::to_string(res.size()) + "\n" + res);
    }
}

std::map<std::string, std::string> args_of(const std::string &line) {
    std::map<std::string, std::string> m;
    std::istringstream is(line);
    std::string w;
    is >> w;
    m["."] = w;
    while (is >> w) {
        size_t e = w.find('=');
        if (e == std::string::npos) m[w] = "1";
        else m[w.substr(0, e)] = w.substr(e + 1);
    }
    return m;
}
}   // namespace sim

int main(int argc, char **argv) {
    if (argc < 3) { static const char u[] = "usage: psisim server|pipe WORKDIR [args]\n"; (void)!syscall(SYS_write, 2, u, sizeof u - 1); return 2; }
    // the same addresses in every process, as far as this sandbox allows it
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PSISIM_ASLR")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) >= 0 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
            setenv("PSISIM_ASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    if (getenv("PSISIM_BT")) {
        // for debugging: where a simulated process crashed
        signal(SIGSEGV, [](int) {
            int fd = syscall(SYS_open, "/tmp/psisim.bt", O_WRONLY | O_CREAT | O_APPEND, 0600);
            void *b[60];
            backtrace_symbols_fd(b, backtrace(b, 60), fd);
            signal(SIGSEGV, SIG_DFL);
            raise(SIGSEGV);
        });
    }
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C", 1);
    sim::workdir = argv[2];
    if (chdir((sim::workdir + "/build").c_str())) { perror("chdir"); return 2; }
    std::string mode = argv[1];
    if (mode == "server") return drv_server_main(argc - 3, argv + 3);
    if (mode == "pipe") return drv_pipe_main(argc - 3, argv + 3);
    return 2;
}
