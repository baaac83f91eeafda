// The operating system the code under test sees. Every function here replaces the C
// library's for the whole process (executable symbols win), so Boost.Asio, Boost.Thread,
// libstdc++ and log4cpp run their real code on top of it.
#include "sim.hpp"
#include "real.hpp"
#include "drv.hpp"

#include <arpa/inet.h>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <poll.h>
#include <spawn.h>
#include <pthread.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define OWN Own own_guard

namespace sim {
int thread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int thread_join(pthread_t, void **);
int thread_detach(pthread_t);

std::string workdir;
bool image_on_thread = false;
uint64_t disk_ops = 0, io_faults = 0, first_write_op = 0, last_write_op = 0;
bool disk_crashable = false;
std::vector<std::string> fault_log;

// ---- descriptors ----------------------------------------------------------------------
enum FdKind { FD_FILE, FD_SOCK, FD_LISTEN, FD_EPOLL, FD_EVENT, FD_TIMER, FD_STD };
struct Reg { uint32_t events; epoll_data_t data; uint32_t pending; };
struct Fd {
    FdKind kind;
    int cls = 0;
    std::string path;
    bool wr = false;
    Conn *conn = nullptr;
    uint64_t counter = 0;
    uint64_t timer_gen = 0, expirations = 0;
    std::map<int, Reg> regs;      // epoll
    int ep = -1;                  // epoll this descriptor is registered with
};
static std::map<int, Fd> *fds_p;
static std::map<int, Fd> &fds() { if (!fds_p) fds_p = new std::map<int, Fd>(); return *fds_p; }
static Fd *fd_get(int fd) {
    if (!fds_p) return nullptr;
    auto i = fds_p->find(fd);
    return i == fds_p->end() ? nullptr : &i->second;
}
static int fd_new(FdKind k) {
    int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC);
    if (fd < 0) return -1;
    Fd f;
    f.kind = k;
    fds()[fd] = f;
    return fd;
}

int open_tracked() {
    int n = 0;
    for (auto &p : fds()) n += p.second.kind == FD_FILE || p.second.kind == FD_SOCK;
    return n;
}

// ---- epoll ------------------------------------------------------------------------------
static uint32_t readiness(Fd &f) {
    switch (f.kind) {
    case FD_SOCK: {
        Conn *c = f.conn;
        if (!c) return 0;
        uint32_t r = 0;
        if (!c->in.empty() || c->fin) r |= EPOLLIN;
        if (c->fin) r |= EPOLLRDHUP;
        if (c->window > 0 && !c->srv_shut) r |= EPOLLOUT;
        if (c->rst) r |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
        return r;
    }
    case FD_LISTEN: return 0;     // see listener_ready()
    case FD_EVENT: return (f.counter ? EPOLLIN : 0) | EPOLLOUT;
    case FD_TIMER: return f.expirations ? EPOLLIN : 0;
    default: return 0;
    }
}

static std::deque<Conn *> backlog;
static int listen_fd = -1;

static void notify(int fd, uint32_t what) {
    Fd *f = fd_get(fd);
    if (!f || f->ep < 0) return;
    Fd *e = fd_get(f->ep);
    if (!e) return;
    auto i = e->regs.find(fd);
    if (i == e->regs.end()) return;
    i->second.pending |= what;
    if (what & (i->second.events | EPOLLERR | EPOLLHUP)) wake(e, false);
}

static int conn_fd(Conn *c) {
    for (auto &p : fds())
        if (p.second.kind == FD_SOCK && p.second.conn == c) return p.first;
    return -1;
}

static int next_conn = 0;
bool net_listening() { return listen_fd >= 0; }

Conn *net_connect() {
    Conn *c = new Conn();
    c->id = ++next_conn;
    ev("connect", c->id);
    if (listen_fd < 0) { c->aborted = true; c->srv_closed = true; return c; }
    backlog.push_back(c);
    notify(listen_fd, EPOLLIN);
    return c;
}
void net_deliver(Conn *c, const std::string &s) {
    if (c->srv_closed || c->rst) return;
    ev("deliver", c->id, s.size());
    c->in += s;
    c->total_in += s.size();
    int fd = conn_fd(c);
    if (fd >= 0) notify(fd, EPOLLIN);
}
void net_fin(Conn *c) {
    if (c->srv_closed || c->rst) return;
    ev("fin", c->id);
    c->fin = true;
    int fd = conn_fd(c);
    if (fd >= 0) notify(fd, EPOLLIN | EPOLLRDHUP);
}
void net_rst(Conn *c) {
    if (c->srv_closed || c->rst) return;
    ev("rst", c->id);
    c->rst = true;
    c->in.clear();
    int fd = conn_fd(c);
    if (fd >= 0) notify(fd, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
}
void net_window(Conn *c, uint64_t add) {
    bool was = c->window == 0;
    c->window = c->window + add < c->window ? ~0ull : c->window + add;
    if (was && add && !c->srv_closed) {
        int fd = conn_fd(c);
        if (fd >= 0) notify(fd, EPOLLOUT);
    }
}
int net_open_socks() {
    int n = 0;
    for (auto &p : fds()) n += p.second.kind == FD_SOCK && p.second.conn;
    return n;
}

// ---- signals ---------------------------------------------------------------------------------
static std::deque<int> sigq;
static int sig_key;
int sig_mask(int, const sigset_t *, sigset_t *);
bool sig_kills(int);
void raise_signal(int s) { ev("signal", s); if (sig_kills(s)) finish("killed", "the signal was not blocked in a background thread: default action"); sigq.push_back(s); wake(&sig_key, false); }

// ---- paths ---------------------------------------------------------------------------------
// /tmp belongs to the simulated machine: it is a directory of the scratch area.
static std::string map_path(const char *p) {
    if (!workdir.empty() && !strncmp(p, "/tmp/", 5)) return workdir + "/tmp/" + (p + 5);
    if (!workdir.empty() && !strcmp(p, "/tmp")) return workdir + "/tmp";
    return p;
}
static int classify(const std::string &p) {
    if (workdir.empty()) return 0;
    std::string q = p;
    if (q.compare(0, workdir.size() + 1, workdir + "/") == 0) q = q.substr(workdir.size() + 1);
    else if (q.compare(0, 3, "../") == 0) q = q.substr(3);
    else if (q.empty() || q[0] == '/') return 0;
    else q = "build/" + q;
    auto has = [&](const char *s) { return q.compare(0, strlen(s), s) == 0; };
    if (has("build/site/storage/")) return C_STORE;
    if (has("build/site/")) return C_SITE;
    if (has("build/lex/")) return C_LEX;
    if (has("build/io/")) return C_INOUT;
    if (has("build/log/")) return C_LOG;
    if (has("tmp/")) return C_TMP;
    if (has("tools/") || has("formats/") || has("framework/") || has("common/")) return C_DATA;
    return 0;
}

static bool may_fault(int cls) {
    if (!active || !faults_on || !(plan.file_classes & cls)) return false;
    if (io_faults >= plan.max_faults) return false;
    if (plan.fault_from >= 0 &&
        ((int64_t)disk_ops < plan.fault_from || (int64_t)disk_ops >= plan.fault_from + plan.fault_len)) return false;
    return true;
}
static void note(const char *op, int cls, int err, const std::string &path) {
    io_faults++;
    ev(op, cls, err);
    size_t s = path.rfind('/');
    fault_log.push_back(std::string(op) + " " + std::to_string(cls) + " " + std::to_string(err) + " " +
                        (s == std::string::npos ? path : path.substr(s + 1)));
}
// one tracked disk operation; a crash leaves what already reached the kernel
static void disk_op(const char *op, int cls) {
    if (!active) return;
    ++disk_ops;
    if (strcmp(op, "stat") && strcmp(op, "read") && strcmp(op, "open_r")) {
        if (!first_write_op && !strcmp(op, "open_w")) first_write_op = disk_ops;
        if (first_write_op) last_write_op = disk_ops;
    }
    ev(op, cls);
    if (disk_crashable && plan.crash_at >= 0 && (int64_t)disk_ops > plan.crash_at) {
        sh->fired[K_CRASH]++;
        finish("crashed", op);
    }
    if (in_sim()) point();
}
static bool disk_full(int cls) {
    return active && faults_on && plan.full_from >= 0 && (plan.file_classes & cls) &&
           (int64_t)disk_ops >= plan.full_from && (int64_t)disk_ops < plan.full_from + plan.full_len;
}

// files carry the simulated time of their last change
static void touch_file(int fd) {
    if (!active) return;
    struct timespec t[2];
    t[0].tv_sec = t[1].tv_sec = wall_us() / 1000000;
    t[0].tv_nsec = t[1].tv_nsec = 0;
    syscall(SYS_utimensat, fd, nullptr, t, 0);
}

static const int open_errs[] = {EMFILE, ENFILE, EIO, EACCES, ENOMEM};
static int open_common(const std::string &path, int flags, mode_t mode, int cls) {
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    disk_op(wr ? "open_w" : "open_r", cls);
    if (may_fault(cls)) {
        uint32_t e = decide(K_OPEN_ERR, 6);
        if (e) { int er = open_errs[e - 1]; note("open_err", cls, er, path); errno = er; return -1; }
    }
    if (wr && (flags & O_CREAT) && disk_full(cls) && access(path.c_str(), F_OK) != 0) {
        note("disk_full", cls, ENOSPC, path);
        errno = ENOSPC;
        return -1;
    }
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), flags, mode);
    if (fd < 0) return -1;
    Fd f;
    f.kind = FD_FILE;
    f.cls = cls;
    f.path = path;
    f.wr = wr;
    fds()[fd] = f;
    if (wr) touch_file(fd);
    return fd;
}

static ssize_t file_read(int fd, Fd *f, void *buf, size_t n) {
    disk_op("read", f->cls);
    if (may_fault(f->cls)) {
        if (decide(K_READ_EINTR, 2)) { ev("eintr"); probe("fault.read_eintr"); errno = EINTR; return -1; }
        if (decide(K_READ_ERR, 2)) { note("read_err", f->cls, EIO, f->path); errno = EIO; return -1; }
        if (n > 1) {
            uint32_t s = decide(K_READ_SHORT, n > 65536 ? 65536 : n);
            if (s) { n = s; probe("fault.read_short"); }
        }
    }
    return syscall(SYS_read, fd, buf, n);
}

static ssize_t file_write(int fd, Fd *f, const void *buf, size_t n) {
    disk_op("write", f->cls);
    if (disk_crashable && active && plan.crash_at >= 0 && (int64_t)disk_ops == plan.crash_at && n > 0) {
        // torn: a prefix of this very write reaches the disk
        uint32_t k = decide_p(K_TORN, n + 1, 0.8);
        if (k) { if (k > 1) (void)!syscall(SYS_write, fd, buf, (size_t)(k - 1)); sh->fired[K_CRASH]++; finish("crashed", "torn write"); }
    }
    if (disk_full(f->cls)) {
        note("disk_full", f->cls, ENOSPC, f->path);
        errno = ENOSPC;
        return -1;
    }
    if (may_fault(f->cls)) {
        if (decide(K_WRITE_EINTR, 2)) { ev("eintr"); probe("fault.write_eintr"); errno = EINTR; return -1; }
        uint32_t e = decide(K_WRITE_ERR, 4);
        if (e) {
            int er = e == 1 ? ENOSPC : e == 2 ? EIO : EDQUOT;
            note("write_err", f->cls, er, f->path);
            errno = er;
            return -1;
        }
        if (n > 1) {
            uint32_t s = decide(K_WRITE_SHORT, n > 65536 ? 65536 : n);
            if (s) { n = s; probe("fault.write_short"); }
        }
    }
    return syscall(SYS_write, fd, buf, n);
}

static int file_close(int fd, Fd *f) {
    if (f->wr) touch_file(fd);
    int cls = f->cls;
    bool wr = f->wr;
    std::string path = f->path;
    disk_op("close", cls);
    fds().erase(fd);
    int r = syscall(SYS_close, fd);
    if (wr && may_fault(cls) && decide(K_CLOSE_ERR, 2)) {
        note("close_err", cls, EIO, path);
        errno = EIO;
        return -1;
    }
    return r;
}

// ---- stdio on tracked files and on the standard streams --------------------------------------
StdIn std_in;
StdOut std_out, std_err;
struct Cookie { int fd; };
static std::map<FILE *, int> *cookie_files;

static ssize_t std_read(char *buf, size_t n) { OWN;
    StdIn &s = std_in;
    s.reads++;
    if (s.on_read) s.on_read();
    ev("stdin_read", s.pos);
    if (s.err_at >= 0 && (int64_t)s.pos >= s.err_at) { sh->fired[K_READ_ERR]++; ev("stdin_err"); errno = s.err; return -1; }
    if (s.pos >= s.data.size()) { s.at_eof = true; return 0; }
    if (s.left == 0) {
        s.left = s.chunks.empty() ? s.data.size() : s.chunks[s.ci++ % s.chunks.size()];
        if (!s.left) s.left = 1;
    }
    size_t k = n < s.left ? n : s.left;
    if (k > s.data.size() - s.pos) k = s.data.size() - s.pos;
    if (s.err_at >= 0 && (int64_t)(s.pos + k) > s.err_at) k = s.err_at - s.pos;
    memcpy(buf, s.data.data() + s.pos, k);
    s.pos += k;
    s.left -= k;
    if (!k) { sh->fired[K_READ_ERR]++; errno = s.err; return -1; }
    return k;
}
static ssize_t std_write(StdOut &s, const char *buf, size_t n) { OWN;
    s.writes++;
    if (&s == &std_err && s.data.size() > 16000000 && in_sim())
        finish("stuck", "endless messages on the error output: " + s.data.substr(s.data.size() - 150));
    if (active) ev_bytes(&s == &std_out ? "stdout" : "stderr", buf, &s == &std_out ? n : 0);
    if (s.fail_at >= 0 && (int64_t)s.data.size() >= s.fail_at && n) {
        s.failed = true;
        if (active) { sh->fired[K_WRITE_ERR]++; ev("stdout_err", s.err); }
        errno = s.err;
        return -1;
    }
    if (s.max_write && n > s.max_write) { n = s.max_write; if (active) sh->fired[K_WRITE_SHORT]++; }
    if (s.fail_at >= 0 && (int64_t)(s.data.size() + n) > s.fail_at) n = s.fail_at - s.data.size();
    s.data.append(buf, n);
    return n;
}

static ssize_t ck_read(void *c, char *buf, size_t n) { return read((int)(long)c, buf, n); }
static ssize_t ck_write(void *c, const char *buf, size_t n) {
    size_t done = 0;
    while (done < n) {
        ssize_t r = write((int)(long)c, buf + done, n - done);
        if (r < 0) return done;      // glibc: fewer than asked means an error
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *off, int whence) {
    off64_t r = lseek64((int)(long)c, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) { return close((int)(long)c); }
static ssize_t sc_read(void *c, char *buf, size_t n) { return std_read(buf, n); }
static ssize_t sc_write(void *c, const char *buf, size_t n) {
    StdOut &s = (long)c == 1 ? std_out : std_err;
    size_t done = 0;
    while (done < n) {
        ssize_t r = std_write(s, buf + done, n - done);
        if (r < 0) return done;
        done += r;
    }
    return done;
}

static FILE *cookie_open(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(long)fd, mode, io);
    if (!f) return nullptr;
    if (!cookie_files) cookie_files = new std::map<FILE *, int>();
    (*cookie_files)[f] = fd;
    return f;
}

void install_std() {
    cookie_io_functions_t in = {sc_read, nullptr, nullptr, nullptr};
    cookie_io_functions_t ou = {nullptr, sc_write, nullptr, nullptr};
    FILE *i = fopencookie((void *)0l, "r", in);
    FILE *o = fopencookie((void *)1l, "w", ou);
    FILE *e = fopencookie((void *)2l, "w", ou);
    setvbuf(e, nullptr, _IONBF, 0);
    cookie_files = new std::map<FILE *, int>();
    (*cookie_files)[i] = 0;
    (*cookie_files)[o] = 1;
    (*cookie_files)[e] = 2;
    stdin = i;
    stdout = o;
    stderr = e;
    Fd f;
    f.kind = FD_STD;
    fds()[0] = f;
    fds()[1] = f;
    fds()[2] = f;
}

static int flags_of(const char *m) {
    int fl = 0;
    bool plus = strchr(m, '+') != nullptr;
    switch (m[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: fl = -1;
    }
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}

static bool std_hook_on() { return getenv("PSISIM_REALSTD") == nullptr; }

// what a path-taking metadata call does first
static bool meta_fault(const char *op, const std::string &p, int cls) {
    disk_op(op, cls);
    if (may_fault(cls) && decide(K_META_ERR, 2)) {
        note("meta_err", cls, EIO, p);
        errno = EIO;
        return true;
    }
    return false;
}

static uint64_t tmp_counter = 0;
std::vector<std::string> system_calls;

}   // namespace sim

using namespace sim;

__attribute__((section(".preinit_array"), used)) static void (*psisim_preinit)(void) = [] { sim::install_std(); };

extern "C" {

// ---- threads ---------------------------------------------------------------------------------
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active && image_on_thread) { image_on_thread = false; image_point(); driver_begin(); }
    if (!in_sim()) return REAL(pthread_create)(t, a, fn, arg);
    return thread_create(t, a, fn, arg);
}
int pthread_join(pthread_t t, void **r) { return in_sim() ? thread_join(t, r) : REAL(pthread_join)(t, r); }
int pthread_detach(pthread_t t) { return in_sim() ? thread_detach(t) : REAL(pthread_detach)(t); }

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!in_sim()) return REAL(pthread_mutex_lock)(m);
    point();
    for (;;) {
        int r = REAL(pthread_mutex_trylock)(m);
        if (r != EBUSY) return r;
        probe("mutex.contended");
        block(m);
    }
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = REAL(pthread_mutex_unlock)(m);
    if (in_sim()) {
        int e = errno;
        wake(m, true);
        point();
        errno = e;
    }
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { return REAL(pthread_mutex_destroy)(m); }

int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!in_sim()) return REAL(pthread_rwlock_rdlock)(m);
    for (;;) {
        int r = REAL(pthread_rwlock_tryrdlock)(m);
        if (r != EBUSY) return r;
        block(m);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!in_sim()) return REAL(pthread_rwlock_wrlock)(m);
    for (;;) {
        int r = REAL(pthread_rwlock_trywrlock)(m);
        if (r != EBUSY) return r;
        block(m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    int r = REAL(pthread_rwlock_unlock)(m);
    if (in_sim()) wake(m, true);
    return r;
}

static int cond_wait_until(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
    REAL(pthread_mutex_unlock)(m);
    wake(m, true);
    bool ok = true;
    if (decide(K_SPURIOUS, 2)) point();
    else ok = block(c, deadline);
    for (;;) {
        int r = REAL(pthread_mutex_trylock)(m);
        if (r != EBUSY) break;
        block(m);
    }
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!in_sim()) return REAL(pthread_cond_wait)(c, m);
    return cond_wait_until(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!in_sim()) return REAL(pthread_cond_timedwait)(c, m, ts);
    // clocks of condition variables: both simulated clocks start apart, tell them by size
    int64_t t = ts->tv_sec * 1000000ll + ts->tv_nsec / 1000;
    int64_t base = t > 100000000ll * 1000000 ? wall_us() : (int64_t)now_us();
    int64_t d = t - base;
    return cond_wait_until(c, m, now_us() + (d > 0 ? d : 0));
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!in_sim()) return REAL(pthread_cond_signal)(c);
    wake(c, false);
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!in_sim()) return REAL(pthread_cond_broadcast)(c);
    wake(c, true);
    point();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) { return in_sim() ? 0 : REAL(pthread_cond_destroy)(c); }

int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!in_sim()) return REAL(pthread_once)(o, f);
    volatile int *s = (volatile int *)o;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) break;
        block((void *)o);
    }
    *s = 1;
    try { f(); } catch (...) { *s = 0; wake(o, true); throw; }
    *s = 2;
    wake(o, true);
    return 0;
}

// function-local statics: the lock in libstdc++ would block the baton holder for real
int __cxa_guard_acquire(uint64_t *g) {
    volatile char *b = (volatile char *)g;
    if (b[0]) return 0;
    if (!in_sim()) { b[1] = 1; return 1; }
    while (b[1]) {
        block((void *)g);
        if (b[0]) return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t *g) {
    volatile char *b = (volatile char *)g;
    b[1] = 0;
    b[0] = 1;
    if (in_sim()) wake(g, true);
}
void __cxa_guard_abort(uint64_t *g) {
    volatile char *b = (volatile char *)g;
    b[1] = 0;
    if (in_sim()) wake(g, true);
}

int sched_yield(void) { if (in_sim()) { point(); return 0; } return REAL(sched_yield)(); }
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) {
    if (!in_sim()) return REAL(pthread_sigmask)(how, s, o);
    return sig_mask(how, s, o);
}
int sigwait(const sigset_t *s, int *sig) {
    if (!in_sim()) return REAL(sigwait)(s, sig);
    for (;;) {
        for (auto i = sigq.begin(); i != sigq.end(); ++i)
            if (sigismember(s, *i)) { *sig = *i; sigq.erase(i); return 0; }
        block(&sig_key);
    }
}
int daemon(int, int) { return 0; }

// ---- time and randomness ----------------------------------------------------------------------
// before the first job, while the program starts
static int64_t image_wall() {
    static int64_t v = [] { const char *e = getenv("PSISIM_WALL"); return e ? (int64_t)atoll(e) : 1330000000ll; }();
    return v;
}
time_t time(time_t *t) {
    time_t v = active ? wall_us() / 1000000 : image_wall();
    if (active) ev("time", v);
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *) {
    int64_t u = active ? wall_us() : image_wall() * 1000000;
    tv->tv_sec = u / 1000000;
    tv->tv_usec = u % 1000000;
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    int64_t u;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) u = active ? wall_us() : image_wall() * 1000000;
    else u = active ? now_us() : 0;
    ts->tv_sec = u / 1000000;
    ts->tv_nsec = (u % 1000000) * 1000;
    return 0;
}
clock_t clock(void) { return active ? (clock_t)sh->bb / 1000 : 0; }
int nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (!in_sim()) return 0;
    block(ts, now_us() + ts->tv_sec * 1000000ull + ts->tv_nsec / 1000);
    if (rem) rem->tv_sec = rem->tv_nsec = 0;
    return 0;
}
int usleep(useconds_t u) {
    struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
    struct timespec ts = {(time_t)s, 0};
    nanosleep(&ts, nullptr);
    return 0;
}
int gethostname(char *n, size_t l) { strncpy(n, "simhost", l); return 0; }
pid_t getpid(void) { return 4242; }
ssize_t getrandom(void *b, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i) ((char *)b)[i] = active ? (char)rnd() : (char)(i * 7 + 1);
    return n;
}

// ---- sockets -----------------------------------------------------------------------------------
int socket(int d, int t, int p) {
    if (d != AF_INET && d != AF_INET6) return REAL(socket)(d, t, p);
    return fd_new(FD_SOCK);
}
int bind(int fd, const struct sockaddr *a, socklen_t l) { return fd_get(fd) ? 0 : REAL(bind)(fd, a, l); }
int listen(int fd, int n) {
    Fd *f = fd_get(fd);
    if (!f) return REAL(listen)(fd, n);
    f->kind = FD_LISTEN;
    listen_fd = fd;
    return 0;
}
int setsockopt(int fd, int a, int b, const void *c, socklen_t l) { return fd_get(fd) ? 0 : REAL(setsockopt)(fd, a, b, c, l); }
int getsockopt(int fd, int a, int b, void *c, socklen_t *l) {
    Fd *f = fd_get(fd);
    if (!f) return REAL(getsockopt)(fd, a, b, c, l);
    if (c && *l >= sizeof(int)) *(int *)c = f->conn && f->conn->rst ? ECONNRESET : 0;
    return 0;
}
static void fill_addr(struct sockaddr *a, socklen_t *l) {
    struct sockaddr_in s = {};
    s.sin_family = AF_INET;
    s.sin_port = htons(40000);
    s.sin_addr.s_addr = htonl(0x0a000001);
    memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
    *l = sizeof s;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
    Fd *f = fd_get(fd);
    if (!f) return REAL(getpeername)(fd, a, l);
    if (f->kind == FD_SOCK && (!f->conn || f->conn->rst)) { errno = ENOTCONN; return -1; }
    fill_addr(a, l);
    return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
    if (!fd_get(fd)) return REAL(getsockname)(fd, a, l);
    fill_addr(a, l);
    return 0;
}

static const int accept_errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, ECONNABORTED, EPROTO, EINTR, EHOSTUNREACH};
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
    Fd *f = fd_get(fd);
    if (!f) return REAL(accept4)(fd, a, l, flags);
    point();
    f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    // the client may have given up while it waited in the backlog; Linux still hands it out
    if (backlog.empty()) { errno = EAGAIN; return -1; }
    if (faults_on) {
        uint32_t e = decide(K_ACCEPT_ERR, 9);
        if (e) {
            int er = accept_errs[e - 1];
            ev("accept_err", er);
            fault_log.push_back("accept_err 0 " + std::to_string(er) + " -");
            if (er == ECONNABORTED || er == EPROTO || er == EHOSTUNREACH) {
                Conn *c = backlog.front();
                backlog.pop_front();
                c->aborted = c->io_fault = true;
                c->srv_closed = true;
                if (c->on_srv_close) { auto cb = c->on_srv_close; after(0, [cb, c] { cb(c); }); }
                // the arrival of every other connection makes its own edge
                if (!backlog.empty()) after(30, [fd] { if (listen_fd == fd && !backlog.empty()) notify(fd, EPOLLIN); });
            }
            errno = er;
            return -1;
        }
    }
    Conn *c = backlog.front();
    backlog.pop_front();
    int n = fd_new(FD_SOCK);
    fd_get(n)->conn = c;
    c->accepted = true;
    ev("accept", c->id);
    if (a && l) fill_addr(a, l);
    return n;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
    if (!fd_get(fd)) return REAL(accept)(fd, a, l);
    return accept4(fd, a, l, 0);
}

static const int recv_errs[] = {ECONNRESET, ETIMEDOUT, EINTR, ENOBUFS};
static ssize_t sock_recv(int fd, struct iovec *iov, int niov) {
    point();
    Fd *f = fd_get(fd);
    if (!f || !f->conn) { errno = ENOTCONN; return -1; }
    Conn *c = f->conn;
    if (c->rst) { errno = ECONNRESET; return -1; }
    if (c->in.empty()) {
        if (c->fin) return 0;
        errno = EAGAIN;
        return -1;
    }
    if (faults_on) {
        uint32_t e = decide(K_RECV_ERR, 5);
        if (e) {
            int er = recv_errs[e - 1];
            ev("recv_err", c->id, er);
            fault_log.push_back("recv_err 0 " + std::to_string(er) + " conn" + std::to_string(c->id));
            if (er != EINTR) { c->io_fault = true; c->rst = true; c->in.clear(); }
            errno = er;
            return -1;
        }
    }
    size_t room = 0;
    for (int i = 0; i < niov; ++i) room += iov[i].iov_len;
    size_t n = c->in.size() < room ? c->in.size() : room;
    if (n > 1 && faults_on) {
        uint32_t s = decide(K_RECV_SHORT, n);
        if (s) n = s;
    }
    size_t done = 0;
    for (int i = 0; i < niov && done < n; ++i) {
        size_t k = iov[i].iov_len < n - done ? iov[i].iov_len : n - done;
        memcpy(iov[i].iov_base, c->in.data() + done, k);
        done += k;
    }
    ev_bytes("recv", c->in.data(), n);
    c->in.erase(0, n);
    c->read_by_srv += n;
    return n;
}
static const int send_errs[] = {ECONNRESET, EPIPE, EINTR, ENOBUFS, ETIMEDOUT};
static ssize_t sock_send(int fd, const struct iovec *iov, int niov) {
    point();
    Fd *f = fd_get(fd);
    if (!f || !f->conn) { errno = ENOTCONN; return -1; }
    Conn *c = f->conn;
    if (c->rst) { errno = ECONNRESET; return -1; }
    if (c->srv_shut) { errno = EPIPE; return -1; }
    size_t n = 0;
    for (int i = 0; i < niov; ++i) n += iov[i].iov_len;
    if (n && c->window == 0) { errno = EAGAIN; probe("send.eagain"); return -1; }
    if (faults_on && n) {
        uint32_t e = decide(K_SEND_ERR, 6);
        if (e) {
            int er = send_errs[e - 1];
            ev("send_err", c->id, er);
            fault_log.push_back("send_err 0 " + std::to_string(er) + " conn" + std::to_string(c->id));
            if (er != EINTR) { c->io_fault = true; c->rst = true; c->in.clear(); }
            errno = er;
            return -1;
        }
    }
    if (n > c->window) { n = c->window; probe("send.window_short"); }
    uint64_t hold = 0;
    if (n > 1 && faults_on) {
        // the send buffer is nearly full: it takes a part now and has room again later
        uint32_t s = decide(K_SEND_SHORT, n > 100000 ? 100000 : n);
        if (s && s < n) { n = s; hold = c->window == ~0ull ? c->window : c->window - n; }
    }
    size_t done = 0;
    for (int i = 0; i < niov && done < n; ++i) {
        size_t k = iov[i].iov_len < n - done ? iov[i].iov_len : n - done;
        c->outb.append((const char *)iov[i].iov_base, k);
        done += k;
    }
    if (hold) {
        c->window = 0;
        after(30, [c, hold] { net_window(c, hold); });
    } else if (c->window != ~0ull) c->window -= n;
    ev_bytes("send", c->outb.data() + c->outb.size() - n, n);
    if (c->on_out && n) { auto cb = c->on_out; cb(c, n); }
    return n;
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    if (!fd_get(fd)) return REAL(recv)(fd, b, n, fl);
    struct iovec v = {b, n};
    return sock_recv(fd, &v, 1);
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    if (!fd_get(fd)) return REAL(recvmsg)(fd, m, fl);
    return sock_recv(fd, m->msg_iov, m->msg_iovlen);
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    if (!fd_get(fd)) return REAL(send)(fd, b, n, fl);
    struct iovec v = {(void *)b, n};
    return sock_send(fd, &v, 1);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    if (!fd_get(fd)) return REAL(sendmsg)(fd, m, fl);
    return sock_send(fd, m->msg_iov, m->msg_iovlen);
}
int shutdown(int fd, int how) {
    Fd *f = fd_get(fd);
    if (!f) return REAL(shutdown)(fd, how);
    point();
    if (!f->conn) { errno = ENOTCONN; return -1; }
    ev("shutdown", f->conn->id);
    if (f->conn->rst) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD) f->conn->srv_shut = true;
    return 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    Fd *f = fd_get(fd);
    if (!f) return REAL(ioctl)(fd, req, arg);
    if (f->kind == FD_FILE) return syscall(SYS_ioctl, fd, req, arg);
    if (f->kind == FD_STD) { errno = ENOTTY; return -1; }
    if (req == FIONREAD) *(int *)arg = f->conn ? f->conn->in.size() : 0;
    return 0;
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
    if (n != 1 || !fd_get(p[0].fd)) return REAL(poll)(p, n, timeout);
    Fd *f = fd_get(p[0].fd);
    if (f->kind == FD_FILE) return REAL(poll)(p, n, timeout);
    if (f->kind == FD_STD) { p[0].revents = p[0].events; return 1; }
    p[0].revents = readiness(*f) & p[0].events;
    return p[0].revents ? 1 : 0;
}

// ---- epoll, eventfd, timerfd ----------------------------------------------------------------------
int epoll_create1(int) { return fd_new(FD_EPOLL); }
int epoll_create(int) { return fd_new(FD_EPOLL); }
int eventfd(unsigned c, int) {
    int fd = fd_new(FD_EVENT);
    fd_get(fd)->counter = c;
    return fd;
}
int timerfd_create(clockid_t, int) { return fd_new(FD_TIMER); }
int timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o) {
    Fd *f = fd_get(fd);
    if (!f) return REAL(timerfd_settime)(fd, flags, n, o);
    uint64_t gen = ++f->timer_gen;
    f->expirations = 0;
    uint64_t us = n->it_value.tv_sec * 1000000ull + n->it_value.tv_nsec / 1000;
    if (us || n->it_value.tv_nsec)
        at(flags & TFD_TIMER_ABSTIME ? us : now_us() + us, [fd, gen] {
            Fd *g = fd_get(fd);
            if (g && g->kind == FD_TIMER && g->timer_gen == gen) { g->expirations++; notify(fd, EPOLLIN); }
        });
    return 0;
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event *e) {
    Fd *p = fd_get(ep), *f = fd_get(fd);
    if (!p) return REAL(epoll_ctl)(ep, op, fd, e);
    if (!f) { errno = EPERM; return -1; }
    if (op == EPOLL_CTL_DEL) {
        p->regs.erase(fd);
        f->ep = -1;
        return 0;
    }
    if (op == EPOLL_CTL_ADD && p->regs.count(fd)) { errno = EEXIST; return -1; }
    f->ep = ep;
    Reg &r = p->regs[fd];
    r.events = e->events;
    r.data = e->data;
    uint32_t now = f->kind == FD_LISTEN ? (backlog.empty() ? 0u : (uint32_t)EPOLLIN) : readiness(*f);
    r.pending = now & (e->events | EPOLLERR | EPOLLHUP);
    if (r.pending && active) wake(p, false);
    return 0;
}
int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
    Fd *p = fd_get(ep);
    if (!p) return REAL(epoll_wait)(ep, evs, max, timeout);
    point();
    uint64_t deadline = timeout < 0 ? ~0ull : now_us() + timeout * 1000ull;
    for (;;) {
        p = fd_get(ep);
        if (!p) { errno = EBADF; return -1; }
        std::vector<int> ready;
        for (auto &r : p->regs) {
            Fd *f = fd_get(r.first);
            if (!f) continue;
            bool et = r.second.events & EPOLLET;
            uint32_t now = f->kind == FD_LISTEN ? (backlog.empty() ? 0u : (uint32_t)EPOLLIN) : readiness(*f);
            uint32_t m = (et ? r.second.pending & now : now) & (r.second.events | EPOLLERR | EPOLLHUP);
            if (m) ready.push_back(r.first);
            else if (et) r.second.pending &= now;
        }
        if (!ready.empty()) {
            int n = 0;
            while (!ready.empty() && n < max) {
                uint32_t k = decide(K_EPOLL_ORDER, ready.size());
                int fd = ready[k];
                ready.erase(ready.begin() + k);
                Reg &r = p->regs[fd];
                Fd *f = fd_get(fd);
                uint32_t now = f->kind == FD_LISTEN ? (uint32_t)EPOLLIN : readiness(*f);
                // Linux reports everything that is ready once the edge fired
                evs[n].events = now & (r.events | EPOLLERR | EPOLLHUP);
                evs[n].data = r.data;
                r.pending = 0;
                ++n;
                if (decide_p(K_EPOLL_ORDER, 2, 0.05)) break;   // the kernel may return fewer
            }
            ev("epoll", n);
            return n;
        }
        if (timeout == 0) return 0;
        if (!in_sim()) { errno = EINTR; return -1; }
        if (now_us() >= deadline) return 0;
        if (!block(p, deadline)) return 0;
    }
}

// ---- files -----------------------------------------------------------------------------------------
int open64(const char *path, int flags, ...) { OWN;
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    std::string p = map_path(path);
    int c = classify(p);
    if (!c) return syscall(SYS_openat, AT_FDCWD, p.c_str(), flags, mode);
    return open_common(p, flags, mode, c);
}
int open(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    return open64(path, flags, mode);
}
int __open64_2(const char *path, int flags) { return open64(path, flags); }
int __open_2(const char *path, int flags) { return open64(path, flags); }
int creat(const char *path, mode_t m) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE *fopen64(const char *path, const char *mode) { OWN;
    std::string p = map_path(path);
    int c = classify(p);
    if (!c) return REAL(fopen64)(p.c_str(), mode);
    int fl = flags_of(mode);
    if (fl < 0) { errno = EINVAL; return nullptr; }
    int fd = open_common(p, fl, 0666, c);
    if (fd < 0) return nullptr;
    FILE *f = cookie_open(fd, mode);
    if (!f) close(fd);
    return f;
}
FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }
FILE *fdopen(int fd, const char *mode) { OWN;
    Fd *f = fd_get(fd);
    if (!f || f->kind != FD_FILE) return REAL(fdopen)(fd, mode);
    return cookie_open(fd, mode);
}
int fileno(FILE *f) { OWN;
    if (cookie_files) { auto i = cookie_files->find(f); if (i != cookie_files->end()) return i->second; }
    return REAL(fileno)(f);
}
int fclose(FILE *f) { OWN;
    if (cookie_files) cookie_files->erase(f);
    return REAL(fclose)(f);
}

ssize_t read(int fd, void *b, size_t n) { OWN;
    Fd *f = fd_get(fd);
    if (!f) return syscall(SYS_read, fd, b, n);
    switch (f->kind) {
    case FD_FILE: return file_read(fd, f, b, n);
    case FD_STD: return std_read((char *)b, n);
    case FD_EVENT:
        if (!f->counter) { errno = EAGAIN; return -1; }
        memcpy(b, &f->counter, 8);
        f->counter = 0;
        return 8;
    case FD_TIMER:
        if (!f->expirations) { errno = EAGAIN; return -1; }
        memcpy(b, &f->expirations, 8);
        f->expirations = 0;
        return 8;
    case FD_SOCK: { struct iovec v = {b, n}; return sock_recv(fd, &v, 1); }
    default: errno = EINVAL; return -1;
    }
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { OWN;
    Fd *f = fd_get(fd);
    if (!f) return syscall(SYS_write, fd, b, n);
    switch (f->kind) {
    case FD_FILE: return file_write(fd, f, b, n);
    case FD_STD: return std_write(fd == 1 ? std_out : std_err, (const char *)b, n);
    case FD_EVENT: {
        uint64_t v;
        memcpy(&v, b, 8);
        f->counter += v;
        if (active) notify(fd, EPOLLIN);
        return 8;
    }
    case FD_SOCK: { struct iovec v = {(void *)b, n}; return sock_send(fd, &v, 1); }
    default: errno = EINVAL; return -1;
    }
}
ssize_t writev(int fd, const struct iovec *iov, int n) { OWN;
    Fd *f = fd_get(fd);
    if (!f) return syscall(SYS_writev, fd, iov, n);
    if (f->kind == FD_SOCK) return sock_send(fd, iov, n);
    ssize_t tot = 0;
    for (int i = 0; i < n; ++i) {
        if (!iov[i].iov_len) continue;
        ssize_t r = write(fd, iov[i].iov_base, iov[i].iov_len);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < iov[i].iov_len) break;
    }
    return tot;
}
int close(int fd) { OWN;
    Fd *f = fd_get(fd);
    if (!f) return syscall(SYS_close, fd);
    if (f->kind == FD_FILE) return file_close(fd, f);
    if (f->kind == FD_STD) return 0;
    if (in_sim()) point();
    f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    Conn *c = f->conn;
    if (f->ep >= 0) { Fd *e = fd_get(f->ep); if (e) e->regs.erase(fd); }
    if (f->kind == FD_LISTEN) listen_fd = -1;
    fds().erase(fd);
    syscall(SYS_close, fd);
    if (c && active) {
        ev("close", c->id);
        c->srv_closed = true;
        c->closed_at = sh->events;
        if (c->on_srv_close) { auto cb = c->on_srv_close; cb(c); }
    }
    return 0;
}

// path calls
int mkdir(const char *path, mode_t m) { OWN;
    std::string p = map_path(path);
    int c = classify(p);
    if (c) { if (meta_fault("mkdir", p, c)) return -1; if (disk_full(c)) { note("disk_full", c, ENOSPC, p); errno = ENOSPC; return -1; } }
    return syscall(SYS_mkdir, p.c_str(), m);
}
int rename(const char *a, const char *b) { OWN;
    std::string p = map_path(a), q = map_path(b);
    int c = classify(q);
    if (c && meta_fault("rename", q, c)) return -1;
    return syscall(SYS_rename, p.c_str(), q.c_str());
}
int link(const char *a, const char *b) { OWN;
    std::string p = map_path(a), q = map_path(b);
    int c = classify(q);
    if (c && meta_fault("link", q, c)) return -1;
    return syscall(SYS_link, p.c_str(), q.c_str());
}
int unlink(const char *a) { OWN;
    std::string p = map_path(a);
    int c = classify(p);
    if (c) disk_op("unlink", c);
    return syscall(SYS_unlink, p.c_str());
}
int remove(const char *a) { OWN;
    std::string p = map_path(a);
    int c = classify(p);
    if (c) disk_op("unlink", c);
    int r = syscall(SYS_unlink, p.c_str());
    if (r && errno == EISDIR) r = syscall(SYS_rmdir, p.c_str());
    return r;
}
int unlinkat(int d, const char *a, int fl) { OWN;
    std::string p = map_path(a);
    if (classify(p)) disk_op("unlink", classify(p));
    return syscall(SYS_unlinkat, d, p.c_str(), fl);
}
static const int stat_errs[] = {EIO, EACCES, ENOMEM};
static bool stat_fault(const std::string &p) {
    int c = classify(p);
    if (!c) return false;
    disk_op("stat", c);
    if (!may_fault(c)) return false;
    uint32_t e = decide(K_STAT_ERR, 4);
    if (!e) return false;
    note("stat_err", c, stat_errs[e - 1], p);
    errno = stat_errs[e - 1];
    return true;
}
int stat(const char *a, struct stat *s) { OWN;
    std::string p = map_path(a);
    if (stat_fault(p)) return -1;
    return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), s, 0);
}
int stat64(const char *a, struct stat64 *s) { return stat(a, (struct stat *)s); }
int lstat(const char *a, struct stat *s) { OWN;
    std::string p = map_path(a);
    return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), s, AT_SYMLINK_NOFOLLOW);
}
int statx(int d, const char *a, int fl, unsigned mask, struct statx *s) { OWN;
    if (!*a) return syscall(SYS_statx, d, a, fl, mask, s);
    std::string p = map_path(a);
    if (stat_fault(p)) return -1;
    return syscall(SYS_statx, d, p.c_str(), fl, mask, s);
}

// Directories: what they list is taken at the first read and comes by name, or in the order the plan says.
struct Listing { int cls; std::string path; std::vector<struct dirent64> ents; size_t next; };
static std::map<DIR *, Listing> *dirs_p;
static std::map<int, std::string> *dir_fds_p;
static int dir_open(const char *path, int flags) {
    std::string p = map_path(path);
    int c = classify(p + "/");
    if (c) {
        disk_op("open_d", c);
        if (may_fault(c)) {
            uint32_t e = decide(K_DIR_ERR, 6);
            if (e) { note("dir_err", c, open_errs[e - 1], p); errno = open_errs[e - 1]; return -1; }
        }
    }
    int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), flags);
    if (fd >= 0) {
        if (!dir_fds_p) dir_fds_p = new std::map<int, std::string>();
        (*dir_fds_p)[fd] = p;
    }
    return fd;
}
int __openat64_2(int d, const char *path, int flags) { OWN;
    if (d == AT_FDCWD && (flags & O_DIRECTORY)) return dir_open(path, flags);
    return syscall(SYS_openat, d, map_path(path).c_str(), flags);
}
DIR *opendir(const char *path) { OWN;
    int fd = dir_open(path, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    return fd < 0 ? nullptr : fdopendir(fd);
}
DIR *fdopendir(int fd) { OWN;
    DIR *d = REAL(fdopendir)(fd);
    if (d && dir_fds_p && dir_fds_p->count(fd)) {
        if (!dirs_p) dirs_p = new std::map<DIR *, Listing>();
        Listing l{classify((*dir_fds_p)[fd] + "/"), (*dir_fds_p)[fd], {}, (size_t)-1};
        dir_fds_p->erase(fd);
        (*dirs_p)[d] = l;
    }
    return d;
}
struct dirent64 *readdir64(DIR *d) { OWN;
    if (!dirs_p || !dirs_p->count(d)) return REAL(readdir64)(d);
    Listing &l = (*dirs_p)[d];
    if (l.next == (size_t)-1) {
        while (struct dirent64 *e = REAL(readdir64)(d)) l.ents.push_back(*e);
        std::sort(l.ents.begin(), l.ents.end(), [](const struct dirent64 &a, const struct dirent64 &b) {
            return strcmp(a.d_name, b.d_name) < 0;
        });
        if (active && plan.dir_order) {
            uint64_t x = plan.dir_order * 2 + 1;
            for (char ch : l.path.substr(l.path.rfind('/') + 1)) x = (x ^ (unsigned char)ch) * 0x100000001b3ull;
            for (size_t i = l.ents.size(); i > 1; --i) {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                std::swap(l.ents[i - 1], l.ents[x % i]);
            }
        }
        l.next = 0;
    }
    if (l.cls && may_fault(l.cls) && decide(K_DIR_ERR, 2)) {
        note("dir_err", l.cls, EIO, l.path);
        errno = EIO;
        return nullptr;
    }
    return l.next < l.ents.size() ? &l.ents[l.next++] : nullptr;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) { OWN;
    if (dirs_p) dirs_p->erase(d);
    return REAL(closedir)(d);
}
int access(const char *a, int m) { OWN; return syscall(SYS_access, map_path(a).c_str(), m); }
int truncate64(const char *a, off64_t l) { OWN; return syscall(SYS_truncate, map_path(a).c_str(), l); }
int mkstemp64(char *t) { OWN;
    std::string p = map_path(t);
    size_t n = strlen(t);
    for (int tries = 0; tries < 1000; ++tries) {
        char suf[16];
        snprintf(suf, sizeof suf, "%06llu", (unsigned long long)(++tmp_counter % 1000000));
        memcpy(t + n - 6, suf, 6);
        p = map_path(t);
        int c = classify(p);
        int fd = c ? open_common(p, O_RDWR | O_CREAT | O_EXCL, 0600, c)
                   : syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    errno = EEXIST;
    return -1;
}
int mkstemp(char *t) { return mkstemp64(t); }
char *tempnam(const char *, const char *pfx) { OWN;
    char b[64];
    snprintf(b, sizeof b, "/tmp/%sT%06llu", pfx ? pfx : "", (unsigned long long)++tmp_counter);
    return strdup(b);
}
// A command: only antiword is ever run, on the simulated machine's /tmp. It may fail to
// start, be missing, or be killed half way.
int system(const char *cmd) { OWN;
    if (!active) return REAL(system)(cmd);
    ev("system");
    std::string c = cmd ? cmd : "", m;
    system_calls.push_back(c);
    for (size_t i = 0; i < c.size(); i++) {
        if (!c.compare(i, 5, "/tmp/")) { m += workdir + "/tmp/"; i += 4; }
        else m += c[i];
    }
    if (c.find("antiword") == std::string::npos) return 0;
    uint32_t e = 0;
    disk_op("command", C_TMP);
    if (may_fault(C_TMP)) e = decide(K_OPEN_ERR, 4);
    if (e) note("command_err", C_TMP, e, c.substr(0, 8));
    if (e == 1) { errno = EAGAIN; return -1; }
    if (e == 2) m = "exit 127";
    pid_t pid = 0;
    const char *av[] = {"sh", "-c", m.c_str(), nullptr};
    std::string home = "HOME=" + workdir;
    const char *en[] = {"PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8", home.c_str(), nullptr};
    int st = 0;
    fflush(nullptr);
    if (posix_spawn(&pid, "/bin/sh", nullptr, nullptr, (char **)av, (char **)en)) { errno = EAGAIN; return -1; }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (e == 3) {
        size_t k = m.rfind("1>");
        struct stat b;
        if (k != std::string::npos && !::lstat(m.c_str() + k + 2, &b)) (void)!syscall(SYS_truncate, m.c_str() + k + 2, b.st_size / 2);
        return 9;
    }
    return st;
}
}
