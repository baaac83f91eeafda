// Decisions, scheduler, event queue, clock, results.
#include "sim.hpp"
#include "real.hpp"
#include <link.h>

#include <atomic>
#include <cerrno>
#include <execinfo.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <limits.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <queue>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {

const char *kind_name[K_MAX] = {
    "sched", "point", "gap", "preempt", "env", "wake", "spurious_wake", "epoll_order",
    "recv_short", "send_short", "recv_err", "send_err", "accept_err",
    "open_err", "read_short", "read_err", "read_eintr", "write_short", "write_err",
    "write_eintr", "close_err", "meta_err", "crash", "clock_jump", "misc", "alloc_fail", "torn_write",
    "stat_err", "dir_err"};

Shared *sh = nullptr;
Plan plan;
bool active = false;
bool faults_on = true;
int result_fd = -1;
std::function<void()> on_quiescent;

// ---- PRNG: splitmix64 ------------------------------------------------------------------
static uint64_t rng_state;
static uint64_t next64() {
    uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t rnd() { return next64(); }

static inline void mix(uint64_t v) {
    uint64_t h = sh->hash ^ v;
    h *= 0x100000001b3ull;
    h ^= h >> 29;
    sh->hash = h;
}

void ev(const char *what, uint64_t a, uint64_t b) {
    if (!active) return;
    uint64_t h = 1469598103934665603ull;
    for (const char *p = what; *p; ++p) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
    mix(h); mix(a); mix(b);
    sh->events++;
    static const char *tr = getenv("PSISIM_TRACE");
    if (tr) {
        char buf[200];
        int n = snprintf(buf, sizeof buf, "[%llu t=%llu T%d] %s %llu %llu\n",
                         (unsigned long long)sh->events, (unsigned long long)now_us(), -1, what,
                         (unsigned long long)a, (unsigned long long)b);
        syscall(SYS_write, 2, buf, n);
    }
}

void ev_bytes(const char *what, const void *p, size_t n) {
    if (!active) return;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char *)p)[i]) * 0x100000001b3ull;
    ev(what, h, n);
}

// ---- decisions ---------------------------------------------------------------------------
static size_t exp_i = 0;

static uint32_t explicit_value(uint32_t seq) {
    while (exp_i < plan.dec.size() && plan.dec[exp_i].seq < seq) ++exp_i;
    if (exp_i < plan.dec.size() && plan.dec[exp_i].seq == seq) return plan.dec[exp_i].val;
    return 0;
}

static void record(Kind k, uint32_t seq, uint32_t v) {
    sh->asked[k]++;
    mix(((uint64_t)k << 32) | v);
    if (!v) return;
    sh->fired[k]++;
    if (sh->ndec < MAXDEC) {
        Dec &d = sh->dec[sh->ndec];
        d.seq = seq; d.val = v; d.kind = k; d.pad = 0;
        sh->ndec++;
    }
}

uint32_t decide_p(Kind k, uint32_t n, double p) {
    uint32_t seq = ++sh->seq, v = 0;
    if (n > 1) {
        if (plan.explicit_mode) v = explicit_value(seq) % n;
        else if (p > 0 && (next64() >> 11) * (1.0 / 9007199254740992.0) < p)
            v = 1 + (uint32_t)(next64() % (n - 1));
    }
    record(k, seq, v);
    return v;
}

uint32_t decide(Kind k, uint32_t n) { return decide_p(k, n, plan.p[k]); }

uint32_t decide_gap() {
    uint32_t seq = ++sh->seq, v = 0;
    if (plan.explicit_mode) v = explicit_value(seq);
    else if ((next64() >> 11) * (1.0 / 9007199254740992.0) < plan.p[K_GAP]) {
        // log-uniform: short and long slices alike
        uint32_t bits = 1 + next64() % 17;
        v = 1 + (uint32_t)(next64() % (1u << bits));
    }
    record(K_GAP, seq, v);
    return v;
}

// ---- results -------------------------------------------------------------------------------
static std::string body;
static std::map<std::string, uint64_t> probes;

void probe(const char *name, uint64_t n) { probes[name] += n; }
void out(const std::string &line) { body += line; body += '\n'; }

std::string hex(const std::string &s) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    r.reserve(s.size() * 2);
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
std::string unhex(const std::string &s) {
    std::string r;
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
void out_blob(const std::string &tag, const std::string &bytes) {
    body += "B " + tag + " " + std::to_string(bytes.size()) + "\n";
    body += bytes;
    body += "\n";
}

static void write_all(int fd, const char *p, size_t n) {
    while (n) {
        ssize_t r = syscall(SYS_write, fd, p, n);
        if (r <= 0) { if (errno == EINTR) continue; _exit(97); }
        p += r; n -= r;
    }
}

static std::atomic<int> finishing{0};

void finish(const char *outcome, const std::string &detail) {
    if (finishing.exchange(1)) for (;;) pause();
    active = false;
    strncpy(sh->outcome, outcome, sizeof sh->outcome - 1);
    strncpy(sh->detail, detail.c_str(), sizeof sh->detail - 1);
    sh->simtime = now_us();
    for (auto &p : probes) body += "P " + p.first + " " + std::to_string(p.second) + "\n";
    for (auto &f : fault_log) body += "F " + f + "\n";
    write_all(result_fd, body.data(), body.size());
    _exit(0);
}

// ---- clock and events ------------------------------------------------------------------------
static uint64_t t_now = 0;
static int64_t wall_off = 1330000000ll * 1000000;        // 2012-02-23
uint64_t now_us() { return t_now; }
int64_t wall_us() { return (int64_t)t_now + wall_off; }
void set_wall(int64_t us) { wall_off = us - (int64_t)t_now; }
void clock_jump(int64_t us) { wall_off += us; ev("clock_jump", (uint64_t)us); }

struct Ev {
    uint64_t t, seq;
    std::function<void()> f;
    bool operator<(const Ev &o) const { return t != o.t ? t > o.t : seq > o.seq; }
};
static std::priority_queue<Ev> evq;
static uint64_t ev_seq = 0;

void at(uint64_t t, std::function<void()> f) { evq.push(Ev{t < t_now ? t_now : t, ++ev_seq, std::move(f)}); }
void after(uint64_t d, std::function<void()> f) { at(t_now + d, std::move(f)); }

static void run_one_event() {
    Ev e = evq.top();
    evq.pop();
    if (e.t > t_now) t_now = e.t;
    e.f();
}

// ---- threads --------------------------------------------------------------------------------------
enum St { RUN, BLOCKED, DONE };
struct Thr {
    int id;
    St st;
    const void *key;
    bool woken;
    uint64_t deadline, wait_gen;
    std::atomic<int> baton;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    bool detached;
    int dtor_rounds;
    sigset_t mask;
};

static std::vector<Thr *> thrs;
static __thread Thr *self = nullptr;
static Thr *current = nullptr;
static pthread_key_t exit_key;
static bool exit_key_made = false;

static void fwait(std::atomic<int> *a) {
    while (a->load() == 0)
        syscall(SYS_futex, (int *)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a->store(0);
}
static void fwake(std::atomic<int> *a) {
    a->store(1);
    syscall(SYS_futex, (int *)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool in_sim() { return self != nullptr && active; }
int sig_mask(int how, const sigset_t *s, sigset_t *o) {
    sigset_t &m = self->mask;
    if (o) *o = m;
    if (!s) return 0;
    if (how == SIG_SETMASK) { m = *s; return 0; }
    for (int i = 1; i < 65; ++i)
        if (sigismember(s, i) == 1) { if (how == SIG_BLOCK) sigaddset(&m, i); else sigdelset(&m, i); }
    return 0;
}
// A thread other than the one that waits for signals would take this one, and the process
// would end there and then.
bool sig_kills(int sig) {
    for (Thr *t : thrs)
        if (t->id && t->st != DONE && sigismember(&t->mask, sig) == 0) return true;
    return false;
}
int live_threads() {
    int n = 0;
    for (Thr *t : thrs) n += t->st != DONE;
    return n;
}

// ---- memory: the n-th allocation of the code under test fails ---------------------------------
__thread int own_depth = 0;
bool alloc_armed = false;
uint64_t alloc_count = 0;
int64_t alloc_fail_from = -1, alloc_fail_len = 1;

extern "C" { int64_t psisim_countdown = INT64_MAX; }
static int64_t slice_start = INT64_MAX;
static bool gap_armed = false;

static void account() {
    if (slice_start != INT64_MAX) sh->bb += slice_start - psisim_countdown;
    slice_start = psisim_countdown;
}

static void arm() {
    account();
    uint32_t g = decide_gap();
    int64_t lim = (int64_t)(plan.bb_limit - sh->bb) + 1;
    if (lim < 1) lim = 1;
    gap_armed = g != 0 && (int64_t)g < lim;
    psisim_countdown = gap_armed ? g : lim;
    slice_start = psisim_countdown;
}

static void switch_to(Thr *t) {
    if (t == current) return;
    Thr *me = self;
    sh->switches++;
    mix(0x5157 + t->id);
    // the identity of an interleaving: which thread ran after how much progress
    sh->sched_hash = (sh->sched_hash ^ (uint64_t)(t->id + 1 + (sh->bb << 4))) * 0x100000001b3ull;
    current = t;
    fwake(&t->baton);
    if (me) fwait(&me->baton);
}

static int runnable(std::vector<Thr *> &v, Thr *except) {
    v.clear();
    for (Thr *t : thrs)
        if (t->st == RUN && t != except) v.push_back(t);
    return (int)v.size();
}

// The caller cannot go on: pick somebody who can, letting time pass when nobody can.
static void reschedule() {
    std::vector<Thr *> v;
    for (;;) {
        if (!evq.empty() && runnable(v, nullptr) && decide(K_ENV, 2)) { run_one_event(); continue; }
        int n = runnable(v, nullptr);
        if (n) {
            Thr *t = v[decide(K_SCHED, n)];
            arm();
            switch_to(t);
            return;
        }
        if (!evq.empty()) { run_one_event(); continue; }
        uint64_t s = sh->events;
        size_t q = evq.size();
        if (on_quiescent) on_quiescent();
        if (evq.size() == q && !runnable(v, nullptr))
            finish("deadlock", "no thread can run and no event is pending");
        (void)s;
    }
}

bool block(const void *key, uint64_t deadline) {
    Own own_guard;
    Thr *me = self;
    me->st = BLOCKED;
    me->key = key;
    me->woken = false;
    me->deadline = deadline;
    uint64_t gen = ++me->wait_gen;
    if (deadline != ~0ull)
        at(deadline, [me, gen] {
            if (me->st == BLOCKED && me->wait_gen == gen) { me->st = RUN; me->woken = false; }
        });
    account();
    reschedule();
    return me->woken;
}

int wake(const void *key, bool all) {
    Own own_guard;
    std::vector<Thr *> v;
    for (Thr *t : thrs)
        if (t->st == BLOCKED && t->key == key) v.push_back(t);
    if (v.empty()) return 0;
    if (all) {
        for (Thr *t : v) { t->st = RUN; t->woken = true; }
        return (int)v.size();
    }
    Thr *t = v[decide(K_WAKE, v.size())];
    t->st = RUN;
    t->woken = true;
    return 1;
}

// Others may run here; the caller stays runnable.
static void yield_to_others(Kind k, bool forced) {
    Own own_guard;
    std::vector<Thr *> v;
    int n = runnable(v, self);
    int e = evq.empty() ? 0 : 1;
    if (n + e == 0) { arm(); return; }
    uint32_t c;
    if (forced) {
        // a slice ended: somebody else runs; which one is a decision of its own
        c = 1 + decide_p(k, n + e, 0.7);
    } else {
        c = decide(k, n + e + 1);
        if (!c) return;
    }
    if ((int)c <= n) {
        account();
        Thr *t = v[c - 1];
        arm();
        switch_to(t);
    } else {
        run_one_event();
        arm();
    }
}

void point() {
    if (!in_sim()) return;
    if (++sh->syscalls > 30000000) finish("stuck", "call limit reached: the code under test makes no progress");
    yield_to_others(K_POINT, false);
}

extern "C" void psisim_slow() {
    if (!active || !self) { psisim_countdown = INT64_MAX; slice_start = INT64_MAX; return; }
    account();
    if (sh->bb >= plan.bb_limit) finish("stuck", "step limit reached: the code under test makes no progress");
    if (!gap_armed) { arm(); return; }
    yield_to_others(K_PREEMPT, true);
}

extern "C" void __sanitizer_cov_trace_pc() {
    if (__builtin_expect(--psisim_countdown > 0, 1)) return;
    psisim_slow();
}

static void thread_exit(void *p) {
    Own own_guard;
    Thr *t = (Thr *)p;
    // thread-specific destructors of the code under test run first
    if (++t->dtor_rounds < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(exit_key, t); return; }
    t->st = DONE;
    ev("thread_exit", t->id);
    wake(t, true);
    Thr *me = self;
    self = nullptr;
    (void)me;
    // hand the baton on without waiting for it again
    account();
    std::vector<Thr *> v;
    reschedule();
}

static void *trampoline(void *p) {
    Thr *t = (Thr *)p;
    self = t;
    fwait(&t->baton);
    pthread_setspecific(exit_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}

void begin_main() {
    if (!exit_key_made) { pthread_key_create(&exit_key, thread_exit); exit_key_made = true; }
    Thr *t = new Thr();
    t->id = thrs.size();
    t->st = RUN;
    t->real = pthread_self();
    REAL(pthread_sigmask)(SIG_BLOCK, nullptr, &t->mask);
    thrs.push_back(t);
    self = current = t;
    rng_state = plan.seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    sh->hash = 1469598103934665603ull;
    sh->sched_hash = 1469598103934665603ull;
    active = true;
    ev("begin", plan.seed);
    arm();
}

int thread_create(pthread_t *out_t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    Own own_guard;
    Thr *t = new Thr();
    t->id = thrs.size();
    t->st = RUN;
    t->fn = fn;
    t->arg = arg;
    t->mask = self->mask;
    int r = REAL(pthread_create)(&t->real, attr, trampoline, t);
    if (r) { delete t; return r; }
    thrs.push_back(t);
    *out_t = t->real;
    ev("thread_create", t->id);
    point();
    return 0;
}

int thread_join(pthread_t th, void **ret) {
    for (Thr *t : thrs)
        if (pthread_equal(t->real, th) && !t->detached) {
            while (t->st != DONE) block(t);
            t->detached = true;
            return REAL(pthread_join)(th, ret);
        }
    return REAL(pthread_join)(th, ret);
}

int thread_detach(pthread_t th) {
    for (Thr *t : thrs)
        if (pthread_equal(t->real, th) && !t->detached) t->detached = true;
    return REAL(pthread_detach)(th);
}

}

namespace sim {
void warm_backtrace() { void *f[4]; backtrace(f, 4); }
// Libraries of other projects do not survive a failing allocation in their own code (libdjvulibre
// frees a wild pointer; Boost's program options lose the names of options): only allocations made by this project and the language's libraries fail.
static bool foreign() {
    Own own_guard;
    static const char *const ok[] = {"psisim", "libstdc++", "libc.so", "libgcc", "ld-linux", "libpsitoolkit", "libboost", "libm.so"};
    void *f[40];
    int n = backtrace(f, 40);
    for (int i = 1; i < n; ++i) {
        struct dl_find_object d;
        // the program itself has an empty name
        if (_dl_find_object(f[i], &d) || !d.dlfo_link_map || !d.dlfo_link_map->l_name[0]) continue;
        const char *b = strrchr(d.dlfo_link_map->l_name, '/');
        b = b ? b + 1 : d.dlfo_link_map->l_name;
        bool known = false;
        for (const char *k : ok) known = known || strstr(b, k);
        // it takes a failure while it splits "name,n" for the end of the names, and crashes when it prints them
        if (strstr(b, "boost_program_options")) known = false;
        if (!known) return true;
    }
    return false;
}
}
void *operator new(size_t n) {
    using namespace sim;
    if (__builtin_expect(alloc_armed, 0) && !own_depth && active) {
        int64_t i = (int64_t)++alloc_count;
        if (alloc_fail_from >= 0 && i >= alloc_fail_from && i - alloc_fail_from < alloc_fail_len) {
            if (!foreign()) {
                // whoever goes on trying will not stop
                if (++sh->fired[K_ALLOC] > 20000) raise(SIGXCPU);
                ev("bad_alloc", n);
                // what the standard operator does before it gives up
                if (std::new_handler h = std::get_new_handler()) h();
                throw std::bad_alloc();
            }
            // this one would fail inside another project's library: take the next
            ++alloc_fail_from;
            sh->asked[K_ALLOC]++;
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
