// Deterministic simulation runtime: one process, one baton, every choice from one stream.
#ifndef PSISIM_HPP
#define PSISIM_HPP

#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- decisions ------------------------------------------------------------------------
// Every nondeterministic choice is one call of decide(). Value 0 is the default (nothing
// unusual happens); the list of non-zero values is the whole schedule and fault trace.
enum Kind : uint16_t {
    K_SCHED, K_POINT, K_GAP, K_PREEMPT, K_ENV, K_WAKE, K_SPURIOUS, K_EPOLL_ORDER,
    K_RECV_SHORT, K_SEND_SHORT, K_RECV_ERR, K_SEND_ERR, K_ACCEPT_ERR,
    K_OPEN_ERR, K_READ_SHORT, K_READ_ERR, K_READ_EINTR, K_WRITE_SHORT, K_WRITE_ERR,
    K_WRITE_EINTR, K_CLOSE_ERR, K_META_ERR, K_CRASH, K_CLOCK, K_MISC, K_ALLOC, K_TORN,
    K_STAT_ERR, K_DIR_ERR, K_MAX
};
extern const char *kind_name[K_MAX];

uint32_t decide(Kind k, uint32_t n);            // probability from the plan (per kind)
uint32_t decide_p(Kind k, uint32_t n, double p);
// like decide(), but the value is drawn by the caller's function when the coin says so
uint32_t decide_gap();
uint64_t rnd();                                 // only for building default values: hashed

// ---- state shared with the parent (survives a crash of the child) -----------------------
struct Dec { uint32_t seq; uint32_t val; uint16_t kind; uint16_t pad; };
enum { MAXDEC = 60000 };
struct Shared {
    uint64_t hash, bb, events, simtime, switches, syscalls, sched_hash;
    uint32_t ndec, seq;
    uint32_t done;                              // driver commands that ran to their end
    uint32_t fired[K_MAX];
    uint32_t asked[K_MAX];
    char outcome[64];
    char detail[400];
    Dec dec[MAXDEC];
};
extern Shared *sh;

// ---- plan --------------------------------------------------------------------------------
struct Plan {
    uint64_t seed = 0;
    bool explicit_mode = false;
    std::vector<Dec> dec;                       // explicit decisions, by seq
    double p[K_MAX] = {0};
    uint64_t bb_limit = 400000000ull;
    uint64_t dir_order = 0;       // directories list their entries by name, or shuffled by this
    uint32_t file_classes = 0;                  // bit mask of path classes faults may hit
    uint32_t max_faults = 1000000;              // cap on disk faults that fire
    int64_t crash_at = -1;                      // crash at the n-th tracked disk operation
    int64_t full_from = -1, full_len = 0;       // disk full for ops [from, from+len)
    int64_t fault_from = -1, fault_len = 0;     // disk faults only inside this window
    std::vector<std::string> lines;             // driver lines
};
extern Plan plan;
extern bool active;                             // a run is going on (after fork)
extern bool faults_on;

// ---- event log -----------------------------------------------------------------------------
void ev(const char *what, uint64_t a = 0, uint64_t b = 0);     // goes into the hash
void ev_bytes(const char *what, const void *p, size_t n);
void probe(const char *name, uint64_t n = 1);                  // reach counters
void out(const std::string &line);                             // result body
void out_blob(const std::string &tag, const std::string &bytes);
[[noreturn]] void finish(const char *outcome, const std::string &detail = "");
std::string hex(const std::string &s);
std::string unhex(const std::string &s);

// ---- time and events --------------------------------------------------------------------------
uint64_t now_us();
int64_t wall_us();                                             // simulated realtime clock
void clock_jump(int64_t us);
void at(uint64_t t_us, std::function<void()> f);               // environment event
void after(uint64_t d_us, std::function<void()> f);
extern std::function<void()> on_quiescent;

// ---- threads --------------------------------------------------------------------------------
void begin_main();                                             // current thread becomes T0
bool in_sim();                                                 // caller is a simulated thread
void point();                                                  // a place where others may run
bool block(const void *key, uint64_t deadline_us = ~0ull);     // false: timed out
int wake(const void *key, bool all);
int live_threads();

// ---- disk -----------------------------------------------------------------------------------
enum { C_NONE = 0, C_SITE = 1, C_STORE = 2, C_DATA = 4, C_TMP = 8, C_LEX = 16, C_INOUT = 32, C_LOG = 64 };
extern std::string workdir;                                    // absolute, scratch
extern uint64_t disk_ops, first_write_op, last_write_op;
extern bool disk_crashable;
int open_tracked();                                            // tracked descriptors open now
void disk_error_seen(const char *op, int cls, int err);
extern std::vector<std::string> fault_log;
extern uint64_t io_faults;                                     // disk faults that fired so far

// ---- memory -----------------------------------------------------------------------------------
extern __thread int own_depth;                                 // inside the simulator itself
struct Own { Own() { ++own_depth; } ~Own() { --own_depth; } };   // those never fail
extern bool alloc_armed;
extern uint64_t alloc_count;                                   // allocations of the code under test
extern int64_t alloc_fail_from, alloc_fail_len;
extern bool alloc_any;                                         // also where streams swallow it
void warm_backtrace();

// ---- standard streams ---------------------------------------------------------------------------
struct StdIn { std::string data; std::vector<uint32_t> chunks; size_t pos = 0, ci = 0, left = 0; int64_t err_at = -1; int err = 0; uint64_t reads = 0; bool at_eof = false; std::function<void()> on_read; };
struct StdOut { std::string data; int64_t fail_at = -1; int err = 0; bool failed = false; uint64_t writes = 0; uint32_t max_write = 0; };
extern StdIn std_in;
extern StdOut std_out, std_err;
void install_std();                                            // from .preinit_array

// ---- network (server side API is the interposed socket layer) ------------------------------------
struct Conn {
    int id = 0;
    std::string in;            // arrived at the server's kernel, not yet read
    bool fin = false, rst = false;
    std::string outb;          // accepted by the kernel from the server
    uint64_t window = ~0ull;   // bytes the kernel will still take
    bool srv_shut = false, srv_closed = false, accepted = false, aborted = false;
    bool io_fault = false;     // an injected error hit this connection
    uint64_t total_in = 0, read_by_srv = 0, closed_at = 0;
    std::function<void(Conn *, size_t)> on_out;
    std::function<void(Conn *)> on_srv_close;
};
Conn *net_connect();                         // client connects: goes to the listener's backlog
void net_deliver(Conn *, const std::string &);
void net_fin(Conn *);
void net_rst(Conn *);
void net_window(Conn *, uint64_t add);
int net_open_socks();                        // accepted sockets the server still holds
bool net_listening();
void raise_signal(int sig);                  // for sigwait()

}
#endif
