// Runs the real psi-server against simulated clients.
#include "sim.hpp"
#include "drv.hpp"

#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

int psi_server_main(int argc, char **argv);

namespace sim {
extern std::vector<std::string> system_calls;
static const uint64_t NEVER = ~0ull;

struct Jar { std::string cookie, link; };

struct Req {
    int idx = 0, client = 0;
    std::string jar;
    uint64_t start = 0;            // earliest start
    bool overlap = false;          // does not wait for the client's earlier requests
    bool need_cookie = false;      // waits until the jar has one
    std::vector<uint64_t> seg, dly;
    std::string tmpl, bytes;
    std::string end = "normal";
    uint64_t end_n = 0;
    uint64_t win = NEVER, refill = 0, refill_dly = 1000;
    uint64_t gap = 0;              // think time after the previous request
    // progress
    Conn *c = nullptr;
    bool started = false, done = false, sent_all = false, gave_up = false;
    size_t pos = 0, si = 0, di = 0;
    uint64_t t_start = 0, t_sent = 0, t_done = 0, e_start = 0, e_done = 0;
    bool quit = false;             // the connection was given up at a quiescent point
};

static std::vector<std::shared_ptr<Req>> reqs;
static std::map<std::string, Jar> jars;
static int stage = 0;
static uint64_t term_at = NEVER;
static bool term_sent = false, returned = false;
static int n_probes = 0, probe_base = 0;
static std::string probe_tmpl;
static int base_fds = 0;
static bool want_err = false;
static int rounds = 0;
static bool frozen = false;        // the clients do nothing any more

static void replace_all(std::string &s, const std::string &a, const std::string &b) {
    for (size_t i = s.find(a); i != std::string::npos; i = s.find(a, i + b.size())) s.replace(i, a.size(), b);
}

static void try_start(Req *r);

static void client_next(int client) {
    for (auto &r : reqs)
        if (!r->started && r->client == client) { Req *p = r.get(); after(p->gap, [p] { try_start(p); }); break; }
    // requests that wait for somebody else's cookie
    for (auto &r : reqs)
        if (!r->started && r->need_cookie && r->client != client) { Req *p = r.get(); after(1, [p] { try_start(p); }); }
}

static void complete(Req *r) {
    if (r->done) return;
    r->done = true;
    r->t_done = now_us();
    r->e_done = sh->events;
    ev("req_done", r->idx);
    if (r->c) {
        const std::string &o = r->c->outb;
        Jar &j = jars[r->jar];
        size_t hdr = o.find("\r\n\r\n");
        size_t k = o.find("Set-Cookie: PSISESSIONID=");
        if (hdr != std::string::npos && k != std::string::npos && k < hdr) {
            size_t b = k + 25, e = o.find("\r\n", b);
            j.cookie = o.substr(b, e - b);
        }
        k = o.find("'fileToDownload' : '");
        if (k != std::string::npos) {
            size_t b = k + 20, e = o.find('\'', b);
            if (e != std::string::npos && e > b) j.link = o.substr(b, e - b);
        }
    }
    client_next(r->client);
}

static void pump(Req *r) {
    if (r->done || r->gave_up || frozen) return;
    Conn *c = r->c;
    if (c->srv_closed || c->rst) return;
    if ((r->end == "rst" || r->end == "fin" || r->end == "stall") && r->pos >= r->end_n) {
        r->gave_up = true;
        if (r->end == "rst") { net_rst(c); complete(r); }
        else if (r->end == "fin") net_fin(c);
        return;
    }
    if (r->pos >= r->bytes.size()) {
        if (!r->sent_all) { r->sent_all = true; r->t_sent = now_us(); }
        return;
    }
    size_t n = r->seg.empty() ? r->bytes.size() : r->seg[r->si++ % r->seg.size()];
    if (n == 0) n = 1;
    if (n > r->bytes.size() - r->pos) n = r->bytes.size() - r->pos;
    if (r->end == "rst" || r->end == "fin" || r->end == "stall")
        if (r->pos + n > r->end_n) n = r->end_n - r->pos;
    net_deliver(c, r->bytes.substr(r->pos, n));
    r->pos += n;
    uint64_t d = r->dly.empty() ? 0 : r->dly[r->di++ % r->dly.size()];
    after(d, [r] { pump(r); });
}

static void try_start(Req *r) {
    if (r->started || term_sent || frozen || now_us() < r->start) return;
    if (r->need_cookie && jars[r->jar].cookie.empty()) return;
    if (!r->overlap)
        for (auto &q : reqs)
            if (q->client == r->client && q->idx < r->idx && !q->done) return;
    r->started = true;
    r->bytes = r->tmpl;
    Jar &j = jars[r->jar];
    replace_all(r->bytes, "@CK@", j.cookie.empty() ? "" : "Cookie: PSISESSIONID=" + j.cookie + "\r\n");
    // the same cookie in the company of others
    replace_all(r->bytes, "@CKX@", "Cookie: lang=pl" + (j.cookie.empty() ? "" : "; PSISESSIONID=" + j.cookie) + "; theme=x\r\n");
    replace_all(r->bytes, "@CKY@", j.cookie.empty() ? "Cookie: a=b\r\n" : "Cookie: a=b; PSISESSIONID=" + j.cookie + "\r\n");
    replace_all(r->bytes, "@LINK@", j.link.empty() ? "/nolink" : j.link);
    r->t_start = now_us();
    r->e_start = sh->events;
    Conn *c = r->c = net_connect();
    c->window = r->win;
    c->on_out = [r](Conn *c, size_t) {
        if (r->end == "rstrecv" && c->outb.size() >= r->end_n && !r->gave_up) {
            r->gave_up = true;
            after(1, [r, c] { net_rst(c); complete(r); });
        }
        if (r->refill && c->window == 0 && r->win != NEVER)
            after(r->refill_dly, [r, c] { if (!frozen) net_window(c, r->refill); });
    };
    c->on_srv_close = [r](Conn *) { after(50, [r] { complete(r); }); };
    if (r->refill && c->window == 0) after(r->refill_dly, [r, c] { if (!frozen) net_window(c, r->refill); });
    if (c->aborted) { after(1, [r] { complete(r); }); return; }
    after(10, [r] { pump(r); });
}

static std::vector<uint64_t> nums(const std::string &s) {
    std::vector<uint64_t> v;
    std::istringstream is(s);
    std::string w;
    while (std::getline(is, w, ',')) v.push_back(strtoull(w.c_str(), nullptr, 10));
    return v;
}

static Req *add_req(const std::map<std::string, std::string> &a) {
    auto get = [&](const char *k, const char *d) { auto i = a.find(k); return i == a.end() ? std::string(d) : i->second; };
    auto num = [&](const char *k, uint64_t d) { auto i = a.find(k); return i == a.end() ? d : strtoull(i->second.c_str(), nullptr, 10); };
    auto r = std::make_shared<Req>();
    r->idx = reqs.size();
    r->client = num("client", 0);
    r->jar = get("jar", ("c" + std::to_string(r->client)).c_str());
    r->start = num("start", 0);
    r->overlap = num("overlap", 0);
    r->need_cookie = num("need", 0);
    r->seg = nums(get("seg", ""));
    r->dly = nums(get("dly", ""));
    r->gap = num("gap", 20);
    r->tmpl = unhex(get("data", ""));
    r->end = get("end", "normal");
    r->end_n = num("endn", 0);
    r->win = num("win", NEVER);
    r->refill = num("refill", 0);
    r->refill_dly = num("rdly", 1000);
    reqs.push_back(r);
    return r.get();
}

static void report(const std::string &end) {
    for (size_t i = 0; i < reqs.size(); ++i) {
        Req *r = reqs[i].get();
        Conn *c = r->c;
        std::ostringstream o;
        o << "R idx=" << r->idx << " client=" << r->client << " started=" << r->started << " sent=" << (r->pos >= r->bytes.size())
          << " pos=" << r->pos << " done=" << r->done << " gave_up=" << r->gave_up << " probe=" << ((int)i >= probe_base && stage >= 2)
          << " t0=" << r->t_start << " t1=" << r->t_done << " e0=" << r->e_start << " e1=" << r->e_done;
        if (c)
            o << " conn=" << c->id << " io_fault=" << c->io_fault << " aborted=" << c->aborted << " accepted=" << c->accepted
              << " shut=" << c->srv_shut << " closed=" << c->srv_closed << " rst=" << c->rst << " fin=" << c->fin
              << " read=" << c->read_by_srv << " quit=" << r->quit;
        out(o.str());
        out_blob("req" + std::to_string(i), r->bytes);
        out_blob("resp" + std::to_string(i), c ? c->outb : "");
    }
    out("S stage=" + std::to_string(stage) + " returned=" + std::to_string(returned) + " socks=" + std::to_string(net_open_socks()) +
        " fds=" + std::to_string(open_tracked() - base_fds) + " term=" + std::to_string(term_sent) + " diskops=" + std::to_string(disk_ops) +
        " threads=" + std::to_string(live_threads()) + " term_t=" + std::to_string(term_at == NEVER ? 0 : term_at) + " end_t=" + std::to_string(now_us()) + " listening=" + std::to_string(net_listening()) +
        " allocs=" + std::to_string(alloc_count) + " end=" + end);
    if (want_err) { out_blob("stderr", std_err.data); }
    for (auto &s : system_calls) out("SYSTEM " + s);
}

static void quiescent() {
    if (stage == 0) {
        // nothing happens any more: whoever still waits gives up, and his next request follows
        ev("quiescent", 0);
        int open = 0, unanswered = 0;
        for (auto &r : reqs)
            if (r->c && r->started && !r->c->srv_closed) {
                open++;
                if (!r->gave_up && r->pos >= r->bytes.size()) unanswered++;
                r->quit = true;
                net_rst(r->c);
            }
        out("Q stage=0 open=" + std::to_string(open) + " unanswered=" + std::to_string(unanswered) + " socks=" + std::to_string(net_open_socks()));
        for (auto &r : reqs) if (r->started && !r->done) { Req *p = r.get(); after(10, [p] { complete(p); }); open++; }
        if (!open || ++rounds > 200) {
            stage = 1;
            faults_on = false;
        }
        after(1000, [] { ev("settle"); });
        return;
    }
    if (stage == 1) {
        bool more = false;
        for (auto &r : reqs)
            if (!r->started) more = true;      // e.g. they wait for a cookie that never came
        (void)more;
        stage = 2;
        out("Q stage=1 threads=" + std::to_string(live_threads()) + " socks=" + std::to_string(net_open_socks()) + " fds=" + std::to_string(open_tracked() - base_fds));
        probe_base = reqs.size();
        for (auto &r : reqs) r->started = true;
        for (int i = 0; i < n_probes; ++i) {
            std::map<std::string, std::string> a;
            a["client"] = std::to_string(100000 + i);
            a["data"] = hex(probe_tmpl);
            Req *r = add_req(a);
            after(10 + i * 7, [r] { try_start(r); });
        }
        after(1000, [] { ev("probes"); });
        return;
    }
    if (stage == 2) {
        stage = 3;
        out("Q stage=2 socks=" + std::to_string(net_open_socks()) + " fds=" + std::to_string(open_tracked() - base_fds));
        term_sent = true;
        term_at = now_us();
        raise_signal(15);
        return;
    }
    report("deadlock");
    finish("deadlock", "main() has not returned, nothing can run and nothing is pending");
}

void driver_begin() {
    base_fds = open_tracked();
    probe_tmpl = "GET /css/probe.css HTTP/1.0\r\n\r\n";
    for (auto &l : plan.lines) {
        auto a = args_of(l);
        const std::string &k = a["."];
        if (k == "req") { Req *r = add_req(a); at(r->start, [r] { try_start(r); }); }
        else if (k == "jump") { int64_t d = strtoll(a["by"].c_str(), nullptr, 10); at(strtoull(a["at"].c_str(), nullptr, 10), [d] { sh->fired[K_CLOCK]++; clock_jump(d); }); }
        else if (k == "term") { 
            int sig = a.count("sig") ? atoi(a["sig"].c_str()) : 15;
            bool fr = a["freeze"] == "1";
            at(strtoull(a["at"].c_str(), nullptr, 10), [sig, fr] {
                frozen |= fr;
                if (!term_sent) { term_at = now_us(); out("T t=" + std::to_string(term_at) + " open=" + std::to_string(net_open_socks()) + " bb=" + std::to_string(sh->bb) + " reqs=" + std::to_string(reqs.size())); }
                term_sent = true; stage = 3; raise_signal(sig);
            }); }
        else if (k == "probes") { n_probes = atoi(a["n"].c_str()); if (a.count("data")) probe_tmpl = unhex(a["data"]); }
        else if (k == "stderr") want_err = true;
        else if (k == "crashable") disk_crashable = true;
        else if (k == "oom") {           // the allocations at..at+len-1 fail
            alloc_count = 0;
            alloc_fail_from = strtoll(a["at"].c_str(), nullptr, 10);
            alloc_fail_len = strtoll(a["len"].c_str(), nullptr, 10);
            alloc_armed = true;
        }
        else if (k == "calm")            // from here on nothing fails any more
            at(strtoull(a["at"].c_str(), nullptr, 10), [] {
                out("C allocs=" + std::to_string(alloc_count));
                alloc_fail_from = -1;
                faults_on = false;
                ev("calm");
            });
        else if (k == "jar") { jars[a["name"]].cookie = a["cookie"]; jars[a["name"]].link = unhex(a["link"]); }
    }
    probe_base = reqs.size();
    std_err.data.clear();
    on_quiescent = quiescent;
    begin_main();
}
}   // namespace sim

int drv_server_main(int argc, char **argv) {
    using namespace sim;
    std::vector<std::string> args = {"./framework/psi-server"};
    for (int i = 0; i < argc; ++i) args.push_back(argv[i]);
    std::vector<char *> av;
    for (auto &s : args) av.push_back(&s[0]);
    av.push_back(nullptr);
    image_on_thread = true;
    int rc = psi_server_main(args.size(), av.data());
    if (!active) return 3;                 // it never got as far as starting its threads
    returned = true;
    ev("main_returned", rc);
    report("returned");
    finish(term_sent ? "ok" : "returned_early", "rc=" + std::to_string(rc));
}
