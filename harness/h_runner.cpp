// P13..P17: the pipeline of stage runners, fed by a stand-in for the generated parser.
//
// The stand-in writes the marker stream of a random syntax tree through feed_callback(), page by
// page, exactly like the generated code does.  The listeners build values whose hash says which
// symbol was reduced from which values; a sequential reduction of the same stream is the oracle.
#include "common.hpp"
#include "Identifier.hpp"
#include "BaseListener.hpp"
#include "CodeGenInterface.hpp"
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#include <atomic>
#include <deque>
#include <memory>
#include <mutex>
#include <sched.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dirent.h>
#include <sys/syscall.h>
using namespace Centaurus;
using namespace vk;

static Harness *H;

// ---- perturbation: delays at the places the threads meet
static std::atomic<uint64_t> g_delay_seed{0};
static std::atomic<int> g_delay_kind{0};
static std::atomic<long> g_kill{0};
static void perturb() {
    if (g_kill.load(std::memory_order_relaxed) > 0 && g_kill.fetch_sub(1) == 1) kill((pid_t)syscall(SYS_getpid), SIGKILL);
    int kind = g_delay_kind.load(std::memory_order_relaxed);
    if (!kind) return;
    static thread_local uint64_t epoch = 0, x = 0;
    uint64_t s = g_delay_seed.load(std::memory_order_relaxed);
    if (epoch != s) { epoch = s; x = mix(s, (uint64_t)syscall(SYS_gettid)); }
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    uint32_t d = (uint32_t)(x >> 40);
    if (kind == 1) { if (d % 3 == 0) sched_yield(); }
    else if (kind == 2) { if (d % 8 == 0) usleep(d % 97); else if (d % 8 < 4) sched_yield(); }
    else { if (d % 64 == 0) usleep(300 + d % 700); }
}
extern "C" int __real_sem_wait(sem_t *);
extern "C" int __wrap_sem_wait(sem_t *s) { perturb(); int r = __real_sem_wait(s); perturb(); return r; }
extern "C" int __real_sem_post(sem_t *);
extern "C" int __wrap_sem_post(sem_t *s) { perturb(); int r = __real_sem_post(s); perturb(); return r; }
// the pid names the shared memory and the semaphore
static std::atomic<int> g_pid{0};
extern "C" pid_t __real_getpid();
extern "C" pid_t __wrap_getpid() { int p = g_pid.load(); return p ? p : __real_getpid(); }

#if defined(__SANITIZE_THREAD__)
// Every runner maps the shared memory itself; for the race detector all of them have to see it at
// one address, or an atomic operation through one mapping would not order those through another.
#include <sys/stat.h>
#include <sys/mman.h>
struct Mapping { dev_t dev; ino_t ino; off_t off; size_t len; void *p; int uses; };
static std::mutex g_maps_lock;
static std::vector<Mapping> g_maps;
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" void *__wrap_mmap(void *at, size_t len, int prot, int flags, int fd, off_t off) {
    struct stat sb;
    if (at || fd < 0 || !(flags & MAP_SHARED) || !(prot & PROT_WRITE) || fstat(fd, &sb) != 0) return __real_mmap(at, len, prot, flags, fd, off);
    std::lock_guard<std::mutex> g(g_maps_lock);
    for (auto &m : g_maps) if (m.dev == sb.st_dev && m.ino == sb.st_ino && m.off == off && m.len == len) { m.uses++; return m.p; }
    void *p = __real_mmap(at, len, prot, flags, fd, off);
    if (p != MAP_FAILED) g_maps.push_back({sb.st_dev, sb.st_ino, off, len, p, 1});
    return p;
}
extern "C" int __real_munmap(void *, size_t);
extern "C" int __wrap_munmap(void *p, size_t len) {
    std::lock_guard<std::mutex> g(g_maps_lock);
    for (size_t i = 0; i < g_maps.size(); i++) if (g_maps[i].p == p && g_maps[i].len == len) {
        if (--g_maps[i].uses) return 0;
        g_maps.erase(g_maps.begin() + (long)i);
        break;
    }
    return __real_munmap(p, len);
}
#endif

// ---- trees and their marker streams
static uint64_t start_marker(int id, uint64_t off) { return ((uint64_t)(id | 0x8000) << 48) | off; }
static uint64_t end_marker(int id, uint64_t off) { return ((uint64_t)id << 48) | off; }
struct Shape { int nodes; int kind; int maxid; bool far; };
static std::vector<uint64_t> make_stream(Rng &r, const Shape &s) {
    std::vector<uint64_t> o;
    std::vector<int> open;
    uint64_t pos = s.far ? ((uint64_t)1 << 48) - 1 - (uint64_t)s.nodes * 8 : 0;
    auto id = [&]() { return s.maxid > 30000 && r.chance(1, 4) ? 32767 - (int)r.below(3) : 1 + (int)r.below((uint32_t)s.maxid); };
    auto begin = [&]() { int k = id(); open.push_back(k); o.push_back(start_marker(k, pos)); };
    auto finish = [&]() { o.push_back(end_marker(open.back(), pos)); open.pop_back(); };
    begin();
    int made = 1;
    while (made < s.nodes) {
        if (r.chance(1, 2)) pos += 1 + r.below(3);
        bool down;
        switch (s.kind) {
        case 0: down = open.size() < 2 || r.chance(1, 2); break;                    // a random walk
        case 1: down = open.size() < 2; break;                                       // flat: a long list
        case 2: down = true; break;                                                  // one chain
        case 3: down = open.size() < 6 || r.chance(1, 20); break;                    // many small deep subtrees
        case 4: down = (made / 50) % 2 ? open.size() < 2 || r.chance(1, 10) : r.chance(9, 10); break;   // waves
        default: down = r.chance(2, 3) || open.size() < 2; break;                    // growing
        }
        if (down) { begin(); made++; } else if (open.size() > 1) finish();
    }
    while (!open.empty()) { if (r.chance(1, 2)) pos += r.below(2); finish(); }
    return o;
}

// ---- what a listener makes of a symbol
static bool valueless(int id, int rate) { return rate && (mix((uint64_t)id, 77) % 16) < (uint64_t)rate; }
static uint64_t reduce_hash(long id, long start, long end, const std::vector<uint64_t> &args) {
    uint64_t h = mix(mix((uint64_t)id, (uint64_t)start), (uint64_t)end);
    for (uint64_t a : args) h = mix(h, a);
    return mix(h, args.size());
}
struct Expect {
    std::vector<uint64_t> hashes;             // of every reduction
    size_t reductions = 0, deepest = 0;
    bool has_root = false; uint64_t root = 0;
};
// the oracle: a sequential reduction of the marker stream
static Expect reduce_sequentially(const std::vector<uint64_t> &m, int rate) {
    Expect e;
    struct Open { int id; uint64_t start; std::vector<uint64_t> args; };
    std::vector<Open> st;
    std::vector<uint64_t> top;
    for (uint64_t v : m) {
        int id = (int)((v >> 48) & 0x7fff);
        uint64_t off = v & 0xffffffffffffull;
        if (v >> 63) { st.push_back({id, off, {}}); e.deepest = std::max(e.deepest, st.size()); continue; }
        Open o = std::move(st.back()); st.pop_back();
        uint64_t h = reduce_hash(id, (long)o.start, (long)off, o.args);
        e.hashes.push_back(h); e.reductions++;
        if (!valueless(id, rate)) (st.empty() ? top : st.back().args).push_back(h);
    }
    std::sort(e.hashes.begin(), e.hashes.end());
    if (st.empty() && top.size() == 1) { e.has_root = true; e.root = top[0]; }
    return e;
}

struct Val { uint64_t hash; int used; };
struct Trouble { std::string text; };
// one per runner, used by its thread only; read when the threads have been joined
struct Log {
    int stage = 0, rate = 0;
    std::vector<Val *> made;
    std::vector<uint64_t> hashes;
    std::vector<std::pair<int, int>> xfer;
    std::string bad;
    long last_end = -1;
    uint64_t reductions = 0, args = 0;
    // python side
    std::vector<Val *> values;
    std::vector<uint64_t> order;              // events, for the schedule's signature
    struct Channels *ch = nullptr;
    bool open = false, first = true, traced = true;
    std::deque<std::deque<Val *>> iters;
};
struct Channels {
    struct Q { std::mutex m; std::deque<std::vector<Val *>> q; };
    std::vector<std::unique_ptr<Q>> q;
};
static std::atomic<uint64_t> g_clock{0};
static bool g_stamp = false;

static Val *make_val(Log &l, const SymbolEntry *s, Val *const *v, int n) {
    std::vector<uint64_t> a;
    for (int i = 0; i < n; i++) {
        if (v[i]->used && l.bad.empty()) l.bad = fmt("a value was handed to two reductions (symbol %ld at %ld-%ld)", s->id, s->start, s->end);
        v[i]->used++;
        a.push_back(v[i]->hash);
    }
    l.reductions++; l.args += (uint64_t)n;
    if (s->end < s->start && l.bad.empty()) l.bad = fmt("symbol %ld ends at %ld before its start %ld", s->id, s->end, s->start);
    if (l.stage == 3) { if (s->end < l.last_end && l.bad.empty()) l.bad = fmt("stage 3 reduced symbol %ld (-%ld) after one that ends at %ld", s->id, s->end, l.last_end); l.last_end = s->end; }
    uint64_t h = reduce_hash(s->id, s->start, s->end, a);
    l.hashes.push_back(h);
    if (valueless((int)s->id, l.rate)) return nullptr;
    Val *o = new Val{h, 0};
    l.made.push_back(o);
    return o;
}
static long on_reduce(const SymbolEntry *s, uint64_t *values, int n, void *ctx) {
    Log &l = *(Log *)ctx;
    perturb();
    return (long)make_val(l, s, (Val *const *)values, n);
}
static void on_transfer(int index, int next, void *ctx) {
    Log &l = *(Log *)ctx;
    perturb();
    l.xfer.emplace_back(index, next);
    if (g_stamp) l.order.push_back(g_clock.fetch_add(1, std::memory_order_relaxed) << 8 | (uint64_t)l.stage);
}
// the python listeners, in C++: stage 2 sends what is left of a page through a channel per bank
static long py_reduce(const SymbolEntry *s, uint64_t *values, int n, void *ctx) {
    Log &l = *(Log *)ctx;
    perturb();
    if (l.stage == 3) {
        uint64_t shift = values[0];
        while (shift > 0) {
            if (l.iters.empty()) { if (l.bad.empty()) l.bad = fmt("stage 3 asks for %d values more than were sent", (int)shift); return 0; }
            auto &q = l.iters.front();
            if (q.empty()) { l.iters.pop_front(); continue; }
            l.values.push_back(q.front()); q.pop_front();
            shift--;
        }
    }
    if ((size_t)n > l.values.size()) { if (l.bad.empty()) l.bad = fmt("%d arguments for symbol %ld, but %d values", n, s->id, (int)l.values.size()); return 0; }
    Val *v = make_val(l, s, l.values.data() + (l.values.size() - (size_t)n), n);
    l.values.resize(l.values.size() - (size_t)n);
    if (!v) return 0;
    l.values.push_back(v);
    return 1;
}
static void py_transfer(int index, int next, void *ctx) {
    Log &l = *(Log *)ctx;
    on_transfer(index, next, ctx);
    if (l.stage == 2) {
        if (!l.open) { l.open = true; l.values.clear(); return; }
        l.open = false;
        Channels::Q &q = *l.ch->q[(size_t)index];
        std::lock_guard<std::mutex> g(q.m);
        q.q.push_back(l.values);
        l.values.clear();
    } else {
        Channels::Q &q = *l.ch->q[(size_t)index];
        std::vector<Val *> v;
        {
            std::lock_guard<std::mutex> g(q.m);
            if (q.q.empty()) { if (l.bad.empty()) l.bad = fmt("nothing was sent for bank %d", index); return; }
            v = q.q.front(); q.q.pop_front();
        }
        if (l.first) { l.first = false; l.values = v; }
        else l.iters.emplace_back(v.begin(), v.end());
    }
}

// ---- the stand-in for the generated parser
struct FakeParser : public IParser {
    std::vector<uint64_t> stream;
    size_t per_bank;
    bool accept = true, stale = false;
    size_t pages = 0;
    const void *seen_input = nullptr;
    int probe = 0;
    virtual const void *operator()(BaseListener *l, const void *input) override {
        seen_input = input;
        if (probe) { volatile char c = *(const char *)input; (void)c; }
        uint64_t *out = (uint64_t *)l->feed_callback();
        pages = 1;
        size_t n = 0;
        for (uint64_t v : stream) {
            if (n == per_bank) { perturb(); out = (uint64_t *)l->feed_callback(); pages++; n = 0; }
            out[n++] = v;
        }
        while (n < per_bank) out[n++] = 0;
        perturb();
        return accept ? (const char *)input + 1 : nullptr;
    }
};

struct Conf { size_t entries; int banks, workers, rate; bool py, capture, dry; };
static std::string show_conf(const Conf &c, const Shape &s, size_t cut, int delay) {
    return fmt("%d symbols (shape %d, ids up to %d%s), %d entries per bank, %d banks, %d workers, valueless %d/16%s%s%s, cut %ld, delays %d", s.nodes, s.kind, s.maxid, s.far ? ", far offsets" : "",
               (int)c.entries, c.banks, c.workers, c.rate, c.py ? ", python protocol" : "", c.capture ? ", captured" : "", c.dry ? ", dry" : "", (long)cut, delay);
}
struct Outcome { std::vector<uint64_t> hashes; uint64_t schedule = 0; size_t pages = 0; bool has_root = false; uint64_t root = 0; };

static bool run_once(const Conf &c, const std::vector<uint64_t> &stream, bool accept, const std::string &input, const std::string &what, Outcome &out, Rng &r) {
    FakeParser parser;
    parser.stream = stream; parser.per_bank = c.entries; parser.accept = accept;
    int pid = get_current_pid();
    std::vector<std::unique_ptr<Log>> logs;
    Channels ch;
    for (int i = 0; i < c.banks; i++) ch.q.emplace_back(new Channels::Q);
    auto log = [&](int stage) { logs.emplace_back(new Log); logs.back()->stage = stage; logs.back()->rate = c.rate; logs.back()->ch = &ch; return logs.back().get(); };
    std::atomic<int> counter{0};
    size_t bank = c.entries * 8;
    std::unique_ptr<Stage1Runner> s1(new Stage1Runner(input.c_str(), &parser, bank, c.banks, c.dry, c.capture));
    std::vector<std::unique_ptr<NonRecursiveReductionRunner>> rs;
    perturb();
    if (!c.dry) {
        for (int i = 0; i < c.workers; i++) rs.emplace_back(new Stage2Runner(input.c_str(), bank, c.banks, pid, log(2), &counter));
        rs.emplace_back(new Stage3Runner(input.c_str(), bank, c.banks, pid, log(3), &counter));
        perturb();
        for (size_t k = 0; k < rs.size(); k++) {
            auto &p = rs[k];
#if PYCENTAURUS
            p->register_python_listener(py_reduce, py_transfer);
#else
            if (r.chance(1, 4)) { p->register_listener(on_reduce); logs[k]->traced = false; } else p->register_python_listener(on_reduce, on_transfer);
#endif
        }
    }
    // any order of starting is allowed
    std::vector<BaseRunner *> all{s1.get()};
    for (auto &p : rs) all.push_back(p.get());
    for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[r.below((uint32_t)i)]);
    for (auto p : all) { p->start(); if (r.chance(1, 8)) usleep(r.below(300)); }
    for (auto p : all) p->wait();
    bool ok = true;
    auto bad = [&](const std::string &key, const std::string &text) { if (ok) H->viol(key, text + "; " + what); ok = false; };
    out.pages = parser.pages;
    if (parser.seen_input != s1->get_input()) bad("input", "the parser was not given the input window");
    if ((s1->get_result() != nullptr) != accept) bad("result", "the parser's result is not reported");
    if (c.capture) {
        std::vector<uint64_t> got;
        for (auto &k : s1->result_chunks()) for (auto it = k.begin(); it != k.end(); ++it) { uint64_t v; memcpy(&v, it, 8); got.push_back(v); }
        // every page is there, in order
        std::vector<uint64_t> want(stream);
        want.resize(parser.pages * c.entries, 0);
        if (got != want) bad("capture", fmt("captured chunks hold %d entries (%d pages), not the %d markers that were written", (int)got.size(), (int)parser.pages, (int)stream.size()));
    }
    if (!c.dry) {
        size_t total = 0;
        std::vector<Val *> unused;
        std::map<int, int> taken, sent, received;
        std::vector<std::pair<int, int>> s3;
        std::vector<std::pair<uint64_t, int>> events;
        bool traced = true;
        for (size_t k = 0; k < logs.size(); k++) {
            Log &l = *logs[k];
            if (!l.bad.empty()) bad("values", l.bad);
            total += l.reductions;
            out.hashes.insert(out.hashes.end(), l.hashes.begin(), l.hashes.end());
            H->inc(l.stage == 2 ? "reduced-by-workers" : "reduced-at-the-end", l.reductions);
            traced = traced && l.traced;
            // stage 2: (-1, page) and (bank, -1) in turn; stage 3: (bank, page) for every page in order
            for (size_t i = 0; i < l.xfer.size(); i++) {
                auto &x = l.xfer[i];
                if (l.stage == 2) {
                    if (i % 2 == 0) { if (x.first != -1) bad("protocol", fmt("a worker was told (%d,%d) when it took a page", x.first, x.second)); taken[x.second]++; }
                    else { if (x.second != -1 || x.first < 0 || x.first >= c.banks) bad("protocol", fmt("a worker was told (%d,%d) when it gave a page on", x.first, x.second)); }
                } else s3.push_back(x);
            }
            if (l.stage == 2 && l.xfer.size() % 2) bad("protocol", "a worker kept its last page");
            for (size_t i = 0; i < l.order.size(); i++) events.emplace_back(l.order[i] >> 8, (int)k);
        }
        if (traced && !s3.empty()) {
            H->inc("protocol-traces");
            for (size_t i = 0; i < s3.size(); i++)
                if (s3[i].second != (int)i || s3[i].first < 0 || s3[i].first >= c.banks) { bad("protocol", fmt("stage 3 was told (%d,%d) for its page %d", s3[i].first, s3[i].second, (int)i)); break; }
            if (s3.size() != parser.pages) bad("protocol", fmt("stage 3 got %d pages of %d", (int)s3.size(), (int)parser.pages));
            for (auto &p : taken) if (p.second != 1) bad("protocol", fmt("page %d was reduced by %d workers", p.first, p.second));
            if (taken.size() != parser.pages) bad("protocol", fmt("%d of %d pages were taken by workers", (int)taken.size(), (int)parser.pages));
        }
        std::sort(events.begin(), events.end());
        uint64_t sig = 0;
        for (auto &e : events) sig = mix(sig, (uint64_t)e.second);
        out.schedule = mix(sig, (uint64_t)parser.pages);
        if ((size_t)counter.load() != total) bad("counter", fmt("the counter says %d after %d reductions", counter.load(), (int)total));
        std::sort(out.hashes.begin(), out.hashes.end());
        std::vector<uint64_t> left;
        for (auto &l : logs) for (Val *v : l->made) { if (!v->used) left.push_back(v->hash); if (v->used > 1) bad("values", "a value was used twice"); }
        if (left.size() == 1) { out.has_root = true; out.root = left[0]; }
        for (auto &l : logs) for (Val *v : l->made) delete v;
    }
    while (!all.empty()) {           // ... and of destroying
        size_t k = r.below((uint32_t)all.size());
        BaseRunner *p = all[k];
        all.erase(all.begin() + (long)k);
        if (p == s1.get()) s1.reset();
        else for (auto &q : rs) if (q.get() == p) q.reset();
    }
    H->inc("pages", out.pages);
    return ok;
}
static bool judge(const Expect &e, const Outcome &o, bool complete, const std::string &what) {
    H->inc("reductions", e.reductions);
    if (o.hashes != e.hashes) {
        std::vector<uint64_t> miss, extra;
        std::set_difference(e.hashes.begin(), e.hashes.end(), o.hashes.begin(), o.hashes.end(), std::back_inserter(miss));
        std::set_difference(o.hashes.begin(), o.hashes.end(), e.hashes.begin(), e.hashes.end(), std::back_inserter(extra));
        H->viol(complete ? "reductions" : "reductions:cut", fmt("%d reductions were made instead of %d; %d expected ones are missing, %d others were made; ", (int)o.hashes.size(), (int)e.hashes.size(), (int)miss.size(), (int)extra.size()) + what);
        return false;
    }
    if (complete && e.has_root && (!o.has_root || o.root != e.root)) { H->viol("root", "the value of the whole input is not the one left over; " + what); return false; }
    return true;
}

static Conf make_conf(Rng &r) {
    static const size_t sizes[] = {1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 200, 1000};
    Conf c;
    c.entries = sizes[r.below(12)];
    c.workers = r.range(1, r.chance(1, 4) ? 6 : 3);
    c.banks = r.chance(1, 2) ? c.workers * 2 : r.range(c.workers, c.workers + 4);
    c.rate = r.chance(1, 3) ? 0 : r.range(1, r.chance(1, 8) ? 16 : 8);
    c.py = false; c.capture = r.chance(1, 8); c.dry = r.chance(1, 20);
#if PYCENTAURUS
    c.py = true;
#endif
    return c;
}
static std::string g_input;
static void arm_wall(Rng &) {
    alarm(getenv("VK_SLOW") ? 100 : 25);
}

static void pipeline(uint64_t i, Rng &r) {
    arm_wall(r);
    bool race = H->mode == "race";
    Conf c = make_conf(r);
    static const int counts[] = {1, 2, 3, 10, 30, 100, 300, 1000};
    Shape s{counts[r.below(8)], (int)r.below(6), r.chance(1, 4) ? 32767 : r.range(1, 40), r.chance(1, 6)};
    if (race && s.nodes > 300) s.nodes = 200;
    if (r.chance(1, H->tier ? 40 : 400)) s.nodes = 60000;
    size_t limit = (size_t)s.nodes * 2 / 400 + 1;      // not too many pages: every one costs a turn of busy threads
    if (c.entries < limit) c.entries = limit;
    std::vector<uint64_t> m = make_stream(r, s);
    bool cut = r.chance(1, 6);
    size_t at = m.size();
    if (cut) { at = r.below((uint32_t)m.size() + 1); if (r.chance(1, 3)) at = at / c.entries * c.entries; m.resize(at); }
    int delay = (int)r.below(4);
    g_delay_kind = delay; g_delay_seed = mix(H->seed, i) | 1;
    g_stamp = true;
    std::string what = show_conf(c, s, cut ? at : (size_t)-1, delay);
    H->note("", what);
    Expect e = reduce_sequentially(m, c.rate);
    Outcome o;
    bool ok = run_once(c, m, !cut, g_input, what, o, r);
    H->inc("parses");
    H->inc(cut ? "rejected-inputs" : "accepted-inputs");
    H->seen("configurations", mix(hash_str(fmt("%d/%d/%d/%d", (int)c.entries, c.banks, c.workers, c.rate)), (uint64_t)s.nodes * 8 + s.kind));
    if (!c.dry) {
        H->seen("schedules", o.schedule);
        if (ok) judge(e, o, !cut, what);
    }
    H->counters["max-depth"] = std::max<uint64_t>(H->counters["max-depth"], e.deepest);
    H->counters["max-pages"] = std::max<uint64_t>(H->counters["max-pages"], o.pages);
    if (i < 3) H->sample(what + fmt(": %d reductions over %d pages", (int)e.reductions, (int)o.pages));
    alarm(0);
}

#include "h_runner_env.inc"

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    h.cpu_limit = 1500;
    signal(SIGALRM, Harness::on_cpu);
    g_input = h.scratch + "/input";
    FILE *f = fopen(g_input.c_str(), "w");
    for (int i = 0; i < 600; i++) fputs("0123456789abcdef", f);
    fclose(f);
    h.loop([&](uint64_t i, Rng &r) {
        if (h.mode == "reduce" || h.mode == "race") pipeline(i, r);
        else other(i, r);
    });
    return h.finish();
}
