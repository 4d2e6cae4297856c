// P18: Context, from a grammar file and an input file to the calls of the attached functions.
#include "refparse.hpp"
#include "CodeGenEM64T.hpp"
#include "Context.hpp"
#include <mutex>
#include <dirent.h>

// ---- the attached functions: one for each rule, since a call does not tell the rule
enum { RULES = 12 };
struct Node { int rule; const char *start, *end; std::string text; std::vector<Node *> args; uint64_t hash; };
static struct Calls {
    std::mutex lock;
    std::vector<std::unique_ptr<Node>> nodes;      // in the order of the calls: arguments come first
    std::unordered_set<Node *> due;                // values that are not yet passed on
    int valueless = 0;
    std::string bad;
} calls;
static bool gives_none(int rule, const std::string &text) { return calls.valueless && mix(hash_str(text), (uint64_t)rule) % 16 < (uint64_t)calls.valueless; }
static uint64_t node_hash(int rule, long start, long end, const std::vector<uint64_t> &args) {
    uint64_t h = mix(mix((uint64_t)rule, (uint64_t)start), (uint64_t)end);
    for (uint64_t a : args) h = mix(h, a);
    return mix(h, args.size());
}
template <int K> static void *on_rule(const SymbolContext<char> &c) {
    std::unique_ptr<Node> n(new Node());
    n->rule = K;
    n->start = c.start(); n->end = c.end();
    std::lock_guard<std::mutex> g(calls.lock);
    std::string bad;
    if (n->end < n->start || c.len() != n->end - n->start || n->end - n->start > 10000000) bad = "extent and length differ";
    else {
        n->text = c.read();
        if (n->text != std::string(n->start, n->end)) bad = "text and extent differ";
    }
    for (int i = 1; i <= c.count() && bad.empty(); i++) {
        Node *v = c.value<Node>(i);
        if (!calls.due.erase(v)) { bad = fmt("value %d of %d is none that is due", i, c.count()); break; }
        n->args.push_back(v);
    }
    if (!bad.empty() && calls.bad.empty()) calls.bad = fmt("rule %d: ", K) + bad;
    Node *v = n.get();
    calls.nodes.push_back(std::move(n));
    if (gives_none(K, v->text)) return nullptr;
    calls.due.insert(v);
    return v;
}
template <int K> struct Fill { static void in(CppReductionCallback<char> *t) { t[K] = on_rule<K>; Fill<K - 1>::in(t); } };
template <> struct Fill<-1> { static void in(CppReductionCallback<char> *) {} };

static int leftovers() {
    int n = 0;
    std::string pid = std::to_string(getpid());
    if (DIR *d = opendir("/dev/shm")) {
        while (dirent *e = readdir(d)) {
            // the number by itself: other processes and the rest of the name have digits, too
            std::string s = e->d_name;
            size_t k = s.find(pid);
            for (; k != std::string::npos; k = s.find(pid, k + 1))
                if (!(k && isalnum((unsigned char)s[k - 1])) && !isalnum((unsigned char)s.c_str()[k + pid.size()])) break;
            if (k != std::string::npos && s.find("entaurus") != std::string::npos) n++;
        }
        closedir(d);
    }
    return n;
}

static void one(uint64_t i, Rng &r, bool big) {
    typedef char T;
    std::string gtext;
    std::unique_ptr<Made<T>> mm;
    if (big) {
        static const std::vector<std::string> g{"List : ( Item )* ;\nItem : 'a' | 'b' | Pair ;\nPair : '(' Item Item ')' ;\n",
                                                "Chain : ( Link Chain )? ;\nLink : /[a-z]/ ;\n"};
        mm.reset(new Made<T>(r, i, g[0]));
    } else mm.reset(new Made<T>(r, i));
    Made<T> &m = *mm;
    if (!m.usable || m.ll->names.size() > RULES) { H->inc("unusable"); return; }
    std::string gpath = H->scratch + "/g.cgr", ipath = H->scratch + "/input";
    { std::ofstream f(gpath, std::ios::binary); f << m.text; }
    RefParser<T> ref(m);
    static const int sizes[] = {8, 16, 24, 32, 64, 256, 1024, 4096};
    vkjit::page().hits = 0;
    vkjit::page().size = big ? 0 : sizes[r.below(8)];
    Context<T> ctx(gpath.c_str());
    int page = vkjit::page().hits ? (int)vkjit::page().size : 8388608;
    vkjit::page() = vkjit::Page();
    unlink(gpath.c_str());
    H->inc("grammars");
    CppReductionCallback<T> table[RULES];
    Fill<RULES - 1>::in(table);
    std::vector<char> attached(m.ll->names.size() + 1, 0);
    int sparse = r.chance(1, 3) ? (int)r.below(4) : 0;
    for (size_t k = 0; k < m.ll->names.size(); k++) {
        if (sparse && r.chance(sparse, 5)) continue;
        ctx.attach(Identifier(widen(m.ll->names[k])), table[k]);
        attached[k] = 1;
    }
    for (int round = big ? 1 : r.range(2, 4); round > 0; round--) {
        std::string w;
        if (big) {
            int n = r.range(230000, 560000);
            for (int d = 0; n > 0; n--) {
                if (d < 200 && r.chance(1, 6)) { std::string p = r.chance(1, 2) ? "(ab)" : "((aa)b)"; w += p; n--; } else w += r.chance(1, 2) ? 'a' : 'b';
            }
            ref.max_steps = 100000000;
        } else w = m.text_for(r, m.root());
        bool ok;
        try { ok = ref.run(w, m.root()); }
        catch (GiveUp &) { H->inc("given-up"); continue; }
        catch (Recursion &) { H->inc("given-up"); continue; }
        catch (TooBig &) { H->inc("given-up"); continue; }
        int workers = r.range(1, r.chance(1, 4) ? 6 : 3);
        H->note("", fmt("%d workers, pages of %d bytes, \"", workers, page) + show(w.substr(0, 2000)) + "\" with " + show(m.text));
        calls.valueless = r.chance(1, 3) ? r.range(1, 8) : 0;
        // what is to be called: every symbol that was completed, with the values of those inside it
        std::vector<uint64_t> want;
        struct Open { int rule; size_t start; std::vector<uint64_t> args; };
        std::vector<Open> st;
        std::map<int, int> by_id;
        for (size_t k = 0; k < ref.ids.size(); k++) by_id[ref.ids[k]] = (int)k;
        size_t markers = 0, first = w.size();
        for (auto &e : ref.ev) {
            if (e.kind == 0) { st.push_back({by_id[e.id], e.start, {}}); markers++; }
            else if (e.kind == 1) {
                markers++;
                Open o = st.back(); st.pop_back();
                if (!attached[(size_t)o.rule]) continue;
                uint64_t h = node_hash(o.rule, (long)o.start, (long)e.start, o.args);
                want.push_back(h);
                first = std::min(first, o.start);
                if (!gives_none(o.rule, w.substr(o.start, e.start - o.start)) && !st.empty()) st.back().args.push_back(h);
            }
        }
        { std::ofstream f(ipath, std::ios::binary); f << w; }
        calls.nodes.clear(); calls.due.clear(); calls.bad.clear();
        ctx.parse(ipath.c_str(), workers);
        unlink(ipath.c_str());
        H->inc("parses"); H->inc(ok ? "accepted" : "rejected"); H->inc("calls", calls.nodes.size());
        if (markers * 8 > (size_t)page) H->inc("many-pages");
        if (big) H->inc("full-size-pages", 1 + markers * 8 / (size_t)page);
        H->seen("trees", [&] { uint64_t h = mix(7, (uint64_t)workers); for (auto v : want) h = mix(h, v); return h; }());
        std::string at = std::string(H->status).substr(0, 3000);
        if (!calls.bad.empty()) { H->viol("call", calls.bad + ": " + at); return; }
        // the input begins where the first of the extents says it does
        const char *base = nullptr;
        for (auto &n : calls.nodes) if (!base || n->start < base) base = n->start;
        if (base) base -= first;
        std::vector<uint64_t> got;
        for (auto &n : calls.nodes) {
            std::vector<uint64_t> args;
            for (Node *a : n->args) args.push_back(a->hash);
            long s = (long)(n->start - base), e = (long)(n->end - base);
            n->hash = node_hash(n->rule, s, e, args);
            got.push_back(n->hash);
            if (s < 0 || (size_t)e > w.size() || w.compare((size_t)s, (size_t)(e - s), n->text) != 0) { H->viol("text", fmt("rule %d gets \"", n->rule) + show(n->text.substr(0, 200)) + fmt("\", which is not what the input has at %ld-%ld: ", s, e) + at); return; }
        }
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        if (want != got) {
            std::vector<uint64_t> a, b;
            std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a));
            std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
            H->viol(ok ? "calls" : "calls-rejected", fmt("%d calls of %d are missing, %d are others: ", (int)a.size(), (int)want.size(), (int)b.size()) + at);
            return;
        }
        if (int n = leftovers()) { H->viol("left", fmt("%d shared objects left: ", n) + at); return; }
        if (i < 3) H->sample(at.substr(0, 600));
    }
}

// ---- what the Python package is to do: grammars, inputs and syntax trees for py_context.py
static void emit(uint64_t i, Rng &r) {
    typedef unsigned char T;
    for (int tries = 0; tries < 40; tries++) {
        Made<T> m(r, i);
        if (!m.usable) continue;
        RefParser<T> ref(m);
        static const int sizes[] = {8, 16, 24, 32, 64, 256, 1024, 4096};
        std::string o = fmt("{\"t\":\"case\",\"case\":%d,\"page\":%d,\"workers\":%d,\"dice\":%u,\"grammar\":", (int)i, r.chance(1, 12) ? 0 : sizes[r.below(8)], r.range(1, 3), r.below(1u << 30)) + jstr(m.text) + ",\"names\":[";
        for (size_t k = 0; k < m.ll->names.size(); k++) o += (k ? "," : "") + jstr(m.ll->names[k]);
        o += "],\"inputs\":[";
        int n = 0;
        std::map<int, int> by_id;
        for (size_t k = 0; k < ref.ids.size(); k++) by_id[ref.ids[k]] = (int)k;
        for (int q = r.range(1, 4); q > 0; q--) {
            std::string w = m.text_for(r, m.root());
            bool ok;
            try { ok = ref.run(w, m.root()); }
            catch (GiveUp &) { continue; }
            catch (Recursion &) { continue; }
            catch (TooBig &) { continue; }
            o += (n++ ? "," : "") + std::string("{\"ok\":") + (ok ? "true" : "false") + ",\"text\":" + jstr(w) + ",\"ev\":[";
            bool f = true;
            for (auto &e : ref.ev) if (e.kind < 2) { o += fmt("%s%d,%d", f ? "" : ",", e.kind == 0 ? by_id[e.id] : -1, (int)e.start); f = false; }
            o += "]}";
        }
        if (!n) continue;
        puts((o + "]}").c_str());
        return;
    }
}

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    h.cpu_limit = 120;
    std::wcerr.setstate(std::ios_base::failbit);
    h.loop([&](uint64_t i, Rng &r) {
        if (h.mode == "emit") { emit(i, r); return; }
        try { one(i, r, i % 150 == 30); }
        catch (const vkjit::Fault &e) { vkjit::page() = vkjit::Page(); H->viol("fault", std::string(e.what()) + " while: " + std::string(H->status).substr(0, 1500)); }
        catch (const std::exception &e) { vkjit::page() = vkjit::Page(); H->viol("exception", std::string(e.what()) + " while: " + std::string(H->status).substr(0, 1500)); }
    });
    return h.finish();
}
