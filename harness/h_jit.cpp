// P19-P22: generated code, run by the stand-in for asmjit, against references that work on the
// structure of grammars and on independent automata.
#include "refparse.hpp"
#include "CodeGenEM64T.hpp"
using namespace Centaurus;
using namespace vk;

template <typename T> std::basic_string<T> conv(const std::string &w) {
    std::basic_string<T> o;
    for (unsigned char c : w) o.push_back((T)c);
    return o;
}
// text, its NUL and the zeros behind it, at any alignment; what lies before and behind is poisoned
struct Text {
    std::vector<char> buf;
    const char *p;
    size_t n;
    Text(const std::string &w, Rng &r) : n(w.size()) {
        size_t shift = r.below(16);
        buf.assign(shift + n + 1 + 16, '\0');
        memcpy(buf.data() + shift, w.data(), n);
        p = buf.data() + shift;
        auto &l = vkjit::limits();
        l = vkjit::Limits();
        l.active = true; l.in = (uintptr_t)p; l.in_end = (uintptr_t)p + n; l.steps = 20000000;
    }
    ~Text() { vkjit::limits() = vkjit::Limits(); }
    std::string off(const void *q) const { return q ? fmt("%ld", (long)((const char *)q - p)) : "none"; }
};
static bool has_nul(const Rx &x) {
    if (x.kind == Rx::CLS && x.cs[0]) return true;
    for (auto &s : x.sub) if (has_nul(s)) return true;
    return false;
}
// ---- P19
template <typename T> void routines(uint64_t i, Rng &r) {
    {
        RxGen g(r, r.chance(1, 8) ? 24 : 12);
        if (r.chance(1, 4)) g.alphabet = "ab";
        Rx x;
        do { g.budget = 12; x = g.regex(r.range(0, 3), 4); } while (has_nul(x));
        if (r.chance(1, 3)) {          // a run over many ranges of characters
            Rx c; c.kind = Rx::CLS; c.text = r.chance(1, 4) ? "[^" : "[";
            int n = r.range(1, 14), at = '!';
            for (int k = 0; k < n && at < 0xf0; k++) {
                at += r.range(1, 7);
                if (strchr("\\-[]^", at)) at = at < '^' ? '`' : at + 1;
                int e = at + (r.chance(1, 2) ? r.range(1, 4) : 0);
                if (at < 'a' && e > 'Z') e = at;
                RxGen::emit_cls(c.text, at); c.cs.set(at);
                if (e > at) { c.text += "-"; RxGen::emit_cls(c.text, e); for (int q = at; q <= e; q++) c.cs.set(q); }
                at = e + 1;
            }
            c.text += "]";
            if (c.text[1] == '^') { c.cs.flip(); c.cs.reset(0); c.cs.reset(255); }
            Rx s; s.kind = r.chance(1, 2) ? Rx::STAR : Rx::PLUS; s.form = r.chance(2, 3) ? 1 : 0; s.sub.push_back(c);
            Rx t; t.kind = Rx::SEQ; t.sub.push_back(s);
            if (r.chance(1, 2)) t.sub.push_back(g.atom(0));
            if (r.chance(1, 2)) t.sub.insert(t.sub.begin(), g.atom(0));
            for (auto &q : t.sub) if (q.text == "(") q = c;
            if (!has_nul(t)) x = t;
        }
        std::string rx = rx_print(x);
        RefNfa ref(x);
        H->note("", "/" + show(rx) + "/");
        Stream st(widen(rx));
        NFA<T> nfa(st);
        DFA<T> dfa(nfa, !r.chance(1, 3));
        DFARoutineEM64T<T> fn(dfa);
        H->inc("regexes");
        H->seen("programs", hash_str(rx) ^ sizeof(T));
        for (int k = 0; k < 10; k++) {
            std::string w = ref.sample(r, 14);
            if (k % 3 == 1) w = stretch(r, w);
            if (k % 3 == 2) w = mutate(r, w, g.alphabet);
            if (k >= 6) w += ref.sample(r, 8);
            w.erase(std::remove(w.begin(), w.end(), '\0'), w.end());
            long want = ref.longest(w, 0);
            H->note("", "/" + show(rx) + "/ on \"" + show(w) + "\"");
            Text t(w, r);
            const void *got = fn(t.p);
            H->inc("terminals");
            H->inc(want < 0 ? "rejected" : want < (long)w.size() ? "prefixes" : "whole");
            if (want >= 16) H->inc("long-runs");
            if (got != (want < 0 ? nullptr : t.p + want)) {
                H->viol("dfa", fmt("/%s/ on \"%s\": ends at %s, expected %ld (-1: no match)", show(rx).c_str(), show(w).c_str(), t.off(got).c_str(), want));
                return;
            }
        }
        if (i < 3) H->sample("/" + show(rx) + "/");
    }
    {
        std::string lit;
        for (int n = r.chance(1, 2) ? r.range(1, 9) : r.range(8, 60); n > 0; n--) lit += r.chance(1, 12) ? (char)r.range(1, 255) : "abcdefg"[r.below(7)];
        H->note("", "'" + show(lit) + "'");
        MatchRoutineEM64T<T> fn(conv<T>(lit));
        H->seen("programs", hash_str("'" + lit) ^ sizeof(T));
        for (int k = 0; k < 8; k++) {
            std::string w = lit;
            if (k == 1 || k == 6) w[r.below((uint32_t)w.size())] ^= (char)(1 << r.below(8));
            if (k == 2) w.resize(r.below((uint32_t)w.size() + 1));
            if (k == 3) w += lit.substr(0, r.below((uint32_t)lit.size()));
            if (k == 4) w += std::string(r.below(20), 'a');
            if (k == 5) w = mutate(r, w, "abcdefg");
            if (k == 7) w.back() ^= 1;
            w.erase(std::remove(w.begin(), w.end(), '\0'), w.end());
            bool want = w.compare(0, lit.size(), lit) == 0;
            H->note("", "'" + show(lit) + "' on \"" + show(w) + "\"");
            Text t(w, r);
            const void *got = fn(t.p);
            H->inc("literals");
            if (want) H->inc("literals-matched");
            if (got != (want ? t.p + lit.size() : nullptr)) {
                H->viol("literal", fmt("'%s' on \"%s\": ends at %s, expected %s", show(lit).c_str(), show(w).c_str(), t.off(got).c_str(), want ? "a match" : "none"));
                return;
            }
        }
    }
    {
        SkipRoutineEM64T<T> fn(CharClass<T>({' ', '\t', '\r', '\n'}));
        for (int k = 0; k < 3; k++) {
            std::string w;
            for (int n = r.chance(1, 3) ? r.range(0, 60) : r.range(0, 5); n > 0; n--) w += " \t\r\n"[r.below(4)];
            size_t want = w.size();
            if (r.chance(3, 4)) { char c; do c = (char)r.range(1, 255); while (strchr(" \t\r\n", c)); if (r.chance(1, 2)) c = "\v\f\x85\xa0x!\x1f\x08"[r.below(8)]; w += c; }
            if (r.chance(1, 2)) w += " x";
            else if (want == w.size()) {}
            want = w.find_first_not_of(" \t\r\n");
            if (want == std::string::npos) want = w.size();
            H->note("", "blanks on \"" + show(w) + "\"");
            Text t(w, r);
            const void *got = fn(t.p);
            H->inc("blanks");
            if (got != t.p + want) { H->viol("blanks", fmt("\"%s\": ends at %s, expected %d", show(w).c_str(), t.off(got).c_str(), (int)want)); return; }
        }
    }
}

// ---- P20
template <typename T> void lookahead(uint64_t i, Rng &r) {
    Made<T> m(r, i);
    if (!m.usable) return;
    H->inc("grammars");
    H->seen("programs", hash_str(m.text) ^ sizeof(T));
    CompositeATN<T> catn(m.gr);
    RefLL<T> &ll = *m.ll;
    for (size_t node = 0; node < ll.nodes.size(); node++) {
        if (ll.nodes[node].next.size() < 2) continue;
        std::vector<int> tg = ll.tags((int)node);
        ATNPath path(Identifier(widen(ll.names[(size_t)ll.nodes[node].rule])), ll.nodes[node].local);
        LookaheadDFA<T> d(catn, catn.convert_atn_path(path));
        LDFARoutineEM64T<T> fn(d);
        H->inc("decisions");
        auto start = ll.decision((int)node);
        for (int k = 0; k < 8; k++) {
            std::string w;
            try {
                auto s = start;
                for (int n = r.range(1, 12); n > 0; n--) {
                    auto at = ll.atoms(s);
                    if (at.empty()) break;
                    int c = r.pick(at);
                    for (int t = 0; t < 4 && ll.colors(ll.read(s, c, tg)).size() < 2; t++) c = r.pick(at);
                    if (!c) break;
                    w += (char)c;
                    auto nx = ll.read(s, c, tg);
                    if (ll.colors(nx).size() < 2) break;
                    s = ll.close(nx);
                }
            } catch (TooBig &) {}
            if (k % 3 == 2 && !w.empty()) w[r.below((uint32_t)w.size())] = (char)r.range(1, 255);
            if (r.chance(1, 3)) w += (char)r.range(1, 255);
            w.erase(std::remove(w.begin(), w.end(), '\0'), w.end());
            // the automaton itself, step by step
            int q = 0, want = 0;
            std::string z = w + std::string(3, '\0');
            size_t read = 0;
            for (; read < z.size() && q >= 0; read++) {
                int to = 1 << 30;
                for (const auto &t : d.get_transitions(q)) if (t.label().includes((T)z[read])) { to = t.dest(); break; }
                if (to == 1 << 30) break;
                q = to;
            }
            if (q < 0) want = -q;
            if (q >= 0 && read == z.size()) { H->inc("undecided"); continue; }
            H->note("", fmt("%s.%d on \"%s\" in %s", ll.names[(size_t)ll.nodes[node].rule].c_str(), ll.nodes[node].local, show(w).c_str(), show(m.text).c_str()));
            Text t(w, r);
            vkjit::limits().in_end += 2;
            int got = fn(t.p);
            H->inc(want ? "decided" : "none");
            if (read > 1) H->inc("decided-late");
            if (got != want) { H->viol("way", fmt("way %d instead of %d (0: none): %s", got, want, H->status)); return; }
        }
    }
    if (i < 3) H->sample(show(m.text));
}

// ---- P21, P22: pages of markers
struct Pages : public BaseListener {
    size_t size;
    Rng &r;
    std::vector<std::unique_ptr<uint64_t[]>> pages;
    Pages(size_t s, Rng &rr) : size(s), r(rr) {}
    virtual void *feed_callback() override {
        if (pages.size() > 20000) throw vkjit::Fault("asks for pages without end");
        pages.emplace_back(new uint64_t[size / 8]);
        // a page of shared memory holds what was there before
        for (size_t i = 0; i < std::min<size_t>(size / 8, 4096); i++) pages.back()[i] = r.chance(1, 3) ? 0 : r.next();
        auto &o = vkjit::limits().out;
        o.clear();
        o.emplace_back((uintptr_t)pages.back().get(), (uintptr_t)pages.back().get() + size);
        return pages.back().get();
    }
};
static std::string show_marker(uint64_t v) { return fmt("%c%d@%llu", v >> 63 ? '+' : '-', (int)(v >> 48 & 0x7fff), (unsigned long long)(v & 0xffffffffffffull)); }

template <typename T> void parses(uint64_t i, Rng &r) {
    Made<T> m(r, i);
    if (!m.usable) return;
    H->inc("grammars");
    H->seen("programs", hash_str(m.text) ^ sizeof(T));
    RefParser<T> ref(m);
    static const int sizes[] = {8, 16, 24, 32, 64, 128, 1024, 4096};
    vkjit::page().size = sizes[r.below(8)]; vkjit::page().hits = 0;
    ParserEM64T<T> parser;
    parser.init(m.gr);
    size_t size = vkjit::page().hits ? (size_t)vkjit::page().size : 8388608;
    if (size > 4096) H->inc("full-size-pages");
    vkjit::page() = vkjit::Page();
    std::vector<std::string> before;
    for (int k = 0; k < 10; k++) {
        std::string w = m.text_for(r, m.root());
        bool ok;
        try { ok = ref.run(w, m.root()); }
        catch (GiveUp &) { H->inc("given-up"); continue; }
        catch (Recursion &) { H->inc("given-up"); continue; }
        catch (TooBig &) { H->inc("given-up"); continue; }
        std::vector<uint64_t> want;
        for (auto &e : ref.ev) if (e.kind < 2) want.push_back((e.kind == 0 ? 1ull << 63 : 0) | (uint64_t)e.id << 48 | e.start);
        H->note("", "\"" + show(w) + "\" with " + show(m.text));
        Text t(w, r);
        vkjit::limits().in_end += 2;           // a decision may look behind the NUL
        Pages pg(size, r);
        const void *end = parser(&pg, t.p);
        H->inc("parses"); H->inc(ok ? "accepted" : "rejected"); H->inc("markers", want.size()); H->inc("pages", pg.pages.size());
        if (ok && ref.pos == w.size()) H->inc("whole-texts");
        if (want.size() * 8 % size == 0) H->inc("full-last-pages");
        H->seen("trees", [&] { uint64_t h = 7; for (auto v : want) h = mix(h, v); return h; }());
        std::string at = fmt("%s (page of %d bytes)", H->status + 0, (int)size);
        if (end != (ok ? t.p + ref.pos : nullptr)) { H->viol("end", fmt("ends at %s, expected %s: ", t.off(end).c_str(), ok ? fmt("%d", (int)ref.pos).c_str() : "none") + at); return; }
        // the reference's markers, then zeros up to the end of the last page
        size_t per = size / 8, need = want.size() / per + 1;
        if (pg.pages.size() != need) { H->viol("pages", fmt("%d pages instead of %d: ", (int)pg.pages.size(), (int)need) + at); return; }
        for (size_t j = 0; j < need * per; j++) {
            uint64_t got = pg.pages[j / per][j % per], exp = j < want.size() ? want[j] : 0;
            if (got != exp) { H->viol(j < want.size() ? "marker" : ok ? "fill" : "fill-rejected", fmt("marker %d is %s instead of %s: ", (int)j, show_marker(got).c_str(), show_marker(exp).c_str()) + at); return; }
        }
        if (i < 2 && k == 0) H->sample(at.substr(0, 600));
    }
}

template <typename T> struct Chase : public BaseListener {
    const Text &t;
    const std::vector<Event> &ev;
    size_t next = 0;
    std::string bad;
    Chase(const Text &tt, const std::vector<Event> &e) : t(tt), ev(e) {}
    std::string name(const Event &e) { return fmt("%s %d at %d-%d", e.kind == 2 ? "terminal" : "rule", e.id, (int)e.start, (int)e.end); }
    virtual void terminal_callback(int id, const void *start, const void *end) override {
        H->inc("events");
        if (next < ev.size() && ev[next].kind == 2 && ev[next].id == id && t.p + ev[next].start == start && t.p + ev[next].end == end) { next++; return; }
        throw vkjit::Fault(fmt("tells of terminal %d at %s-%s instead of ", id, t.off(start).c_str(), t.off(end).c_str()) + (next < ev.size() ? name(ev[next]) : "nothing"));
    }
    virtual const void *nonterminal_callback(int id, const void *input) override {
        H->inc("events");
        if (next < ev.size() && ev[next].kind == 3 && ev[next].id == id && t.p + ev[next].start == input) return t.p + ev[next++].end;
        throw vkjit::Fault(fmt("asks for rule %d at %s instead of ", id, t.off(input).c_str()) + (next < ev.size() ? name(ev[next]) : "nothing"));
    }
};
template <typename T> void chases(uint64_t i, Rng &r) {
    Made<T> m(r, i);
    if (!m.usable) return;
    H->inc("grammars");
    H->seen("programs", hash_str(m.text) ^ sizeof(T));
    RefParser<T> ref(m);
    ChaserEM64T<T> chaser;
    chaser.init(m.gr);
    std::unique_ptr<DryParserEM64T<T>> dry(new DryParserEM64T<T>(m.gr));
    for (int k = 0; k < 8; k++) {
        int rule = r.chance(1, 2) ? m.root() : (int)r.below((uint32_t)m.ll->names.size());
        std::string w = m.text_for(r, rule);
        bool ok;
        try { ok = ref.run(w, rule); }
        catch (GiveUp &) { H->inc("given-up"); continue; }
        catch (Recursion &) { H->inc("given-up"); continue; }
        catch (TooBig &) { H->inc("given-up"); continue; }
        // the events of this rule alone: those of the rules it invokes are theirs
        std::vector<Event> ev;
        int depth = 0;
        for (auto &e : ref.ev) {
            if (e.kind == 0) depth++;
            else if (e.kind == 1) depth--;
            else if (depth == 1) ev.push_back(e);
        }
        // an invocation that fails leaves nothing to resume at
        bool inner = !ok && depth > 1;
        H->note("", fmt("rule %s, \"", m.ll->names[(size_t)rule].c_str()) + show(w) + "\" with " + show(m.text));
        Text t(w, r);
        vkjit::limits().in_end += 2;
        if (!inner) {
            Chase<T> c(t, ev);
            Identifier id(widen(m.ll->names[(size_t)rule]));
            ChaserFunc f = r.chance(1, 2) ? chaser[id] : chaser[m.gr.get_machine_id(id)];
            const void *end = f(&c, t.p);
            H->inc("chases"); H->inc(ok ? "accepted" : "rejected");
            H->seen("texts", hash_str(w) ^ hash_str(m.text));
            if (end != (ok ? t.p + ref.pos : nullptr)) { H->viol("end", fmt("the chaser ends at %s, expected %s: %s", t.off(end).c_str(), ok ? fmt("%d", (int)ref.pos).c_str() : "none", H->status)); return; }
            if (c.next != ev.size()) { H->viol("events", fmt("%d events of %d: %s", (int)c.next, (int)ev.size(), H->status)); return; }
        }
        if (rule == m.root()) {
            BaseListener none;
            const void *end = (*dry)(&none, t.p);
            H->inc("dry-parses");
            if (end != (ok ? t.p + ref.pos : nullptr)) { H->viol("dry", fmt("the dry parser ends at %s, expected %s: %s", t.off(end).c_str(), ok ? fmt("%d", (int)ref.pos).c_str() : "none", H->status)); return; }
        }
        if (i < 2 && k == 0) H->sample(std::string(H->status).substr(0, 600));
    }
}

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    std::wcerr.setstate(std::ios_base::failbit);
    h.loop([&](uint64_t i, Rng &r) {
        bool u = r.chance(1, 4);
#define RUN(f) (u ? f<unsigned char>(i, r) : f<char>(i, r))
        try {
            if (h.mode == "routines") RUN(routines);
            else if (h.mode == "lookahead") RUN(lookahead);
            else if (h.mode == "parse") RUN(parses);
            else if (h.mode == "chase") RUN(chases);
            else abort();
        } catch (const vkjit::Fault &e) {
            vkjit::limits() = vkjit::Limits(); vkjit::page() = vkjit::Page();
            H->viol("fault", std::string(e.what()) + " while: " + std::string(H->status).substr(0, 1500));
        } catch (const std::exception &e) {
            vkjit::limits() = vkjit::Limits(); vkjit::page() = vkjit::Page();
            H->viol("exception", std::string(e.what()) + " while: " + std::string(H->status).substr(0, 1500));
        }
    });
    h.inc("instructions", vkjit::stats().instructions); h.inc("native-calls", vkjit::stats().calls);
    h.inc("vector-instructions", vkjit::stats().vectors); h.inc("generated-programs", vkjit::stats().programs);
    return h.finish();
}
