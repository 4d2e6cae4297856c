// P02/P03: the automata built from a regular expression, against an independent reference.
#include "refregex.hpp"
#include "NFA.hpp"
#include "DFA.hpp"
using namespace Centaurus;
using namespace vk;

static Harness *H;

template <typename T> std::basic_string<T> conv(const std::string &w) {
    std::basic_string<T> o;
    for (unsigned char c : w) o.push_back((T)c);
    return o;
}

// What a DFA does after a word, seen through run(): the index of the state is not observable, so
// the automaton is walked through its public transition lists and cross-checked with run().
template <typename T> int walk(const DFA<T> &d, int q, int c) {
    for (const auto &t : d.get_transitions(q))
        if (t.label().includes((T)c)) return t.dest();
    return -1;
}

// structure: deterministic, no empty label, every target exists, every state reachable
template <typename T> bool structure(const DFA<T> &d, const std::string &rx, const char *which) {
    int n = d.get_state_num();
    std::vector<char> reach(n, 0);
    std::vector<int> todo{0};
    if (n == 0) { H->viol(std::string(which) + ":nostate", rx); return false; }
    reach[0] = 1;
    while (!todo.empty()) {
        int q = todo.back(); todo.pop_back();
        std::bitset<256> seen;
        for (const auto &t : d.get_transitions(q)) {
            if (t.dest() < 0 || t.dest() >= n) { H->viol(std::string(which) + ":target", "/" + show(rx) + "/: a transition leads to a state that does not exist"); return false; }
            if (t.is_epsilon()) { H->viol(std::string(which) + ":epsilon", "/" + show(rx) + "/: an empty transition in a deterministic automaton"); return false; }
            for (int c = 0; c < 255; c++) if (t.label().includes((T)c)) {
                if (seen[c]) { H->viol(std::string(which) + ":nondet", fmt("/%s/: state %d has two transitions on character %d", show(rx).c_str(), q, c)); return false; }
                seen.set(c);
            }
            if (!reach[t.dest()]) { reach[t.dest()] = 1; todo.push_back(t.dest()); }
        }
    }
    for (int q = 0; q < n; q++) if (!reach[q]) {
        H->viol(std::string(which) + ":unreachable", fmt("/%s/: state %d of %d cannot be reached", show(rx).c_str(), q, n));
        return false;
    }
    H->inc("dfa-structures");
    return true;
}

// the product of the reference and the DFA over every class of characters: complete for this regex
template <typename T> bool product(const RefNfa &ref, const DFA<T> &d, const std::string &rx, const char *which, size_t limit) {
    std::vector<int> atoms = ref.atoms();
    std::map<std::pair<RefNfa::Set, int>, std::string> seen;
    std::vector<std::pair<RefNfa::Set, int>> todo;
    todo.push_back({ref.init(), 0});
    seen[todo[0]] = "";
    for (size_t i = 0; i < todo.size(); i++) {
        auto cur = todo[i];
        std::string w = seen[cur];
        bool want = ref.acc(cur.first), got = cur.second >= 0 && d.is_accept_state(cur.second);
        bool ran = d.run(conv<T>(w));
        H->inc("product-states");
        if (want != got || want != ran) {
            H->viol(std::string(which) + ":lang", fmt("/%s/ %s \"%s\" (%d states; flags say %d, run says %d)", show(rx).c_str(), want ? "does not accept" : "accepts",
                                           show(w).c_str(), d.get_state_num(), (int)got, (int)ran));
            return false;
        }
        if (todo.size() > limit) { H->inc("product-cut"); continue; }
        for (int c : atoms) {
            std::pair<RefNfa::Set, int> nx(ref.step(cur.first, c), cur.second < 0 ? -1 : walk(d, cur.second, c));
            if (nx.first.empty() && nx.second < 0) continue;
            if (seen.emplace(nx, w + (char)c).second) todo.push_back(nx);
        }
    }
    // a character of the class is as good as its representative
    return true;
}

template <typename T> void one(uint64_t i, Rng &r, const char *kind, bool structural) {
    RxGen g(r, r.chance(1, 8) ? 26 : 12);
    if (r.chance(1, 4)) g.alphabet = "ab";
    Rx x = g.regex(r.range(0, 3), 4);
    std::string rx = rx_print(x);
    RefNfa ref(x);
    std::string K = std::string(kind);
    H->note("", std::string(kind) + " /" + show(rx) + "/");
    bool slash = r.chance(1, 2);
    Stream st(widen(rx + (slash ? "/tail" : "")));
    NFA<T> nfa(st);
    if (slash && st.get() != L't') { H->viol("nfa:rest", "/" + show(rx) + "/ was not read up to its end"); return; }
    DFA<T> raw(nfa, false), min(nfa, true), dflt(nfa);
    H->inc("regexes");
    H->seen("regexes", hash_str(rx) ^ sizeof(T));
    H->counters["max-dfa-states"] = std::max<uint64_t>(H->counters["max-dfa-states"], raw.get_state_num());
    if (structural) {
        if (!structure(raw, rx, "dfa") || !structure(min, rx, "mindfa")) return;
        if (min.get_state_num() > raw.get_state_num()) { H->viol("mindfa:grew", "/" + show(rx) + "/: minimization added states"); return; }
        if (min.get_state_num() < raw.get_state_num()) H->inc("merged");
        // what is equal is fused: states that differ neither in acceptance nor in where their characters lead
        {
            std::set<std::string> kinds;
            for (int k = 0; k < raw.get_state_num(); k++) {
                std::map<int, std::string> to;
                for (const auto &t : raw.get_transitions(k)) for (int c = 0; c < 256; c++) if (t.label().includes((T)c)) to[c] = fmt(">%d", t.dest());
                std::string sig = raw.is_accept_state(k) ? "A" : "-";
                for (auto &p : to) sig += fmt("%d", p.first) + p.second;
                kinds.insert(sig);
            }
            if (min.get_state_num() > (int)kinds.size()) {
                H->viol("mindfa:unfused", fmt("/%s/: %d states are left of %d, which are of %d kinds", show(rx).c_str(), min.get_state_num(), raw.get_state_num(), (int)kinds.size()));
                return;
            }
        }
        // minimizing changes no verdict: product of the two automata
        std::vector<int> atoms = ref.atoms();
        std::map<std::pair<int, int>, std::string> seen;
        std::vector<std::pair<int, int>> todo{{0, 0}};
        seen[{0, 0}] = "";
        for (size_t k = 0; k < todo.size(); k++) {
            auto p = todo[k];
            std::string w = seen[p];
            bool a = p.first >= 0 && raw.is_accept_state(p.first), b = p.second >= 0 && min.is_accept_state(p.second);
            H->inc("min-product-states");
            if (a != b || raw.run(conv<T>(w)) != min.run(conv<T>(w))) {
                H->viol("mindfa:differs", "/" + show(rx) + "/: minimization changes the verdict on \"" + show(w) + "\"");
                return;
            }
            for (int c : atoms) {
                std::pair<int, int> q(p.first < 0 ? -1 : walk(raw, p.first, c), p.second < 0 ? -1 : walk(min, p.second, c));
                if (q.first < 0 && q.second < 0) continue;
                if (seen.emplace(q, w + (char)c).second) todo.push_back(q);
            }
        }
        if (dflt.get_state_num() != min.get_state_num()) { H->viol("mindfa:default", "/" + show(rx) + "/"); return; }
        // copies are the same automata
        DFA<T> copy(min);
        NFA<T> ncopy(nfa);
        for (int k = 0; k < 3; k++) {
            std::basic_string<T> w = conv<T>(ref.sample(r, 12));
            if (copy.run(w) != min.run(w) || ncopy.run(w) != nfa.run(w)) { H->viol("copy", "/" + show(rx) + "/: a copy behaves differently"); return; }
        }
        if (i < 3) H->sample("/" + show(rx) + "/: " + fmt("%d NFA, %d DFA, %d minimized states", nfa.get_state_num(), raw.get_state_num(), min.get_state_num()));
        return;
    }
    size_t limit = H->tier ? 3000 : 600;
    if (!product(ref, raw, rx, "dfa", limit) || !product(ref, min, rx, "mindfa", limit)) return;
    // strings: samples, mutants, short ones, and the characters no class can contain
    for (int k = 0; k < 24; k++) {
        std::string w;
        if (k < 10) w = ref.sample(r, 14);
        else if (k < 18) w = mutate(r, ref.sample(r, 10), g.alphabet);
        else for (int n = r.range(0, 6); n > 0; n--) w += g.alphabet[r.below((uint32_t)g.alphabet.size())];
        if (sizeof(T) > 1) w.erase(std::remove(w.begin(), w.end(), '\xff'), w.end());
        bool want = ref.match(w);
        H->inc(want ? "accepted" : "rejected");
        std::basic_string<T> tw = conv<T>(w);
        bool a = nfa.run(tw), b = raw.run(tw), c = min.run(tw);
        if (a != want || b != want || c != want) {
            H->viol(K + ":" + (a != want ? "nfa" : b != want ? "dfa" : "mindfa") + ":run", fmt("/%s/ on \"%s\": expected %d, NFA %d, DFA %d, minimized DFA %d", show(rx).c_str(), show(w).c_str(),
                                           (int)want, (int)a, (int)b, (int)c));
            return;
        }
        if (i < 4 && k == 1) H->sample("/" + show(rx) + "/ " + (want ? "accepts" : "rejects") + " \"" + show(w) + "\"");
    }
}

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    bool structural = h.mode == "structure";
    h.loop([&](uint64_t i, Rng &r) {
        switch (r.below(8)) {
        case 0: case 1: case 2: one<unsigned char>(i, r, "uchar", structural); break;
        case 3: one<wchar_t>(i, r, "wide", structural); break;
        default: one<char>(i, r, "char", structural); break;
        }
    });
    return h.finish();
}
