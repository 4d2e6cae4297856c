// An independent model of Centaurus' regular expressions: generator, printer, reference automaton.
// Concatenation binds weaker than '|' ("ab|cd" is a(b|c)d), as NFA.hpp's parser defines it.
#pragma once
#include "common.hpp"
#include <bitset>
#include <memory>

namespace vk {

typedef std::bitset<256> CSet;

struct Rx {
    enum Kind { SEQ, ALT, STAR, PLUS, OPT, CLS, EPS } kind = EPS;
    std::vector<Rx> sub;
    CSet cs;
    std::string text;      // how it is written (atoms)
    int form = 0;          // spelling of the quantifier
};

struct RxGen {
    Rng &r;
    int budget;
    bool long_ok = true;
    std::string alphabet = "abcd";
    explicit RxGen(Rng &rng, int b) : r(rng), budget(b) {}
    static std::string esc(int c) {
        if (strchr("[]+*{}?\\|().", c)) return std::string("\\") + (char)c;
        return std::string(1, (char)c);
    }
    static void emit_cls(std::string &t, int c) {
        switch (c) {
        case '\\': t += "\\\\"; break;
        case '-': t += "\\-"; break;
        case '[': t += "\\["; break;
        case ']': t += "\\]"; break;
        case '\t': t += "\\t"; break;
        case '\r': t += "\\r"; break;
        case '\n': t += "\\n"; break;
        default: t += (char)c;
        }
    }
    int ch() {
        if (r.chance(9, 10)) return (unsigned char)alphabet[r.below((uint32_t)alphabet.size())];
        static const char odd[] = "\"'-, ^$[]+*{}?\\|().=<>_0\xe9\xc3\xfe\x01";
        return (unsigned char)odd[r.below(sizeof odd - 1)];
    }
    Rx atom(int depth) {
        Rx x;
        budget--;
        int k = (int)r.below(20);
        if (k < 11 || budget <= 0) {
            int c = ch();
            x.kind = Rx::CLS; x.cs.set(c); x.text = esc(c);
        } else if (k < 15) {
            x.kind = Rx::CLS;
            bool inv = r.chance(1, 3);
            x.text = "[";
            if (inv) x.text += "^";
            int n = r.range(1, 4);
            for (int i = 0; i < n; i++) {
                int a = ch(), b = ch();
                if (a > b) std::swap(a, b);
                if (i == 0 && a == '^') { a = 'b'; b = std::max(b, (int)'b'); }
                emit_cls(x.text, a);
                x.cs.set(a);
                if (r.chance(1, 2)) { x.text += "-"; emit_cls(x.text, b); for (int c = a; c <= b; c++) x.cs.set(c); }
            }
            if (r.chance(1, 12)) { x.text += "/"; x.cs.set('/'); }
            x.text += "]";
            if (inv) { x.cs.flip(); x.cs.reset(0); x.cs.reset(255); }
        } else if (k < 16) {
            x.kind = Rx::CLS; x.text = "."; x.cs.set(); x.cs.reset(0); x.cs.reset(255);
        } else if (depth > 0) {
            x = regex(depth - 1, 3);
            x.text = "(";
        } else {
            int c = ch();
            x.kind = Rx::CLS; x.cs.set(c); x.text = esc(c);
        }
        return x;
    }
    Rx unit(int depth) {
        Rx a = atom(depth);
        int q = (int)r.below(10);
        if (q >= 4) return a;
        Rx x;
        x.kind = q == 0 ? Rx::STAR : q == 1 ? Rx::PLUS : q == 2 ? Rx::OPT : r.chance(1, 2) ? Rx::STAR : Rx::PLUS;
        x.form = (int)r.below(x.kind == Rx::OPT ? 3 : 4);
        if (!long_ok && x.kind != Rx::OPT && x.form == 1) x.form = 0;
        x.sub.push_back(a);
        return x;
    }
    Rx regex(int depth, int maxlen) {
        Rx s;
        s.kind = Rx::SEQ;
        int n = r.chance(1, 25) ? 0 : r.range(1, maxlen);
        for (int i = 0; i < n; i++) {
            if (r.chance(1, 4)) {
                Rx alt; alt.kind = Rx::ALT;
                int m = r.range(2, 3);
                for (int j = 0; j < m; j++) alt.sub.push_back(unit(depth));
                s.sub.push_back(alt);
            } else s.sub.push_back(unit(depth));
        }
        return s;
    }
};

inline std::string rx_print(const Rx &x) {
    std::string o;
    switch (x.kind) {
    case Rx::EPS: return "";
    case Rx::CLS: return x.text;
    case Rx::SEQ:
        for (auto &s : x.sub) o += rx_print(s);
        return x.text == "(" ? "(" + o + ")" : o;
    case Rx::ALT:
        for (size_t i = 0; i < x.sub.size(); i++) o += (i ? "|" : "") + rx_print(x.sub[i]);
        return o;
    case Rx::STAR: { static const char *f[] = {"*", "*+", "*?", "**"}; return rx_print(x.sub[0]) + f[x.form & 3]; }
    case Rx::PLUS: { static const char *f[] = {"+", "++", "+?", "+*"}; return rx_print(x.sub[0]) + f[x.form & 3]; }
    case Rx::OPT: { static const char *f[] = {"?", "??", "?*", "?"}; return rx_print(x.sub[0]) + f[x.form & 3]; }
    }
    return o;
}

// Thompson automaton, simulated on state sets
struct RefNfa {
    struct St { std::vector<int> eps; std::vector<std::pair<CSet, int>> out; };
    std::vector<St> st;
    int start, accept;
    int fresh() { st.emplace_back(); return (int)st.size() - 1; }
    void add(const Rx &x, int from, int to) {
        switch (x.kind) {
        case Rx::EPS: st[from].eps.push_back(to); break;
        case Rx::CLS: st[from].out.emplace_back(x.cs, to); break;
        case Rx::SEQ: {
            int cur = from;
            for (auto &s : x.sub) { int n = fresh(); add(s, cur, n); cur = n; }
            st[cur].eps.push_back(to);
            break;
        }
        case Rx::ALT: for (auto &s : x.sub) { int a = fresh(), b = fresh(); st[from].eps.push_back(a); add(s, a, b); st[b].eps.push_back(to); } break;
        case Rx::STAR: case Rx::PLUS: case Rx::OPT: {
            int a = fresh(), b = fresh();
            st[from].eps.push_back(a);
            add(x.sub[0], a, b);
            if (x.kind != Rx::OPT) st[b].eps.push_back(a);
            if (x.kind != Rx::PLUS) st[a].eps.push_back(to);
            st[b].eps.push_back(to);
            break;
        }
        }
    }
    explicit RefNfa(const Rx &x) { start = fresh(); accept = fresh(); add(x, start, accept); }
    typedef std::vector<int> Set;    // sorted, closed
    Set close(std::vector<int> work) const {
        std::vector<char> in(st.size(), 0);
        Set s;
        for (size_t i = 0; i < work.size(); i++) {
            int q = work[i];
            if (in[q]) continue;
            in[q] = 1; s.push_back(q);
            for (int e : st[q].eps) if (!in[e]) work.push_back(e);
        }
        std::sort(s.begin(), s.end());
        return s;
    }
    Set init() const { return close({start}); }
    Set step(const Set &s, int c) const {
        std::vector<int> w;
        for (int q : s) for (auto &p : st[q].out) if (p.first[c]) w.push_back(p.second);
        return close(w);
    }
    bool acc(const Set &s) const { return std::binary_search(s.begin(), s.end(), accept); }
    bool match(const std::string &w) const {
        Set s = init();
        for (unsigned char c : w) { s = step(s, c); if (s.empty()) return false; }
        return acc(s);
    }
    // longest prefix of w[pos..] in the language, -1: none
    long longest(const std::string &w, size_t pos) const {
        Set s = init();
        long best = acc(s) ? 0 : -1;
        for (size_t i = pos; i < w.size(); i++) {
            s = step(s, (unsigned char)w[i]);
            if (s.empty()) break;
            if (acc(s)) best = (long)(i - pos + 1);
        }
        return best;
    }
    // classes of characters no label tells apart: one representative each (255 left out)
    std::vector<int> atoms() const {
        std::map<std::string, int> rep;
        for (int c = 0; c < 255; c++) {
            std::string sig;
            for (auto &s : st) for (auto &p : s.out) sig += p.first[c] ? '1' : '0';
            rep.emplace(sig, c);
        }
        std::vector<int> v;
        for (auto &p : rep) v.push_back(p.second);
        std::sort(v.begin(), v.end());
        return v;
    }
    // a random walk that tends to end in an accepting state
    std::string sample(Rng &r, int maxlen) const {
        std::string w, best;
        bool have = false;
        Set s = init();
        if (acc(s)) have = true;
        while ((int)w.size() < maxlen) {
            std::vector<const CSet *> opts;
            for (int q : s) for (auto &p : st[q].out) if (p.first.any()) opts.push_back(&p.first);
            if (opts.empty()) break;
            const CSet &cs = *r.pick(opts);
            std::vector<int> cs2;
            for (int c = 0; c < 255; c++) if (cs[c]) cs2.push_back(c);
            if (cs2.empty()) break;
            int c = cs2.size() > 40 && r.chance(3, 4) ? 'a' + (int)r.below(4) : r.pick(cs2);
            if (!cs[c]) c = r.pick(cs2);
            w += (char)c;
            s = step(s, c);
            if (acc(s)) { best = w; have = true; if (r.chance(1, 6)) return w; }
        }
        return have ? best : w;
    }
};

inline std::string mutate(Rng &r, std::string w, const std::string &alphabet) {
    int n = r.range(1, 2);
    for (int i = 0; i < n; i++) {
        char c = r.chance(1, 8) ? (char)r.below(256) : alphabet[r.below((uint32_t)alphabet.size())];
        size_t p = r.below((uint32_t)w.size() + 1);
        switch (r.below(4)) {
        case 0: w.insert(p, 1, c); break;
        case 1: if (!w.empty()) w.erase(std::min(p, w.size() - 1), 1); break;
        case 2: if (!w.empty()) w[std::min(p, w.size() - 1)] = c; break;
        default: w += w.substr(0, p); break;
        }
    }
    return w;
}

} // namespace vk
