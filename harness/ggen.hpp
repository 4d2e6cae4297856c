// An independent model of grammars: generator, printers with free layout, reference automata.
#pragma once
#include "refregex.hpp"
#include <sstream>

namespace vk {

struct GAlt;
struct GAtom {
    enum Kind { LIT, RX, REF, GROUP } kind = LIT;
    std::string lit;
    char quote = '\'';
    Rx rx;
    std::string rxtext;
    int ref = 0;
    std::vector<GAlt> alts;
    char q = 0;            // 0 * + ?
    int localid = -1;
};
struct GAlt { std::vector<GAtom> seq; bool prio = false; };
struct GRule { std::string name; std::vector<GAlt> alts; };
struct GGram {
    std::vector<GRule> rules;
    std::string gname;
};

// ---- arbitrary well-formed grammars
struct GGen {
    Rng &r;
    int nrules = 3, budget = 20;
    bool prio = false, localids = false, odd = false, empty_lit = false;
    std::string alphabet = "abcd";
    explicit GGen(Rng &rng) : r(rng) {}
    std::string literal() {
        std::string s;
        int n = empty_lit && r.chance(1, 12) ? 0 : r.range(1, 3);
        static const char oddc[] = "\"'/*;|(){}\\ \n\t\r.[]+?:>#_-\xe9\xc3\x01\xfd";
        for (int i = 0; i < n; i++) s += odd && r.chance(1, 6) ? oddc[r.below(sizeof oddc - 1)] : alphabet[r.below((uint32_t)alphabet.size())];
        for (size_t i = 0; i < s.size(); i++)      // a CR LF pair is one newline
            if (s[i] == '\r') s[i] = 'r';
        return s;
    }
    GAtom atom(int depth) {
        GAtom a;
        budget--;
        int k = (int)r.below(20);
        if (k < 8 || budget < 0) { a.kind = GAtom::LIT; a.lit = literal(); a.quote = r.chance(1, 2) ? '\'' : '"';
            if (a.lit.find(a.quote) != std::string::npos) a.quote = a.quote == '"' ? '\'' : '"';
            if (a.lit.find(a.quote) != std::string::npos) a.lit = "q"; }
        else if (k < 11) { a.kind = GAtom::RX; RxGen g(r, 5); g.alphabet = alphabet; a.rx = g.regex(1, 3); a.rxtext = rx_print(a.rx);
            if (a.rxtext.empty() || a.rxtext[0] == '/' || a.rxtext[0] == '*') { a.kind = GAtom::LIT; a.lit = "z"; } }
        else if (k < 16 || depth <= 0) { a.kind = GAtom::REF; a.ref = (int)r.below(nrules); }
        else { a.kind = GAtom::GROUP; a.alts = alts(depth - 1); }
        if (a.kind != GAtom::GROUP && localids && r.chance(1, 4)) a.localid = (int)r.below(r.chance(1, 2) ? 4 : 3000);
        int q = (int)r.below(10);
        a.q = q == 0 ? '*' : q == 1 ? '+' : q == 2 ? '?' : 0;
        return a;
    }
    std::vector<GAlt> alts(int depth) {
        std::vector<GAlt> v;
        int n = r.chance(1, 2) ? 1 : r.range(2, 3);
        for (int i = 0; i < n; i++) {
            GAlt a;
            a.prio = i > 0 && prio && r.chance(1, 2);
            int m = r.chance(1, 15) ? 0 : r.range(1, 3);
            for (int j = 0; j < m; j++) a.seq.push_back(atom(depth));
            v.push_back(a);
        }
        return v;
    }
    std::string name(int i) {
        static const std::vector<std::string> base{"Start", "expr", "Term", "_f", "X1", "list_Item", "G", "Grammar", "includes", "grammars", "A", "aB"};
        return base[i % base.size()] + (i >= (int)base.size() ? std::to_string(i) : "");
    }
    GGram grammar() {
        GGram g;
        for (int i = 0; i < nrules; i++) {
            GRule u; u.name = name(i);
            budget = std::max(budget, 6);
            u.alts = alts(2);
            g.rules.push_back(u);
        }
        if (r.chance(1, 2)) g.gname = "Test";
        return g;
    }
};

// ---- printing, with any layout
struct Layout {
    Rng *r = nullptr;          // null: plain
    bool crlf = false;
    std::string nl() const { return crlf ? "\r\n" : "\n"; }
    // what may stand between two tokens
    std::string sp(bool needed = false) {
        if (!r) return " ";
        std::string o;
        int n = r->chance(1, 3) ? 0 : r->range(1, 3);
        for (int i = 0; i < n; i++) {
            switch (r->below(9)) {
            case 0: o += nl(); break;
            case 1: o += r->chance(1, 8) ? "\f" : r->chance(1, 8) ? "\v" : "\t"; break;
            case 2: o += "/*" + comment(false) + "*/"; break;
            case 3: o += "//" + comment(true) + nl(); break;
            case 4: o += "/**/"; break;
            default: o += " "; break;
            }
        }
        if (needed && o.empty()) o = r->chance(1, 2) ? " " : "/**/";
        return o;
    }
    std::string comment(bool line) {
        static const std::vector<std::string> w{"x", " : ", ";", "'", "\"", "/", "* ", " |> ", "{1}", "include \"a\";", "**", "\xc3\xa9", "/*", "//", "=", "\\"};
        std::string o;
        int n = (int)r->below(4);
        for (int i = 0; i < n; i++) o += r->pick(w);
        if (!line) {
            if (r->chance(1, 4)) o += nl();
            for (size_t p; (p = o.find("*/")) != std::string::npos;) o[p + 1] = ' ';
            while (!o.empty() && o.back() == '/' && o.size() > 1 && o[o.size() - 2] == '*') o.pop_back();
            if (!o.empty() && o[0] == '/') o[0] = ' ';
            if (r->chance(1, 5)) o += "*";
        } else if (!o.empty() && o.back() == '\r') o.pop_back();
        return o;
    }
};
inline std::string g_alts(const GGram &g, const std::vector<GAlt> &v, Layout &l);
inline std::string g_atom(const GGram &g, const GAtom &a, Layout &l) {
    std::string o;
    switch (a.kind) {
    case GAtom::LIT: o = std::string(1, a.quote) + a.lit + a.quote; break;
    case GAtom::RX: o = "/" + a.rxtext + "/"; break;
    case GAtom::REF: o = g.rules[a.ref].name; break;
    case GAtom::GROUP: o = "(" + l.sp() + g_alts(g, a.alts, l) + l.sp() + ")"; break;
    }
    if (a.localid >= 0) o += l.sp() + "{" + l.sp() + std::to_string(a.localid) + l.sp() + "}";
    if (a.q) o += l.sp() + std::string(1, a.q);
    return o;
}
inline std::string g_alts(const GGram &g, const std::vector<GAlt> &v, Layout &l) {
    std::string o;
    for (size_t i = 0; i < v.size(); i++) {
        if (i) o += l.sp() + (v[i].prio ? "|>" : "|") + l.sp();
        for (size_t j = 0; j < v[i].seq.size(); j++) o += (j ? l.sp(true) : "") + g_atom(g, v[i].seq[j], l);
    }
    return o;
}
inline std::string g_rule(const GGram &g, const GRule &u, Layout &l) {
    return u.name + l.sp() + ":" + l.sp() + g_alts(g, u.alts, l) + l.sp() + ";";
}
inline std::string g_print(const GGram &g, Layout &l) {
    std::string o = l.sp();
    if (!g.gname.empty()) o += "grammar" + l.sp(true) + g.gname + l.sp() + ";" + l.sp();
    for (auto &u : g.rules) o += g_rule(g, u, l) + l.sp() + l.nl();
    return o;
}
inline std::string g_plain(const GGram &g) { Layout l; return g_print(g, l); }

// ---- a finite automaton over the symbols of a rule (literals, regexes, invocations, tags)
struct SymNfa {
    struct St { std::vector<int> eps; std::vector<std::pair<std::string, int>> out; };
    std::vector<St> st;
    int start = 0, accept = 0;
    int fresh() { st.emplace_back(); return (int)st.size() - 1; }
    typedef std::vector<int> Set;
    Set close(std::vector<int> w) const {
        std::vector<char> in(st.size(), 0);
        Set s;
        for (size_t i = 0; i < w.size(); i++) {
            int q = w[i];
            if (in[q]) continue;
            in[q] = 1; s.push_back(q);
            for (int e : st[q].eps) if (!in[e]) w.push_back(e);
        }
        std::sort(s.begin(), s.end());
        return s;
    }
    std::map<std::string, Set> step(const Set &s) const {
        std::map<std::string, std::vector<int>> m;
        for (int q : s) for (auto &p : st[q].out) m[p.first].push_back(p.second);
        std::map<std::string, Set> o;
        for (auto &p : m) o[p.first] = close(p.second);
        return o;
    }
    bool acc(const Set &s) const { return std::binary_search(s.begin(), s.end(), accept); }
};
// "": equal; otherwise a word one of them accepts and the other does not
inline std::string sym_differ(const SymNfa &a, const SymNfa &b, size_t limit, uint64_t &states) {
    std::map<std::pair<SymNfa::Set, SymNfa::Set>, std::string> seen;
    std::vector<std::pair<SymNfa::Set, SymNfa::Set>> todo;
    todo.push_back({a.close({a.start}), b.close({b.start})});
    seen[todo[0]] = "";
    for (size_t i = 0; i < todo.size() && i < limit; i++) {
        auto cur = todo[i];
        std::string w = seen[cur];
        states++;
        bool x = a.acc(cur.first), y = b.acc(cur.second);
        if (x != y) return (x ? "only the grammar has: " : "only the machine has: ") + w + " (end)";
        auto p = a.step(cur.first), q = b.step(cur.second);
        std::set<std::string> syms;
        for (auto &e : p) syms.insert(e.first);
        for (auto &e : q) syms.insert(e.first);
        for (auto &sy : syms) {
            std::pair<SymNfa::Set, SymNfa::Set> nx(p.count(sy) ? p[sy] : SymNfa::Set(), q.count(sy) ? q[sy] : SymNfa::Set());
            if (seen.emplace(nx, w + " " + sy).second) todo.push_back(nx);
        }
    }
    return "";
}
inline std::string sym_lit(const std::string &s, int id) { return "'" + show(s) + "'" + (id >= 0 ? "{" + std::to_string(id) + "}" : ""); }
inline std::string sym_rx(const std::string &sig, int id) { return "/" + sig + "/" + (id >= 0 ? "{" + std::to_string(id) + "}" : ""); }
inline std::string sym_ref(const std::string &s, int id) { return s + (id >= 0 ? "{" + std::to_string(id) + "}" : ""); }
inline void g_sym(const GGram &g, const std::vector<GAlt> &v, SymNfa &n, int from, int to, bool ws,
                  const std::function<std::string(const GAtom &)> &rxsig) {
    int prio = 0;
    for (auto &a : v) {
        if (a.prio) prio++;
        int cur = n.fresh();
        if (prio) n.st[from].out.emplace_back("#" + std::to_string(prio), cur); else n.st[from].eps.push_back(cur);
        for (auto &t : a.seq) {
            int b = n.fresh(), e = n.fresh();
            n.st[cur].eps.push_back(b);
            int s = b;
            if (ws && (t.kind == GAtom::LIT || t.kind == GAtom::RX)) { s = n.fresh(); n.st[b].out.emplace_back("WS", s); }
            switch (t.kind) {
            case GAtom::LIT: n.st[s].out.emplace_back(sym_lit(t.lit, t.localid), e); break;
            case GAtom::RX: n.st[s].out.emplace_back(sym_rx(rxsig(t), t.localid), e); break;
            case GAtom::REF: n.st[s].out.emplace_back(sym_ref(g.rules[t.ref].name, t.localid), e); break;
            case GAtom::GROUP: g_sym(g, t.alts, n, s, e, ws, rxsig); break;
            }
            int f = n.fresh();
            n.st[e].eps.push_back(f);
            if (t.q == '*' || t.q == '+') n.st[e].eps.push_back(b);
            if (t.q == '*' || t.q == '?') n.st[b].eps.push_back(f);
            cur = f;
        }
        n.st[cur].eps.push_back(to);
    }
}

} // namespace vk
