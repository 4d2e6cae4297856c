// Grammars with sentences of theirs, and a parser that works on the grammar's structure.
#pragma once
#include "ggen.hpp"
#include "refll.hpp"
#include "Grammar.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include <fstream>
#include <memory>
using namespace Centaurus;
using namespace vk;

static Harness *H;


// repeats a stretch, so that runs pass the width of a vector
static std::string stretch(Rng &r, std::string w) {
    if (w.empty()) return w;
    size_t p = r.below((uint32_t)w.size()), l = 1 + r.below((uint32_t)std::min<size_t>(3, w.size() - p));
    std::string s = w.substr(p, l), o;
    for (int k = r.range(1, r.chance(1, 3) ? 40 : 18); k > 0; k--) o += s;
    w.insert(p, o);
    return w;
}

// ---- grammars for P20 to P22
static GGram make_ll1(Rng &r) {
    GGram h;
    int n = r.range(1, 5);
    std::string letters = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (size_t k = letters.size(); k > 1; k--) std::swap(letters[k - 1], letters[r.below((uint32_t)k)]);
    size_t next = 0;
    auto lit = [](const std::string &s) { GAtom t; t.kind = GAtom::LIT; t.lit = s; return t; };
    auto rx = [](const std::string &s) { GAtom t; t.kind = GAtom::RX; t.rxtext = s; return t; };
    auto ref = [](int k) { GAtom t; t.kind = GAtom::REF; t.ref = k; return t; };
    static const std::vector<std::string> tails{"z", "", "", "ingtonweather", "01234567", "abcdefghijklmnop", "qrstuvwxyzabcdefghij"};
    static const std::vector<std::string> rxs{"[A-Z]+", "[A-Z]++", "[A-Z]*+", "[A-Z][A-Z]?", "(A|B)*+C", "[A-GP-TX]++[0-9]*+", "[^;,()<>a-z0-9 \\t\\r\\n]++", "[ACEGIKMOQSU]++", "X*Y?Z+", "[ACEGIKMOQSUWY]*+"};
    for (int k = 0; k < n; k++) {
        GRule u; u.name = std::string("R") + (char)('a' + k);
        int m = r.range(1, 3);
        for (int j = 0; j < m; j++) {
            GAlt al;
            if (m == 1 && k && r.chance(1, 4)) al.seq.push_back(ref((int)r.below(n)));
            al.seq.push_back(lit(std::string(1, letters[next++ % letters.size()]) + r.pick(tails)));
            if (r.chance(1, 2)) { GAtom x = rx(r.pick(rxs)); if (r.chance(1, 3)) { x.q = '?'; } al.seq.push_back(x); }
            if (r.chance(1, 2)) al.seq.push_back(ref((int)r.below(n)));
            if (r.chance(1, 2)) {
                GAtom t; t.kind = GAtom::GROUP;
                GAlt x; x.seq = {lit(","), ref((int)r.below(n))};
                t.alts = {x}; t.q = "*+?"[r.below(3)];
                al.seq.push_back(t);
                al.seq.push_back(lit(";"));
            }
            if (r.chance(1, 4)) for (auto &a : al.seq) if (a.kind != GAtom::GROUP) a.localid = (int)r.below(2000);
            u.alts.push_back(al);
        }
        if (r.chance(1, 5)) u.alts.push_back(GAlt());
        h.rules.push_back(u);
    }
    return h;
}
static GGram make_small(Rng &r, bool prio) {
    GGen gg(r);
    gg.nrules = r.range(1, 4);
    gg.budget = r.range(4, 12);
    gg.alphabet = r.chance(1, 2) ? "abc" : "abcdefgh";
    gg.prio = prio;
    gg.localids = r.chance(1, 2);
    return gg.grammar();
}
static const std::vector<std::string> &classics() {
    static const std::vector<std::string> v{
        "grammar JSON;\nObject : List | Dict | String | Number | 'true' | 'false' | 'null' ;\nList : '[' ( Object ( ',' Object )* )? ']' ;\nDict : '{' ( DictEntry ( ',' DictEntry )* )? '}' ;\nDictEntry : String ':' Object ;\nString : /\"[^\"]*+\"/ ;\nNumber : /-?[0-9]++[.]?[0-9]*+/ ;\n",
        "Expr : Term ( '+' {1} Term | '-' {2} Term )* ;\nTerm : Factor ( '*' Factor | '/' {7} Factor )* ;\nFactor : '(' Expr ')' | /[0-9]+/ {12} | /[a-z][a-z0-9]*/ ;\n",
        "Doc : Element ;\nElement : '<' Name ( Attr )* ( '/>' | '>' Content '</' Name '>' ) ;\nAttr : Name '=' /\"[^\"]*\"/ ;\nContent : ( Text | Element )* ;\nName : /[a-z]+/ ;\nText : /[^<]+/ ;\n",
        "File : ( Stmt )* ;\nStmt : 'begin' ( Stmt )* 'end' | 'print' Value ';' | 'procedure_with_a_long_name' Value ( ',' Value )* ';' ;\nValue : /[0-9]+/ | /'[^']*+'/ ;\n",
        "S : 'a' S 'b' | 'c' |> 'cd' | ;\n",
        "Top : Item ( /[,;]/ Item )* '.' ;\nItem : Word | Num | Sub ;\nSub : '(' Top ')' ;\nWord : /[A-Za-z]++/ ;\nNum : /[0-9]++(\\.[0-9]++)?/ ;\n",
        "List : Row+ ;\nRow : Cell ( ',' Cell )* ';' ;\nCell : /[a-z]+/ | /[a-z]+[0-9]/ | ;\n",
        "Q : 'if' Q 'then' Q ( 'else' Q 'fi' | 'fi' ) | 'iff' Q | 'x' ;\n",
    };
    return v;
}
template <typename T> struct Made {
    std::string text;
    Grammar<T> gr;
    std::unique_ptr<RefLL<T>> ll;
    std::vector<int> cost;               // what it takes at least to finish the rule from a node
    bool usable = false, ordered = false;
    Made(Rng &r, uint64_t, const std::string &given = "") {
        int kind = (int)r.below(10);
        if (!given.empty()) text = given;
        else if (kind < 2) text = r.pick(classics());
        else {
            GGram g = kind < 7 ? make_ll1(r) : make_small(r, r.chance(1, 3));
            text = g_plain(g);
        }
        ordered = text.find("|>") != std::string::npos;
        std::string path = H->scratch + "/main.cgr";
        { std::ofstream f(path, std::ios::binary); f << text; }
        H->note("", show(text));
        gr.parse(path);
        unlink(path.c_str());
        if (r.chance(1, 2)) gr.optimize();
        ll.reset(new RefLL<T>(gr));
        ll->limit = 3000;
        if (ll->undefined) { H->inc("undefined"); return; }
        try { for (size_t n = 0; n < ll->nodes.size(); n++) if (ll->nodes[n].next.size() > 1) ll->explore((int)n, 60); }
        catch (Recursion &) { H->inc("recursive"); return; }
        catch (TooBig &) { H->inc("too-big"); return; }
        // left recursion and rules that never end have no sentences
        cost.assign(ll->nodes.size(), 1 << 20);
        for (bool ch = true; ch;) {
            ch = false;
            for (size_t n = ll->nodes.size(); n-- > 0;) {
                auto &d = ll->nodes[n];
                int own = d.callee >= 0 ? 1 + cost[(size_t)ll->first[(size_t)d.callee]] : d.type == RefLL<T>::NT::LiteralTerminal || d.type == RefLL<T>::NT::RegularTerminal ? 1 : 0;
                int rest = (int)n == ll->last[(size_t)d.rule] ? 0 : 1 << 20;
                for (auto &t : d.next) rest = std::min(rest, cost[(size_t)t.first]);
                int c = std::min(1 << 20, own + rest);
                if (c < cost[n]) { cost[n] = c; ch = true; }
            }
        }
        for (size_t k = 0; k < ll->names.size(); k++) if (cost[(size_t)ll->first[k]] >= 1 << 20) { H->inc("endless"); return; }
        usable = true;
    }
    int root() { return ll->rule_of.at(narrow(gr.get_root_id().str())); }
    // a walk through the rule
    int budget = 0;
    void sentence(Rng &r, int rule, std::string &o, int depth) {
        typedef typename RefLL<T>::NT NT;
        int n = ll->first[(size_t)rule];
        for (int steps = 0; steps < 200; steps++) {
            auto &d = ll->nodes[(size_t)n];
            budget--;
            switch (d.type) {
            case NT::LiteralTerminal: for (T c : d.lit) o += (char)c; break;
            case NT::RegularTerminal: {
                size_t q = 0;
                for (int k = 0; k < 60; k++) {
                    if (q == d.eps.size() - 1 && (d.out[q].empty() || r.chance(1, 3))) break;
                    size_t m = d.eps[q].size() + d.out[q].size();
                    if (!m) break;
                    size_t c = r.below((uint32_t)m);
                    if (c < d.eps[q].size()) { q = (size_t)d.eps[q][c]; continue; }
                    auto &p = d.out[q][c - d.eps[q].size()];
                    std::vector<int> cs;
                    for (int x = 1; x < 256; x++) if (p.first[(size_t)x]) cs.push_back(x);
                    if (cs.empty()) break;
                    int x = r.pick(cs);
                    if (cs.size() > 60 && r.chance(5, 6)) { x = 'a' + (int)r.below(26); if (!p.first[(size_t)x]) x = r.pick(cs); }
                    int rep = (size_t)p.second == q && r.chance(1, 6) ? r.range(2, 30) : 1;
                    o += std::string((size_t)rep, (char)x);
                    q = (size_t)p.second;
                }
                break;
            }
            case NT::WhiteSpace: if (r.chance(1, 3)) for (int k = r.range(1, r.chance(1, 8) ? 20 : 3); k > 0; k--) o += " \t\r\n"[r.below(4)]; break;
            case NT::Nonterminal: if (depth < 200) sentence(r, d.callee, o, depth + 1); break;
            default: break;
            }
            if (d.next.empty() || o.size() > 5000) return;
            size_t k = r.below((uint32_t)d.next.size());
            if (budget < 0) for (size_t j = 0; j < d.next.size(); j++) if (cost[(size_t)d.next[j].first] < cost[(size_t)d.next[k].first]) k = j;
            n = d.next[k].first;
        }
    }
    std::string text_for(Rng &r, int rule) {
        std::string w;
        budget = r.chance(1, 4) ? r.range(50, 600) : r.range(0, 40);
        sentence(r, rule, w, 0);
        int k = (int)r.below(8);
        if (k == 0) w = mutate(r, w, "abc ,;()[]\"0");
        if (k == 1) w = stretch(r, w);
        if (k == 2 && !w.empty()) w.resize(r.below((uint32_t)w.size()));
        if (k == 3) w += r.chance(1, 2) ? " " : r.pick(std::vector<std::string>{"x", ",", "))", "\n\n", "\xff"});
        if (r.chance(1, 20)) { w.clear(); for (int n = r.range(0, 12); n > 0; n--) w += (char)r.range(1, 255); }
        if (w.size() > 6000) w.resize(6000);
        w.erase(std::remove(w.begin(), w.end(), '\0'), w.end());
        return w;
    }
};

// the reference parser
struct GiveUp {};
struct Event { int kind, id; size_t start, end; };     // 0: rule begins, 1: rule ends, 2: terminal with a local id, 3: invocation (start..end)
template <typename T> struct RefParser {
    typedef typename RefLL<T>::NT NT;
    typedef typename RefLL<T>::CS CS;
    Made<T> &m;
    RefLL<T> &ll;
    std::vector<int> ids;
    struct Dec { std::vector<int> tags; std::map<CS, int> known; std::vector<CS> states; std::vector<std::map<int, int>> next; };   // next: >=0 state, -1 none, -k-1 way k
    std::map<int, Dec> decs;
    explicit RefParser(Made<T> &mm) : m(mm), ll(*mm.ll) {
        for (auto &n : ll.names) ids.push_back(m.gr.get_machine_id(Identifier(widen(n))));
    }
    const std::string *w = nullptr;
    size_t pos = 0, steps = 0, reach = 0, max_steps = 60000;
    int depth = 0;
    std::vector<Event> ev;
    // P07 settles what the lookahead automata do; where priorities meet, theirs is the word that counts
    std::unique_ptr<CompositeATN<T>> catn;
    std::map<int, std::unique_ptr<LookaheadDFA<T>>> autos;
    int automaton(int node) {
        if (!catn) catn.reset(new CompositeATN<T>(m.gr));
        auto &d = autos[node];
        if (!d) d.reset(new LookaheadDFA<T>(*catn, catn->convert_atn_path(ATNPath(Identifier(widen(ll.names[(size_t)ll.nodes[(size_t)node].rule])), ll.nodes[(size_t)node].local))));
        int q = 0;
        for (size_t p = pos;; p++) {
            if (p > w->size() + 1) throw GiveUp();
            int to = 1 << 30;
            for (const auto &t : d->get_transitions(q)) if (t.label().includes((T)ch(p))) { to = t.dest(); break; }
            if (to == 1 << 30) return -1;
            if (to < 0) return -to - 1;
            q = to;
        }
    }
    int ch(size_t p) { reach = std::max(reach, p); return p < w->size() ? (unsigned char)(*w)[p] : 0; }
    int decide(int node) {
        if (m.ordered) return automaton(node);
        Dec &d = decs[node];
        if (d.states.empty()) { d.tags = ll.tags(node); d.states.push_back(ll.decision(node)); d.known[d.states[0]] = 0; d.next.emplace_back(); }
        int q = 0;
        for (size_t p = pos;; p++) {
            if (p > w->size() + 1) throw GiveUp();        // reads past the end
            int c = ch(p);
            auto it = d.next[(size_t)q].find(c);
            int to;
            if (it != d.next[(size_t)q].end()) to = it->second;
            else {
                CS n = ll.read(d.states[(size_t)q], c, d.tags);
                auto cl = ll.colors(n);
                if (cl.empty()) to = -1;
                else if (cl.size() == 1) to = -*cl.begin() - 1;
                else {
                    CS k = ll.close(n);
                    auto e = d.known.emplace(k, (int)d.states.size());
                    if (e.second) { d.states.push_back(k); d.next.emplace_back(); if (d.states.size() > 500) throw GiveUp(); }
                    to = e.first->second;
                }
                d.next[(size_t)q][c] = to;
            }
            if (to < 0) return to == -1 ? -1 : -to - 2;
            q = to;
        }
    }
    long longest(const typename RefLL<T>::Node &d) {
        auto close = [&](std::vector<int> v) {
            std::vector<char> in(d.eps.size(), 0);
            std::vector<int> o;
            for (size_t i = 0; i < v.size(); i++) { if (in[(size_t)v[i]]) continue; in[(size_t)v[i]] = 1; o.push_back(v[i]); for (int e : d.eps[(size_t)v[i]]) v.push_back(e); }
            return o;
        };
        auto acc = [&](const std::vector<int> &s) { return std::find(s.begin(), s.end(), (int)d.eps.size() - 1) != s.end(); };
        std::vector<int> s = close({0});
        long best = acc(s) ? 0 : -1;
        for (size_t p = pos;; p++) {
            int c = ch(p);
            std::vector<int> t;
            for (int q : s) for (auto &o : d.out[(size_t)q]) if (o.first[(size_t)c]) t.push_back(o.second);
            if (t.empty()) return best;
            if (p >= w->size()) throw GiveUp();
            s = close(t);
            if (acc(s)) best = (long)(p - pos + 1);
            steps++;
        }
    }
    bool rule(int k, bool deep = true) {
        if (++depth > 3000) throw GiveUp();
        ev.push_back({0, ids[(size_t)k], pos, pos});
        int n = ll.first[(size_t)k];
        for (;;) {
            if (++steps > max_steps) throw GiveUp();
            auto &d = ll.nodes[(size_t)n];
            size_t from = pos;
            switch (d.type) {
            case NT::LiteralTerminal:
                for (size_t j = 0; j < d.lit.size(); j++) if (ch(pos + j) != (int)(unsigned char)d.lit[j]) return false;
                pos += d.lit.size();
                break;
            case NT::RegularTerminal: { long l = longest(d); if (l < 0) return false; pos += (size_t)l; break; }
            case NT::WhiteSpace: while (ch(pos) && strchr(" \t\r\n", ch(pos))) pos++; break;
            case NT::Nonterminal: {
                size_t at = ev.size();
                ev.push_back({3, ids[(size_t)d.callee], pos, pos});
                if (!rule(d.callee)) return false;
                ev[at].end = pos;
                break;
            }
            default: break;
            }
            if (d.type == NT::LiteralTerminal || d.type == NT::RegularTerminal) {
                int id = m.gr[Identifier(widen(ll.names[(size_t)d.rule]))].get_node(d.local).get_id();
                if (id >= 0) ev.push_back({2, id, from, pos});
            }
            if (d.next.empty()) break;
            int c = d.next.size() == 1 ? 0 : decide(n);
            if (c < 0) return false;
            n = d.next[(size_t)c].first;
        }
        depth--;
        ev.push_back({1, ids[(size_t)k], pos, pos});
        return true;
    }
    // false: the text is rejected (what was seen until then is in ev)
    bool run(const std::string &text, int k) {
        w = &text; pos = 0; steps = 0; depth = 0; reach = 0; ev.clear();
        return rule(k);
    }
};
