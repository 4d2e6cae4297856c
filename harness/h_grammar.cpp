// P04..P11: everything between the text of a grammar and its decisions and diagrams.
#include "ggen.hpp"
#include "refll.hpp"
#include "Grammar.hpp"
#include "CompositeATN.hpp"
#include "LookaheadDFA.hpp"
#include <fstream>
using namespace Centaurus;
using namespace vk;

static Harness *H;

static void save(const std::string &path, const std::string &text) {
    std::ofstream f(path, std::ios::binary);
    f << text;
}
template <typename T> std::string nfa_sig(const NFA<T> &n) {
    std::string o;
    for (int i = 0; i < n.get_state_num(); i++) {
        o += fmt("%d:", i);
        for (const auto &t : n.get_transitions(i)) {
            o += fmt(">%d", t.dest());
            for (const auto &r : t.label()) o += fmt("[%d-%d)", (int)r.start(), (int)r.end());
            if (t.is_long()) o += "L";
        }
        o += ";";
    }
    return o;
}
template <typename T> std::string atn_sig(const ATNMachine<T> &m) {
    std::string o;
    for (int i = 0; i < m.get_node_num(); i++) {
        const auto &n = m.get_node(i);
        o += fmt("%d/%d", i, (int)n.type());
        if (n.type() == ATNNodeType::LiteralTerminal) { o += "'"; for (T c : n.get_literal()) o += fmt("%x.", (unsigned)(typename std::make_unsigned<T>::type)c); o += "'"; }
        if (n.type() == ATNNodeType::RegularTerminal) o += "/" + nfa_sig(n.get_nfa()) + "/";
        if (n.type() == ATNNodeType::Nonterminal) o += narrow(n.get_invoke().str());
        o += fmt("{%d}", n.get_id());
        for (const auto &t : n.get_transitions()) o += fmt(">%d#%d", t.dest(), t.tag());
        o += "\n";
    }
    return o;
}
template <typename T> SymNfa machine_sym(const ATNMachine<T> &m) {
    SymNfa s;
    int n = m.get_node_num();
    std::vector<int> in(n), out(n);
    for (int i = 0; i < n; i++) { in[i] = s.fresh(); out[i] = s.fresh(); }
    for (int i = 0; i < n; i++) {
        const auto &d = m.get_node(i);
        std::string sym;
        switch (d.type()) {
        case ATNNodeType::Blank: s.st[in[i]].eps.push_back(out[i]); break;
        case ATNNodeType::WhiteSpace: s.st[in[i]].out.emplace_back("WS", out[i]); break;
        case ATNNodeType::LiteralTerminal: { std::string l; for (T c : d.get_literal()) l += (char)c; s.st[in[i]].out.emplace_back(sym_lit(l, d.get_id()), out[i]); break; }
        case ATNNodeType::RegularTerminal: s.st[in[i]].out.emplace_back(sym_rx(nfa_sig(d.get_nfa()), d.get_id()), out[i]); break;
        case ATNNodeType::Nonterminal: s.st[in[i]].out.emplace_back(sym_ref(narrow(d.get_invoke().str()), d.get_id()), out[i]); break;
        }
        for (const auto &t : d.get_transitions()) {
            if (t.dest() < 0 || t.dest() >= n) { H->viol("atn:target", fmt("a transition leads to node %d of %d", t.dest(), n)); return SymNfa(); }
            if (t.tag()) s.st[out[i]].out.emplace_back("#" + std::to_string(t.tag()), in[t.dest()]);
            else s.st[out[i]].eps.push_back(in[t.dest()]);
        }
    }
    s.start = in[0]; s.accept = out[n - 1];
    return s;
}
template <typename T> std::string rx_sig(const std::string &text) {
    Stream st(widen(text));
    NFA<T> n(st);
    return nfa_sig(n);
}
static SymNfa alts_sym(const GGram &g, const GRule &u, const std::function<std::string(const GAtom &)> &sig) {
    SymNfa n;
    n.start = n.fresh(); n.accept = n.fresh();
    g_sym(g, u.alts, n, n.start, n.accept, true, sig);
    return n;
}

static std::vector<std::pair<std::string, int>> g_enum;
static void CENTAURUS_CALLBACK enum_cb(const wchar_t *name, int id) { g_enum.emplace_back(narrow(name), id); }

// writes the grammar, its rules spread over files that include each other
static std::vector<std::string> g_parts;
static void write_split(const GGram &g, Rng &r, Layout &l, const std::string &dir) {
    mkdir((dir + "/sub").c_str(), 0700);
    size_t n = g.rules.size(), k = 0;
    int file = 0;
    std::function<std::string(size_t, const std::string &)> emit = [&](size_t end, const std::string &cwd) -> std::string {
        std::string o = l.sp();
        while (k < end) {
            if (file < 4 && r.chance(1, 3)) {
                static const std::vector<std::string> kinds{"f%d.cgr", "f%d.cgr", "part %d", "\xc3\xa9t\xc3\xa9%d.cgr", "\xff%d", "./f%d.cgr", "r'%d;.x"};
                std::string kind = r.pick(kinds);
                std::string name = kind.replace(kind.find("%d"), 2, std::to_string(file++));
                bool sub = r.chance(1, 3), absolute = r.chance(1, 6);
                std::string path = cwd + (sub && cwd == dir ? "/sub/" : "/") + name;
                size_t m = std::min(end, k + (size_t)r.range(0, 2));
                std::string body = emit(m, sub && cwd == dir ? dir + "/sub" : cwd);
                save(path, body);
                g_parts.push_back(path);
                std::string ref = absolute ? path : (sub && cwd == dir ? "sub/" : "") + name;
                o += "include" + l.sp() + "\"" + ref + "\"" + l.sp() + ";" + l.sp() + l.nl();
            } else {
                o += g_rule(g, g.rules[k], l) + l.sp() + l.nl();
                k++;
            }
        }
        return o;
    };
    std::string head = l.sp();
    if (!g.gname.empty()) head += "grammar" + l.sp(true) + g.gname + l.sp() + ";" + l.sp();
    std::string body = emit(n, dir);
    save(dir + "/main.cgr", head + body);
}
static void clean(const std::string &dir) {
    for (auto &p : g_parts) unlink(p.c_str());
    g_parts.clear();
    unlink((dir + "/main.cgr").c_str());
}

static GGram make(Rng &r, bool big) {
    GGen gg(r);
    gg.nrules = r.chance(1, 10) ? r.range(4, 14) : r.range(1, 5);
    gg.budget = big ? 30 : 16;
    gg.prio = r.chance(1, 2); gg.localids = r.chance(1, 2); gg.odd = r.chance(1, 2); gg.empty_lit = r.chance(1, 6);
    return gg.grammar();
}

// ---- P04
template <typename T> void front(uint64_t i, Rng &r) {
    GGram g = make(r, true);
    // a second definition of some rule: the first one stands
    GGram all = g;
    if (r.chance(1, 5) && g.rules.size() > 1) {
        GRule d = g.rules[r.below((uint32_t)g.rules.size())];
        GGen gg(r); gg.nrules = (int)g.rules.size(); gg.budget = 5;
        d.alts = gg.alts(1);
        all.rules.insert(all.rules.begin() + 1 + r.below((uint32_t)all.rules.size()), d);
    }
    // the definition that stands is the first in the text
    std::vector<GRule> order;
    std::map<std::string, size_t> pos;
    for (auto &u : all.rules) if (!pos.count(u.name)) { pos[u.name] = order.size(); order.push_back(u); }
    auto sig = [](const GAtom &a) { return rx_sig<T>(a.rxtext); };
    Layout l; l.r = r.chance(1, 2) ? &r : nullptr; l.crlf = r.chance(1, 4);
    GGram p = all;
    // references are by index into g.rules; keep the names while printing all
    p.rules = all.rules;
    std::string dir = H->scratch;
    {
        // print with the names of g
        std::map<std::string, int> ix;
        for (size_t k = 0; k < p.rules.size(); k++) if (!ix.count(p.rules[k].name)) ix[p.rules[k].name] = (int)k;
        std::function<void(std::vector<GAlt> &)> fix = [&](std::vector<GAlt> &v) {
            for (auto &a : v) for (auto &t : a.seq) { if (t.kind == GAtom::REF) t.ref = ix[g.rules[t.ref].name]; else if (t.kind == GAtom::GROUP) fix(t.alts); }
        };
        for (auto &u : p.rules) fix(u.alts);
    }
    order.clear(); pos.clear();
    for (auto &u : p.rules) if (!pos.count(u.name)) { pos[u.name] = order.size(); order.push_back(u); }
    bool split = r.chance(1, 2);
    if (split) write_split(p, r, l, dir); else save(dir + "/main.cgr", g_print(p, l));
    std::string text = g_plain(p);
    H->note("", std::string(split ? "(split) " : "") + show(text));
    Grammar<T> gr;
    int next = gr.parse(dir + "/main.cgr");
    clean(dir);
    H->inc("grammars");
    H->seen("grammars", hash_str(text) ^ sizeof(T));
    std::string what = show(text.substr(0, 900));
    if (gr.get_machine_num() != (int)order.size()) { H->viol("count", fmt("%d rules instead of %d: ", gr.get_machine_num(), (int)order.size()) + what); return; }
    if (next != (int)order.size() + 1) { H->viol("next-id", fmt("the next id is %d: ", next) + what); return; }
    if (narrow(gr.get_root_id().str()) != order[0].name) { H->viol("root", "root is " + narrow(gr.get_root_id().str()) + ": " + what); return; }
    g_enum.clear();
    gr.enum_machines(enum_cb);
    if (g_enum.size() != order.size()) { H->viol("enum", fmt("%d names enumerated: ", (int)g_enum.size()) + what); return; }
    for (size_t k = 0; k < order.size(); k++) {
        Identifier id(widen(order[k].name));
        if (gr.get_machine_id(id) != (int)k + 1 || gr.lookup_id((int)k).str() != widen(order[k].name) || g_enum[k].first != order[k].name || g_enum[k].second != (int)k + 1 ||
            gr[id].get_unique_id() != (int)k + 1) {
            H->viol("ids", fmt("rule %s (number %d in the text) has id %d, and that id is called %s: ", order[k].name.c_str(), (int)k + 1, gr.get_machine_id(id), narrow(gr.lookup_id((int)k).str()).c_str()) + what);
            return;
        }
        SymNfa ref = alts_sym(p, order[k], sig), got = machine_sym(gr[id]);
        if (got.st.empty()) return;
        uint64_t st = 0;
        std::string d = sym_differ(ref, got, 4000, st);
        H->inc("compared-states", st);
        H->inc("rules");
        if (!d.empty()) { H->viol("rule", "rule " + order[k].name + ": " + d + " in: " + what); return; }
    }
    if (i < 3) H->sample(what);
}

template <typename T> std::string grammar_sig(const Grammar<T> &g, const GGram &m) {
    std::string o = narrow(g.get_root_id().str()) + "\n";
    for (auto &u : m.rules) { Identifier id(widen(u.name)); o += fmt("%s=%d\n", u.name.c_str(), g.get_machine_id(id)) + atn_sig(g[id]); }
    return o;
}
// ---- P05
template <typename T> void layout(uint64_t i, Rng &r) {
    GGram g = make(r, true);
    std::string dir = H->scratch;
    std::string plain = g_plain(g);
    save(dir + "/main.cgr", plain);
    H->note("", show(plain));
    Grammar<T> base;
    base.parse(dir + "/main.cgr");
    std::string want = grammar_sig(base, g);
    H->seen("grammars", hash_str(plain) ^ sizeof(T));
    for (int k = 0; k < 4; k++) {
        Layout l; l.r = &r; l.crlf = k % 2;
        std::string text;
        if (k < 3) { text = g_print(g, l); if (k == 2) while (!text.empty() && (isspace((unsigned char)text.back()))) text.pop_back();
            // the last line may lack its newline unless it is a comment's
            save(dir + "/main.cgr", text); }
        else write_split(g, r, l, dir);
        H->note("", show(text.empty() ? plain : text));
        Grammar<T> gr;
        try { gr.parse(dir + "/main.cgr"); }
        catch (const std::exception &e) { H->viol("refused", std::string(e.what()) + " in: " + show(text.empty() ? "(split) " + plain : text)); clean(dir); return; }
        clean(dir);
        H->inc("layouts");
        if (grammar_sig(gr, g) != want) { H->viol("differs", "the layout changes the meaning of: " + show(text.empty() ? "(split) " + plain : text)); return; }
        Grammar<T> moved(std::move(gr));
        if (grammar_sig(moved, g) != want || moved.lookup_id(0) != base.lookup_id(0)) { H->viol("moved", "moving changes the meaning of: " + show(plain)); return; }
        if (i < 2 && k == 0) H->sample(show(text));
    }
}

static GGram make_small(Rng &r, bool prio) {
    GGen gg(r);
    gg.nrules = r.range(1, 4);
    gg.budget = r.range(4, 12);
    gg.alphabet = r.chance(1, 2) ? "abc" : "abcdefgh";
    gg.prio = prio;
    return gg.grammar();
}

// runs the lookahead automaton step by step: {colour or -1 (none) or 0 (undecided), characters read}
template <typename T> std::pair<int, size_t> drive(const LookaheadDFA<T> &d, const std::string &w, bool &nondet) {
    int q = 0;
    for (size_t i = 0; i < w.size(); i++) {
        int dest = 0; bool found = false;
        for (const auto &t : d.get_transitions(q)) if (t.label().includes((T)w[i])) {
            if (found && dest != t.dest()) nondet = true;
            if (!found) dest = t.dest();
            found = true;
        }
        if (!found) return {-1, i};
        if (dest < 0) return {-dest, i + 1};
        q = dest;
    }
    return {0, w.size()};
}

template <typename T> std::string place(RefLL<T> &ll, int node) { return ll.names[ll.nodes[node].rule] + "." + std::to_string(ll.nodes[node].local); }

// a word some way out of the decision can begin with, steered to stay undecided
template <typename T> std::string steer(RefLL<T> &ll, typename RefLL<T>::CS s, const std::vector<int> &tg, Rng &r, int maxlen) {
    std::string w;
    for (int k = 0; k < maxlen; k++) {
        std::vector<int> at = ll.atoms(s);
        if (at.empty()) break;
        int c = at[r.below((uint32_t)at.size())];
        if (r.chance(1, 2)) for (int tries = 0; tries < 4; tries++) {     // prefer characters that keep several alternatives
            int c2 = at[r.below((uint32_t)at.size())];
            if (ll.colors(ll.read(s, c2, tg)).size() > 1) { c = c2; break; }
        }
        w += (char)c;
        auto n = ll.read(s, c, tg);
        if (ll.colors(n).size() < 2) { if (r.chance(1, 3)) w += (char)r.range(1, 254); break; }
        s = ll.close(n);
    }
    return w;
}

// ---- P07 (and the decisions of P06)
template <typename T> bool decisions(const Grammar<T> &gr, Rng &r, const std::string &what, int words, bool singletag) {
    RefLL<T> ll(gr);
    if (ll.undefined) return true;
    CompositeATN<T> catn(gr);
    for (size_t node = 0; node < ll.nodes.size(); node++) {
        if (ll.nodes[node].next.size() < 2) continue;
        std::vector<int> tg = ll.tags((int)node);
        typename RefLL<T>::CS start;
        try { ll.explore((int)node, 50); start = ll.decision((int)node); }
        catch (Recursion &) { H->inc("recursive-decisions"); continue; }
        catch (TooBig &) { H->inc("big-decisions"); continue; }
        ATNPath path(Identifier(widen(ll.names[ll.nodes[node].rule])), ll.nodes[node].local);
        std::string K = "decision";
        std::unique_ptr<LookaheadDFA<T>> d, raw;
        try {
            d.reset(new LookaheadDFA<T>(catn, catn.convert_atn_path(path)));
            raw.reset(new LookaheadDFA<T>(catn, catn.convert_atn_path(path), false));
        } catch (const std::exception &e) {
            H->viol(K + ":throws", place(ll, (int)node) + ": " + e.what() + " in " + what);
            return false;
        }
        H->inc("decisions");
        H->seen("decision-shapes", mix(hash_str(fmt("%d/%d/%d", d->get_state_num(), d->get_color_num(), raw->get_state_num())), hash_str(what)));
        H->counters["max-lookahead-states"] = std::max<uint64_t>(H->counters["max-lookahead-states"], raw->get_state_num());
        for (int k = 0; k < words; k++) {
            std::string w = steer(ll, start, tg, r, r.range(1, 10));
            if (k % 3 == 2 && !w.empty()) w[r.below((uint32_t)w.size())] = r.chance(1, 2) ? (char)r.range(1, 254) : "abc ;)"[r.below(6)];
            // the reference's verdict
            int want = 0; size_t wlen = w.size();
            typename RefLL<T>::CS s = start;
            try {
                for (size_t j = 0; j < w.size(); j++) {
                    auto n = ll.read(s, (unsigned char)w[j], tg);
                    auto cl = ll.colors(n);
                    if (cl.empty()) { want = -1; wlen = j; break; }
                    if (cl.size() == 1) { want = *cl.begin(); wlen = j + 1; break; }
                    s = ll.close(n);
                }
            } catch (Recursion &) { H->viol(K + ":reference", what); return false; }
            catch (TooBig &) { continue; }
            H->inc(want > 0 ? "decided" : want == 0 ? "undecided" : "rejected");
            if (want > 0 && wlen > 1) H->inc("decided-late");
            std::basic_string<T> tw;
            for (unsigned char c : w) tw.push_back((T)c);
            for (int m = 0; m < 2; m++) {
                bool nondet = false;
                auto got = drive(m ? *raw : *d, w, nondet);
                int ran = (m ? raw : d)->run(tw);
                if (nondet) { H->viol(K + ":nondet", place(ll, (int)node) + " \"" + show(w) + "\" in " + what); return false; }
                if (got.first != want || got.second != wlen || ran != (want > 0 ? want : -1)) {
                    H->viol(K + ":wrong", fmt("%s on \"%s\": way %d after %d characters%s (run: %d), expected way %d after %d (0: undecided, -1: none) in ",
                                                  place(ll, (int)node).c_str(), show(w).c_str(), got.first, (int)got.second, m ? " (not minimized)" : "", ran, want, (int)wlen) + what);
                    return false;
                }
            }
        }
    }
    return true;
}
// an ordered choice whose priorities matter at one place only
static GGram make_prio(Rng &r) {
    GGen gg(r);
    gg.alphabet = r.chance(1, 2) ? "ab" : "abc";
    gg.nrules = 1;
    GGram g;
    GRule top; top.name = "Top";
    int n = r.range(2, 4);
    for (int i = 0; i < n; i++) {
        GAlt a;
        a.prio = i > 0 && r.chance(2, 3);
        int m = r.range(1, 3);
        for (int j = 0; j < m; j++) {
            GAtom t;
            if (r.chance(1, 2)) { t.kind = GAtom::LIT; t.lit = gg.literal(); }
            else { t.kind = GAtom::RX; RxGen x(r, 4); x.alphabet = gg.alphabet; x.long_ok = false; t.rx = x.regex(1, 3); t.rxtext = rx_print(t.rx);
                   if (t.rxtext.empty() || t.rxtext[0] == '/' || t.rxtext[0] == '*') { t.kind = GAtom::LIT; t.lit = "z"; } }
            a.seq.push_back(t);
        }
        top.alts.push_back(a);
    }
    if (r.chance(1, 3)) {      // called from two places, something follows
        GRule root; root.name = "Root";
        for (int k = 0; k < 2; k++) {
            GAlt a; GAtom pre, ref, post;
            pre.kind = GAtom::LIT; pre.lit = k ? "<" : ">";
            ref.kind = GAtom::REF; ref.ref = 1;
            post.kind = GAtom::LIT; post.lit = k ? "a;" : "b;";
            a.seq = {pre, ref, post};
            root.alts.push_back(a);
        }
        g.rules.push_back(root);
        g.rules.push_back(top);
    } else g.rules.push_back(top);
    return g;
}
template <typename T> void decide(uint64_t i, Rng &r) {
    bool prio = r.chance(1, 4);
    GGram g = prio ? make_prio(r) : make_small(r, false);
    std::string dir = H->scratch, plain = g_plain(g);
    save(dir + "/main.cgr", plain);
    H->note("", show(plain));
    Grammar<T> gr;
    gr.parse(dir + "/main.cgr");
    clean(dir);
    bool opt = r.chance(1, 2);
    if (opt) gr.optimize();
    H->inc("grammars");
    if (prio) H->inc("ordered-choices");
    // the reference below works on the parsed choices: they have to be the written ones, in the written order
    for (auto &u : g.rules) {
        uint64_t st = 0;
        std::string d = sym_differ(alts_sym(g, u, [](const GAtom &a) { return rx_sig<T>(a.rxtext); }), machine_sym(gr[Identifier(widen(u.name))]), 2000, st);
        if (!d.empty()) { H->viol("choices", std::string(opt ? "optimized " : "") + "rule " + u.name + ": " + d + " in: " + show(plain)); return; }
    }
    H->seen("grammars", hash_str(plain));
    if (decisions(gr, r, show(plain), H->tier ? 40 : 14, prio) && i < 3) H->sample(show(plain));
}

// ---- P06
template <typename T> void optimize(uint64_t i, Rng &r) {
    GGram g = make(r, true);
    std::string dir = H->scratch, plain = g_plain(g);
    save(dir + "/main.cgr", plain);
    H->note("", show(plain));
    Grammar<T> a, b, c((dir + "/main.cgr").c_str());
    a.parse(dir + "/main.cgr"); b.parse(dir + "/main.cgr");
    clean(dir);
    b.optimize();
    H->inc("grammars");
    H->seen("grammars", hash_str(plain));
    for (auto &u : g.rules) {
        Identifier id(widen(u.name));
        if (a.get_machine_id(id) != b.get_machine_id(id)) { H->viol("id", u.name + " in " + show(plain)); return; }
        SymNfa x = machine_sym(a[id]), y = machine_sym(b[id]), z = machine_sym(c[id]);
        if (x.st.empty() || y.st.empty() || z.st.empty()) return;
        uint64_t st = 0;
        std::string d = sym_differ(x, y, 4000, st);
        if (d.empty()) d = sym_differ(x, z, 4000, st);
        H->inc("compared-states", st);
        H->inc("rules");
        if (b[id].get_node_num() < a[id].get_node_num()) H->inc("shrunk");
        if (b[id].get_node_num() > a[id].get_node_num()) { H->viol("grew", u.name + " in " + show(plain)); return; }
        if (!d.empty()) { H->viol("language", "optimizing changes rule " + u.name + ": " + d + " in: " + show(plain)); return; }
    }
    // a second pass changes nothing any more
    if (i < 3) H->sample(show(plain));
}

// ---- P08
template <typename T> void verify(uint64_t i, Rng &r) {
    GGram g = make_small(r, false);
    std::string K = "random";
    std::string plain;
    int kind = (int)r.below(10);
    int expect = -1;          // -1: ask the reference
    if (kind == 0) {          // an invocation of a rule that does not exist
        plain = g_plain(g);
        Layout l;
        GAtom bad; bad.kind = GAtom::REF;
        GGram h = g;
        h.rules.push_back({"Missing", {}});
        bad.ref = (int)h.rules.size() - 1;
        bad.q = r.chance(1, 3) ? '?' : 0;
        auto &u = h.rules[r.below((uint32_t)g.rules.size())];
        auto &al = u.alts[r.below((uint32_t)u.alts.size())];
        al.seq.insert(al.seq.begin() + r.below((uint32_t)al.seq.size() + 1), bad);
        plain.clear();
        for (size_t k = 0; k + 1 < h.rules.size(); k++) plain += g_rule(h, h.rules[k], l) + "\n";
        K = "undefined"; expect = 0;
    } else if (kind == 1) {   // left recursion, direct or not, with a way out
        GGram h;
        int n = r.range(1, 3);
        for (int k = 0; k < n; k++) {
            GRule u; u.name = std::string("R") + (char)('a' + k);
            GAlt rec, out;
            if (r.chance(1, 3)) { GAtom o; o.kind = GAtom::LIT; o.lit = "p"; o.q = r.chance(1, 2) ? '?' : '*'; rec.seq.push_back(o); }
            GAtom t; t.kind = GAtom::REF; t.ref = (k + 1) % n; rec.seq.push_back(t);
            GAtom s; s.kind = GAtom::LIT; s.lit = "s"; rec.seq.push_back(s);
            GAtom x; x.kind = GAtom::LIT; x.lit = std::string(1, (char)('x' + k)); out.seq.push_back(x);
            if (r.chance(1, 2)) { u.alts = {rec, out}; } else { u.alts = {out, rec}; }
            h.rules.push_back(u);
        }
        plain = g_plain(h);
        K = "left-recursive"; expect = 0;
    } else if (kind == 2) {   // alternatives told apart by their first character: LL(1)
        GGram h;
        int n = r.range(1, 4);
        std::string letters = "abcdefghijklmnopqrstuvwxyz0123456789";
        for (size_t k = letters.size(); k > 1; k--) std::swap(letters[k - 1], letters[r.below((uint32_t)k)]);
        size_t next = 0;
        for (int k = 0; k < n; k++) {
            GRule u; u.name = std::string("R") + (char)('a' + k);
            int m = r.range(1, 3);
            for (int j = 0; j < m; j++) {
                GAlt al; GAtom lead; lead.kind = GAtom::LIT; lead.lit = std::string(1, letters[next++ % letters.size()]) + (r.chance(1, 2) ? "z" : "");
                al.seq.push_back(lead);
                if (r.chance(2, 3)) { GAtom t; t.kind = GAtom::REF; t.ref = (int)r.below(n); al.seq.push_back(t); }
                if (r.chance(1, 2)) { GAtom t; t.kind = GAtom::GROUP; GAlt x; GAtom c; c.kind = GAtom::LIT; c.lit = ","; x.seq.push_back(c); GAtom t2; t2.kind = GAtom::REF; t2.ref = (int)r.below(n); x.seq.push_back(t2);
                    GAtom e; e.kind = GAtom::LIT; e.lit = ";"; t.alts = {x}; t.q = '*'; al.seq.push_back(t); al.seq.push_back(e); }
                u.alts.push_back(al);
            }
            h.rules.push_back(u);
        }
        plain = g_plain(h);
        K = "ll1"; expect = 1;
    } else plain = g_plain(g);
    std::string dir = H->scratch;
    save(dir + "/main.cgr", plain);
    H->note("", show(plain));
    Grammar<T> gr;
    gr.parse(dir + "/main.cgr");
    clean(dir);
    if (r.chance(1, 2)) gr.optimize();
    if (expect < 0) {
        RefLL<T> ll(gr);
        expect = 1;
        try {
            for (size_t node = 0; node < ll.nodes.size(); node++) if (ll.nodes[node].next.size() > 1) ll.explore((int)node, 50);
        } catch (Recursion &) { expect = 0; }
        catch (TooBig &) { H->inc("too-big"); return; }
    }
    bool got = gr.verify();
    H->inc(got ? "accepted" : "refused");
    H->inc("kind-" + K);
    H->seen("grammars", hash_str(plain));
    if (got != (bool)expect) {
        H->viol(K + ":verdict", std::string(got ? "accepted" : "refused") + ": " + show(plain));
        return;
    }
    if (i < 4) H->sample(std::string(got ? "accepted " : "refused ") + show(plain));
}

// ---- P09: anything may be in the file
static const std::vector<std::string> &bits() {
    static const std::vector<std::string> v{"grammar ", "include ", "include \"f0.cgr\";", "include \"main.cgr\";", "include \"nothere.cgr\";", ":", ";", "|", "|>", "(", ")", "'", "\"", "/", "//", "/*", "*/", "{", "}",
        "{1}", "{99999999999}", "{-1}", "*", "+", "?", "[", "]", "[^", "\\", "\\u12", "-", "[a-", "[z-a]", "[]", "[^]", "[^\\u0000]", "[\\xff]", "\xff", "\xfe", "\x00", "a", "A", "_", "''", "\"\"", "//", "/a*/", "/(a|b)*+/", "/[^\"]*/", "\r\n", "\n", "\r", " ", "\t", "\xc2\x85", "R", "R:", "R:'x';", "é", "()", "(|)", "|;", ": ;", "**", "++", "??", "*?", "/((((/", "/)/", "/()*/", "/(a*)*/", "{ }", "{1"};
    return v;
}
template <typename T> void fuzz(uint64_t i, Rng &r) {
    std::string text;
    int kind = (int)r.below(4);
    if (kind == 0) { int n = r.range(1, 30); for (int k = 0; k < n; k++) text += r.pick(bits()); }
    else {
        GGram g = make(r, false);
        Layout l; l.r = &r;
        text = g_print(g, l);
        int n = r.range(1, kind == 1 ? 2 : 8);
        for (int k = 0; k < n && !text.empty(); k++) {
            size_t p = r.below((uint32_t)text.size());
            switch (r.below(5)) {
            case 0: text.erase(p, r.range(1, 5)); break;
            case 1: text.insert(p, r.pick(bits())); break;
            case 2: text[p] = (char)r.below(256); break;
            case 3: text.resize(p); break;
            default: text.insert(p, text.substr(r.below((uint32_t)text.size()), r.range(1, 30))); break;
            }
        }
    }
    std::string dir = H->scratch;
    save(dir + "/main.cgr", text);
    if (r.chance(1, 3)) save(dir + "/f0.cgr", r.chance(1, 2) ? "include \"main.cgr\";" : "Z : 'z' ;");
    H->note("", show(text));
    bool parsed = false;
    try {
        Grammar<T> gr;
        gr.parse(dir + "/main.cgr");
        parsed = true;
        H->inc("parsed");
        bool small = true;
        size_t total = 0;
        for (auto &p : gr.get_machines()) total += p.second.get_node_num();
        small = total < 60;
        std::wostringstream os;
        if (gr.get_machine_num() > 0) gr.print(os, gr.get_root_id(), 2);
    } catch (const std::exception &e) {
        H->inc(parsed ? "refused-later" : "refused");
        H->seen("messages", hash_str(e.what()));
    }
    unlink((dir + "/f0.cgr").c_str());
    clean(dir);
    H->seen("inputs", hash_str(text));
    // the same for a pattern and a path on the command line
    std::string pat;
    int n = r.range(0, 10);
    for (int k = 0; k < n; k++) pat += r.pick(bits());
    H->note("", "pattern " + show(pat));
    try {
        std::wstring w; for (unsigned char c : pat) w.push_back(r.chance(1, 40) ? (wchar_t)r.below(0x110000) : c);
        Stream st(w);
        NFA<T> nfa(st);
        DFA<T> dfa(nfa);
        std::basic_string<T> s;
        for (int k = 0; k < 8; k++) s.push_back((T)r.below(256));
        dfa.run(s); nfa.run(s);
        H->inc("patterns");
    } catch (const std::exception &) { H->inc("patterns-refused"); }
    std::string pth;
    static const std::vector<std::string> pb{"R", ".", "0", "12", "/", "R.0", "/R.1", " ", "-1", "99999999999", "é", "_"};
    for (int k = r.range(0, 5); k > 0; k--) pth += r.pick(pb);
    H->note("", "path " + show(pth));
    try { ATNPath p(widen(pth)); std::wostringstream os; os << p; std::string plain; for (size_t k = 0; k < pth.size(); k++) if (!(pth[k] == '0' && k && pth[k - 1] == '.' && k + 1 < pth.size() && isdigit((unsigned char)pth[k + 1]))) plain += pth[k]; else { pth.erase(k, 1); k--; }
        if (narrow(os.str()) != pth) H->viol("path", "read back as " + narrow(os.str()) + ": " + pth); H->inc("paths"); }
    catch (const std::exception &) { H->inc("paths-refused"); }
    if (i < 4) H->sample(show(text.substr(0, 200)));
}

// ---- P10: the line of a stray character
template <typename T> void errors(uint64_t i, Rng &r) {
    GGram g = make(r, true);
    Layout l; l.r = &r; l.crlf = r.chance(1, 2);
    // a marker token is put where a token would start, on a line that has one already
    std::string text = g_print(g, l);
    static const char stray[] = "@]}%&=<^";
    char c = stray[r.below(sizeof stray - 1)];
    // the stray character goes right after the ';' of some rule, after blanks
    std::vector<size_t> ends;
    // build again, rule by rule, to know where rules end
    text = l.sp();
    for (auto &u : g.rules) { text += g_rule(g, u, l); ends.push_back(text.size()); text += l.sp() + l.nl(); }
    size_t at = r.pick(ends);
    text.insert(at, std::string(r.below(3), ' ') + c);
    at = text.find(c, at);
    int line = 1;
    for (size_t k = 0; k < at; k++) {
        if (text[k] == '\n') line++;
    }
    std::string dir = H->scratch;
    bool inc = r.chance(1, 4);
    save(dir + (inc ? "/f0.cgr" : "/main.cgr"), text);
    if (inc) save(dir + "/main.cgr", "\n\ninclude \"f0.cgr\";\n");
    H->note("", show(text));
    Grammar<T> gr;
    std::string msg;
    try { gr.parse(dir + "/main.cgr"); } catch (const std::exception &e) { msg = e.what(); }
    clean(dir);
    H->inc("errors");
    H->seen("texts", hash_str(text));
    H->seen("lines", line);
    int got = -1;
    if (msg.empty()) { H->viol("accepted", "a stray character went unnoticed: " + show(text)); return; }
    if (sscanf(msg.c_str(), "Line %d", &got) != 1 || got != line) { H->viol("line", fmt("\"%s\" for a stray character in line %d: ", msg.c_str(), line) + show(text)); return; }
    if (msg.find(fmt("%x", (unsigned char)c)) == std::string::npos) { H->viol("character", msg + " for character " + std::string(1, c)); return; }
    if (i < 3) H->sample(msg + " <- " + show(text.substr(0, 300)));
}

// ---- P11: diagrams
struct Dot {
    std::map<std::string, std::map<std::string, std::string>> nodes;
    std::vector<std::tuple<std::string, std::string, std::string>> edges;
    std::string error;
    bool twice = false;
    int depth = 0;
    // a tokenizer for the subset of DOT in use; anything else is an error
    explicit Dot(const std::string &s) {
        size_t p = 0;
        auto ws = [&] { while (p < s.size() && isspace((unsigned char)s[p])) p++; };
        auto id = [&]() -> std::string {
            ws();
            std::string o;
            if (p < s.size() && s[p] == '"') {
                for (p++; p < s.size() && s[p] != '"'; p++) { if (s[p] == '\\' && p + 1 < s.size()) o += s[p++]; o += s[p]; }
                if (p >= s.size()) { error = "unterminated string"; return o; }
                p++;
                return o;
            }
            while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) o += s[p++];
            return o;
        };
        ws();
        if (id() != "digraph") { error = "no digraph"; return; }
        id(); ws();
        if (p >= s.size() || s[p] != '{') { error = "no body"; return; }
        p++; depth = 1;
        while (error.empty()) {
            ws();
            if (p >= s.size()) { error = "ends too early"; break; }
            if (s[p] == '}') { p++; if (--depth == 0) break; continue; }
            if (s[p] == ';') { p++; continue; }
            std::string a = id();
            if (!error.empty()) break;
            if (a.empty()) { error = "unexpected '" + show(s.substr(p, 20)) + "'"; break; }
            ws();
            if (a == "subgraph") { id(); ws(); if (p >= s.size() || s[p] != '{') { error = "subgraph"; break; } p++; depth++; continue; }
            if (s[p] == '=') { p++; id(); continue; }
            std::string b; bool edge = false;
            if (s.compare(p, 2, "->") == 0) { p += 2; b = id(); edge = true; ws(); if (b.empty()) { error = "edge to nothing"; break; } }
            std::map<std::string, std::string> at;
            ws();
            if (p < s.size() && s[p] == '[') {
                p++;
                for (;;) {
                    ws();
                    if (p >= s.size()) { error = "attributes end too early"; break; }
                    if (s[p] == ']') { p++; break; }
                    if (s[p] == ',') { p++; continue; }
                    std::string k = id(); ws();
                    if (k.empty() || p >= s.size() || s[p] != '=') { error = "attribute near '" + show(s.substr(p > 20 ? p - 20 : 0, 40)) + "'"; break; }
                    p++;
                    at[k] = id();
                    if (!error.empty()) break;
                }
            }
            if (edge) edges.emplace_back(a, b, at["label"]);
            else if (a != "graph" && a != "node" && a != "edge") twice |= !nodes.insert({a, at}).second;
        }
        ws();
        if (error.empty() && p != s.size()) error = "text after the end";
    }
};
// does the printed label stand for these ranges?  A character may be written plainly, escaped or as \\xHH.
static bool eat_char(const std::string &l, size_t p, int v, std::vector<size_t> &out) {
    if (p < l.size() && (unsigned char)l[p] == v && v != '\\' && v != '"') out.push_back(p + 1);
    if (p + 1 < l.size() && l[p] == '\\' && (unsigned char)l[p + 1] == v) out.push_back(p + 2);
    size_t q = p;
    if (l.compare(p, 3, "\\\\x") == 0) q = p + 3;
    if (q > p) {
        unsigned x = 0;
        for (size_t k = q; k < l.size() && k < q + 8 && isxdigit((unsigned char)l[k]); k++) {
            x = x * 16 + (unsigned)strtoul(std::string(1, l[k]).c_str(), 0, 16);
            if (x == (unsigned)v) out.push_back(k + 1);
        }
    }
    return !out.empty();
}
static bool eat_ranges(const std::string &l, size_t p, const std::vector<std::pair<int, int>> &rs, size_t k) {
    if (k == rs.size()) return p + 1 == l.size() && l[p] == ']';
    std::vector<size_t> a;
    eat_char(l, p, rs[k].first, a);
    for (size_t x : a) {
        if (rs[k].first == rs[k].second && eat_ranges(l, x, rs, k + 1)) return true;
        if (x < l.size() && l[x] == '-') {
            std::vector<size_t> b;
            eat_char(l, x + 1, rs[k].second, b);
            for (size_t y : b) if (eat_ranges(l, y, rs, k + 1)) return true;
        }
    }
    return false;
}
// what a diagram has to contain; the label of an edge is a text with the ranges of a class in it
typedef std::vector<std::pair<int, int>> Ranges;
struct WantEdge { std::string from, to, pre, post; Ranges ranges; };
struct WantDot {
    std::map<std::string, std::string> nodes;      // name to label, "*" for any
    std::vector<WantEdge> edges;
    template <typename T> void edge(const std::string &a, const std::string &b, const CharClass<T> &cc, const std::string &pre = "", const std::string &post = "") {
        Ranges rs;
        for (const auto &r : cc) rs.emplace_back((int)(unsigned char)r.start(), (int)(unsigned char)r.end() - 1);
        edges.push_back({a, b, pre, post, rs});
    }
    void plain(const std::string &a, const std::string &b) { edges.push_back({a, b, "", "", {}}); }
};
static bool label_is(const std::string &l, const WantEdge &w) {
    if (l.size() < w.pre.size() + w.post.size() || l.compare(0, w.pre.size(), w.pre) || l.compare(l.size() - w.post.size(), w.post.size(), w.post)) return false;
    std::string m = l.substr(w.pre.size(), l.size() - w.pre.size() - w.post.size());
    if (w.ranges.empty()) return m.empty();
    return !m.empty() && m[0] == '[' && eat_ranges(m, 1, w.ranges, 0);
}
static bool check_dot(const std::string &which, const std::string &text, const std::string &what, const WantDot &want, Dot *out = nullptr) {
    Dot d(text);
    H->inc("diagrams");
    H->inc(which);
    H->inc("edges", d.edges.size());
    if (!d.error.empty()) { H->viol(which + ":syntax", d.error + " in the diagram of " + what + ": " + show(text.substr(0, 600))); return false; }
    for (auto &e : d.edges) if (!d.nodes.count(std::get<0>(e)) || !d.nodes.count(std::get<1>(e))) {
        H->viol(which + ":dangling", "edge " + std::get<0>(e) + " -> " + std::get<1>(e) + " between nodes that are not drawn: " + what);
        return false;
    }
    if (d.twice) { H->viol(which + ":nodes", "a node is drawn twice: " + what); return false; }
    if (d.nodes.size() != want.nodes.size()) { H->viol(which + ":nodes", fmt("%d nodes drawn, %d expected: ", (int)d.nodes.size(), (int)want.nodes.size()) + what); return false; }
    for (auto &n : want.nodes) {
        auto f = d.nodes.find(n.first);
        if (f == d.nodes.end()) { H->viol(which + ":nodes", "no node " + n.first + ": " + what); return false; }
        if (n.second != "*" && f->second["label"] != n.second) { H->viol(which + ":node-label", n.first + " is labelled " + show(f->second["label"]) + ": " + what); return false; }
    }
    std::map<std::pair<std::string, std::string>, std::pair<std::vector<const WantEdge *>, std::vector<std::string>>> g;
    for (auto &e : want.edges) g[{e.from, e.to}].first.push_back(&e);
    for (auto &e : d.edges) g[{std::get<0>(e), std::get<1>(e)}].second.push_back(std::get<2>(e));
    for (auto &p : g) {
        auto &w = p.second.first; auto &l = p.second.second;
        std::string at = p.first.first + " -> " + p.first.second;
        if (w.size() != l.size()) { H->viol(which + ":edges", fmt("%d edges %s drawn, %d expected: ", (int)l.size(), at.c_str(), (int)w.size()) + what); return false; }
        // every label has an edge of its own
        std::vector<int> owner(l.size(), -1);
        std::function<bool(size_t, std::vector<bool> &)> place = [&](size_t k, std::vector<bool> &tried) {
            for (size_t q = 0; q < l.size(); q++) if (!tried[q] && label_is(l[q], *w[k])) {
                tried[q] = true;
                if (owner[q] < 0 || place((size_t)owner[q], tried)) { owner[q] = (int)k; return true; }
            }
            return false;
        };
        for (size_t k = 0; k < w.size(); k++) {
            std::vector<bool> tried(l.size(), false);
            if (!place(k, tried)) { H->viol(which + ":label", "label " + show(l[0]) + " of " + at + " is wrong: " + what); return false; }
            H->inc("labels-read-back");
        }
    }
    if (out) *out = d;
    return true;
}
// the diagram of a rule: rules are drawn in place of their references, down to the depth and not inside themselves
template <typename T> struct WantRule {
    const Grammar<T> &g; WantDot &o; int depth, counter = 0;
    std::vector<Identifier> inside;
    std::pair<std::string, std::string> draw(const Identifier &id) {
        std::string pre = narrow(id.str()) + std::to_string(counter++);
        const auto &m = g[id];
        std::vector<std::pair<std::string, std::string>> ends;
        for (int k = 0; k < m.get_node_num(); k++) {
            const auto &n = m.get_node(k);
            std::string name = pre + "_N" + std::to_string(k);
            if (n.is_nonterminal() && (int)inside.size() < depth && std::find(inside.begin(), inside.end(), n.get_invoke()) == inside.end()) {
                inside.push_back(n.get_invoke());
                ends.push_back(draw(n.get_invoke()));
                inside.pop_back();
                H->inc("rules-in-place");
            } else if (n.type() == ATNNodeType::RegularTerminal) {
                const auto &a = n.get_nfa();
                auto st = [&](int q) { return name + "_S" + std::to_string(q); };
                for (int q = 0; q < a.get_state_num(); q++) { o.nodes[st(q)] = std::to_string(q); for (const auto &t : a.get_transitions(q)) o.edge(st(q), st(t.dest()), t.label()); }
                ends.push_back({st(0), st(a.get_state_num() - 1)});
            } else {
                o.nodes[name] = n.is_nonterminal() ? narrow(n.get_invoke().str()) : "*";
                ends.push_back({name, name});
            }
        }
        for (int k = 0; k < m.get_node_num(); k++) for (const auto &t : m.get_node(k).get_transitions()) o.plain(ends[k].second, ends[t.dest()].first);
        return {ends.front().first, ends.back().second};
    }
};
template <typename A> WantDot want_nfa(const A &nfa) {
    WantDot w;
    for (int q = 0; q < nfa.get_state_num(); q++) { w.nodes[fmt("S%d", q)] = "*"; for (const auto &t : nfa.get_transitions(q)) w.edge(fmt("S%d", q), t.dest() < 0 ? fmt("A%d", -t.dest()) : fmt("S%d", t.dest()), t.label()); }
    return w;
}
template <typename T> void diagrams(uint64_t i, Rng &r) {
    GGram g = make(r, false);
    std::string dir = H->scratch, plain = g_plain(g);
    save(dir + "/main.cgr", plain);
    H->note("", show(plain));
    Grammar<T> gr;
    gr.parse(dir + "/main.cgr");
    clean(dir);
    H->seen("grammars", hash_str(plain));
    for (int k = 0; k < 3; k++) {
        // 0: the root machine alone; then down to some depth; then optimized
        std::wostringstream os;
        Identifier id = k == 1 ? Identifier(widen(g.rules[r.below((uint32_t)g.rules.size())].name)) : gr.get_root_id();
        int depth = k ? r.range(0, 3) : 0;
        if (k == 1) gr.print(os, id, depth); else gr.print_grammar(os, depth, k == 2);
        WantDot w;
        WantRule<T> ref{gr, w, depth};
        bool defined = true;
        try { ref.draw(id); } catch (const std::out_of_range &) { defined = false; }
        if (defined && !check_dot("atn", narrow(os.str()), show(plain), w)) return;
    }
    for (auto &u : g.rules) {
        Identifier id(widen(u.name));
        CompositeATN<T> catn(gr);
        std::wostringstream os;
        gr.print_catn(os, id);
        WantDot want;
        const auto &cm = catn[id];
        for (int k = 0; k < cm.get_num_nodes(); k++) {
            want.nodes[fmt("N%d", k)] = cm[k].is_terminal() ? "*" : narrow(cm[k].get_submachine().str());
            for (const auto &t : cm[k].get_transitions()) want.edge(fmt("N%d", k), fmt("N%d", t.dest()), t.label(), fmt("%d:[", t.tag()), "]");
        }
        if (!check_dot("catn", narrow(os.str()), u.name + " of " + show(plain), want)) return;
        const auto &m = gr[id];
        for (int k = 0; k < m.get_node_num(); k++) {
            ATNPath path(id, k);
            if (m.get_node(k).type() == ATNNodeType::RegularTerminal) {
                const auto &nfa = m.get_node(k).get_nfa();
                std::wostringstream o1, o2;
                gr.print_nfa(o1, path);
                if (!check_dot("nfa", narrow(o1.str()), show(plain), want_nfa(nfa))) return;
                bool opt = r.chance(1, 2);
                gr.print_dfa(o2, path, opt);
                DFA<T> dfa(nfa, opt);
                WantDot wd = want_nfa(dfa);
                wd.nodes["SS"] = "*";
                wd.plain("SS", "S0");
                Dot d("");
                if (!check_dot("dfa", narrow(o2.str()), show(plain), wd, &d)) return;
                for (int q = 0; q < dfa.get_state_num(); q++) if ((d.nodes[fmt("S%d", q)]["shape"] == "doublecircle") != dfa.is_accept_state(q)) { H->viol("dfa:accept", show(plain)); return; }
            } else if (r.chance(1, 8)) {
                std::wostringstream o;
                try { if (r.chance(1, 2)) gr.print_nfa(o, path); else gr.print_dfa(o, path, true); H->viol("nfa:none", "a diagram of a node that has none: " + show(plain)); return; } catch (const SimpleException &) { H->inc("refused"); }
            }
            if (m.get_node(k).get_transitions().size() > 1 && r.chance(1, 2)) {
                RefLL<T> ll(gr);
                if (ll.undefined) continue;
                try { ll.explore(ll.first[ll.rule_of[u.name]] + k, 60); } catch (...) { continue; }
                std::wostringstream o;
                ATNPath cp = catn.convert_atn_path(path);
                gr.print_ldfa(o, cp);
                LookaheadDFA<T> ld(catn, cp);
                WantDot wl = want_nfa(ld);
                for (int q = 1; q <= ld.get_color_num(); q++) wl.nodes[fmt("A%d", q)] = std::to_string(q);
                if (!check_dot("ldfa", narrow(o.str()), show(plain), wl)) return;
            }
        }
    }
    if (i < 2) H->sample(show(plain));
}

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    std::wcerr.setstate(std::ios_base::failbit);      // verdicts are explained there; not needed
    h.loop([&](uint64_t i, Rng &r) {
        int w = (int)r.below(8);
#define RUN(f) (w < 6 ? f<char>(i, r) : w < 8 ? f<unsigned char>(i, r) : void())
        try {
        if (h.mode == "front") RUN(front);
        else if (h.mode == "layout") RUN(layout);
        else if (h.mode == "optimize") RUN(optimize);
        else if (h.mode == "decide") RUN(decide);
        else if (h.mode == "verify") RUN(verify);
        else if (h.mode == "fuzz") RUN(fuzz);
        else if (h.mode == "errors") RUN(errors);
        else if (h.mode == "diagrams") RUN(diagrams);
        else abort();
        } catch (const std::exception &e) { H->viol("exception", std::string(e.what()) + " while: " + (H->status + strlen(H->status) > H->status ? std::string(H->status).substr(0, 900) : "")); clean(H->scratch); }
    });
    return h.finish();
}
