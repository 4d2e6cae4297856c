// Reference for decisions: which alternatives of a decision can go on with what has been read.
//
// A configuration is a stack of call sites (as far as it is known) and a position inside a node.
// When the known stack is empty at the end of a rule, any call site of the rule may follow.
// It is built from the public structure of the parsed machines only; none of Centaurus' closure,
// departure or lookahead code is used.
#pragma once
#include "refregex.hpp"
#include "Grammar.hpp"

namespace vk {

struct Recursion {};           // a decision needs to look through a nested invocation of the same site
struct TooBig {};

template <typename T> struct RefLL {
    typedef Centaurus::ATNNodeType NT;
    struct Node {
        NT type;
        std::basic_string<T> lit;
        std::vector<std::vector<int>> eps;                                  // of the regular expression
        std::vector<std::vector<std::pair<CSet, int>>> out;
        int callee = -1;
        std::vector<std::pair<int, int>> next;                              // global node, tag
        int rule, local;
    };
    std::vector<Node> nodes;
    std::vector<int> first, last;          // per rule
    std::vector<std::string> names;
    std::map<std::string, int> rule_of;
    std::vector<std::vector<int>> callers; // per rule: nodes that invoke it
    bool undefined = false;
    CSet space;
    size_t limit = 900;
    explicit RefLL(const Centaurus::Grammar<T> &g) {
        for (char c : {' ', '\t', '\r', '\n'}) space.set((unsigned char)c);
        std::map<std::string, const Centaurus::ATNMachine<T> *> sorted;
        for (const auto &p : g.get_machines()) sorted[narrow(p.first.str())] = &p.second;
        for (auto &p : sorted) { rule_of[p.first] = (int)names.size(); names.push_back(p.first); }
        for (auto &p : sorted) {
            int base = (int)nodes.size(), n = p.second->get_node_num();
            first.push_back(base); last.push_back(base + n - 1);
            for (int i = 0; i < n; i++) {
                const auto &s = p.second->get_node(i);
                Node d;
                d.type = s.type(); d.rule = (int)first.size() - 1; d.local = i;
                if (d.type == NT::LiteralTerminal) d.lit = s.get_literal();
                if (d.type == NT::Nonterminal) {
                    auto it = rule_of.find(narrow(s.get_invoke().str()));
                    if (it == rule_of.end()) undefined = true; else d.callee = it->second;
                }
                if (d.type == NT::RegularTerminal) {
                    const auto &nfa = s.get_nfa();
                    d.eps.resize(nfa.get_state_num()); d.out.resize(nfa.get_state_num());
                    for (int k = 0; k < nfa.get_state_num(); k++)
                        for (const auto &t : nfa.get_transitions(k)) {
                            if (t.is_epsilon()) { d.eps[k].push_back(t.dest()); continue; }
                            CSet cs;
                            for (int c = 0; c < 255; c++) if (t.label().includes((T)c)) cs.set(c);
                            d.out[k].emplace_back(cs, t.dest());
                        }
                }
                for (const auto &t : s.get_transitions()) d.next.emplace_back(base + t.dest(), t.tag());
                nodes.push_back(d);
            }
        }
        callers.resize(names.size());
        for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].callee >= 0) callers[nodes[i].callee].push_back((int)i);
    }
    typedef std::vector<int> Conf;          // call sites..., node, sub
    std::map<Conf, int> ids;
    std::vector<Conf> confs;
    int intern(const Conf &c) {
        auto p = ids.emplace(c, (int)confs.size());
        if (p.second) confs.push_back(c);
        if (confs.size() > limit) throw TooBig();
        return p.first->second;
    }
    typedef std::set<std::pair<int, int>> CS;   // (configuration, colour)
    // everything reachable without reading, from the configurations in 'work'
    CS close(const CS &work) {
        CS seen = work;
        std::vector<std::pair<int, int>> todo(work.begin(), work.end());
        auto go = [&](const Conf &c, int color) {
            auto e = std::make_pair(intern(c), color);
            if (seen.insert(e).second) todo.push_back(e);
        };
        // enter a node: an invocation goes straight to the rule it invokes
        std::function<void(Conf, int, int)> enter = [&](Conf stack, int node, int color) {
            const Node &d = nodes[node];
            if (d.type == NT::Nonterminal) {
                if (std::find(stack.begin(), stack.end(), node) != stack.end()) throw Recursion();
                stack.push_back(node);
                enter(stack, first[d.callee], color);
                return;
            }
            stack.push_back(node); stack.push_back(0);
            go(stack, color);
        };
        while (!todo.empty()) {
            auto e = todo.back(); todo.pop_back();
            Conf c = confs[e.first];
            int sub = c.back(); c.pop_back();
            int node = c.back(); c.pop_back();
            const Node &d = nodes[node];
            bool done = true;
            if (d.type == NT::LiteralTerminal) done = sub == (int)d.lit.size();
            else if (d.type == NT::RegularTerminal) {
                for (int k : d.eps[sub]) { Conf n = c; n.push_back(node); n.push_back(k); go(n, e.second); }
                done = sub == (int)d.eps.size() - 1;
            }
            if (!done) continue;
            if (node == last[d.rule]) {
                if (!c.empty()) { int site = c.back(); c.pop_back(); for (auto &t : nodes[site].next) enter(c, t.first, e.second); }
                else for (int site : callers[d.rule]) {
                    for (auto &t : nodes[site].next) enter(Conf(), t.first, e.second);
                }
            } else for (auto &t : d.next) enter(c, t.first, e.second);
        }
        return seen;
    }
    // starting sets of a decision: colour i is its i-th way out
    CS decision(int node) {
        CS w;
        std::vector<std::pair<int, int>> starts;
        CS all;
        for (size_t i = 0; i < nodes[node].next.size(); i++) {
            // entering may invoke a rule at once
            Conf stack;
            int n = nodes[node].next[i].first;
            while (nodes[n].type == NT::Nonterminal) {
                if (std::find(stack.begin(), stack.end(), n) != stack.end()) throw Recursion();
                stack.push_back(n);
                n = first[nodes[n].callee];
            }
            stack.push_back(n); stack.push_back(0);
            all.insert({intern(stack), (int)i + 1});
        }
        return close(all);
    }
    void arcs(const Conf &c, const std::function<void(const CSet &, const Conf &)> &f) {
        int node = c[c.size() - 2], sub = c.back();
        const Node &d = nodes[node];
        Conf n = c;
        if (d.type == NT::LiteralTerminal && sub < (int)d.lit.size()) {
            CSet cs; cs.set((unsigned char)d.lit[sub]);
            n.back() = sub + 1;
            f(cs, n);
        } else if (d.type == NT::RegularTerminal) {
            for (auto &p : d.out[sub]) { n.back() = p.second; f(p.first, n); }
        } else if (d.type == NT::WhiteSpace) f(space, n);
    }
    // reads one character; 'tags' of the decision settle collisions; result is not closed
    CS read(const CS &s, int ch, const std::vector<int> &tags) {
        CS o;
        int best = 1 << 30;
        for (auto &e : s) {
            Conf c = confs[e.first];
            arcs(c, [&](const CSet &cs, const Conf &n) {
                if (cs[ch]) { o.insert({intern(n), e.second}); best = std::min(best, tags[e.second - 1]); }
            });
        }
        CS kept;
        for (auto &e : o) if (tags[e.second - 1] == best) kept.insert(e);
        return kept;
    }
    static std::set<int> colors(const CS &s) { std::set<int> o; for (auto &e : s) o.insert(e.second); return o; }
    std::vector<int> atoms(const CS &s) {
        std::vector<CSet> labels;
        for (auto &e : s) { Conf c = confs[e.first]; arcs(c, [&](const CSet &cs, const Conf &) { labels.push_back(cs); }); }
        std::sort(labels.begin(), labels.end(), [](const CSet &a, const CSet &b) { return a.to_string() < b.to_string(); });
        labels.erase(std::unique(labels.begin(), labels.end()), labels.end());
        std::map<std::string, int> rep;
        for (int c = 0; c < 255; c++) {
            std::string sig; bool any = false;
            for (auto &l : labels) { sig += l[c] ? '1' : '0'; any |= l[c]; }
            if (any) rep.emplace(sig, c);
        }
        std::vector<int> v;
        for (auto &p : rep) v.push_back(p.second);
        return v;
    }
    std::vector<int> tags(int node) { std::vector<int> v; for (auto &t : nodes[node].next) v.push_back(t.second); return v; }
    // does settling this decision ever need a nested invocation?  (throws Recursion if so)
    size_t explore(int node, size_t limit) {
        std::vector<int> tg = tags(node);
        std::set<CS> seen;
        std::vector<CS> todo{decision(node)};
        seen.insert(todo[0]);
        for (size_t i = 0; i < todo.size(); i++) {
            if (todo.size() > limit) throw TooBig();
            CS cur = todo[i];
            for (int c : atoms(cur)) {
                CS n = read(cur, c, tg);
                if (colors(n).size() < 2) continue;
                CS cl = close(n);
                if (seen.insert(cl).second) todo.push_back(cl);
            }
        }
        return todo.size();
    }
};

} // namespace vk
