// P12: the command line tool against the library it fronts.
#include "refparse.hpp"
#include <sys/wait.h>
#include <poll.h>

static std::string g_tool;
static void save(const std::string &p, const std::string &t) { std::ofstream f(p, std::ios::binary); f << t; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }

struct Run { int status = -1; std::string out, err; bool late = false; };
static Run run(const std::vector<std::string> &args) {
    Run o;
    int po[2], pe[2];
    if (pipe(po) || pipe(pe)) abort();
    std::vector<char *> v{(char *)g_tool.c_str()};
    for (auto &a : args) v.push_back((char *)a.c_str());
    v.push_back(nullptr);
    pid_t pid = vfork();
    if (pid == 0) {
        dup2(po[1], 1); dup2(pe[1], 2);
        close(po[0]); close(pe[0]); close(po[1]); close(pe[1]);
        alarm(60);
        execv(g_tool.c_str(), v.data());
        _exit(127);
    }
    close(po[1]); close(pe[1]);
    struct pollfd f[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    for (int open = 2; open;) {
        if (poll(f, 2, 1000) < 0) continue;
        for (int k = 0; k < 2; k++) if (f[k].fd >= 0 && f[k].revents) {
            char b[65536];
            ssize_t n = read(f[k].fd, b, sizeof b);
            if (n <= 0) { close(f[k].fd); f[k].fd = -1; open--; } else (k ? o.err : o.out).append(b, (size_t)n);
        }
    }
    waitpid(pid, &o.status, 0);
    H->inc("runs");
    return o;
}

// what the library has to say
struct Want { int code = 0; std::string out, message; };
typedef std::function<int(std::wostream &)> Action;
static Want library(const Action &a) {
    Want w;
    std::wostringstream os;
    try { w.code = a(os); }
    catch (const std::exception &e) { w.code = 255; w.message = e.what(); }
    w.out = narrow(os.str());
    return w;
}

static bool one(const std::vector<std::string> &cmd, const Want &w, Rng &r, const char *what) {
    std::vector<std::string> a;
    std::string file = H->scratch + "/out.dot";
    int dest = (int)r.below(3);           // to the standard output or to a file, named in front of the command
    if (dest == 1) { a.push_back(r.chance(1, 2) ? "-f" : "--outfile"); a.push_back(file); if (r.chance(1, 2)) save(file, std::string(5000, 'x')); }
    a.insert(a.end(), cmd.begin(), cmd.end());
    std::string line;
    for (auto &x : a) line += " " + show(x);
    H->note("", line);
    H->seen("commands", hash_str(line) ^ hash_str(w.out));
    Run o = run(a);
    int code = WIFEXITED(o.status) ? WEXITSTATUS(o.status) : 1000 + WTERMSIG(o.status);
    std::string got = dest == 1 ? slurp(file) : o.out;
    unlink(file.c_str());
    H->inc(what); H->inc(w.code == 0 ? "succeeded" : w.code == 1 ? "refused" : "failed");
    std::string at = line + " with " + H->extra.back().substr(0, 1500);
    if (code != w.code) { H->viol(std::string(what) + ":code", fmt("exits with %d instead of %d: ", code, w.code) + at + "; " + show(o.err.substr(0, 600))); return false; }
    if (w.code == 0 && got != w.out) { H->viol(std::string(what) + ":output", fmt("writes %d bytes instead of %d, or others: ", (int)got.size(), (int)w.out.size()) + at + ": " + show(got.substr(0, 300))); return false; }
    if (dest == 1 && !o.out.empty()) { H->viol(std::string(what) + ":stdout", "writes to the standard output as well: " + at); return false; }
    if (w.code == 0 && !o.err.empty()) { H->viol(std::string(what) + ":complains", "complains though it succeeds: " + show(o.err.substr(0, 300)) + at); return false; }
    if (w.code != 0 && o.err.empty()) { H->viol(std::string(what) + ":silent", "fails without a message: " + at); return false; }
    if (!w.message.empty() && o.err.find(w.message) == std::string::npos) { H->viol(std::string(what) + ":message", "says \"" + show(o.err.substr(0, 300)) + "\" instead of \"" + w.message + "\": " + at); return false; }
    return true;
}

static void grammar_case(Rng &r) {
    std::string text, path = H->scratch + "/g.cgr";
    if (r.chance(1, 5)) text = r.pick(classics());
    else text = g_plain(r.chance(1, 2) ? make_ll1(r) : make_small(r, true));
    if (r.chance(1, 10)) text[r.below((uint32_t)text.size())] = "(;'%}"[r.below(5)];
    bool gone = r.chance(1, 25);
    if (!gone) save(path, text);
    H->extra = {show(text)};
    std::vector<std::string> rules;
    std::map<std::string, int> nodes;
    try { Grammar<char> g(path.c_str()); for (auto &p : g) { rules.push_back(narrow(p.first.str())); nodes[rules.back()] = p.second.get_node_num(); } }
    catch (const std::exception &) {}
    // looking ahead in an ambiguous grammar has no bound
    bool look = true;
    if (!rules.empty()) {
        Grammar<char> g(path.c_str());
        RefLL<char> ll(g);
        ll.limit = 2000;
        if (!ll.undefined)
            try { for (size_t n = 0; n < ll.nodes.size(); n++) if (ll.nodes[n].next.size() > 1) ll.explore((int)n, 40); }
            catch (Recursion &) {}
            catch (TooBig &) { look = false; H->inc("ambiguous"); }
    }
    std::sort(rules.begin(), rules.end());
    auto G = [&](std::vector<std::string> &v) { v.push_back(r.chance(1, 2) ? "-g" : "--grammar-file"); v.push_back(path); };
    for (int k = r.range(3, 6); k > 0; k--) {
        std::vector<std::string> v, g;
        G(g);
        std::string rule = rules.empty() || r.chance(1, 12) ? "Nothing" : r.pick(rules);
        int node = r.chance(1, 12) ? r.range(0, 60) : rules.empty() ? 0 : (int)r.below((uint32_t)nodes[rule] + 1);
        // a node that has what is asked for, most of the time
        int kind = (int)r.below(6);
        if (!look && (kind == 3 || kind == 5)) kind = 0;
        if (!rules.empty() && r.chance(3, 4)) {
            try {
                Grammar<char> gr(path.c_str());
                for (int t = 0; t < 40; t++) {
                    std::string u = r.pick(rules);
                    const auto &m = gr[Identifier(widen(u))];
                    int n = (int)r.below((uint32_t)m.get_node_num());
                    bool fits = kind == 3 ? m.get_node(n).get_transitions().size() > 1 : m.get_node(n).type() == ATNNodeType::RegularTerminal;
                    if (fits) { rule = u; node = n; break; }
                }
            } catch (const std::exception &) {}
        }
        std::string p = rule + "." + std::to_string(node);
        if (r.chance(1, 20)) p = r.pick(std::vector<std::string>{"", ".", "A", "A.", "A.x", "A.1/", "A.1/B", "A.99999999999999999999", p + " ", p + ".1", "1.A"});
        if (p.empty()) p = "x";
        bool opt = r.chance(1, 2);
        Action a;
        auto O = [&] { if (opt) v.insert(v.begin() + 1 + 2 * (long)r.below((uint32_t)(v.size() - 1) / 2 + 1), "--optimize"); };
        auto two = [&](const std::string &name, const std::string &f, const std::string &x) {
            std::vector<std::string> q{f, x};
            v = {name};
            if (r.chance(1, 2)) { v.insert(v.end(), g.begin(), g.end()); v.insert(v.end(), q.begin(), q.end()); }
            else { v.insert(v.end(), q.begin(), q.end()); v.insert(v.end(), g.begin(), g.end()); }
        };
        // the pattern at a path, from the public structure of the grammar
        auto pattern = [](const Grammar<char> &q, const ATNPath &at) -> const NFA<char> & {
            const auto &n = q[at.leaf_id()].get_node(at.leaf_index());
            if (n.type() != ATNNodeType::RegularTerminal) throw SimpleException("The specified node is not an NFA.");
            return n.get_nfa();
        };
        auto open = [&] { return std::unique_ptr<Grammar<char>>(new Grammar<char>(path.c_str())); };
        switch (kind) {
        case 0: {
            int d = r.range(0, 5);
            two("generate-atn", r.chance(1, 2) ? "-d" : "--max-depth", std::to_string(d)); O();
            a = [&, d, opt](std::wostream &os) { auto q = open(); if (opt) q->optimize(); q->print(os, q->get_root_id(), d); return 0; };
            if (!one(v, library(a), r, "generate-atn")) return;
            break;
        }
        case 1:
            two("generate-catn", r.chance(1, 2) ? "-m" : "--machine", rule);
            a = [&, rule](std::wostream &os) { auto q = open(); CompositeATN<char> c(*q); Identifier id(widen(rule)); c[id].print(os, id.str()); return 0; };
            if (!one(v, library(a), r, "generate-catn")) return;
            break;
        case 2:
            two("generate-nfa", r.chance(1, 2) ? "-p" : "--path", p);
            a = [&, p](std::wostream &os) { auto q = open(); ATNPath at(widen(p)); pattern(*q, at).print(os, at.leaf_id().str()); return 0; };
            if (!one(v, library(a), r, "generate-nfa")) return;
            break;
        case 3:
            two("generate-ldfa", r.chance(1, 2) ? "-p" : "--path", p);
            a = [&, p](std::wostream &os) { auto q = open(); ATNPath at(widen(p)); CompositeATN<char> c(*q); LookaheadDFA<char> l(c, at); l.print(os, at.leaf_id().str()); return 0; };
            if (!one(v, library(a), r, "generate-ldfa")) return;
            break;
        case 4:
            two("generate-dfa", r.chance(1, 2) ? "-p" : "--path", p); O();
            a = [&, p, opt](std::wostream &os) { auto q = open(); ATNPath at(widen(p)); DFA<char>(pattern(*q, at), opt).print(os, at.leaf_id().str()); return 0; };
            if (!one(v, library(a), r, "generate-dfa")) return;
            break;
        default:
            v = {"verify-grammar"}; v.insert(v.end(), g.begin(), g.end());
            a = [&](std::wostream &) { auto q = open(); return ((IGrammar *)q.get())->verify() ? 0 : 1; };
            if (!one(v, library(a), r, "verify-grammar")) return;
        }
    }
    unlink(path.c_str());
}

static void pattern_case(Rng &r) {
    RxGen g(r, 12);
    std::string rx = rx_print(g.regex(r.range(0, 3), 4));
    if (r.chance(1, 6)) { static const std::vector<std::string> v{"\xc3\xa9", "[\x80-\xff]", "\xe9*a", "a\xff+", "(\xa0|b)", "[^\xc3]"}; rx = r.pick(v) + (r.chance(1, 2) ? rx : ""); }
    if (r.chance(1, 10)) rx = mutate(r, rx, "()[]*\\-|");
    rx.erase(std::remove(rx.begin(), rx.end(), '\0'), rx.end());
    // an argument that begins with a dash is an option to the tool
    if (rx.empty() || rx[0] == '-') rx = "a" + rx;
    H->extra = {"/" + show(rx) + "/"};
    std::vector<std::string> v{r.chance(1, 2) ? "generate-nfa" : "generate-dfa", "-e", rx};
    bool dfa = v[0] == "generate-dfa", opt = dfa && r.chance(1, 2);
    if (opt) { if (r.chance(1, 2)) v.push_back("--optimize"); else v.insert(v.begin() + 1, "--optimize"); }
    Want w = library([&](std::wostream &os) {
        Stream s(widen(rx));
        NFA<char> n(s);
        if (dfa) DFA<char>(n, opt).print(os, L"DFA"); else n.print(os, L"NFA");
        return 0;
    });
    if (!w.message.empty()) w.out.clear();
    one(v, w, r, "pattern");
}

// as the manual has it: the output file is named behind the command
static void behind_case(Rng &r) {
    std::string file = H->scratch + "/behind.dot", path = H->scratch + "/g.cgr";
    save(path, "S : 'a' A* ;\nA : /b+/ ;\n");
    static const std::vector<std::vector<std::string>> good{{"generate-nfa", "-e", "ab"}, {"generate-dfa", "-e", "ab"}, {"generate-atn", "-g", "@", "-d", "2"}, {"generate-catn", "-g", "@", "-m", "S"}, {"verify-grammar", "-g", "@"}};
    std::vector<std::string> v = r.pick(good);
    for (auto &x : v) if (x == "@") x = path;
    v.push_back("-f"); v.push_back(file);
    Run o = run(v);
    H->inc("behind");
    if (o.status) H->viol("outfile-behind-the-command", v[0] + " ... -f FILE, as in the manual, is refused with the usage");
    unlink(file.c_str()); unlink(path.c_str());
}

static void misuse_case(Rng &r) {
    if (r.chance(1, 8)) return behind_case(r);
    std::string path = H->scratch + "/g.cgr", no = H->scratch + "/no/out.dot";
    save(path, "S : 'a' A* ;\nA : /b+/ ;\n");
    H->extra = {"-"};
    static const std::vector<std::vector<std::string>> bad{
        {}, {"generate"}, {"generate-atn"}, {"generate-atn", "-g", "@"}, {"generate-atn", "-d", "3"}, {"generate-atn", "-g", "@", "-d", "x"}, {"generate-catn", "-g", "@"}, {"generate-catn"},
        {"generate-catn", "-m", "S"}, {"generate-nfa"}, {"generate-nfa", "-g", "@"}, {"generate-nfa", "-p", "A.1"}, {"generate-nfa", "-e"}, {"generate-ldfa", "-g", "@"}, {"generate-dfa", "--optimize"},
        {"verify-grammar"}, {"verify-grammar", "-g"}, {"verify-grammar", "-g", "@", "--nonsense"}, {"-g", "@"}, {"verify-grammar", "generate-atn", "-g", "@"}, {"generate-nfa", "-e", "a", "-e", "b"},
        {"generate-dfa", "-g", "@", "-e", "a"}};
    std::vector<std::string> v = r.pick(bad);
    for (auto &x : v) if (x == "@") x = path;
    if (r.chance(1, 3)) {
        // an output file that cannot be written
        std::vector<std::string> q = r.chance(1, 2) ? std::vector<std::string>{"generate-nfa", "-e", "ab"} : std::vector<std::string>{"generate-atn", "-g", path, "-d", "2"};
        v = {"-f", no};
        v.insert(v.end(), q.begin(), q.end());
    }
    std::string line;
    for (auto &x : v) line += " " + x;
    H->note("", line);
    Run o = run(v);
    int code = WIFEXITED(o.status) ? WEXITSTATUS(o.status) : 1000 + WTERMSIG(o.status);
    H->inc("misuses");
    if (code != 255 || o.err.empty() || !o.out.empty()) H->viol("misuse", fmt("exits with %d after ", code) + line + ": " + show(o.err.substr(0, 300)));
    unlink(path.c_str());
}

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    for (size_t k = 0; k + 1 < h.extra.size(); k++) if (h.extra[k] == "--tool") g_tool = h.extra[k + 1];
    signal(SIGPIPE, SIG_IGN);
    std::wcerr.setstate(std::ios_base::failbit);
    h.loop([&](uint64_t i, Rng &r) {
        int k = (int)(i % 8);
        if (k < 5) grammar_case(r); else if (k < 7) pattern_case(r); else misuse_case(r);
        if (i < 6) H->sample(std::string(H->status).substr(0, 800));
    });
    return h.finish();
}
