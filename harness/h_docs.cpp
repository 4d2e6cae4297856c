// P24: the grammars that come with Centaurus, on documents of the kinds they are made for.
// A generator writes a document together with the tree it is to have; a C++ context reads the document with the grammar file.
#include "common.hpp"
#include "Grammar.hpp"
#include "CodeGenEM64T.hpp"
#include "Context.hpp"
#include <mutex>
#include <memory>
#include <fstream>
using namespace Centaurus;
using namespace vk;
static Harness *H;
static std::string grammars;

// ---- trees: the extents of a symbol include the blanks in front of it
struct Tree { int rule; size_t start, end; std::vector<std::unique_ptr<Tree>> kids; };
static const size_t RULES = 24;
struct Kind { const char *file; std::vector<const char *> names; };
enum { JSON, CALC, LOTS, EAGER, DBLP, SCHEMA, XML, KINDS };
static const Kind kinds[KINDS] = {
    {"json.cgr", {"Object", "Number", "String", "List", "DictEntry", "Dict", "False", "True", "Null"}},
    {"calc.cgr", {"INPUT", "EXPR", "TERM", "FACT"}},
    {"citylots.cgr", {"RootObject", "FeatureList", "FeatureDict", "PropertyDict", "TargetPropertyEntry", "OtherPropertyEntry", "TargetPropertyKey", "OtherPropertyKey",
                      "TargetPropertyValue", "OtherPropertyValue", "Object", "Number", "String", "List", "DictEntry", "Dict", "False", "True", "Null"}},
    {"citylots_eager.cgr", {"RootObject", "FeatureList", "FeatureObject", "TargetFeatureObject", "OtherFeatureObject", "TargetPropertyDictionary", "OtherPropertyDictionary",
                            "Object", "Number", "String", "List", "DictEntry", "Dict", "False", "True", "Null"}},
    {"dblp.cgr", {"Document", "XmlDecl", "DocType", "DblpRoot", "Article", "NonArticle", "NonArticleName", "YearInfo", "TargetYearInfo", "OtherYearInfo", "NonYearInfo",
                  "NonYearInfoName", "HtmlContent", "HtmlElemName", "Text", "Attribute", "AttrName", "Value"}},
    {"dblp_schema.cgr", {"Document", "XmlDecl", "DocType", "DblpRoot", "PubRecord", "PubRecordName", "BibInfo", "BibInfoName", "FlatBibInfo", "FlatBibInfoName", "HtmlBibInfo",
                         "HtmlBibInfoName", "HtmlContent", "HtmlElemName", "Text", "Attribute", "AttrName", "Value"}},
    {"xml.cgr", {"Document", "XmlDecl", "DocType", "Comment", "Element", "ElementBody", "Content", "Attribute", "Name", "Value"}},
};

struct Writer {
    Rng &r; const Kind &k; int blanks;      // of 8 places, how many have blanks
    size_t budget;
    std::string w;
    std::unique_ptr<Tree> root;
    std::vector<Tree *> open_;
    Writer(Rng &r, const Kind &k, int blanks, size_t budget) : r(r), k(k), blanks(blanks), budget(budget) {}
    bool more(int num, int den) { return w.size() < budget && r.chance(num, den); }
    int rule(const char *name) {
        for (size_t i = 0; i < k.names.size(); i++) if (!strcmp(k.names[i], name)) return (int)i;
        abort();
    }
    void open(const char *name) {
        std::unique_ptr<Tree> t(new Tree{rule(name), w.size(), 0, {}});
        Tree *p = t.get();
        if (open_.empty()) root = std::move(t); else open_.back()->kids.push_back(std::move(t));
        open_.push_back(p);
    }
    void close() { open_.back()->end = w.size(); open_.pop_back(); }
    void gap() {
        if (!r.chance(blanks, 8)) return;
        for (int n = r.chance(1, 8) ? r.range(1, 40) : r.range(1, 3); n > 0; n--) w += " \t\r\n"[r.below(4)];
    }
    void t(const std::string &s) { gap(); w += s; }      // a terminal
    void tight(const std::string &s) { w += s; }         // a terminal with no blanks in front of it
    void leaf(const char *name, const std::string &s) { open(name); t(s); close(); }

    // ---- JSON
    std::string digits(int least) { std::string s; for (int n = r.chance(1, 10) ? r.range(least, 40) : r.range(least, 4); n > 0; n--) s += (char)('0' + r.below(10)); return s; }
    std::string number() {
        std::string s = r.chance(1, 3) ? "-" : "";
        s += digits(1);
        if (r.chance(1, 3)) { s += "."; s += digits(0); }
        return s;
    }
    std::string chars(const char *not_these, int most) {
        std::string s;
        for (int n = r.chance(1, 12) ? r.range(0, 10 * most) : r.range(0, most); n > 0; n--) {
            char c;
            do c = r.chance(1, 10) ? (char)r.range(1, 254) : (char)r.range(32, 126); while (strchr(not_these, c));
            s += c;
        }
        return s;
    }
    std::string string() {
        std::string s = "\"";
        for (int n = r.range(0, 3); n >= 0; n--) { s += chars("\"\\", 8); if (n && r.chance(1, 3)) s += "\\\""; }
        return s + "\"";
    }
    void dict_entry(int depth) { open("DictEntry"); leaf("String", string()); t(":"); object(depth - 1); close(); }
    void object(int depth) {
        open("Object");
        switch (r.below(depth > 0 ? 9 : 5)) {
        case 0: leaf("Number", number()); break;
        case 1: leaf("String", string()); break;
        case 2: leaf("False", "false"); break;
        case 3: leaf("True", "true"); break;
        case 4: leaf("Null", "null"); break;
        case 5: case 6:
            open("List"); t("[");
            if (r.chance(5, 6)) { object(depth - 1); while (more(2, 3)) { t(","); object(depth - 1); } }
            t("]"); close();
            break;
        default:
            open("Dict"); t("{");
            if (r.chance(5, 6)) { dict_entry(depth); while (more(2, 3)) { t(","); dict_entry(depth); } }
            t("}"); close();
        }
        close();
    }
    // ---- sums and products
    void expr(int depth) { open("EXPR"); term(depth); if (more(1, 2)) { t("+"); expr(depth); } close(); }
    void term(int depth) { open("TERM"); fact(depth); if (more(1, 2)) { t("*"); term(depth); } close(); }
    void fact(int depth) { open("FACT"); if (depth > 0 && more(1, 2)) { t("("); expr(depth - 1); t(")"); } else t(digits(1)); close(); }
    // ---- city lots
    void head(const char *kind) { t("{"); t("\"type\""); t(":"); t(std::string("\"") + kind + "\""); t(","); }
    // a string in quotes that is not, does not begin with and is no beginning of the given word
    std::string other(const std::string &word) {
        for (;;) {
            std::string s = r.chance(1, 2) ? word.substr(0, r.below((uint32_t)word.size())) : "";
            s += chars("\"\\", 8);
            if (s.empty()) continue;
            if (word.compare(0, s.size(), s) == 0 || s.compare(0, word.size(), word) == 0) continue;
            return "\"" + s + "\"";
        }
    }
    void features(int depth, bool eager) {
        open("RootObject"); head("FeatureCollection"); t("\"features\""); t(":");
        open("FeatureList"); t("["); feature(depth, eager); while (more(3, 4)) { t(","); feature(depth, eager); } t("]"); close();
        t("}"); close();
    }
    void property() {
        int what = (int)r.below(6);
        if (what == 0) {
            open("TargetPropertyEntry"); leaf("TargetPropertyKey", "\"STREET\""); t(":"); open("TargetPropertyValue"); t("\"JEFFERSON\""); close(); close();
        } else if (what < 3) {
            open("OtherPropertyEntry"); leaf("TargetPropertyKey", "\"STREET\""); t(":");
            if (r.chance(1, 4)) { open("Null"); t("null"); close(); } else { open("OtherPropertyValue"); t(other("JEFFERSON")); close(); }
            close();
        } else {
            open("OtherPropertyEntry"); leaf("OtherPropertyKey", other("STREET")); t(":");
            if (r.chance(1, 4)) leaf("Null", "null"); else leaf("String", string());
            close();
        }
    }
    void feature(int depth, bool eager) {
        if (eager) { eager_feature(depth); return; }
        open("FeatureDict"); head("Feature"); t("\"properties\""); t(":");
        open("PropertyDict"); t("{"); property(); while (more(2, 3)) { t(","); property(); } t("}"); close();
        t(","); t("\"geometry\""); t(":"); object(depth);
        t("}"); close();
    }
    void eager_feature(int depth) {
        bool target = r.chance(1, 2);
        open("FeatureObject"); open(target ? "TargetFeatureObject" : "OtherFeatureObject");
        t("{"); t("\"type\""); t(":"); t("\"Feature\""); t(","); t("\"properties\""); t(":");
        open(target ? "TargetPropertyDictionary" : "OtherPropertyDictionary");
        t("{");
        static const char *keys[] = {"MAPBLKLOT", "BLKLOT", "BLOCK_NUM", "LOT_NUM", "FROM_ST", "TO_ST", "STREET"};
        for (int i = 0; i < 7; i++) {
            if (i) t(",");
            t(std::string("\"") + keys[i] + "\""); t(":");
            if (i == 6) { if (target) t("\"JEFFERSON\""); else t(r.chance(1, 5) ? "null" : other("JEFFERSON")); }
            else if (i >= 4 && r.chance(1, 4)) { open("Null"); t("null"); close(); }
            else { open("String"); t(string()); close(); }
        }
        while (more(1, 2)) { t(","); dict_entry(2); }
        t("}"); close();
        t(","); t("\"geometry\""); t(":"); object(depth); t("}"); close(); close();
    }
    // ---- bibliographies
    std::string name() {
        std::string s(1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[r.below(52)]);
        for (int n = r.range(0, 9); n > 0; n--) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[r.below(63)];
        return s;
    }
    void value() { leaf("Value", "\"" + chars("\"", 10) + "\""); }
    const char *attribute = "AttrName";
    void attributes() {
        while (r.chance(1, 3)) { open("Attribute"); open(attribute); w += " \t\r\n"[r.below(4)]; t(name()); close(); t("="); value(); close(); }
    }
    void text(const char *rule = "Text") { open(rule); std::string s = chars("<", 12); t(s.substr(std::min(s.size(), s.find_first_not_of(" \t\r\n")))); close(); }
    // a text takes the blanks behind it
    void tag(const char *rule, const std::vector<const char *> &names, bool attrs, bool behind_text = false) {
        if (behind_text) tight("<"); else t("<"); open(rule); t(r.pick(names)); close(); if (attrs) attributes(); t(">");
    }
    void closing(bool behind_text = true) { std::string s = "</" + std::string(r.pick(std::vector<const char *>{"x", "article", "title", "i", "sub", "www", "publisher"})) + ">"; if (behind_text) tight(s); else t(s); }
    void html(int depth) {
        open("HtmlContent"); tag("HtmlElemName", {"i", "sub", "sup", "tt", "ref"}, false, true);
        text(); while (depth > 0 && more(1, 3)) { html(depth - 1); text(); }
        closing(); close();
    }
    void comment() {
        std::string s;
        do { s = chars("", 12); s.erase(0, s.find_first_not_of(" \t\r\n")); } while (s.find("--") != s.npos || (!s.empty() && s.back() == '-'));
        open("Comment"); t("<!--"); t(s); tight("-->"); close();
    }
    void element(int depth, bool behind_text) {
        open("Element"); if (behind_text) tight("<"); else t("<"); leaf("Name", name()); attributes();
        open("ElementBody");
        if (r.chance(1, 4)) t("/>");
        else {
            t(">"); text("Content"); while (depth > 0 && more(1, 2)) { element(depth - 1, true); text("Content"); }
            tight("</"); leaf("Name", name()); t(">");
        }
        close(); close();
    }
    void xml() {
        attribute = "Name";
        open("Document");
        if (r.chance(1, 2)) { open("XmlDecl"); t("<?xml"); attributes(); t("?>"); close(); }
        while (r.chance(1, 3)) comment();
        if (r.chance(1, 2)) {
            open("DocType"); t("<!DOCTYPE"); leaf("Name", name()); w += r.chance(1, 2) ? ' ' : '\n'; t("SYSTEM"); value(); t(">"); close();
            while (r.chance(1, 3)) comment();
        }
        do element(r.range(0, 6), false); while (more(1, 2));
        close();
    }
    void document(bool schema) {
        open("Document");
        open("XmlDecl"); t("<?xml"); attributes(); t("?>"); close();
        open("DocType"); t("<!DOCTYPE"); t("dblp"); t("SYSTEM"); value(); t(">"); close();
        open("DblpRoot"); t("<dblp>");
        while (more(3, 4)) schema ? record() : publication();
        t("</dblp>"); close(); close();
    }
    void publication() {
        if (r.chance(1, 2)) {
            open("Article"); t("<article"); attributes(); t(">");
            while (more(2, 3)) info();
            t("</article>"); close();
        } else {
            open("NonArticle"); tag("NonArticleName", {"book", "incollection", "inproceedings", "mastersthesis", "phdthesis", "proceedings", "www"}, true);
            while (more(2, 3)) info();
            closing(false); close();
        }
    }
    void info() {
        if (r.chance(1, 3)) {
            open("YearInfo");
            if (r.chance(1, 2)) leaf("TargetYearInfo", "<year>1990</year>");
            else {
                std::string y;
                do { y = r.chance(1, 2) ? std::to_string(r.range(1936, 2026)) : digits(1); if (y.size() < 4) y = "0" + y; } while (y.compare(0, 4, "1990") == 0);
                open("OtherYearInfo"); t("<year>"); t(y); t("</year>"); close();
            }
            close();
        } else {
            open("NonYearInfo");
            tag("NonYearInfoName", {"address", "author", "cdrom", "chapter", "cite", "crossref", "editor", "ee", "isbn", "journal", "month", "note", "number", "pages",
                                    "publisher", "school", "series", "url", "volume", "booktitle", "title"}, true);
            text(); while (more(1, 3)) { html(2); text(); }
            closing(); close();
        }
    }
    void record() {
        open("PubRecord");
        tag("PubRecordName", {"article", "book", "incollection", "inproceedings", "mastersthesis", "phdthesis", "proceedings", "www"}, true);
        while (more(2, 3)) {
            open("BibInfo");
            if (r.chance(1, 2)) {
                open("FlatBibInfo");
                tag("FlatBibInfoName", {"address", "author", "cdrom", "chapter", "cite", "crossref", "editor", "ee", "isbn", "journal", "month", "note", "number", "pages",
                                        "publisher", "school", "series", "url", "volume", "year"}, true);
                text(); closing(); close();
            } else {
                open("HtmlBibInfo"); tag("HtmlBibInfoName", {"booktitle", "title"}, true);
                text(); while (more(1, 3)) { html(2); text(); }
                closing(); close();
            }
            close();
        }
        closing(false); close();
    }
};

// ---- a recognizer for the two small languages: is there a document at the beginning of the text?
struct Judge {
    const std::string &w; size_t p = 0;
    Judge(const std::string &w) : w(w) {}
    struct No {};
    char at() { return p < w.size() ? w[p] : 0; }
    void skip() { while (p < w.size() && strchr(" \t\r\n", w[p])) p++; }
    char peek() { skip(); return at(); }
    void want(const char *s) { skip(); size_t n = strlen(s); if (w.compare(p, n, s)) throw No(); p += n; }
    bool digit() { return at() >= '0' && at() <= '9'; }
    void string() {
        want("\"");
        for (;;) {
            char c = at();
            if (!c) throw No();
            if (c == '"') { p++; return; }
            if (c == '\\') { p++; if (at() != '"') throw No(); }
            p++;
        }
    }
    void object() {
        char c = peek();
        if (c == '"') string();
        else if (c == '[') {
            want("[");
            if (peek() == ']') { want("]"); return; }
            for (object(); peek() == ','; ) { want(","); object(); }
            want("]");
        } else if (c == '{') {
            want("{");
            if (peek() == '}') { want("}"); return; }
            for (entry(); peek() == ','; ) { want(","); entry(); }
            want("}");
        } else if (c == 'f') want("false");
        else if (c == 't') want("true");
        else if (c == 'n') want("null");
        else {
            if (c == '-') p++;
            if (!digit()) throw No();
            while (digit()) p++;
            if (at() == '.') p++;
            while (digit()) p++;
        }
    }
    void entry() { string(); want(":"); object(); }
    void expr() { term(); if (peek() == '+') { want("+"); expr(); } }
    void term() { fact(); if (peek() == '*') { want("*"); term(); } }
    void fact() {
        if (peek() == '(') { want("("); expr(); want(")"); return; }
        if (!digit()) throw No();
        while (digit()) p++;
    }
};
static bool judge(int kind, const std::string &w) {
    Judge j(w);
    try { if (kind == JSON) j.object(); else { j.expr(); j.want("="); } } catch (Judge::No &) { return false; }
    return true;
}

// ---- the calls
struct Node { int rule; const char *start, *end; std::vector<Node *> args; std::string text; };
static struct Calls {
    std::mutex lock;
    std::vector<std::unique_ptr<Node>> nodes;
    std::string bad;
} calls;
template <int K> static void *on_rule(const SymbolContext<char> &c) {
    std::unique_ptr<Node> n(new Node{K, c.start(), c.end(), {}, c.read()});
    for (int i = 1; i <= c.count(); i++) n->args.push_back(c.value<Node>(i));
    Node *v = n.get();
    std::lock_guard<std::mutex> g(calls.lock);
    if (v->text != std::string(c.start(), c.end()) && calls.bad.empty()) calls.bad = fmt("rule %d: text and extent differ", K);
    calls.nodes.push_back(std::move(n));
    return v;
}
template <int K> struct Fill { static void in(CppReductionCallback<char> *t) { t[K] = on_rule<K>; Fill<K - 1>::in(t); } };
template <> struct Fill<-1> { static void in(CppReductionCallback<char> *) {} };

static std::string differ(const Kind &k, const Tree &want, const Node &got, const char *base, const std::string &w) {
    long s = (long)(got.start - base), e = (long)(got.end - base);
    auto text = [&](long a, long b) { return "\"" + show(w.substr((size_t)a, (size_t)std::min<long>(b - a, 200))) + "\""; };
    if (got.rule != want.rule) return fmt("%s at %ld where %s is at %ld", k.names[(size_t)got.rule], s, k.names[(size_t)want.rule], (long)want.start);
    if (s != (long)want.start || e != (long)want.end) return fmt("%s extends over %ld-%ld, not %ld-%ld, which is ", k.names[(size_t)want.rule], s, e, (long)want.start, (long)want.end) + text((long)want.start, (long)want.end);
    if (got.args.size() != want.kids.size()) return fmt("%s at %ld has %d parts, not %d", k.names[(size_t)want.rule], s, (int)got.args.size(), (int)want.kids.size());
    for (size_t i = 0; i < want.kids.size(); i++) {
        if (!got.args[i]) return fmt("%s at %ld has no value for part %d", k.names[(size_t)want.rule], s, (int)i);
        std::string d = differ(k, *want.kids[i], *got.args[i], base, w);
        if (!d.empty()) return d;
    }
    return "";
}
static size_t count(const Tree &t) { size_t n = 1; for (auto &k : t.kids) n += count(*k); return n; }

static void one(uint64_t i, Rng &r) {
    int kind = i % 40 == 7 ? EAGER : std::vector<int>{JSON, JSON, CALC, LOTS, DBLP, SCHEMA, XML}[i % 7];
    const Kind &k = kinds[kind];
    std::string gpath = grammars + "/" + k.file, ipath = H->scratch + "/document";
    H->note("", "reading " + gpath);
    static const int sizes[] = {8, 16, 24, 32, 64, 256, 1024, 4096};
    vkjit::page().hits = 0;
    int page = sizes[r.below(8)];
    vkjit::page().size = (size_t)page;
    Context<char> ctx(gpath.c_str());
    vkjit::page() = vkjit::Page();
    CppReductionCallback<char> table[RULES];
    Fill<(int)RULES - 1>::in(table);
    for (size_t n = 0; n < k.names.size(); n++) ctx.attach(Identifier(widen(k.names[n])), table[n]);
    for (int round = kind == EAGER ? 12 : r.range(4, 10); round > 0; round--) {
        static const size_t budgets[] = {40, 200, 1000, 6000};
        Writer d(r, k, r.chance(1, 3) ? 0 : r.range(1, 6), budgets[r.below(4)]);
        switch (kind) {
        case JSON: d.object(r.range(0, 8)); break;
        case CALC: d.open("INPUT"); d.expr(r.range(0, 6)); d.t("="); d.close(); break;
        case LOTS: case EAGER: d.features(r.range(0, 4), kind == EAGER); break;
        case XML: d.xml(); break;
        default: d.document(kind == SCHEMA);
        }
        std::string w = d.w;
        bool damaged = false, ok = true;
        if (kind <= CALC && !judge(kind, w)) { H->viol("harness", "the recognizer refuses \"" + show(w.substr(0, 2000)) + "\""); return; }
        if (kind <= CALC && r.chance(1, 3)) {
            static const std::vector<std::string> bits{"[", "]", "{", "}", ",", ":", "\"", "\\", "null", "true", "0", "-", ".", "1", "x", " ", "+", "*", "(", ")", "=", "\xfe"};
            for (int n = r.range(1, 3); n > 0; n--) {
                size_t p = r.below((uint32_t)w.size() + 1), l = std::min<size_t>(w.size() - p, r.below(4));
                switch (r.below(4)) {
                case 0: w.erase(p, l); break;
                case 1: w.insert(p, r.pick(bits)); break;
                case 2: w.replace(p, l, r.pick(bits)); break;
                default: w.resize(p);
                }
            }
            damaged = true;
            ok = judge(kind, w);
        }
        if (w.empty()) continue;
        int workers = r.range(1, r.chance(1, 4) ? 6 : 3);
        H->note("", std::string(k.file) + fmt(", %d workers, pages of %d bytes, \"", workers, page) + show(w.substr(0, 12000)) + "\"");
        std::string at = std::string(H->status).substr(0, 3000);
        { std::ofstream f(ipath, std::ios::binary); f << w; }
        calls.nodes.clear(); calls.bad.clear();
        ctx.parse(ipath.c_str(), workers);
        unlink(ipath.c_str());
        H->inc("documents"); H->inc(k.file); H->inc("calls", calls.nodes.size());
        if (damaged) H->inc(ok ? "damaged-accepted" : "rejected");
        H->seen("documents", hash_str(w));
        if (!calls.bad.empty()) { H->viol("text", calls.bad + ": " + at); return; }
        // the call for the whole document is the last one; one for less of it is not
        Node *top = calls.nodes.empty() ? nullptr : calls.nodes.back().get();
        if (top && top->rule) top = nullptr;
        if (!ok) {
            // parts of it may be complete, but nothing that begins with it
            for (auto &n : calls.nodes)
                if (n->rule == 0 && w.compare(0, n->text.size(), n->text) == 0) { H->viol("rejected", std::string(k.names[0]) + " was called for what is none: " + at); return; }
            continue;
        }
        if (kind == XML) {
            // a document is never complete, since it may always go on; but its parts are
            std::set<Node *> used;
            std::vector<Node *> tops;
            for (auto &n : calls.nodes) used.insert(n->args.begin(), n->args.end());
            for (auto &n : calls.nodes) if (!used.count(n.get())) tops.push_back(n.get());
            std::sort(tops.begin(), tops.end(), [](Node *a, Node *b) { return a->start < b->start; });
            if (tops.size() != d.root->kids.size()) { H->viol("tree", fmt("%d calls for parts of the document, not %d: ", (int)tops.size(), (int)d.root->kids.size()) + at); return; }
            for (size_t n = 0; n < tops.size(); n++) {
                std::string no = differ(k, *d.root->kids[n], *tops[n], tops[0]->start, w);
                if (!no.empty()) { H->viol("tree", no + ": " + at); return; }
            }
            continue;
        }
        if (!top) { H->viol("accepted", std::string(k.names[0]) + " was not called for all of: " + at); return; }
        if (damaged) continue;
        if (calls.nodes.size() != count(*d.root)) { H->viol("tree", fmt("%d calls, not %d: ", (int)calls.nodes.size(), (int)count(*d.root)) + at); return; }
        std::string no = differ(k, *d.root, *top, top->start, w);
        if (!no.empty()) { H->viol("tree", no + ": " + at); return; }
        if (i < 6) H->sample(at.substr(0, 400));
    }
}

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    for (size_t i = 0; i + 1 < h.extra.size(); i++) if (h.extra[i] == "--grammars") grammars = h.extra[i + 1];
    h.cpu_limit = 120;
    std::wcerr.setstate(std::ios_base::failbit);
    h.loop([&](uint64_t i, Rng &r) {
        try { one(i, r); }
        catch (const vkjit::Fault &e) { vkjit::page() = vkjit::Page(); H->viol("fault", std::string(e.what()) + " while: " + std::string(H->status).substr(0, 1500)); }
        catch (const std::exception &e) { vkjit::page() = vkjit::Page(); H->viol("exception", std::string(e.what()) + " while: " + std::string(H->status).substr(0, 1500)); }
    });
    return h.finish();
}
