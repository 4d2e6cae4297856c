// Emits the cases of P25: grammar files, good and bad, with what the library itself says of them.
#include "refparse.hpp"
#include "CodeGenEM64T.hpp"
#include <sstream>
typedef unsigned char T;
static std::vector<std::pair<std::string, int>> g_names;
static void CENTAURUS_CALLBACK note_name(const wchar_t *name, int id) { g_names.emplace_back(narrow(name), id); }
static std::string file(Rng &r, uint64_t i) {
    std::string text;
    for (int tries = 0; ; tries++) {
        Made<T> m(r, i);
        if (!m.usable && tries < 40) continue;
        text = m.text;
        break;
    }
    bool pure = true;
    if (r.chance(1, 5)) {
        static const std::vector<std::string> more{"\nZz : '\xe9' ;\n", "\nZz : /[\xe0-\xfc]+/ ;\n", "\nZz : 'a\xc3\xa9z' | /\xff*/ 'q' ;\n"};
        text += r.pick(more);
    }
    if (r.chance(1, 3)) {
        static const std::vector<std::string> bits{";", ":", "'", "/", "(", ")", "|", "[", "]", "*", "\"", "{", "}", "\\", "\xff", "include \"nowhere.cgr\";", "R : 'x' ;", "grammar X;"};
        for (int n = r.range(1, 2); n > 0; n--) {
            size_t p = r.below((uint32_t)text.size() + 1), l = std::min<size_t>(text.size() - p, 1 + r.below(4));
            switch (r.below(4)) {
            case 0: text.erase(p, l); break;
            case 1: text.insert(p, r.pick(bits)); break;
            case 2: text.replace(p, l, r.pick(bits)); break;
            default: text.resize(p);
            }
        }
        pure = false;
    }
    std::string path = H->scratch + "/emit.cgr", o = "{\"text\":" + jstr(text);
    { std::ofstream f(path, std::ios::binary); f << text; }
    H->note("", show(text));
    try {
        Grammar<T> g(path.c_str());
        g_names.clear();
        g.enum_machines(note_name);
        o += ",\"ok\":true,\"names\":{";
        for (size_t k = 0; k < g_names.size(); k++) o += (k ? "," : "") + jstr(g_names[k].first) + fmt(":%d", g_names[k].second);
        o += "},\"prints\":[";
        for (int k = 0; k < 3; k++) {       // as it is read, and after every further optimization
            std::wostringstream w;
            std::string d;
            try {
                g.print_grammar(w, 4, false);
                d = jstr(narrow(w.str()));
            } catch (const std::exception &) {
                d = "null";                 // a rule that is not there
            }
            o += (k ? "," : "") + d;
            g.optimize();
        }
        // code for rules without an end, or that are not there, is no subject here
        o += fmt("],\"code\":%s}", pure ? "true" : "false");
    } catch (const std::exception &e) {
        o += ",\"ok\":false,\"what\":" + jstr(e.what()) + "}";
    }
    unlink(path.c_str());
    return o;
}
int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    h.cpu_limit = 60;
    std::wcerr.setstate(std::ios_base::failbit);
    h.loop([&](uint64_t i, Rng &r) {
        std::string o = fmt("{\"t\":\"case\",\"case\":%d,\"dice\":%u,\"files\":[", (int)i, r.below(1u << 30));
        for (int n = r.range(1, 4), k = 0; k < n; k++) o += (k ? "," : "") + file(r, i);
        puts((o + "]}").c_str());
    });
    return 0;
}
