// P01: character classes against plain sets of code points.
#include "common.hpp"
#include "CharClass.hpp"
#include <sstream>
using namespace Centaurus;
using namespace vk;

template <typename T> struct Dom { static const int N = 255; };        // 0..254: the maximum is reserved
template <> struct Dom<wchar_t> { static const int N = 0x600; };

template <typename T> using Set = std::vector<bool>;

template <typename T> struct Obj { CharClass<T> cc; Set<T> s; std::string how; };

static Harness *H;
static std::string KIND;

template <typename T> std::string show_set(const Set<T> &s) {
    std::string o;
    for (int i = 0; i < (int)s.size(); i++) if (s[i]) {
        int j = i;
        while (j + 1 < (int)s.size() && s[j + 1]) j++;
        o += fmt(i == j ? "%d " : "%d-%d ", i, j);
        i = j;
    }
    return "{" + o + "}";
}
template <typename T> std::string show_cc(const CharClass<T> &c) {
    std::string o;
    for (const auto &r : c) o += fmt("[%ld,%ld)", (long)r.start(), (long)r.end());
    return o.empty() ? "(none)" : o;
}

template <typename T> bool audit(const Obj<T> &o, const std::string &op) {
    const int N = Dom<T>::N;
    bool empty = true;
    for (int c = 0; c < N; c++) {
        empty = empty && !o.s[c];
        if (o.cc.includes((T)c) != (bool)o.s[c]) {
            H->viol(KIND + ":" + op + ":member", fmt("character %d is %s the class but should%s be; ", c, o.s[c] ? "not in" : "in", o.s[c] ? "" : " not") +
                    o.how + " gave " + show_cc(o.cc) + ", the set is " + show_set<T>(o.s));
            return false;
        }
    }
    long prev = -1;
    for (const auto &r : o.cc) {
        if (!((long)r.start() < (long)r.end()) || (long)r.start() < prev) {
            H->viol(KIND + ":" + op + ":ranges", "the ranges are not ascending and disjoint: " + o.how + " gave " + show_cc(o.cc));
            return false;
        }
        prev = (long)r.end();
    }
    // the ranges by their number, and nothing in front of or behind them
    int n = 0;
    for (const auto &r : o.cc) {
        Range<T> q = o.cc[n++];
        if (!(q == r)) { H->viol(KIND + ":" + op + ":index", fmt("range %d by its number is [%ld,%ld); ", n - 1, (long)q.start(), (long)q.end()) + o.how + " gave " + show_cc(o.cc)); return false; }
    }
    for (int k : {-1, n, n + 7})
        if (n != o.cc.size() || !o.cc[k].empty()) { H->viol(KIND + ":" + op + ":index", fmt("the class has %d ranges, a size of %d, and one at %d; ", n, (int)o.cc.size(), k) + o.how + " gave " + show_cc(o.cc)); return false; }
    if (o.cc.is_epsilon() != (o.cc.size() == 0) || (bool)o.cc == o.cc.is_epsilon() || (empty && !o.cc.is_epsilon())) {
        H->viol(KIND + ":" + op + ":empty", "emptiness: " + o.how + " gave " + show_cc(o.cc));
        return false;
    }
    return true;
}

template <typename T> int rnd_char(Rng &r, int lo) {
    static const int edges[] = {1, 2, 9, 10, 13, 32, 33, 34, 45, 47, 48, 57, 65, 90, 91, 92, 93, 94, 97, 122, 126, 127, 128, 200, 253, 254};
    int N = Dom<T>::N, v;
    switch (r.below(4)) {
    case 0: v = edges[r.below(sizeof edges / sizeof *edges)]; break;
    case 1: v = 'a' + (int)r.below(12); break;
    default: v = (int)r.below((uint32_t)N); break;
    }
    return v < lo ? lo : v;
}
// the text of a class, and its set
static void emit(std::string &t, int c) {
    switch (c) {
    case '\\': t += "\\\\"; break;
    case '-': t += "\\-"; break;
    case '[': t += "\\["; break;
    case ']': t += "\\]"; break;
    case '\t': t += "\\t"; break;
    case '\r': t += "\\r"; break;
    case '\n': t += "\\n"; break;
    default: t += (char)c;
    }
}
template <typename T> std::string gen_text(Rng &r, Set<T> &s) {
    s.assign(Dom<T>::N, false);
    std::string t;
    bool inv = r.chance(1, 3);
    if (inv) t += "^";
    int items = r.range(inv ? 0 : 1, r.chance(1, 5) ? 14 : 5);
    for (int i = 0; i < items; i++) {
        int a = std::min(rnd_char<char>(r, 1), 254), b = std::min(rnd_char<char>(r, 1), 254);
        if (i == 0 && a == '^') a = 'q';
        if (r.chance(1, 2)) { emit(t, a); s[a] = true; }
        else {
            if (a > b) std::swap(a, b);
            if (i == 0 && a == '^') a = '_', b = std::max(b, (int)'_');
            emit(t, a); t += "-"; emit(t, b);
            for (int c = a; c <= b; c++) s[c] = true;
        }
    }
    if (inv) for (int c = 0; c < Dom<T>::N; c++) s[c] = c >= 1 && !s[c];
    return t;
}

template <typename T> void one_case(uint64_t i, Rng &r) {
    const int N = Dom<T>::N;
    std::vector<Obj<T>> pool;
    auto add = [&](const CharClass<T> &cc, const Set<T> &s, const std::string &op, const std::string &how) -> bool {
        Obj<T> o{cc, s, how};
        H->inc("classes"); H->inc("op." + op);
        H->seen("sets", hash_str(show_set<T>(s)) * 3 + sizeof(T));
        bool ok = audit(o, op);
        pool.push_back(o);
        return ok;
    };
    int steps = r.range(6, 26);
    add(CharClass<T>(), Set<T>(N, false), "default", "empty");
    for (int k = 0; k < steps; k++) {
        int a = (int)r.below((uint32_t)pool.size()), b = (int)r.below((uint32_t)pool.size());
        int lo = rnd_char<T>(r, r.chance(1, 6) ? 0 : 1), hi = rnd_char<T>(r, 1);
        if (lo > hi) std::swap(lo, hi);
        if (lo == hi) hi = std::min(lo + 1, N);
        if (lo >= hi) continue;
        Set<T> rs(N, false);
        for (int c = lo; c < hi; c++) rs[c] = true;
        Set<T> s(N, false);
        std::string A = show_cc(pool[a].cc), B = show_cc(pool[b].cc);
        bool ok = true;
        switch (r.below(12)) {
        case 0: case 1: {
            Set<T> ps;
            std::string t = gen_text<T>(r, ps);
            H->note("charclass:parse", "parsing [" + show(t) + "]");
            Stream st(widen(t + "]#"));
            CharClass<T> cc(st);
            ok = add(cc, ps, "parse", "parsing [" + show(t) + "]");
            if (st.get() != L'#') H->viol(KIND + ":parse:rest", "parsing [" + show(t) + "] did not stop behind its bracket");
            break;
        }
        case 2:
            for (int c = 0; c < N; c++) s[c] = pool[a].s[c] || rs[c];
            ok = add(pool[a].cc | Range<T>((T)lo, (T)hi), s, "or-range", A + " | " + fmt("[%d,%d)", lo, hi));
            break;
        case 3: {
            for (int c = 0; c < N; c++) s[c] = pool[a].s[c] || rs[c];
            CharClass<T> cc(pool[a].cc);
            cc |= Range<T>((T)lo, (T)hi);
            ok = add(cc, s, "or-range", A + " |= " + fmt("[%d,%d)", lo, hi));
            break;
        }
        case 4:
            for (int c = 0; c < N; c++) s[c] = pool[a].s[c] || pool[b].s[c];
            ok = add(pool[a].cc | pool[b].cc, s, "or", A + " | " + B);
            break;
        case 5: {
            for (int c = 0; c < N; c++) s[c] = pool[a].s[c] || pool[b].s[c];
            CharClass<T> cc;
            cc = pool[a].cc;
            cc |= pool[b].cc;
            ok = add(cc, s, "or", A + " |= " + B);
            break;
        }
        case 6: case 7:
            for (int c = 0; c < N; c++) s[c] = pool[a].s[c] && pool[b].s[c];
            ok = add(pool[a].cc & pool[b].cc, s, "and", A + " & " + B);
            break;
        case 8:
            for (int c = 1; c < N; c++) s[c] = !pool[a].s[c];
            ok = add(~pool[a].cc, s, "not", "~" + A);
            break;
        case 9: {
            auto d = pool[a].cc.diff_and_int(pool[b].cc);
            Set<T> d0(N, false), d1(N, false), d2(N, false), sa = pool[a].s, sb = pool[b].s;
            for (int c = 0; c < N; c++) { d0[c] = sa[c] && !sb[c]; d1[c] = sb[c] && !sa[c]; d2[c] = sa[c] && sb[c]; }
            ok = add(d[0], d0, "diff", A + " \\ " + B) && add(d[1], d1, "diff", B + " \\ " + A) && add(d[2], d2, "diff", A + " and " + B);
            break;
        }
        case 10: {
            if (r.chance(1, 2)) {
                for (int c = lo; c < hi; c++) s[c] = true;
                ok = add(CharClass<T>((wchar_t)lo, (wchar_t)hi), s, "make", fmt("class(%d,%d)", lo, hi));
            } else {
                std::vector<wchar_t> v;
                int q = r.range(0, 1);
                int c1 = rnd_char<T>(r, 1), c2 = rnd_char<T>(r, 1), c3 = rnd_char<T>(r, 1), c4 = rnd_char<T>(r, 1);
                s[c1] = s[c2] = true;
                if (q) s[c3] = s[c4] = true;
                ok = q ? add(CharClass<T>({(wchar_t)c1, (wchar_t)c2, (wchar_t)c3, (wchar_t)c4}), s, "make", fmt("class{%d,%d,%d,%d}", c1, c2, c3, c4))
                       : add(CharClass<T>({(wchar_t)c1, (wchar_t)c2}), s, "make", fmt("class{%d,%d}", c1, c2));
            }
            break;
        }
        default:
            for (int c = 1; c < N; c++) s[c] = true;
            ok = add(CharClass<T>::make_star(), s, "star", "make_star");
        }
        if (!ok) return;
    }
    // relations between all pairs
    for (auto &x : pool) for (auto &y : pool) {
        bool eq = x.s == y.s, ov = false;
        // the sets can differ beyond the observed domain only in wide classes
        for (int c = 0; c < N && !ov; c++) ov = x.s[c] && y.s[c];
        if (sizeof(T) == 1) {
            if ((x.cc == y.cc) != eq)
                return H->viol(KIND + ":eq", "classes " + show_cc(x.cc) + " and " + show_cc(y.cc) + " compare " + (eq ? "different" : "equal") + "; " + x.how + "; " + y.how);
            if (eq && x.cc.hash() != y.cc.hash())
                return H->viol(KIND + ":hash", "equal classes with different hashes: " + show_cc(x.cc));
            if (x.cc.overlaps(y.cc) != ov)
                return H->viol(KIND + ":overlaps", show_cc(x.cc) + " overlaps " + show_cc(y.cc) + " should be " + (ov ? "true" : "false"));
        }
        H->inc("pairs");
    }
    for (int k = 0; k < 20; k++) {
        auto &x = r.pick(pool);
        int lo = rnd_char<T>(r, 0), hi = rnd_char<T>(r, 0);
        if (lo >= hi) continue;
        bool in = true;
        for (int c = lo; c < hi; c++) in = in && x.s[c];
        if (x.cc.includes(Range<T>((T)lo, (T)hi)) != in)
            return H->viol(KIND + ":includes-range", show_cc(x.cc) + fmt(" includes [%d,%d) should be %d", lo, hi, (int)in));
        std::set<int> want, got;
        for (int c = 0; c < N; c++) if (x.s[c] != (c > 0 && x.s[c - 1])) want.insert(c);
        bool end_in = x.s[N - 1];
        IndexVector b = x.cc.collect_borders();
        for (int v : b) if (v < N) got.insert(v);
        (void)end_in;
        if (want != got) return H->viol(KIND + ":borders", "the borders of " + show_cc(x.cc) + " are wrong");
        H->inc("range-queries");
    }
    if (i < 3) H->sample(pool.back().how + " = " + show_cc(pool.back().cc));
}

// malformed class texts are refused with an error that names the position
static void bad_case(Rng &r) {
    Set<char> s;
    std::string good = gen_text<char>(r, s), t;
    if (!good.empty() && good[0] == '^') good = good.substr(1);
    switch (r.below(6)) {
    case 5: {                                                    // a range the wrong way round
        int a = rnd_char<char>(r, 2), b = r.range(1, a - 1);
        if (r.chance(1, 3)) b = a - 1;
        emit(t, a); t += "-"; emit(t, b);
        if (t[0] == '^') t = "x" + t;
        t = (r.chance(1, 3) ? "^" : "") + (r.chance(1, 2) ? t + good : good + t) + "]";
        break;
    }
    case 0: t = good; break;                                     // never closed
    case 1: t = "-" + good + "]"; break;
    case 2: t = good + "x-]"; break;
    case 3: t = good + "\\" + std::string(1, "qwe0.*(\"/ "[r.below(9)]) + "]"; break;
    default: t = good + "a--b]"; break;
    }
    // a class ending in an open range changes the meaning of what follows; make that end explicit
    H->note("charclass:bad", "parsing [" + show(t));
    Stream st(widen(t));
    bool thrown = false;
    try { CharClass<char> cc(st); } catch (const StreamException &e) {
        thrown = std::string(e.what()).find("Line ") == 0;
    }
    H->inc("malformed");
    if (!thrown) H->viol("charclass:malformed-accepted", "the malformed class [" + show(t) + " was accepted");
}

int main(int argc, char **argv) {
    Harness h(argc, argv);
    H = &h;
    h.loop([&](uint64_t i, Rng &r) {
        switch (r.below(5)) {
        case 0: KIND = "uchar"; one_case<unsigned char>(i, r); break;
        case 1: KIND = "wide"; one_case<wchar_t>(i, r); break;
        default: KIND = "char"; one_case<char>(i, r); break;
        }
        bad_case(r); bad_case(r);
    });
    return h.finish();
}
