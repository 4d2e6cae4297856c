// Shared plumbing of the harnesses: seeded generators, the case monitor, the reporter.
//
// A harness runs cases start..start+count-1; case i of seed s is always the same.  Before a case
// it writes what it is about to do to the status page (a shared file mapping, so that it survives
// a crash), and it arms a CPU-time limit.  It prints one JSON object per line on stdout:
//   {"t":"viol","case":i,"key":...,"what":...}     an oracle disagreed
//   {"t":"sum", counters...}                      at the end
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>

namespace vk {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
    bool chance(int num, int den) { return (int)below((uint32_t)den) < num; }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0xff51afd7ed558ccdull ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    z ^= z >> 33; z *= 0xc4ceb9fe1a85ec53ull; z ^= z >> 29;
    return z;
}
inline uint64_t hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
inline std::string show(const std::string &s) {   // printable form of a byte string
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline std::string narrow(const std::wstring &w) {
    std::string o;
    for (wchar_t c : w) o += (c < 256) ? (char)c : '?';
    return o;
}
inline std::wstring widen(const std::string &s) {
    std::wstring o;
    for (unsigned char c : s) o.push_back((wchar_t)c);
    return o;
}
template <typename... A> std::string fmt(const char *f, A... a) {
    int n = snprintf(nullptr, 0, f, a...);
    std::string s((size_t)n + 1, '\0');
    snprintf(&s[0], s.size(), f, a...);
    s.resize((size_t)n);
    return s;
}

struct Harness {
    uint64_t seed = 1, start = 0, count = 100;
    int tier = 0;                 // 0 quick, 1 thorough
    std::string status_path, scratch, mode;
    std::vector<std::string> extra;
    char *status = nullptr;
    static const size_t STATUS = 1 << 16;
    uint64_t cur = 0;
    uint64_t viols = 0;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::unordered_set<uint64_t>> distinct;
    std::vector<std::string> samples;
    int cpu_limit = 40;           // CPU seconds per case

    static Harness *&self() { static Harness *h = nullptr; return h; }
    static void on_cpu(int) {
        static const char msg[] = "HANG\n";
        ssize_t r = write(2, msg, sizeof msg - 1); (void)r;
        _exit(86);
    }
    Harness(int argc, char **argv) {
        self() = this;
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
            else if (a == "--start") start = strtoull(val().c_str(), 0, 10);
            else if (a == "--count") count = strtoull(val().c_str(), 0, 10);
            else if (a == "--status") status_path = val();
            else if (a == "--scratch") scratch = val();
            else if (a == "--mode") mode = val();
            else if (a == "--tier") tier = val() == "thorough";
            else extra.push_back(a);
        }
        if (!status_path.empty()) {
            int fd = open(status_path.c_str(), O_RDWR | O_CREAT, 0600);
            if (ftruncate(fd, STATUS)) {}
            status = (char *)mmap(nullptr, STATUS, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
        } else status = (char *)calloc(1, STATUS);
        signal(SIGPROF, on_cpu);
    }
    void arm() {
        struct itimerval t = {};
        t.it_value.tv_sec = cpu_limit;
        setitimer(ITIMER_PROF, &t, nullptr);
    }
    void disarm() { struct itimerval t = {}; setitimer(ITIMER_PROF, &t, nullptr); }
    // what the current case is about to do; kept over a crash
    void note(const std::string &key, const std::string &text) {
        std::string s = std::to_string(cur) + "\n" + key + "\n" + text;
        if (s.size() > STATUS - 1) s.resize(STATUS - 1);
        memcpy(status, s.c_str(), s.size() + 1);
    }
    void viol(const std::string &key, const std::string &what) {
        viols++;
        if (viols <= 40)
            printf("{\"t\":\"viol\",\"case\":%llu,\"key\":%s,\"what\":%s}\n", (unsigned long long)cur, jstr(key).c_str(), jstr(what).c_str());
        fflush(stdout);
    }
    void inc(const std::string &k, uint64_t n = 1) { counters[k] += n; }
    void seen(const std::string &k, uint64_t h) { auto &s = distinct[k]; if (s.size() < 400000) s.insert(h); }
    void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s.substr(0, 1500)); }
    void loop(const std::function<void(uint64_t, Rng &)> &f) {
        for (uint64_t i = start; i < start + count; i++) {
            cur = i;
            note("", "");
            Rng rng(mix(seed, i));
            arm();
            f(i, rng);
            disarm();
            inc("cases");
        }
    }
    int finish() {
        disarm();
        std::string o = "{\"t\":\"sum\",\"counters\":{";
        bool first = true;
        for (auto &p : counters) { o += (first ? "" : ",") + jstr(p.first) + ":" + std::to_string(p.second); first = false; }
        o += "},\"distinct\":{";
        first = true;
        for (auto &p : distinct) {
            o += (first ? "" : ",") + jstr(p.first) + ":["; first = false;
            bool f2 = true;
            for (uint64_t h : p.second) { o += (f2 ? "" : ",") + std::to_string(h & 0xfffffffffffull); f2 = false; }
            o += "]";
        }
        o += "},\"samples\":[";
        first = true;
        for (auto &s : samples) { o += (first ? "" : ",") + jstr(s); first = false; }
        o += "]}\n";
        fputs(o.c_str(), stdout);
        fflush(stdout);
        return 0;
    }
};

} // namespace vk
