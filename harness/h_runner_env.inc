// P15 (resources), P16 (leftovers of killed processes, neighbours), P17 (the input window)
#include <malloc.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <limits.h>

static std::set<std::string> list_dir(const char *path) {
    std::set<std::string> s;
    DIR *d = opendir(path);
    if (!d) return s;
    while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name);
    closedir(d);
    return s;
}
// what is in /dev/shm under the name of one process
static std::set<std::string> shm_of(int pid) {
    std::set<std::string> o;
    std::string tag = std::to_string(pid);
    for (auto &n : list_dir("/dev/shm")) {
        // the number by itself: the rest of the name has digits, too
        for (size_t k = n.find(tag); k != std::string::npos; k = n.find(tag, k + 1))
            if (!(k && isalnum((unsigned char)n[k - 1])) && !isalnum((unsigned char)n.c_str()[k + tag.size()])) { o.insert(n); break; }
    }
    return o;
}
static size_t count_fds() { return list_dir("/proc/self/fd").size(); }
// everything that is mapped but the heap and the stack, which the allocator keeps
static size_t mapped_bytes() {
    size_t sum = 0;
    FILE *f = fopen("/proc/self/maps", "r");
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        if (strstr(line, "[heap]") || strstr(line, "[stack]")) continue;
        unsigned long a, b;
        if (sscanf(line, "%lx-%lx", &a, &b) == 2) sum += b - a;
    }
    fclose(f);
    return sum;
}
static size_t count_threads() { return list_dir("/proc/self/task").size(); }
// a process id nobody else on this machine uses at the moment, whether a process has it or not
static bool reserve(int pid) {
    static int fd = open(("/tmp/vk-pids-" + std::to_string(getuid())).c_str(), O_RDWR | O_CREAT, 0600);
    struct flock l = {};
    l.l_type = F_WRLCK; l.l_whence = SEEK_SET; l.l_start = pid; l.l_len = 1;
    return fcntl(fd, F_OFD_SETLK, &l) == 0;
}
static int own_pid() {
    static int pid = 0;
    if (!pid) for (pid = 100000000 + __real_getpid(); !reserve(pid); pid += 10000019) ;
    return pid;
}

struct Job { Conf c; Shape s; std::vector<uint64_t> m; bool cut; std::string what; Expect e; };
static Job make_job(Rng &r, int max_nodes) {
    Job j;
    j.c = make_conf(r);
    static const int counts[] = {1, 2, 5, 20, 80, 300};
    j.s = Shape{std::min(max_nodes, counts[r.below(6)]), (int)r.below(6), r.range(1, 40), false};
    size_t limit = (size_t)j.s.nodes * 2 / 60 + 1;
    if (j.c.entries < limit) j.c.entries = limit;
    j.m = make_stream(r, j.s);
    j.cut = r.chance(1, 4);
    if (j.cut) j.m.resize(r.below((uint32_t)j.m.size() + 1));
    j.e = reduce_sequentially(j.m, j.c.rate);
    j.what = show_conf(j.c, j.s, j.cut ? j.m.size() : (size_t)-1, 0);
    return j;
}
static bool do_job(const Job &j, Rng &r, const std::string &extra, Outcome &o) {
    bool ok = run_once(j.c, j.m, !j.cut, g_input, j.what + extra, o, r);
    if (ok && !j.c.dry) ok = judge(j.e, o, !j.cut, j.what + extra);
    return ok;
}

static void resources(uint64_t i, Rng &r) {
    alarm(getenv("VK_SLOW") ? 150 : 60);
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    g_delay_kind = (int)r.below(3); g_delay_seed = mix(H->seed, i) | 1;
    g_pid = own_pid();
    Job j = make_job(r, 300);
    if (r.chance(1, 3)) j.c.capture = true;
    int variant = (int)r.below(8);
    std::string input = g_input;
    if (variant == 0) g_input = "/nonexistent/input";
    H->note("", "resources: " + j.what);
    const int rounds = 5;
    size_t heap[rounds], maps[rounds], fds[rounds], threads[rounds];
    bool ok = true;
    for (int k = 0; k < rounds && ok; k++) {
        if (variant == 1) {
            // made, but never started
            FakeParser p;
            p.per_bank = j.c.entries;
            std::unique_ptr<Stage1Runner> a(new Stage1Runner(g_input.c_str(), &p, j.c.entries * 8, j.c.banks, j.c.dry, j.c.capture));
            std::unique_ptr<Stage2Runner> b(new Stage2Runner(g_input.c_str(), j.c.entries * 8, j.c.banks, get_current_pid()));
            std::unique_ptr<Stage3Runner> d(new Stage3Runner(g_input.c_str(), j.c.entries * 8, j.c.banks, get_current_pid()));
            if (r.chance(1, 2)) a.reset();
            if (r.chance(1, 2)) d.reset();
        } else {
            Outcome o;
            Rng again(mix(H->seed, i * 16));
            ok = do_job(j, again, "", o);
        }
        struct mallinfo2 mi = mallinfo2();
        heap[k] = mi.uordblks + mi.hblkhd;
        fds[k] = count_fds();
        maps[k] = mapped_bytes();
        threads[k] = count_threads();
        auto left = shm_of(g_pid);
        if (!left.empty()) { H->viol("shm", "after the parse /dev/shm still holds " + *left.begin() + "; " + j.what); ok = false; for (auto &n : left) unlink(("/dev/shm/" + n).c_str()); }
    }
    if (ok) {
        auto grows = [&](size_t *v) { for (int k = 2; k < rounds; k++) if (v[k] <= v[k - 1]) return false; return true; };
        auto series = [&](size_t *v) { std::string s; for (int k = 0; k < rounds; k++) s += (k ? ", " : "") + std::to_string(v[k]); return s; };
        std::string how = variant == 1 ? " (runners made, never started)" : variant == 0 ? " (input missing)" : "";
        if (grows(fds)) H->viol("fds", "every parse leaves more open descriptors behind: " + series(fds) + how + "; " + j.what);
        if (grows(maps)) H->viol("maps", "every parse leaves more mapped memory behind: " + series(maps) + how + "; " + j.what);
        if (grows(heap)) H->viol("heap", "every parse leaves more memory allocated: " + series(heap) + how + "; " + j.what);
        if (grows(threads)) H->viol("threads", "every parse leaves more threads behind: " + series(threads) + how + "; " + j.what);
        H->inc("balances", rounds);
        if (heap[rounds - 1] == heap[1]) H->inc("heap-exactly-equal");
        H->seen("configurations", hash_str(j.what + how));
        if (i < 3) H->sample(j.what + how + ": heap " + series(heap) + ", mapped " + series(maps) + ", descriptors " + series(fds));
    }
    g_input = input;
    alarm(0);
}

static void errors_to_file() {
    int fd = open((H->scratch + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 2); close(fd);
}
static std::string child_errors() {
    std::string s;
    FILE *f = fopen((H->scratch + "/stderr").c_str(), "r");
    if (!f) return s;
    char b[3000];
    size_t n = fread(b, 1, sizeof b, f);
    fclose(f);
    return " (" + std::string(b, n) + ")";
}
// runs f in a child; returns its wait status
template <typename F> static int in_child(F f) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        errors_to_file();
        alarm(40);
        f();
        fflush(stdout);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}
static void stale(uint64_t i, Rng &r) {
    alarm(getenv("VK_SLOW") ? 400 : 300);
    g_delay_kind = (int)r.below(3); g_delay_seed = mix(H->seed, i) | 1;
    int pid = own_pid();
    H->note("", "stale");
    std::string history;
    int neighbour = pid;
    auto clean = [&]() { for (auto &n : shm_of(pid)) unlink(("/dev/shm/" + n).c_str()); for (auto &n : shm_of(neighbour)) unlink(("/dev/shm/" + n).c_str()); };
    clean();
    if (r.chance(1, 4)) {
        // neighbours: two processes at the same time, with ids that look alike in some way
        int far;
        switch (r.below(4)) {
        case 0: far = 1 << r.below(24); break;
        case 1: { static const int tens[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000}; far = tens[r.below(8)]; break; }
        case 2: far = 9 * (int)r.below(100000); break;
        default: far = (int)r.below(50000000); break;
        }
        if (!far) far = 1;
        for (neighbour = pid + far; !reserve(neighbour); neighbour++) ;
        if (g_delay_kind == 0) g_delay_kind = 2;
        Job a = make_job(r, 300), b = make_job(r, 300);
        H->note("", "two processes: " + a.what + " / " + b.what);
        uint64_t s1 = r.next(), s2 = r.next();
        pid_t p[2];
        fflush(stdout);
        for (int k = 0; k < 2; k++) {
            p[k] = fork();
            if (p[k] == 0) {
                errors_to_file();
                alarm(40);
                g_pid = k ? neighbour : pid;
                Rng q(k ? s2 : s1);
                bool ok = true;
                for (int n = 0; n < 6 && ok; n++) { Outcome o; ok = do_job(k ? b : a, q, "; with another process parsing at the same time", o); }
                fflush(stdout);
                _exit(ok ? 0 : 7);
            }
        }
        for (int k = 0; k < 2; k++) {
            int st = 0;
            waitpid(p[k], &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 86) { H->viol("neighbours:hang", "a parse hangs while another process parses; " + a.what + " / " + b.what); H->count = 0; }
            else if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7)))
                H->viol("neighbours:crash", fmt("a process died (status %x) while another one was parsing; ", st) + a.what + " / " + b.what + child_errors());
        }
        H->inc("pairs");
        H->seen("histories", hash_str(a.what + b.what));
    } else {
        int kills = r.range(1, 3);
        for (int k = 0; k < kills; k++) {
            Job j = make_job(r, 80);
            j.c.dry = r.chance(1, 8);
            long at = r.range(1, r.chance(1, 2) ? 12 : 120);
            uint64_t seed = r.next();
            int st = in_child([&]() {
                int null = open("/dev/null", O_WRONLY); dup2(null, 1);
                g_pid = pid;
                g_kill = at;
                Rng q(seed);
                Outcome o;
                do_job(j, q, "", o);
            });
            bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            history += fmt("%s[%s after %ld events, %d banks of %d entries, %d workers] ", k ? "then " : "", killed ? "killed" : "finished", at, j.c.banks, (int)j.c.entries, j.c.workers);
            H->inc(killed ? "killed" : "finished-before-the-kill");
            auto left = shm_of(pid);
            H->inc("leftovers", left.size());
            if (!killed && !left.empty()) { H->viol("shm", "a finished parse left " + *left.begin() + " behind; " + history); }
            // and what is left could be in any state
            if (r.chance(1, 2)) for (auto &n : left) {
                std::string path = "/dev/shm/" + n;
                if (n.compare(0, 4, "sem.") == 0) {
                    sem_t *s = sem_open(("/" + n.substr(4)).c_str(), 0);
                    int posts = r.range(0, 30);
                    if (s != SEM_FAILED) { for (int q = 0; q < posts; q++) __real_sem_post(s); sem_close(s); }
                    history += fmt("(semaphore posted %d times) ", posts);
                } else {
                    int fd = open(path.c_str(), O_RDWR);
                    struct stat sb;
                    fstat(fd, &sb);
                    int kind = (int)r.below(4);
                    if (kind == 0) { if (ftruncate(fd, r.chance(1, 2) ? 0 : 4096)) {} }
                    else if (kind == 1) { if (ftruncate(fd, sb.st_size + (64 << 20))) {} }
                    if (kind >= 1) {
                        // bank states are small numbers
                        std::vector<uint32_t> g(64);
                        uint32_t st6 = r.below(8);
                        for (auto &x : g) x = kind == 2 ? st6 : kind == 3 ? r.below(8) : (uint32_t)r.next();
                        if (pwrite(fd, g.data(), g.size() * 4, 0) < 0) {}
                        if (pwrite(fd, g.data(), g.size() * 4, 8 << 20) < 0) {}
                    }
                    close(fd);
                    history += fmt("(memory damaged, kind %d) ", kind);
                }
            }
        }
        Job j = make_job(r, 300);
        j.c.dry = false;
        H->note("", "leftovers: " + history + "; then " + j.what);
        uint64_t seed = r.next();
        int st = in_child([&]() {
            g_pid = pid;
            Rng q(seed);
            Outcome o;
            bool ok = do_job(j, q, "; after " + history, o);
            fflush(stdout);
            _exit(ok ? 0 : 7);
        });
        if (WIFEXITED(st) && WEXITSTATUS(st) == 86) { H->viol("stale:hang", "a parse hangs after " + history + "; " + j.what); H->count = 0; }
        else if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7))) H->viol("stale:crash", fmt("a parse died (status %x) after ", st) + history + "; " + j.what + child_errors());
        auto left = shm_of(pid);
        if (!left.empty()) H->viol("shm", "the parse after it did not remove " + *left.begin() + "; " + history + j.what);
        H->inc("recoveries");
        H->seen("histories", hash_str(history + j.what));
        if (i < 4) H->sample(history + "then " + j.what);
    }
    clean();
    alarm(0);
}

static void input_window(uint64_t i, Rng &r) {
    alarm(getenv("VK_SLOW") ? 150 : 60);
    size_t size;
    switch (r.below(8)) {
    case 0: size = r.below(70); break;
    case 1: case 2: size = 4096 * r.below(8) + r.below(3) - (size_t)1; if (size == (size_t)-1) size = 0; break;
    case 3: size = 4096 * r.below(20) + 4096 - r.below(70); break;
    case 4: size = 65536 * (1 + r.below(8)) - r.below(3) + 1; break;
    case 5: size = r.below(300000); break;
    case 6: size = 4096 * r.below(8); break;
    default: size = r.chance(1, 10) ? (8u << 20) + r.below(3) - 1 : r.below(5000); break;
    }
    static const char *names[] = {"in.txt", "with space", "\xc3\xa4\xe2\x82\xac", "%s%n%d", "a{b}[c]*", "-", "--flag"};
    std::string dir = H->scratch + "/w" + std::to_string(i);
    mkdir(dir.c_str(), 0700);
    if (r.chance(1, 10)) { dir += "/" + std::string(200, 'd'); mkdir(dir.c_str(), 0700); dir += "/" + std::string(200, 'e'); mkdir(dir.c_str(), 0700); }
    std::string path = dir + "/" + names[r.below(7)];
    int kind = (int)r.below(12);         // 0 missing, 1 directory, else a file
    std::string data(size, 0);
    if (kind == 0) { data.clear(); }
    else if (kind == 1) { mkdir(path.c_str(), 0700); data.clear(); }
    else {
        uint64_t x = r.next();
        bool text = r.chance(1, 2);
        for (auto &c : data) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char)(text ? 'a' + (x >> 40) % 26 : x >> 40); }
        FILE *f = fopen(path.c_str(), "w");
        fwrite(data.data(), 1, data.size(), f);
        fclose(f);
    }
    if (r.chance(1, 8) && kind > 1) { std::string l = path + ".lnk"; if (symlink(path.c_str(), l.c_str())) {} path = l; }
    std::string what = fmt("input of %d bytes (%s)", (int)data.size(), kind == 0 ? "missing" : kind == 1 ? "a directory" : "file") + ", " + path.substr(H->scratch.size());
    H->note("", what);
    struct P : FakeParser {
        std::string *want; std::string bad; int kind;
        void check(const void *input, const char *who) {
            const char *p = (const char *)input;
            if (!p || p == (const char *)-1) { bad = std::string(who) + " got no input"; return; }
            if (memcmp(p, want->data(), want->size())) { size_t k = 0; while (p[k] == (*want)[k]) k++; bad = std::string(who) + fmt(" sees another byte at %d", (int)k); return; }
            for (size_t k = 0; k < 64; k++) if (p[want->size() + k]) { bad = std::string(who) + fmt(" sees byte %d behind the input", p[want->size() + k]); return; }
        }
        virtual const void *operator()(BaseListener *l, const void *input) override { check(input, "the parser"); return FakeParser::operator()(l, input); }
    } parser;
    parser.want = &data; parser.kind = kind; parser.per_bank = 16;
    parser.stream = {start_marker(1, 0), end_marker(1, data.size())};
    {
        size_t bank = 128;
        int pid = get_current_pid();
        Stage1Runner s1(path.c_str(), &parser, bank, 2);
        Stage2Runner s2(path.c_str(), bank, 2, pid);
        Stage3Runner s3(path.c_str(), bank, 2, pid);
        BaseRunner *all[] = {&s1, &s2, &s3};
        const char *who[] = {"stage 1", "stage 2", "stage 3"};
        static std::vector<std::string> seen;
        Log l2, l3;
        s2.register_listener(nullptr); s3.register_listener(nullptr);
        struct Seen { long start = -1, end = -1; int n = 0; };
        static Seen sn; sn = Seen();
        auto cb = [](const SymbolEntry *s, uint64_t *, int, void *) -> long { sn.start = s->start; sn.end = s->end; sn.n++; return 0; };
        s2.register_listener(cb); s3.register_listener(cb);
        for (int k = 0; k < 3; k++) {
            parser.check(all[k]->get_input(), who[k]);
            if (!parser.bad.empty()) break;
            if (kind != 1 && all[k]->get_input_size() != data.size()) { parser.bad = std::string(who[k]) + fmt(" says the input has %d bytes", (int)all[k]->get_input_size()); break; }
        }
        if (r.chance(1, 2) && kind > 1) unlink(path.c_str());      // the window outlives the name
        for (auto p : all) p->start();
        for (auto p : all) p->wait();
        if (parser.bad.empty() && (sn.n != 1 || sn.start != 0 || sn.end != (long)data.size())) parser.bad = fmt("the symbol over the whole input was reduced %d times, as %ld-%ld", sn.n, sn.start, sn.end);
    }
    if (!parser.bad.empty()) H->viol("window", parser.bad + "; " + what);
    H->inc("windows");
    H->inc(kind == 0 ? "missing-inputs" : kind == 1 ? "directories" : "files");
    H->seen("sizes", data.size() * 4 + (kind < 2 ? kind : 2));
    if (i < 3) H->sample(what);
    if (system(("rm -rf '" + H->scratch + "/w" + std::to_string(i) + "'").c_str())) {}
    alarm(0);
}

static void other(uint64_t i, Rng &r) {
    if (H->mode == "resources") resources(i, r);
    else if (H->mode == "stale") stale(i, r);
    else if (H->mode == "input") input_window(i, r);
    else abort();
}
