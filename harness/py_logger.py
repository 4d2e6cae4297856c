"""P26: records that worker processes log.  Protocol and arguments as py_context.py.

A case: one manifold, started once or several times; each time some processes, each with some threads, log random
records, and end; then the manifold is stopped.  What the manifold's logger handled by then is compared with what was logged.
"""
import argparse, copy, json, logging, multiprocessing, os, random, resource, signal, subprocess, sys, threading, time, traceback

ap = argparse.ArgumentParser()
for a in ("seed", "start", "count"):
    ap.add_argument("--" + a, type=int, default=1)
for a in ("status", "scratch", "mode", "tier", "lib", "package"):
    ap.add_argument("--" + a, default="")
A = ap.parse_args()
os.environ["CENTAURUS_DL_PATH"] = A.lib
sys.path.insert(0, A.package)
sys.dont_write_bytecode = True
LIMIT = 45 if not os.environ.get("VK_SLOW") else 200
multiprocessing.set_start_method("fork")
FORM = logging.Formatter("%(name)s/%(levelno)d/%(process)d/%(threadName)s/%(message)s")


class Keep(logging.Handler):
    """Keeps what it is given, as it would be written."""
    def __init__(self):
        super().__init__()
        self.got = []
        self.setFormatter(FORM)
    slow, halt = 0, (-1, 0)              # of each record; before one of them
    def emit(self, record):
        if self.slow:
            time.sleep(self.slow)
        if self.halt[0] >= 0:
            self.halt = (self.halt[0] - 1, self.halt[1])
            if self.halt[0] < 0:
                time.sleep(self.halt[1])
        self.got.append((record.process, record.threadName, self.format(record)))


class Odd:
    """An argument that cannot be pickled."""
    def __init__(self, n):
        self.n, self.lock = n, threading.Lock()
    def __str__(self):
        return "<odd %d>" % self.n


def one(dice, n, base):
    """Logs one record; returns its logger, level and expected text (without the trace), and how often a trace shows."""
    name = dice.choice((base, base + ".sub", "other", "other.sub", "", "w\u00e9ird"))
    log = logging.getLogger(name)
    level = dice.choice((1, 10, 10, 20, 20, 25, 30, 40, 50))
    kind = dice.randrange(9)
    extra, trace, mark = {}, False, "#%d" % n
    if kind == 0:
        fmt, args = "%s plain", (mark,)
    elif kind == 1:
        fmt, args = "%s number %5d and %r", (mark, dice.randrange(10**6), "b\u00e9 \u4e2d")
    elif kind == 2:
        fmt, args = "%s " + dice.choice("abc") * dice.choice((10, 1000, 70000, 300000)), (mark,)
    elif kind == 3:
        fmt, args = "%s %s", (mark, Odd(n))
    elif kind == 4:
        fmt, args = mark + " 100% sure %s", ()            # no arguments: the text as it stands
    elif kind == 5:
        fmt, args = "%(mark)s named", ({"mark": mark},)
    elif kind == 6:
        fmt, args = "%s several\nlines\n", (mark,)
    elif kind == 7:
        fmt, args, trace = "%s trouble", (mark,), "exc"
    else:
        fmt, args, trace = "%s whence", (mark,), dice.choice(("stack", "both"))
    text = fmt % (args[0] if kind == 5 else args) if args else fmt
    if trace in ("exc", "both"):
        try:
            raise ValueError("boom %d" % n)
        except ValueError:
            extra["exc_info"] = True if dice.random() < 0.5 else sys.exc_info()
            if trace == "both":
                extra["stack_info"] = True
            log.log(level, fmt, *args, **extra)
    else:
        if trace:
            extra["stack_info"] = True
        log.log(level, fmt, *args, **extra)
    on = log.isEnabledFor(level)
    return name or "root", level, text, n, trace, on


def worker(seed, base, queue, quick, path, levels):
    dice = random.Random(seed)
    from centaurus.Logger import LoggerManifold
    if quick:
        queue = LoggerManifold.get_queue()
    for n, l in levels:
        logging.getLogger(n).setLevel(l)
    for n in ("app", "app.part", ""):       # what the master did to its logger is not to be here
        log = logging.getLogger(n)
        log.propagate, log.filters[:] = True, []
    before, after = Keep(), Keep()
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    if dice.random() < 0.5:
        root.addHandler(before)
    LoggerManifold.init_process(queue)
    root.addHandler(after)
    said, lock = [], threading.Lock()
    def run(seed, name):
        d = random.Random(seed)
        mine = []
        for n in range(d.choice((0, 1, 5, 20, 60))):
            mine.append((name,) + one(d, n, base))
            if d.random() < 0.05:
                time.sleep(d.choice((0, 0.001, 0.005)))
        with lock:
            said.extend(mine)
    names = ["MainThread"] + ["t%d" % k for k in range(dice.choice((0, 0, 1, 2)))]
    ts = [threading.Thread(target=run, args=(dice.random(), n), name=n) for n in names[1:]]
    for t in ts:
        t.start()
    run(dice.random(), "MainThread")
    for t in ts:
        t.join()
    with open(path, "w") as f:
        json.dump([os.getpid(), said, after.got], f)


def counts(text, trace, n):
    """Is a trace told of as often as it should?"""
    if trace in ("exc", "both") and text.count("ValueError: boom %d" % n) != 1:
        return "the exception is told of %d times" % text.count("ValueError: boom %d" % n)
    if trace in ("stack", "both") and text.count("Stack (most recent call last)") != 1:
        return "the stack is told of %d times" % text.count("Stack (most recent call last)")


def compare(said, got, threshold, what):
    """What was logged (name of thread, logger, level, text, number, trace, enabled), and what was handled."""
    want = [s for s in said if s[6] and s[2] >= threshold]
    for k, (name, logger, level, text, n, trace, on) in enumerate(want):
        if k >= len(got):
            return "%s: %d records are missing, first %r of level %d" % (what, len(want) - k, text[:100], level)
        start = "%s/%d/" % (logger, level)
        g = got[k]
        if not g[2].startswith(start) or not g[2].split("/", 4)[4].startswith(text) or (not trace and g[2].split("/", 4)[4] != text):
            return "%s: record %d is %r instead of %r" % (what, k, g[2][:200], start + "..." + text[:200])
        c = counts(g[2], trace, n)
        if c:
            return "%s: %s: %r" % (what, c, g[2][:1500])
    if len(got) > len(want):
        return "%s: %d records too many, first %r" % (what, len(got) - len(want), got[len(want)][2][:200])


def wrong(seed, dir):
    from centaurus.Logger import LoggerManifold
    dice, seen = random.Random(seed), {}
    def saw(k, n=1):
        seen[k] = seen.get(k, 0) + n
    base = dice.choice(("app", "app.part", ""))
    target, keep = logging.getLogger(base), Keep()
    target.addHandler(keep)
    level = dice.choice((0, 10, 20, 25, 30, 40))
    above = 30
    if base and level == 0:
        logging.getLogger("app").setLevel(0)
        above = dice.choice((10, 30, 40))
        logging.getLogger().setLevel(above)
    target.setLevel(level)
    threshold = level or (above if base else 0)
    target.propagate = dice.random() < 0.5
    if dice.random() < 0.3:
        target.addFilter(lambda r: "plain" not in r.getMessage())
        filtered = True
    else:
        filtered = False
    m = LoggerManifold(base)
    for round in range(dice.choice((1, 1, 2, 3))):
        del keep.got[:]
        early = dice.random() < 0.7
        keep.slow = dice.choice((0, 0, 0, 0.0005, 0.002))
        keep.halt = (dice.choice((0, 2, 10)), dice.choices((0, 0.03, 0.3, 1.3, 5.5), (60, 30, 15, 3, 0.5))[0])
        if early:
            m.start()
        ps, paths = [], []
        wbase = base or "app"
        levels = [(n, dice.choice((0, 10, 30, 40))) for n in (wbase, wbase + ".sub", "other", "other.sub", "w\u00e9ird") if dice.random() < 0.5]
        levels += [(n, 0) for n in (wbase, wbase + ".sub", "other", "other.sub", "w\u00e9ird") if n not in [x[0] for x in levels]]
        for k in range(dice.choice((1, 1, 2, 3, 5))):
            paths.append(os.path.join(dir, "said%d.%d" % (round, k)))
            ps.append(multiprocessing.Process(target=worker, args=(dice.random(), wbase, m.queue, dice.random() < 0.5, paths[-1], levels)))
            ps[-1].start()
        if not early:
            m.start()
        for p in ps:
            p.join()
            if p.exitcode:
                return "worker", "a worker ended with %d" % p.exitcode, seen
        m.stop()
        got, saids = list(keep.got), []
        for path in paths:
            with open(path) as f:
                saids.append(json.load(f))
        pids = {s[0] for s in saids}
        for g in got:
            if g[0] not in pids:
                return "stray", "a record of process %d: %r" % (g[0], g[2][:200]), seen
        for pid, said, after in saids:
            names = {s[0] for s in said}
            for n in sorted(names):
                mine = [s for s in said if s[0] == n]
                w = compare([s for s in mine if not (filtered and "plain" in s[3])], [g for g in got if g[0] == pid and g[1] == n], threshold, "level %d, thread %s" % (threshold, n))
                if w:
                    return "records", w, seen
                w = compare(mine, [g for g in after if g[1] == n], 0, "the handler behind, thread %s" % n)
                if w:
                    return "others", w, seen
                saw("threads")
            saw("logged", len(said))
            saw("processes")
        saw("handled", len(got))
        saw("rounds")
    return None, None, seen


counters, distinct, samples = {}, {"histories": set()}, []


def inc(k, n=1):
    counters[k] = counters.get(k, 0) + n


def viol(i, key, what):
    print(json.dumps({"t": "viol", "case": i, "key": key, "what": what[:3000]}), flush=True)


def run(i):
    tmp = os.path.join(A.scratch, "l%d" % i)
    os.mkdir(tmp)
    out, err = os.path.join(tmp, ".out"), os.path.join(tmp, ".err")
    seed = (A.seed << 32) + i
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            fd = os.open(err, os.O_CREAT | os.O_RDWR)
            os.dup2(fd, 1); os.dup2(fd, 2)
            r = wrong(seed, tmp)
            with open(out, "w") as f:
                json.dump(r, f)
            code = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    end, st = time.time() + LIMIT, None
    while st is None and time.time() < end:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            st = s
        else:
            time.sleep(0.002)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if st is None:
        os.waitpid(pid, 0)
    with open(err, errors="replace") as f:
        etext = f.read()
    r = None
    if st == 0:
        with open(out) as f:
            r = json.load(f)
    subprocess.call(["rm", "-rf", tmp])
    if st is None:
        inc("hangs")
        return viol(i, "hang", "no end in %d s: %s" % (LIMIT, etext[-500:]))
    if r is None:
        return viol(i, "died", "status %#x: %s" % (st, etext[-1500:]))
    for k, v in r[2].items():
        inc(k, v)
    distinct["histories"].add(seed & (1 << 43) - 1)
    if r[0]:
        return viol(i, r[0], r[1] + " " + etext[-500:])
    if "Error" in etext:
        return viol(i, "noise", etext[-1500:])


def main():
    import centaurus.Logger
    for i in range(A.start, A.start + A.count):
        if A.status:
            with open(A.status, "wb") as f:
                f.write(("%d\n\n" % i).encode() + b"\0")
        run(i)
        inc("cases")
        if counters.get("hangs", 0) >= 3:      # enough is seen
            break
    print(json.dumps({"t": "sum", "counters": counters, "distinct": {k: sorted(v) for k, v in distinct.items()}, "samples": samples}), flush=True)


main()
