"""P23: the Python package, from a grammar file and an input file to the handlers and the value of the input.

Speaks the protocol of the C++ harnesses (common.hpp).  --emit names the program that writes grammars,
inputs and reference trees, --lib the directory of libpycentaurus.so, --package that of the package.
Every case runs in a process group of its own, so that a parse that does not end can be ended.
"""
import argparse, ctypes, hashlib, json, multiprocessing, os, random, signal, subprocess, sys, threading, time, traceback

ap = argparse.ArgumentParser()
for a in ("seed", "start", "count"):
    ap.add_argument("--" + a, type=int, default=1)
for a in ("status", "scratch", "mode", "tier", "emit", "lib", "package"):
    ap.add_argument("--" + a, default="")
A = ap.parse_args()
os.environ["CENTAURUS_DL_PATH"] = A.lib
sys.path.insert(0, A.package)
sys.dont_write_bytecode = True
LIMIT = 60 if not os.environ.get("VK_SLOW") else 200


def digest(*parts):
    return hashlib.md5(repr(parts).encode("latin1", "backslashreplace")).hexdigest()


def silent(dice, name, text):
    """Whether the handler of this symbol returns None."""
    rate = dice % 4
    return rate and int(digest(dice, name, text)[:4], 16) % 8 < rate - 1


def common(case, name):
    """Rules left to the default handler."""
    return case["dice"] >> 4 & 1 and int(digest(case["dice"], name)[:4], 16) % 3 == 0


class Handler(object):
    def __init__(self, case, log):
        self._case, self._log = case, log
        for n in case["names"]:
            if not common(case, n):
                setattr(self, "parse" + n, self._make(n))
        if any(common(case, n) for n in case["names"]):
            self.defaultact = self._make("*")

    def _make(self, name):
        def handle(ctx):
            text = ctx.readbytes()
            args = list(ctx)
            bad = ""
            if len(ctx) != len(args) or bool(ctx) != bool(args):
                bad = "!len"
            for i in range(-len(args), len(args)):
                if ctx[i] != args[i]:
                    bad = "!item"
            for i in (len(args), -len(args) - 1):
                try:
                    ctx[i]
                    bad = "!beyond"
                except IndexError:
                    pass
            try:
                s = text.decode()
                if ctx.read() != s:
                    bad = "!read"
            except UnicodeDecodeError:
                pass
            if not all(isinstance(a, str) and len(a) == 32 for a in args):
                bad = "!args"
            h = digest(name, text, tuple(args))
            os.write(self._log, (h + bad + "\n").encode())
            return None if silent(self._case["dice"], name, text) else h
        return handle


def expect(case, inp):
    """The calls and the value of the input, from the reference's tree."""
    text = inp["text"].encode("latin1")
    ev = inp["ev"]
    stack, calls, root = [], [], None
    for k in range(0, len(ev), 2):
        if ev[k] >= 0:
            stack.append((ev[k], ev[k + 1], []))
            continue
        rule, start, args = stack.pop()
        name = case["names"][rule]
        if common(case, name):
            name = "*"
        piece = text[start:ev[k + 1]]
        h = digest(name, piece, tuple(args))
        calls.append(h)
        if silent(case["dice"], name, piece):
            h = None
        if stack:
            if h is not None:
                stack[-1][2].append(h)
        else:
            root = h
    return sorted(calls), root


class Disturb(threading.Thread):
    """Halts one worker process after the other for a while, so that they are early and late in every way."""
    def __init__(self, seed):
        super().__init__(daemon=True)
        self.dice, self.done, self.halts = random.Random(seed), threading.Event(), 0
    def run(self):
        while not self.done.is_set():
            ps = multiprocessing.active_children()
            if not ps:
                break
            p = self.dice.choice(ps)
            os.kill(p.pid, signal.SIGSTOP)
            self.halts += 1
            self.done.wait(self.dice.choice((0.002, 0.01, 0.04, 0.12)))
            os.kill(p.pid, signal.SIGCONT)
            self.done.wait(self.dice.choice((0, 0, 0.001, 0.003)))
    def end(self):
        self.done.set()
        self.join()
        return self.halts


def child(case, wfd, rfd_dir):
    """Runs one case; every step is told to the parent."""
    def say(**kw):
        os.write(wfd, (json.dumps(kw) + "\n").encode())
    import centaurus
    lib = centaurus.context.CoreLib
    lib.vk_page_size(ctypes.c_int(case["page"]))
    gpath, ipath, lpath = (os.path.join(rfd_dir, n) for n in ("g.cgr", "input", "log"))
    with open(gpath, "wb") as f:
        f.write(case["grammar"].encode("latin1"))
    log = os.open(lpath, os.O_CREAT | os.O_APPEND | os.O_RDWR)
    ctx = centaurus.Context(gpath)
    say(at="generated", pages=lib.vk_page_hits())
    if case["page"] and case["dice"] >> 8 & 1 and hasattr(ctx, "bank_size"):
        ctx.bank_size = case["page"]
    ctx.attach(Handler(case, log))
    rounds = [case["inputs"]]
    if case["dice"] >> 6 & 1 and len(case["inputs"]) > 1:      # stopped and started again in between
        rounds = [case["inputs"][:1], case["inputs"][1:]]
    n = 0
    for part in rounds:
        ctx.start(case["workers"])
        disturb = [Disturb(case["case"] * 4 + k) for k in range(case["dice"] >> 9 & 3)]
        for d in disturb:
            d.start()
        say(at="started")
        for inp in part:
            with open(ipath + str(n), "wb") as f:
                f.write(inp["text"].encode("latin1"))
            say(at="parse", n=n)
            v = ctx.parse(ipath + str(n))
            # all handlers have been called by now
            with open(lpath, "rb") as f:
                calls = f.read().decode().split()
            os.ftruncate(log, 0)
            say(at="parsed", n=n, value=v, calls=calls)
            n += 1
        halts = sum([d.end() for d in disturb])
        ctx.stop()
        say(at="stopped", halts=halts)
    left = [x for x in os.listdir("/dev/shm") if "[%d]" % os.getpid() in x]
    say(at="end", left=left)


counters, distinct, samples = {}, {"trees": set()}, []


def inc(k, n=1):
    counters[k] = counters.get(k, 0) + n


def viol(case, key, what):
    print(json.dumps({"t": "viol", "case": case["case"], "key": key, "what": what[:3000]}), flush=True)


def run(case, limit=LIMIT):
    tmp = os.path.join(A.scratch, "c%d" % case["case"])
    os.mkdir(tmp)
    r, w = os.pipe()
    err = open(os.path.join(tmp, "err"), "wb+")
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.close(r)
            os.dup2(err.fileno(), 2)
            os.dup2(err.fileno(), 1)
            child(case, w, tmp)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
    os.close(w)
    os.set_blocking(r, False)
    buf, end, status = b"", time.time() + limit, None
    while True:
        try:
            d = os.read(r, 1 << 20)
            buf += d
        except BlockingIOError:
            d = None
        if status is None:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                status = st
                continue            # what it said between the read and its end
        elif d in (None, b""):
            break
        if time.time() > end:
            break
        if not d:
            time.sleep(0.003)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    hang = status is None
    if hang:
        os.waitpid(pid, 0)
    os.close(r)
    said = [json.loads(l) for l in buf.decode().split("\n") if l.endswith("}")]
    err.seek(0)
    etext = err.read().decode(errors="replace")
    err.close()
    if os.environ.get("VK_SHOW"):
        sys.stderr.write(etext)
    for x in os.listdir("/dev/shm"):
        if "[%d]" % pid in x:
            try:
                os.unlink("/dev/shm/" + x)
            except OSError:
                pass
    subprocess.call(["rm", "-rf", tmp])
    tell = "%d workers, pages of %d bytes, grammar %r, input %%r" % (case["workers"], case["page"], case["grammar"])
    last = said[-1] if said else {"at": "start"}
    at_n = max([s["n"] for s in said if "n" in s] or [0])
    for s in said:
        if s["at"] != "parsed":
            continue
        inp = case["inputs"][s["n"]]
        calls, root = expect(case, inp)
        inc("parses"); inc("accepted" if inp["ok"] else "rejected"); inc("calls", len(s["calls"]))
        if s["n"]:
            inc("later-parses")
        if len(distinct["trees"]) < 200000:
            distinct["trees"].add(int(digest(tuple(calls), case["workers"], case["page"])[:11], 16))
        what = tell % inp["text"]
        if any("!" in c for c in s["calls"]):
            return viol(case, "handler", "a handler sees values or text that do not fit (%s): " % [c for c in s["calls"] if "!" in c][0][32:] + what)
        if sorted(s["calls"]) != calls:
            miss = list(calls)
            extra = []
            for c in s["calls"]:
                if c in miss: miss.remove(c)
                else: extra.append(c)
            return viol(case, "calls" if inp["ok"] else "calls-rejected", "%d calls of %d are missing, %d are others: " % (len(miss), len(calls), len(extra)) + what + " " + etext[-1500:])
        if inp["ok"] and s["value"] != root:
            return viol(case, "value", "the value of the input is %r instead of %r: " % (s["value"], root) + what)
    if hang and limit == LIMIT:
        inc("slow")              # once more: a slow machine is not a violation
        return run(case, 2 * LIMIT)
    if hang:
        return viol(case, "hang", "does not end after '%s': " % last["at"] + tell % case["inputs"][at_n]["text"] + " " + etext[-1500:])
    if status != 0:
        return viol(case, "died", "ends with status %d after '%s': " % (status, last["at"]) + tell % case["inputs"][at_n]["text"] + " " + etext[-1500:])
    if last["at"] != "end":
        return viol(case, "silent", "ends after '%s'" % last["at"])
    if last["left"]:
        return viol(case, "left", "leaves %s: " % last["left"] + tell % case["inputs"][-1]["text"])
    inc("contexts")
    inc("halts", sum(s.get("halts", 0) for s in said))
    if sum(1 for s in said if s["at"] == "started") > 1:
        inc("restarts")
    inc("workers-%d" % case["workers"])
    if len(samples) < 3:
        samples.append(tell % case["inputs"][0]["text"][:300])


def main():
    out = subprocess.run([A.emit, "--mode", "emit", "--seed", str(A.seed), "--start", str(A.start), "--count", str(A.count),
                          "--scratch", A.scratch], stdout=subprocess.PIPE, check=True).stdout.decode()
    import centaurus
    hung = 0
    for line in out.splitlines():
        case = json.loads(line)
        if case["t"] != "case":
            continue
        with open(A.status, "w") as f:
            f.write("%d\n\n%s" % (case["case"], case["grammar"]))
        t = time.time()
        run(case)
        hung += time.time() - t > LIMIT
        if hung >= 2:
            break
    print(json.dumps({"t": "sum", "counters": counters, "distinct": {k: sorted(v) for k, v in distinct.items()}, "samples": samples}), flush=True)


main()
