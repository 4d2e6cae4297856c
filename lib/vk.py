"""Build, run and report: what every check of /verif shares.

A check builds its harness from /repo's current working tree (objects are cached under
/verif/build by the hash of everything that went into them), runs it in shards, collects the
verdicts of its oracles and the crashes its sanitizers report, compares every violation with
known-findings.txt, writes evidence/<id>.json and exits 0 or 1 (2: the machinery itself failed).
"""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
BUILD = os.environ.get("VK_BUILD", os.path.join(VERIF, "build"))
CORE = os.path.join(REPO, "src", "core")
HARNESS = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4

CORE_SOURCES = ["ATN.cpp", "CharClass.cpp", "CompositeATN.cpp", "Util.cpp", "Grammar.cpp"]
BASE_FLAGS = ["-std=c++14", "-fPIC", "-funsigned-char", "-DCENTAURUS_BUILD_LINUX", "-w",
              "-g1", "-pthread"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS"],          # with the code's own assertions
    "tsan": ["-O1", "-DNDEBUG", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O2"],
    "msan": ["-O1", "-DNDEBUG"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3000",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1:report_thread_leaks=0",
    "LSAN_OPTIONS": "exitcode=99",
}


class MachineryError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


_header_digest = {}


def header_digest(extra_dirs=()):
    key = tuple(extra_dirs)
    if key not in _header_digest:
        files = []
        for d in (os.path.join(REPO, "src"), HARNESS, os.path.join(REPO, "MsTestEmulator"), *extra_dirs):
            for root, dirs, names in os.walk(d):
                files += [os.path.join(root, n) for n in names if n.endswith((".hpp", ".h", ".cpp", ".inc"))]
        # sources matter only to the objects made from them, but some harnesses include them
        _header_digest[key] = _digest(files)
    return _header_digest[key]


def compile_one(src, flags, cxx):
    tag = hashlib.sha256(("\0".join([cxx, src] + flags) + header_digest()).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + tag + ".o")
    if os.path.exists(obj):
        return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([cxx] + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return None, "%s: %s" % (src, r.stdout[-3000:])
    os.rename(tmp, obj)
    return obj, None


def build(name, harness_sources, san="asan", core=CORE_SOURCES, flags=(), includes=(), libs=(), cxx="g++"):
    """Compiles and links one harness; returns the path of the executable."""
    fl = list(BASE_FLAGS) + SAN[san] + list(flags) + ["-I" + i for i in includes] + ["-I" + HARNESS, "-I" + CORE]
    srcs = [os.path.join(CORE, c) if not os.path.isabs(c) else c for c in core]
    srcs = [os.path.join(HARNESS, s) if not os.path.isabs(s) else s for s in harness_sources] + srcs
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda s: compile_one(s, fl, cxx), srcs))
    errs = [e for o, e in res if e]
    if errs:
        raise MachineryError("build of %s failed: %s" % (name, "\n".join(errs)))
    objs = [o for o, e in res]
    tag = hashlib.sha256("\0".join(objs + list(libs)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "bin", name + "." + tag)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([cxx] + fl + objs + ["-o", tmp] + list(libs) + ["-ldl", "-lrt"])
        if r.returncode != 0:
            raise MachineryError("link of %s failed: %s" % (name, r.stdout[-3000:]))
        os.rename(tmp, exe)
    return exe


def crash_signature(rc, err):
    if rc == 86 or "HANG\n" in err:
        return "hang"
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\-]+(?: [\w\-]+)?)(.*)", err)
    kind = None
    if "hard rss limit exhausted" in err:
        return "memory"         # the biggest case of any check needs a tenth of it
    if m:
        kind = m.group(2).split(" ")[0]
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
        fn = ""
        for f in frames:
            if "Centaurus::" in f or "/src/core/" in f:
                fn = re.sub(r"\(.*", "", f.split(" /")[0]).strip()
                fn = re.sub(r"<.*?>", "", fn)
                break
        return "%s:%s%s" % (m.group(1), kind, (" in " + fn) if fn else "")
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "UBSan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:80]
    m = re.search(r"Assertion '([^']*)' failed", err) or re.search(r"Assertion `([^']*)' failed", err)
    if m:
        return "assert:" + m.group(1)[:80]
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "uncaught:" + m.group(1)
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


class Check:
    def __init__(self, pid, tier=None, level="exploration"):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.level = level
        self.t0 = time.time()
        self.counters = {}
        self.distinct = {}
        self.samples = []
        self.violations = []      # (key, what, replay dict)
        self.inconclusive = []
        self.hung = False
        self.assumptions = []
        self.rule = ""
        self.extra = {}
        self.scratch = tempfile.mkdtemp(prefix="vk-%s-" % pid)
        self.known = load_known(pid)

    # -- tiers
    def n(self, quick, thorough):
        v = thorough if self.tier == "thorough" else quick
        return int(os.environ.get("VK_CASES", v))

    def build(self, *a, **kw):
        return build(*a, **kw)

    # -- violations
    def viol(self, key, what, replay=None):
        self.violations.append((key, what, replay or {}))

    def add_summary(self, s):
        for k, v in s.get("counters", {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in s.get("distinct", {}).items():
            self.distinct.setdefault(k, set()).update(v)
        for x in s.get("samples", []):
            if len(self.samples) < 8:
                self.samples.append(x)

    # -- running a harness
    def run(self, exe, total, mode="", args=(), shards=None, env=None, timeout=700, per_shard_min=1, tag="",
            prefix=(), crash_is_violation=True):
        """Runs cases 0..total-1 of the harness in parallel shards and collects what they report."""
        shards = shards or NCPU
        shards = max(1, min(shards, total // per_shard_min or 1))
        step = (total + shards - 1) // shards
        jobs = [(i * step, min(step, total - i * step)) for i in range(shards) if total - i * step > 0]
        with concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
            list(ex.map(lambda j: self._shard(exe, j[0], j[1], mode, list(args), env, timeout, tag or mode, list(prefix),
                                              crash_is_violation), jobs))

    def _cmd(self, exe, start, count, mode, args, status, scratch, prefix):
        return prefix + [exe, "--seed", str(self.seed), "--start", str(start), "--count", str(count), "--tier", self.tier,
                "--status", status, "--scratch", scratch] + (["--mode", mode] if mode else []) + args

    def _spawn(self, cmd, env, timeout):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e["LC_ALL"] = "C"
        if env:
            e.update(env)
        out = tempfile.TemporaryFile(dir=self.scratch)
        err = tempfile.TemporaryFile(dir=self.scratch)
        p = subprocess.Popen(cmd, stdout=out, stderr=err, env=e, start_new_session=True, cwd=self.scratch)
        to = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

        def tail(f, n):
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode(errors="replace")
        so, se = tail(out, 64 << 20), tail(err, 400000)
        out.close(); err.close()
        return p.returncode, so, se, to

    def _shard(self, exe, start, count, mode, args, env, timeout, tag, prefix, crash_is_violation):
        deadline = time.time() + timeout
        end = start + count
        crashes = 0
        status = os.path.join(self.scratch, "status-%s-%d" % (re.sub(r"\W", "_", tag), start))
        while start < end:
            sdir = tempfile.mkdtemp(dir=self.scratch)
            cmd = self._cmd(exe, start, end - start, mode, args, status, sdir, prefix)
            rc, so, se, to = self._spawn(cmd, env, max(5, deadline - time.time()))
            shutil.rmtree(sdir, ignore_errors=True)
            got = False
            for line in so.splitlines():
                if not line.startswith("{"):
                    continue
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j["t"] == "viol":
                    self.viol(j["key"], j["what"], self._replay(exe, j["case"], mode, args))
                elif j["t"] == "sum":
                    self.add_summary(j)
                    got = True
            if got and rc == 0:
                return
            if to:
                self.inconclusive.append("%s: shard from case %d ran out of its %d s" % (tag, start, timeout))
                return
            # the harness died: the status page tells in which case
            try:
                with open(status, "rb") as f:
                    st = f.read().split(b"\0")[0].decode(errors="replace").split("\n", 2)
                case, key, text = int(st[0]), st[1], st[2] if len(st) > 2 else ""
            except (OSError, ValueError, IndexError):
                raise MachineryError("%s: harness died before its first case (rc %s): %s" % (tag, rc, se[-1500:]))
            sig = crash_signature(rc, se)
            if sig == "hang" and self.hung:
                return          # another shard has shown a hang already
            if sig == "hang" or sig.startswith("signal:SIGKILL"):
                # once more, alone: a slow machine is not a violation
                sdir = tempfile.mkdtemp(dir=self.scratch)
                e2 = dict(env or {}); e2["VK_SLOW"] = "1"
                rc2, so2, se2, to2 = self._spawn(self._cmd(exe, case, 1, mode, args, status + "r", sdir, prefix), e2, 250)
                shutil.rmtree(sdir, ignore_errors=True)
                if rc2 == 0:
                    self.inconclusive.append("%s: case %d was slow once (%s)" % (tag, case, sig))
                    start = case + 1
                    continue
                sig = crash_signature(rc2, se2) if not to2 else "hang"
            if crash_is_violation:
                self.viol((key + "|" if key else "") + "crash:" + sig, "%s while: %s" % (sig, text[:600]),
                          dict(self._replay(exe, case, mode, args), stderr=se[-6000:]))
            else:
                self.inconclusive.append("%s: case %d: %s" % (tag, case, sig))
            crashes += 1
            if sig == "hang":
                self.hung = True
                return
            if crashes >= 4:
                return
            start = case + 1

    def _replay(self, exe, case, mode, args):
        return {"harness": os.path.basename(exe), "seed": self.seed, "case": case, "mode": mode, "args": list(args),
                "tier": self.tier,
                "rerun": "%s --seed %d --start %d --count 1 --tier %s %s %s" % (
                    exe, self.seed, case, self.tier, ("--mode " + mode) if mode else "", " ".join(args))}

    # -- the verdict
    def finish(self, evaluations, distinct_nontrivial, rule, min_distinct=1):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        new, known = [], {}
        for key, what, rep in self.violations:
            k = match_known(self.known, key)
            if k:
                known.setdefault(k["key"], k)
            else:
                new.append((key, what, rep))
        printed = 0
        seen = set()
        for key, what, rep in new:
            if key in seen and printed >= 5:
                continue
            seen.add(key)
            printed += 1
            if printed > 12:
                break
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (self.pid, printed))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": what, "replay": rep}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  %s: %s" % (key, what[:1200]))
        for k in known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for x in self.inconclusive[:10]:
            print("inconclusive: " + x)
        cov = {"evaluations": int(evaluations), "distinct_nontrivial": int(distinct_nontrivial), "rule": rule,
               "samples": self.samples or ["(none)"],
               "observed": {k: v for k, v in sorted(self.counters.items())},
               "distinct_observed": {k: len(v) for k, v in sorted(self.distinct.items())}}
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:50]
        cov.update(self.extra)
        cov["peak_mb"] = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss >> 10
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            return 1
        if distinct_nontrivial < min_distinct:
            print("machinery: only %d distinct non-trivial cases were observed (%d needed)" % (distinct_nontrivial, min_distinct))
            return 2
        if self.inconclusive and not evaluations:
            return 2
        print("held: property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, evaluations, distinct_nontrivial, time.time() - self.t0))
        return 0


def load_known(pid):
    """known-findings.txt: 'known: property=<id> key=<regex> :: <what fails>' and 'fixed: ...' lines."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append({"key": m.group(2), "what": m.group(3)})
    return res


def match_known(known, key):
    for k in known:
        if re.fullmatch(k["key"], key):
            return k
    return None
