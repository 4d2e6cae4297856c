"""P25: grammars in Python.  Protocol and arguments as py_context.py.

Every case runs in a process of its own, so that one that takes the interpreter with it is seen.
"""
import argparse, gc, hashlib, json, os, random, resource, signal, subprocess, sys, time, traceback

ap = argparse.ArgumentParser()
for a in ("seed", "start", "count"):
    ap.add_argument("--" + a, type=int, default=1)
for a in ("status", "scratch", "mode", "tier", "emit", "lib", "package"):
    ap.add_argument("--" + a, default="")
A = ap.parse_args()
os.environ["CENTAURUS_DL_PATH"] = A.lib
sys.path.insert(0, A.package)
sys.dont_write_bytecode = True
LIMIT = 45 if not os.environ.get("VK_SLOW") else 200


def wrong(case, dir):
    """Does what the case says; returns what is wrong, and what was seen."""
    import centaurus
    from centaurus import corelib
    dice = random.Random(case["dice"])
    seen = {}
    def saw(k):
        seen[k] = seen.get(k, 0) + 1
        seen["asked"] = seen.get("asked", 0) + 1
    held = []
    for n, f in enumerate(case["files"]):
        path = os.path.join(dir, dice.choice(("g%d.cgr", "gr\u00e4mmar%d", "with blank %d.cgr")) % n)
        with open(path, "wb") as o:
            o.write(f["text"].encode("latin1"))
        whole = dice.random() < 0.3          # by way of a context
        try:
            g = centaurus.Context(path).grammar if whole and (not f["ok"] or f["code"]) else corelib.Grammar(path)
        except Exception as e:
            if f["ok"]:
                return "good", "a good grammar is refused with %r: %r" % (e, f["text"]), seen
            what = f["what"].encode("latin1").decode("utf-8", "replace").replace(dir, "").strip()
            said = str(e).replace(dir, "")
            if not what or what.split("/")[-1][:200] not in said:
                # the file has another name than the one that the library was asked about
                if "emit.cgr" not in what:
                    return "message", "the exception says %r, the library %r: %r" % (said, what, f["text"]), seen
            saw("refused")
            continue
        if not f["ok"]:
            return "bad", "a bad grammar is taken: %r" % f["text"], seen
        saw("read")
        held.append([g, f, 0])
        dice.shuffle(held)
        for g, f, optimized in held:
            ids = f["names"]
            if g.get_machine_num() != len(ids):
                return "ids", "%d rules instead of %d: %r" % (g.get_machine_num(), len(ids), f["text"]), seen
            for name, id in ids.items():
                if g.get_machine_id(name) != id or g.get_machine_name(id) != name:
                    return "ids", "rule %s has id %d, id %d is %s: %r" % (name, g.get_machine_id(name), id, g.get_machine_name(id), f["text"]), seen
                saw("names")
        for k in range(dice.randint(0, 2)):
            it = dice.choice(held)
            g, f = it[:2]
            if dice.random() < 0.3 and it[2] < 2:
                g.optimize()
                it[2] += 1
            out, diagram = os.path.join(dir, dice.choice(("out", "d\u00efagram"))), f["prints"][it[2]]
            if diagram is None:
                try:
                    g.print(out)
                    return "print", "a rule that is not there is drawn: %r" % f["text"], seen
                except Exception:
                    saw("undrawable")
                    continue
            g.print(out)
            with open(out, "rb") as o:
                got = o.read()
            if got != diagram.encode("latin1"):
                return "print", "the diagram differs: %r instead of %r" % (got[-300:], diagram[-300:]), seen
            os.unlink(out)
            saw("diagrams")
        if held:
            g, f = dice.choice(held)[:2]
        if held and f["code"] and dice.random() < 0.5:
            parts = [corelib.Parser(g), corelib.Parser(g, True), corelib.Chaser(g)]
            if not all(p.handle for p in parts):
                return "code", "no parser or chaser for %r" % f["text"], seen
            dice.shuffle(parts)
            while parts:
                parts.pop()
            saw("parsers")
        if dice.random() < 0.3:
            held.pop(dice.randrange(len(held)))
            gc.collect()
        if dice.random() < 0.2:
            try:
                corelib.Grammar(os.path.join(dir, "not there"))
                return "missing", "a grammar file that is not there gives a grammar", seen
            except Exception as e:
                if "not there" not in str(e):
                    return "missing", "the exception for a file that is not there says %r" % str(e), seen
            saw("missing")
        if dice.random() < 0.2 and held:
            try:
                held[0][0].print(os.path.join(dir, "no directory", "out"))
                return "unwritable", "a diagram that cannot be written is not reported", seen
            except Exception:
                saw("unwritable")
        if dice.random() < 0.2 and held:
            try:
                held[0][0].get_machine_id("no such rule")
                return "ids", "a rule that is not there has an id", seen
            except Exception:
                pass
    return None, None, seen


counters, distinct, samples = {}, {"files": set()}, []


def inc(k, n=1):
    counters[k] = counters.get(k, 0) + n


def viol(case, key, what):
    print(json.dumps({"t": "viol", "case": case["case"], "key": key, "what": what[:3000]}), flush=True)


def run(case):
    tmp = os.path.join(A.scratch, "p%d" % case["case"])
    os.mkdir(tmp)
    out, err = os.path.join(tmp, ".out"), os.path.join(tmp, ".err")
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            fd = os.open(err, os.O_CREAT | os.O_RDWR)
            os.dup2(fd, 1); os.dup2(fd, 2)
            r = wrong(case, tmp)
            gc.collect()
            with open(out, "w") as f:
                json.dump(r, f)
            code = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    end, st = time.time() + LIMIT, None
    while st is None and time.time() < end:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            st = s
        else:
            time.sleep(0.002)
    if st is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    with open(err, errors="replace") as f:
        etext = f.read()
    r = None
    if st == 0:
        with open(out) as f:
            r = json.load(f)
    subprocess.call(["rm", "-rf", tmp])
    texts = " / ".join(repr(f["text"][:600]) for f in case["files"])
    if st is None:
        inc("hangs")
        return viol(case, "hang", "no answer in %d s: %s" % (LIMIT, texts))
    if r is None:
        return viol(case, "died", "the interpreter ended with status %#x: %s %s" % (st, etext[-800:], texts))
    for k, v in r[2].items():
        inc(k, v)
    for f in case["files"]:
        distinct["files"].add(int(hashlib.md5(f["text"].encode("latin1")).hexdigest()[:11], 16))
    if r[0]:
        return viol(case, r[0], r[1])
    if "Exception ignored" in etext:
        return viol(case, "noise", etext[-800:] + texts)
    if len(samples) < 3:
        samples.append(texts[:400])


def main():
    import centaurus
    p = subprocess.Popen([A.emit, "--seed", str(A.seed), "--start", str(A.start), "--count", str(A.count), "--scratch", A.scratch], stdout=subprocess.PIPE)
    for line in p.stdout:
        case = json.loads(line)
        if case.get("t") != "case":
            continue
        if A.status:
            with open(A.status, "wb") as f:
                f.write(("%d\n\n%s" % (case["case"], [x["text"] for x in case["files"]])).encode()[:60000] + b"\0")
        run(case)
        inc("cases")
        if counters.get("hangs", 0) >= 3:      # enough is seen
            p.kill()
            p.wait()
            p.returncode = 0
            break
    if p.wait():
        sys.stderr.write("emitter failed: %d\n" % p.returncode)
        sys.exit(p.returncode if p.returncode > 0 else 70)
    print(json.dumps({"t": "sum", "counters": counters, "distinct": {k: sorted(v) for k, v in distinct.items()}, "samples": samples}), flush=True)


main()
