"""One function per property; each decides it and returns the exit status."""
import os, sys
import vk

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def setup():
    for tool in (["g++", "--version"], ["python3", "--version"]):
        r = vk.sh(tool)
        if r.returncode != 0:
            print("missing tool:", tool[0])
            return 1
    os.makedirs(vk.BUILD, exist_ok=True)
    print("ready")
    return 0


@check("P01")
def p01(c):
    exe = c.build("charclass", ["h_charclass.cpp"], core=["CharClass.cpp", "Util.cpp"])
    c.run(exe, c.n(6000, 120000))
    return c.finish(c.counters.get("classes", 0), len(c.distinct.get("sets", ())),
                    "random programs over character classes (parsing, |, |=, &, ~, difference, construction) in char, unsigned char and "
                    "wchar_t; every result is compared with a plain set, character by character; distinct = different resulting sets",
                    min_distinct=1000)


@check("P02")
def p02(c):
    exe = c.build("regex", ["h_regex.cpp"], core=["CharClass.cpp", "Util.cpp"])
    c.run(exe, c.n(6000, 120000), mode="language")
    return c.finish(c.counters.get("product-states", 0) + c.counters.get("accepted", 0) + c.counters.get("rejected", 0),
                    len(c.distinct.get("regexes", ())),
                    "random regular expressions (all operators and quantifier spellings, nested and nullable); for each the product of "
                    "the reference automaton with the plain and the minimized DFA over every class of characters, plus sampled and mutated "
                    "strings through NFA and DFAs; distinct = different expressions", min_distinct=500)


@check("P03")
def p03(c):
    exe = c.build("regex", ["h_regex.cpp"], core=["CharClass.cpp", "Util.cpp"])
    c.run(exe, c.n(5000, 120000), mode="structure")
    return c.finish(c.counters.get("dfa-structures", 0), len(c.distinct.get("regexes", ())),
                    "random regular expressions; every state of the plain and the minimized DFA is visited (determinism, targets, "
                    "reachability), and the two automata are compared state pair by state pair; distinct = different expressions",
                    min_distinct=500)


def grammar(c, mode, quick, thorough):
    exe = c.build("grammar", ["h_grammar.cpp"])
    c.run(exe, c.n(quick, thorough), mode=mode)


@check("P04")
def p04(c):
    grammar(c, "front", 4000, 100000)
    return c.finish(c.counters.get("rules", 0), len(c.distinct.get("grammars", ())),
                    "random grammars (all constructs, escapes, groups, quantifiers, ordered choices, local ids, duplicate rules, includes) printed and read back; every rule's network is compared with the written structure by a bisimulation-like walk over symbol sequences; evaluations = rules compared, distinct = different grammars", min_distinct=500)


@check("P05")
def p05(c):
    grammar(c, "layout", 3000, 60000)
    return c.finish(c.counters.get("layouts", 0), len(c.distinct.get("grammars", ())),
                    "each random grammar is read in its plain layout and in four random ones (blanks, comments, CRLF, split over included files, moved); ids and every node and transition must be equal; evaluations = layouts compared, distinct = different grammars", min_distinct=500)


@check("P06")
def p06(c):
    grammar(c, "optimize", 3000, 60000)
    return c.finish(c.counters.get("rules", 0), len(c.distinct.get("grammars", ())),
                    "random grammars read with and without optimization (both ways of asking for it); ids and the language of symbol sequences of every rule are compared; evaluations = rules, distinct = different grammars", min_distinct=500)


@check("P07")
def p07(c):
    grammar(c, "decide", 1100, 30000)
    return c.finish(c.counters.get("decided", 0), len(c.distinct.get("grammars", ())),
                    "random grammars, ordered choices included, optimized or not; at every decision the automaton is driven step by step along words steered to stay undecided and along damaged ones, and compared with a reference that explores the grammar itself; evaluations = words the reference decides, distinct = different grammars", min_distinct=300)


@check("P08")
def p08(c):
    grammar(c, "verify", 1500, 30000)
    return c.finish(c.counters.get("accepted", 0) + c.counters.get("refused", 0), len(c.distinct.get("grammars", ())),
                    "random, LL(1)-by-construction, left-recursive and incomplete grammars; the verdict is compared with the construction or with the reference exploration, under a CPU limit; evaluations = verdicts, distinct = different grammars", min_distinct=300)


@check("P09")
def p09(c):
    grammar(c, "fuzz", 6000, 200000)
    return c.finish(c.counters.get("cases", 0), len(c.distinct.get("inputs", ())),
                    "token soup and mutated grammars, patterns and paths under AddressSanitizer and UndefinedBehaviorSanitizer with a CPU limit per case; evaluations = cases, distinct = different grammar texts", min_distinct=1000)


@check("P10")
def p10(c):
    grammar(c, "errors", 3000, 60000)
    return c.finish(c.counters.get("errors", 0), len(c.distinct.get("texts", ())),
                    "a stray character is put into a random layout of a random grammar, on a known line; the message has to name line and character; evaluations = errors, distinct = different texts", min_distinct=500)


@check("P11")
def p11(c):
    grammar(c, "diagrams", 1500, 30000)
    return c.finish(c.counters.get("diagrams", 0), len(c.distinct.get("grammars", ())),
                    "every kind of diagram of random grammars is tokenized as Graphviz; nodes, edges and read-back labels are compared with the automaton; evaluations = diagrams, distinct = different grammars", min_distinct=300)


WRAPS = "-Wl,--wrap=sem_wait,--wrap=sem_post,--wrap=getpid"


def runner(c, san, py=False):
    return c.build("runner-%s%s" % (san, "-py" if py else ""), ["h_runner.cpp"], san=san, core=[],
                   flags=["-DPYCENTAURUS=1"] if py else [],
                   libs=[WRAPS + (",--wrap=mmap,--wrap=munmap" if san == "tsan" else "")])


@check("P13")
def p13(c):
    c.run(runner(c, "asan"), c.n(1200, 200000), mode="reduce")
    c.run(runner(c, "asan", True), c.n(1200, 200000), mode="reduce", tag="reduce-py")
    return c.finish(c.counters.get("reductions", 0), len(c.distinct.get("configurations", ())),
                    "marker streams of random trees pushed through the real stages page by page; every reduction's symbol, extent and "
                    "arguments are hashed and the multiset, the final value and the traces of the hand-over are compared with a "
                    "sequential reduction; evaluations = reductions, distinct = configurations (page size, banks, workers, tree)",
                    min_distinct=500)


@check("P14")
def p14(c):
    c.run(runner(c, "tsan"), c.n(2500, 100000), mode="race")
    c.run(runner(c, "tsan", True), c.n(2000, 100000), mode="race", tag="race-py")
    return c.finish(c.counters.get("parses", 0), len(c.distinct.get("schedules", ())),
                    "parses under ThreadSanitizer with yields and sleeps injected into listeners, semaphores and the feeding of pages, "
                    "and a time limit for each; evaluations = parses, distinct = orders in which the stages met (hand-over events)",
                    min_distinct=300)


@check("P15")
def p15(c):
    env = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
    c.run(runner(c, "plain"), c.n(900, 40000), mode="resources", env=env)
    c.run(runner(c, "plain", True), c.n(900, 40000), mode="resources", env=env, tag="resources-py")
    return c.finish(c.counters.get("balances", 0), len(c.distinct.get("configurations", ())),
                    "every configuration is parsed five times; descriptors, mapped bytes, allocated bytes, threads and /dev/shm are read "
                    "after each; a violation is growth with every parse or an object left; evaluations = balances taken, distinct = "
                    "configurations", min_distinct=300)


@check("P16")
def p16(c):
    c.run(runner(c, "asan"), c.n(700, 60000), mode="stale")
    c.run(runner(c, "asan", True), c.n(350, 40000), mode="stale", tag="stale-py")
    return c.finish(c.counters.get("recoveries", 0) + c.counters.get("pairs", 0), len(c.distinct.get("histories", ())),
                    "processes with one process id are killed at a random event of a parse, what they leave is damaged at random, and "
                    "a parse afterwards is compared with the sequential reduction; also two processes at once; evaluations = recoveries "
                    "and pairs, distinct = histories", min_distinct=200)


@check("P17")
def p17(c):
    c.run(runner(c, "asan"), c.n(6000, 100000), mode="input")
    return c.finish(c.counters.get("windows", 0), len(c.distinct.get("sizes", ())),
                    "files of sizes around every boundary, missing files, directories, odd names; each stage's window is compared byte "
                    "by byte with the file and the zeros behind it; evaluations = inputs, distinct = sizes", min_distinct=300)


def jit(c, mode, quick, thorough):
    exe = c.build("jit", ["h_jit.cpp"], core=vk.CORE_SOURCES + ["CodeGenEM64T.cpp"], includes=[vk.HARNESS + "/shim"])
    c.run(exe, c.n(quick, thorough), mode=mode)


@check("P19")
def p19(c):
    jit(c, "routines", 8000, 200000)
    return c.finish(c.counters.get("terminals", 0) + c.counters.get("literals", 0) + c.counters.get("blanks", 0),
                    len(c.distinct.get("programs", ())),
                    "the generated routines for terminals, literals and blanks are executed over texts steered by the automaton, stretched past "
                    "the width of a vector, at every alignment, and compared with the reference automaton; every access is checked against the "
                    "text; evaluations = matches, distinct = generated routines", min_distinct=500)


@check("P20")
def p20(c):
    jit(c, "lookahead", 6000, 120000)
    return c.finish(c.counters.get("decided", 0) + c.counters.get("none", 0), len(c.distinct.get("programs", ())),
                    "the generated decision code is executed over words steered along the lookahead automaton and damaged ones and compared "
                    "with a walk of that automaton; evaluations = decisions, distinct = generated routines", min_distinct=500)


@check("P21")
def p21(c):
    jit(c, "parse", 6000, 120000)
    return c.finish(c.counters.get("parses", 0), len(c.distinct.get("trees", ())),
                    "generated parsers of random grammars are executed over sentences, damaged sentences and pages of random sizes; verdict, "
                    "markers and page requests are compared with a reference parser over the grammar's structure; evaluations = parses, "
                    "distinct = syntax trees", min_distinct=500)


@check("P22")
def p22(c):
    jit(c, "chase", 6000, 120000)
    return c.finish(c.counters.get("chases", 0) + c.counters.get("dry-parses", 0), len(c.distinct.get("texts", ())),
                    "generated chasers and dry parsers are executed over sentences and damaged ones and compared with the reference parser, "
                    "symbol by symbol; evaluations = chases and dry parses, distinct = texts", min_distinct=500)


JIT = vk.CORE_SOURCES + ["CodeGenEM64T.cpp"]
SHIM = [vk.HARNESS + "/shim"]


@check("P12")
def p12(c):
    tool = c.build("tool", [os.path.join(vk.REPO, "src/tool/main.cpp")], core=JIT, includes=SHIM)
    c.run(c.build("toolcheck", ["h_tool.cpp"]), c.n(1300, 40000), args=["--tool", tool])
    return c.finish(c.counters.get("runs", 0), len(c.distinct.get("commands", ())),
                    "the tool is run on random grammars, paths and patterns, good and bad, and its exit code, output, file and message are "
                    "compared with the library called directly; wrong command lines have to give the usage; evaluations = runs, distinct = "
                    "command lines with what they should print", min_distinct=500)


@check("P18")
def p18(c):
    exe = c.build("context", ["h_context.cpp"], core=JIT, includes=SHIM)
    c.run(exe, c.n(800, 40000))
    return c.finish(c.counters.get("calls", 0), len(c.distinct.get("trees", ())),
                    "C++ contexts for random grammars with functions attached to random rules parse files, one after another, with pages of "
                    "random sizes and several workers; every call's rule, local id, text and order is compared with the tree of a reference "
                    "parser; evaluations = calls, distinct = trees", min_distinct=200)


def pycentaurus(c):
    """The directory of the library that the Python package loads."""
    so = c.build("libpycentaurus", ["py_page.cpp", os.path.join(vk.REPO, "src/pydll/PyCentaurus.cpp")], san="plain", core=JIT,
                 includes=SHIM, libs=["-shared"])
    lib = os.path.join(c.scratch, "lib")
    os.makedirs(lib, exist_ok=True)
    link = os.path.join(lib, "libpycentaurus.so")
    if not os.path.lexists(link):
        os.symlink(so, link)
    return lib


@check("P23")
def p23(c):
    exe = c.build("context", ["h_context.cpp"], core=JIT, includes=SHIM)
    lib = pycentaurus(c)
    c.run(os.path.join(vk.HARNESS, "py_context.py"), c.n(900, 30000), prefix=[sys.executable], env={"PYTHONDONTWRITEBYTECODE": "1"},
          args=["--emit", exe, "--lib", lib, "--package", os.path.join(vk.REPO, "src/python")])
    return c.finish(c.counters.get("calls", 0), len(c.distinct.get("trees", ())),
                    "the Python package parses sentences and damaged ones of random grammars with random workers and page sizes, parse after "
                    "parse and start after start; the value of the input, computed by listeners from rule, text and arguments, is compared "
                    "with the reference parser's tree; evaluations = calls expected, distinct = trees", min_distinct=200)


@check("P24")
def p24(c):
    exe = c.build("docs", ["h_docs.cpp"], core=JIT, includes=SHIM)
    c.run(exe, c.n(1700, 60000), args=["--grammars", os.path.join(vk.REPO, "grammars")])
    return c.finish(c.counters.get("documents", 0), len(c.distinct.get("documents", ())),
                    "documents written by a generator for each shipped grammar, together with their trees, are read by C++ contexts with random "
                    "workers and page sizes, and the calls are compared with the trees; damaged JSON values and calculations are judged by a "
                    "recognizer of its own; evaluations = documents, distinct = documents", min_distinct=2000)


@check("P25")
def p25(c):
    exe = c.build("pygram", ["h_pygram.cpp"], core=JIT, includes=SHIM)
    c.run(os.path.join(vk.HARNESS, "py_grammar.py"), c.n(1500, 60000), prefix=[sys.executable], env={"PYTHONDONTWRITEBYTECODE": "1"},
          args=["--emit", exe, "--lib", pycentaurus(c), "--package", os.path.join(vk.REPO, "src/python")])
    return c.finish(c.counters.get("asked", 0), len(c.distinct.get("files", ())),
                    "the Python package reads random grammars, whole and damaged, several at a time; each case in a process of its own. The "
                    "verdict, the names and numbers of the rules and the diagrams are compared with what the library says in C++; evaluations = "
                    "answers compared, distinct = grammar files", min_distinct=200)


@check("P26")
def p26(c):
    c.run(os.path.join(vk.HARNESS, "py_logger.py"), c.n(1200, 40000), prefix=[sys.executable], env={"PYTHONDONTWRITEBYTECODE": "1"},
          args=["--lib", pycentaurus(c), "--package", os.path.join(vk.REPO, "src/python")])
    return c.finish(c.counters.get("logged", 0), c.counters.get("threads", 0),
                    "processes with several threads log random records (levels, loggers, arguments that cannot be pickled, long and many-lined "
                    "texts, exceptions, stacks) by way of a manifold that is started before or after them, stopped and started again; what its "
                    "logger handled is compared, thread by thread, with what was logged; evaluations = records logged, distinct = "
                    "threads compared", min_distinct=200)
