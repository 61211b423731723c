"""Front end: turns /repo's current sources into LLVM IR (one text module per
translation unit) in a scratch directory.  lex.c / parse.c are regenerated from
lex.l / parse.y; nothing is written under /repo.  The parse of one tree state is
cached by content hash under a scratch cache directory (only a speed-up: a
different source tree hashes differently)."""
import hashlib, os, pickle, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.environ.get("VF_CACHE", "/tmp/vf-selint-cache-%d" % os.getuid())


class AnalysisBroken(Exception):
    pass


def sources():
    src = os.path.join(REPO, "src")
    out = []
    for f in sorted(os.listdir(src)):
        if f.endswith((".c", ".h", ".y", ".l")) and f not in ("lex.c", "parse.c", "parse.h"):
            out.append(os.path.join(src, f))
    return out


def tool_sources():
    out = []
    for root, _d, fs in os.walk(HERE):
        for f in sorted(fs):
            if f.endswith((".h",)) or f in ("build.py", "ir.py"):
                out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in sources() + tool_sources():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:32]


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise AnalysisBroken("front end: %s failed:\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def am_sources():
    """C units that the real build links into selint (src/Makefile.am)."""
    with open(os.path.join(REPO, "src", "Makefile.am")) as fh:
        txt = fh.read().replace("\\\n", " ")
    m = re.search(r"selint_SOURCES\s*=\s*(.*)", txt)
    if not m:
        raise AnalysisBroken("selint_SOURCES not found in src/Makefile.am")
    return m.group(1).split()


CFLAGS = ["-std=gnu11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names",
          "-fno-builtin", "-D__NO_CTYPE", "-D_GNU_SOURCE_VF", "-U_FORTIFY_SOURCE", "-DSYSCONFDIR=\"/etc\"", "-w"]


def compile_all(dst):
    """copy sources to dst, generate parser+lexer, emit IR; returns list of .ll"""
    for f in sources():
        shutil.copy(f, dst)
    units = []
    for u in am_sources():
        b, e = os.path.splitext(u)
        if e in (".c", ".l", ".y"):
            if not os.path.exists(os.path.join(dst, u)):
                raise AnalysisBroken("unit %s listed in selint_SOURCES is missing" % u)
            units.append((b, e))
    procs = []
    for b, e in units:
        if e == ".y":
            run(["bison", "-d", "-Wno-yacc", "-Wno-other", "--xml=%s.xml" % b, "-o", b + ".c", b + ".y"], dst)
    for b, e in units:
        if e == ".l":
            run(["flex", "-o", b + ".c", b + ".l"], dst)
            # the same automaton without table compression, for reading only
            run(["flex", "-8", "-Cf", "-o", b + ".full.txt", b + ".l"], dst)
    lls = []
    for b, e in units:
        cmd = ("clang %s -I%s/shim -I. -emit-llvm -S %s.c -o - | opt -S -passes=mem2reg -o %s.ll"
               % (" ".join("'%s'" % c for c in CFLAGS), HERE, b, b))
        procs.append((b, subprocess.Popen(["bash", "-o", "pipefail", "-c", cmd], cwd=dst,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        lls.append(os.path.join(dst, b + ".ll"))
    for b, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise AnalysisBroken("front end: cannot compile %s.c:\n%s" % (b, out[-3000:]))
    return lls


def lexer_tables(path):
    """the scanner automaton: accepted rule per state, successor per state and character, start state"""
    with open(path) as fh:
        t = fh.read()
    m = re.search(r"yy_nxt\[\]\[(\d+)\] =\s*\{(.*?)\}\s*;", t, re.S)
    a = re.search(r"yy_accept\[(\d+)\] =\s*\{(.*?)\}\s*;", t, re.S)
    s = re.search(r"yyg->yy_start = (\d+);", t)
    if not m or not a or not s or int(m.group(1)) != 256:
        raise AnalysisBroken("front end: the scanner automaton cannot be read")
    rows = [[int(x) for x in r.split(",") if x.strip()] for r in re.findall(r"\{([^{}]*)\}", m.group(2))]
    acc = [int(x) for x in a.group(2).split(",") if x.strip()]
    if any(len(r) != 256 for r in rows):
        raise AnalysisBroken("front end: the scanner automaton cannot be read")
    return acc, rows, int(s.group(1))


def load_program():
    from . import ir
    key = tree_hash()
    os.makedirs(CACHE, exist_ok=True)
    pk = os.path.join(CACHE, key + ".pickle")
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as fh:
                return pickle.load(fh)
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="vf-selint-build-")
    try:
        lls = compile_all(tmp)
        prog = ir.Program()
        for ll in lls:
            with open(ll) as fh:
                prog.add_module(os.path.basename(ll)[:-3], fh.read())
        with open(os.path.join(tmp, "parse.xml")) as fh:
            prog.grammar_xml = fh.read()
        prog.lexer = lexer_tables(os.path.join(tmp, "lex.full.txt"))
        with open(os.path.join(tmp, "lex.l")) as fh:
            prog.lex_text = fh.read()
        with open(os.path.join(tmp, "parse.y")) as fh:
            prog.yacc_text = fh.read()
        prog.link()
        prog.tree_hash = key
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.setrecursionlimit(100000)
    for old in os.listdir(CACHE):
        p = os.path.join(CACHE, old)
        try:
            if old.endswith(".pickle") and os.path.getmtime(p) < __import__("time").time() - 6 * 3600:
                os.unlink(p)
        except OSError:
            pass
    fd, t = tempfile.mkstemp(dir=CACHE)
    with os.fdopen(fd, "wb") as fh:
        pickle.dump(prog, fh, protocol=4)
    os.replace(t, pk)
    return prog
