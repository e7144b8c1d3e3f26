#!/usr/bin/env python3
"""
Runs the check of one property:

    check.py C01                 the tier of VERIF_TIER (quick by default)
    check.py C01 --thorough
    check.py --replay FILE       runs a replay file again
    check.py --build             builds every configuration

Exit 0: the property held on everything explored. Exit 1: violation, with the
line "VIOLATION property=<id> replay=<path>". Exit 2: the check did not work.
"""
import argparse, collections, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
REGRESS = os.path.join(HERE, "regress")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
JOBS = 8
QUICK_S = 640  # after these seconds a quick check answers with what it has explored

# ---- configurations ---------------------------------------------------------
# name -> compiler, flags of the library, link flags, word size, header edits

def cfg(cc, flags, bits=64, asan=False, edits=None, fuzz=False):
    return dict(cc=cc, flags=flags.split(), bits=bits, asan=asan, edits=edits or {}, fuzz=fuzz)

CONFIGS = {
    "asan": cfg("clang", "-O1 -g -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern", asan=True),
    "tsan": cfg("clang", "-O1 -g -fsanitize=thread"),
    "rel": cfg("gcc", "-O3 -DNDEBUG"),
    "m32": cfg("gcc", "-m32 -O2", bits=32),
    "m32asan": cfg("clang", "-m32 -O1 -g -fsanitize=address -ftrivial-auto-var-init=pattern", bits=32, asan=True),
    "m32rel": cfg("clang", "-m32 -O3 -DNDEBUG -march=i386", bits=32),
    "cxx": cfg("g++", "-x c++ -std=c++98 -fpermissive -O2"),
    "cxxclang": cfg("clang++", "-x c++ -std=c++20 -fpermissive -O2 -DNDEBUG"),
    "cxx32": cfg("g++", "-x c++ -fpermissive -O2 -m32", bits=32),
    "port": cfg("gcc", "-O2 -DVH_PORTABLE"),
    "port32": cfg("gcc", "-m32 -O2 -march=i386 -DVH_PORTABLE", bits=32),
    "portasan": cfg("clang", "-O1 -g -fsanitize=address -DVH_PORTABLE", asan=True),
    "msvc": cfg("gcc", "-O2 -DVH_MSVC -I%s" % os.path.join(HARNESS, "msvc")),
    "msvc32": cfg("gcc", "-m32 -O2 -DVH_MSVC -I%s" % os.path.join(HARNESS, "msvc"), bits=32),
    "clang3": cfg("clang", "-O3 -std=c2x -fPIC -D_FORTIFY_SOURCE=2 -ftrivial-auto-var-init=zero"),
    "gcc0": cfg("gcc", "-O0 -std=gnu99"),
    "gccs": cfg("gcc", "-Os -std=c11 -funsigned-char"),
    "gcc99": cfg("gcc", "-O2 -std=c99 -DNDEBUG"),
    "split": cfg("gcc", "-O2 -fno-builtin -fno-strict-aliasing -DVH_SPLIT"),
    "native": cfg("gcc", "-O3 -std=gnu2x -march=native -funroll-loops"),
    "cov": cfg("gcc", "-O1 -fsanitize-coverage=trace-pc"),
    "cov32": cfg("gcc", "-m32 -O1 -fsanitize-coverage=trace-pc", bits=32),
    "covport": cfg("gcc", "-O1 -fsanitize-coverage=trace-pc -DVH_PORTABLE"),
    "fuzz": cfg("clang", "-O1 -g -fsanitize=address,fuzzer-no-link", asan=True, fuzz=True),
}

def trie_edits(bit, tree):
    return {"tommyds/tommytrie.h": [(r"(#define\s+TOMMY_TRIE_BIT\s+)\S+", bit),
                                    (r"(#define\s+TOMMY_TRIE_TREE_MAX\s+)[^\n]*?(?=\s*(?:/\*[^\n]*)?\n)", tree)]}

def inp_edits(bit, tree):
    return {"tommyds/tommytrieinp.h": [(r"(#define\s+TOMMY_TRIE_INPLACE_BIT\s+)\S+", bit),
                                       (r"(#define\s+TOMMY_TRIE_INPLACE_TREE_MAX\s+)\S+", tree)]}

for bit in (16, 32, 48, 64):
    for tree, itree in ((8, 2), (16, 4), (32, 8)):
        for base in ("rel", "asan", "m32"):
            if base == "m32" and bit > 32:
                continue
            b = CONFIGS[base]
            ed = dict(trie_edits(bit, tree))
            ed.update(inp_edits(bit, itree))
            CONFIGS["t%d_%d_%s" % (bit, tree, base)] = dict(b, edits=ed, flags=b["flags"] + ["-DVH_WIDTH"])

# the initial sizes
def size_edits(arr, arrof, blk, blkof, seg, dyn, lin):
    d = {}
    for f, m, v in (("tommyarray.h", "TOMMY_ARRAY_BIT", arr), ("tommyarrayof.h", "TOMMY_ARRAYOF_BIT", arrof), ("tommyarrayblk.h", "TOMMY_ARRAYBLK_SIZE", blk),
                    ("tommyarrayblkof.h", "TOMMY_ARRAYBLKOF_SIZE", blkof), ("tommyalloc.c", "TOMMY_ALLOCATOR_BLOCK_SIZE", seg),
                    ("tommyhashdyn.h", "TOMMY_HASHDYN_BIT", dyn), ("tommyhashlin.h", "TOMMY_HASHLIN_BIT", lin)):
        d["tommyds/" + f] = [(r"(#define\s+%s\s+)[^\n]*?(?=\s*(?:/\*[^\n]*)?\n)" % m, v)]
    return d

SIZES = [(1, 2, 1, 3, 256, 2, 3), (2, 1, 3, 1, 1000, 3, 2), (8, 10, 100, 4095, 4096, 8, 9), (10, 8, 16384, 1000, 65536 - 64, 5, 5), (5, 3, 64, 7, 37, 10, 7), (16, 14, 32768, 65536, 1 << 20, 15, 16),
         # in the thorough tier
         (3, 4, 5, 6, 1, 4, 4), (4, 5, 2, 2, 64, 6, 8), (7, 9, 4097, 4096, 8192, 7, 6), (6, 6, 1000, 8, 4032, 3, 11), (12, 1, 7, 16384, 12345, 12, 4), (1, 12, 256, 333, 511, 9, 10)]
for i, t in enumerate(SIZES):
    for base in ("rel", "asan", "m32"):
        b = CONFIGS[base]
        CONFIGS["s%d_%s" % (i, base)] = dict(b, edits=size_edits(*t), flags=b["flags"] + ["-DVH_ARR=%d" % t[0], "-DVH_ARROF=%d" % t[1], "-DVH_BLK=%d" % t[2], "-DVH_BLKOF=%d" % t[3],
                                             "-DVH_SEG=%d" % t[4], "-DVH_DYN=%d" % t[5], "-DVH_LIN=%d" % t[6]])

# ---- building -----------------------------------------------------------------

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.relpath(p, "/").encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]

def sut_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "tommyds")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h"))]
    return out

def harness_files():
    out = []
    for d, _, fs in os.walk(HARNESS):
        out += [os.path.join(d, f) for f in fs]
    return out

def once(path, make):
    """makes path with make(tmp), unless it is there"""
    if not os.path.exists(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = "%s.%d.%s.tmp" % (path, os.getpid(), os.urandom(3).hex())
        make(tmp)
        os.replace(tmp, path)
    return path

CORE = ["engine", "heap", "world", "gen", "mods", "threads", "cost", "vast"]

def build_core(name, bits, fuzz, key):
    flags = ["-std=gnu++17", "-O1", "-g0", "-Wall"]
    if bits == 32:
        flags.append("-m32")
    if fuzz:
        flags.append("-DVH_FUZZER")
    out = os.path.join(BUILD, "core-%s" % key, "%s.%d%s.o" % (name, bits, ".fz" if fuzz else ""))
    return once(out, lambda tmp: run(["g++"] + flags + ["-c", os.path.join(HARNESS, name + ".cpp"), "-o", tmp]))

def edited_tree(config, key):
    """a copy of the sources with the header edits of the configuration; None
    when they do not apply to this tree"""
    c = CONFIGS[config]
    dst = os.path.join(BUILD, "src-%s" % key, config)
    if not os.path.exists(dst):
        tmp = dst + ".%d.tmp" % os.getpid()
        shutil.copytree(os.path.join(REPO, "tommyds"), os.path.join(tmp, "tommyds"))
        for f, eds in c["edits"].items():
            rest = sorted(os.path.join("tommyds", x) for x in os.listdir(os.path.join(tmp, "tommyds")) if x.endswith((".c", ".h")))
            for pat, val in eds:
                n = 0
                # where it is now, or anywhere it may have been moved to
                for g in [f] + [x for x in rest if x != f]:
                    p = os.path.join(tmp, g)
                    if n == 0 and os.path.exists(p):
                        t, n = re.subn(pat, lambda m: m.group(1) + str(val), open(p).read())
                        if n:
                            open(p, "w").write(t)
                if n != 1:
                    shutil.rmtree(tmp)
                    return None
        os.replace(tmp, dst)
    return dst

COSTS = ["memset", "memcpy", "memmove", "strlen"]
REDEF = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign"]

def build(config, pool):
    """path of the harness for the configuration, or raises BuildError"""
    c = CONFIGS[config]
    hkey = digest(harness_files())
    skey = digest(sut_files() + harness_files(), config + repr(sorted(c.items(), key=str)))
    out = os.path.join(BUILD, "bin-%s" % skey, "harness-" + config)
    if os.path.exists(out):
        return out
    core = [pool.submit(build_core, n, c["bits"], c["fuzz"], hkey) for n in CORE]
    root = REPO
    if c["edits"]:
        root = edited_tree(config, skey)
        if root is None:
            raise BuildError("the headers do not define this configuration as expected")

    def make(tmp):
        obj = tmp + ".o"
        cc = [c["cc"]] + c["flags"] + ["-w", "-include", os.path.join(HARNESS, "hooks.h"), "-I" + root, "-I" + HARNESS]
        if "-DVH_SPLIT" in c["flags"]:
            # each source by itself, and each header by itself, as their users can do
            parts = tmp + ".parts"
            os.makedirs(parts)
            try:
                srcs = [os.path.join(HARNESS, "shim.c")]
                for f in sorted(os.listdir(os.path.join(root, "tommyds"))):
                    if f.endswith(".c") and f != "tommy.c":
                        srcs.append(os.path.join(root, "tommyds", f))
                    elif f.endswith(".h"):
                        srcs.append(os.path.join(parts, "h_" + f[:-2] + ".c"))
                        with open(srcs[-1], "w") as o:
                            o.write('#include "tommyds/%s"\n#include "tommyds/%s"\n' % (f, f))
                objs = [os.path.join(parts, "%d.o" % i) for i in range(len(srcs))]
                bare = cc[:]
                bare[bare.index("-include"):bare.index("-include") + 2] = []
                for s, o in zip(srcs, objs):
                    run((bare if os.path.basename(s).startswith("h_") else cc) + ["-c", s, "-o", o])
                run(["ld", "-r"] + objs + ["-o", obj])
            finally:
                shutil.rmtree(parts)
        else:
            run(cc + ["-c", os.path.join(HARNESS, "shim.c"), "-o", obj])
        run(["objcopy"] + ["--redefine-sym=%s=vh_raw_%s" % (f, f) for f in REDEF] + [obj])
        if config == "rel":
            # huge blocks are zeroed without touching them
            run(["objcopy", "--redefine-sym=memset=vh_memset", obj])
        if "-fsanitize-coverage=trace-pc" in c["flags"]:
            run(["objcopy", "--redefine-sym=__sanitizer_cov_trace_pc=vh_trace_pc"] + ["--redefine-sym=%s=vh_cost_%s" % (f, f) for f in COSTS] + [obj])
        link = ["clang++" if c["cc"].startswith("clang") else "g++"]
        link += [f for f in c["flags"] if f == "-m32"]
        if c["fuzz"]:
            link.append("-fsanitize=address,fuzzer")
        elif c["asan"]:
            link.append("-fsanitize=address")
        elif "-fsanitize=thread" in c["flags"]:
            link.append("-fsanitize=thread")
        try:
            run(link + [f.result() for f in core] + [obj, "-o", tmp, "-lm"])
        finally:
            os.unlink(obj)
    try:
        return once(out, make)
    finally:
        if c["edits"]:
            shutil.rmtree(os.path.join(BUILD, "src-%s" % skey), ignore_errors=True)

def prune():
    """old builds are of no use"""
    if not os.path.isdir(BUILD):
        return
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-80]:
        shutil.rmtree(d, ignore_errors=True)

def dictionary(path):
    """the integers that the sources mention, and some around them"""
    vals = set()
    for p in sut_files():
        s = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(p, errors="replace").read(), flags=re.S)
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)\b", s):
            t = m.group(1)
            try:
                v = int(t, 0) if not re.fullmatch(r"0\d+", t) else int(t, 8)
            except ValueError:
                continue
            if v < 1 << 64:
                vals.add(v)
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|[1-9]\d*)[uUlL]*\)*\s*(<<|\*|\+|-)\s*\(*(0[xX][0-9a-fA-F]+|[1-9]\d*)[uUlL]*\b", s):
            a, b = int(m.group(1), 0), int(m.group(3), 0)
            v = (a << b if b < 64 else 0) if m.group(2) == "<<" else a * b if m.group(2) == "*" else a + b if m.group(2) == "+" else a - b
            if 0 < v < 1 << 64:
                vals.add(v)
    with open(path, "w") as f:
        for v in sorted(vals):
            f.write("%d\n" % v)

# ---- what each property runs -----------------------------------------------------
# (configuration, generator, cases in the quick tier, scale)
# the thorough tier multiplies the cases and adds configurations

MM = {"C01": "hashtable", "C02": "hashdyn", "C03": "hashlin", "C04": "trie", "C05": "trieinp", "C06": "tree", "C07": "list",
      "C09": "array", "C10": "arrayblk", "C11": "alloc"}

QUICK = {}
THOROUGH = {}
FUZZ = {}

for prop, gen in MM.items():
    big = 80 if prop in ("C01", "C02", "C03", "C04", "C05", "C06") else 60
    QUICK[prop] = [("asan", gen, 9000, 1), ("rel", gen, 40000, 1), ("rel", gen, big, 2), ("m32", gen, 8000, 1)]
    THOROUGH[prop] = [("asan", gen, 120000, 1), ("rel", gen, 500000, 1), ("rel", gen, 4000, 2), ("m32", gen, 120000, 1),
                      ("m32asan", gen, 40000, 1), ("asan", gen, 400, 2)]
    FUZZ[prop] = gen

def pair(prop, quick, thorough, fuzz=None):
    QUICK[prop] = quick
    THOROUGH[prop] = thorough
    if fuzz:
        FUZZ[prop] = fuzz

pair("C08", [("asan", "sort", 12000, 1), ("rel", "sort", 60000, 1), ("rel", "sort", 1500, 2), ("m32", "sort", 10000, 1), ("rel", "list", 5000, 1)],
     [("asan", "sort", 150000, 1), ("rel", "sort", 800000, 1), ("rel", "sort", 20000, 2), ("m32", "sort", 200000, 1), ("rel", "list", 60000, 1)], "sort")
pair("C12", [("asan", "hash", 16000, 1), ("rel", "hash", 40000, 1), ("rel", "hash", 2000, 2), ("port", "hash", 16000, 1), ("m32", "hash", 12000, 1), ("portasan", "hash", 10000, 1)],
     [("asan", "hash", 200000, 1), ("rel", "hash", 500000, 1), ("rel", "hash", 20000, 2), ("port", "hash", 200000, 1), ("portasan", "hash", 100000, 1), ("m32", "hash", 150000, 1), ("cxx", "hash", 100000, 1), ("clang3", "hash", 200000, 1)])
pair("C13", [("asan", "strhash", 16000, 1), ("rel", "strhash", 40000, 1), ("rel", "strhash", 2000, 2), ("port", "strhash", 16000, 1), ("m32", "strhash", 12000, 1), ("portasan", "strhash", 10000, 1)],
     [("asan", "strhash", 200000, 1), ("rel", "strhash", 500000, 1), ("rel", "strhash", 20000, 2), ("port", "strhash", 200000, 1), ("portasan", "strhash", 100000, 1), ("m32", "strhash", 150000, 1), ("cxx", "strhash", 100000, 1), ("clang3", "strhash", 200000, 1)])
pair("C14", [("rel", "inthash", 4096, 2), ("gcc0", "inthash", 4096, 1), ("m32", "inthash", 4096, 1), ("asan", "inthash", 8000, 1)],
     [("rel", "inthash", 4096, 2), ("gcc0", "inthash", 4096, 2), ("clang3", "inthash", 4096, 2), ("m32", "inthash", 4096, 2), ("port", "inthash", 4096, 2), ("cxx", "inthash", 4096, 2), ("asan", "inthash", 200000, 1)])
pair("C15", [("rel", "bits", 4096, 2), ("port", "bits", 4096, 2), ("m32", "bits", 4096, 1), ("port32", "bits", 4096, 1), ("msvc", "bits", 4096, 1), ("msvc32", "bits", 4096, 1), ("asan", "bits", 4000, 1), ("cxx", "bits", 4096, 1)],
     [("rel", "bits", 4096, 2), ("port", "bits", 4096, 2), ("m32", "bits", 4096, 2), ("port32", "bits", 4096, 2), ("msvc", "bits", 4096, 2), ("msvc32", "bits", 4096, 2), ("clang3", "bits", 4096, 2), ("gcc0", "bits", 4096, 2), ("cxx", "bits", 4096, 2), ("cxx32", "bits", 4096, 2), ("native", "bits", 4096, 2), ("asan", "bits", 100000, 1)])
pair("C16", [("asan", "avl", 6000, 1), ("rel", "avl", 40000, 1), ("rel", "avl", 90, 2), ("m32", "avl", 8000, 1)],
     [("asan", "avl", 100000, 1), ("rel", "avl", 800000, 1), ("rel", "avl", 3000, 2), ("m32", "avl", 100000, 1)], "avl")
pair("C17", [("asan", "sort", 10000, 1), ("rel", "sort", 80000, 1), ("rel", "sort", 2000, 2), ("m32", "sort", 10000, 1)],
     [("asan", "sort", 100000, 1), ("rel", "sort", 900000, 1), ("rel", "sort", 30000, 2), ("m32", "sort", 200000, 1)], "sort")
pair("C18", [("asan", "osc", 5000, 1), ("rel", "osc", 40000, 1), ("rel", "osc", 100, 2), ("rel", "array", 10000, 1), ("rel", "arrayblk", 6000, 1), ("m32", "osc", 6000, 1)],
     [("asan", "osc", 80000, 1), ("rel", "osc", 600000, 1), ("rel", "osc", 4000, 2), ("rel", "array", 100000, 1), ("rel", "arrayblk", 60000, 1), ("rel", "array", 300, 2), ("m32", "osc", 100000, 1)], "osc")
pair("C19", [("asan", "lin", 500, 1), ("rel", "lin", 6000, 1), ("rel", "lin", 120, 2), ("rel", "osclin", 15000, 1), ("m32", "lin", 1200, 1)],
     [("asan", "lin", 8000, 1), ("rel", "lin", 80000, 1), ("rel", "lin", 2000, 2), ("rel", "osclin", 200000, 1), ("m32", "lin", 20000, 1)], "lin")
pair("C20", [("asan", "any", 8000, 1), ("rel", "any", 40000, 1), ("rel", "any", 480, 2), ("m32", "any", 8000, 1), ("rel", "mixed", 4000, 1), ("rel", "alloc", 6000, 1)],
     [("asan", "any", 120000, 1), ("rel", "any", 600000, 1), ("rel", "any", 4800, 2), ("m32", "any", 120000, 1), ("rel", "mixed", 60000, 1), ("rel", "alloc", 60000, 1), ("rel", "tries", 100000, 1)], "query")
pair("C21", [("asan", "any", 9000, 1), ("rel", "any", 40000, 1), ("rel", "any", 480, 2), ("m32", "any", 8000, 1), ("rel", "mixed", 4000, 1)],
     [("asan", "any", 120000, 1), ("rel", "any", 600000, 1), ("rel", "any", 4800, 2), ("m32", "any", 120000, 1), ("m32asan", "any", 40000, 1), ("asan", "mixed", 20000, 1), ("rel", "mixed", 60000, 1)], "query")
pair("C22", [("asan", "iter", 7000, 1), ("rel", "iter", 40000, 1), ("rel", "iter", 80, 2), ("m32", "iter", 8000, 1)],
     [("asan", "iter", 100000, 1), ("rel", "iter", 500000, 1), ("rel", "iter", 2000, 2), ("m32", "iter", 100000, 1), ("cxx", "iter", 50000, 1)], "iter")
pair("C23", [("asan", "mixed", 6000, 1), ("rel", "mixed", 25000, 1), ("m32", "mixed", 5000, 1), ("asan", "alias", 4000, 1), ("rel", "alias", 20000, 1), ("m32", "alias", 4000, 1)],
     [("asan", "mixed", 80000, 1), ("rel", "mixed", 400000, 1), ("m32", "mixed", 80000, 1), ("m32asan", "mixed", 20000, 1), ("cxx", "mixed", 60000, 1)], "mixed")
pair("C26", [("asan", "query", 5000, 1), ("rel", "query", 20000, 1), ("rel", "query", 60, 2), ("m32", "query", 5000, 1)],
     [("asan", "query", 80000, 1), ("rel", "query", 300000, 1), ("rel", "query", 1000, 2), ("m32", "query", 80000, 1), ("cxx", "query", 40000, 1)], "query")
pair("C27", [("asan", "dup", 8000, 1), ("rel", "dup", 50000, 1), ("rel", "dup", 80, 2), ("m32", "dup", 8000, 1)],
     [("asan", "dup", 120000, 1), ("rel", "dup", 600000, 1), ("rel", "dup", 2000, 2), ("m32", "dup", 120000, 1)], "dup")
pair("C28", [("asan", "readd", 9000, 1), ("rel", "readd", 30000, 1), ("rel", "readd", 60, 2), ("m32", "readd", 8000, 1)],
     [("asan", "readd", 150000, 1), ("rel", "readd", 400000, 1), ("rel", "readd", 1500, 2), ("m32", "readd", 120000, 1), ("m32asan", "readd", 40000, 1)], "readd")

pair("C29", [("asan", "hashes", 5000, 1), ("rel", "hashes", 60000, 1), ("rel", "hashes", 100, 2), ("m32", "hashes", 12000, 1)],
     [("asan", "hashes", 80000, 1), ("rel", "hashes", 800000, 1), ("rel", "hashes", 4000, 2), ("m32", "hashes", 150000, 1)], "hashes")
pair("C30", [("asan", "nested", 5000, 1), ("rel", "nested", 40000, 1), ("m32", "nested", 6000, 1), ("tsan", "threads", 3000, 1), ("rel", "threads", 12000, 1)],
     [("asan", "nested", 80000, 1), ("rel", "nested", 600000, 1), ("m32", "nested", 100000, 1), ("m32asan", "nested", 30000, 1), ("cxx", "nested", 60000, 1),
      ("tsan", "threads", 60000, 1), ("rel", "threads", 200000, 1), ("m32", "threads", 60000, 1)], "nested")
pair("C31", [("asan", "growth", 4000, 1), ("rel", "growth", 60000, 1), ("rel", "growth", 60, 2), ("m32", "growth", 10000, 1)],
     [("asan", "growth", 60000, 1), ("rel", "growth", 800000, 1), ("rel", "growth", 2000, 2), ("m32", "growth", 150000, 1)], "growth")

pair("C32", [("cov", "cost", 60000, 1), ("cov", "cost", 400, 2), ("cov32", "cost", 12000, 1), ("covport", "cost", 12000, 1)],
     [("cov", "cost", 400000, 1), ("cov", "cost", 4000, 2), ("cov32", "cost", 100000, 1), ("covport", "cost", 100000, 1)])

pair("C34", [("cov", "cost", 40000, 1), ("cov", "cost", 400, 2), ("cov32", "cost", 12000, 1), ("rel", "vany", 100, 2), ("gcc0", "vany", 600, 1)],
     [("cov", "cost", 400000, 1), ("cov", "cost", 4000, 2), ("cov32", "cost", 100000, 1), ("covport", "cost", 100000, 1), ("rel", "vany", 600, 2), ("gcc0", "vany", 2000, 1), ("m32", "vany", 2000, 1)])

# millions of elements
VAST = {"C01": ["vtable"], "C02": ["vdyn"], "C03": ["vlin"], "C04": ["vtrie"], "C05": ["vinp"], "C06": ["vtree"], "C07": ["vlist"], "C08": ["vlist"],
        "C09": ["varray"], "C10": ["vblk"], "C11": ["valloc"], "C16": ["vtree"], "C17": ["vlist"], "C18": ["vhash"], "C19": ["vlin"], "C20": ["vany"], "C21": ["vany"],
        "C29": ["vtable", "vhash"], "C22": ["vhash", "vtable", "vtree", "vlist"], "C27": ["vtable", "vhash", "vtrie", "vinp"], "C31": ["vhash", "varray", "vblk", "valloc"]}
for prop, gens in VAST.items():
    n = 16 if len(gens) == 1 else 8
    if gens in (["varray"], ["vblk"]):
        n = 160
    if gens == ["vany"]:
        n = 36
    if gens in (["vlin"], ["vdyn"], ["vtable"]):
        n = 40
    for gen in gens:
        QUICK[prop] = QUICK[prop] + [("rel", gen, n, 2), ("rel", gen, (240 if len(gens) == 1 else 120) if gen != "vany" else 1200, 1)]
        THOROUGH[prop] = THOROUGH[prop] + [("rel", gen, n * 8, 2), ("rel", gen, 2000, 1), ("asan", gen, 200, 1), ("m32", gen, n * 4, 2)]

# every build: all the kinds in each of them
C24_CONFIGS = ["rel", "m32", "cxx", "cxx32", "port", "port32", "clang3", "gcc0", "gccs", "gcc99", "native", "msvc", "msvc32", "m32rel", "cxxclang", "split", "asan", "m32asan", "portasan"]
def c24(scale):
    out = []
    for c in C24_CONFIGS:
        san = 3 if CONFIGS[c]["asan"] else 1
        for gen, n in (("any", 4000), ("mixed", 300), ("sort", 1800), ("avl", 500), ("hash", 800), ("strhash", 800), ("inthash", 128), ("bits", 128)):
            out.append((c, gen, int(n * scale / san) + 20, 1))
        if scale > 1:
            out.append((c, "any", 500, 2))
    return out
QUICK["C24"] = c24(1)
THOROUGH["C24"] = c24(15)

# the configurations of the tries
def c25(n, all_):
    out = []
    for bit in (16, 32, 48, 64):
        for tree in (8, 16, 32):
            out.append(("t%d_%d_rel" % (bit, tree), "tries", n, 1))
            if all_ or (bit + tree) % 3 == 0:
                out.append(("t%d_%d_asan" % (bit, tree), "tries", n // 5, 1))
            if bit <= 32 and (all_ or tree == 16):
                out.append(("t%d_%d_m32" % (bit, tree), "tries", n // 5, 1))
            if all_:
                out.append(("t%d_%d_rel" % (bit, tree), "tries", 60, 2))
    return out
QUICK["C25"] = c25(3500, False)
THOROUGH["C25"] = c25(50000, True)

# tables of billions of buckets
for prop in ("C01", "C20", "C21", "C27", "C29", "C31"):
    QUICK[prop] = QUICK[prop] + [("rel", "bigtable", 300, 1)]
    THOROUGH[prop] = THOROUGH[prop] + [("rel", "bigtable", 10000, 1)]

# the configurations of the initial sizes
def c33(n, all_):
    out = [("rel", "sizes", n, 1)]
    for i in range(len(SIZES) if all_ else 6):
        out.append(("s%d_rel" % i, "sizes", n if i == 5 else n * 3, 1))
        if all_ or i % 2:
            out.append(("s%d_asan" % i, "sizes", n // 2, 1))
        if all_ or i % 2 == 0:
            out.append(("s%d_m32" % i, "sizes", n // 2, 1))
        for g in ("vhash", "valloc"):
            out.append(("s%d_rel" % i, g, 8 if all_ else 2, 2))
    return out
QUICK["C33"] = c33(6000, False)
THOROUGH["C33"] = c33(80000, True)

RULES = {
    "world": "a case is a generated history of operations on generated containers, run on the library and on a reference model and compared after each operation; it is non-trivial when it runs at least 8 operations and some container reaches at least 4 elements",
    "nested": "a case is a generated history on several containers in which the compare and iteration functions run further generated operations on the other containers, and queries on the one being read, all compared with a reference model; non-trivial when it runs at least 8 operations and some container reaches at least 4 elements. A failure counts only when the same operations, run one after the other, do not fail",
    "threads": "a case is a generated program for each of 2 to 4 threads, each with containers of its own, run alone and then all at once, every result compared (and data races reported by ThreadSanitizer); non-trivial with at least 2 threads and 20 operations",
    "cost": "a case is a generated sequence of bulk operations on a container, up to hundreds of thousands of elements, the basic blocks executed by the library counted in each operation and compared with its documented cost; non-trivial when 16 elements are reached",
    "vast": "a case is a generated sequence of bulk operations (each of up to millions of generated insertions, removals, searches) on one container, the results of each compared with a reference model of a few words per element; non-trivial when 1000 elements are reached in 2000 operations",
    "sort": "a case is a generated list of values sorted with a counting compare function and compared with a stable sort; non-trivial when it has at least 3 elements (for stability: not already in order)",
    "avl": "a case is a generated history of insertions and removals in a tree, every value and gap searched with a counting compare function; non-trivial when the tree reaches 4 elements in 3 operations",
    "alias": "a case is a generated history on one container of many nodes of few objects, each object there many times under different keys or the same one, compared with a reference model; non-trivial when an object is there more than once and 4 elements are reached",
    "lin": "a case is a generated history of insertions and removals in a linear hashtable, the chains compared before and after every operation; non-trivial when it reaches 64 elements and chains were split or joined",
    "hash": "a case is a group of generated buffers with placement, content and initial value, hashed by the library and by an independent lookup3; non-trivial when one is longer than 2 bytes",
    "strhash": "a case is a group of generated strings with placement and initial value, hashed by the library and by an independent definition; non-trivial when one is longer than 2 bytes",
    "inthash": "a case is a slice of all the 32 bit integers and a group of generated 64 bit ones, hashed by the library, by the published function and back by its inverse; non-trivial when it has more than one value",
    "bits": "a case is a slice of all the 32 bit integers and a group of generated 64 bit ones, compared with the definition; non-trivial when it has more than one value",
}

# ---- running -------------------------------------------------------------------------

def known_findings():
    """open ones: "known: property=<id> match=<text> what fails" """
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out

def merge_classes(pairs):
    d = {}
    for k, v in pairs:
        if k in d and isinstance(v, int):
            d[k] += v
        else:
            d[k] = v
    return d

def violation(prop, path, msg):
    print("  %s" % msg)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

def fuzz_stage(prop, gen, pool, tmp, seed, seconds, log):
    """coverage-guided search, 8 processes; a failure is reduced with the asan harness"""
    try:
        binary = build("fuzz", pool)
        asan = build("asan", pool)
    except BuildError as e:
        log.append(dict(stage="fuzz", skipped=str(e)[:300]))
        return None
    procs = []
    for i in range(JOBS):
        d = os.path.join(tmp, "fz%d" % i)
        os.makedirs(os.path.join(d, "corpus"))
        # something to start from
        import random
        r = random.Random(seed * 100 + i)
        for k in range(20):
            with open(os.path.join(d, "corpus", "s%d" % k), "wb") as f:
                f.write(bytes(r.randrange(256) for _ in range(r.choice((16, 64, 300, 1200, 3000)))))
        env = dict(os.environ, VH_PROP=prop, VH_GEN=gen, VH_OUT=os.path.join(d, "case.txt"))
        procs.append((d, env, subprocess.Popen(
            [binary, "corpus", "-seed=%d" % (seed * 1000 + i + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-timeout=60",
             "-rss_limit_mb=6000", "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-use_value_profile=%d" % (i & 1)],
            cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "log"), "w"))))
    execs = 0
    corpus = 0
    bad = None
    for d, env, p in procs:
        try:
            p.wait(timeout=seconds + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        text = open(os.path.join(d, "log"), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
        execs += int(m.group(1)) if m else 0
        corpus += len(os.listdir(os.path.join(d, "corpus")))
        arts = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-"))]
        for a in arts:
            if bad:
                break
            subprocess.run([binary, os.path.join(d, a)], env=dict(env, VH_DUMP="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d)
            cf = os.path.join(d, "case.txt")
            if not os.path.exists(cf):
                continue
            out = os.path.join(REPLAYS, "%s-fuzz-%s.txt" % (prop, gen))
            q = subprocess.run([asan, "shrink", cf, "--prop", prop, "--gen", gen, "--config", "asan", "--seed", str(seed), "--tmp", tmp, "--replay", out, "--shrink", "120"],
                               stdout=subprocess.PIPE, text=True, stderr=subprocess.DEVNULL)
            if q.returncode == 1:
                bad = (out, q.stdout.strip())
    log.append(dict(stage="coverage-guided", config="fuzz", gen=gen, executions=execs, corpus_files=corpus, seconds=seconds))
    return bad

def check(prop, tier, seed):
    t0, m0 = time.time(), time.monotonic()
    plan = (THOROUGH if tier == "thorough" else QUICK)[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    log, skipped, bins = [], [], {}
    cov = collections.OrderedDict(evaluations=0, distinct_nontrivial=0, operations=0, rule="", samples=[])
    classes = collections.Counter()
    result = 0
    regress_run = 0
    try:
        configs = list(collections.OrderedDict.fromkeys(c for c, _, _, _ in plan))
        with ThreadPoolExecutor(JOBS) as pool, ThreadPoolExecutor(JOBS) as pool2:
            futs = {c: pool2.submit(build, c, pool) for c in configs}
            for c in configs:
                try:
                    bins[c] = futs[c].result()
                except BuildError as e:
                    skipped.append(dict(config=c, why=str(e)[-600:]))
            if not bins or ("rel" in configs and "rel" not in bins and not any(c.startswith(("t", "s")) and "_" in c for c in bins)):
                print(skipped[0]["why"] if skipped else "nothing built")
                return 2
            tb = time.time()
            if prop == "C24" and skipped and "rel" in bins:
                # it has to be built in every supported way
                rp = os.path.join(REPLAYS, "C24-build.txt")
                with open(rp, "w") as f:
                    f.write("# property C24\n# build\n# config %s\n# flags %s %s\n" % (skipped[0]["config"], CONFIGS[skipped[0]["config"]]["cc"], " ".join(CONFIGS[skipped[0]["config"]]["flags"])))
                    f.write("".join("# " + l + "\n" for l in skipped[0]["why"].split("\n")))
                violation(prop, rp, "the library is not built in configuration %s" % ", ".join(x["config"] for x in skipped))
                result = 1
            dic = os.path.join(tmp, "dict.txt")
            dictionary(dic)
            # what failed once, first
            rd = os.path.join(REGRESS, prop)
            known = [k for k in known_findings() if k[0] == prop]
            for k in known:
                b = bins.get("asan") or list(bins.values())[0]
                p = subprocess.run([b, "replay", os.path.join(HERE, k[1]), "--prop", prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                if p.returncode != 0:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
            if os.path.isdir(rd):
                for f in sorted(os.listdir(rd)):
                    path = os.path.join(rd, f)
                    m = re.search(r"^# config (\S+)", open(path).read(), re.M)
                    use = [m.group(1)] if m and m.group(1) in bins else list(bins)[:2]
                    for c in use:
                        q = subprocess.run([bins[c], "shrink", path, "--prop", prop, "--config", c, "--gen", "regress", "--tmp", tmp, "--shrink", "5",
                                            "--replay", os.path.join(REPLAYS, "%s-regress-%s" % (prop, f))], stdout=subprocess.PIPE, text=True)
                        regress_run += 1
                        if q.returncode == 1 and result == 0:
                            violation(prop, os.path.join(REPLAYS, "%s-regress-%s" % (prop, f)), q.stdout.strip())
                            result = 1
            for n, (c, gen, cases, scale) in enumerate(plan):
                if result or c not in bins:
                    continue
                left = QUICK_S - (time.monotonic() - m0)
                if tier == "quick" and left < 10:
                    log.append(dict(config=c, gen=gen, scale=scale, cases=cases, done=0, note="not run: out of time"))
                    continue
                out = os.path.join(tmp, "out%d.json" % n)
                sub = os.path.join(tmp, "t%d" % n)
                os.mkdir(sub)
                rp = os.path.join(REPLAYS, "%s-%s-%s-%d.txt" % (prop, c, gen, scale))
                cmd = [bins[c], "run", "--prop", prop, "--gen", gen, "--config", c, "--seed", str(seed), "--cases", str(cases), "--scale", str(scale),
                       "--workers", str(JOBS), "--out", out, "--replay", rp, "--tmp", sub, "--dict", dic, "--shrink", "120" if tier == "thorough" else "45"]
                if tier == "thorough":
                    cmd.append("--thorough")
                else:
                    # an answer in time, whatever the library does
                    cmd += ["--until", "%.0f" % (left / 2)]
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode not in (0, 1) or not os.path.exists(out):
                    print("harness error in %s %s: rc %d\n%s" % (c, gen, p.returncode, p.stdout[-2000:]))
                    result = 2
                    break
                d = json.load(open(out), object_pairs_hook=merge_classes)
                cov["evaluations"] += d["done"]
                cov["distinct_nontrivial"] += d["distinct_nontrivial"]
                cov["operations"] += d["ops"]
                for k, v in d["classes"].items():
                    classes[gen + ": " + k if gen in ("sort", "avl", "lin", "alias", "hash", "strhash") else k] += v
                if d["samples"]:
                    for s in d["samples"].split("end\n"):
                        if s.strip() and sum(1 for x in cov["samples"] if x["generator"] == gen) < 2 and len(cov["samples"]) < 6:
                            cov["samples"].append(dict(config=c, generator=gen, case=s.strip()[:1800]))
                log.append({k: d[k] for k in ("config", "gen", "cases", "done", "ops", "distinct_nontrivial", "gave_up", "gave_up_msg", "other", "other_msg", "killed", "other_crash", "slowest_case_s", "run_s", "total_s", "note")})
                log[-1]["scale"] = scale
                shutil.rmtree(sub, ignore_errors=True)
                if p.returncode == 1:
                    violation(prop, d["replay"], "%s [%s, %s; %s]" % (d["message"], c, gen, d["note"]))
                    result = 1
            if tier == "thorough" and result == 0 and prop in FUZZ:
                bad = fuzz_stage(prop, FUZZ[prop], pool, tmp, seed, 150, log)
                cov["evaluations"] += log[-1].get("executions", 0)
                if bad:
                    violation(prop, bad[0], bad[1])
                    result = 1
        gens = {g for _, g, _, _ in plan}
        cov["rule"] = "; ".join(sorted({RULES.get("vast" if g[0] == "v" else g, RULES["world"]) for g in gens})) + ". Distinct: by a hash of the whole case. Failing cases are confirmed three times and reduced."
        cov["classes"] = dict(sorted(classes.items()))
        cov["runs"] = log
        cov["configurations_skipped"] = skipped
        cov["saved_cases_replayed"] = regress_run
        if prop in ("C14", "C15"):
            cov["exhaustive_32bit"] = [c for c, g, n, s in plan if n == 4096 and s == 2 and c in bins]
        ev = collections.OrderedDict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                                     assumptions=["the heap never fails", "the caller respects the documented preconditions: see DESIGN.md"],
                                     wall_s=round(time.time() - t0, 2), violations=1 if result == 1 else 0)
        ev["build_s"] = round(tb - t0, 2)
        p = os.path.join(EVIDENCE, prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        if result == 0:
            print("%s held: %d cases, %d distinct and non-trivial, %d operations, %.1f s%s" % (
                prop, cov["evaluations"], cov["distinct_nontrivial"], cov["operations"], time.time() - t0,
                ", skipped " + ",".join(s["config"] for s in skipped) if skipped else ""))
        return result
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        prune()

def replay(path, trace):
    text = open(path).read()
    prop = re.search(r"^# property (\S+)", text, re.M)
    conf = re.search(r"^# config (\S+)", text, re.M)
    conf = conf.group(1) if conf and conf.group(1) in CONFIGS else "asan"
    with ThreadPoolExecutor(JOBS) as pool:
        try:
            b = build(conf, pool)
        except BuildError as e:
            print("FAILED: not built\n%s" % e)
            return 1
    if re.search(r"^# build$", text, re.M):
        print("OK: built")
        return 0
    cmd = [b, "replay", path]
    if prop:
        cmd += ["--prop", prop.group(1)]
    if trace:
        cmd.append("--trace")
    r = subprocess.run(cmd).returncode
    if r < 0 or r > 2:
        print("FAILED: ended with %d" % r)
        return 1
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay, a.trace)
    if a.build:
        bad = 0
        with ThreadPoolExecutor(JOBS) as pool, ThreadPoolExecutor(JOBS) as pool2:
            futs = {c: pool2.submit(build, c, pool) for c in CONFIGS}
            for c, f in futs.items():
                try:
                    f.result()
                except BuildError as e:
                    print("%s: %s" % (c, str(e)[-400:]))
                    bad += c in ("rel", "asan")
        return 1 if bad else 0
    if a.property not in QUICK:
        ap.error("which property?")
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return check(a.property, tier, seed & 0x7fffffff)

if __name__ == "__main__":
    sys.exit(main())
