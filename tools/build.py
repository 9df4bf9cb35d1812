#!/usr/bin/env python3
"""Builds tiro (from /repo's working tree) plus one harness engine into one executable.

usage: build.py VARIANT OUT ENGINE.cpp...
VARIANT: fast (-O1, assertions on), san (fast + ASan + UBSan subset), fuzz (san + libFuzzer coverage),

Everything is keyed by content hashes, so the object cache (build/, ignored by git) can never be stale.
The build is a unity build over ~16 chunks with a precompiled header for third-party headers; a chunk that
does not compile as a unit is compiled file by file, and a file clang rejects is compiled with g++ -fpermissive
(which is what the project itself uses).
"""
import concurrent.futures as cf, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TIRO_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
INC = os.path.join(BUILD, "inc")
OBJ = os.path.join(BUILD, "obj")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
NCHUNKS = 20

COMMON = ["-std=gnu++17", "-fno-rtti", "-DFMT_SHARED", "-DTIRO_VERIF", "-w", "-gline-tables-only", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address",
       "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,unreachable,return,bool,vla-bound",
       "-fno-sanitize-recover=all"]
VARIANTS = {
    "fast": ["-O1"],
    "san": ["-O1"] + SAN,
    "fuzz": ["-O1"] + SAN + ["-fsanitize=fuzzer-no-link"],
}
PCH = """#include <fmt/format.h>
#include <absl/container/flat_hash_map.h>
#include <absl/container/flat_hash_set.h>
#include <absl/container/inlined_vector.h>
#include <absl/container/node_hash_map.h>
#include <absl/hash/hash.h>
#include <nlohmann/json.hpp>
#include <algorithm>
#include <bitset>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
"""

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(len(p).to_bytes(8, "little")); h.update(p)
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

def put(path, text):
    if isinstance(text, str): text = text.encode()
    if not os.path.exists(path) or read(path) != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".tmp%d" % os.getpid()
        with open(tmp, "wb") as f: f.write(text)
        os.replace(tmp, path)

def prepare_includes():
    for p in glob.glob("/usr/include/fmt/*.h"):
        t = read(p).decode()
        if p.endswith("/format.h"):
            # libfmt 9: formatter<join_view>::format is const but forwards to a non-const formatter; clang rejects
            # what g++ -fpermissive accepts. 'mutable' does not change the layout.
            t = t.replace("  formatter_type value_formatter_;", "  mutable formatter_type value_formatter_;")
        put(os.path.join(INC, "fmt", os.path.basename(p)), t)
    v = read(os.path.join(REPO, "include/tiro/version.h.in")).decode()
    # Version values are a constant of our build: no property depends on them.
    for k, r in (("PROJECT_VERSION_MAJOR", "0"), ("PROJECT_VERSION_MINOR", "1"), ("PROJECT_VERSION_PATCH", "0"),
                 ("PROJECT_VERSION", "0.1.0-verif"), ("SOURCE_ID", "verif")):
        v = v.replace("@%s@" % k, r)
    put(os.path.join(INC, "tiro/version.h"), v)

def includes():
    return ["-I" + INC, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(VERIF, "engine"), "-isystem", "/usr/include/utf8cpp"]

def headers_hash():
    L = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), INC):
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith((".hpp", ".h", ".ipp", ".in", ".inc", ".def")): L.append(os.path.join(d, f))
    L.sort()
    return sha(*[x for p in L for x in (p, read(p))])

def engine_headers_hash():
    L = sorted(glob.glob(os.path.join(VERIF, "engine", "*.hpp")))
    return sha(*[x for p in L for x in (p, read(p))])

def chunks():
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        if os.path.relpath(d, os.path.join(REPO, "src")).split(os.sep)[0] == "run": continue
        for n in names:
            if n.endswith(".cpp"): fs.append(os.path.join(d, n))
    fs.sort()
    def w(f): return 5000 if "unicode_data" in f else os.path.getsize(f) + 3000
    solo = [f for f in fs if f.endswith(("compiler/ir/module.cpp", "compiler/ir/terminator.cpp"))]
    rest = [f for f in fs if f not in solo]
    tot = sum(map(w, rest)); out = [[]]; cur = 0
    for f in rest:
        if out[-1] and cur + w(f) / 2 > tot / NCHUNKS: out.append([]); cur = 0
        out[-1].append(f); cur += w(f)
    out += [[f] for f in solo]
    out.sort(key=lambda c: -sum(map(w, c)))
    return out

class Builder:
    def __init__(self, variant):
        self.variant = variant; self.flags = VARIANTS[variant] + COMMON
        os.makedirs(OBJ, exist_ok=True)
        prepare_includes()
        self.hh = headers_hash(); self.eh = engine_headers_hash(); self.pch = None
        self.log = []

    def base(self): return ["clang++"] + self.flags + includes()

    def make_pch(self):
        key = sha("pch", PCH, *(self.flags + [read(os.path.join(INC, "fmt/format.h")).decode()]))
        hdr = os.path.join(BUILD, "pch", key + ".hpp"); out = hdr + ".pch"
        put(hdr, PCH)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = run(self.base() + ["-fpch-instantiate-templates", "-x", "c++-header", hdr, "-o", tmp])
            if r.returncode: self.log.append(r.stdout); return
            os.replace(tmp, out)
        self.pch = out

    def compile_text(self, text, key, extra=(), gcc=False):
        out = os.path.join(OBJ, key + ".o")
        if os.path.exists(out): return out, ""
        src = os.path.join(OBJ, key + ".cpp"); put(src, text)
        tmp = out + ".tmp%d" % os.getpid()
        if gcc:
            cmd = ["g++", "-fpermissive", "-O1"] + COMMON[:-2] + ["-g1"] + includes() + list(extra) + ["-c", src, "-o", tmp]
        else:
            cmd = self.base() + (["-include-pch", self.pch] if self.pch and not {"-std=gnu++20", "-frtti"} & set(extra) else []) + list(extra) + ["-c", src, "-o", tmp]
        r = run(cmd)
        if r.returncode: return None, r.stdout
        os.replace(tmp, out)
        return out, ""

    def key(self, *parts): return sha(self.variant, " ".join(self.flags), self.hh, *parts)

    def compile_chunk(self, files):
        text = "#include <fmt/format.h>\n" + "".join('#include "%s"\n' % f for f in files)
        k = self.key("chunk", text, *[read(f) for f in files])
        o, log = self.compile_text(text, k)
        if o: return [o]
        objs = []
        for f in files:
            o = None
            if len(files) > 1:
                t = '#include <fmt/format.h>\n#include "%s"\n' % f
                o, log = self.compile_text(t, self.key("file", t, read(f)))
            if not o:
                t = '#include "%s"\n' % f
                o, log2 = self.compile_text(t, self.key("gcc", t, read(f)), gcc=True)
                if not o: raise RuntimeError("cannot compile %s:\n%s\n%s" % (f, log[:4000], log2[:4000]))
            objs.append(o)
        return objs

    def engine_text(self, f):
        s = read(f)  # engines may include other engines
        for n in re.findall(rb'#include "(\w+\.cpp)"', s): s += read(os.path.join(os.path.dirname(f), n.decode()))
        for n in re.findall(rb'#include "(run/\w+\.cpp)"', s): s += read(os.path.join(REPO, "src", n.decode()))
        return s

    def compile_engine(self, f, extra):
        t = '#include "%s"\n' % f
        if b"// std: gnu++20" in read(f): extra = list(extra) + ["-std=gnu++20"]
        if b"// flags: -frtti" in read(f): extra = list(extra) + ["-frtti"]
        o, log = self.compile_text(t, self.key("engine", self.eh, t, self.engine_text(f), *extra), extra)
        if not o: raise RuntimeError("cannot compile engine %s:\n%s" % (f, log[:8000]))
        return [o]

def link_libs():
    libs = ["-lfmt"]
    for n in ("hash", "city", "low_level_hash", "raw_hash_set", "bad_variant_access", "bad_optional_access",
              "raw_logging_internal", "throw_delegate", "strings", "strings_internal", "hashtablez_sampler",
              "synchronization", "base", "int128", "exponential_biased", "cord", "time", "str_format_internal"):
        c = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_%s.so*" % n))
        if c: libs.append(c[0])
    return libs + ["-lpthread"]

def build(variant, out, engines, defines=()):
    t0 = time.time()
    b = Builder(variant)
    b.make_pch()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # engine files are usually the longest jobs: start them first
        futs = [ex.submit(b.compile_engine, e, list(defines)) for e in engines]
        futs += [ex.submit(b.compile_chunk, c) for c in chunks()]
        objs = [o for f in futs for o in f.result()]
    key = sha("link", variant, *objs)
    stamp = out + ".key"
    if not (os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key):
        extra = []
        if variant == "san": extra = SAN
        if variant == "fuzz": extra = SAN + ["-fsanitize=fuzzer"]
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        r = run(["clang++", "-fuse-ld=lld", "-o", tmp] + objs + extra + link_libs())
        if r.returncode: raise RuntimeError("link failed:\n" + r.stdout[:6000])
        os.replace(tmp, out); put(stamp, key)
    prune()
    return time.time() - t0

def prune():
    """keep the local cache small"""
    try:
        fs = [os.path.join(OBJ, f) for f in os.listdir(OBJ)]
        tot = sum(os.path.getsize(f) for f in fs)
        if tot < 3 << 30: return
        for f in sorted(fs, key=os.path.getmtime):
            tot -= os.path.getsize(f); os.unlink(f)
            if tot < 2 << 30: break
    except OSError: pass

if __name__ == "__main__":
    try:
        print("built in %.1fs" % build(sys.argv[1], os.path.abspath(sys.argv[2]), [os.path.abspath(x) for x in sys.argv[3:]]))
    except RuntimeError as e:
        print(e); sys.exit(2)
