"""Builds, from /repo's current working tree, the bitcode the verifier works on.

Everything lands in a cache directory keyed by the content of the inputs (so an unchanged input is not
compiled twice); nothing is written into /repo."""
import hashlib, os, subprocess, sys, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.environ.get("VC_BUILD", os.path.join(VERIF, "build"))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"
# -fwrapv: signed overflow is two's complement (recorded as an assumption in the evidence)
FLAGS = ("-std=c++17 -O1 -fno-pic -fwrapv -fno-strict-aliasing -g0 -DNDEBUG -DARMIPS_REGEXP=1 -DARMIPS_USE_STD_FILESYSTEM "
         "-fno-access-control -w").split()
# the verifier's build takes a stand-in for the third-party tinyformat (see contracts/tfm); the native
# replay takes the real one
# both take the in-memory stand-in for std::filesystem/std::fstream (contracts/vfs)
INC_V = ["-I" + VERIF + "/contracts/vfs", "-I" + VERIF + "/contracts/tfm", "-I" + REPO, "-I" + VERIF + "/contracts"]
INC_N = ["-I" + VERIF + "/contracts/vfs", "-I" + REPO + "/ext/tinyformat", "-I" + REPO, "-I" + VERIF + "/contracts"]
SRC_DIRS = ["Archs", "Commands", "Core", "Parser", "Util"]


class BuildError(Exception):
    pass


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    out = []
    for d in SRC_DIRS:
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs if f.endswith(".cpp")]
    # the command line without the program's main() and its test runner
    m = os.path.join(REPO, "Main")
    if os.path.isdir(m):
        out += [os.path.join(m, f) for f in os.listdir(m) if f.endswith(".cpp") and f.lower() not in ("main.cpp", "tests.cpp")]
    return sorted(out)


def headers_hash():
    h = hashlib.sha256()
    for d in SRC_DIRS + ["Main", "ext/tinyformat"]:
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".inl")):
                    h.update(f.encode() + b"\0" + _read(os.path.join(r, f)))
    return h.hexdigest()[:24]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])
    return p.stdout.decode(errors="replace")


def _atomic(cmd_for, out):
    tmp = out + ".tmp%d" % os.getpid() + os.path.splitext(out)[1]
    run(cmd_for(tmp))
    os.replace(tmp, out)


def engine():
    d = os.path.join(BUILD, "engine")
    os.makedirs(d, exist_ok=True)
    key = _h(*[_read(os.path.join(VERIF, "engine", f)) for f in ("dvc.cpp", "builtins.inc", "build.sh")])
    exe = os.path.join(d, "dvc-" + key)
    if not os.path.exists(exe):
        t = tempfile.mkdtemp(prefix="vceng", dir=d)
        run(["bash", os.path.join(VERIF, "engine", "build.sh"), t])
        os.replace(os.path.join(t, "dvc"), exe)
        shutil.rmtree(t)
    return exe


def _compile(src, extra, key_extra, inc=INC_V):
    d = os.path.join(BUILD, "bc")
    os.makedirs(d, exist_ok=True)
    key = _h(_read(src), key_extra, " ".join(FLAGS + inc), " ".join(extra), src)
    out = os.path.join(d, os.path.basename(src).replace(".cpp", "") + "-" + key + ".bc")
    if not os.path.exists(out):
        _atomic(lambda t: [CLANG] + FLAGS + inc + extra + ["-emit-llvm", "-c", src, "-o", t], out)
    return out


def contract_headers():
    c = os.path.join(VERIF, "contracts")
    out = []
    for r, ds, fs in os.walk(c):
        ds.sort()
        out += [_read(os.path.join(r, f)) for f in sorted(fs) if f.endswith((".h", ".inc"))]
    return b"".join(out)


def module(harness):
    """harness: list of .cpp names in contracts/. returns path of the linked module for the verifier"""
    c = os.path.join(VERIF, "contracts")
    hh = headers_hash() + _h(_read(os.path.join(c, "tfm", "tinyformat.h")), _read(os.path.join(c, "vfs", "Util", "FileSystem.h")), _read(os.path.join(c, "vc.h")))
    ch = hashlib.sha256(contract_headers()).hexdigest()
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        frepo = [ex.submit(_compile, s, [], hh) for s in repo_sources()]
        frt = [ex.submit(_compile, os.path.join(c, "rt.cpp"), ["-fno-builtin"], ""), ex.submit(_compile, os.path.join(c, "rt_string.cpp"), [], ""),
               ex.submit(_compile, os.path.join(c, "rt_lib.cpp"), [], "")]
        fh = [ex.submit(_compile, os.path.join(c, h), [], hh + ch) for h in harness]
        repo = [f.result() for f in frepo]
        rt = [f.result() for f in frt]
        hs = [f.result() for f in fh]
    d = os.path.join(BUILD, "mod")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, _h("link", *(repo + rt + hs)) + ".bc")
    if not os.path.exists(out):
        _atomic(lambda t: [LINK] + repo + rt + hs + ["-o", t], out)
    return out, repo, hs


def native(harness):
    """the same harness and the same repository sources as a native program (for replay)"""
    c = os.path.join(VERIF, "contracts")
    hh = headers_hash() + _h(_read(os.path.join(c, "vfs", "Util", "FileSystem.h")), _read(os.path.join(c, "vc.h")))
    ch = hashlib.sha256(contract_headers()).hexdigest()
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        frepo = [ex.submit(_compile, s, [], hh, INC_N) for s in repo_sources()]
        fh = [ex.submit(_compile, os.path.join(c, h), [], hh + ch, INC_N) for h in harness]
        frt = ex.submit(_compile, os.path.join(c, "native_rt.cpp"), [], ch, INC_N)
        repo = [f.result() for f in frepo]
        hs = [f.result() for f in fh]
        rt = frt.result()
    d = os.path.join(BUILD, "native")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, _h("native", rt, *(repo + hs)))
    if not os.path.exists(out):
        t = tempfile.mkdtemp(prefix="vcn", dir=d)
        all_bc = os.path.join(t, "a.bc")
        run([LINK] + repo + hs + [rt, "-o", all_bc])
        run([CLANG, "-O1", "-fno-pic", "-no-pie", all_bc, "-o", os.path.join(t, "a"), "-lstdc++fs", "-pthread", "-ldl", "-rdynamic"])
        os.replace(os.path.join(t, "a"), out)
        shutil.rmtree(t)
    return out


def clean_cache(keep_mb=1500):
    """drops the oldest cache entries when the cache grows"""
    files = []
    for r, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(r, f)
            try:
                s = os.stat(p)
                files.append((s.st_mtime, s.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if tot < keep_mb * 1e6:
            break
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass
