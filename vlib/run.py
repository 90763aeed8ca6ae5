#!/usr/bin/env python3
"""check P01 [--tier quick|thorough]: rebuilds the bitcode from /repo, generates and discharges every
obligation of the property's contracts, replays counterexamples natively, writes evidence/<id>.json.

exit 0: every obligation discharged; 1: a violation (VIOLATION line); 2: no answer (build error, solver
gave up, resource limit)."""
import sys, os, re, json, time, subprocess, glob, argparse, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from concurrent.futures import ThreadPoolExecutor

VERIF = vbuild.VERIF
CON = os.path.join(VERIF, "contracts")
NPROC = max(2, min(8, os.cpu_count() or 8))


def say(*a):
    print(*a, flush=True)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) label="([^"]*)" :: (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def expectations(path):
    """lines  // expect: ENTRY label label ...   in a contract file: covers that must be reached"""
    e = {}
    for l in open(path):
        m = re.match(r'//\s*expect:\s*(\w+)\s+(.*)', l)
        if m:
            e["vc_" + m.group(1)] = m.group(2).split()
    return e


def step_limits(path):
    """lines  // steps: ENTRY N   raise the step limit of one (long but bounded) entry"""
    return {"vc_" + m.group(1): m.group(2) for m in (re.match(r'//\s*steps:\s*(\w+)\s+(\d+)', l) for l in open(path)) if m}


def bounds(path):
    """lines  // bounded: ENTRY bound   entries that enumerate or cap something: reported apart, never counted as proved"""
    return {"vc_" + m.group(1): m.group(2).strip() for m in (re.match(r'//\s*bounded:\s*(\w+)\s+(.*)', l) for l in open(path)) if m}


def entries_of(path, pid, tier):
    num = pid[1:]
    names = re.findall(r'VC_ENTRY\((\w+)\)', open(path).read())
    r = [n for n in names if n.startswith("P%s_" % num)]
    if tier == "thorough":
        r += [n for n in names if n.startswith("T%s_" % num)]
    return ["vc_" + n for n in r]


class Result:
    def __init__(self):
        self.obl = {}
        self.reached = {}
        self.failures = []
        self.errors = []
        self.stubs = set()
        self.bodies = set()
        self.models = set()
        self.num = dict(paths=0, steps=0, queries=0, solver_s=0.0)

    def add(self, j, mod, entry):
        for l, o in j.get("obligations", {}).items():
            t = self.obl.setdefault((entry, l), dict(count=0, discharged=0, trivial=0, failed=0, unknown=0))
            for k in t:
                t[k] += o[k]
        for l, n in j.get("reached", {}).items():
            self.reached[(entry, l)] = self.reached.get((entry, l), 0) + n
        for f in j.get("failures", []):
            f["entry"] = entry
            f["module"] = mod
            self.failures.append(f)
        self.errors += ["%s: %s" % (entry, e) for e in j.get("errors", [])]
        for k in ("stubs", "bodies", "models"):
            getattr(self, k).update(j.get(k, []))
        for k in self.num:
            self.num[k] += j.get(k, 0)


def demangle(names):
    names = sorted(names)
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return p.stdout.split("\n")[:len(names)] if p.returncode == 0 else names


def replay(f, files, outdir, n):
    """runs the counterexample on the real code, compiled natively; returns (reproduced, path)"""
    vals = os.path.join(outdir, "cex-%d.vals" % n)
    with open(vals, "w") as o:
        for name, bits, hexv in f["vals"]:
            o.write("%s %s %s\n" % (name, bits, hexv))
    text = ["obligation: " + f["label"], "at: " + f.get("where", ""), "entry: " + f["entry"], "contract file: " + ", ".join(files),
            "values (in order of occurrence):"] + ["  %s (%s bits) = %s" % tuple(v) for v in f["vals"]]
    ok = False
    try:
        exe = vbuild.native(files)
        mem = f["label"].startswith(("memory-safety", "no-trap"))
        cmds = [[exe, f["entry"], vals]]
        if mem and shutil.which("valgrind"):
            cmds.append(["valgrind", "-q", "--error-exitcode=99", exe, f["entry"], vals])
        for c in cmds:
            t = 120 if c[0] == "valgrind" else 20
            scratch = os.path.join(outdir, "cwd-%d" % n)
            os.makedirs(scratch, exist_ok=True)
            try:
                p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, cwd=scratch,
                                   preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (8 << 30, 8 << 30)))
                rc, out = p.returncode, p.stdout.decode(errors="replace")[-3000:]
            except subprocess.TimeoutExpired as e:
                rc, out = "timeout", (e.stdout or b"").decode(errors="replace")[-3000:]
            shutil.rmtree(scratch, ignore_errors=True)
            text += ["replay on the native build of the same sources: " + " ".join(c), "exit: %s" % rc, out]
            if rc == 1 or rc == 99 or (rc == "timeout" and f["label"].startswith("termination")) or (isinstance(rc, int) and rc < 0) or rc == 134 or rc == 139:
                ok = True
                break
    except Exception as e:
        text.append("replay not possible: %s" % e)
    p = os.path.join(outdir, "cex-%d.txt" % n)
    text.append("reproduced on the real code: " + ("yes" if ok else "no"))
    with open(p, "w") as o:
        o.write("\n".join(text) + "\n")
    return ok, p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    A = ap.parse_args()
    pid, tier = A.property, A.tier
    t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    files = sorted(glob.glob(os.path.join(CON, pid.lower() + "_*.cpp")))
    if not files:
        say("no contracts for", pid)
        return 2
    notes = []
    R = Result()
    try:
        eng = vbuild.engine()
    except vbuild.BuildError as e:
        say(str(e))
        return 2
    jobs = []
    expect = {}
    limits = {}
    repo_bcs = []
    for f in files:
        base = os.path.basename(f)
        ents = [e for e in entries_of(f, pid, tier) if A.only in e]
        if not ents:
            continue
        try:
            mod, repo_bcs, _ = vbuild.module([base])
        except vbuild.BuildError as e:
            if base.endswith("_f.cpp"):
                # white-box contracts name internal functions; when those are renamed away the end-to-end
                # contracts of the same property still decide it
                notes.append("contract file %s does not compile against this tree; its function contracts were not checked in this run" % base)
                say("NOTE: " + notes[-1])
                say(str(e)[-1500:])
                continue
            say(str(e))
            return 2
        for k, v in expectations(f).items():
            expect[k] = v
        limits.update(step_limits(f))
        for e in ents:
            n = 32 if e.endswith("_sh") else 1
            for k in range(n):
                jobs.append((mod, base, e, k, n))
    tb = time.time() - t0
    tmp = os.path.join(vbuild.BUILD, "run", "%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    # single (unsharded) entries first: they tend to be long
    jobs.sort(key=lambda j: (j[4] > 1,))

    def one(ij):
        i, (mod, base, e, k, n) = ij
        left = budget - (time.time() - t0)
        out = os.path.join(tmp, "%d.json" % i)
        if left < 5:
            return mod, base, e, {"errors": ["no time left"]}
        cmd = [eng, mod, "--entry", e, "--ctor", "all", "--out", out, "--shard", "%d/%d" % (k, n), "--deadline", "%d" % left, "--query-ms", "60000" if tier == "quick" else "600000"]
        if tier == "thorough":
            cmd += ["--max-steps", "20000000000", "--max-paths", "100000000"]
        if e in limits:
            cmd += ["--max-path-steps", limits[e], "--max-steps", limits[e]]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left + 90)
            try:
                j = json.load(open(out))
            except Exception:
                j = {"errors": ["verifier gave no result (exit %s): %s" % (p.returncode, p.stdout.decode(errors="replace")[-1500:])]}
        except subprocess.TimeoutExpired:
            j = {"errors": ["verifier timed out"]}
        return mod, base, e, j

    basefile = {}
    dropped = set()
    with ThreadPoolExecutor(NPROC) as ex:
        for mod, base, e, j in ex.map(one, enumerate(jobs)):
            basefile[e] = base
            if base.endswith("_f.cpp") and any("unmodelled external function" in x for x in j.get("errors", [])):
                # a function named by a white-box contract is gone, or calls something new that has no model
                if e not in dropped:
                    notes.append("%s: %s; this function contract was not checked in this run" % (e, [x for x in j["errors"] if "unmodelled" in x][0][:300]))
                    say("NOTE: " + notes[-1])
                dropped.add(e)
                continue
            R.add(j, mod, e)
    shutil.rmtree(tmp, ignore_errors=True)
    # vacuity guards
    for e in sorted({j[2] for j in jobs} - dropped):
        if not sum(o["count"] for (en, l), o in R.obl.items() if en == e):
            R.errors.append(e + ": generated no obligation")
        for l in expect.get(e, []):
            if not R.reached.get((e, l)):
                R.errors.append("%s: cover '%s' never reached (the contract would be vacuous)" % (e, l))
    total = sum(o["count"] for o in R.obl.values())
    disch = sum(o["discharged"] for o in R.obl.values())
    unknown = sum(o["unknown"] for o in R.obl.values())
    known = known_findings(pid)
    new, seenk = [], set()
    for f in R.failures:
        m = [t for l, t in known if f["label"] == l]
        if m:
            seenk.add(m[0])
        else:
            new.append(f)
    for t in sorted(seenk):
        say("KNOWN-FINDING: property=%s %s" % (pid, t))
    viol = 0
    rc = 0
    first = None
    if new:
        viol = len({f["label"] for f in new})
        rdir = os.path.join(evd, "replay-" + pid)
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        done, n = set(), 0
        for f in new:
            if f["label"] in done or n >= 8:
                continue
            done.add(f["label"])
            ok, p = replay(f, [basefile[f["entry"]]], rdir, n)
            n += 1
            say("failed obligation: %s  [%s] at %s -> %s" % (f["label"], f["entry"], f.get("where", ""), "reproduced" if ok else "not reproduced"))
            if first is None or (ok and not first[0]):
                first = (ok, p)
            if ok and n >= 3:
                break
        say("VIOLATION property=%s replay=%s%s" % (pid, first[1], "" if first[0] else " no-failing-input-found"))
        rc = 1
    for e in R.errors[:20]:
        say("ERROR: " + e[:600])
    if rc == 0 and (R.errors or unknown or total == 0 or disch != total):
        if not (seenk and not R.errors and not unknown):
            rc = 2
    repo_fn = set()
    if repo_bcs:
        nm = "llvm-nm-18" if shutil.which("llvm-nm-18") else "/usr/lib/llvm-18/bin/llvm-nm"
        p = subprocess.run([nm, "--defined-only", "-j"] + repo_bcs, capture_output=True, text=True)
        repo_fn = {l.strip() for l in p.stdout.split("\n")}
    under = [b for b in R.bodies if b in repo_fn]
    fn = [d for d in demangle(under) if not d.startswith(("std::", "__gnu", "void std::", "decltype")) and "std::_" not in d.split("(")[0]]
    bnd = {}
    for f in files:
        bnd.update(bounds(f))
    perentry, bentry = {}, {}
    for (e, l), o in R.obl.items():
        t = (bentry.setdefault(e, dict(bound=bnd[e], obligations=0, discharged=0)) if e in bnd else perentry.setdefault(e, dict(obligations=0, discharged=0)))
        t["obligations"] += o["count"]
        t["discharged"] += o["discharged"]
    level = "proof" if perentry else "other"
    ptotal, pdisch = sum(t["obligations"] for t in perentry.values()), sum(t["discharged"] for t in perentry.values())
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "obligations": ptotal, "discharged": pdisch,
            "bounded_obligations": total - ptotal, "bounded_discharged": disch - pdisch, "bounded_entries": bentry,
            "explanation": "obligations/discharged count the entries whose inputs are unrestricted; bounded_* count the entries with the stated bound, which are decided for every value within the bound and are not counted as proved",
            "checker_cmd": "%s/check %s --tier %s" % (VERIF, pid, tier),
            "trusted_base": ["clang 18 (C++ to LLVM IR at -O1)", "engine/dvc (VC generation over LLVM IR)", "z3 (bit-vector/FP/array back end, loaded from the python z3 package)",
                             "libstdc++ headers as compiled (bodies verified through, not assumed)", "contracts/rt*.cpp (libc/libstdc++ out-of-line functions, executed as code)"],
            "back_end": "z3",
            "trivially_discharged_by_simplification": sum(o["trivial"] for o in R.obl.values()),
            "solver_queries": R.num["queries"], "solver_time_s": round(R.num["solver_s"], 1), "paths": R.num["paths"], "ir_steps": R.num["steps"],
            "entries": perentry,
            "covers_reached": {"%s/%s" % k: v for k, v in sorted(R.reached.items())},
            "functions_under_contract_count": len(fn), "functions_under_contract": fn[:4000],
            "callees_replaced_by_contract": demangle(R.stubs), "library_models": sorted(R.models),
            "notes": notes,
        },
        "assumptions": ASSUMPTIONS + extra_assumptions(files),
        "wall_s": round(time.time() - t0, 1), "violations": viol,
    }
    with open(os.path.join(evd, pid + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    say("%s %s: %d obligations, %d discharged, %d paths, solver %.1f s, build %.1f s, wall %.1f s -> exit %d" % (pid, tier, total, disch, R.num["paths"], R.num["solver_s"], tb, time.time() - t0, rc))
    vbuild.clean_cache()
    return rc


ASSUMPTIONS = [
    "clang's translation of the sources to IR at -O1 -fwrapv is what the shipped gcc/clang build computes (signed overflow wraps)",
    "allocation never fails; std::thread runs its function synchronously",
    "tinyformat (message text) is replaced by a stand-in that prints '?' for a symbolic number; only message wording depends on it",
    "the file system and file streams are the assumed contract contracts/vfs (no disk errors, no concurrent changes); output goes through the file manager's in-memory file",
    "an exception that would be thrown is reported as a failure, catch blocks are not followed",
]


def extra_assumptions(files):
    out = []
    for f in files:
        for l in open(f):
            m = re.match(r'//\s*assumes:\s*(.*)', l)
            if m:
                out.append(m.group(1).strip())
    return out


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vbuild.BuildError as e:
        print(e)
        sys.exit(2)
