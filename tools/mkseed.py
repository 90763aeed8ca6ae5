#!/usr/bin/env python3
"""mkseed.py DEFS.py [ids...]: makes /verif/seeded/<id> from a definition and confirms it in a scratch
copy of /repo (/tmp/sc): builds, passes the existing tests, demo passes without and fails with the change.
DEFS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)...], cases=[(asm text, expected hex | 'fail' | 'ok')], needs, breaks)]"""
import sys, os, subprocess, json, shutil, importlib.util
SC = "/tmp/sc"
OUT = "/verif/seeded"

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def scratch():
    if not os.path.isdir(SC):
        sh("cp -a /repo %s && rm -rf %s/_build" % (SC, SC))
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (SC, SC))
    if not os.path.isdir(SC + "/_build"):
        r = sh("cmake -S . -B _build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DARMIPS_USE_STD_FILESYSTEM=ON", cwd=SC)
        assert r.returncode == 0, r.stderr
    return build()

def build():
    return sh("ninja -C _build", cwd=SC)

def tests():
    t = open("/opt/vp/run_tests.py").read().replace("/repo", SC)
    open("/tmp/run_tests_sc.py", "w").write(t)
    sh("python3 /tmp/run_tests_sc.py /tmp/sc_results.txt", cwd=SC)
    return open("/tmp/sc_results.txt").read()

DEMO = r'''#!/bin/bash
# exit 0: behaves as documented; 1: does not
A="$PWD/_build/armips"
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
cd "$D" || exit 2
rc=0
check() { # name, expected hex bytes of out.bin, or fail, or ok
	rm -f out.bin
	timeout 60 "$A" "$1" >log.txt 2>&1; r=$?
	if [ "$2" = fail ]; then [ $r -ne 0 ] && [ $r -lt 124 ] || { echo "$1: should have been rejected"; cat log.txt; rc=1; }; return; fi
	[ $r -eq 0 ] || { echo "$1: armips failed ($r)"; cat log.txt; rc=1; return; }
	[ "$2" = ok ] && return
	h=$(od -An -v -tx1 out.bin | tr -d ' \n')
	[ "$h" = "$2" ] || { echo "$1: got $h, expected $2"; rc=1; }
}
%s
exit $rc
'''

def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    b = scratch(); assert b.returncode == 0, b.stdout[-2000:]
    base = tests().count("PASS ")
    for s in m.SEEDS:
        if want and s["id"] not in want: continue
        if not want and os.path.isdir(os.path.join(OUT, s["id"])): continue
        d = os.path.join(OUT, s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        parts = []
        for i, (asm, exp) in enumerate(s.get("cases", [])):
            n = "t%d.asm" % i
            parts.append("cat >%s <<'EOF'\n%s\nEOF\ncheck %s %s" % (n, asm.strip("\n"), n, exp))
        open(d + "/demo.sh", "w").write(DEMO % "\n".join(parts + [s.get("demo", "")]))
        os.chmod(d + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % d, cwd=SC)
        if r0.returncode != 0: print(s["id"], "demo fails on the unchanged tree:", r0.stdout[-600:]); shutil.rmtree(d); continue
        bad = False
        for f, o, n in s["edits"]:
            p = os.path.join(SC, f); t = open(p).read()
            if t.count(o) != 1: print(s["id"], f, "pattern count", t.count(o)); bad = True; break
            open(p, "w").write(t.replace(o, n))
        if not bad:
            b = build()
            if b.returncode: print(s["id"], "does not build", b.stdout[-800:]); bad = True
        if not bad:
            t = tests()
            if t.count("PASS ") != base: print(s["id"], "existing tests notice:", [l for l in t.split("\n") if "FAIL " in l][:4]); bad = True
        if not bad:
            r1 = sh("bash %s/demo.sh" % d, cwd=SC)
            if r1.returncode == 0: print(s["id"], "demo does not fail with the change"); bad = True
        if not bad:
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=SC).stdout)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print(s["id"], "ok:", r1.stdout.strip()[:150])
        else: shutil.rmtree(d)
        sh("git checkout -q -f .", cwd=SC); build()
main()
