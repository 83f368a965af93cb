"""Make a planted bug: seed.py SPEC.py
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], SOURCES=[.cpp under /repo/cpp_utils/src/cpp], DEMO=C++ text
(or DEMO_SH for another kind of demonstration). Applies it in a scratch copy, checks that it builds, passes the stable tests, and that the
demonstration tells the trees apart; then writes /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# exit 0: the property holds; nonzero: it does not
set -u
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
S="$PWD/cpp_utils"
SRC=""
for f in %(sources)s; do SRC="$SRC $S/src/cpp/$f"; done
g++ -std=c++17 -w %(flags)s -I"$D/stub" -I"$S/include" "$D/demo.cpp" $SRC -o "$T/demo" -pthread || exit 2
cd "$T" && timeout %(limit)d ./demo
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main(spec):
    s = runpy.run_path(spec)
    out = os.path.join(V, "seeded", s["ID"])
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    wt = "/tmp/seedrepo"
    if not os.path.isdir(wt):
        subprocess.check_call(["cp", "-a", "/repo", wt]); shutil.rmtree(os.path.join(wt, "_build"), ignore_errors=True)
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- .", wt)
    for f, old, new in s["EDITS"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(out, "patch.diff"), "w").write(subprocess.check_output(["git", "diff"], cwd=wt, text=True))
    if "DEMO_SH" in s:
        open(os.path.join(out, "demo.sh"), "w").write(s["DEMO_SH"])
        for n, t in s.get("FILES", {}).items():
            open(os.path.join(out, n), "w").write(t)
    else:
        open(os.path.join(out, "demo.sh"), "w").write(SH % dict(sources=" ".join(s.get("SOURCES", [])) or '""' and " ".join(s.get("SOURCES", [])), flags=s.get("FLAGS", "-O1"), limit=s.get("LIMIT", 60)))
        open(os.path.join(out, "demo.cpp"), "w").write(s["DEMO"].lstrip())
        shutil.copytree(os.path.join(V, "stub"), os.path.join(out, "stub"))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    rc0 = sh("bash %s/demo.sh" % out, "/repo", timeout=300)
    rc1 = sh("bash %s/demo.sh" % out, wt, timeout=300)
    ok = rc0.returncode == 0 and rc1.returncode not in (0, 2) or "DEMO_SH" in s and rc0.returncode == 0 and rc1.returncode
    print(s["ID"], "demo: unchanged", rc0.returncode, "patched", rc1.returncode, rc0.stdout[-500:] if rc0.returncode else "", rc1.stdout[-300:])
    comp = ""
    for f, _, _ in s["EDITS"]:
        if f.endswith(".cpp"):
            r = sh("g++ -std=c++17 -w -fsyntax-only -I%s/stub -Icpp_utils/include -Icpp_utils/src/cpp -Ithirdparty/filewatch %s" % (V, f), wt)
            if r.returncode:
                ok = False
                print(r.stdout)
    if not os.environ.get("NOTEST"):
        # the copy is bind-less: build through the same scripts with /repo's name replaced
        t = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/seed_build.sh; sed -e 's#/repo#%s#g' -e 's#/opt/vp/build.sh#/tmp/seed_build.sh#' /opt/vp/test.sh > /tmp/seed_test.sh; "
               "bash /tmp/seed_build.sh && bash /tmp/seed_test.sh /tmp/seed_out.json" % (wt, wt), wt)
        if t.returncode:
            print("BUILD/TEST FAILED", t.stdout[-1500:]); ok = False
        else:
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seed_out.json"))
            miss = [x for x in base["stable"] if x not in got["passed"]]; print("tests: passed %d, stable missing %s" % (len(got["passed"]), miss)); ok = ok and not miss
    print(s["ID"], "OK" if ok else "BAD")
    sh("git checkout -q -- .", wt)
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(max(main(f) for f in sys.argv[1:]))
