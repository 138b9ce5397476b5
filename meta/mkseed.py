#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo, confirms it, and records it under seeded/.
usage: mkseed.py FILE.py   (FILE.py defines SEEDS: list of dicts)
"""
import json, os, shutil, subprocess, sys
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
ENV.pop("VERIF_TIER", None)
W = "/tmp/seedwork"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
d="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t="$(mktemp -d)" || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)szz_demo_test.go" "$d/zz_demo_test.go.txt" > "$t/overlay.json"
exec_out="$(go test -overlay "$t/overlay.json" -run '^TestZZDemo$' -count=1 -vet=off -timeout 120s ./%(pkg)s 2>&1)"
rc=$?
echo "$exec_out" | tail -30
echo "$exec_out" | grep -q "no tests to run" && exit 3
exit $rc
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable_ok(cwd):
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add((e["Package"], e["Test"]))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    names = {t for _, t in ok}
    return [w for w in want if not any(w.endswith(n) for n in names)]
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(["cp", "-a", "/repo", W])
        out = os.path.join(VERIF, "seeded", s["id"])
        fail = None
        for f, a, b in s["edits"]:
            p = os.path.join(W, f); t = open(p).read()
            if t.count(a) != 1: fail = "edit matches %d times in %s: %r" % (t.count(a), f, a[:60]); break
            open(p, "w").write(t.replace(a, b))
        if not fail:
            diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
            b = sh(["go", "build", "./..."], W)
            if b.returncode: fail = "does not build: " + b.stdout[-600:]
        if not fail:
            m = stable_ok(W)
            if m: fail = "breaks stable tests: %s" % m
        if not fail:
            tmp = "/tmp/seeddemo/" + s["id"]; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            pkg = s.get("pkg", "")
            open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": pkg + "/" if pkg else ""})
            open(tmp + "/zz_demo_test.go.txt", "w").write(s["demo"])
            good = sh(["bash", tmp + "/demo.sh"], "/repo"); bad = sh(["bash", tmp + "/demo.sh"], W)
            if good.returncode != 0: fail = "demo fails on the unchanged tree: " + good.stdout[-800:]
            elif bad.returncode in (0, 3): fail = "demo passes with the change: " + bad.stdout[-800:]
            elif "FAIL: TestZZDemo" not in bad.stdout and "panic" not in bad.stdout: fail = "demo odd: " + bad.stdout[-800:]
        if fail:
            print(s["id"], "REJECTED", fail); continue
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        for f in os.listdir(tmp): shutil.copy(tmp + "/" + f, out)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        env = dict(ENV, TEAL_REPO=W, VERIF_ROOT="/tmp/seedver")
        r = subprocess.run(["/verif/bin/tealverif", "check", s["property"]], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        print(s["id"], s["property"], "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED", (ls or [""])[0][:160])
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree("/tmp/seeddemo", ignore_errors=True); shutil.rmtree("/tmp/seedver", ignore_errors=True)
main()
