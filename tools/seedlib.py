"""Helpers to write and try planted bugs (development only; no check reads them).

  seedlib.py try ID...   in a scratch copy: apply the patch, build, run the repository's tests, run demo.sh with and
                         without it, and run the property's quick check against the patched copy.
"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.cc against the library built in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
tmp=$(mktemp -d) || exit 3
g++ -std=c++17 -O1 -w -fopenmp -I"$root/lib" -o "$tmp/demo" "$here/demo.cc" \\
  -L"$root/_build/obj/lib/.libs" -lhnco -lboost_serialization || { rm -r "$tmp"; exit 3; }
(cd "$tmp" && LD_LIBRARY_PATH="$root/_build/obj/lib/.libs" timeout 250 ./demo)
rc=$?
rm -r "$tmp"
exit $rc
'''


def make(sid, prop, edits, demo, needs, breaks, repo="/repo", script=None):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.check_call(["git", "-C", repo, "worktree", "add", "-q", "--detach", w + "/w"])
    try:
        for f, old, new in edits:
            p = os.path.join(w, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        out = subprocess.check_output(["git", "-C", w + "/w", "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(out)
    finally:
        subprocess.call(["git", "-C", repo, "worktree", "remove", "--force", w + "/w"])
        shutil.rmtree(w)
    if demo is not None:
        open(os.path.join(d, "demo.cc"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(script or DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def attempt(ids, tests=True):
    """The build scripts only know /repo, so the patch is applied there and undone straight afterwards."""
    for sid in ids:
        d = os.path.join(V, "seeded", sid)
        prop = json.load(open(d + "/meta.json"))["property"]
        assert sh("git -C /repo status --porcelain").stdout == ""
        res = {}
        if tests:
            r = sh("bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1")
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            res["demo_clean"] = r.returncode
            if r.returncode: print(r.stdout[-800:])
        r = sh("git -C /repo apply %s/patch.diff" % d)
        assert r.returncode == 0, r.stdout
        try:
            if tests:
                r = sh("bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1")
                res["build"] = r.returncode
                sh("bash /opt/vp/test.sh /tmp/seed_o.json >/tmp/seed_t.log 2>&1")
                o = json.load(open("/tmp/seed_o.json"))
                res["tests"] = "%d/%d" % (len(o["passed"]), len(o["failed"]))
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                res["demo_bug"] = r.returncode
            r = sh("python3 %s/vf.py run %s quick" % (V, prop), env={**os.environ, "VERIF_SEED": "1"})
            res["check"] = r.returncode
            last = [l for l in r.stdout.strip().splitlines()][-1:] 
        finally:
            sh("git -C /repo checkout -- .")
        print(sid, prop, res, last, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "try":
        attempt(sys.argv[2:])
    elif sys.argv[1] == "check":
        attempt(sys.argv[2:], tests=False)
