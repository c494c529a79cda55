#!/usr/bin/env python3
"""seed.py confirm DIR...: confirms planted bugs. Each DIR has edits.py (EDITS = [(file, old, new), ...]) or
patch.diff, meta.json and demo.rs/demo.sh. Applies to /repo, runs the tests and the demonstration, restores.
seed.py check DIR ID...: runs checks with the bug in place."""
import json, os, shutil, subprocess, sys
REPO = "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def restore():
    sh("git checkout -- .", cwd=REPO)
def clean():
    return sh("git status --porcelain", cwd=REPO).stdout.strip() == ""
def make(d):
    e = os.path.join(d, "edits.py")
    if os.path.exists(e):
        ns = {}
        exec(open(e).read(), ns)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (d, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=REPO).stdout)
        restore()
def failing(out):
    j = json.load(open(out))
    return j
mode, args = sys.argv[1], sys.argv[2:]
assert clean(), "repo not clean"
if mode == "confirm":
    for d in args:
        d = os.path.abspath(d)
        try:
            make(d)
            if not os.path.exists(os.path.join(d, "demo.sh")):
                shutil.copy("/tmp/sb/demo.sh", d)
            r0 = sh("bash %s/demo.sh" % d, cwd=REPO, timeout=300)
            r = sh("git apply %s/patch.diff" % d, cwd=REPO)
            assert r.returncode == 0, r.stdout
            t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedout.json")
            res = json.load(open("/tmp/seedout.json")) if os.path.exists("/tmp/seedout.json") else {}
            r1 = sh("bash %s/demo.sh" % d, cwd=REPO, timeout=300)
            print(os.path.basename(d), "demo clean:", r0.returncode, "tests:", t.returncode, summary(res) if 'summary' in globals() else t.stdout.strip().splitlines()[-1:], "demo patched:", r1.returncode, (r1.stdout.strip().splitlines() or [""])[-1][:150], "" if r0.returncode == 0 else r0.stdout[-500:])
        finally:
            restore()
            if os.path.exists("/tmp/seedout.json"): os.remove("/tmp/seedout.json")
elif mode == "check":
    d = os.path.abspath(args[0])
    try:
        r = sh("git apply %s/patch.diff" % d, cwd=REPO)
        assert r.returncode == 0, r.stdout
        for i in args[1:]:
            r = sh("./check " + i, cwd="/verif")
            print(os.path.basename(d), i, "exit", r.returncode, r.stdout.strip()[-500:])
    finally:
        restore()
sys.stdout.flush()
