#!/usr/bin/env python3
"""Makes and verifies planted bugs.

  tools/plant.py FILE.py...   each file calls bug(id, prop, needs, breaks,
                              edits=[(file, old, new)...], demo="C++ ...")
  tools/plant.py --recheck [ID...]   rerun every check on its planted bugs

For a new bug: lays /verif/seeded/<id>/ (patch, demo with its own copy of the
simulated environment, meta), then, in scratch copies of /repo, confirms that
the patched tree builds and passes the stable tests, that the demonstration
passes without and fails with the change, and reports whether the property's
check catches it.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
DEMO = '''#!/bin/bash
# Runs demo.cpp (one concrete scenario against the real sources of the current
# directory, on the simulated bus and clock packed in kit.tgz).
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo-XXXXXXXX) || exit 3
trap 'rm -rf -- "$t"' EXIT
tar -C "$t" -xzf "$d/kit.tgz" && cp "$d/demo.cpp" "$t/checks/DEMO.cpp" || exit 3
VP_REPO=$PWD VERIF_TIER=quick python3 "$t/bin/check" DEMO
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    sh("git clone -q %s %s/repo" % (REPO, d))
    os.makedirs(d + "/vp")
    for f in os.listdir("/opt/vp"):
        t = open("/opt/vp/" + f).read().replace("/repo", d + "/repo") \
            .replace("/opt/vp", d + "/vp")
        open(d + "/vp/" + f, "w").write(t)
    return d


def tests(d):
    r = sh("bash %s/vp/test.sh %s/t.json" % (d, d))
    try:
        passed = set(json.load(open(d + "/t.json"))["passed"])
    except Exception:
        return ["no result: " + r.stdout[-800:]]
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in want if t not in passed]


def check(d, prop, tier="quick"):
    r = sh("VP_REPO=%s/repo python3 %s/bin/check %s --tier %s" %
           (d, HERE, prop, tier))
    hit = "VIOLATION property=%s " % prop in r.stdout
    return hit, r.returncode, r.stdout


def verify(d, id, prop, full):
    s = os.path.join(HERE, "seeded", id)
    out = []
    sh("git checkout -q .", cwd=d + "/repo")
    if full:
        r = sh("bash %s/demo.sh" % s, cwd=d + "/repo")
        if r.returncode:
            return ["demo fails on the unchanged tree: " + r.stdout[-1500:]]
    r = sh("git apply %s/patch.diff" % s, cwd=d + "/repo")
    if r.returncode:
        return ["patch does not apply " + r.stdout]
    if full:
        bad = tests(d)
        if bad:
            return ["tests fail: %s" % bad[:5]]
        r = sh("bash %s/demo.sh" % s, cwd=d + "/repo")
        if r.returncode == 0:
            return ["demo passes with the change " + r.stdout[-600:]]
        if r.returncode != 1:
            return ["demo rc %d %s" % (r.returncode, r.stdout[-1500:])]
        out.append("demo: " + [l.strip() for l in r.stdout.splitlines()
                               if l.startswith("  ")][0][:150])
    hit, rc, log = check(d, prop)
    msg = [l.strip() for l in log.splitlines() if l.startswith("  ")]
    out.append(("CAUGHT " if hit else "MISSED rc=%d " % rc) + prop + " " +
               (msg[0][:160] if msg else log[-300:] if rc else ""))
    sh("git checkout -q .", cwd=d + "/repo")
    return out


def bug(id, prop, needs, breaks, edits, demo, headers=""):
    s = os.path.join(HERE, "seeded", id)
    os.makedirs(s, exist_ok=True)
    d = scratch()
    try:
        for f, old, new in edits:
            p = os.path.join(d, "repo", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(id, "EDIT matches %d times in %s: %s" %
                      (t.count(old), f, old[:60]))
                return
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=d + "/repo").stdout
        open(s + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(s + "/meta.json", "w"), indent=1)
        open(s + "/demo.sh", "w").write(DEMO)
        os.chmod(s + "/demo.sh", 0o755)
        head = headers or "//@budget 60 60\n"
        open(s + "/demo.cpp", "w").write(head + demo)
        sh("tar --sort=name --owner=0 --group=0 --mtime=2026-01-01 "
           "-C %s -czf %s/kit.tgz bin sim mc "
           "checks/world.hpp checks/daemon.hpp checks/pidprobe.hpp "
           "checks/dbusconf.hpp" %
           (HERE, s))
        for l in verify(d, id, prop, True):
            print(id, l, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def recheck(ids):
    for id in ids or sorted(os.listdir(HERE + "/seeded")):
        m = json.load(open(os.path.join(HERE, "seeded", id, "meta.json")))
        d = scratch()
        try:
            for l in verify(d, id, m["property"], False):
                print(id, l, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    elif sys.argv[1] == "--full":
        for id in sys.argv[2:] or sorted(os.listdir(HERE + "/seeded")):
            m = json.load(open(os.path.join(HERE, "seeded", id, "meta.json")))
            d = scratch()
            for l in verify(d, id, m["property"], True):
                print(id, l, flush=True)
            shutil.rmtree(d, ignore_errors=True)
    else:
        for f in sys.argv[1:]:
            exec(compile(open(f).read(), f, "exec"), {"bug": bug})
