#!/usr/bin/env python3
"""Validates planted bugs in scratch copies and runs checks against them.

usage: seedtest.py [--checks C01,C02|own|all] [--jobs N] ID..."""
import glob
import json
import os
import shutil
import subprocess
import sys
import threading
import queue
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/seedtest"
STABLE = [x.split("::")[0] for x in
          json.load(open("/opt/vp/BASELINE.json"))["stable"]]


def run(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, env=e,
                           stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"


def build(repo):
    c, o = run(["cmake", "-S", repo, "-B", repo + "/_build", "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                "-DENABLE_TESTS=ON", "-DENABLE_INTEGRATION_TESTS=OFF",
                "-DDOWNLOAD_TUTORIAL_FILES=OFF"], repo)
    if c:
        return c, o
    return run(["ninja", "-C", repo + "/_build"], repo)


def tests(repo):
    x = repo + "/_build/j.xml"
    run(["ctest", "--test-dir", repo + "/_build", "-j1", "--timeout", "60",
         "--output-junit", x], repo)
    ok = {t.get("name") for t in ET.parse(x).getroot().iter("testcase")
          if t.get("status") == "run"}
    return [t for t in STABLE if t not in ok]


def slot(n):
    d = "%s/%d" % (BASE, n)
    repo = d + "/repo"
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    run(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), repo], "/")
    assert build(repo)[0] == 0
    return repo


def one(repo, sid, checks):
    src = os.path.join(ROOT, "seeded", sid)
    d = os.path.dirname(repo)
    demo = d + "/demo"
    if os.path.isdir(demo):
        shutil.rmtree(demo)
    shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    msg = []
    c, o = run(["bash", demo + "/demo.sh"], repo, 300)
    if c:
        msg.append("demo fails on the unchanged tree (%d): %s" % (c, o[-600:]))
    c, o = run(["git", "apply", src + "/patch.diff"], repo)
    if c:
        return ["patch does not apply " + o], {}
    res = {}
    try:
        c, o = build(repo)
        if c:
            return msg + ["does not build " + o[-1500:]], {}
        bad = tests(repo)
        if bad:
            msg.append("tests fail: " + " ".join(bad))
        c, o = run(["bash", demo + "/demo.sh"], repo, 300)
        if c == 0:
            msg.append("demo passes with the bug: " + o[-300:])
        for cid in checks:
            c, o = run(["python3-vt", ROOT + "/check.py", cid], ROOT, 900,
                       dict(VERIF_REPO=repo, VERIF_WORK=d + "/work",
                            VERIF_EVIDENCE=d + "/ev", VERIF_SEED="1",
                            VERIF_TIER="quick"))
            if c == 1 and "VIOLATION property=" + cid in o:
                res[cid] = "caught"
            elif c != 0:
                res[cid] = "exit %d: %s" % (c, o[-200:])
    finally:
        run(["git", "checkout", "-q", "--", "."], repo)
        build(repo)
    return msg, res


def main():
    a = sys.argv[1:]
    mode, jobs = "", 1
    while a and a[0].startswith("--"):
        if a[0] == "--checks":
            mode = a[1]
        if a[0] == "--jobs":
            jobs = int(a[1])
        a = a[2:]
    ids = a or sorted(os.listdir(ROOT + "/seeded"))
    allc = [c["property"] for c in
            json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
    q = queue.Queue()
    for i in ids:
        q.put(i)
    lock = threading.Lock()

    def work(n):
        repo = slot(n)
        while True:
            try:
                sid = q.get_nowait()
            except queue.Empty:
                break
            meta = json.load(open("%s/seeded/%s/meta.json" % (ROOT, sid)))
            cs = {"": [], "own": [meta["property"]], "all": allc}.get(
                mode, mode.split(","))
            try:
                msg, res = one(repo, sid, cs)
            except Exception as e:
                msg, res = ["error %r" % e], {}
            with lock:
                print("%s (%s): %s; %s" % (
                    sid, meta["property"], "; ".join(msg) or "valid",
                    " ".join("%s" % k if v == "caught" else "%s[%s]" % (k, v)
                             for k, v in sorted(res.items())) or
                    ("NOT CAUGHT" if cs else "")), flush=True)
        shutil.rmtree(os.path.dirname(repo))

    ts = [threading.Thread(target=work, args=(n,)) for n in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
