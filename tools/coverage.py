#!/usr/bin/env python3-vt
"""coverage.py [ids]: which lines of the tree no quick check executes.

Runs the checks with a gcov build in place of the instrumented one (memory
checks then see nothing; this only measures reach) and lists, per file, the
lines with no execution."""
import gzip
import glob
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/vcov"
os.environ["VERIF_WORK"] = W
os.environ["VERIF_EVIDENCE"] = W + "/evidence"
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import common  # noqa: E402

cov = common.VARIANTS["cov"]
for name in ("san", "clangsan"):
    common.VARIANTS[name] = cov
ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 32)]
for pid in ids:
    for mod in ("cli", "cli2", "readers", "api", "fuzz"):
        f = getattr(__import__(mod), pid.lower(), None)
        if f:
            try:
                f()
            except Exception as e:  # reach is measured, not decided
                print(pid, repr(e)[:300])
miss, hit = {}, {}
for d in glob.glob(W + "/*/obj"):
    for gcda in subprocess.run(["find", d, "-name", "*.gcda"], text=True,
                               stdout=subprocess.PIPE).stdout.split():
        r = subprocess.run(["gcov", "--json-format", "--stdout", gcda],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           cwd=d)
        for line in r.stdout.splitlines():
            for f in json.loads(line)["files"]:
                p = f["file"]
                if "/tree/src/" not in p:
                    continue
                p = p.split("/tree/src/")[1]
                for ln in f["lines"]:
                    k = (p, ln["line_number"])
                    hit[k] = hit.get(k, 0) + ln["count"]
files = sorted({p for p, _ in hit})
for p in files:
    ls = [n for (q, n) in hit if q == p]
    un = sorted(n for n in ls if not hit[(p, n)])
    print("%-60s %4d/%4d %s" % (p, len(ls) - len(un), len(ls), un))
