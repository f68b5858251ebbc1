#!/usr/bin/env python3
"""Mutation campaign: small changes of the sources, in scratch copies, that the
repository's tests do not notice, and which checks notice them.

usage: mutate.py --n 100 --seed 1 --jobs 2 --out FILE [--files REGEX]"""
import argparse
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"
STABLE = [x.split("::")[0] for x in
          json.load(open("/opt/vp/BASELINE.json"))["stable"]]
ORDER = [
    (r"matrix\.", "C16 C17 C18 C19 C20 C01 C02 C03 C34 C33"),
    (r"qc_functions", "C30 C21 C22 C01 C02 C03 C04 C05 C10 C25 C28 C23 C34 C33"),
    (r"parameters", "C31 C01 C02 C13 C12 C05 C04"),
    (r"string_support", "C24 C08 C06 C07 C09 C11 C13 C12 C01"),
    (r"io/io\.", "C12 C13 C05 C04 C14 C01 C02 C10"),
    (r"argument|propert", "C26 C15 C32 C12 C13 C14 C04"),
    (r"reader", "C06 C07 C08 C09 C11 C36 C27 C01 C02 C13 C34 C33"),
    (r"log\.hpp", "C35 C29 C23"),
    (r".", "C01 C02 C28 C14 C12 C13 C23 C04 C05 C10 C29"),
]


def run(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, env=e,
                         stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def code_of(line):
    """the line with the contents of texts blanked out, without comments"""
    t = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group()) - 2) + '"', line)
    return re.sub(r"//.*", lambda m: " " * len(m.group()), t)


SUBST = [
    (r"(?<![<>=!\-])<(?![<=])(?=\s)", ["<="]), (r"<=", ["<"]),
    (r"(?<![<>=\-])>(?![>=])(?=\s)", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=\()!(?=[a-zA-Z(])", [""]),
    (r"(?<=[\w)\]]) \+ 1\b", [""]), (r"(?<=[\w)\]]) - 1\b", [""]),
    (r"(?<=[\w)\]])\+1\b", [""]), (r"(?<=[\w)\]])-1\b", [""]),
    (r"(?<=[\w)\]]) \+ (?=[\w(])", [" - "]), (r"(?<=[\w)\]]) - (?=[\w(])", [" + "]),
    (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", [" + "]), (r"\+=", ["-=", "="]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
    (r"(?<![\w.])[2-9](?![\w.])", [None]), (r"\btrue\b", ["false"]),
    (r"\bfalse\b", ["true"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]),
]


def mutants(repo, files):
    out = []
    for f in files:
        lines = open(os.path.join(repo, f)).read().split("\n")
        block = False
        for i, l in enumerate(lines):
            c = code_of(l)
            if "/*" in c:
                block = True
            if block:
                if "*/" in c:
                    block = False
                continue
            if not c.strip() or c.lstrip().startswith(("#", "*", "namespace",
                                                       "template", "class")):
                continue
            if re.search(r"\bLOG\(|printf\(", c):
                continue
            for rx, reps in SUBST:
                for m in re.finditer(rx, c):
                    for r in reps:
                        if r is None:
                            r = str(int(m.group()) + 1)
                        if re.search(r"vector\s*<|map\s*<|set\s*<|pair\s*<|list\s*<|cout|cerr", c) \
                                and rx.find("<") >= 0 | rx.find(">") >= 0 \
                                and rx[-1:] != "=":
                            if re.search(r"^\(\?<!\[<>", rx):
                                continue
                        n = l[:m.start()] + r + l[m.end():]
                        if n != l:
                            out.append((f, i, l, n))
            s = c.strip()
            if re.match(r"if\s*\(.*\)\s*\{?$", s):
                k = l.index("if")
                tail = " {" if s.endswith("{") else ""
                out.append((f, i, l, l[:k] + "if (false)" + tail))
                out.append((f, i, l, l[:k] + "if (true)" + tail))
            if s.endswith(";") and s.count("(") == s.count(")") and \
                    s.count("{") == s.count("}") and \
                    not re.match(r"(return|throw|using|typedef|else|for|"
                                 r"break|continue|public|private|virtual|"
                                 r"const|static|friend|explicit)", s) and \
                    re.match(r"[\w.\->\[\]():*]+\s*(=|\+=|-=|\(|\+\+|\.|->)", s) \
                    and not f.endswith(".hpp") and \
                    i and re.search(r"[;{}]\s*$", code_of(lines[i - 1])):
                out.append((f, i, l, ""))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--out", default="/tmp/mut.txt")
    ap.add_argument("--files", default=".")
    a = ap.parse_args()
    files = [f for f in subprocess.check_output(
        ["git", "ls-files", "src"], cwd="/repo", text=True).split()
        if re.search(r"\.(cpp|hpp)$", f) and "test" not in f and
        "config" not in f and re.search(a.files, f)]
    ms = mutants("/repo", files)
    random.Random(a.seed).shuffle(ms)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            try:
                d = json.loads(l)
                done.add((d["file"], d["line"], d["new"]))
            except ValueError:
                pass
    print(len(ms), "mutants,", len(done), "done")
    q = queue.Queue()
    k = 0
    for f, i, l, n in ms:
        if (f, i + 1, n.strip()) in done:
            continue
        if k >= a.n:
            break
        k += 1
        q.put((f, i, l, n))
    lock = threading.Lock()

    def work(slot):
        d = "%s/%d_%d" % (BASE, os.getpid(), slot)
        repo = d + "/repo"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        run(["git", "clone", "-q", "/repo", repo], "/")

        def build():
            c, o = run(["cmake", "-S", repo, "-B", repo + "/_build", "-G", "Ninja",
                        "-DCMAKE_BUILD_TYPE=Debug",
                        "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                        "-DENABLE_TESTS=ON", "-DENABLE_INTEGRATION_TESTS=OFF",
                        "-DDOWNLOAD_TUTORIAL_FILES=OFF"], repo)
            return run(["ninja", "-C", repo + "/_build"], repo)
        assert build()[0] == 0
        while True:
            try:
                f, i, l, n = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(repo, f)
            src = open(p).read()
            t = src.split("\n")
            assert t[i] == l
            t[i] = n
            open(p, "w").write("\n".join(t))
            res = {"file": f, "line": i + 1, "old": l.strip(), "new": n.strip()}
            c, o = run(["ninja", "-C", repo + "/_build"], repo)
            if c:
                res["fate"] = "build"
            else:
                x = repo + "/_build/j.xml"
                c, o = run(["ctest", "--test-dir", repo + "/_build", "-j4",
                            "--timeout", "20", "--output-junit", x], repo, 120)
                try:
                    ok = {y.get("name") for y in
                          ET.parse(x).getroot().iter("testcase")
                          if y.get("status") == "run"}
                except Exception:
                    ok = set()
                if any(y not in ok for y in STABLE):
                    res["fate"] = "tests"
                else:
                    res["fate"] = "survived"
                    todo = []
                    for rx, cs in ORDER:
                        if re.search(rx, f):
                            todo += [y for y in cs.split() if y not in todo]
                            break
                    for cid in todo:
                        c, o = run(["python3-vt", ROOT + "/check.py", cid], ROOT,
                                   900, dict(VERIF_REPO=repo,
                                             VERIF_WORK=d + "/work",
                                             VERIF_EVIDENCE=d + "/ev",
                                             VERIF_SEED="1",
                                             VERIF_TIER="quick"))
                        if c == 1 and "VIOLATION property=" + cid in o:
                            res["fate"] = cid
                            break
                        if c != 0:
                            res["fate"] = "odd"
                            res["odd"] = "%s %d %s" % (cid, c, o[-300:])
                            break
            with lock, open(a.out, "a") as g:
                g.write(json.dumps(res) + "\n")
            open(p, "w").write(src)
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(s,)) for s in range(a.jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
