"""Checks that observe the public readers of Gaussian files."""
import os
import random
import shutil
import subprocess
import threading

import numpy as np

import gauss
from common import Build, Check, SAN_EXIT, clean_env, tier


class Dumper:
    """Feeds files to the instrumented reader and parses what it reports."""

    def __init__(self, ck, b):
        self.ck = ck
        self.exe = b.harness("reader_dump")

    def read(self, jobs, timeout=400):
        """jobs: [(kind, path)] -> list of dicts"""
        p = subprocess.Popen([self.exe], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=clean_env())
        inp = "".join("%s %s\n" % j for j in jobs).encode()
        try:
            out, err = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        err = err.decode("utf-8", "replace")
        res, cur = [], None
        for line in out.decode("utf-8", "replace").splitlines():
            w = line.split(" ")
            if w[0] == "FILE":
                cur = {"path": line[5:], "atoms": [], "status": None, "err": ""}
                res.append(cur)
            elif w[0] == "DONE":
                cur["status"] = (w[1], int(w[2]))
                if cur["status"] not in (("exit", 0), ("exit", 3)):
                    cur["err"] = err[-1500:]
            elif w[0] in ("ext", "restricted"):
                cur[w[0]] = w[1]
            elif w[0] == "coef":
                cur["coef " + w[1]] = None if w[2] == "absent" else mat(w[2:])
            elif w[0] == "overlap":
                cur["overlap"] = None if w[1] == "absent" else mat(w[1:])
            elif w[0] == "oe":
                cur["oe " + w[1]] = None if w[2] == "absent" else \
                    np.array([float(x) for x in w[3:]])
            elif w[0] == "homo":
                cur["homo " + w[1]] = None if w[2] == "absent" else int(w[2])
            elif w[0] == "basis":
                cur["basis"] = [int(x) for x in w[2:]]
            elif w[0] == "coords":
                cur["coords"] = [[float(x) for x in part.split()[1:]]
                                 for part in line.split("|")[1:]]
            elif w[0] == "atom":
                orbs = {}
                for part in line.split(" | ")[1:]:
                    f = part.split(" ")
                    orbs[f[0]] = [float(x) for x in f[1:]]
                cur["atoms"].append((int(w[1]), w[2], orbs))
        return res


def mat(w):
    r, c = int(w[0]), int(w[1])
    return np.array([float(x) for x in w[3:]]).reshape(r, c) \
        if len(w) - 3 == r * c else np.zeros((0, 0))


def ok(r):
    return r["status"] == ("exit", 0)


def orderly(r):
    """refused with an exception or an error exit, not with a memory error"""
    return r["status"] in (("exit", 3), ("exit", 1), ("signal", 6))


def same(a, b, rel=1e-12):
    if a is None or a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    a, b = np.where(na, 0, a), np.where(nb, 0, b)
    return bool((np.abs(a - b) <= rel * np.abs(b)).all())


def first_diff(a, b):
    if a is None:
        return "nothing was read"
    if a.shape != b.shape:
        return "shape %s instead of %s" % (a.shape, b.shape)
    d = np.argwhere(~((np.abs(a - b) <= 1e-12 * np.abs(b)) |
                      (np.isnan(a) & np.isnan(b))))
    if not len(d):
        return "?"
    i = tuple(d[0])
    return "at %s read %r, written %r (%d places differ)" % (
        tuple(int(x) + 1 for x in i), float(a[i]), float(b[i]), len(d))


def batches(ck, make, judge, total, size=24):
    """make(i, dir) -> (kind, path, expectation); judge(result, expectation)"""
    b = Build("san")
    dm = Dumper(ck, b)

    def one(k):
        d = os.path.join(ck.scratch, "b%d" % k)
        os.makedirs(d)
        todo = [make(i, d) for i in range(k * size, min(total, (k + 1) * size))]
        todo = [t for ts in todo for t in (ts if isinstance(ts, list) else [ts])]
        res = dm.read([t[:2] for t in todo])
        if len(res) != len(todo) or any(r["status"] is None for r in res):
            res = []   # run them one by one to see which one it is
            for t in todo:
                r = dm.read([t[:2]])
                if not r or r[0]["status"] is None:
                    ck.violation("the reader did not come back from %s" % t[1],
                                 files={"input": t[1]})
                    return
                res += r
        for t, r in zip(todo, res):
            ck.count("files read")
            judge(t, r)
            if ck.enough:
                break
        shutil.rmtree(d, ignore_errors=True)

    ck.parallel(one, range((total + size - 1) // size))
    return ck.finish()


def bare_mol(rng, nb_atoms, maxb=6):
    n = nb_atoms
    els = [rng.choice(gauss.ELEMENTS) for _ in range(n)]
    grid = gauss.rand_coords(rng, n, set())
    jit = rng.random() < .5
    return gauss.Mol(els, [gauss.grid_text(rng, g, jit) for g in grid],
                     [rng.randrange(1, maxb + 1) for _ in range(n)])


def c06():
    ck = Check("C06", "coefficient files of random shape (1 to 300 functions, 1 "
               "to 90 orbitals, one or two spins, three extensions, several "
               "layouts); non-trivial: every coefficient of every orbital "
               "compared with the text that was written, or the absence of a "
               "spin seen; distinct by shape and layout")

    def make(i, d):
        rng = ck.rng_for(i)
        nrng = np.random.default_rng(rng.getrandbits(60))
        nb = rng.choice([rng.randrange(1, 12), rng.randrange(1, 60),
                         5 * rng.randrange(1, 12), rng.randrange(60, 300)])
        if i < 24:
            nb = i // 2 + 1
        nmo = rng.choice([1, 2, nb, nb, max(1, nb - 1), rng.randrange(1, 25)])
        nmo = min(nmo, 90 if nb < 60 else 14)
        if i % 120 == 60:      # more orbitals or functions than usual
            nb, nmo = rng.choice([(rng.randrange(130, 280), rng.randrange(130, 280)),
                                  (rng.randrange(5, 30), rng.randrange(1000, 1300)),
                                  (rng.randrange(1000, 2200), 7)])
        spins = rng.choice([["Alpha"], ["Alpha", "Beta"], ["Alpha", "Beta"]])
        m = gauss.Mol(["C"], [("0", "0", "0")], [nb])
        for s in spins:
            n = nmo
            if s == "Beta" and rng.random() < .3:
                n = max(1, nmo - rng.randrange(3))
            scale = rng.choice([(-2, .3), (-9, 2), (-30, 20), (-99, 98),
                                (-180, 150)])
            C = nrng.standard_normal((n, nb)) * 10 ** nrng.uniform(*scale,
                                                                  (n, nb))
            z = rng.choice([0, .03, .6])
            C = np.where(nrng.random(C.shape) < z, 0.0, C)
            m.coef[s] = np.array([[gauss.dround(v, 8) for v in row] for row in C])
            m.oe[s] = np.array([rng.uniform(-600, 3) for _ in range(n)])
        st = gauss.Style(rng)
        lines = [t for _, t in gauss.pun_lines(m, st)]
        layout = [st.pun_sep, st.pun_tail]
        if rng.random() < .2:      # an orbital file may start with a title
            lines[1:1] = [" a title", ""][:rng.randrange(1, 3)]
            layout.append("title")
        if rng.random() < .15:
            lines = lines[1:] if lines[0].startswith("(5D") else lines
            layout.append("no format line")
        nl = "\n"
        if rng.random() < .1:
            nl = "\r\n"
            layout.append("crlf")
        end = rng.random() < .9
        ext = rng.choice([".pun", ".pun", ".orb", ".7"])
        path = os.path.join(d, "m%d%s%s" % (
            i, rng.choice(["", ".b3lyp", ".v1.2", " copy"]), ext))
        with open(path, "w", newline="") as f:
            f.write(nl.join(lines) + (nl if end else ""))
        return "pun", path, m, (ext, tuple(layout), end)

    def judge(t, r):
        kind, path, m, lay = t
        ex = {"input" + lay[0]: path}
        if not ok(r):
            ck.violation("a well-formed coefficient file was not read: %s %s %s" %
                         (lay, r["status"], r["err"]), files=ex)
            return
        for s in ("Alpha", "Beta"):
            got = r.get("coef " + s)
            if s in m.coef:
                if not same(got, m.coef[s]):
                    ck.violation("%s coefficients of %s: %s" %
                                 (s, lay, first_diff(got, m.coef[s])), files=ex)
                    return
                ck.count("coefficients compared", int(m.coef[s].size))
            elif got is not None:
                ck.violation("%s coefficients appeared from nowhere" % s, files=ex)
                return
        if r.get("restricted") != ("1" if len(m.coef) == 1 else "0") or \
                r.get("ext") != lay[0]:
            ck.violation("wrong kind of calculation or extension reported: %s %s" %
                         (r.get("restricted"), r.get("ext")), files=ex)
            return
        ck.seen((lay, tuple((s, c.shape) for s, c in m.coef.items())))
        ck.sample({"layout": lay, "shapes": {s: c.shape for s, c in
                                             m.coef.items()}})

    return batches(ck, make, judge, tier(700, 9000))


def write_log(rng, path, lines, end=True):
    gauss.write_lines(path, lines, end, gauss.line_end(rng))


def c07():
    ck = Check("C07", "overlap sections of 1 to 1030 functions, one or several in "
               "a file, followed by different sections; non-trivial: every "
               "element of the symmetric matrix compared with the last section "
               "written, or the absence of a matrix seen; distinct by size, "
               "number of sections and surroundings")

    def make(i, d):
        rng = ck.rng_for(i)
        nrng = np.random.default_rng(rng.getrandbits(60))
        nb = i % 62 + 1 if i < 186 else rng.randrange(1, 90)
        if i % 150 == 149:
            nb = rng.randrange(101, 260)
        if i % 75 == 74:
            nb = 5 * rng.randrange(20, 52)
        if i % 200 == 105:     # beyond what a byte or three digits can count
            nb = rng.randrange(257, 420)
        if i % 4000 == 301:
            nb = rng.randrange(1001, 1030)
        secs = rng.choice([0, 1, 1, 1, 1, 2, 3]) if i >= 62 and nb < 257 else 1
        lines = [" Entering Gaussian System"] + gauss.noise(rng, 6)
        last = None
        sizes = []
        for k in range(secs):
            n = nb if nb > 256 or rng.random() < .7 else rng.randrange(1, 30)
            sizes.append(n)
            A = nrng.standard_normal((n, n)) * 10 ** nrng.uniform(-9, 1, (n, n))
            A = np.where(nrng.random((n, n)) < rng.choice([0, .2, .8]), 0, A)
            if rng.random() < .3:      # functions far from each other
                A = np.where(nrng.random((n, n)) < .3,
                             A * 10 ** nrng.uniform(-200, -80, (n, n)), A)
            S = np.array([[gauss.dround(v, 6) for v in row] for row in A])
            S = np.tril(S) + np.tril(S, -1).T
            after = rng.choice([" *** Kinetic Energy ***", " ", "",
                                " Leave Link  302 at Mon Jan  1 2018",
                                " *** Core Hamiltonian ***"])
            lines += gauss.overlap_section(S, after)
            lines += gauss.noise(rng, 5)
            if after == " *** Kinetic Energy ***" and rng.random() < .6:
                # another matrix of the same layout follows, as in real files
                K = np.round(S * 3.25 + .5, 5)
                t = gauss.overlap_section(K, " ****** Potential Energy ******")
                lines += t[1:]
            last = S
        lines.append(" Normal termination of Gaussian 09")
        path = os.path.join(d, "s%d.log" % i)
        write_log(rng, path, lines)
        return "log", path, last, tuple(sizes)

    def judge(t, r):
        kind, path, S, sizes = t
        ex = {"input.log": path}
        if not ok(r):
            ck.violation("a log file with overlap sections %s was not read: %s %s"
                         % (sizes, r["status"], r["err"]), files=ex)
            return
        got = r.get("overlap")
        if S is None:
            if got is not None:
                ck.violation("an overlap matrix appeared from nowhere", files=ex)
                return
        elif not same(got, S):
            ck.violation("overlap of sizes %s: %s" % (sizes, first_diff(got, S)),
                         files=ex)
            return
        else:
            ck.count("elements compared", int(S.size))
        ck.seen((sizes, 0 if S is None else float(S.sum())))
        ck.sample({"sections": sizes})

    return batches(ck, make, judge, tier(620, 8000))


def energies(rng, n, mode):
    """texts of n orbital energies in ten columns, ascending as in real files"""
    if mode == "plain":
        v = [rng.uniform(-90, 4) for _ in range(n)]
    elif mode == "glued":
        v = [rng.uniform(-999.9, -100) if rng.random() < .7 else
             rng.uniform(-99, 5) for _ in range(n)]
    elif mode == "wide":
        v = [rng.choice([rng.uniform(-9000, -1000), rng.uniform(-999, -100),
                         rng.uniform(-99, 9), rng.uniform(-1, 1)])
             for _ in range(n)]
    elif mode == "tens":
        v = [rng.uniform(-99.9, -10) for _ in range(n)]
    else:
        top = rng.choice([200, 200, 9999, 14000])
        v = [rng.uniform(-.5, top) for _ in range(n)]
    v = sorted(v)
    if rng.random() < .2 and n > 2:    # degenerate levels and an exact zero
        v[1] = v[0]
        v[n // 2] = 0.0
        v = sorted(v)
    return [gauss.efield(x) for x in v]


def c08():
    ck = Check("C08", "orbital energy sections (one or two spins, several "
               "sections per file, energies that touch each other, that "
               "overflow their columns, no virtual orbitals, any number per "
               "line); non-trivial: all energies and the number of occupied "
               "orbitals compared with the last section written; distinct by "
               "counts and layout")

    def make(i, d):
        rng = ck.rng_for(i)
        lines = [" Entering Gaussian System"] + gauss.noise(rng, 6)
        secs = rng.choice([1, 1, 2, 3])
        exp = {}
        mode = ["plain", "glued", "wide", "tens", "high"][i % 5]
        lay = [mode, secs]
        n0 = rng.choice([rng.randrange(1, 8), rng.randrange(1, 60)])
        if i % 41 == 17:       # in every layout
            n0 = rng.randrange(100, 1300)
        unr = rng.random() < .5
        together = rng.random() < .6
        for k in range(secs):
            exp = {}
            for s in ("Alpha", "Beta") if unr else ("Alpha",):
                n = n0 if rng.random() < .6 else rng.randrange(1, 40)
                texts = energies(rng, n, mode)
                nocc = rng.choice([n, rng.randrange(1, n + 1), 1, (n + 1) // 2])
                if s == "Beta" and rng.random() < .15:
                    nocc = 0     # a hydrogen atom
                lines += gauss.energy_lines(s, texts, nocc)
                exp[s] = (np.array([float("nan") if "*" in t else float(t)
                                    for t in texts]), nocc)
                if not together and unr and s == "Alpha":
                    lines.append(" ")
            lay.append(tuple((s, len(e[0]), e[1]) for s, e in exp.items()))
            # something else always stands between two sets of energies
            lines += [rng.choice(["     Condensed to atoms (all electrons):",
                                  " The electronic state is 1-A."])]
            lines += gauss.noise(rng, 5)
        lines.append(" Normal termination of Gaussian 09")
        path = os.path.join(d, "e%d.log" % i)
        write_log(rng, path, lines)
        return "log", path, exp, tuple(lay)

    def judge(t, r):
        kind, path, exp, lay = t
        ex = {"input.log": path}
        if not ok(r):
            ck.violation("orbital energies %s were not read: %s %s" %
                         (lay, r["status"], r["err"]), files=ex)
            return
        for s in ("Alpha", "Beta"):
            got, h = r.get("oe " + s), r.get("homo " + s)
            if s not in exp:
                if got is not None or h is not None:
                    ck.violation("%s energies appeared from nowhere" % s, files=ex)
                    return
                continue
            if not same(got, exp[s][0]):
                ck.violation("%s energies of %s: %s" %
                             (s, lay, first_diff(got, exp[s][0])), files=ex)
                return
            if h != exp[s][1]:
                ck.violation("%s: %s occupied orbitals reported, %d written (%s)" %
                             (s, h, exp[s][1], lay), files=ex)
                return
            ck.count("energies compared", len(got))
            ck.count("energies that overflow", int(np.isnan(got).sum()))
        ck.seen(lay)
        ck.sample({"layout": lay})

    return batches(ck, make, judge, tier(700, 9000))


def c09():
    ck = Check("C09", "log files with one to four geometries and a population "
               "section (1 to 999 atoms, 1 to 24 functions per atom); "
               "non-trivial: all coordinates of the last geometry, the number "
               "of functions of every atom, and the populations compared with "
               "the text written; distinct by atoms, basis sizes and layout")

    def make(i, d):
        rng = ck.rng_for(i)
        n = rng.choice([1, 2, 3, rng.randrange(1, 14), rng.randrange(1, 40)])
        if i % 40 == 7:
            n = rng.randrange(95, 131)
        if i % 120 == 51:      # more than a byte can count
            n = rng.randrange(257, 420)
        if i % 1200 == 291:
            n = rng.randrange(850, 1000)
        m = bare_mol(rng, n, rng.choice([1, 2, 5, 9, 24]) if n < 60 else 4)
        if i % 80 == 47:       # more than a thousand functions
            m.basis = [rng.randrange(6, 17) for _ in m.basis]
        if rng.random() < .15:  # far out, as wide as the columns allow
            m.coords = [tuple(gauss.grid_text(rng, [rng.choice([-1, 1]) *
                              rng.randrange(1, 10 ** rng.randrange(7, 9))], True)[0]
                              if rng.random() < .5 else x for x in c)
                        for c in m.coords]
        st = gauss.Style(rng)
        st.geoms = rng.choice([1, 1, 2, 4])
        st.pop = rng.random() < .85
        m.oetext["Alpha"] = energies(rng, 7, "plain")
        m.oe["Alpha"] = np.zeros(7)
        m.coef["Alpha"] = np.zeros((7, 7))
        m.nocc["Alpha"] = 3
        if rng.random() < .5:
            k = rng.randrange(1, 12)
            m.S = np.eye(k)
        lines = [x[1] for x in gauss.log_lines(rng, m, st)]
        if rng.random() < .2:   # an earlier section of another geometry size
            m2 = bare_mol(rng, rng.randrange(1, 6))
            lines = gauss.coord_section(rng, m2) + lines
        path = os.path.join(d, "g%d.log" % i)
        write_log(rng, path, lines)
        return "log", path, m, (st.geoms, st.pop, st.spin_pop, st.noise)

    def judge(t, r):
        kind, path, m, lay = t
        ex = {"input.log": path}
        what = "%d atoms with %s functions %s" % (len(m.elements), m.basis, lay)
        if not ok(r):
            ck.violation("%s: not read: %s %s" % (what, r["status"], r["err"]),
                         files=ex)
            return
        want = [[float(c[k]) for c in m.coords] for k in range(3)]
        if r.get("coords") != want:
            ck.violation("%s: coordinates read %s, written %s" %
                         (what, r.get("coords"), want), files=ex)
            return
        b = m.basis if lay[1] else []
        if r.get("basis") != b:
            ck.violation("%s: basis functions per atom read %s, written %s" %
                         (what, r.get("basis"), b), files=ex)
            return
        if lay[1]:
            got = [(a, e, len(o)) for a, e, o in r["atoms"]]
            exp = [(k, e, n) for k, (e, n) in
                   enumerate(zip(m.elements, m.basis), 1)]
            if got != exp:
                ck.violation("%s: atoms read %s, written %s" % (what, got, exp),
                             files=ex)
                return
            for a, e, o in r["atoms"]:
                # a name that holds a space is known by its first word, the
                # rest of it may stand before the values
                want = {k.split()[0]: v for k, v in m.pops[a - 1].items()}
                if set(o) != set(want) or any(
                        o[k][-len(v):] != v or len(o[k]) > len(v) + 1
                        for k, v in want.items()):
                    ck.violation("%s: populations of atom %d read as %s, written "
                                 "%s" % (what, a, o, m.pops[a - 1]), files=ex)
                    return
        ck.count("atoms compared", len(m.elements))
        ck.seen((tuple(m.elements), tuple(m.basis), lay))
        ck.sample({"atoms": m.elements[:12], "basis": m.basis[:12],
                   "layout": lay})

    return batches(ck, make, judge, tier(600, 8000))
