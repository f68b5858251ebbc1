"""The work that is done, counted in instructions, against the size of what is
worked on (C37)."""
import math
import os
import re

import numpy as np

import gauss
from common import Build, Check, run, tier

COUNT = ["valgrind", "--tool=cachegrind", "--cache-sim=no",
         "--cachegrind-out-file=/dev/null"]


def instructions(cmd, cwd=None, timeout=600):
    """Instructions of one execution, or nothing if it did not end."""
    o = run(COUNT + cmd, timeout=timeout, cpu=0, cwd=cwd)
    m = re.findall(r"I\s+refs:\s+([\d,]+)", o.err)
    return (int(m[-1].replace(",", "")) if m and not o.timeout else None), o


def energies(rng, k):
    es = sorted(rng.uniform(-9, 4) for _ in range(k))
    return [gauss.efield(e) for e in es]


def mol(rng, atoms, per):
    els = [rng.choice(gauss.ELEMENTS) for _ in range(atoms)]
    cs = [tuple("%.6f" % rng.uniform(-99, 99) for _ in "xyz")
          for _ in range(atoms)]
    return gauss.Mol(els, cs, [per] * atoms)


def overlap(rng, n):
    return np.array([[round(rng.uniform(-1, 1), 6) for _ in range(n)]
                     for _ in range(n)])


def punch(rng, orbitals, functions):
    out = ["(5D15.8)"]
    for m in range(orbitals):
        out.append("%5d Alpha MO OE=%s" % (m + 1, gauss.dfmt(-.5, 15, 8)))
        for k in range(0, functions, 5):
            out.append("".join(gauss.dfmt(rng.uniform(-1, 1), 15, 8)
                               for _ in range(min(5, functions - k))))
    return out


# what grows, for a number of about a thousand: lines of a log file
def log_kinds():
    head = [" Entering Gaussian System, Link 0=g09"]
    end = [" Normal termination of Gaussian 09"]

    def wrap(f, per):
        return lambda rng, n: head + f(rng, max(1, round(n / per))) + end

    def words(rng, n):
        return [" ".join(rng.choice(["x", "1.5", "-2", "Alpha", "--", "***"])
                         for _ in range(n * 40))]

    def sections(rng, n):
        m, out = mol(rng, 4, 3), []
        m.S = overlap(rng, 6)
        for _ in range(n):
            out += gauss.coord_section(rng, m)
            out += gauss.overlap_section(m.S)
            out += gauss.energy_lines("Alpha", energies(rng, 12), 5)
            out += gauss.pop_section(rng, m) + gauss.noise(rng, 4)
        return out

    def both(rng, n):
        return gauss.energy_lines("Alpha", energies(rng, n), n // 2) + \
            gauss.energy_lines("Beta", energies(rng, n), n // 3)

    return {
        "lines without meaning": wrap(lambda rng, n: [
            rng.choice(gauss.NOISE) for _ in range(n)], 1 / 8),
        "blank lines": wrap(lambda rng, n: [" " * rng.randrange(9)
                                            for _ in range(n)], 1 / 30),
        "a long line": wrap(words, 1),
        "a long word": wrap(lambda rng, n: ["x" * n], 1 / 800),
        "a crowd of atoms": wrap(lambda rng, n: gauss.coord_section(
            rng, mol(rng, n, 1)), 1 / 2),
        "steps of a search": wrap(lambda rng, n: [
            x for _ in range(n) for x in
            gauss.coord_section(rng, mol(rng, 5, 1)) + gauss.noise(rng, 9)], 4),
        "energies": wrap(lambda rng, n: gauss.energy_lines(
            "Alpha", energies(rng, n), n // 2), 1 / 8),
        "energies of both spins": wrap(both, 1 / 4),
        "lists of energies": wrap(lambda rng, n: [
            x for _ in range(n) for x in gauss.energy_lines(
                "Alpha", energies(rng, 20), 9) + [" "]], 4),
        "populations of many atoms": wrap(lambda rng, n: gauss.pop_section(
            rng, mol(rng, min(n, 999), 3)), 5),
        "populations of many functions": wrap(lambda rng, n: gauss.pop_section(
            rng, mol(rng, 3, n)), 2),
        "overlaps of many functions": wrap(
            lambda rng, n: gauss.overlap_section(overlap(
                rng, int(math.sqrt(n)))), 1 / 6),
        "everything again and again": wrap(sections, 25),
        "sections without their end": lambda rng, n: head + (
            gauss.overlap_section(overlap(rng, 7))[:-3] +
            [rng.choice(gauss.NOISE) for _ in range(8 * n)]),
        "energies of one line": wrap(lambda rng, n: [
            " Alpha  occ. eigenvalues -- " + "".join(
                rng.choice(["-123.45678", "*" * 10, "  -0.12345",
                            "1234.56789"]) for _ in range(n))], 1 / 20),
        "energies that touch": wrap(lambda rng, n: [
            " Alpha  occ. eigenvalues -- " + "-123.45678" * n], 1 / 20),
        "overlaps of one line": wrap(lambda rng, n: [
            " *** Overlap *** ", "        " + "".join(
                "%14d" % (k + 1) for k in range(n)),
            "%7d" % 1 + gauss.dfmt(1, 14, 6) * n, " *** Kinetic Energy ***"],
            1 / 10),
        "headers": wrap(lambda rng, n: [rng.choice([
            " *** Overlap *** ", "     Gross orbital populations:",
            " Alpha  occ. eigenvalues -- ",
            " Center     Atomic      Atomic             Coordinates (Angstroms)",
            "                         Standard orientation:"])
            for _ in range(n)], 1 / 5),
        "a section cut off": lambda rng, n: (lambda x: x[:len(x) * 2 // 3])(
            head + gauss.coord_section(rng, mol(rng, n, 1))),
    }


def pun_kinds():
    return {
        "orbitals and functions": lambda rng, n: punch(
            rng, int(math.sqrt(4 * n)), int(math.sqrt(4 * n))),
        "orbitals of a few functions": lambda rng, n: punch(rng, n, 8),
        "a few orbitals of many functions": lambda rng, n: punch(rng, 3, 3 * n),
        "numbers after the orbitals": lambda rng, n: punch(rng, 6, 6) + [
            "".join(gauss.dfmt(rng.uniform(-1, 1), 15, 8) for _ in range(5))
            for _ in range(n)],
        "coefficients of one line": lambda rng, n: [
            "(5D15.8)", "    1 Alpha MO OE=" + gauss.dfmt(-.5, 15, 8),
            "".join(gauss.dfmt(rng.uniform(-1, 1), 15, 8)
                    for _ in range(9 * n))],
        "headers": lambda rng, n: ["(5D15.8)"] + [
            "%5d %s MO OE=%s" % (k % 99999, rng.choice(["Alpha", "Beta"]),
                                 gauss.dfmt(-.5, 15, 8)) for k in range(5 * n)],
        "orbitals cut off": lambda rng, n: (lambda x: x[:-2] + [x[-2][:40]])(
            punch(rng, n, 9)),
    }


# work, its size, and the power of the size that it may grow with
API = [("split", 60000, 1), ("blanks", 60000, 1), ("trim", 60000, 1),
       ("trimmed", 60000, 1), ("cut", 60000, 1), ("path", 60000, 1),
       ("grab", 60000, 1), ("sought", 60000, 1), ("number", 9000, 1),
       ("arguments", 700, 1), ("matched", 45, 2), ("matched columns", 45, 2),
       ("product", 40, 3), ("copy", 90, 2), ("turned", 60, 2),
       ("taken", 60, 2), ("moved", 90, 2), ("resized", 90, 2)]

SLACK = .45


def c37():
    ck = Check("C37", "one kind of work done at three sizes, each twice the one "
               "before, with the instructions of each counted; distinct by kind "
               "and sizes")
    b = Build("plain")
    exe = b.harness("growth")

    def judge(what, sizes, counts, power, files):
        """counts: instructions for each size"""
        if None in counts:
            ck.violation("%s: does not end, sizes %s: %s" %
                         (what, sizes, counts), files=files)
            return
        ck.seen((what, tuple(sizes)))
        ck.count("executions counted", len(counts))
        ck.count("instructions counted", sum(counts))
        d = [y - x for x, y in zip(counts, counts[1:])]
        s = [y - x for x, y in zip(sizes, sizes[1:])]
        if d[-1] < 400000 or d[0] <= 0:  # hardly any work
            ck.count("kinds of hardly any work")
            if d[-1] < 20000000:
                return
        grown = math.log(d[-1] / max(d[0], 100000)) / math.log(s[-1] / s[0])
        ck.sample({"work": what, "sizes": sizes, "instructions": counts,
                   "grows with the power": round(grown, 2), "expected": power})
        if os.environ.get("GROWTH"):
            print("%-45s %-24s %5.2f %d %s" % (what, sizes, grown, power, counts))
        if grown > power + SLACK:
            ck.violation("%s: for sizes %s it takes %s instructions, which grow "
                         "with the power %.2f of the size instead of %d" %
                         (what, sizes, counts, grown, power), files=files)

    def file_work(t):
        kind, name, make, i = t
        rng = ck.rng_for("file", name, i)
        base = rng.randrange(700, 1200)
        sizes, counts, paths = [], [], {}
        for f in (1, 2, 4):
            p = os.path.join(ck.scratch, "%s %s %d %d.%s" %
                             (kind, name, i, f, kind))
            gauss.write_lines(p, make(rng, base * f))
            sizes.append(os.path.getsize(p))
            n, o = instructions([exe, kind, p])
            counts.append(n)
            paths["%d.%s" % (f, kind)] = p
            if o.rc not in (0, 1, 3):
                counts[-1] = None
        judge("%s file: %s" % (kind, name), sizes, counts, 1, paths)
        for p in paths.values():
            os.unlink(p)

    def api_work(t):
        (name, base, power), i = t
        rng = ck.rng_for("api", name, i)
        base = int(base * rng.uniform(.8, 1.2))
        sizes, counts = [base, 2 * base, 4 * base], []
        for n in sizes:
            k, o = instructions([exe, name, str(n), str(i)])
            counts.append(k if o.rc == 0 else None)
        judge("work: " + name, sizes, counts, power, {})

    def whole(i):
        """calculations with ever more atoms, or more functions on them"""
        rng = ck.rng_for("whole", i)
        sizes, counts, dirs = [], [], {}
        base = rng.randrange(3, 6)
        cp = i % 2 == 1
        for f in (1, 2, 4):
            if i % 4 < 2:
                k = base * f * (1 if cp else 2)
                cx = scaled(rng, base, base, k, cp)
            else:
                cx = scaled(rng, base * f, base * f, 3, cp)
            d = cx.write(os.path.join(ck.scratch, "w%d.%d" % (i, f)))
            _, fl = gauss.pick(rng, cx)
            sizes.append(cx.m["P"].nb)
            n, o = instructions([b.calc] + cx.file_args() + fl, cwd=d)
            counts.append(n if o.rc == 0 else None)
            dirs["w%d" % f] = d
        judge("calculation with more %s%s" % (
            "functions" if i % 4 < 2 else "atoms",
            ", counterpoise" if cp else ""), sizes, counts, 3, dirs)

    def scaled(rng, n1, n2, k, cp):
        return gauss.Complex(rng, cp=cp, n1=n1, n2=n2, maxb=k,
                             unrestricted=False, plain=True, basis=k)

    rounds = range(tier(1, 12))
    todo = [(file_work, ("log", n, f, i)) for i in rounds
            for n, f in log_kinds().items()]
    todo += [(file_work, ("pun", n, f, i)) for i in rounds
             for n, f in pun_kinds().items()]
    todo += [(api_work, (a, i)) for i in rounds for a in API]
    todo += [(whole, i) for i in range(tier(4, 24))]
    ck.parallel(lambda t: t[0](t[1]), todo)
    ck.assumptions.append("instructions are those of one unoptimised build "
                          "under cachegrind; memory and waiting are not judged")
    return ck.finish()
