"""Checks that observe executions of the calc_J program."""
import itertools
import os
import shutil

import numpy as np

import gauss
from common import (Build, Check, JOBS, TIER, clean_env, run, run_confirm, tier)


class Cli:
    """Runs one observed calc_J execution and judges the outcome."""

    def __init__(self, ck, build):
        self.ck, self.b = ck, build

    def run(self, args, cwd, timeout=30, env=None, **kw):
        self.ck.count("executions")
        return run_confirm([self.b.calc] + list(args), cwd=cwd, timeout=timeout,
                           env=env, **kw)

    def blame(self, what, d, args, o):
        self.ck.violation("%s | args: %s | %s" % (what, " ".join(map(repr, args)),
                                                  o.brief()),
                          files={"files": d,
                                 "cmd.txt": ("calc_J " + " ".join(args)).encode()})


def fresh(ck, i):
    d = os.path.join(ck.scratch, "c%s" % i)
    os.makedirs(d, exist_ok=True)
    return d


def done(d):
    shutil.rmtree(d, ignore_errors=True)


def judge_value(ck, cli, cx, sel, flags, d, what, reorder=True, extra=None,
                warn=None):
    """One run whose report must agree with the reference. Returns the values."""
    args = cx.file_args() + flags + (extra or [])
    o = cli.run(args, d)
    if o.timeout or o.memory_error or o.rc != 0:
        cli.blame(what + ": a consistent calculation was not completed", d, args, o)
        return None
    got = gauss.parse_results(o.out)
    if got is None:
        cli.blame(what + ": the five quantities were not each reported once", d,
                  args, o)
        return None
    v, t = cx.reference(sel, reorder)
    bad = gauss.compare(got, v, t)
    if bad:
        cli.blame(what + ": " + "; ".join(bad), d, args, o)
        return None
    w = "WARNING" in o.err
    if warn is not None and w != warn:
        cli.blame(what + ": alignment warning %s" %
                  ("missing" if warn else "printed without reason"), d, args, o)
    return got


def shape_key(cx):
    return (cx.cp, cx.unrestricted, tuple(cx.m["1"].basis),
            tuple(cx.m["2"].basis), tuple(cx.ids["P"]), tuple(cx.ids["2"]))


def formula(pid, cp):
    """C01/C02: the reported quantities follow the projection formulas"""
    ck = Check(pid, "random consistent dimer/monomer files (%s); non-trivial: "
               "completed and all five reported quantities compared with the "
               "reference; distinct by atoms, basis sizes, orders and selection"
               % ("counterpoise" if cp else "no counterpoise"))
    b = Build("san")
    cli = Cli(ck, b)

    def one(i):
        rng = ck.rng_for(i)
        kw = dict(cp=cp)
        if i % 10 == 0:
            kw["shuffle"] = False
        if i % 23 == 5:
            kw.update(big=True, maxb=9)
        if i % 140 == 33:
            kw.update(big=2 + i // 140 % 2)
        if i % 9 == 3:
            kw.update(n1=1, n2=1, maxb=3)     # dimers of very few functions
        cx = gauss.Complex(rng, **kw)
        if i % 10 == 0 and not cp:
            # without populations the files are used as they are, with a warning
            which = rng.choice(["1", "2", "P", "12P"])
            for k in which:
                cx.st[k].pop = False
        d = cx.write(fresh(ck, i))
        aligned = all(cx.st[k].pop for k in "12P")
        for j in range(tier(2, 3)):
            sel, flags = gauss.pick(rng, cx)
            got = judge_value(ck, cli, cx, sel, flags, d, "case %d.%d" % (i, j),
                              reorder=aligned, warn=not aligned)
            if got is None:
                break
            ck.seen((shape_key(cx), sorted(sel.items())))
            ck.count("quantities compared", 5)
            if cx.m["P"].nb > 10:
                ck.count("dimers of more than ten functions")
            ck.sample({"case": "%d.%d" % (i, j), "flags": flags,
                       "basis": [cx.m[k].basis for k in "12P"],
                       "reported": got})
        done(d)

    ck.parallel(one, range(tier(420, 6000)))
    return ck.finish()


def c01():
    return formula("C01", False)


def c02():
    return formula("C02", True)


def close(a, b, t1, t2=None):
    return [q for q in a
            if abs(a[q] - b[q]) > 10 * (t1[q] + (t2 or t1)[q]) +
            1.2e-5 * max(abs(a[q]), abs(b[q])) + 1e-13]


def permute(rng, cx, k):
    """Reorder the atoms of one calculation: same physics, other file order"""
    ids = cx.ids[k]
    m = cx.m[k]
    how = rng.choice(["any", "reverse", "rotate", "swap", "swapblocks"])
    order = list(range(len(ids)))
    if how == "any":
        rng.shuffle(order)
    elif how == "reverse":
        order.reverse()
    elif how == "rotate":
        r = rng.randrange(len(order))
        order = order[r:] + order[:r]
    elif how == "swap" and len(order) > 1:
        i, j = rng.sample(range(len(order)), 2)
        order[i], order[j] = order[j], order[i]
    elif how == "swapblocks":
        n1 = len(cx.ids["1"])
        order = order[n1:] + order[:n1]
    sl = m.slices()
    cols = [c for a in order for c in sl[a]]
    n = gauss.Mol([m.elements[a] for a in order], [m.coords[a] for a in order],
                  [m.basis[a] for a in order])
    n.oe, n.oetext, n.nocc = m.oe, m.oetext, m.nocc
    for s in m.coef:
        n.coef[s] = m.coef[s][:, cols]
    if m.S is not None:
        n.S = m.S[np.ix_(cols, cols)]
    cx.ids[k] = [ids[a] for a in order]
    cx.m[k] = n
    return how


def c03():
    ck = Check("C03", "one physical system written in several atom orders "
               "(dimer, monomer 1, monomer 2; with and without counterpoise); "
               "non-trivial: a run in a changed order compared with the run in "
               "the original order and with the reference; distinct by orders")
    b = Build("san")
    cli = Cli(ck, b)

    def one(i):
        rng = ck.rng_for(i)
        cp = i % 3 == 2
        cx = gauss.Complex(rng, cp=cp, n1=rng.randrange(1, 7),
                           n2=rng.randrange(1, 7), shuffle=(i % 2 == 0),
                           maxb=rng.choice([2, 4, 6]),
                           big=(i % 29 == 11) if i % 90 != 45 else 2 + i // 90 % 2)
        if i % 4 == 1:   # all atoms have equally many functions
            pass
        sel, flags = gauss.pick(rng, cx)
        v0, t0 = cx.reference(sel)
        d = cx.write(fresh(ck, i))
        base = judge_value(ck, cli, cx, sel, flags, d, "case %d base" % i,
                           warn=False)
        done(d)
        if base is None:
            return
        for j in range(tier(4, 8)):
            hows = []
            for k in rng.choice(["P", "P", "2", "1", "P2", "12P"]):
                hows.append(k + ":" + permute(rng, cx, k))
            d = cx.write(fresh(ck, "%d_%d" % (i, j)))
            got = judge_value(ck, cli, cx, sel, flags, d,
                              "case %d reordered %s" % (i, hows), warn=False)
            if got is None:
                done(d)
                return
            bad = close(base, got, t0)
            if bad:
                cli.blame("case %d: reordering %s changed %s: %s -> %s" %
                          (i, hows, bad, base, got), d, flags,
                          cli.run(cx.file_args() + flags, d))
            ck.seen((shape_key(cx), tuple(cx.ids["1"]), cx.cp))
            for h in hows:
                ck.count("reordering " + h)
            ck.sample({"case": i, "orders": cx.ids, "how": hows, "reported": got})
            done(d)

    ck.parallel(one, range(tier(170, 2500)))
    return ck.finish()


def c04():
    ck = Check("C04", "every orbital number from below the range to above it, "
               "for both monomers and both orbital types; non-trivial: an "
               "in-range number compared with the reference for exactly that "
               "orbital, or an out-of-range number seen to be refused without a "
               "result; distinct by orbital counts, type and number")
    b = Build("san")
    cli = Cli(ck, b)

    def one(i):
        rng = ck.rng_for(i)
        n = rng.randrange(1, 5)
        cx = gauss.Complex(rng, cp=(i % 4 == 3), n1=n, n2=rng.randrange(1, 4),
                           maxb=rng.choice([2, 4, 6]), unrestricted=(i % 2 == 0),
                           plain=(i % 3 == 0))
        many = i % 45 == 7
        if many:         # more orbitals than a byte counts
            a, z = (70, 2) if i % 2 else (2, 70)
            cx = gauss.Complex(rng, n1=a, n2=z, maxb=8)
        for k in "12":   # the ends of the range: nothing virtual, one occupied
            for s in cx.m[k].coef:
                nmo = cx.m[k].coef[s].shape[0]
                c = rng.random()
                if c < .2:
                    cx.m[k].nocc[s] = nmo
                elif c < .4:
                    cx.m[k].nocc[s] = 1
                if many and nmo > 200:   # most of them on one side
                    cx.m[k].nocc[s] = nmo // 8 * (7 if i // 90 % 2 else 1)
        d = cx.write(fresh(ck, i))
        base, bflags = gauss.pick(rng, cx, force={"1": "HOMO", "2": "HOMO"})
        spinf = [x for k in "P12" for x in ("--spin_" + k, base["spin" + k])]
        cpf = ["-cp"] if cx.cp else []
        for k in "12":
            mol, s = cx.m[k], base["spin" + k]
            nocc, nmo = mol.nocc[s], mol.coef[s].shape[0]
            o = "2" if k == "1" else "1"
            ofl = ["--orbital_type_" + o, base["type" + o],
                   "--orbital_num_" + o, str(base["num" + o])]
            tests = []
            for num in sorted(set([0, -1, 1 - nocc, -nocc, -nocc - 1, -nocc - 7,
                                   1, 2, nmo, -2147483647, -2147483648] +
                                  ([-128, -129, -256, -257] if many else []) +
                                  [-rng.randrange(max(nocc, 1))
                                   for _ in range(3)])):
                tests.append(("HOMO", num, 1 - nocc <= num <= 0))
            nv = nmo - nocc
            for num in sorted(set([0, 1, nv - 1, nv, nv + 1, nmo, nmo + 3, -1,
                                   -nocc, 2147483647, -2147483648] +
                                  ([127, 128, 255, 256] if many else []) +
                                  [rng.randrange(max(nv, 1)) for _ in range(3)])):
                tests.append(("LUMO", num, 0 <= num <= nv - 1))
            rng.shuffle(tests)
            tests = tests[:tier(24 if many and nmo > 40 else 12, 30)]
            for kind, num, legal in tests:
                flags = spinf + cpf + ofl + ["--orbital_type_" + k, kind,
                                             "--orbital_num_" + k, str(num)]
                if legal:
                    sel = dict(base)
                    sel["row" + k] = nocc + num + (0 if kind == "LUMO" else -1)
                    if judge_value(ck, cli, cx, sel, flags, d, "case %d %s%+d of "
                                   "monomer %s (%d occupied of %d)" %
                                   (i, kind, num, k, nocc, nmo)) is None:
                        done(d)
                        return
                    ck.count("orbitals read")
                else:
                    args = cx.file_args() + flags
                    r = cli.run(args, d)
                    if not r.rejected or gauss.any_number(r.out):
                        cli.blame("case %d: %s%+d of monomer %s was not refused "
                                  "(%d occupied of %d)" %
                                  (i, kind, num, k, nocc, nmo), d, args, r)
                        done(d)
                        return
                    ck.count("out-of-range orbitals refused")
                ck.seen((k, kind, num, nocc, nmo, cx.cp))
                ck.sample({"monomer": k, "orbital": "%s%+d" % (kind, num),
                           "occupied": nocc, "orbitals": nmo, "legal": legal})
        done(d)

    ck.parallel(one, range(tier(150, 1200)))
    return ck.finish()


def c05():
    ck = Check("C05", "unrestricted systems in which the two spins have "
               "different coefficients, energies and occupations, all eight "
               "combinations of dimer and monomer spins; non-trivial: the run "
               "agrees with the reference for exactly that combination (which "
               "differs from every other one), or a spin that a file does not "
               "hold is refused; distinct by combination and system")
    b = Build("san")
    cli = Cli(ck, b)

    def one(i):
        rng = ck.rng_for(i)
        cx = gauss.Complex(rng, cp=(i % 3 == 1), unrestricted=True,
                           n1=rng.randrange(1, 4), n2=rng.randrange(1, 4))
        missing = ""
        if i % 4 == 3:   # some of the calculations are restricted
            missing = rng.choice(["1", "2", "P", "12", "1P", "12P"])
            for k in missing:
                for t in (cx.m[k].coef, cx.m[k].oe, cx.m[k].nocc, cx.m[k].oetext):
                    t.pop("Beta")
        d = cx.write(fresh(ck, i))
        for combo in itertools.product(("Alpha", "Beta"), repeat=3):
            spins = dict(zip("P12", combo))
            legal = not any(spins[k] == "Beta" for k in missing)
            sel = {}
            flags = ["-cp"] if cx.cp else []
            for k in "P12":
                sel["spin" + k] = spins[k]
                if spins[k] == "Beta" or rng.random() < .6:
                    flags += [rng.choice(["--spin_", "-s_"]) + k, spins[k]]
            for k in "12":
                s = spins[k] if spins[k] in cx.m[k].coef else "Alpha"
                nocc, nmo = cx.m[k].nocc[s], cx.m[k].coef[s].shape[0]
                if not nocc or (rng.random() < .5 and nmo > nocc):
                    n = rng.randrange(nmo - nocc)
                    sel["row" + k] = nocc + n
                    flags += ["-orb_ty_" + k, "LUMO", "-orb_num_" + k, str(n)]
                else:
                    n = rng.randrange(nocc)
                    sel["row" + k] = nocc - 1 - n
                    flags += ["-orb_ty_" + k, "HOMO", "-orb_num_" + k, str(-n)]
            if legal:
                if judge_value(ck, cli, cx, sel, flags, d,
                               "case %d spins %s" % (i, combo)) is None:
                    done(d)
                    return
                ck.count("combination " + "/".join(combo))
            else:
                args = cx.file_args() + flags
                o = cli.run(args, d)
                if not o.rejected or gauss.any_number(o.out):
                    cli.blame("case %d: spins %s asked for, calculations %s have "
                              "no Beta, but a result came out" %
                              (i, combo, missing), d, args, o)
                    done(d)
                    return
                ck.count("missing spins refused")
            ck.seen((combo, i, missing))
            ck.sample({"case": i, "spins": combo, "without beta": missing,
                       "flags": flags})
        done(d)

    ck.parallel(one, range(tier(110, 1500)))
    return ck.finish()
