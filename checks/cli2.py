"""More checks that observe executions of the calc_J program."""
import copy
import hashlib
import os
import random
import re
import shutil
import subprocess
import time

import numpy as np

import gauss
from cli import Cli, close, done, fresh, judge_value, shape_key
from common import (Build, Check, TIER, clean_env, run, run_confirm, sh, tier)

LONG = {"pun": "--pun_", "log": "--log_", "spin": "--spin_",
        "type": "--orbital_type_", "num": "--orbital_num_"}
SHORT = {"pun": "-p_", "log": "-l_", "spin": "-s_", "type": "-orb_ty_",
         "num": "-orb_num_"}


def flag(rng, kind, k):
    return rng.choice([LONG, SHORT])[kind] + k


def refused(ck, cli, args, d, what):
    """One run that has to be refused without reporting a result."""
    o = cli.run(args, d)
    if not o.rejected or gauss.any_number(o.out):
        cli.blame(what, d, args, o)
        return False
    return True


# ------------------------------------------------------------ C10

def set_cols(rng, mol, n):
    """Give the coefficients another number of columns"""
    for s in mol.coef:
        C = mol.coef[s]
        if n <= C.shape[1]:
            mol.coef[s] = C[:, :n]
        else:
            extra = np.full((C.shape[0], n - C.shape[1]), 0.25)
            mol.coef[s] = np.hstack([C, extra])


def set_rows(rng, mol, n):
    for s in mol.coef:
        C = mol.coef[s]
        if n <= C.shape[0]:
            mol.coef[s] = C[:n]
        else:
            mol.coef[s] = np.vstack([C] + [C[-1:]] * (n - C.shape[0]))
        mol.oe[s] = np.array([0.5] * n)


def set_energy_count(mol, n):
    for s in mol.oetext:
        t = list(mol.oetext[s])
        while len(t) < n:
            t.append(gauss.efield(9.5))
        mol.oetext[s] = t[:n]
        mol.oe[s] = np.array([0.5 if "*" in x else float(x) for x in t[:n]])
        mol.nocc[s] = min(mol.nocc[s], n)


def contradictions(rng, cx):
    """Every way in which the six files can contradict one another"""
    out = []

    def add(name, fn):
        out.append((name, fn))

    P, m1, m2 = cx.m["P"], cx.m["1"], cx.m["2"]
    nb = P.nb
    for dn in (-1, 1, -3, 4):
        if nb + dn >= 1:
            def ov(c, n=nb + dn):
                S = np.eye(n)
                k = min(n, nb)
                S[:k, :k] = c.m["P"].S[:k, :k]
                c.m["P"].S = S
            add("overlap of %+d functions" % dn, ov)
    add("dimer without overlap", lambda c: setattr(c.st["P"], "overlap", False))
    for k in "P12":
        for dn in (-1, 1, -5, 5):
            nmo = cx.m[k].coef["Alpha"].shape[0]
            if nmo + dn >= 1:
                add("%+d energies of %s" % (dn, k), lambda c, k=k, n=nmo + dn:
                    set_energy_count(c.m[k], n))
                add("%+d orbitals of %s" % (dn, k), lambda c, k=k, n=nmo + dn:
                    keep_energies(c.m[k], n))
            n = cx.m[k].nb + dn
            if n >= 1:
                add("%+d functions in the orbitals of %s" % (dn, k),
                    lambda c, k=k, n=n: set_cols(rng, c.m[k], n))
    def shift(c):   # one function moves from one monomer to the other
        set_cols(rng, c.m["1"], c.m["1"].nb - 1)
        set_cols(rng, c.m["2"], c.m["2"].nb + 1)
    if not cx.cp and m1.nb > 1:
        add("a function moved between the monomers", shift)
    for k in "P12":
        n = len(cx.m[k].elements)
        for how in ("far", "near", "axis"):
            def off(c, k=k, how=how, n=n):
                a = rng.randrange(n)
                x = list(c.m[k].coords[a])
                ax = rng.randrange(3)
                v = float(x[ax])
                v += {"far": 3.7, "near": .00021, "axis": -2 * v - .01}[how]
                x[ax] = "%.6f" % v
                c.m[k].coords[a] = tuple(x)
            add("an atom of %s elsewhere (%s)" % (k, how), off)
    if not cx.cp:
        def twice(c):
            c.m["2"].coords[0] = c.m["1"].coords[0]
        add("an atom in both monomers", twice)
        def same_mon(c):
            c.m["2"].coords = [c.m["1"].coords[i % len(c.m["1"].coords)]
                               for i in range(len(c.m["2"].coords))]
        add("the same monomer twice", same_mon)
    def dup(c):
        P = c.m["P"]
        if len(P.coords) > 1:
            P.coords[0] = P.coords[-1]
    if len(P.elements) > 1:
        add("two atoms of the dimer at one place", dup)
    def missing_atom(c):
        M = c.m["P"]
        M.coords, M.elements = M.coords[:-1], M.elements[:-1]
        M.pop_counts = M.basis[:-1]
        M.basis = M.basis[:-1]
    add("the dimer lacks an atom", missing_atom)
    for k in "P12":
        def counts(c, k=k, d=1):
            b = list(c.m[k].basis)
            b[rng.randrange(len(b))] += d
            c.m[k].pop_counts = b
        add("populations of %s count one more function" % k, counts)
        if len(cx.m[k].basis) > 1 and any(x > 1 for x in cx.m[k].basis):
            def less(c, k=k):
                b = list(c.m[k].basis)
                i = rng.choice([i for i, x in enumerate(b) if x > 1])
                b[i] -= 1
                c.m[k].pop_counts = b
            add("populations of %s count one function less" % k, less)
    for k in "P12":
        # the total agrees, two atoms that are together in a file do not
        b = cx.m[k].basis
        prs = [(i, j) for j in range(len(b)) for i in range(j) if b[i] != b[j]]
        if prs:
            def swapb(c, k=k, pr=rng.choice(prs)):
                b = list(c.m[k].basis)
                i, j = pr
                b[i], b[j] = b[j], b[i]
                c.m[k].pop_counts = b
            add("populations of %s exchange functions of two atoms" % k, swapb)
        if len(b) > 1:
            def merged(c, k=k):
                b = list(c.m[k].basis)
                i = rng.randrange(len(b) - 1)
                b[i:i + 2] = [b[i] + b[i + 1]]
                c.m[k].pop_counts = b
            add("populations of %s take two atoms for one" % k, merged)
        if any(x > 1 for x in b):
            def split(c, k=k):
                b = list(c.m[k].basis)
                i = rng.choice([i for i, x in enumerate(b) if x > 1])
                n = rng.randrange(1, b[i])
                b[i:i + 1] = [n, b[i] - n]
                c.m[k].pop_counts = b
            add("populations of %s take one atom for two" % k, split)
    if not cx.cp and len(set(P.basis)) > 1:
        # an atom of one monomer exchanges its count with one of the other
        one = [cx.ids["P"].index(a) for a in cx.ids["1"]]
        two = [cx.ids["P"].index(a) for a in cx.ids["2"]]
        prs = [(i, j) for i in one for j in two if P.basis[i] != P.basis[j]]
        if prs:
            i, j = rng.choice(prs)
            def swapm(c):
                b = list(c.m["P"].basis)
                b[i], b[j] = b[j], b[i]
                c.m["P"].pop_counts = b
            add("populations give the functions of one monomer to the other",
                swapm)
    add("counterpoise asked for or not, against the files", "cp")
    return out


def keep_energies(mol, n):
    oe = dict(mol.oe)
    set_rows(None, mol, n)
    for s in oe:
        mol.oe[s] = np.array((list(oe[s]) + [.5] * n)[:n])


def c10():
    ck = Check("C10", "consistent systems made inconsistent in one respect "
               "(sizes, counts, geometries, counterpoise); non-trivial: the "
               "consistent system was calculated and the contradiction was "
               "refused without a result; distinct by kind of contradiction "
               "and system")
    b = Build("san")
    cli = Cli(ck, b)

    def one(i):
        rng = ck.rng_for(i)
        cp = i % 3 == 2
        n1, n2 = rng.randrange(1, 5), rng.randrange(1, 5)
        if i % 10 in (3, 5):      # the contradiction may stand far back
            n1, n2 = rng.randrange(5, 10), rng.randrange(5, 10)
        cx = gauss.Complex(rng, cp=cp, n1=n1, n2=n2,
                           plain=rng.random() < .5)
        sel, flags = gauss.pick(rng, cx)
        d = cx.write(fresh(ck, i))
        if judge_value(ck, cli, cx, sel, flags, d, "case %d" % i) is None:
            done(d)
            return
        done(d)
        lst = contradictions(rng, cx)
        rng.shuffle(lst)
        # the first orbital exists in every variant
        flags = [x for k in "P12" for x in ("--spin_" + k, sel["spin" + k])]
        flags += ["-cp"] if cp else []
        for name, fn in lst[:tier(9, 60)]:
            c = copy.deepcopy(cx)
            fl = list(flags)
            if fn == "cp":
                if c.m["1"].nb == c.m["P"].nb == c.m["2"].nb and not cp:
                    continue
                fl = [x for x in fl if x != "-cp"] if cp else fl + ["-cp"]
            else:
                fn(c)
            dd = c.write(fresh(ck, "%d_x" % i))
            args = c.file_args() + fl
            if not refused(ck, cli, args, dd, "case %d (%s): %s was not refused" %
                           (i, "counterpoise" if cp else "plain", name)):
                done(dd)
                return
            ck.seen((name, cp, i))
            ck.count("refused: " + re.sub(r"[-+]\d+", "n", name))
            ck.sample({"case": i, "counterpoise": cp, "contradiction": name})
            done(dd)

    ck.parallel(one, range(tier(150, 900)))
    return ck.finish()


# ------------------------------------------------------------ C11

def c11():
    ck = Check("C11", "one of the six files cut off at a line, cut off inside a "
               "line, without one data line, without a section, or with "
               "numbers unreadable as a whole or in part, in logs of one step "
               "and logs that repeat their sections; non-trivial: the undamaged system was "
               "calculated and the damaged one was either refused without a "
               "result or gave the undamaged result (data after the needed "
               "part was lost); distinct by file, section and damage")
    b = Build("san")
    cli = Cli(ck, b)

    def one(i):
        rng = ck.rng_for(i)
        cp = i % 4 == 3
        cx = gauss.Complex(rng, cp=cp, plain=True,
                           n1=rng.randrange(1, 4), n2=rng.randrange(1, 4),
                           maxb=rng.choice([2, 6, 9]))
        sel, flags = gauss.pick(rng, cx)
        d = fresh(ck, i)
        text = {}
        many = i % 3 == 1     # earlier steps hold sections of the same kinds
        for k in "P12":
            st = cx.st[k]
            st.noise = rng.choice([0, 4])
            st.order = rng.choice([0, 1, 1])
            if many:
                st.geoms, st.ssecs, st.esecs = 2, 2, 2
            text[k, "log"] = gauss.log_lines(rng, cx.m[k], st)
            text[k, "pun"] = gauss.pun_lines(cx.m[k], st)
        name = {(k, e): os.path.join(d, cx.names[k] + "." + e)
                for k, e in text}
        for key, lines in text.items():
            gauss.write_lines(name[key], lines)
        base = judge_value(ck, cli, cx, sel, flags, d, "case %d" % i)
        if base is None:
            done(d)
            return
        ref = {True: cx.reference(sel, True), False: cx.reference(sel, False)}
        args = cx.file_args() + flags
        for j in range(tier(20, 40)):
            key = rng.choice(list(text) + [("P", "log")] * 2)
            lines = text[key]
            tags = [t for t, _ in lines]
            how = rng.choice(["line", "line", "byte", "drop", "drop", "section",
                              "garble", "garble", "garble", "short", "short",
                              "blank", "empty", "inside", "inside", "huge",
                              "twice"])
            if many and how in ("line", "byte", "section"):
                how = "inside"
            exact = True       # a result that comes out has to be the right one
            tag = ""
            if how == "inside":
                # cut off in the last section of a kind, an earlier one is whole
                tag = rng.choice([t for t in ("coord", "overlap", "overlap",
                                              "coef") if t in tags])
                last = max(n for n, t in enumerate(tags) if t == tag)
                cand = []
                for n in range(last, -1, -1):
                    if tags[n] != tag and tag != "coef":
                        break
                    if tags[n] == tag and is_data(tag, lines[n][1]):
                        cand.append(n)
                    elif tag == "overlap" and re.match(r"[ \d]+$", lines[n][1]):
                        cand += [n] * 4   # between two blocks, or before all
                if tag == "coord":   # up to where the last table began
                    cand = cand[:len(cx.m[key[0]].elements)]
                at = rng.choice(cand)
                new = "\n".join(x for _, x in lines[:at]) + "\n"
            elif how == "line":
                # aim at the boundaries and insides of the sections
                tag = rng.choice(sorted(set(tags)))
                at = rng.choice([n for n, t in enumerate(tags) if t == tag])
                at += rng.choice([0, 0, 1])
                new = "\n".join(x for _, x in lines[:at]) + ("\n" if at else "")
            elif how == "byte":
                whole = "\n".join(x for _, x in lines) + "\n"
                at = rng.randrange(len(whole))
                new = whole[:at]
                exact = False
                tag = tags[min(whole[:at].count("\n"), len(tags) - 1)]
            elif how == "drop":
                cand = [n for n, (t, x) in enumerate(lines)
                        if t in ("coord", "overlap", "energy", "coef", "mo",
                                 "pop") and is_data(t, x)]
                if not cand:
                    continue
                at = rng.choice(cand)
                tag = tags[at]
                if key[1] == "log" and key[0] != "P" and tag == "overlap":
                    exact = False   # the overlap of a monomer is not used
                new = "\n".join(x for n, (_, x) in enumerate(lines)
                                if n != at) + "\n"
            elif how == "section":
                tag = rng.choice(sorted(set(tags)))
                new = "\n".join(x for t, x in lines if t != tag) + "\n"
            elif how in ("short", "blank"):
                # one line lost its last values, or all it held
                cand = [n for n, (t, x) in enumerate(lines)
                        if t in ("coord", "overlap", "energy", "coef") and
                        is_data(t, x)]
                if not cand:
                    continue
                want = rng.choice(sorted({tags[n] for n in cand}))
                at = rng.choice([n for n in cand if tags[n] == want])
                tag, x = tags[at], lines[at][1].rstrip()
                if how == "blank":
                    bad = rng.choice(["", " ", " " * len(x)])
                elif tag == "coef":
                    bad = x[:15 * rng.randrange((len(x) + 14) // 15)]
                elif tag == "energy":
                    k = rng.randrange(1, (len(x) - 28) // 10 + 1)
                    bad = x[:-10 * k]
                else:
                    w = [m.start() for m in re.finditer(r"\S+", x)]
                    bad = x[:rng.choice(w[1:])]
                new = "\n".join(bad if n == at else x
                                for n, (_, x) in enumerate(lines)) + "\n"
            elif how == "huge":
                # the sign of an exponent is a digit: no number can hold this
                cand = [n for n, (t, x) in enumerate(lines) if t in (
                    "overlap", "coef") and re.search(r"D[+-]\d\d", x) and
                    is_data(t, x)]
                if not cand:
                    continue
                at = rng.choice(cand)
                tag, x = tags[at], lines[at][1]
                m = rng.choice(list(re.finditer(r"D[+-](?=\d\d)", x)))
                bad = x[:m.start()] + "D9" + x[m.end():]
                new = "\n".join(bad if n == at else x
                                for n, (_, x) in enumerate(lines)) + "\n"
                if key[1] == "log" and key[0] != "P" or many:
                    exact = key[1] == "pun"   # earlier sections are not used
            elif how == "twice":
                # one value of a line stands there twice, or is broken in two
                cand = [n for n, (t, x) in enumerate(lines) if t in (
                    "overlap", "coef", "energy", "coord") and is_data(t, x)]
                if not cand:
                    continue
                want = rng.choice(sorted({tags[n] for n in cand}))
                at = rng.choice([n for n in cand if tags[n] == want])
                tag, x = tags[at], lines[at][1]
                a, e = rng.choice(numbers(tag, x)[
                    {"overlap": 1, "coord": 3}.get(tag, 0):])
                bad = x[:e] + (" " if tag in ("coord", "overlap") else "") + x[a:]
                if tag == "overlap" and rng.random() < .5:
                    k = rng.randrange(x.index(".", a), e)
                    bad = x[:k] + " " + x[k:]
                new = "\n".join(bad if n == at else x
                                for n, (_, x) in enumerate(lines)) + "\n"
                if key[0] != "P" and tag == "overlap":
                    exact = False   # the overlap of a monomer is not used
            elif how == "garble":
                cand = [n for n, (t, x) in enumerate(lines)
                        if t == "mo" or t in ("coord", "overlap", "coef", "pop",
                                              "energy") and is_data(t, x)]
                if not cand:
                    continue
                want = rng.choice(sorted({tags[n] for n in cand}))
                at = rng.choice([n for n in cand if tags[n] == want])
                tag = want
                bad = garbled(rng, tag, lines[at][1])
                new = "\n".join(bad if n == at else x
                                for n, (_, x) in enumerate(lines)) + "\n"
            else:
                new = rng.choice(["", "\n", " \n\n"])
            if many and tag == "energy" and how != "short" and (
                    tags[at - 1] != tag or
                    lines[at][1][:7] != lines[at - 1][1][:7]):
                exact = False    # nothing shows that there was a later section
            with open(name[key], "w") as f:
                f.write(new)
            o = cli.run(args, d)
            what = "case %d: %s of the %s file of %s (%s)" % (
                i, how, key[1], key[0], tag)
            good = True
            if o.timeout or o.memory_error:
                cli.blame(what + " led to a memory error or a hang", d, args, o)
                good = False
            elif o.rc != 0:
                if gauss.any_number(o.out) or not o.rejected:
                    cli.blame(what + ": failed, but reported a result", d, args, o)
                    good = False
                ck.count("refused")
            else:
                got = gauss.parse_results(o.out)
                v, t = ref["WARNING" not in o.err]
                if got is None or (exact and gauss.compare(got, v, t)):
                    cli.blame(what + " was calculated with a wrong result: %s" %
                              (got and gauss.compare(got, v, t)), d, args, o)
                    good = False
                ck.count("same result")
            gauss.write_lines(name[key], lines)
            if not good:
                done(d)
                return
            ck.seen((how, key, tag, i, j))
            ck.count("damage %s in %s" % (how, tag or "file"))
            ck.sample({"case": i, "damage": how, "file": key, "section": tag,
                       "exit": o.rc})
        done(d)

    ck.parallel(one, range(tier(160, 2000)))
    return ck.finish()


def numbers(tag, x):
    """Where the fields of a line begin and end"""
    if tag == "coef":
        return [(k, k + 15) for k in range(0, len(x) - 14, 15)]
    if tag == "energy":
        return [(k, k + 10) for k in range(28, len(x) - 9, 10)]
    return [m.span() for m in re.finditer(r"\S+", x)]


def garbled(rng, tag, x):
    """One number of the line is not readable, as a whole or in part"""
    w = numbers(tag, x)
    a, e = rng.choice(w[-1:] + w)
    a += len(x[a:e]) - len(x[a:e].lstrip())
    part = rng.choice(["all", "all", "char", "char", "head", "tail"])
    m = x.find("D", a, e)
    if part == "char":
        a = rng.randrange(a, e)
        e = a + 1
    elif part == "head" and m > 0:
        e = m
    elif part == "tail" and m > 0:
        a = m + rng.randrange(2)
    return x[:a] + rng.choice("*?x#:g") * (e - a) + x[e:]


def is_data(t, x):
    if t == "coord":
        return re.match(r"\s+\d+\s+-?\d+\s+\d+\s+-?\d", x) is not None
    if t == "overlap":
        return "D" in x
    if t == "energy":
        return "eigenvalues" in x
    if t == "coef":
        return "D" in x
    if t == "mo":
        return False
    if t == "pop":
        return re.match(r"\s*\d+ .*\d\.\d{5}", x) is not None
    return False


# ------------------------------------------------------------ C12

def c12():
    ck = Check("C12", "command lines made from all flags in both spellings, any "
               "order, repeated flags and switch values, and command lines "
               "with one mistake; non-trivial: the selection that the line "
               "asks for was calculated, or the mistake was refused; distinct "
               "by flags, order and mistake")
    b = Build("san")
    cli = Cli(ck, b)

    def one(i):
        rng = ck.rng_for(i)
        cp = rng.random() < .35
        cx = gauss.Complex(rng, cp=cp, n1=rng.randrange(1, 3),
                           n2=rng.randrange(1, 3), unrestricted=True, maxb=5,
                           plain=True)
        d = cx.write(fresh(ck, i))
        for j in range(tier(6, 12)):
            sel, groups, kinds = {}, [], {}
            for k in "P12":
                groups.append([flag(rng, "pun", k),
                               cx.names[k] + cx.pun_ext[k]])
                groups.append([flag(rng, "log", k), cx.names[k] + ".log"])
                s = rng.choice(["Alpha", "Beta", None])
                sel["spin" + k] = s or "Alpha"
                if s:
                    g = [flag(rng, "spin", k), s]
                    if rng.random() < .15:   # the last one counts
                        g = [flag(rng, "spin", k),
                             "Beta" if s == "Alpha" else "Alpha"] + g
                    groups.append(g)
            for k in "12":
                mol, s = cx.m[k], sel["spin" + k]
                nocc, nmo = mol.nocc[s], mol.coef[s].shape[0]
                if not nocc or (rng.random() < .5 and nmo > nocc):
                    n = rng.randrange(nmo - nocc)
                    sel["row" + k] = nocc + n
                    groups.append([flag(rng, "type", k), "LUMO"])
                    txt = rng.choice([str(n), str(n), "+%d" % n, "0%d" % n])
                else:
                    n = rng.randrange(nocc)
                    sel["row" + k] = nocc - 1 - n
                    if rng.random() < .5:
                        groups.append([flag(rng, "type", k), "HOMO"])
                    txt = rng.choice([str(-n), "-%d" % n])
                kinds[k] = "LUMO" if sel["row" + k] >= nocc else "HOMO"
                if n or rng.random() < .4:
                    groups.append([flag(rng, "num", k), txt])
            for n, g in enumerate(groups):    # the last one counts
                if len(g) > 2 or rng.random() > .15:
                    continue
                kind = next(x for x in LONG for k in "P12"
                            if g[0] in (LONG[x] + k, SHORT[x] + k))
                k, o = g[0][-1], rng.choice("P12")
                groups[n] = [flag(rng, kind, k), {
                    "spin": rng.choice(["Alpha", "Beta"]),
                    "type": rng.choice(["HOMO", "LUMO"]),
                    "num": str(rng.choice([0, 1, -1, rng.randrange(-9, 9)])),
                    "pun": cx.names[o] + cx.pun_ext[o],
                    "log": cx.names[o] + ".log"}[kind]] + g
                ck.count("flags given again")
            f, f2 = (rng.choice(["-cp", "--counter_poise"]) for _ in "ab")
            on = [[], ["ON"], ["TRUE"], ["1"]]
            off = [["OFF"], ["FALSE"], ["0"]]
            if cp:
                groups.append([f] + rng.choice(on))
                if rng.random() < .3:    # the last one counts
                    groups[-1] = [f2] + rng.choice(on + off) + groups[-1]
            elif rng.random() < .4:
                groups.append([f] + rng.choice(off))
                if rng.random() < .4:
                    groups[-1] = [f2] + rng.choice(on + off) + groups[-1]
            rng.shuffle(groups)
            if rng.random() < .12:   # a long line: what comes last counts
                crowd = []
                for n in range(rng.randrange(20, 120)):
                    k = rng.choice("P12")
                    what = rng.choice(["pun", "log", "spin"])
                    if what == "spin" and not any(
                            "spin" in g[0] and g[0][-1] == k or
                            g[0] == SHORT["spin"] + k for g in groups):
                        continue
                    crowd.append([flag(rng, what, k), rng.choice(
                        ["Alpha", "Beta"]) if what == "spin" else
                        cx.names[k] + (".log" if what == "log" else
                                       cx.pun_ext[k])])
                ck.count("command lines of many flags")
            else:
                crowd = []
            args = [x for g in crowd + groups for x in g]
            if cp and rng.random() < .4:   # switches follow each other, last
                args += [f2, rng.choice([f2, f, "-cite", "--citation"])]
            v, t = cx.reference(sel)
            o = cli.run(args, d)
            got = gauss.parse_results(o.out) if o.ok else None
            bad = gauss.compare(got, v, t) if got else ["no result"]
            if bad:
                cli.blame("case %d.%d: a documented command line: %s" %
                          (i, j, "; ".join(bad)), d, args, o)
                done(d)
                return
            ck.seen(tuple(args))
            ck.count("command lines understood")
            ck.sample(" ".join(args))
            # the same line with one mistake
            for name, bad_args in mistakes(rng, groups, cx, sel, kinds, d):
                if not refused(ck, cli, bad_args, d,
                               "case %d.%d: %s was not refused" % (i, j, name)):
                    done(d)
                    return
                ck.seen((name, tuple(bad_args)))
                ck.count("refused: " + name)
        done(d)

    ck.parallel(one, range(tier(70, 800)))
    return ck.finish()


def near_flag(rng, f):
    i = rng.randrange(len(f))
    return rng.choice([
        f[:i] + f[i + 1:], f[:i] + f[i] + f[i:], rng.choice(" \t\n") + f,
        f + rng.choice(" \t\n_=0"), f[1:], "-" + f, f[:i] + f[i].upper() + f[i + 1:],
        f[:max(i - 1, 0)] + f[i] + f[max(i - 1, 0):i] + f[i + 1:], f[:i],
        f.lower(), f.upper(), f.replace("_", "-"), f.replace("_", "")])


def mistakes(rng, groups, cx, sel, kinds, d):
    """Command lines that hold exactly one mistake"""
    out = []

    def line(gs):
        gs = list(gs)
        rng.shuffle(gs)
        return [x for g in gs for x in g]

    def without(*names):
        return [g for g in groups if g[0] not in names]

    def of(kind, k):
        return LONG[kind] + k, SHORT[kind] + k

    k3, k2 = rng.choice("P12"), rng.choice("12")
    for v in rng.sample(["alpha", "ALPHA", "beta", "Gamma", "", "Alph", "Alphaa",
                         "Beta ", "0", "NOT_DEFINED", "Alpha Beta"], 2):
        out.append(("spin outside of the choices", line(
            without(*of("spin", k3)) + [[flag(rng, "spin", k3), v]])))
    for v in rng.sample(["homo", "Lumo", "HUMO", "", "HOMO-1", "LUMO+1", "SOMO",
                         "0", "HOMO "], 2):
        out.append(("orbital type outside of the choices", line(
            without(*of("type", k2)) + [[flag(rng, "type", k2), v]])))
    for v in rng.sample(["x", "1.5", "", "--", "0x1", "1e0", "-0.0", "0,", "2a",
                         "99999999999", "-99999999999", "zero", "- 1"], 2):
        out.append(("orbital number that is not an integer", line(
            without(*of("num", k2)) + [[flag(rng, "num", k2), v]])))
    wrong = "1" if kinds[k2] == "HOMO" else "-1"
    out.append(("sign against the orbital type", line(
        without(*of("num", k2)) + [[flag(rng, "num", k2), wrong]])))
    out.append(("unknown flag", line(groups + [[rng.choice(
        ["--pun", "--pun_3", "-p", "--spin", "-orb", "--counterpoise", "-CP",
         "--Log_P", "--orbital_num_P", "-x", "--", "---help", "-s_p"])]])))
    name = {k: cx.names[k] for k in "P12"}
    out.append(("unknown flag with a value", line(groups + [rng.choice(
        [["-p", name["1"] + cx.pun_ext["1"]], ["-p_", name["1"] + cx.pun_ext["1"]],
         ["--pun", name["1"] + cx.pun_ext["1"]], ["-l", name["1"] + ".log"],
         ["--log_", name["1"] + ".log"], ["-s", sel["spin1"]],
         ["--spin", sel["spin1"]], ["-orb_ty", kinds["1"]],
         ["-orb_ty_", kinds["1"]], ["-orb_n", "0"], ["-p_P1", name["P"] + ".pun"],
         ["--spin_1x", sel["spin1"]], ["-spin_1", sel["spin1"]],
         ["--s_1", sel["spin1"]], ["--counter", "OFF"], ["-c", "OFF"],
         ["--spin_1 ", sel["spin1"]], ["-S_1", sel["spin1"]]])])))
    known = {s[k] + n for s in (LONG, SHORT) for k in s for n in
             ("P12" if k not in ("type", "num") else "12")}
    known |= {"--counter_poise", "-cp", "--citation", "-cite", "--help", "-h",
              "--version", "-v", "-version", "-C", "", "-"}
    for _ in range(2):
        f = rng.choice(sorted(known - {"", "-"}))
        near = near_flag(rng, f)
        if near not in known:
            out.append(("nearly a flag", line(groups + [rng.choice(
                [[near], [near, rng.choice([sel["spin1"], "0", kinds["1"],
                                            name["1"] + ".log", "OFF"])]])])))
    out.append(("flag and value in one word", line(groups + [[rng.choice(
        ["--spin_1=" + sel["spin1"], "-s_1=" + sel["spin1"],
         "--spin_1 " + sel["spin1"], "-s_1" + sel["spin1"]])]])))
    out.append(("stray word", line(groups + [[rng.choice(
        ["dimer.log", "ON.", "HOMO", "x", "Alpha1"])]])))
    g = rng.choice([g for g in groups if len(g) > 1 and "cp" not in g[0] and
                    "counter" not in g[0]])
    rest = [x for x in groups if x is not g]
    out.append(("value missing at the end", line(rest) + [g[0]]))
    out.append(("switch value outside of the choices", line(
        [g for g in groups if g[0] not in ("-cp", "--counter_poise")]) +
        [rng.choice(["-cp", "--counter_poise"]),
         rng.choice(["on", "yes", "2", "Off", "-1", "True", "10", "On", "off",
                     "O", "OFF ", " ON", "TRUE1", "00", "+1"])]))
    f = rng.choice(["pun", "log"])
    src = os.path.join(d, cx.names[k3] + (".log" if f == "log"
                                          else cx.pun_ext[k3]))
    ext = rng.choice([".txt", ".pun" if f == "log" else ".log", ".gjf", ".LOG",
                      ".out", ".logs", ".lo", ".puns", ".70", ".77", ".orbs",
                      ".7p", ".pu", ".log.bak", ".pun~", ".log~",
                      ".7" if f == "log" else ".8"])
    alias = os.path.join(d, "other" + ext)
    if not os.path.exists(alias):
        shutil.copy(src, alias)
    out.append(("file of another kind", line(
        without(*of(f, k3)) + [[flag(rng, f, k3), "other" + ext]])))
    out.append(("neither file of a calculation", line(
        without(*of("pun", k3), *of("log", k3)))))
    out.append(("files that do not exist", line(
        without(*of("pun", k3), *of("log", k3)) +
        [[flag(rng, "pun", k3), "nowhere.pun"],
         [flag(rng, "log", k3), "nowhere.log"]])))
    rng.shuffle(out)
    return out[:tier(5, 14)]


# ------------------------------------------------------------ C13

def c13():
    ck = Check("C13", "calculations named by one file, the other found beside it, "
               "in directories and names with dots and spaces, with decoys of "
               "other names, with the three extensions of coefficient files; "
               "non-trivial: the right files were reported and their result "
               "calculated, or missing companions were refused; distinct by "
               "paths and the way of naming them")
    b = Build("san")
    cli = Cli(ck, b)
    DIRS = ["", "run", "run.1", "my run", "a.log", "x.pun", "v1.2/b3lyp.631g",
            "deep/er/est", "./here", "up/../over", "..hidden", "sp ace/d.ot",
            " lead", "two  blanks", "\u00e9t\u00e9/\u6c34", "l" * 200, "tab\there",
            "a/b/c/d/e/f/g/h", "trail ", "d//e", "/".join(["p" * 90] * 5),
            "/".join(["q.d" * 40] * 16)]
    BASES = ["dimer", "mol.1", "a.b.c", "with space", "x.log", "y.pun", "-dash",
             "pun", "log", "m.7", "UPPER.Case", "1", ".hid", "end.", " lead",
             "two  blanks", "\u00e9t\u00e9", "n" * 150, "trail ", "--help",
             "x.LOG", "..", "a..b", "--log_1", "q\"uote", "d.log.pun"]

    def one(i):
        rng = ck.rng_for(i)
        cx = gauss.Complex(rng, cp=(i % 5 == 4), n1=rng.randrange(1, 3),
                           n2=rng.randrange(1, 3), maxb=4, plain=True)
        # two monomers of a kind may share their files, if these do not tell
        # the atoms of the basis functions
        same = i % 7 == 3
        if same:
            while cx.cp or cx.m["P"].nb != 2 * cx.m["1"].nb:
                cx = gauss.Complex(rng, n1=1, n2=1, maxb=4, plain=True)
            cx.m["2"] = cx.m["1"]
            for k in "P12":
                cx.st[k].pop = False
        sel, flags = gauss.pick(rng, cx)
        d = fresh(ck, i)
        paths = {}
        used = set()
        for k in "P12":
            while True:
                p = os.path.join(rng.choice(DIRS), rng.choice(BASES))
                if p.startswith("-") and rng.random() < .5:
                    p = "./" + p
                if os.path.basename(p) == "..":
                    p += "x"
                q = os.path.normpath(p)
                if q not in used:
                    used.add(q)
                    break
            ext = rng.choice([".pun", ".pun", ".orb", ".7"])
            if rng.random() < .3:
                p = os.path.join(d, p)      # an absolute path
            paths[k] = (p, ext)
            for part in (p,):
                # 'up/..' needs 'up' to be there
                full = os.path.join(d, os.path.dirname(part))
                os.makedirs(full.replace("/..", ""), exist_ok=True)
                os.makedirs(full, exist_ok=True)
            lines = gauss.log_lines(rng, cx.m[k], cx.st[k])
            if rng.random() < .02:      # a log of megabytes
                pad = [("noise", x) for x in gauss.NOISE[:6] * 6000]
                lines = lines[:1] + pad + lines[1:]
                ck.count("logs of megabytes")
            gauss.write_lines(os.path.join(d, p + ".log"), lines)
            gauss.write_lines(os.path.join(d, p + ext),
                              gauss.pun_lines(cx.m[k], cx.st[k]))
        if same:
            paths["2"] = paths["1"]
            ck.count("files shared by the monomers")
        # decoys: plausible names that must not be used
        for k in "P12":
            p, ext = paths[k]
            stem = os.path.basename(p).split(".")[0]
            for n in (stem, os.path.basename(p) + ".log" * 2,
                      os.path.basename(p) + "x"):
                for e in (".log", ".pun"):
                    q = os.path.join(d, os.path.dirname(p), n + e)
                    if not os.path.exists(q) and os.path.relpath(
                            os.path.realpath(q[:-4]), os.path.realpath(d)) \
                            not in used:
                        open(q, "w").write("decoy\n")
            for e in (".log", ext):
                for m in rng.sample(["%s~", "%s.bak", ".%s", "#%s#", "%s.gz",
                                     "%s "], 3):
                    q = os.path.join(d, os.path.dirname(p),
                                     m % (os.path.basename(p) + e))
                    if os.path.exists(q):
                        pass
                    elif rng.random() < .5:
                        shutil.copyfile(os.path.join(d, p + e), q)
                    else:
                        open(q, "w").write("decoy\n")
        args, want = [], {}
        gs, found = [], 0
        for k in "P12":
            p, ext = paths[k]
            how = rng.choice(["both", "pun", "log"])
            found += how != "both"
            if how in ("both", "pun"):
                gs.append([flag(rng, "pun", k), p + ext])
            if how in ("both", "log"):
                gs.append([flag(rng, "log", k), p + ".log"])
            want["log", k] = p + ".log"
            want["pun", k] = p + ext
        gs.append(flags)
        rng.shuffle(gs)
        args = [x for g in gs for x in g]
        o = cli.run(args, d)
        got = gauss.parse_results(o.out) if o.ok else None
        v, t = cx.reference(sel, reorder=not same)
        bad = gauss.compare(got, v, t) if got else ["no result"]
        rep = reported_files(o.out)
        for key, p in want.items():
            if key in rep and os.path.normpath(os.path.join(d, rep[key])) != \
                    os.path.normpath(os.path.join(d, p.lstrip())):
                bad.append("%s file of %s reported as %r instead of %r" %
                           (key[0], key[1], rep[key], p))
            if key not in rep:
                bad.append("%s file of %s was not reported" % key)
        if bad:
            cli.blame("case %d: %s" % (i, "; ".join(bad)), d, args, o)
            done(d)
            return
        ck.seen(tuple(args))
        ck.count("companions found", found)
        ck.sample(" ".join(map(repr, args)))
        # an explicitly named companion is used even if another one is near
        k = "P" if same else rng.choice("P12")
        other = os.path.join(d, "else where")
        os.makedirs(other, exist_ok=True)
        p, ext = paths[k]
        e2 = rng.choice([".pun", ".orb", ".7"])
        shutil.move(os.path.join(d, p + ext), os.path.join(other, "c" + e2))
        for e in (".pun", ".orb", ".7"):
            if e != ext or rng.random() < .7:
                open(os.path.join(d, p + e), "w").write("decoy\n")
        gs = [g for g in gs if g and g[0] not in (LONG["pun"] + k, SHORT["pun"] + k,
                                            LONG["log"] + k, SHORT["log"] + k)]
        g2 = gs + [[flag(rng, "pun", k), "else where/c" + e2],
                   [flag(rng, "log", k), p + ".log"]]
        rng.shuffle(g2)
        args = [x for g in g2 for x in g]
        o = cli.run(args, d)
        got = gauss.parse_results(o.out) if o.ok else None
        bad = gauss.compare(got, v, t) if got else ["no result"]
        if bad:
            cli.blame("case %d: explicitly named files: %s" %
                      (i, "; ".join(bad)), d, args, o)
            done(d)
            return
        ck.count("explicit companions used")
        ck.seen(tuple(args))
        # no companion at all
        for e in (".pun", ".orb", ".7"):
            q = os.path.join(d, p + e)
            if os.path.exists(q):
                os.unlink(q)
        g2 = gs + [[flag(rng, "log", k), p + ".log"]]
        if not refused(ck, cli, [x for g in g2 for x in g], d,
                       "case %d: a missing companion was not noticed" % i):
            done(d)
            return
        ck.count("missing companions refused")
        g2 = gs + [[flag(rng, "pun", k), "else where/c" + e2]]
        if not refused(ck, cli, [x for g in g2 for x in g], d,
                       "case %d: a missing log companion was not noticed" % i):
            done(d)
            return
        ck.seen((i, "missing"))
        done(d)

    ck.parallel(one, range(tier(600, 5000)))
    return ck.finish()


FILELINE = re.compile(r"^(log|pun) file for (?:the )?(first monomer|second monomer"
                      r"|dimer) is:\s*(\S.*)$")


def reported_files(out):
    rep = {}
    for line in out.splitlines():
        m = FILELINE.match(line)
        if m:
            k = {"f": "1", "s": "2", "d": "P"}[m.group(2)[0]]
            rep[m.group(1), k] = m.group(3)
    return rep


# ------------------------------------------------------------ C14

def project_version(b):
    t = open(os.path.join(b.src, "CMakeLists.txt")).read()
    m = re.search(r"project\s*\([^)]*VERSION\s+(\d+)\.(\d+)", t)
    if not m:
        ma = re.search(r"VERSION_MAJOR\s+\"?(\d+)", t)
        mi = re.search(r"VERSION_MINOR\s+\"?(\d+)", t)
        return "%s.%s" % (ma.group(1), mi.group(1)) if ma and mi else None
    return m.group(1) + "." + m.group(2)


def c14():
    ck = Check("C14", "help, version and citation flags alone, together and "
               "beside a calculation; non-trivial: the information was printed "
               "with success and no result, or the calculation beside it was "
               "unchanged; distinct by flags and place")
    b = Build("san")
    cli = Cli(ck, b)
    ver = project_version(b)
    flags_all = [x for k in "P12" for kind in ("pun", "log", "spin")
                 for x in (LONG[kind] + k, SHORT[kind] + k)]
    flags_all += [x for k in "12" for kind in ("type", "num")
                  for x in (LONG[kind] + k, SHORT[kind] + k)]
    flags_all += ["--counter_poise", "-cp", "--citation", "-cite", "--version",
                  "-v", "--help", "-h"]
    d = fresh(ck, "info")

    def has_help(out):
        words = set(out.split())
        return [f for f in flags_all if f not in words]

    def undescribed(out):
        """flags whose abbreviation or description does not follow their name"""
        w, bad = out.split(), []
        pairs = [(LONG[x] + k, SHORT[x] + k) for x in LONG for k in "P12"
                 if (LONG[x] + k) in flags_all]
        for long, short in pairs + [("--counter_poise", "-cp"),
                                    ("--citation", "-cite"),
                                    ("--version", "-v"), ("--help", "-h")]:
            at = [i for i, x in enumerate(w) if x == long]
            if not any(short in w[i + 1:i + 2] and
                       sum(1 for x in w[i + 2:i + 5] if x[:1] != "-") >= 2
                       for i in at):
                bad.append(long)
        return bad

    def has_version(out):
        m = re.search(r"VERSION (\d+\.\d+)", out)
        return m is not None and (ver is None or m.group(1) == ver)

    H, V, C = ["-h", "--help"], ["-v", "--version"], ["-cite", "--citation"]
    cases = [[x] for x in H + V + C] + \
            [[x, y] for x in H for y in C] + [[y, x] for x in H for y in C] + \
            [[x, y] for x in H + C for y in V] + \
            [["-h", "--help"], ["-cite", "--citation"], ["-h", "-cite", "-v"]]
    for a in cases:
        o = cli.run(a, d)
        bad = []
        if not o.ok:
            bad.append("did not succeed")
        if gauss.any_number(o.out):
            bad.append("a result was reported")
        if not has_version(o.out):
            bad.append("no version (%s)" % ver)
        if set(a) & set(H) and has_help(o.out):
            bad.append("help does not name %s" % has_help(o.out))
        if set(a) & set(H) and undescribed(o.out):
            bad.append("help does not describe %s" % undescribed(o.out))
        if not set(a) & set(H) and not has_help(o.out):
            bad.append("help was printed without being asked for")
        cited = "itation" in o.out and "http" in o.out and \
            (ver is None or ver in o.out.split("itation", 1)[1])
        cite_asked = bool(set(a) & set(C))
        if cite_asked and not cited:
            bad.append("no citation with name, version and address")
        if not cite_asked and "http" in o.out:
            bad.append("citation was printed without being asked for")
        if bad:
            cli.blame("%s: %s" % (a, "; ".join(bad)), d, a, o)
        ck.seen(tuple(a))
        ck.count("information printed")
        ck.sample({"flags": a, "lines": len(o.out.splitlines())})
    # nothing at all is a mistake that shows the usage
    o = cli.run([], d)
    if not o.rejected or has_help(o.out):
        cli.blame("no arguments: usage and failure expected", d, [], o)
    ck.seen("none")
    done(d)

    def one(i):
        rng = ck.rng_for(i)
        cx = gauss.Complex(rng, cp=(i % 3 == 1), n1=rng.randrange(1, 3),
                           n2=rng.randrange(1, 3), maxb=4, plain=True)
        sel, flags = gauss.pick(rng, cx)
        d = cx.write(fresh(ck, i))
        fa = cx.file_args()
        gs = [fa[n:n + 2] for n in range(0, len(fa), 2)] + [flags]
        extra = rng.sample([["-h"], ["--help"], ["-cite"], ["--citation"]],
                           rng.choice([1, 1, 2]))
        rng.shuffle(gs)
        for e in extra:
            gs.insert(rng.randrange(len(gs) + 1), e)
        args = [x for g in gs for x in g]
        o = cli.run(args, d)
        got = gauss.parse_results(o.out) if o.ok else None
        v, t = cx.reference(sel)
        bad = gauss.compare(got, v, t) if got else ["no result"]
        if any(e[0] in H for e in extra) and has_help(o.out):
            bad.append("no help")
        if any(e[0] in C for e in extra) and "http" not in o.out:
            bad.append("no citation")
        if bad:
            cli.blame("case %d: %s beside a calculation: %s" %
                      (i, extra, "; ".join(bad)), d, args, o)
        ck.seen(tuple(args))
        ck.count("calculations with information beside them")
        # these flags take no value: one is refused, or without consequence
        n = rng.randrange(len(gs) + 1)
        args2 = [x for g in gs[:n] for x in g] + \
                [rng.choice(C + H[:2]), rng.choice(["ON", "OFF", "0", "1"])] + \
                [x for g in gs[n:] for x in g]
        o = cli.run(args2, d)
        if o.ok:
            got = gauss.parse_results(o.out)
            bad = gauss.compare(got, v, t) if got else ["no result"]
        else:
            bad = ["a number with a failure"] if gauss.any_number(o.out) else []
        if bad:
            cli.blame("case %d: value behind a flag for information: %s" %
                      (i, "; ".join(bad)), d, args2, o)
        # asking for the version ends the run before a calculation
        n = rng.randrange(len(gs) + 1)
        args = [x for g in gs[:n] for x in g] + [rng.choice(V)] + \
               [x for g in gs[n:] for x in g]
        o = cli.run(args, d)
        if not o.ok or gauss.any_number(o.out) or not has_version(o.out):
            cli.blame("case %d: version beside a calculation" % i, d, args, o)
        ck.seen(tuple(args))
        done(d)

    ck.parallel(one, range(tier(90, 900)))
    return ck.finish()


# ------------------------------------------------------------ C23

def tree_state(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files + dirs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            h = ""
            if os.path.isfile(p):
                h = hashlib.sha1(open(p, "rb").read()).hexdigest()
            out[os.path.relpath(p, d)] = (h, st.st_mode, st.st_size,
                                          st.st_mtime_ns if h else 0)
    return out


def c23():
    ck = Check("C23", "one calculation run repeatedly: another working "
               "directory, absolute and relative paths, other environments, "
               "perturbed memory contents, read-only inputs, after other runs "
               "and at the same time as others; non-trivial: two runs compared "
               "byte by byte and the directory compared before and after; "
               "distinct by system and way of running")
    b = Build("plain")
    cli = Cli(ck, b)
    from faults import World, shim
    so = shim(b)
    places = os.path.join(ck.scratch, "locales")
    os.makedirs(places)
    languages = []
    for x in ("de_DE", "fr_FR", "tr_TR"):
        subprocess.run(["localedef", "-i", x, "-f", "UTF-8",
                        os.path.join(places, x + ".UTF-8")],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.isdir(os.path.join(places, x + ".UTF-8")):
            languages.append(x + ".UTF-8")
    ck.count("languages installed for the check", len(languages))
    languages = languages or ["de_DE.UTF-8"]

    def one(i):
        rng = ck.rng_for(i)
        cx = gauss.Complex(rng, cp=(i % 3 == 1), n1=rng.randrange(1, 5),
                           n2=rng.randrange(1, 5))
        if i % 7 == 0:
            cx.st["P"].pop = False
        if rng.random() < .3:
            for k in "P12":
                cx.names[k] += rng.choice("xy_. ") * rng.randrange(10, 200) + k
        sel, flags = gauss.pick(rng, cx)
        d = cx.write(fresh(ck, i))
        elsewhere = fresh(ck, "%d_cwd" % i)
        before = tree_state(d)
        # files that come and go leave their mark on the directory
        stamp0 = os.stat(d).st_mtime_ns
        args = cx.file_args() + flags
        base = cli.run(args, d)
        if not base.ok or gauss.parse_results(base.out) is None:
            cli.blame("case %d was not calculated" % i, d, args, base)
            return

        def strip(o):
            return [x for x in o.out.splitlines() if not FILELINE.match(x)], \
                o.err, o.rc

        ways = {
            "again": (args, d, None),
            "perturbed memory": (args, d, {"MALLOC_PERTURB_": str(
                rng.randrange(1, 255))}),
            "other perturbed memory": (args, d, {"MALLOC_PERTURB_": "85",
                                                 "MALLOC_ARENA_MAX": "1"}),
            "german environment": (args, d, {"LC_ALL": "de_DE.UTF-8",
                                             "LANG": "de_DE.UTF-8"}),
            # languages that write numbers in another way
            "language": (args, d, {"LOCPATH": places, "LC_ALL": rng.choice(
                languages)}),
            "language of numbers": (args, d, {
                "LOCPATH": places, "LC_ALL": "",
                "LC_NUMERIC": rng.choice(languages)}),
            "large environment": (args, d, {"X%d" % k: "y" * 500
                                            for k in range(60)}),
            "from elsewhere": (cx.file_args(d) + flags, elsewhere, None),
            "relative from elsewhere": (
                cx.file_args(os.path.relpath(d, elsewhere)) + flags,
                elsewhere, None),
            # the clock, the user, the process are others, variables that
            # calc_J itself asks for exist, reads come in small pieces
            "another world": (args, d, {"LD_PRELOAD": so,
                                        "WORLD": str(rng.randrange(1, 10**6))}),
            "yet another world": (args, d, {
                "LD_PRELOAD": so, "WORLD": str(rng.randrange(1, 10**6)),
                "LC_ALL": "C", "HOME": "/nowhere", "USER": "nobody",
                "TZ": "Asia/Tokyo", "COLUMNS": "20", "TERM": "dumb"}),
            "something to read": (args, d, None),
            "files of the future": (args, d, None),
            "files of long ago": (args, d, None),
        }
        log = World(so, elsewhere)
        for way, (a, cwd, env) in ways.items():
            kw = {}
            if "world" in way:
                env = log.env(extra=env)
            elif env:
                env = clean_env(env)
            if way == "something to read":
                kw["stdin"] = rng.choice([b"x", b"1 2 3\n", b"y\n" * 5000])
            if "files" in way:
                stamp = time.time() + (4e8 if "future" in way else -1.2e9)
                for f in os.listdir(d):
                    os.utime(os.path.join(d, f), (stamp, stamp))
            o = cli.run(a, cwd, env=env, **kw)
            if "files" in way:
                for f, st in before.items():
                    if st[3]:
                        os.utime(os.path.join(d, f), ns=(st[3], st[3]))
            if "world" in way:
                c = log.counts()
                ck.count("small reads", c.get("read", 0))
                ck.count("variables asked for", c.get("environ", 0))
                ck.count("looks at the clock", c.get("clock", 0))
            if strip(o) != strip(base):
                cli.blame("case %d: the run '%s' differs: %r %r" %
                          (i, way, o.out[-300:], o.err[-300:]), d, args, base)
                break
            ck.seen((i, way))
            ck.count(way)
        for k in "P12":      # inputs may be write protected
            for e in (".log", cx.pun_ext[k]):
                os.chmod(os.path.join(d, cx.names[k] + e), 0o644)
        after = tree_state(d)
        if after != before:
            cli.blame("case %d: the run changed its directory: %s" %
                      (i, [k for k in set(after) | set(before)
                           if after.get(k) != before.get(k)]), d, args, base)
        if os.listdir(elsewhere):
            cli.blame("case %d: the run left %s behind" %
                      (i, os.listdir(elsewhere)), d, args, base)
        if os.stat(d).st_mtime_ns != stamp0:
            cli.blame("case %d: files came and went in the directory" % i, d,
                      args, base)
        ck.count("directories unchanged")
        ck.sample({"case": i, "flags": flags, "ways": len(ways)})
        done(d)
        done(elsewhere)

    ck.parallel(one, range(tier(150, 1500)))

    # undefined memory: the same runs watched by valgrind
    def watched(i):
        rng = ck.rng_for("vg", i)
        cx = gauss.Complex(rng, cp=(i % 3 == 1), n1=rng.randrange(1, 4),
                           n2=rng.randrange(1, 4), maxb=3)
        sel, flags = gauss.pick(rng, cx)
        d = cx.write(fresh(ck, "vg%d" % i))
        args = cx.file_args() + flags
        if i % 4 == 2:
            args += [rng.choice(["-cite", "-h"])]
        o = run_confirm(["valgrind", "-q", "--error-exitcode=98", b.calc] + args,
                        cwd=d, timeout=60)
        ck.count("executions watched for undefined values")
        if o.rc != 0 or "==" in o.err and "uninitialised" in o.err:
            cli.blame("case vg%d: valgrind found a dependence on undefined "
                      "memory" % i, d, args, o)
        ck.seen(("vg", i))
        done(d)

    ck.parallel(watched, range(tier(16, 120)))
    return ck.finish()


# ------------------------------------------------------------ C25

def c25():
    ck = Check("C25", "pairs of calculations related by a symmetry: monomers "
               "exchanged, sign of an orbital changed, sign or order of the "
               "orbitals of the dimer changed, geometry moved; non-trivial: "
               "both were calculated and the quantities related as they have "
               "to be; distinct by symmetry and system")
    b = Build("san")
    cli = Cli(ck, b)
    Q = ("J_ab", "e_a", "e_b", "S_ab", "J_eff")

    def one(i):
        rng = ck.rng_for(i)
        cp = i % 2 == 1
        cx = gauss.Complex(rng, cp=cp, n1=rng.randrange(1, 5),
                           n2=rng.randrange(1, 5), plain=rng.random() < .5)
        sel, _ = gauss.pick(rng, cx)

        def run_one(c, s, what):
            fl = ["-cp"] if cp else []
            for k in "P12":
                fl += ["--spin_" + k, s["spin" + k]]
            for k in "12":
                fl += ["--orbital_type_" + k, s["type" + k],
                       "--orbital_num_" + k, str(s["num" + k])]
            d = c.write(fresh(ck, "%d" % i))
            got = judge_value(ck, cli, c, s, fl, d, what)
            return got, d, fl

        base, d, fl = run_one(cx, sel, "case %d" % i)
        _, tol = cx.reference(sel)
        done(d)
        if base is None:
            return
        for sym in rng.sample(["exchange", "sign1", "sign2", "signP", "orderP",
                               "move", "mirror", "scale1"], tier(4, 8)):
            c = copy.deepcopy(cx)
            s = dict(sel)
            want = dict(base)
            if sym == "exchange":
                c.ids["1"], c.ids["2"] = c.ids["2"], c.ids["1"]
                c.m["1"], c.m["2"] = c.m["2"], c.m["1"]
                c.st["1"], c.st["2"] = c.st["2"], c.st["1"]
                for f in ("spin", "row", "type", "num"):
                    s[f + "1"], s[f + "2"] = s[f + "2"], s[f + "1"]
                want["e_a"], want["e_b"] = base["e_b"], base["e_a"]
            elif sym in ("sign1", "sign2"):
                k = sym[-1]
                c.m[k].coef[s["spin" + k]][s["row" + k]] *= -1
                for q in ("J_ab", "S_ab", "J_eff"):
                    want[q] = -base[q]
            elif sym == "signP":     # the phase of the dimer does not matter
                C = c.m["P"].coef[s["spinP"]]
                for r in range(C.shape[0]):
                    if rng.random() < .5:
                        C[r] *= -1
            elif sym == "orderP":    # nor does the order of its orbitals
                sp = s["spinP"]
                n = c.m["P"].coef[sp].shape[0]
                o = list(range(n))
                rng.shuffle(o)
                c.m["P"].coef[sp] = c.m["P"].coef[sp][o]
                c.m["P"].oe[sp] = c.m["P"].oe[sp][o]
                c.m["P"].oetext[sp] = [c.m["P"].oetext[sp][x] for x in o]
            elif sym in ("move", "mirror"):
                sh = [rng.randrange(-400000, 400000) * 100 for _ in range(3)]
                for k in "P12":
                    for a, xyz in enumerate(c.m[k].coords):
                        new = []
                        for x, s0 in zip(xyz, sh):
                            v = int(round(float(x) * 1e6))
                            v = v + s0 if sym == "move" else -v
                            new.append("%s%d.%06d" % ("-" if v < 0 else "",
                                                      abs(v) // 1000000,
                                                      abs(v) % 1000000))
                        c.m[k].coords[a] = tuple(new)
            elif sym == "scale1":   # J and S are linear in each orbital
                C = c.m["1"].coef[s["spin1"]]
                f = rng.choice([2, .5, -4])
                # powers of two keep the written digits exact enough
                C[s["row1"]] = [gauss.dround(x * f, 8) for x in C[s["row1"]]]
                want = None
            got, d, fl = run_one(c, s, "case %d with %s" % (i, sym))
            if got is None:
                done(d)
                return
            if want is not None:
                bad = [q for q in Q if abs(got[q] - want[q]) >
                       30 * tol[q] + 1.2e-5 * abs(want[q]) + 1e-13]
                if bad:
                    cli.blame("case %d: %s relates %s wrongly: %s and %s" %
                              (i, sym, bad, base, got), d, fl,
                              cli.run(c.file_args() + fl, d))
            else:
                r = f
                for q, w in (("J_ab", base["J_ab"] * r), ("e_b", base["e_b"]),
                             ("S_ab", base["S_ab"] * r),
                             ("e_a", base["e_a"] * r * r)):
                    if abs(got[q] - w) > 2e-5 * abs(w) + 1e4 * tol[q] * r * r + \
                            1e-12:
                        cli.blame("case %d: %s is not linear in the orbital" %
                                  (i, q), d, fl, cli.run(c.file_args() + fl, d))
                        break
            ck.seen((sym, i))
            ck.count("symmetry " + sym)
            ck.sample({"case": i, "symmetry": sym, "base": base, "related": got})
            done(d)

    ck.parallel(one, range(tier(150, 2000)))
    return ck.finish()


# ------------------------------------------------------------ C28

def c28():
    ck = Check("C28", "random selections, files and paths; non-trivial: every "
               "line of the report (version, six files, spins, orbital labels, "
               "five quantities with their units, warning) compared with what "
               "was asked for; distinct by selection and naming")
    b = Build("san")
    cli = Cli(ck, b)
    ver = project_version(b)

    def one(i):
        rng = ck.rng_for(i)
        cx = gauss.Complex(rng, cp=(i % 3 == 1), n1=rng.randrange(1, 4),
                           n2=rng.randrange(1, 4), plain=rng.random() < .5,
                           big=3 if i % 20 == 19 else False)
        warn = False
        if i % 5 == 0 and not cx.cp:
            pass
        for k in "P12":
            cx.names[k] = rng.choice(["", "d.1/", "a b/"]) + rng.choice(
                ["mol", "x.y", "dimer", "m-1", "log", "pun",
                 "long" * rng.randrange(5, 50)]) + k
            cx.pun_ext[k] = rng.choice([".pun", ".orb", ".7"])
        cx.pun_names = {k: rng.choice(["", "d.1/", "a b/", "./"]) + rng.choice(
            ["mol", "x", "orb.1"]) + k if rng.random() < .4 else cx.names[k]
            for k in "P12"}
        d = fresh(ck, i)
        if rng.random() < .15:   # a long way down
            deep = "/".join(["p" * rng.randrange(20, 120)] *
                            rng.randrange(3, 8)) + "/"
            for k in "P12":
                cx.names[k] = deep + os.path.basename(cx.names[k])
                cx.pun_names[k] = deep + os.path.basename(cx.pun_names[k])
            ck.count("long paths")
        for s in [os.path.dirname(x) for x in list(cx.names.values()) +
                  list(cx.pun_names.values())]:
            os.makedirs(os.path.join(d, s), exist_ok=True)
        if rng.random() < .2:
            cx.st[rng.choice("P12")].pop = False
            warn = True
        cx.write(d)
        for j in range(3):
            sel, flags = gauss.pick(rng, cx, force={
                "1": ("HOMO", "LUMO")[j % 2], "2": ("LUMO", "HOMO")[j % 2]}
                if i % 20 == 19 else None)
            args = cx.file_args() + flags
            o = cli.run(args, d)
            bad = []
            if not o.ok:
                bad.append("failed")
            lines = [x.strip() for x in o.out.splitlines() if x.strip()]
            rep = reported_files(o.out)
            for k in "P12":
                for kind, p in (("log", cx.names[k] + ".log"),
                                ("pun", cx.pun(k))):
                    if rep.get((kind, k)) != p:
                        bad.append("%s file of %s reported as %r" %
                                   (kind, k, rep.get((kind, k))))
            if not re.search(r"VERSION %s\b" % (ver or r"\d"), lines[0]
                             if lines else ""):
                bad.append("version")
            want = [["Dimer", "Spin", sel["spinP"]]]
            for k in "12":
                n = sel["num" + k]
                lab = sel["type" + k] + ("%+d" % n if n else "")
                want.append(["Monomer", k, "Spin", sel["spin" + k], "Orbital",
                             lab])
            words = [x.split() for x in lines]
            for w in want:
                if words.count(w) != 1:
                    bad.append("line %r" % " ".join(w))
            if gauss.parse_results(o.out) is None:
                bad.append("five quantities, each once, with their units")
            else:
                v, t = cx.reference(sel, not warn)
                bad += gauss.compare(gauss.parse_results(o.out), v, t)
                at = [n for n, x in enumerate(words) if x in want]
                r = [n for n, x in enumerate(lines) if gauss.RESULT.match(x)]
                if at and r and max(at) > min(r):
                    bad.append("the selection is reported after its results")
            if ("WARNING" in o.err) != warn:
                bad.append("warning about the order of the basis functions")
            if bad:
                cli.blame("case %d.%d: wrong in the report: %s" %
                          (i, j, "; ".join(bad)), d, args, o)
                break
            ck.seen((tuple(sorted(sel.items())), tuple(cx.names.values()), i))
            ck.count("reports compared")
            ck.sample({"report": lines[-8:]})
        done(d)

    ck.parallel(one, range(tier(200, 2500)))
    return ck.finish()


# ------------------------------------------------------------ C29

def c29():
    from concurrent.futures import ThreadPoolExecutor
    names = ["O0", "O3", "clangO2", "log3"] + tier([], ["san", "clangsan"])
    ck = Check("C29", "the same calculations made by builds of two compilers, "
               "three optimisation levels and the most detailed log level; "
               "non-trivial: the report of a build compared with the reference "
               "and the others; distinct by system and build")
    with ThreadPoolExecutor(len(names)) as ex:
        builds = dict(zip(names, ex.map(Build, names)))
    clis = {n: Cli(ck, x) for n, x in builds.items()}

    def one(i):
        rng = ck.rng_for(i)
        cx = gauss.Complex(rng, cp=(i % 3 == 1))
        sel, flags = gauss.pick(rng, cx)
        d = cx.write(fresh(ck, i))
        _, tol = cx.reference(sel)
        first = None
        for n in names:
            got = judge_value(ck, clis[n], cx, sel, flags, d,
                              "case %d with the build %s" % (i, n), warn=False)
            if got is None:
                break
            if first is None:
                first = got
            elif close(first, got, tol):
                clis[n].blame("case %d: build %s reports %s, others %s" %
                              (i, n, got, first), d, flags,
                              clis[n].run(cx.file_args() + flags, d))
                break
            ck.seen((i, n))
            ck.count("reports of " + n)
        # a refusal is one with every build
        bad = cx.file_args() + flags + rng.choice(
            [["--spin_P", "alpha"], ["--orbital_num_1", "9999"],
             ["--orbital_num_2", "-9999"], ["--orbital_num_1", "1x"],
             ["--pun_P", "nofile.pun", "--log_P", "nofile.log"], ["--what"]])
        for n in names:
            if not refused(ck, clis[n], bad, d, "case %d: build %s did not refuse" %
                           (i, n)):
                break
        ck.sample({"case": i, "reported": first})
        done(d)

    ck.parallel(one, range(tier(90, 1000)))
    return ck.finish()
