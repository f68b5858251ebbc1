"""Gaussian-style input files for calc_J and an independent reference model.

Every number is turned into its file text first and the reference computes with
the value of that text, so rounding in the files never blurs a comparison."""
import os
import re

import numpy as np

EV = 27.2114
NUMBERS = {"H": 1, "B": 5, "C": 6, "N": 7, "O": 8, "F": 9, "Si": 14, "P": 15,
           "S": 16, "Cl": 17, "Zn": 30, "Br": 35}
ELEMENTS = ["H", "C", "N", "O", "S", "F", "Cl", "Si", "Br", "P", "Zn", "B"]


def dfmt(x, width, digits):
    """Fortran Dw.d, e.g. -0.10200230D+02"""
    if x == 0:
        m, e = "0" * digits, 0
        s = "0." + m + "D+00"
        return s.rjust(width)
    t = "%.*e" % (digits - 1, abs(x))
    mant, exp = t.split("e")
    e = int(exp) + 1
    s = "0." + mant.replace(".", "")
    # the letter makes room for a third digit of the exponent
    s += "D%+03d" % e if abs(e) < 100 else "%+04d" % e
    if x < 0:
        s = "-" + s
    return s.rjust(width)


def dval(s):
    return float(re.sub(r"(\d)([-+])", r"\1E\2", s.strip().replace("D", "E")))


def dround(x, digits):
    return dval(dfmt(x, 0, digits))


class Mol:
    """One calculation: atoms, basis functions, orbitals of one or two spins."""

    def __init__(self, elements, coords, basis):
        self.elements = list(elements)
        self.coords = [tuple(c) for c in coords]   # texts with 6 decimals
        self.basis = list(basis)
        self.coef = {}     # spin -> (NMO, NB)
        self.oe = {}       # spin -> energies of the log (5 decimals)
        self.nocc = {}
        self.S = None
        self.oetext = {}
        self.pops = []     # populations as written

    @property
    def nb(self):
        return sum(self.basis)

    def spins(self):
        return [s for s in ("Alpha", "Beta") if s in self.coef]

    def slices(self):
        out, k = [], 0
        for n in self.basis:
            out.append(range(k, k + n))
            k += n
        return out


def rand_coords(rng, n, used, neg_zero=True):
    """Distinct positions on a grid of 1e-4 with sub-grid jitter"""
    out = []
    while len(out) < n:
        span = rng.choice([3, 12, 150])
        g = tuple(rng.randrange(-span * 10000, span * 10000) for _ in range(3))
        if rng.random() < 0.25:
            g = (0, g[1], g[2])
        if rng.random() < 0.2:
            g = (g[0], 0, g[2])
        if g in used:
            continue
        # sometimes a near neighbour that differs in the last matched decimal
        used.add(g)
        out.append(g)
    return out


def grid_text(rng, g, jitter):
    out = []
    for k in g:
        v = k * 100
        if jitter:
            v += rng.randrange(-40, 41)
        if v == 0:
            s = "-0.000000" if jitter and rng.random() < 0.5 else "0.000000"
        else:
            s = "%s%d.%06d" % ("-" if v < 0 else "", abs(v) // 1000000,
                               abs(v) % 1000000)
        out.append(s)
    return tuple(out)


def orbital_shells(n):
    """Names of n basis functions of one atom, as Gaussian prints them"""
    names, shell, k = [], 1, 0
    while len(names) < n:
        names.append("%dS" % shell)
        shell += 1
        if len(names) < n and shell > 2:
            for p in ("PX", "PY", "PZ"):
                if len(names) < n:
                    names.append("%d%s" % (shell, p))
            shell += 1
        if len(names) < n and shell > 6:
            for d in ("D 0", "D+1", "D-1", "D+2", "D-2"):
                if len(names) < n:
                    names.append("%d%s" % (shell, d))
            shell += 1
        if len(names) < n and shell > 9:
            for d in ("XX", "YY", "ZZ", "XY", "XZ", "YZ"):
                if len(names) < n:
                    names.append("%d%s" % (shell, d))
            shell += 1
    return names


# ---------------------------------------------------------------- writers

NOISE = [
    " Entering Gaussian System, Link 0=g09",
    " This is part of the Gaussian(R) 09 program.",
    " SCF Done:  E(RB3LYP) =  -78.5938074561     A.U. after   10 cycles",
    " Leave Link  401 at Mon Jan  1 00:00:00 2018, MaxMem=  33554432 cpu: 1.0",
    " Harris functional with IExCor=  205 diagonalized for initial guess.",
    "    28 basis functions,    52 primitive gaussians,    28 cartesian basis functions",
    " The electronic state is 1-A.",
    " ",
    "",
    " Rotational constants (GHZ):    147.1     30.1     25.0",
    "     Population analysis using the SCF density.",
    " Orbital symmetries:",
    "       Occupied  (A) (A) (A) (A) (A)",
    " Center     Atomic                   Forces (Hartrees/Bohr)",
    " Mulliken atomic charges:",
    " *** Kinetic Energy ***",
    " Sum of Mulliken atomic charges =   0.00000",
]


def noise(rng, n):
    return [rng.choice(NOISE) for _ in range(rng.randrange(n + 1))]


def coord_section(rng, mol, coords=None, head=None):
    coords = coords if coords is not None else mol.coords
    head = head or rng.choice([
        " Center     Atomic      Atomic             Coordinates (Angstroms)",
        " Center     Atomic     Atomic              Coordinates (Angstroms)"])
    bar = " " + "-" * 69
    out = ["                         %s orientation:                          "
           % rng.choice(["Standard", "Input", "Z-Matrix"]), bar, head,
           " Number     Number       Type             X           Y           Z",
           bar]
    # centres without a nucleus are written as numbers 0 or -1
    ghosts = rng.random() < .3
    kind = rng.choice([0, 0, 1000])
    for i, (el, c) in enumerate(zip(mol.elements, coords), 1):
        z = NUMBERS[el]
        if ghosts and rng.random() < .5:
            z = rng.choice([0, 0, -1])
        out.append("%7d %10d %11d     %11s %11s %11s" %
                   (i, z, kind, c[0], c[1], c[2]))
    out.append(bar)
    return out


def overlap_section(S, after=" *** Kinetic Energy ***"):
    n = S.shape[0]
    out = [" *** Overlap *** "]
    for b in range(0, n, 5):
        cols = range(b, min(b + 5, n))
        out.append("%7s" % "" + "".join("%14d" % (c + 1) for c in cols))
        for r in range(b, n):
            out.append("%7d" % (r + 1) +
                       "".join(dfmt(S[r, c], 14, 6) for c in cols if c <= r))
    out.append(after)
    return out


def energy_lines(spin, texts, nocc):
    """texts: the F10.5 fields, already ten characters wide or wider"""
    out = []
    lead = " Alpha " if spin == "Alpha" else "  Beta "
    for kind, lab, part in (("occ", " occ. eigenvalues -- ", texts[:nocc]),
                            ("virt", "virt. eigenvalues -- ", texts[nocc:])):
        for k in range(0, len(part), 5):
            out.append(lead + lab + "".join(part[k:k + 5]))
    return out


def efield(e):
    s = "%.5f" % e
    if len(s) > 10:
        return "*" * 10
    return s.rjust(10)


def pop_section(rng, mol, unrestricted=False, end=True, counts=None,
                els=None):
    out = ["     Gross orbital populations:"]
    if unrestricted:
        out.append("                          Total     Alpha     Beta      Spin")
    else:
        out.append("                           1")
    k = 0
    mol.pops = []
    counts = counts or mol.basis
    els = els or (list(mol.elements) +
                  ["H"] * (len(counts) - len(mol.elements)))
    for a, (el, nb) in enumerate(zip(els, counts), 1):
        mol.pops.append({})
        for j, name in enumerate(orbital_shells(nb)):
            k += 1
            vals = ["%.5f" % rng.uniform(0, 1.99)
                    for _ in range(4 if unrestricted else 1)]
            if unrestricted and rng.random() < .3:
                vals[3] = "-" + vals[3]
            mol.pops[-1][name] = [float(v) for v in vals]
            if j == 0:
                head = "%4d %-3d %-2s " % (k, a, el)
            else:
                head = "%4d        " % k
            out.append(head.ljust(12) + "%-7s" % name +
                       "".join(v.rjust(10) for v in vals))
    if end:
        out.append("          Condensed to atoms (all electrons):")
        for a, el in enumerate(mol.elements[:3], 1):
            out.append("%6d  %-2s  %9.6f" % (a, el, rng.uniform(0, 6)))
    return out


class Style:
    """How a calculation's files are laid out (every choice is legitimate)."""

    def __init__(self, rng, plain=False):
        self.geoms = 1 if plain else rng.choice([1, 1, 2, 3])
        self.esecs = 1 if plain else rng.choice([1, 1, 2, 3])
        self.ssecs = 1 if plain else rng.choice([1, 1, 1, 2])
        self.psecs = 1 if plain else rng.choice([1, 1, 1, 2])
        # an earlier job in the same file that had another basis set
        self.rebased = 0 if plain else rng.choice([0, 0, -2, -1, 1, 3])
        self.end = "\n" if plain else line_end(rng)
        self.pop = True
        self.overlap = True
        self.noise = 0 if plain else rng.choice([0, 2, 8])
        self.order = 0 if plain else rng.choice([0, 0, 1])
        self.pun_sep = 0 if plain else rng.choice([0, 1])
        self.pun_tail = 0 if plain else rng.choice([0, 0, 1, 2, 3, 4])
        self.spin_pop = False if plain else rng.random() < 0.5
        self.final_newline = True
        self.jitter = 0


def log_lines(rng, mol, st):
    """[(section, line)] so that damage can be aimed at a section"""
    out = []

    def put(tag, lines):
        out.extend((tag, x) for x in lines)

    put("head", [" Entering Gaussian System, Link 0=g09"] + noise(rng, st.noise))
    for g in range(st.geoms):
        if g + 1 < st.geoms:   # an earlier, different geometry
            cs = [tuple("%.6f" % (float(v) + 1.5 + g) for v in c)
                  for c in mol.coords]
            if rng.random() < .3:
                cs = list(reversed(cs))
        else:
            cs = mol.coords
        put("coord", coord_section(rng, mol, cs))
        put("noise", noise(rng, st.noise))
    ov = []
    if st.overlap and mol.S is not None:
        for k in range(st.ssecs):
            if k + 1 < st.ssecs:
                other = np.round(mol.S * 0.7 + 0.01, 6)
                if st.rebased:   # of another basis set
                    n = max(1, mol.S.shape[0] + st.rebased)
                    other = np.resize(other, (n, n))
                ov += [("overlap", x) for x in overlap_section(other)]
            else:
                ov += [("overlap", x) for x in overlap_section(mol.S)]
            ov += [("noise", x) for x in noise(rng, st.noise)]
    en = []
    for k in range(st.esecs):
        for spin in mol.spins():
            texts = mol.oetext[spin]
            nocc = mol.nocc[spin]
            if k + 1 < st.esecs:  # an earlier, different set
                texts = [efield(float(t) * .9 - .3) if "*" not in t else t
                         for t in texts]
                if st.rebased:   # of another basis set
                    texts = (texts * 3)[:max(1, len(texts) + st.rebased)]
                nocc = max(min(1, nocc),
                           min(len(texts), nocc + rng.choice([-1, 0, 1])))
            en += [("energy", x) for x in energy_lines(spin, texts, nocc)]
        en += [("noise", x) for x in
               (noise(rng, st.noise) or ([" "] if k + 1 < st.esecs else []))]
    pop = []
    for k in range(st.psecs if st.pop else 0):   # the last section counts
        counts = getattr(mol, "pop_counts", None)
        els = None
        if k + 1 < st.psecs and st.rebased:   # of another basis set
            counts = [max(1, b + rng.choice([0, st.rebased, -st.rebased]))
                      for b in counts or mol.basis]
            if rng.random() < .3:    # or of another molecule
                els = [rng.choice(["C", "H", "S", "Cl"]) for _ in counts]
                counts = (counts * 2)[:max(1, len(counts) + st.rebased)]
                els = (els * 2)[:len(counts)]
        pop += [("pop", x) for x in
                pop_section(rng, mol, st.spin_pop, counts=counts, els=els)]
        pop += [("noise", x) for x in noise(rng, st.noise)]
    if st.order == 0:
        out += ov + en + pop
    else:
        out += en + ov + pop
    put("tail", [" Normal termination of Gaussian 09 at Mon Jan  1 00:00:00 2018."])
    return out


def pun_lines(mol, st):
    out = [("head", "(5D15.8)")]
    spins = mol.spins()
    for si, spin in enumerate(spins):
        if si and st.pun_sep:
            out.append(("sep", "(5D15.8)"))
        C = mol.coef[spin]
        for m in range(C.shape[0]):
            e = mol.oe[spin][m] if m < len(mol.oe[spin]) else 0.0
            if e != e:
                e = -1234.5
            out.append(("mo", "%5d %s MO OE=%s" % (m + 1, spin, dfmt(e, 15, 8))))
            row = C[m]
            for k in range(0, len(row), 5):
                out.append(("coef", "".join(dfmt(v, 15, 8)
                                            for v in row[k:k + 5])))
    if st.pun_tail == 1:
        out.append(("tail", "    0"))
    elif st.pun_tail == 2:
        out.append(("tail", ""))
    elif st.pun_tail in (3, 4) and C.shape[0] > 1:
        # other blocks that are punched after the orbitals; how many numbers
        # an only orbital has cannot be told from them
        n = max(C.shape[1], 3)
        vals = [((-1) ** i) * (0.37 + 0.011 * i) for i in range(n)]
        per, w, d = (3, 20, 8) if st.pun_tail == 3 else (5, 15, 8)
        for k in range(0, n, per):
            out.append(("tail", "".join(dfmt(v, w, d)
                                        for v in vals[k:k + per])))
    return out


def line_end(rng):
    """The ends of lines: other systems end them differently, some programs
    leave blanks there"""
    return rng.choice(["\n"] * 14 + ["\r\n", " \n"])


def write_lines(path, lines, final_newline=True, end="\n"):
    t = end.join(x[1] if isinstance(x, tuple) else x for x in lines)
    with open(path, "w", newline="") as f:
        f.write(t + (end if final_newline else ""))


# ---------------------------------------------------------------- systems

def set_energies(rng, mol, spin, nmo, core=None):
    core = core if core is not None else rng.choice([-2, -20, -110, -400])
    es = sorted([rng.uniform(core, -0.2) for _ in range(max(1, nmo // 3))] +
                [rng.uniform(-1.2, 3.0) for _ in range(nmo)])[:nmo]
    if rng.random() < .25:     # glued numbers: runs of wide negative values
        k = rng.randrange(1, nmo + 1)
        es[:k] = sorted(rng.uniform(-999, -100) for _ in range(k))
        es.sort()
    if rng.random() < .2:      # virtual orbitals of tight functions
        k = rng.randrange(1, nmo // 2 + 2)
        es[-k:] = [rng.choice([rng.uniform(90, 999), rng.uniform(5, 9000)])
                   for _ in es[-k:]]
        es.sort()
    if rng.random() < .1:      # orbitals that were not ordered by energy
        rng.shuffle(es)
    texts = [efield(e) for e in es]
    mol.oetext[spin] = texts
    mol.oe[spin] = np.array([float(t) for t in texts])


def overflow(rng, mol):
    """Deep core levels do not fit their columns, asterisks stand for them"""
    for spin, texts in mol.oetext.items():
        n = rng.randrange(0, min(mol.nocc[spin], 7) + 1)
        texts[:n] = ["*" * 10] * n
        mol.oe[spin][:n] = np.nan


def set_orbitals(rng, nrng, mol, nmo, unrestricted, S=None, physical=False):
    nb = mol.nb
    mol.oetext = {}
    for spin in ("Alpha", "Beta") if unrestricted else ("Alpha",):
        if physical and S is not None and nmo <= nb:
            w, V = np.linalg.eigh(S)
            X = V @ np.diag(1 / np.sqrt(np.maximum(w, 1e-3))) @ V.T
            Q, _ = np.linalg.qr(nrng.standard_normal((nb, nb)))
            C = (Q @ X)[:nmo]
        else:
            C = nrng.standard_normal((nmo, nb)) * 10 ** nrng.uniform(
                -2, .3, (nmo, nb))
        C = np.where(nrng.random(C.shape) < .03, 0.0, C)
        mol.coef[spin] = np.array([[dround(v, 8) for v in row] for row in C])
        set_energies(rng, mol, spin, nmo)
        mol.nocc[spin] = rng.randrange(1, nmo) if nmo > 1 else 1
        if spin == "Beta" and rng.random() < .1:   # a hydrogen atom
            mol.nocc[spin] = 0


def rand_overlap(rng, nrng, nb, physical):
    A = nrng.standard_normal((nb, max(nb, 2) + 3))
    A /= np.linalg.norm(A, axis=1)[:, None]
    S = A @ A.T
    k = rng.choice([.15, .4, .8]) if physical else 1.0
    S = np.eye(nb) * (1 - k) + S * k
    if not physical and rng.random() < .5:
        S = S + np.diag(nrng.uniform(-.2, .4, nb))
    S = np.tril(S)
    out = np.zeros((nb, nb))
    for i in range(nb):
        for j in range(i + 1):
            out[i, j] = out[j, i] = dround(S[i, j], 6)
    return out


class Complex:
    """A dimer and its two monomers, as three Gaussian calculations."""

    def __init__(self, rng, cp=False, n1=None, n2=None, unrestricted=None,
                 shuffle=True, big=False, maxb=6, plain=False, basis=None):
        nrng = np.random.default_rng(rng.getrandbits(60))
        self.rng, self.cp = rng, cp
        n1 = n1 or rng.choice([1, 1, 2, 3, 4, 5])
        n2 = n2 or rng.choice([1, 2, 3, 3, 4])
        if big:
            n1, n2 = rng.randrange(5, 9), rng.randrange(5, 9)
        if big == 2:      # counts beyond a hundred atoms or 256 functions
            n1, n2 = rng.randrange(50, 70), rng.randrange(50, 70)
            maxb = 4
        if big == 3:
            n1, n2 = rng.randrange(9, 15), rng.randrange(9, 15)
            maxb = 24
        N = n1 + n2
        els = [rng.choice(ELEMENTS) for _ in range(N)]
        grid = rand_coords(rng, N, set())
        if N > 1 and rng.random() < .4:  # atoms that nearly coincide
            i, j = rng.sample(range(N), 2)
            g = (grid[i][0], grid[i][1], grid[i][2] + rng.choice([1, -1, 2]))
            if g not in grid:
                grid[j] = g
        if N > 2 and rng.random() < .4:  # same x and y, other z
            i, j = rng.sample(range(N), 2)
            g = (grid[i][0], grid[j][1], grid[j][2])
            if g not in grid:
                grid[j] = g
        each = basis
        basis = [rng.randrange(1, maxb + 1) for _ in range(N)]
        if rng.random() < .3:
            basis = [rng.randrange(1, 4)] * N
        if rng.random() < .2:
            basis[rng.randrange(N)] = rng.randrange(9, 18)
        if each:
            basis = [each] * N
        jit = rng.random() < .5
        unr = unrestricted if unrestricted is not None else rng.random() < .5
        self.unrestricted = unr
        phys = rng.random() < .5

        def mol(ids):
            return Mol([els[i] for i in ids],
                       [grid_text(rng, grid[i], jit) for i in ids],
                       [basis[i] for i in ids])

        ids1, ids2 = list(range(n1)), list(range(n1, N))
        idsP = list(range(N))
        if cp:
            ids1, ids2 = list(range(N)), list(range(N))
            if shuffle:
                rng.shuffle(ids1)
                rng.shuffle(ids2)
                rng.shuffle(idsP)
        elif shuffle:
            rng.shuffle(ids1)
            rng.shuffle(ids2)
            rng.shuffle(idsP)
            if rng.random() < .15:   # the second monomer comes first
                idsP = ids2 + ids1
        if not shuffle and cp:
            pass
        self.ids = {"1": ids1, "2": ids2, "P": idsP}
        self.m = {k: mol(v) for k, v in self.ids.items()}
        for k in "12P":
            nb = self.m[k].nb
            nmo = nb if rng.random() < .8 else max(1, nb - rng.randrange(3))
            S = None
            if k == "P":
                S = rand_overlap(rng, nrng, nb, phys)
                self.m[k].S = S
            elif rng.random() < .3:  # monomer logs may hold an overlap as well
                self.m[k].S = rand_overlap(rng, nrng, nb, phys)
            set_orbitals(rng, nrng, self.m[k], nmo, unr, S, phys)
            if k != "P" and rng.random() < .12:
                overflow(rng, self.m[k])
            if k != "P" and rng.random() < .7:
                # keep monomer orbitals small so that S_ab stays away from 1
                for s in self.m[k].coef:
                    C = self.m[k].coef[s]
                    C = C / max(1.0, np.sqrt(nb))
                    self.m[k].coef[s] = np.array(
                        [[dround(v, 8) for v in row] for row in C])
        self.st = {k: Style(rng, plain) for k in "12P"}
        self.names = {"1": "mon1", "2": "mon2", "P": "dimer"}
        self.pun_ext = {"1": ".pun", "2": ".pun", "P": ".pun"}

    # -- files
    def write(self, d):
        os.makedirs(d, exist_ok=True)
        for k in "12P":
            write_lines(os.path.join(d, self.names[k] + ".log"),
                        log_lines(self.rng, self.m[k], self.st[k]),
                        self.st[k].final_newline, self.st[k].end)
            write_lines(os.path.join(d, self.pun(k)),
                        pun_lines(self.m[k], self.st[k]),
                        self.st[k].final_newline, self.st[k].end)
        return d

    def pun(self, k):
        return getattr(self, "pun_names", self.names)[k] + self.pun_ext[k]

    def file_args(self, d=""):
        out = []
        for k in "P12":
            out += ["--pun_" + k, os.path.join(d, self.pun(k)),
                    "--log_" + k, os.path.join(d, self.names[k] + ".log")]
        return out

    # -- reference
    def positions(self):
        """AO order that the dimer's columns have to be brought into"""
        p = {a: i for i, a in enumerate(self.ids["P"])}
        sl = self.m["P"].slices()
        want = self.ids["1"] if self.cp else self.ids["1"] + self.ids["2"]
        return [c for a in want for c in sl[p[a]]]

    def reference(self, sel, reorder=True):
        """sel: spinP, spin1, spin2, row1, row2 (rows from zero)"""
        P = self.m["P"]
        CP = P.coef[sel["spinP"]]
        S = P.S
        E = P.oe[sel["spinP"]]
        c1 = self.m["1"].coef[sel["spin1"]][sel["row1"]]
        c2 = self.m["2"].coef[sel["spin2"]][sel["row2"]]
        if reorder:
            pos = self.positions()
            CP = CP[:, pos]
            S = S[np.ix_(pos, pos)]
            if self.cp:
                q = {a: i for i, a in enumerate(self.ids["2"])}
                sl = self.m["2"].slices()
                c2 = c2[[c for a in self.ids["1"] for c in sl[q[a]]]]
        if self.cp:
            z1, z2 = c1, c2
        else:
            z1 = np.concatenate([c1, np.zeros(len(c2))])
            z2 = np.concatenate([np.zeros(len(c1)), c2])
        return reference(z1, z2, CP, S, E)


def reference(z1, z2, CP, S, E):
    T = S @ CP.T
    g1, g2 = z1 @ T, z2 @ T
    aT = np.abs(S) @ np.abs(CP.T)
    a1, a2 = np.abs(z1) @ aT, np.abs(z2) @ aT
    aE = np.abs(E)
    v, t = {}, {}
    v["J_ab"] = float(np.sum(g2 * E * g1))
    v["e_a"] = float(np.sum(g1 * E * g1))
    v["e_b"] = float(np.sum(g2 * E * g2))
    v["S_ab"] = float(np.sum(g2 * g1))
    k = 1e-12
    t["J_ab"] = k * float(np.sum(a2 * aE * a1))
    t["e_a"] = k * float(np.sum(a1 * aE * a1))
    t["e_b"] = k * float(np.sum(a2 * aE * a2))
    t["S_ab"] = k * float(np.sum(a2 * a1))
    den = 1 - v["S_ab"] ** 2
    num = v["J_ab"] - .5 * (v["e_a"] + v["e_b"]) * v["S_ab"]
    v["J_eff"] = num / den if den else float("nan")
    s = abs(v["S_ab"])
    tn = t["J_ab"] + .5 * ((t["e_a"] + t["e_b"]) * s +
                           (abs(v["e_a"]) + abs(v["e_b"])) * t["S_ab"]) \
        + 1e-15 * (abs(v["J_ab"]) + .5 * abs(v["e_a"] + v["e_b"]) * s)
    td = 2 * s * t["S_ab"] + 1e-15
    t["J_eff"] = (tn / abs(den) + abs(num) * td / den ** 2) if den else 1e300
    for q in ("J_ab", "e_a", "e_b", "J_eff"):
        v[q] *= EV
        t[q] *= EV
    return v, t


RESULT = re.compile(r"^(J_ab|e_a|e_b|S_ab|J_eff)\s+(\S+)(\s+eV)?\s*$")


def parse_results(out):
    """The reported quantities; None unless each is reported exactly once"""
    got = {}
    for line in out.splitlines():
        m = RESULT.match(line)
        if m:
            if m.group(1) in got:
                return None
            try:
                got[m.group(1)] = float(m.group(2))
            except ValueError:
                return None
            if (m.group(3) is not None) != (m.group(1) != "S_ab"):
                return None
    return got if len(got) == 5 else None


def any_number(out):
    """Does the output report any result at all?"""
    return any(RESULT.match(x) for x in out.splitlines())


def compare(got, v, t):
    """List of disagreements between reported and reference quantities"""
    bad = []
    for q in ("J_ab", "e_a", "e_b", "S_ab", "J_eff"):
        tol = t[q] * 10 + 6e-6 * abs(v[q]) + 1e-13
        if not abs(got[q] - v[q]) <= tol:
            bad.append("%s reported %.9g, reference %.9g (allowed %.2g)" %
                       (q, got[q], v[q], tol))
    return bad


def pick(rng, cx, spins=None, force=None):
    """A selection of spins and orbitals with the flags that ask for it"""
    sel, flags = {}, []
    S = ("Alpha", "Beta") if cx.unrestricted else ("Alpha",)
    for k in "P12":
        s = (spins or {}).get(k) or rng.choice(S)
        sel["spin" + k] = s
        if s != "Alpha" or rng.random() < .5:
            flags.append(["--spin_" + k, s])
    for k in "12":
        mol = cx.m[k]
        s = sel["spin" + k]
        nocc, nmo = mol.nocc[s], mol.coef[s].shape[0]
        kinds = (["HOMO"] if nocc else []) + (["LUMO"] if nmo > nocc else [])
        kind = (force or {}).get(k)
        if kind not in kinds:
            kind = rng.choice(kinds)
        if kind == "HOMO":
            n = -rng.choice([0, rng.randrange(nocc), nocc - 1])
            sel["row" + k] = nocc - 1 + n
        else:
            nv = nmo - nocc
            n = rng.choice([0, rng.randrange(nv), nv - 1])
            sel["row" + k] = nocc + n
        sel["type" + k], sel["num" + k] = kind, n
        if kind != "HOMO" or rng.random() < .5:
            flags.append(["--orbital_type_" + k, kind])
        if n != 0 or rng.random() < .5:
            flags.append(["--orbital_num_" + k, str(n)])
    if cx.cp:
        flags.append(rng.choice([["--counter_poise"], ["-cp"],
                                 ["--counter_poise", "ON"]]))
    rng.shuffle(flags)
    return sel, [x for f in flags for x in f]
