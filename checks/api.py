"""Checks whose monitors call the library directly (harness/*.cpp)."""
import os
import re

import gauss
from common import Build, BuildError, Check, clean_env, run, tier, JOBS, SEED


def drive(ck, exe, mode, total, chunk, timeout=300, env=None, extra=(), label=""):
    """Run the monitor over consecutive seeds, `chunk` scenarios each."""
    jobs = [(SEED * 1000003 + i) for i in range(max(1, total // chunk))]

    def one(seed):
        cmd = [exe, mode, str(seed), str(chunk)] + list(extra)
        d = os.path.join(ck.scratch, "%s%s%d" % (label, mode, seed))
        os.makedirs(d, exist_ok=True)
        # each scenario has an allowance of processor time of its own
        o = run(cmd, timeout=timeout, cwd=d, env=clean_env(env), cpu=0)
        done = False
        for line in o.out.splitlines():
            tag, _, rest = line.partition(" ")
            if tag == "K":
                ck.seen(rest, 0)
            elif tag == "S":
                name, _, n = rest.rpartition(" ")
                ck.count(name, int(n))
            elif tag == "E":
                with ck.lock:
                    ck.evaluations += int(rest)
            elif tag == "X":
                ck.sample(rest)
            elif tag == "FAIL":
                ck.violation("%s, seed %d: %s" % (mode, seed, rest),
                             files={"out.txt": o.out.encode(),
                                    "err.txt": o.err.encode()},
                             key=re.sub(r"[^a-z]+", "-", rest.lower())[:60],
                             detail="%s %s" % (" ".join(cmd), rest))
            elif tag == "DONE":
                done = True
        if not done and "FAIL" not in o.out:
            what = "did not end" if o.timeout else "ended with rc %s" % o.rc
            ck.violation("%s, seed %d: the monitored process %s\n%s" %
                         (mode, seed, what, o.err[-1500:] or o.out[-800:]),
                         files={"out.txt": o.out.encode(),
                                "err.txt": o.err.encode()},
                         detail=" ".join(cmd))
        if o.err and ("AddressSanitizer" in o.err or "runtime error" in o.err) \
                and done and "range" not in mode:
            ck.violation("%s, seed %d: memory error\n%s" %
                         (mode, seed, o.err[:1500]),
                         files={"err.txt": o.err.encode()},
                         detail=" ".join(cmd))
    ck.parallel(one, jobs)


def simple(pid, rule, harness, mode, quick, thorough, chunk, assumptions=(), **kw):
    ck = Check(pid, rule)
    exe = Build("san").harness(harness)
    drive(ck, exe, mode, tier(quick, thorough), chunk, **kw)
    if tier(0, 1):
        drive(ck, Build("clangsan").harness(harness), mode, thorough // 4,
              chunk, label="clang", **kw)
    ck.assumptions += list(assumptions)
    return ck.finish()


ASAN = ("AddressSanitizer and UndefinedBehaviorSanitizer watch every "
        "monitored execution")


def c16():
    return simple("C16", "an operation that copies, assigns, moves around or "
                  "changes matrices, by kind and dimensions of its operands, "
                  "after which all live matrices were compared to their models",
                  "matrix_ops", "value", 600, 20000, 25, [ASAN])


def c17():
    return simple("C17", "an operation that creates, reshapes, fills, reads "
                  "or prints a matrix, by kind and dimensions before and after",
                  "matrix_ops", "shape", 4000, 200000, 200, [ASAN])


def c18():
    return simple("C18", "a refused operation, by kind and dimensions of the "
                  "matrix, observed in a process of its own",
                  "matrix_ops", "range", 4000, 60000, 200, [ASAN])


def c19():
    return simple("C19", "a result of an algebraic operation compared to the "
                  "model, by kind and dimensions",
                  "matrix_ops", "algebra", 3000, 120000, 100, [ASAN])


def c20():
    return simple("C20", "a match, by direction, decimals, number of entries "
                  "and how many have a match", "matrix_ops", "match",
                  6000, 300000, 300,
                  [ASAN, "values closer than 8 percent of a unit to a "
                   "rounding boundary are not generated"])


def c21():
    return simple("C21", "a reordering compared element by element, by "
                  "permutation, split and basis functions; or a refused list",
                  "coupling", "order", 12000, 300000, 400, [ASAN])


def c22():
    return simple("C22", "a ranking, by the numbers of orbitals of each spin",
                  "coupling", "rank", 12000, 300000, 600, [ASAN])


def c30():
    return simple("C30", "a coupling compared to the formula, by basis "
                  "functions, atom order and orbitals; or a refused request",
                  "coupling", "transfer", 8000, 200000, 250,
                  [ASAN, "couplings whose denominator is below 0.05 are not "
                   "judged: rounding decides them"])


def c15():
    return simple("C15", "a value judged by a rule, by rule, limits and value",
                  "args", "props", 7000, 140000, 350, [ASAN])


def c24():
    return simple("C24", "a result of a text helper compared to the model, by "
                  "helper, text and argument", "strings", "text",
                  40000, 2000000, 2500, [ASAN])


def c26():
    return simple("C26", "a flag read back after parsing, by kind, rules, "
                  "default and value; or a refused command line, by problem",
                  "args", "parser", 8000, 160000, 400, [ASAN])


def c31():
    return simple("C31", "a setting changed or refused, after which all "
                  "settings were read back, by setting and value",
                  "args", "settings", 1200, 100000, 150, [ASAN])


def c32():
    return simple("C32", "a rule of an argument changed or refused, after "
                  "which all rules of all arguments were read back, by kind, "
                  "option and value", "args", "rules", 3000, 150000, 150, [ASAN])


def c33():
    ck = Check("C33", "the yield of one piece of work (a file read, a whole "
               "calculation, a parser, rules, matrices, reorderings, texts, "
               "shared matrices) done after others, interleaved with others or "
               "in threads beside others, compared to its yield alone in a "
               "process of its own; distinct by way, kind and yield")
    rng = ck.rng_for("systems")
    extra = []
    for i in range(tier(8, 24)):
        cx = gauss.Complex(rng, cp=i % 3 == 2, n1=rng.randrange(1, 4),
                           n2=rng.randrange(1, 4), maxb=4, plain=i % 2 == 0)
        d = cx.write(os.path.join(ck.scratch, "system %d" % i))
        extra += [d, "1" if cx.cp else "0", "1" if cx.unrestricted else "0"]
    variants = [("tsan", tier(160, 2500)), ("san", tier(80, 2500))]
    if tier(0, 1):
        variants.append(("clangtsan", 2500))
    for v, n in variants:
        exe = Build(v).harness("side", ["-pthread"])
        drive(ck, exe, "side", n, 5, extra=extra, label=v)
        ck.count("builds")
    ck.assumptions += ["ThreadSanitizer watches every execution of the threaded "
                       "build, " + ASAN + " of the other"]
    return ck.finish()


def c35():
    ck = Check("C35", "a message logged to a file and read back, by line, level, "
               "level compiled in and length; messages above the level must be "
               "absent, others complete and in order")
    b = Build("san")
    for level in (None, 0, 1, 2, 3, 8, -1):
        exe = b.harness("logmsg", [] if level is None
                        else ["-DLOG_LEVEL=%d" % level])
        drive(ck, exe, "text", tier(4000, 100000), 500,
              extra=[str(level or 0)], label="l%s" % level)
    ck.assumptions.append(ASAN)
    return ck.finish()


def c36():
    ck = Check("C36", "a step in the life of several readers (files that change, "
               "are cut or vanish, readings refused and repeated), after which "
               "all of them report what a new reader reports; or a file of a "
               "format of its own whose sections were compared; distinct by "
               "step and state of the readers, or by sections and refusal")
    rng = ck.rng_for("systems")
    files = []
    for i in range(tier(8, 40)):
        cx = gauss.Complex(rng, cp=i % 3 == 2, n1=rng.randrange(1, 4),
                           n2=rng.randrange(1, 4), maxb=4, plain=i % 2 == 0)
        d = cx.write(os.path.join(ck.scratch, "system %d" % i))
        for k in "P12":
            for n in (cx.names[k] + ".log", cx.pun(k)):
                # the name tells the contents apart
                s = os.path.join(ck.scratch, "%d%s%s" % (
                    i, k, os.path.splitext(n)[1]))
                os.rename(os.path.join(d, n), s)
                files.append(s)
    b = Build("san")
    drive(ck, b.harness("reread"), "history", tier(1600, 24000), 100,
          extra=files)
    try:
        own = b.harness("reformat")
    except BuildError:
        own = None
        ck.assumptions.append("the protected members of FileReader are not "
                              "those of the tree this was written for: "
                              "formats of their own were not observed")
    if own:
        drive(ck, own, "format", tier(16000, 400000), 2000)
    ck.assumptions.append(ASAN)
    return ck.finish()
