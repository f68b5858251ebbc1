"""C27: whatever it is given, the program ends without a memory error."""
import os
import re
import shutil
import subprocess

import gauss
from common import (Build, Check, SAN_EXIT, clean_env, run, run_confirm, tier,
                    JOBS, SEED)
from cli import Cli, fresh, done
from readers import Dumper

NUMBERS = ["0", "-1", "1", "nan", "-nan", "inf", "-inf", "1e999", "-1e-999",
           "2147483647", "-2147483648", "2147483648", "99999999999999999999",
           "0.1D+9999", "D+00", "0.1D", "0.1D+", "****", "1e308", "0x1p3", "",
           "1.7976931348623157D+308", "-.", "+", "1,5", "0.5D+99999999999"]
PIECES = [" *** Overlap ***", "     Gross orbital populations:",
          " Alpha  occ. eigenvalues --", "  Beta  occ. eigenvalues --",
          " Alpha virt. eigenvalues --   -0.1  0.2",
          "Center     Atomic      Atomic", "         Condensed to atoms",
          "    1 Alpha MO OE=-0.1D+01", "    1 Beta MO OE= 0.1D+01", " MO OE",
          "(5D15.8)", " " * 40, "-" * 70, "%s%n%x", "\t", "é±", "\x01\x7f"]


def damage(rng, data, other):
    """One to five damages of a file, from single characters to whole parts"""
    kinds = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        k = rng.choice(["truncate", "byte", "bytes", "line-", "line+", "swap",
                        "number", "number", "number", "piece", "splice", "crlf",
                        "blank", "shorten", "lengthen", "repeat", "mid-", "move",
                        "spaces", "join"])
        kinds.append(k)
        L = data.split(b"\n")
        if k == "truncate":
            data = data[:rng.randrange(len(data) + 1)]
        elif k == "byte" and data:
            i = rng.randrange(len(data))
            data = data[:i] + bytes([rng.randrange(256)]) + data[i + 1:]
        elif k == "bytes" and data:
            b = bytearray(data)
            for _ in range(rng.randrange(1, 40)):
                b[rng.randrange(len(b))] = rng.choice(
                    [0, 10, 32, 45, 46, 42, 48, 57, 68, 255, rng.randrange(256)])
            data = bytes(b)
        elif k == "number":
            at = [m.span() for m in re.finditer(rb"-?[0-9.]+(D[-+]?[0-9]+)?", data)]
            if at:
                a, b = rng.choice(at)
                data = data[:a] + rng.choice(NUMBERS).encode() + data[b:]
        elif k == "piece":
            L.insert(rng.randrange(len(L) + 1),
                     rng.choice(PIECES).encode("utf-8"))
            data = b"\n".join(L)
        elif k == "splice":
            o = rng.choice(other)
            i, j = sorted((rng.randrange(len(o) + 1), rng.randrange(len(o) + 1)))
            at = rng.randrange(len(data) + 1)
            data = data[:at] + o[i:j] + data[at:]
        elif k == "crlf":
            data = data.replace(b"\n", b"\r\n")
        elif k == "join":
            i = rng.randrange(len(L))
            L[i:i + 2] = [b"".join(L[i:i + 2])]
            data = b"\n".join(L)
        else:
            i = rng.randrange(len(L))
            if k == "line-":
                del L[i:i + rng.choice([1, 1, 2, 5, 30])]
            elif k == "line+":
                L[i:i] = L[i:i + 1] * rng.choice([1, 2, 40])
            elif k == "swap":
                j = rng.randrange(len(L))
                L[i], L[j] = L[j], L[i]
            elif k == "blank":
                L[i] = rng.choice([b"", b" ", b"          ", b"\0"])
            elif k == "shorten":
                L[i] = L[i][:rng.randrange(len(L[i]) + 1)]
            elif k == "lengthen":
                L[i] = L[i] + rng.choice([b" 1.0", b"9" * 500, b"x" * 5000,
                                          b" -0.12345" * rng.choice([300, 9000]),
                                          rng.choice([b" ", b"x", b"-", b"*", b"D"]) *
                                          rng.choice([255, 1023, 4095, 20100, 70000]),
                                          b" -1.0D+01 -1.0D+01", b"-0.1-0.2"])
            elif k == "repeat":
                L[i] = L[i] * rng.choice([2, 3, 200])
            elif k == "mid-":
                a = rng.randrange(len(L[i]) + 1)
                L[i] = L[i][:a] + L[i][a + rng.randrange(1, 8):]
            elif k == "move":
                L.insert(rng.randrange(len(L)), L.pop(i))
            elif k == "spaces":
                L[i] = b" ".join(L[i].split())
            data = b"\n".join(L)
    return data[:400000], tuple(sorted(set(kinds)))


def hostile(rng, cx, files):
    """An argument list nobody would write"""
    flags = ["--pun_P", "-p_P", "--log_1", "--log_P", "-l_2", "--pun_1", "--pun_2",
             "--log_2", "--spin_P", "-s_1", "--spin_2", "--orbital_type_1",
             "--orbital_type_2", "-orb_ty_1", "--orbital_num_1", "-orb_num_2",
             "--orbital_num_2", "-cp", "--counter_poise", "--citation", "-cite",
             "--help", "-h", "--version", "-v"]
    texts = ["", " ", "-", "--", "---", "=", "%s%n%s", "x" * 3000, "Alpha", "Beta",
             "HOMO", "LUMO", "ON", "OFF", "0", "1", "-1", "2147483647",
             "-2147483648", "-2147483647", "2147483646", "99999999999", "1e9",
             "nan", ".log", ".pun", "a.b.c", "/", "..", "./", "/dev/null", ".",
             "\u00e9.log", "\n", "a\tb", "dir.log", "\\", "//.pun", "x/.log",
             "empty.log", "empty.pun"] + files
    # lengths around those of buffers
    texts += [rng.choice(["", "-", "--", "a/", "./"]) +
              rng.choice("xA1./- ") * rng.choice([31, 63, 127, 254, 511, 1023, 4095]) +
              rng.choice(["", "y", "yz", ".log", ".pun"]) for _ in range(12)]
    if rng.random() < .5:
        a = cx.file_args() + gauss.pick(rng, cx)[1]
        for _ in range(rng.randrange(1, 5)):
            k = rng.randrange(5)
            i = rng.randrange(len(a))
            if k == 0:
                a[i] = rng.choice(texts + flags)
            elif k == 1:
                del a[i]
            elif k == 2:
                a.insert(i, rng.choice(texts + flags))
            elif k == 3:
                a[i] = a[i][:rng.randrange(len(a[i]) + 1)]
            elif k == 4:
                a[i:i] = a[i:i + 2] * rng.choice([1, 3])
            if not a:
                break
        return a
    return [rng.choice(flags if rng.random() < .6 else texts)
            for _ in range(rng.choice([0, 1, 2, 3, 5, 12, 40, 300]))]


def extreme(rng, cx):
    """Consistent files with an orbital number at the end of its range"""
    _, fl = gauss.pick(rng, cx)
    fl = list(fl)
    for i, x in enumerate(fl):
        if "num" in x and rng.random() < .8:
            fl[i + 1] = rng.choice(["2147483647", "-2147483648", "2147483646",
                                    "-2147483647", "1073741824"])
    return cx.file_args() + fl


def fuzz_readers(ck):
    """Coverage-guided: what the damages above do not reach by chance"""
    b = Build("fuzz")
    exe = b.harness("fuzz_readers", ["-fsanitize=fuzzer,address,undefined",
                                     "-Wl,--wrap=exit"])
    corpus = os.path.join(ck.scratch, "corpus")
    os.makedirs(corpus)
    for i in range(12):
        rng = ck.rng_for("corpus", i)
        cx = gauss.Complex(rng, n1=1, n2=1 + i % 2, maxb=4)
        d = cx.write(fresh(ck, "corp%d" % i))
        for f in os.listdir(d):
            data = open(os.path.join(d, f), "rb").read()
            with open(os.path.join(corpus, "%d%s" % (i, f)), "wb") as g:
                g.write((b"\1" if f.endswith(".pun") else b"\0") + data)
        done(d)
    dic = os.path.join(ck.scratch, "dict")
    with open(dic, "w") as f:
        for p in PIECES + NUMBERS + [" Alpha  occ. eigenvalues -- ",
                                     " Beta  occ. eigenvalues -- ", "D+01"]:
            if p and p.isascii() and p.isprintable():
                f.write('"%s"\n' % p.replace("\\", "\\\\").replace('"', '\\"'))

    def one(k):
        fd = os.path.join(ck.scratch, "fz%d" % k)
        mine = os.path.join(fd, "corpus")
        os.makedirs(mine)
        cmd = [exe, "-seed=%d" % (SEED * 100 + k), "-runs=%d" %
               tier(9000, 400000), "-dict=" + dic, "-max_len=20000",
               "-len_control=0", "-timeout=60", "-rss_limit_mb=0",
               "-detect_leaks=0", "-reload=0", "-print_final_stats=1",
               "-artifact_prefix=" + fd + "/", mine, corpus]
        env = clean_env({"FUZZ_DIR": fd})
        env["ASAN_OPTIONS"] += ":quarantine_size_mb=16"
        o = run(cmd, timeout=tier(240, 850), env=env, cwd=fd, cpu=0)
        n = re.search(r"number_of_executed_units: (\d+)", o.err)
        c = re.findall(r"cov: (\d+) ft: (\d+)", o.err)
        found = [x for x in os.listdir(fd) if x.startswith(("crash-", "oom-",
                                                            "timeout-"))]
        if "SUMMARY: libFuzzer: timeout" in o.err or \
                any(x.startswith("timeout-") for x in found):
            # confirm on a quiet process before blaming the code
            t = [x for x in found if x.startswith("timeout-")]
            if t and not run([exe, "-timeout=300", os.path.join(fd, t[0])],
                             timeout=400, env=env, cwd=fd,
                             cpu=0).rc:
                ck.count("slow inputs that end when run alone")
                found = []
        if o.rc != 0 and not o.timeout and found:
            ck.violation("coverage-guided reading, worker %d: %s" %
                         (k, o.err[-1800:]),
                         files={x: os.path.join(fd, x) for x in found})
        elif o.rc != 0 and not o.timeout:
            raise RuntimeError("the fuzzer did not work: " + o.err[-1500:])
        if n:
            ck.count("coverage-guided readings", int(n.group(1)))
            with ck.lock:
                ck.evaluations += int(n.group(1))
        for x in os.listdir(mine):
            ck.seen(("cov", x), 0)
        if c:
            with ck.lock:
                ck.counters["largest edge coverage of a worker"] = max(
                    ck.counters.get("largest edge coverage of a worker", 0),
                    int(c[-1][0]))
        done(fd)

    ck.parallel(one, range(JOBS))


def c27():
    ck = Check("C27", "a file damaged in one to five ways and read, a "
               "calculation with damaged files, a hostile argument list, or a "
               "coverage-guided reading, watched by the sanitizers; distinct "
               "by kinds of damage and outcome, or by new coverage")
    b = Build("san")
    cli = Cli(ck, b)
    dm = Dumper(ck, b)

    def pool_of(rng):
        cx = gauss.Complex(rng, cp=rng.random() < .3, n1=rng.randrange(1, 4),
                           n2=rng.randrange(1, 3), maxb=rng.choice([2, 6]))
        for k in "12P":
            cx.pun_ext[k] = rng.choice([".pun", ".pun", ".orb", ".7"])
        return cx

    def read(i):
        """damaged files through the readers"""
        rng = ck.rng_for("read", i)
        cx = pool_of(rng)
        d = cx.write(fresh(ck, "r%d" % i))
        src = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
        jobs = []
        for j in range(40):
            f = rng.choice(sorted(src))
            data, kinds = damage(rng, src[f], list(src.values()))
            pun = not f.endswith(".log")
            if rng.random() < .03:     # contents of the other kind
                data = src[rng.choice(sorted(src))]
            if rng.random() < .03:
                data = bytes(rng.randrange(256) for _ in range(rng.randrange(400)))
            p = os.path.join(d, "x%d%s" % (j, ".pun" if pun else ".log"))
            with open(p, "wb") as g:
                g.write(data)
            jobs.append(("pun" if pun else "log", p, kinds))
        res = dm.read([x[:2] for x in jobs], timeout=900)
        for n, x in enumerate(jobs):
            r = res[n] if n < len(res) else None
            st = r["status"] if r else None
            if st is None or st == ("exit", SAN_EXIT) or \
                    st[0] == "signal" and st[1] != 6:
                one = dm.read([x[:2]], timeout=600)
                st = one[0]["status"] if one else None
                if st not in (("exit", 0), ("exit", 3), ("exit", 1),
                              ("signal", 6)):
                    ck.violation("reading %d.%d, damaged by %s: %s %s" %
                                 (i, n, x[2], st, (one or [{"err": ""}])[0]["err"]),
                                 files={os.path.basename(x[1]): x[1]})
                    break
            ck.count("damaged files " + ("read" if st == ("exit", 0)
                                         else "refused"))
            ck.seen(("read", x[0], x[2], st))
        done(d)

    def program(i):
        """whole calculations: damaged files, hostile arguments"""
        rng = ck.rng_for("program", i)
        cx = pool_of(rng)
        if i % 7 == 0:
            cx.m["P"].S = cx.m["P"].S
        d = cx.write(fresh(ck, "p%d" % i))
        src = {f: open(os.path.join(d, f), "rb").read()
               for f in sorted(os.listdir(d))}
        os.makedirs(os.path.join(d, "dir.log"))
        for f in ("empty.log", "empty.pun"):
            open(os.path.join(d, f), "w").close()
        for j in range(8):
            if j < 5:
                for f in src:
                    with open(os.path.join(d, f), "wb") as g:
                        g.write(src[f])
                _, fl = gauss.pick(rng, cx)
                kinds = ()
                for f in rng.sample(sorted(src), rng.choice([1, 1, 2, 6])):
                    data, k = damage(rng, src[f], list(src.values()))
                    kinds += k
                    with open(os.path.join(d, f), "wb") as g:
                        g.write(data)
                args = cx.file_args() + list(fl)
                key = ("files", tuple(sorted(set(kinds))))
            elif j < 7:
                args = hostile(rng, cx, sorted(src))
                key = ("arguments", len(args),
                       tuple(sorted(set(x for x in args if x[:1] == "-"))))
            else:
                for f in src:
                    with open(os.path.join(d, f), "wb") as g:
                        g.write(src[f])
                args = extreme(rng, cx)
                key = ("extremes", tuple(args[12:]))
            args = [x.replace("\0", "") for x in args]
            o = cli.run(args, d, timeout=20)
            if o.timeout or o.memory_error or o.sig not in (0, 6):
                cli.blame("program %d.%d (%s): %s" %
                          (i, j, key, "does not end" if o.timeout
                           else "memory error"), d, args, o)
                break
            ck.count("executions %s" % ("completed" if o.rc == 0 else "refused"))
            ck.seen(key + (o.rc,))
            if j == 5:
                ck.sample({"arguments": [x[:40] for x in args[:12]], "rc": o.rc})
        done(d)

    def watched(i):
        """the same, watched for the use of undefined values"""
        rng = ck.rng_for("vg", i)
        cx = pool_of(rng)
        d = cx.write(fresh(ck, "v%d" % i))
        _, fl = gauss.pick(rng, cx)
        args = cx.file_args() + list(fl)
        kinds = ()
        if i % 3 == 2:
            args = [x for x in hostile(rng, cx, sorted(os.listdir(d)))
                    if "\0" not in x]
        else:
            f = rng.choice(sorted(os.listdir(d)))
            p = os.path.join(d, f)
            data = open(p, "rb").read()
            data, kinds = damage(rng, data, [data])
            with open(p, "wb") as g:
                g.write(data)
        o = run_confirm(["valgrind", "-q", "--error-exitcode=98", vg.calc] + args,
                        cwd=d, timeout=40)
        if o.timeout or o.rc == 98 or o.sig not in (0, 6) or \
                re.search(r"==\d+== (Conditional|Use of uninit|Invalid)", o.err):
            cli.blame("watched %d (%s): valgrind found an error" % (i, kinds), d,
                      args, o)
        ck.count("executions watched for undefined values")
        ck.seen(("vg", kinds, o.rc))
        done(d)

    ck.parallel(read, range(tier(60, 1500)))
    ck.parallel(program, range(tier(150, 2500)))
    vg = Build("plain")
    ck.parallel(watched, range(tier(32, 400)))
    if not ck.viol:
        fuzz_readers(ck)
    ck.assumptions.append("orderly refusals are exceptions and error exits; "
                          "leaks are not judged here")
    return ck.finish()
