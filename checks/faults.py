"""Checks that observe calc_J while the system around it misbehaves."""
import os
import resource
import signal
import struct
import subprocess

import gauss
from api import ASAN, drive
from cli import Cli, done, fresh, judge_value
from common import (Build, BuildError, Check, Outcome, VERIF, clean_env, run_confirm, sh,
                    tier)

KINDS = ("read", "open", "stat", "alloc", "write", "environ", "clock", "failed")


def shim(b):
    """The library that makes the world around calc_J another one"""
    out = os.path.join(b.dir, "faults.so")
    r = sh(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", out,
            os.path.join(VERIF, "harness", "faults.c"), "-ldl"], env=clean_env())
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    return out


class World:
    def __init__(self, so, d):
        self.so, self.log = so, os.path.join(d, ".events")

    def env(self, world=None, fault=None, extra=None):
        if os.path.exists(self.log):
            os.unlink(self.log)
        e = {"LD_PRELOAD": self.so, "FAULT_LOG": self.log}
        if world:
            e["WORLD"] = str(world)
        if fault:
            e["FAULT"] = fault
        e.update(extra or {})
        return clean_env(e)

    def counts(self):
        """What the run met with"""
        try:
            data = open(self.log, "rb").read()
        except OSError:
            data = b""
        if os.path.exists(self.log):
            os.unlink(self.log)
        n = len(data) // 8
        return dict(zip(KINDS, struct.unpack("%dq" % n, data[:8 * n]) or
                        [0] * len(KINDS)))


def run_to(cmd, cwd, env, out, limit=None, ignore=None, closed=False,
           gone=False):
    """An execution whose standard output is the file descriptor `out`"""
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if ignore:
            signal.signal(ignore, signal.SIG_IGN)
        if closed:
            os.close(1)
        if gone:    # made here: nobody else holds the end that is read
            r, x = os.pipe()
            os.dup2(x, 1)
            os.close(r)
            os.close(x)
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                         stdout=out, stderr=subprocess.PIPE, preexec_fn=pre,
                         restore_signals=not ignore, start_new_session=True)
    try:
        _, err = p.communicate(timeout=60)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
        to = True
    return Outcome(p.returncode, "", err.decode("utf-8", "replace"), to, cmd)


def results(out):
    return [x for x in out.splitlines() if gauss.RESULT.match(x)]


def c34():
    ck = Check("C34", "a calculation during which one read or all later ones, "
               "an open, a look-up of a file, an allocation, or the writing of "
               "the report failed, or library work during which an allocation "
               "failed; non-trivial: the fault was met; distinct by system, "
               "kind of fault and place")
    b = Build("plain")
    cli = Cli(ck, b)
    so = shim(b)

    def one(i):
        rng = ck.rng_for(i)
        cx = gauss.Complex(rng, cp=i % 3 == 1, n1=rng.randrange(1, 4),
                           n2=rng.randrange(1, 4), plain=rng.random() < .7,
                           maxb=rng.choice([2, 5, 9]))
        sel, flags = gauss.pick(rng, cx)
        d = cx.write(fresh(ck, i))
        side = fresh(ck, "%d_side" % i)
        w = World(so, side)
        args = cx.file_args() + flags
        if judge_value(ck, cli, cx, sel, flags, d, "case %d" % i) is None:
            done(d)
            return
        for n in sorted(os.listdir(d)):     # others that look like these
            with open(os.path.join(d, n)) as f:
                other = f.read().replace("0.1", "0.2").replace("0.3", "0.5")
            stem, e = os.path.splitext(n)
            for m in rng.sample([n + ".bak", n + "~", stem, stem + e.upper(),
                                 n + ".old", "#%s#" % n, "." + n], 5):
                with open(os.path.join(d, m), "w") as f:
                    f.write(other)
        if rng.random() < .3:      # one of the files is found as companion
            k = rng.choice("P12")
            at = args.index(rng.choice(["--log_", "--pun_"]) + k)
            args[at:at + 2] = []
        base = cli.run(args, d)
        if not base.ok:
            cli.blame("case %d was not calculated" % i, d, args, base)
            return
        for j in range(tier(26, 60)):
            kind = rng.choice(["read"] * 5 + ["alloc"] * 4 + ["open", "stat", "dir"])
            world = rng.randrange(1, 10**6) if rng.random() < .6 else None
            if kind == "dir":
                k, e = rng.choice("P12"), rng.choice(["log", "pun"])
                name = os.path.join(d, cx.names[k] +
                                    (".log" if e == "log" else cx.pun_ext[k]))
                os.rename(name, os.path.join(side, "away"))
                os.mkdir(name)
                o = cli.run(args, d, env=w.env(world))
                os.rmdir(name)
                os.rename(os.path.join(side, "away"), name)
                hit, at = True, name
            else:
                o = cli.run(args, d, env=w.env(world, kind + ":999999999"))
                c = w.counts()
                if (o.out, o.err, o.rc) != (base.out, base.err, base.rc):
                    cli.blame("case %d: the result differs in a world of small "
                              "reads" % i, d, args, o)
                    break
                if not c.get(kind):
                    continue
                at = rng.randrange(1, c[kind] + 1)
                if kind == "alloc" and rng.random() < .7:
                    # the start of the run is made of flags alone
                    at = rng.randrange(c[kind] // 3, c[kind] + 1) or 1
                fault = "%s:%d%s" % (kind, at, rng.choice(["", "+"]))
                o = cli.run(args, d, env=w.env(world, fault))
                hit = w.counts().get("failed", 0) > 0
            what = "case %d: %s %s failed (world %s): " % (i, kind, at, world)
            bad = None
            if o.timeout:
                bad = "calc_J does not end"
            elif o.memory_error:
                bad = "a memory error"
            elif o.rc == 0:
                if (o.out, o.err) != (base.out, base.err):
                    bad = "success, but not the report without the fault"
            elif not o.rejected:
                bad = "neither success nor a refusal"
            elif [x for x in results(o.out) if x not in results(base.out)]:
                bad = "refused, but reported another result"
            if bad:
                cli.blame(what + bad, d, args, o)
                break
            if hit:
                ck.seen((i, kind, at, world))
                ck.count("%s failed, %s" % (kind, "refused" if o.rc else
                                            "calculated all the same"))
        # the report cannot be written, or only its beginning
        cmd = [b.calc] + args
        for j in range(tier(6, 15)):
            how = rng.choice(["full", "closed", "limit", "limit", "limit",
                              "pipe", "pipe ignored"])
            size = len(base.out.encode())
            got = None
            if how == "limit":
                n = rng.choice([0, 1, size - 1, size, size + 1,
                                rng.randrange(size)])
                p = os.path.join(side, "report")
                with open(p, "wb") as f:
                    o = run_to(cmd, d, clean_env(), f.fileno(), n, signal.SIGXFSZ)
                got = open(p, "rb").read()
                os.unlink(p)
                how += " %d of %d" % (n, size)
            elif how == "full":
                with open("/dev/full", "wb") as f:
                    o = run_to(cmd, d, clean_env(), f.fileno())
            elif how == "closed":
                o = run_to(cmd, d, clean_env(), subprocess.DEVNULL, closed=True)
            else:
                o = run_to(cmd, d, clean_env(), subprocess.DEVNULL, gone=True,
                           ignore=signal.SIGPIPE if "ignored" in how else None)
            whole = got is not None and got == base.out.encode()
            bad = None
            if o.timeout or o.memory_error:
                bad = "a memory error or no end"
            elif o.rc == 0 and not whole:
                bad = "success although the report was not written"
            elif o.rc != 0 and whole:
                bad = "failure although the whole report was written"
            if bad:
                cli.blame("case %d, output %s: %s" % (i, how, bad), d, args, o)
                break
            ck.seen((i, how))
            ck.count("report " + ("written" if whole else "not written, refused"))
        ck.sample({"case": i, "args": args})
        done(d)
        done(side)

    ck.parallel(one, range(tier(100, 1200)))

    rng = ck.rng_for("systems")
    extra = []
    for i in range(tier(6, 20)):
        cx = gauss.Complex(rng, cp=i % 3 == 2, n1=rng.randrange(1, 4),
                           n2=rng.randrange(1, 4), maxb=4, plain=i % 2 == 0)
        d = cx.write(os.path.join(ck.scratch, "system %d" % i))
        extra += [d, "1" if cx.cp else "0", "1" if cx.unrestricted else "0"]
    drive(ck, Build("san").harness("faulty"), "faulty", tier(700, 20000), 20,
          extra=extra)
    ck.assumptions += [ASAN + " of the library; the program's executions are "
                       "watched for the end they come to"]
    return ck.finish()
