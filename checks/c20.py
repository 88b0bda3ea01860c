"""C20: existing files are never overwritten unasked, inputs are never changed, conflicts are refused."""
import itertools
from checks.dl import *
from checks.files import *
APPS = ("convert", "topn", "sort", "diff", "dupes", "search", "download", "server")
BUILD = {a: ("app", a, "asan") for a in APPS}

# what --help and the documentation promise, not what the code says
CONFLICTS = {
    "download": [["--txt-out", "--resume"], ["--resume", "--force"], ["--ntlm", "--sha1t64"]],
    "topn": [["-o", "OUT", "--stdout"], ["NOOUT"], ["--ntlm", "--sha1t64"]],
    "convert": [["--bin-to-txt", "--txt-to-bin"], ["NODIR"], ["-i", "IN", "--stdin"], ["NOIN"], ["--bin-to-txt", "--stdin"],
                ["-o", "OUT", "--stdout"], ["NOOUT"]],
    "server": [["NODB"]],
}
# arguments outside the documented set or range
BAD = {
    "download": [["--parallel-max", "x"], ["--limit", "many"], ["--frobnicate"], ["NOFILE"], ["--limit"], ["--parallel-max", "0"]],
    "topn": [["-N", "x"], ["--frobnicate"], ["NOFILE"], ["-N"], ["-N", "-3"]],
    "convert": [["--limit", "x"], ["--frobnicate"], ["--limit"]],
    "sort": [["--max-memory", "x"], ["--frobnicate"], ["NOFILE"]],
    "diff": [["ONEFILE"], ["NOFILE"], ["--frobnicate"], ["EXTRA"]],
    "dupes": [["--bits", "31"], ["--bits", "65"], ["--bits", "0"], ["--bits", "x"], ["--bits", "-1"], ["NOFILE"], ["--frobnicate"]],
    "search": [["--toc", "--toc-bits", "14"], ["--toc", "--toc-bits", "26"], ["--toc-bits", "x"], ["NOFILE"], ["ONEFILE"], ["--frobnicate"],
               ["--toc", "--toc-bits", "64"], ["--toc-bits", "-20"]],
    "server": [["--toc", "--toc-bits", "14"], ["--toc", "--toc-bits", "26"], ["--threads", "0"], ["--threads", "100000"], ["--port", "x"],
               ["--frobnicate"]],
}


def main(exe):
    ck = Check("C20", "exploration",
               "a case is one run of a real program in a directory of prepared files: an output that exists already (a "
               "file of any content, a hard link, a symbolic link, a directory, a pipe), the input named as the output in another "
               "spelling or through a link, or options that are documented as conflicting or out of range, mixed with other options "
               "in any order; every file of the directory (contents, identity, modification time) is compared before and "
               "after, the exit status and message are judged, and a local API records every request; with --force the new file must be exactly the "
               "right one. non-trivial: an existing file was at stake")

    def prepare(r, d, fmt, n=None):
        """-> records; files in.db (binary), in.txt, and an unrelated one"""
        recs = records(r, fmt, n or r.choice([3, 20, 400]))
        wr(os.path.join(d, "in.db"), model.pack(recs))
        wr(os.path.join(d, "in.txt"), model.lines(recs))
        wr(os.path.join(d, "other"), r.randbytes(50))
        for f in os.listdir(d):
            os.utime(os.path.join(d, f), (1.6e9, 1.6e9))
        return recs

    def existing(r, d, out, kind, size):
        """puts something in the place of the output"""
        data = r.randbytes(size)
        if kind == "file":
            wr(out, data)
        elif kind == "empty":
            wr(out, b"")
        elif kind == "hardlink":
            wr(os.path.join(d, "linked"), data)
            os.link(os.path.join(d, "linked"), out)
        elif kind == "symlink":
            wr(os.path.join(d, "target"), data)
            os.symlink(r.choice(["target", os.path.join(d, "target")]), out)
        elif kind == "dir":
            os.mkdir(out)
            wr(os.path.join(out, "inside"), data)
        elif kind == "fifo":
            os.mkfifo(out)
        elif kind == "readonly":
            wr(out, data)
            os.chmod(out, 0o400)
        for root, _, files in os.walk(d):
            for f in files:
                os.utime(os.path.join(root, f), (1.6e9, 1.6e9), follow_symlinks=False)

    class Prog:
        """a program with arguments that work; out: where it writes"""
        def __init__(self, r, d, prog, sig, out):
            self.r, self.d, self.prog = r, d, prog
            self.fmt = fmt = r.choice(["sha1", "ntlm"] + (["sha1t64"] if prog in ("download", "topn") else []))
            recs = prepare(r, d, fmt)
            F = model.FLAG[fmt]
            self.scenario = None
            o = ["-o" if r.random() < .5 else "--output", out]
            if prog == "download":
                txt = self.txt = fmt != "sha1t64" and r.random() < .4
                self.scenario = Scenario(sig, fmt=fmt, n=r.choice([1, 3, 8]), txt=txt, perturb=None)
                self.parts = [F, ["--testing"], ["--limit", self.scenario.n], [out]] + ([["--txt-out"]] if txt else []) + \
                    r.choice([[], [["--no-progress"]], [["--debug"]], [["--parallel-max", r.choice([1, 300])]]])
                self.want = self.scenario.want()
            elif prog == "topn":
                N = r.randrange(len(recs))
                self.parts = [F, [os.path.join(d, "in.db")], [r.choice(["-N", "--topn"]), N], o]
                self.want = model.pack(sorted(sorted(recs, key=lambda x: (-x[1], x[0]))[:N]))
            elif prog == "convert":
                self.dir = r.choice(["--bin-to-txt", "--txt-to-bin"])
                self.input = "in.db" if self.dir == "--bin-to-txt" else "in.txt"
                L = r.choice([None, None, 0, 1, len(recs) // 2])
                self.parts = [F, [self.dir], ["-i", os.path.join(d, self.input)], o] + ([["--limit", L]] if L is not None else [])
                k = recs if L is None else recs[:L]
                self.want = model.lines(k) if self.dir == "--bin-to-txt" else model.pack(k)

        def args(self, *more):
            p = list(self.parts) + [list(m) for m in more]
            self.r.shuffle(p)
            return [a for x in p for a in x]

        def run(self, args, **o):
            if self.scenario is None:
                return run([exe[self.prog]] + args, cwd=self.d, timeout=60, **o), None
            m = self.scenario.mock()
            with m:
                q = run([exe[self.prog]] + args, cwd=self.d, env=m.env(), timeout=60, **o)
            return q, m

    def spell(r, d, name):
        return r.choice([os.path.join(d, name), name, "./" + name, os.path.join(d, ".", name), os.path.join(d, "..", os.path.basename(d), name),
                         os.path.join(d, "", "", name)])

    def exists(c, d):
        r = rnd("c20", c["sig"])
        name = r.choice(["out", "out.bin", "a b", "ünï", "x.txt", "in.db.bak"])
        p = Prog(r, d, c["prog"], c["sig"], spell(r, d, name))
        out = os.path.join(d, name)
        size = r.choice([1, 7, 24, 5000, len(p.want), len(p.want) + 24, 100000])
        existing(r, d, out, c["what"], size)
        if c["what"] == "file" and r.random() < .2:
            wr(out, p.want)
            os.utime(out, (1.6e9, 1.6e9))
        what = f"hibp-{c['prog']}, the output exists ({c['what']}){', --force' if c['force'] else ''}"
        before = snapshot(d)
        if not c["force"]:
            q, m = p.run(p.args())
            failed_cleanly(q, what)
            unchanged(before, d, what, q)
            expect(m is None or not m.log, f"{what}: requests were made", q)
            ck.count("refusals")
        else:
            q, m = p.run(p.args(["--force"]))
            if c["what"] == "dir":
                failed_cleanly(q, what)
                unchanged(before, d, what, q)
            else:
                sane(q, what)
                expect(q.rc == 0, f"{what}: failed", q)
                exact(rd(out), p.want, what)
                unchanged(before, d, what, q, new=[name, "target", "linked"])
                ck.count("forced_overwrites")
        ck.ran((c["sig"],))
        ck.seen("combinations", (c["prog"], c["what"], c["force"]))
        ck.sample(dict(case=c["sig"], args=[str(a).replace(d, "") for a in q.cmd[1:]]))

    def itself(c, d):
        """the input named as the output"""
        r = rnd("c20", c["sig"])
        prog, how = c["prog"], c["how"]
        p = Prog(r, d, prog, c["sig"], "XX") if prog != "sort" else None
        if prog == "sort":
            fmt = r.choice(["sha1", "ntlm"])
            big = c["n"] if c["n"] else 50
            recs = records(r, fmt, 50, order="random") if big == 50 else None
            if recs is None:    # more than one chunk
                data = r.randbytes(big * model.REC[fmt])
                wr(os.path.join(d, "in.db"), data)
            else:
                wr(os.path.join(d, "in.db"), model.pack(recs))
            inp, name = "in.db", "in.db.sorted"
            args = ["-i", spell(r, d, "in.db"), "--max-memory", 1 if big > 50 else r.choice([0, 1])] + model.FLAG[fmt]
        else:
            inp = p.input if prog == "convert" else "in.db"
            name = "alias"
        if how == "symlink":
            os.symlink(r.choice([inp, os.path.join(d, inp)]), os.path.join(d, name))
        elif how == "hardlink":
            os.link(os.path.join(d, inp), os.path.join(d, name))
        elif how == "dirlink":
            os.symlink(d, os.path.join(d, "here"))
            name = "here/" + inp
        else:
            name = inp
        os.utime(os.path.join(d, inp), (1.6e9, 1.6e9))
        if prog != "sort":
            p.parts = [[spell(r, d, name) if a == "XX" else a for a in x] for x in p.parts]
            if how == "swap" and prog in ("convert", "topn"):
                pass
            args = p.args(*([["--force"]] if c["force"] else []))
        before = snapshot(d)
        q = run([exe[prog]] + args, cwd=d, timeout=120)
        what = f"hibp-{prog}, the output is the input ({how}){', --force' if c['force'] else ''}"
        if prog == "sort":
            sane(q, what)
            b = {k: v for k, v in before.items() if k == inp}
            a = {k: v for k, v in snapshot(d).items() if k == inp}
            expect(a[inp][0] == b[inp][0], f"{what}: the input changed: {first_diff(a[inp][0], b[inp][0])}", q)
            if q.rc == 0:
                expect(os.path.getsize(os.path.join(d, "in.db.sorted")) == len(b[inp][0]), f"{what}: success without the output", q)
        else:
            failed_cleanly(q, what)
            unchanged(before, d, what, q)
        ck.ran((c["sig"],))
        ck.seen("combinations", (prog, how, c["force"]))
        ck.count("inputs_named_as_outputs")

    def conflict(c, d):
        r = rnd("c20", c["sig"])
        prog, bad = c["prog"], list(c["opts"])
        fmt = r.choice(["sha1", "ntlm"])
        n = r.choice([5, 300])
        prepare(r, d, fmt, n)
        inp, txt = os.path.join(d, "in.db"), os.path.join(d, "in.txt")
        out = os.path.join(d, "out")
        has = r.random() < .7
        if has:
            existing(r, d, out, r.choice(["file", "empty", "symlink", "hardlink"]), r.choice([0, 24, 240, 1000]))
        F = [] if set(bad) & {"--ntlm", "--sha1t64"} else [model.FLAG[fmt]]
        force = [["--force"]] if has and r.random() < .7 and "--resume" not in bad and prog in ("download", "topn", "convert") else []
        sc = None
        stdin = None
        if prog == "download":
            sc = Scenario(c["sig"], fmt=fmt, n=3, perturb=None)
            parts = F + force + [["--testing"], ["--limit", 3]] + ([[out]] if "NOFILE" not in bad else [])
            if r.random() < .3 and not set(bad) & {"--txt-out", "--resume"}:
                parts += r.choice([[["--txt-out"]], [["--resume"]]]) if not force else [["--txt-out"]]
        elif prog == "topn":
            parts = F + force + ([[inp]] if "NOFILE" not in bad else [])
            if "-N" not in bad:
                parts += [["-N", r.randrange(1, n)]]
            if "NOOUT" not in bad and "--stdout" not in bad:
                parts += [r.choice([["-o", out], ["--stdout"]])]
        elif prog == "convert":
            parts = F + force
            dirn = "--bin-to-txt" if "--bin-to-txt" in bad else r.choice(["--bin-to-txt", "--txt-to-bin"])
            if "NODIR" not in bad and not set(bad) & {"--bin-to-txt", "--txt-to-bin"}:
                parts += [[dirn]]
            if "NOIN" not in bad and "--stdin" not in bad:
                parts += [["-i", inp if dirn == "--bin-to-txt" else txt]]
            if "NOOUT" not in bad and "--stdout" not in bad:
                parts += [r.choice([["-o", out], ["--stdout"]])]
            stdin = rd(r.choice([txt, inp]))
        elif prog == "sort":
            parts = F + ([["-i", inp]] if "NOFILE" not in bad else []) + r.choice([[], [["--sort-by-count"]]])
        elif prog == "diff":
            parts = F + ([] if "NOFILE" in bad else [[inp]] if "ONEFILE" in bad else [[inp], [inp]]) + ([[inp]] if "EXTRA" in bad else [])
        elif prog == "dupes":
            parts = F + ([[inp]] if "NOFILE" not in bad else [])
        elif prog == "search":
            parts = F + ([] if "NOFILE" in bad else [[inp]] if "ONEFILE" in bad else [[inp], ["password"]]) + r.choice([[], [["--toc"]]])
        elif prog == "server":
            parts = ([["--ntlm-db" if fmt == "ntlm" else "--sha1-db", inp]] if "NODB" not in bad else []) + r.choice([[], [["--json"]]])
            parts += [["--bind-address", "127.0.0.1"]] + ([["--port", 1]] if "--port" not in bad else []) + r.choice([[], [["--toc"]] if "--toc" not in bad else []])
        # the conflicting options, apart from one another, in either order
        opts, i = [], 0
        real = [out if x == "OUT" else (inp if "--bin-to-txt" in bad else txt) if x == "IN" else x for x in bad if x not in
                ("NOOUT", "NOIN", "NODIR", "NOFILE", "ONEFILE", "NODB", "EXTRA")]
        while i < len(real):
            if i + 1 < len(real) and not real[i + 1].startswith("--") and real[i] != "--frobnicate":
                opts.append(real[i:i + 2])
                i += 2
            else:
                opts.append(real[i:i + 1])
                i += 1
        parts = [p for p in parts if not (p and opts and p[0] in [o[0] for o in opts])] + opts
        tail = opts[-1] if opts and opts[-1] in (["--limit"], ["-N"]) else None     # its value is missing
        if tail:
            parts.remove(tail)
        r.shuffle(parts)
        args = [a for p in parts + ([tail] if tail else []) for a in p]
        before = snapshot(d)
        what = f"hibp-{prog} with {' '.join(bad)}"
        m = sc.mock() if sc else None
        if m:
            m.start()
        try:
            q = run([exe[prog]] + args, cwd=d, input=stdin, env=m.env() if m else None, timeout=60)
        finally:
            if m:
                m.stop()
        failed_cleanly(q, what)
        unchanged(before, d, what, q)
        expect(m is None or not (m.log or m.connects or m.other), f"{what}: requests were made", q)
        if prog in ("convert", "topn"):
            recs = [b"\n" + x for x in rd(txt).split(b"\n")[:3] if x]
            expect(not any(x[1:] in q.out for x in recs) and rd(inp)[:24] not in q.out, f"{what}: wrote records to standard output", q)
        ck.ran((c["sig"],), nontrivial=has)
        ck.seen("conflicts", (prog,) + tuple(bad))
        ck.count("conflicts_refused")

    def plain(c, d):
        """an ordinary run changes nothing but its output"""
        r = rnd("c20", c["sig"])
        prog = c["prog"]
        fmt = r.choice(["sha1", "ntlm"])
        recs = prepare(r, d, fmt)
        old = sorted(set(r.sample(recs, len(recs) // 2)))
        wr(os.path.join(d, "old"), model.pack(old))
        os.utime(os.path.join(d, "old"), (1.6e9, 1.6e9))
        ro = r.random() < .3
        if ro:
            os.chmod(os.path.join(d, "in.db"), 0o444)
        inp = spell(r, d, "in.db")
        F = model.FLAG[fmt]
        new = []
        if prog == "search":
            toc = r.random() < .6
            bits = r.choice([15, 18, 20])
            args = [inp, r.choice(recs)[0].hex().upper(), "--hash"] + F + (["--toc", "--toc-bits", bits] if toc else [])
            new = [f for f in [f"in.db.{bits}.toc"] if toc]
        elif prog == "diff":
            args, new = [spell(r, d, "old"), inp] + F, []
        elif prog == "dupes":
            args = [inp] + F
        elif prog == "sort":
            args, new = ["-i", inp, "--max-memory", r.choice([0, 1])] + F + r.choice([[], ["--sort-by-count"]]), ["in.db.sorted"]
        elif prog == "topn":
            args, new = [inp, "-N", 1, "-o", spell(r, d, "new")] + F, ["new"]
        else:
            b = r.random() < .5
            args, new = ["--bin-to-txt" if b else "--txt-to-bin", "-i", inp if b else spell(r, d, "in.txt"), "-o", spell(r, d, "new")] + F, ["new"]
        before = snapshot(d)
        q = run([exe[prog]] + args, cwd=d, timeout=60)
        what = f"hibp-{prog}"
        sane(q, what)
        expect(q.rc == 0 or prog == "search" and b"size" in q.err + q.out or "toc" in q.errs.lower(), f"{what}: failed", q)
        # a table of contents may get any name that is derived from the database's
        new += [f for f in os.listdir(d) if f not in before and prog == "search" and f.startswith("in.db.")]
        unchanged(before, d, what, q, new=new)
        ck.ran((c["sig"],))
        ck.count("ordinary_runs")

    def one(c, d):
        dict(exists=exists, itself=itself, conflict=conflict, plain=plain)[c["kind"]](c, d)

    cases = []

    def add(**c):
        c["sig"] = "-".join(str(v) for v in c.values()).replace("/", "_").replace("[", "").replace("]", "").replace("'", "").replace(", ", "+") + f"-{len(cases)}"
        cases.append((c["sig"], c))
    for prog in ("download", "topn", "convert"):
        for what in ("file", "empty", "hardlink", "symlink", "dir", "fifo", "readonly"):
            for _ in range(scale(6, 60)):
                add(kind="exists", prog=prog, what=what, force=False)
            if what not in ("fifo", "readonly"):
                for _ in range(scale(3, 30)):
                    add(kind="exists", prog=prog, what=what, force=True)
    for prog in ("topn", "convert"):
        for how in ("same", "symlink", "hardlink", "dirlink"):
            for force in (True, True, True, False):
                for _ in range(scale(3, 30)):
                    add(kind="itself", prog=prog, how=how, force=force)
    for how in ("symlink", "hardlink"):
        for _ in range(scale(2, 10)):
            add(kind="itself", prog="sort", how=how, force=False, n=0)
        add(kind="itself", prog="sort", how=how, force=False, n=60000)
    for table in (CONFLICTS, BAD):
        for prog, lists in table.items():
            for opts in lists:
                for _ in range(scale(5 if table is CONFLICTS else 3, 40)):
                    add(kind="conflict", prog=prog, opts=opts)
    for prog in ("search", "diff", "dupes", "sort", "topn", "convert"):
        for _ in range(scale(6, 60)):
            add(kind="plain", prog=prog)
    ck.cases(one, cases, jobs=NCPU * 2)
    return ck.finish()
