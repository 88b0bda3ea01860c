"""C19: output that could not be written is never reported as success."""
import threading
from checks.dl import *
from checks.files import *
APPS = ("convert", "topn", "sort", "diff", "dupes", "search", "download")
BUILD = {a: ("app", a, "plain") for a in APPS}
BUILD.update({a + "-asan": ("app", a, "asan") for a in APPS})
BUILD["wfault"] = ("shlib", "wfault.c", "plain")

ERR = re.compile(r"error|wrong|fail|cannot|can't|could not|couldn't|unable|abort|exception|not |no space|invalid|refus", re.I)


def main(exe):
    ck = Check("C19", "fault_enumeration",
               "a case is one run of a real program whose output meets a fault: a file (or standard output) that cannot "
               "grow beyond byte k (small outputs: every k; larger ones: around the buffers and at random), the n-th "
               "write failing once or from then on, writes that are interrupted or cut short, /dev/full, a closed or a "
               "broken standard output, a directory in the place of the output or of a chunk file; exit 0 is only accepted with the "
               "complete output, a fault that hit only with a non-zero exit and a message; with a limit that is large enough the run must "
               "succeed. non-trivial: the fault hit",
               ["faults at close(2) or later, which no program can relate to a write, are not injected"])

    def judge(q, what, complete, must=None):
        """complete: is the output complete?  must: 'fail' or 'succeed' """
        if must != "broken-pipe":
            sane(q, what)
        if q.rc == 0:
            expect(complete, f"{what}: reported success, but the output is not complete", q)
            expect(must != "fail", f"{what}: reported success", q)
        else:
            expect(must != "succeed", f"{what}: failed although everything could be written", q)
            expect(ERR.search(q.errs), f"{what}: exit {q.rc} without an error message", q)
        ck.count("failures_reported", q.rc != 0)
        ck.count("successes_with_complete_output", q.rc == 0)

    class Job:
        """a run of a program with an output that is known"""
        def __init__(self, c, d):
            r = self.r = rnd("c19", c["sig"])
            self.c, self.d = c, d
            self.out = os.path.join(d, "out")
            self.mock = None
            fmt = self.fmt = c.get("fmt") or r.choice(["sha1", "ntlm"])
            n = c["n"]
            kind = self.kind = c["kind"]
            recs = records(r, fmt, n, "any") if kind != "dl" and kind != "dltxt" else []
            self.prog = kind.split("-")[0]
            F = model.FLAG[fmt]
            p = wr(os.path.join(d, "in"), model.pack(recs))
            if kind in ("convert-b2t", "convert-t2b"):
                limit = r.choice([None, n, n + 1, n + 7, max(1, n // 2), max(1, n - 1), 1 if n > 1000 else None])
                if limit and limit < n and "every" in c and c["every"] is not None:
                    # the same size of output
                    recs += records(r, fmt, n, "any")
                    recs = sorted(dict(recs).items())
                    limit = n
                some = recs[:limit]
                if kind == "convert-t2b":
                    wr(p, model.lines(recs))
                    self.want = model.pack(some)
                else:
                    wr(p, model.pack(recs))
                    self.want = model.lines(some)
                self.args = ["--bin-to-txt" if kind == "convert-b2t" else "--txt-to-bin", "-i", p] + F + (["--limit", limit] if limit else [])
                self.tofile, self.tostd = ["-o", self.out], ["--stdout"]
            elif kind == "topn":
                N = max(1, n - r.randrange(1, 4))
                self.want = model.pack(sorted(sorted(recs, key=lambda x: (-x[1], x[0]))[:N]))
                self.args = [p, "-N", N] + F
                self.tofile, self.tostd = ["-o", self.out], ["--stdout"]
            elif kind == "sort":
                r.shuffle(recs)
                wr(p, model.pack(recs))
                self.want = model.pack(sorted(recs))
                self.args = ["-i", p, "--max-memory", c["mem"]] + F
                self.tofile, self.tostd, self.out = [], None, p + ".sorted"
            elif kind == "diff":
                keep = [x for x in recs if r.random() < .3]
                p2 = wr(os.path.join(d, "old"), model.pack(keep))
                pos, out, i = 0, [], 0
                for x in recs:
                    if i < len(keep) and keep[i] == x:
                        i += 1
                    else:
                        out.append(f"I:{i:08X}:{model.text(x)}\n")
                self.want = "".join(out).encode()
                self.args = [p2, p] + F
                self.tofile, self.tostd = None, []
            elif kind == "dupes":
                h = r.randbytes(8)
                recs = sorted({h + r.randbytes(model.HASH[fmt] - 8): 5 for _ in range(n)}.items())
                wr(p, model.pack(recs))
                self.want = None        # judged by what it prints undisturbed
                self.args = [p] + F
                self.tofile, self.tostd = None, []
            elif kind == "search":
                wr(p, model.pack(recs))
                self.want = None
                self.args = [p, recs[0][0].hex().upper() if recs else "0" * 2 * model.HASH[fmt], "--hash"] + F
                self.tofile, self.tostd = None, []
            elif kind in ("dl", "dltxt"):
                self.s = Scenario(c["sig"], fmt=fmt, n=r.choice([2, 5, 9]), txt=kind == "dltxt", shape="plain", perturb=None,
                                  par=r.choice([1, 3, 300]), sizes=(lambda r, p: r.choice([1, 2, 5])) if n < 50 else (lambda r, p: n // 3))
                self.want = self.s.want()
                self.prog = "download"
                self.args, self.tofile, self.tostd = self.s.args(self.out)[:-1], [self.out], None

        def run(self, std, flavour="", env=None, **o):
            """-> Result, output (None: cannot be told)"""
            for f in os.listdir(self.d):
                q = os.path.join(self.d, f)
                if f.startswith(("out", "in.")) and not os.path.isdir(q):
                    os.unlink(q)
            e = dict(env or {})
            m = None
            if self.prog == "download":
                m = self.s.mock()
                m.start()
                e.update(m.env())
            try:
                if std and "stdout" not in o and not o.get("noout"):
                    f = open(self.out, "wb")
                    o["stdout"] = f
                else:
                    f = None
                q = run([exe[self.prog + flavour]] + self.args + (self.tostd if std else self.tofile), env=e, timeout=60, **o)
                if f:
                    f.close()
            finally:
                if m:
                    m.stop()
            try:
                return q, rd(self.out)
            except OSError:
                return q, None

        def learn(self, std):
            """what it gives undisturbed"""
            q, got = self.run(std)
            judge(q, f"{self.kind} undisturbed", True, "succeed")
            if self.want is None:
                self.size = len(got)
                self.same = (lambda g: g is not None and len(g) >= self.size - 8) if self.kind == "search" else (lambda g: g == got)
                if self.kind == "search":       # prints how long it took
                    self.slack = 12
            else:
                expect(got == self.want, f"{self.kind} undisturbed: {first_diff(got or b'', self.want)}", q)
                self.size = len(self.want)
                self.same = lambda g: g == self.want
            return self

    def case(c, d):
        j = Job(c, d)
        r = j.r
        std = c["std"]
        j.learn(std)
        S, slack = j.size, getattr(j, "slack", 0)
        name = f"{c['kind']}{' --stdout' if std and j.tofile is not None else ''}, output of {S} bytes"
        fl = "-asan" if c.get("asan") else ""
        how = c["how"]
        if how == "limit":
            if c["every"]:
                ks = range(c["every"][0], S + 2, c["every"][1])
            else:
                near = [0, 1, S - 1, S - 2, S, S + 1, S // 2, 4095, 4096, 8191, 8192, 8193, 24000, 24 * 1000 - 1, 20 * 1000, 65536, 240000, 200000]
                ks = sorted({k for k in near + [r.randrange(S + 1) for _ in range(c["k"])] if 0 <= k <= S + 1})
                ks = r.sample(ks, min(len(ks), c["k"]))
            for k in ks:
                if abs(k - S) <= slack and slack:
                    continue
                q, got = j.run(std, fl, fsize=k)
                judge(q, f"{name}, no space beyond byte {k}", j.same(got), "fail" if k < S else "succeed")
                expect(got is None or len(got) <= k, "the limit did not work", q)
                ck.ran((c["kind"], std, c["n"], S, k), nontrivial=k < S)
                ck.seen("failing_bytes", (c["kind"], std, k)) if k < S else None
                ck.count(f"limits_{c['kind']}")
        elif how == "nth":
            log = os.path.join(d, "log")
            for _ in range(c["k"]):
                mode = r.choice(["fail", "fail", "eio", "short", "eintr"])
                n, cnt = r.choice([0, 1, 2, 3, 5, r.randrange(30)]), r.choice([1, 1, 2, 10**6])
                if mode == "eintr":
                    cnt = 1
                env = {"LD_PRELOAD": exe["wfault"], "VERIF_WFAULT": f"{mode}:{n}:{cnt}", "VERIF_WFAULT_LOG": log}
                if os.path.exists(log):
                    os.unlink(log)
                q, got = j.run(std, "", env)
                faults = int(rd(log).split()[1]) if os.path.exists(log) else None
                must = None if faults is None else "succeed" if faults == 0 or mode in ("short", "eintr") else "fail"
                judge(q, f"{name}, {mode} at write {n} and {cnt - 1} more ({faults} hit)", j.same(got), must)
                ck.ran((c["sig"], mode, n, cnt), nontrivial=bool(faults))
                ck.count("write_faults_injected", faults or 0)
        elif how == "full":
            with open("/dev/full", "wb") as f:
                q, got = j.run(True, fl, stdout=f)
            judge(q, f"{name}, standard output is a full device", False, "fail")
            ck.ran(c["sig"])
            q, got = j.run(True, fl, noout=True)
            judge(q, f"{name}, standard output is closed", False, "fail")
            ck.ran(c["sig"] + "closed")
        elif how == "pipe":
            a, b = os.pipe()
            take = r.choice([0, 1, 100, 4096, 60000])
            th = threading.Thread(target=lambda: (take and os.read(a, take), os.close(a)))
            th.start()
            q, got = j.run(True, fl, stdout=b, nopipe=True)
            os.close(b)
            th.join()
            judge(q, f"{name}, reader gone after {take} bytes", S <= 140000, "fail" if S > 140000 else None)
            ck.ran(c["sig"])
            ck.count("broken_pipes")
        elif how == "dir":
            for f in os.listdir(d):
                if f.startswith(("out", "in.")):
                    os.unlink(os.path.join(d, f))
            if c["kind"] == "sort":
                target = r.choice([os.path.join(d, "in.sorted"), os.path.join(d, "in.partial.0000")])
            else:
                target = j.out
            os.mkdir(target)
            open(os.path.join(target, "inside"), "w").close()
            q, got = j.run(False, fl)
            sane(q, name)
            hit = not (c["kind"] == "sort" and q.rc == 0 and os.path.isfile(os.path.join(d, "in.sorted")))
            judge(q, f"{name}, {os.path.basename(target)} is a directory", not hit and j.same(rd(os.path.join(d, "in.sorted"))),
                  "fail" if hit else None)
            expect(os.path.isfile(os.path.join(target, "inside")), "the directory was emptied", q)
            ck.ran(c["sig"])
            if j.tofile:        # in a directory that does not exist
                keep, j.tofile = j.tofile, [x if x != j.out else os.path.join(d, "none", "out") for x in j.tofile]
                q, got = j.run(False, fl)
                judge(q, f"{name}, into a missing directory", False, "fail")
                ck.ran(c["sig"] + "missing")
        ck.sample(dict(case=c["sig"], output_bytes=S))

    cases = []

    def add(**c):
        c["sig"] = f"{c['kind']}-{'std' if c['std'] else 'file'}-{c['how']}-{c['n']}-{len(cases)}"
        cases.append((c["sig"], c))
    r = rnd("c19cases")
    KINDS = [("convert-b2t", False), ("convert-b2t", True), ("convert-t2b", False), ("convert-t2b", True), ("topn", False),
             ("topn", True), ("sort", False), ("diff", True), ("dupes", True), ("search", True), ("dl", False), ("dltxt", False)]
    for kind, std in KINDS:
        mem = (lambda: r.choice([0, 0, 1])) if kind == "sort" else lambda: None
        dl = kind in ("dl", "dltxt")
        # every byte of a small output, in a few shares
        parts = 4
        for i in range(parts):
            add(kind=kind, std=std, n=6 if kind not in ("search",) else 3, how="limit", every=(i, parts * (2 if dl and not THOROUGH else 1)),
                mem=i % 2, asan=i == 0 and not dl)
        for i in range(scale(3, 40)):
            add(kind=kind, std=std, n=r.choice([30, 200, 999, 1001, 2500, 12000] if not dl else [30, 300, 3000, 12000]), how="limit",
                every=None, k=scale(12, 30), mem=1, asan=i == 0)
        for i in range(scale(3, 40)):
            add(kind=kind, std=std, n=r.choice([2, 30, 1001, 5000, 12000] if kind != "search" else [3]), how="nth", k=scale(8, 20), mem=mem())
        add(kind=kind, std=std, n=60, how="nth", k=scale(8, 40), mem=0)
        if std:
            for n in (3, 60, 1500, 12000):
                add(kind=kind, std=std, n=n, how="full", asan=n == 60)
            for n in (50, 12000):
                add(kind=kind, std=std, n=n, how="pipe")
        else:
            for i in range(3):
                add(kind=kind, std=std, n=r.choice([3, 60]), how="dir", mem=(1, 0, 1)[i], asan=i == 0)
    ck.cases(case, cases, jobs=12)
    return ck.finish()
