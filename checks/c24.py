"""C24: input that cannot be read is never mistaken for its end or for something else."""
import mmap, pty, struct, tty
from checks.files import *
from checks.srv import *
from checks.c07 import judge, dense
APPS = ("convert", "topn", "sort", "diff", "dupes", "search", "server")
BUILD = {a: ("app", a, "plain") for a in APPS}
BUILD["rfault"] = ("shlib", "rfault.c", "plain")


def main(exe):
    ck = Check("C24", "fault_enumeration",
               "a case is one run of a real program during which the n-th read of its input (and none, some or all of "
               "those after it) fails with an I/O error, finds the end of the file too early (binary input), is interrupted or delivers only a part: every n for small inputs, drawn "
               "at random for larger ones. Exit 0 is accepted only with exactly the right output, a failure only with a "
               "message and only if a read really failed; interrupted and short reads must go unnoticed. For the server: every answer with status "
               "200 must have the right count, and after the fault all answers must be right again. non-trivial: the fault hit")

    class Ctl:
        def __init__(self, d):
            self.path = wr(os.path.join(d, "ctl"), bytes(24))
            self.f = open(self.path, "r+b")
            self.m = mmap.mmap(self.f.fileno(), 24)

        def calls(self):
            return struct.unpack_from("<q", self.m, 0)[0]

        def faults(self):
            return struct.unpack_from("<q", self.m, 8)[0]

        def reset(self):
            self.m[:24] = bytes(24)

        def offset(self, v):
            struct.pack_into("<q", self.m, 16, v)

    def env(ctl, mode, n, cnt, files):
        return {"LD_PRELOAD": exe["rfault"], "VERIF_RFAULT": f"{mode}:{n}:{cnt}", "VERIF_RFAULT_FILES": "\n".join(files),
                "VERIF_RFAULT_CTL": ctl.path}

    def program(c, d):
        r = rnd("c24", c["sig"])
        kind, n = c["kind"], c["n"]
        fmt = r.choice(["sha1", "ntlm"] + (["sha1t64"] if kind in ("topn", "search") else []))
        F = model.FLAG[fmt]
        recs = records(r, fmt, n, "ties" if kind == "topn" else "any", order="random" if kind == "sort" else "sorted")
        p, out = os.path.join(d, "in"), os.path.join(d, "out")
        files, stdin, judge_out = [p], None, None
        if kind == "t2b":
            wr(p, model.lines(recs))
            want = model.pack(recs)
            args = ["--txt-to-bin", "-i", p, "-o", out, "--force"] + F
            prog = "convert"
        elif kind == "b2t":
            wr(p, model.pack(recs))
            want, prog = model.lines(recs), "convert"
            args = ["--bin-to-txt", "-i", p, "-o", out, "--force"] + F
        elif kind == "topn":
            wr(p, model.pack(recs))
            N = r.randrange(max(1, n // 2), n)
            want, prog = model.pack(sorted(sorted(recs, key=lambda x: (-x[1], x[0]))[:N])), "topn"
            args = [p, "-N", N, "-o", out, "--force"] + F
        elif kind == "sort":
            wr(p, model.pack(recs))
            want, prog, out = model.pack(sorted(recs)), "sort", p + ".sorted"
            mem = c["mem"]
            args = ["-i", p, "--max-memory", mem] + F
            if mem == 0:
                files += [f"{p}.partial.{i:04d}" for i in range(min(n, 60))]
        elif kind == "diff":
            keep = [x for x in recs if r.random() < r.choice([.1, .7])] or recs[:1]
            keep = [(h, k if r.random() < .8 else k ^ 1) for h, k in keep]
            p2 = wr(os.path.join(d, "old"), model.pack(keep))
            wr(p, model.pack(recs))
            files = r.choice([[p], [p2], [p, p2]])
            prog, out, want = "diff", None, None
            args = [p2, p] + F
        elif kind == "dupes":
            base = r.randbytes(8)
            recs = sorted({(base if r.random() < .3 else r.randbytes(8)) + r.randbytes(model.HASH[fmt] - 8): 5 for _ in range(n)}.items())
            wr(p, model.pack(recs))
            prog, out, want = "dupes", None, None
            args = [p] + F
        elif kind == "search":
            if c["toc"]:
                recs = dense(r, fmt, 15, r.choice([2, 60, 400]), lambda r, c: r.choice([1, 2, 4]))
            wr(p, model.pack(recs))
            os.utime(p, (1.7e9, 1.7e9))
            h = r.choice(recs)[0] if r.random() < .7 else r.randbytes(model.HASH[fmt])
            prog, out, want = "search", None, None
            args = [p, h.hex().upper(), "--hash"] + F + (["--toc", "--toc-bits", 15] if c["toc"] else [])
            files = [p, p + ".15.toc"]
            known = dict(recs)
        ctl = Ctl(d)

        def go(mode, k, cnt):
            ctl.reset()
            for f in (out,):
                if f and os.path.exists(f):
                    os.unlink(f)
            if kind == "search" and c["toc"] and r.random() < .5 and os.path.exists(p + ".15.toc"):
                os.unlink(p + ".15.toc")
            q = run([exe[prog]] + args, env=env(ctl, mode, k, cnt, files), timeout=60)
            return q, (q.out if out is None else rd(out) if os.path.exists(out) else None)
        q, got = go("eio", 1 << 40, 0)
        what = f"hibp-{prog} undisturbed"
        sane(q, what)
        expect(q.rc == 0, f"{what}: failed", q)
        if want is not None:
            exact(got, want, what) if got is not None else expect(False, "no output", q)
        elif kind != "search":
            want = got
        total = ctl.calls()
        expect(total > 0, "the reads are not seen by the monitor", q)
        ks = list(range(total)) if total <= c["k"] else sorted(set([0, 1, 2, total - 1, total - 2] + [r.randrange(total) for _ in range(c["k"] - 5)]))
        if len(ks) < c["k"] // 2:
            ks = ks * 3
        for k in ks:
            mode = r.choice(["eio", "eio", "eio", "short", "eintr"] + (["gone"] * 2 if kind != "t2b" else []))
            cnt = 1 if mode == "eintr" else 10**9 if mode == "gone" else r.choice([1, 1, 2, 5, 10**9])
            q, got = go(mode, k, cnt)
            hit = ctl.faults()
            what = f"hibp-{prog} ({kind}, {len(recs)} records), {mode} at read {k} of {total} and {cnt - 1} more, {hit} hit"
            sane(q, what)
            if q.rc == 0:
                if kind == "search":
                    judge(q, fmt, h, known, ck, what)
                else:
                    expect(got is not None, f"{what}: success without output", q)
                    if got != want:
                        raise Violation(f"{what}: success, but {first_diff(got, want)} (got / expected)\n{q.brief()}")
                ck.count("faults_survived_with_the_right_output", hit > 0)
            else:
                expect(hit > 0 and mode in ("eio", "gone"), f"{what}: failed", q)
                expect(q.err.strip(), f"{what}: failed without a message", q)
                ck.count("faults_reported")
            ck.count("reads_failed_or_shortened", hit)
            ck.ran((c["sig"], mode, k, cnt), nontrivial=hit > 0)
            ck.seen("fault_points", (kind, k, mode))
        ck.sample(dict(case=c["sig"], reads=total, records=len(recs)))

    def stdin(c, d):
        """a standard input that breaks after its data"""
        r = rnd("c24", c["sig"])
        fmt = r.choice(["sha1", "ntlm"])
        recs = records(r, fmt, c["n"])
        out = os.path.join(d, "out")
        args = ["--txt-to-bin", "--stdin"] + model.FLAG[fmt]
        data = model.lines(recs)
        if r.random() < .3:
            data = data[:-1]
        std = r.random() < .5
        args += ["--stdout"] if std else ["-o", out]
        if c["how"] == "dir":
            f = os.open(d, os.O_RDONLY)
            q = run([exe["convert"]] + args, stdin=f, timeout=60)
            os.close(f)
            data = b""
        else:       # the reading side of a terminal whose other side is closed: EIO
            m, t = pty.openpty()
            tty.setraw(t)

            def feed():
                try:
                    k = 0
                    while k < len(data):
                        k += os.write(t, data[k:k + 1000])
                finally:
                    os.close(t)
            th = threading.Thread(target=feed)
            th.start()
            q = run([exe["convert"]] + args, stdin=m, timeout=60)
            os.close(m)
            th.join()
        what = f"hibp-convert --stdin, a read error after {len(data)} bytes"
        sane(q, what)
        expect(q.rc != 0, f"{what}: reported success", q)
        expect(q.err.strip(), f"{what}: failed without a message", q)
        ck.ran(c["sig"])
        ck.count("broken_standard_inputs")

    def exact(got, want, what):
        if got != want:
            raise Violation(f"{what}: {first_diff(got, want)}")

    def server(c, d):
        r = rnd("c24", c["sig"])
        bits = 18 if c["toc"] else None
        world = World(r, d, c["n"], c["fmts"], bits)
        ctl = Ctl(d)
        ctl.offset(1 << 60)
        mode = r.choice(["eio", "eio", "eio", "short", "gone"])
        cnt = 10**9 if mode == "gone" else r.choice([1, 1, 2, 10**9])
        s = Server(exe["server"], d, world.dbs, ["--threads", r.choice([1, 2])] + (["--toc", "--toc-bits", bits] if c["toc"] else []),
                   env=env(ctl, mode, 0, cnt, list(world.dbs.values())))
        async def ask(p):
            rr, w = await asyncio.open_connection("127.0.0.1", s.port)
            try:
                w.write(request(p, close=True))
                await w.drain()
                return await asyncio.wait_for(read_response(rr), 60)
            except (asyncio.IncompleteReadError, ConnectionError):
                return None
            finally:
                w.close()

        async def all():
            for i in range(c["k"]):
                p, want = world.valid(r)
                before = ctl.faults()
                ctl.offset(ctl.calls() + r.choice([0, 0, 0, 1, 2, r.randrange(12)]))
                a = await ask(p)
                ctl.offset(1 << 60)
                hit = ctl.faults() - before
                what = f"GET {p}, {mode} on {hit} reads"
                if a is None:
                    expect(hit > 0 and s.alive(), f"{what}: no answer")
                elif a[0] == 200:
                    n = count_of(a[2], False)
                    expect(n == want, f"{what}: answer {a[2]!r}, expected {want}")
                    ck.count("server_answers_right_despite_a_fault", hit > 0)
                else:
                    expect(hit > 0 and mode in ("eio", "gone"), f"{what}: status {a[0]}")
                    expect(count_of(a[2], False) is None, f"{what}: status {a[0]} with a count: {a[2]!r}")
                    ck.count("server_answers_refused", 1)
                ck.ran((c["sig"], i), nontrivial=hit > 0)
                # the same again, and something else, undisturbed
                for p, want in [(p, want), world.valid(r)]:
                    a = await ask(p)
                    expect(a is not None and a[0] == 200 and count_of(a[2], False) == want,
                           f"GET {p} after a fault ({mode}, {hit} reads) on an earlier request: {a and (a[0], a[2][:80])}, expected {want}")
                    ck.count("server_answers_after_a_fault")
        try:
            asyncio.run(all())
        except Violation as v:
            raise Violation(f"{v}\nserver: {s.errors()[-1500:]}")
        finally:
            if s.alive():
                s.p.terminate()
                s.p.wait()
            s.err.close()

    def one(c, d):
        dict(server=server, stdin=stdin).get(c["kind"], program)(c, d)

    cases = []

    def add(**c):
        c["sig"] = "-".join(str(v) for v in c.values() if not isinstance(v, list)) + f"-{len(cases)}"
        cases.append((c["sig"], c))
    r = rnd("c24cases")
    for i in range(scale(8, 80)):
        fm = r.choice([["sha1"], ["ntlm"], ["sha1t64"], ["sha1", "ntlm", "sha1t64"]])
        add(kind="server", n=r.choice([5, 300, 3000]), toc=i % 3 == 2, fmts=fm, k=scale(40, 200))
    for kind in ("t2b", "b2t", "topn", "sort", "diff", "dupes", "search"):
        for i in range(scale(14, 150)):
            n = r.choice([2, 3, 30, 200, 400, 1000, 4000, 9000]) if kind != "sort" or i % 3 else r.choice([2, 10, 40])
            add(kind=kind, n=n, mem=1 if kind == "sort" and i % 3 else 0, toc=i % 3 == 0, k=scale(14, 40))
    for i in range(scale(12, 100)):
        add(kind="stdin", how=r.choice(["dir", "pty", "pty"]), n=r.choice([1, 2, 50, 1000, 5000]))
    ck.cases(one, cases, jobs=NCPU + 4)
    return ck.finish()
