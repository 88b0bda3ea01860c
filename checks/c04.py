"""C04: the downloader's threads are free of data races and always terminate."""
from checks.dl import *
BUILD = {"tsan": ("app", "download", "tsan", {"instr": True}),
         "asan": ("app", "download", "asan", {"instr": True}), "bare": ("app", "download", "tsan"), "fullapi": FULLAPI,
         "plain": ("app", "download", "plain"), "locks": ("shlib", "locks.c", "plain")}


def main(exe):
    ck = Check("C04", "exploration",
               "a case is one run of the real downloader (quiet, verbose, resumed, or made to abort by a failing "
               "transfer, an output that cannot be written or a malformed record, at a chosen place) under "
               "ThreadSanitizer (most) or AddressSanitizer, with random delays injected at the function boundaries "
               "of both threads and adversarial completion orders, or uninstrumented with random delays around every lock, wait and "
               "signal; monitors: sanitizer reports, crashes, a watchdog "
               "that looks whether the threads are blocked, or all wait for each other without a time limit; non-trivial: both worker threads ran and switched",
               ["happens-before race detection covers the synchronisation seen in these runs, libraries are not "
                "instrumented", "progress is judged within the watchdog's bound"])
    races = {}

    def case(c, d):
        r = rnd("c04", c["sig"])
        s = Scenario(c["sig"], n=c["n"], par=c["par"], txt=c["txt"], fmt=c.get("fmt"), policy=c.get("policy"),
                     sizes=c.get("sizes") or (lambda r, p: r.randrange(1, 12)), shape=c.get("shape", "plain"),
                     progress=c["progress"], perturb=c["perturb"])
        out, want, kw = os.path.join(d, "db"), s.want(), {}
        rec = 0 if s.txt else model.REC[s.fmt]
        at = f"{c['at']:05X}"
        resume = c["what"] == "resume"
        if resume:
            k = r.randrange(len(want) // rec + 1)
            wr(out, want[:k * rec + (r.randrange(rec) if k * rec < len(want) else 0)])
        if c["what"] == "nospace":
            kw["fsize"] = r.randrange(len(want))

        def respond(p, ntlm, a):
            if p == at and c["what"] == "fail":
                return mock.Reply(status=503) if c["kind"] == "status" else mock.Reply(c["kind"], body=b"x" * 20, cut=5)
            if p == at and c["what"] == "once" and a < 3:
                return mock.Reply("reset") if a % 2 else mock.Reply(status=500)
            if p == at and c["what"] == "bad":
                b = s.api.body(int(p, 16), ntlm)
                return mock.Reply(body=b + r.choice([b"zz:1\r\n", b"ABC\r\n", b"0" * 11 + b":77777777777777\r\n"]) + b)
            return s.ok(p, ntlm)
        with s.mock(respond) as m:
            q = run([exe[c["exe"]]] + s.args(out, resume=resume), env={**m.env(), **s.penv(d)}, timeout=60, **kw)
        sane(q, f"{c['what']}")
        if c["what"] in ("ok", "once", "resume"):
            expect(q.rc == 0 or (resume and k == len(want) // rec), "failed", q)
            exact(rd(out), want, "database", rec or 1)
        elif c["what"] == "fail" or (c["what"] == "bad" and not s.txt) or (c["what"] == "nospace"):
            expect(q.rc not in (0, None), f"exit {q.rc} although {c['what']}", q)
            expect(q.errs.strip(), "no message", q)
            if c["what"] != "nospace":
                leading_part(rd(out), want, rec, "after an abort")
        ck.ran((c["sig"], SEED), nontrivial=s.n > 1)
        ck.count("runs_" + c["what"])
        ck.count("runs_under_" + c["exe"])
        ck.seen("completion_orders", tuple(m.released))
        ck.sample({k: v for k, v in c.items() if k != "sizes"})
        trace(ck, d)

    cases = []
    r = rnd("c04cases")
    k = 0
    for rep in range(scale(4, 60)):
        for what in ("ok", "once", "resume", "fail", "bad", "nospace"):
            for prog in (["--debug"], ["--no-progress"], ["--progress"]):
                for e in (["tsan", "tsan", "asan"] if rep == 0 or THOROUGH else ["tsan"]):
                    n = r.choice([2, 3, 8, 24, 60])
                    txt = what != "resume" and r.random() < .25
                    c = dict(sig=f"{what}-{k}", what=what, n=n, par=r.choice([1, 2, 5, n, 300]), txt=txt, progress=prog,
                             exe=e, at=r.choice([0, n // 2, n - 1]), kind=r.choice(["status", "reset", "cut"]),
                             perturb=r.choice([(3000, 50), (300, 500), (60, 5000), (20000, 3), None]),
                             policy=r.choice(["asap", "lifo", "random", "firstlast", "fifo"]))
                    if txt:
                        c["fmt"] = r.choice(["sha1", "ntlm"])
                    if what in ("nospace", "fail") and r.random() < .5:   # more than the output buffers hold
                        c["sizes"] = lambda r, p: 800
                        c["n"] = min(n, 24)
                        c["at"] = min(c["at"], c["n"] - 1)
                    cases.append((c["sig"], c))
                    k += 1
    ck.cases(case, cases, jobs=12)
    # many more messages between the threads than the adversarial stand-in can provoke
    mass = []
    for i in range(scale(4, 40)):
        prog = (["--no-progress"], ["--progress"], ["--debug"], ["--no-progress"])[i % 4]
        fmt = r.choice(FMT)
        mass.append((f"mass-{i}", dict(fmt=fmt, n=3000 if "--debug" in prog else scale(12000, 50000), par=r.choice([3, 64, 300]), opts=prog,
                                       txt=fmt != "sha1t64" and r.random() < .3, slow=True)))
    ck.cases(lambda c, d: range_run(ck, exe["bare"], exe["fullapi"], d, **c), mass, jobs=4)

    # very many short runs with delays where threads take locks and wait for each other
    def locks(c, d):
        r = rnd("c04", c["sig"])
        for i in range(c["k"]):
            s = Scenario(f"{c['sig']}-{i}", n=r.choice([1, 2, 3, 3, 6, 15]), sizes=lambda r, p: 3, shape="plain", policy="asap", txt=r.random() < .2,
                         fmt=r.choice(["sha1", "ntlm"]), progress=r.choice([["--no-progress"], ["--no-progress"], ["--progress"], ["--debug"]]), par=r.choice([1, 2, 300]))
            out, tr = os.path.join(d, "db"), os.path.join(d, "locks")
            for f in (out, tr):
                if os.path.exists(f):
                    os.unlink(f)
            fail = r.random() < .15 and f"{r.randrange(s.n):05X}"
            with s.mock(lambda p, ntlm, a: mock.Reply(status=503) if p == fail else s.ok(p, ntlm)) as m:
                e = {**m.env(), "LD_PRELOAD": exe["locks"], "VERIF_LOCKS_OUT": tr,
                     "VERIF_LOCKS": f"{r.randrange(1 << 30)}:{r.choice([1, 2, 4, 4, 16])}:{r.choice([200, 2000, 5000, 5000])}"}
                q = run([exe["plain"]] + s.args(out), env=e, timeout=60)
            what = f"delays {e['VERIF_LOCKS']} at the locks, {s.n} prefixes"
            sane(q, what)
            if fail:
                expect(q.rc not in (0, None), f"{what}: success although {fail} failed", q)
            else:
                expect(q.rc == 0, f"{what}: failed", q)
                exact(rd(out), s.want(), what)
            try:
                n, w, g = map(int, open(tr).read().split())
                ck.count("delays_at_locks", n)
                ck.count("waits_for_a_condition", w)
                ck.count("signals_of_a_condition", g)
            except (OSError, ValueError):
                pass
            ck.ran((c["sig"], i, SEED))
            ck.count("runs_with_delays_at_locks")
    many = [(f"locks-{i}", dict(sig=f"locks-{i}", k=25)) for i in range(scale(40, 500))]
    ck.cases(locks, many, jobs=24)
    return ck.finish()
