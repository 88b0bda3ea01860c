"""C01: a download stores exactly what the API served."""
from checks.dl import *
BUILD = {"dl": ("app", "download", "asan", {"instr": True}), "fast": ("app", "download", "plain"), "fullapi": FULLAPI}


def main(exe):
    ck = Check("C01", "exploration",
               "a case is one whole download (API content, answer shapes, completion order, options and schedule "
               "perturbation drawn from the seed) by the real program, built with address and undefined behaviour "
               "sanitizers, judged byte for byte against the model of the API and on the request log; non-trivial: "
               "at least 2 records were stored",
               ["the API is a local stand-in speaking HTTP/1.1 (HTTP/2 and TLS are libcurl's business)"])

    def case(c, d):
        s = Scenario(**c)
        out = os.path.join(d, "db")
        with s.mock() as m:
            r = run([exe["dl"]] + s.args(out), env={**m.env(), **s.penv(d)}, timeout=60)
            log, released, mx, other = list(m.log), list(m.released), m.max_outstanding, list(m.other)
            hold = m.max_hold
        sane(r, "hibp-download")
        expect(r.rc == 0, "the download failed although every request was answered", r)
        exact(rd(out), s.want(), "database", model.REC[s.fmt])
        asked = sorted(x[2] for x in log)
        every = [f"{p:05X}" for p in range(s.n)]
        if hold > 3:    # a starved machine: the client may rightly have given up on a slow answer
            ck.count("runs_too_slow_to_count_requests")
            asked = sorted(set(asked))
        expect(asked == every,
               f"requested prefixes: {len(asked)} requests, {len(set(asked))} distinct, expected each of "
               f"{s.n} prefixes once; {[p for p in set(asked) if asked.count(p) > 1][:5]} more than once, other "
               f"requests: {other[:3]}", r)
        mode = "mode=ntlm" if s.fmt == "ntlm" else ""
        expect(all(x[3] == mode for x in log), f"wrong API mode: {[x[3] for x in log if x[3] != mode][:3]}", r)
        expect(mx <= s.par, f"{mx} requests outstanding with --parallel-max {s.par}", r)
        nrec = s.desc()["records"]
        ck.ran((c, SEED), nontrivial=nrec > 1)
        ck.count("requests_answered", len(log))
        ck.count("records_compared", nrec)
        ck.count("downloads_with_out_of_order_completion", released != sorted(released))
        ck.seen("completion_orders", tuple(released))
        ck.maximum("requests_outstanding", mx)
        ck.sample(s.desc())
        trace(ck, d)

    def tail(c, d):
        """the end of the whole prefix range, reached by resuming without a limit just before it"""
        fmt, k = c["fmt"], c["k"]
        lo, hi = 0x100000 - k, 0x100000
        api = model.Api(f"{SEED}/tail/{fmt}", lo, hi, lambda r, p: r.randrange(1, 30))
        out = wr(os.path.join(d, "db"), api.db(lo, lo + 1, fmt))
        with mock.Mock(lambda p, n, a: mock.Reply(body=api.body(int(p, 16), n) if int(p, 16) >= lo else b""),
                       policy="random", want=5, seed=SEED) as m:
            r = run([exe["dl"], "--testing", "--resume", "--no-progress"] + model.FLAG[fmt] + [out], env=m.env(),
                    timeout=60)
            other, log = list(m.other), list(m.log)
        sane(r, "hibp-download")
        expect(r.rc == 0, "the download of the last prefixes failed", r)
        exact(rd(out), api.db(lo, hi, fmt), "database", model.REC[fmt])
        want = {f"{p:05X}" for p in range(lo, hi)}
        expect(not other and {x[2] for x in log} <= want, f"unexpected requests: {other[:3]}", r)
        ck.ran(("tail", c, SEED))
        ck.count("downloads_of_the_last_prefixes")

    def window(c, d):
        """prefixes somewhere in the range, reached by resuming after one of them"""
        s = Scenario(c["sig"], n=1, fmt=c["fmt"], par=c["par"], policy=c["policy"])
        fmt, lo, hi = c["fmt"], c["lo"], c["lo"] + c["n"]
        api = model.Api(f"{SEED}/{c['sig']}", lo, hi, lambda r, p: r.choice([1, 1, 2, 30]))
        s.n, s.api = hi, api
        out = wr(os.path.join(d, "db"), api.db(lo, lo + 1, fmt))
        with s.mock(lambda p, n, a: s.ok(p, n) if lo <= int(p, 16) < hi else mock.Reply(body=b""),
                    want=min(s.par, c["n"] - 1), total=c["n"]) as m:
            r = run([exe["dl"]] + s.args(out, resume=True), env={**m.env(), **s.penv(d)}, timeout=60)
            log, other, released = list(m.log), list(m.other), list(m.released)
        sane(r, "hibp-download")
        expect(r.rc == 0, "the download failed although every request was answered", r)
        exact(rd(out), api.db(lo, hi, fmt), f"prefixes {lo:05X} to {hi - 1:05X}, answered in the order {released[:40]}",
              model.REC[fmt])
        expect(not other and {x[2] for x in log} <= {f"{p:05X}" for p in range(lo, hi)},
               f"unexpected requests: {other[:3]} {[x[2] for x in log if not lo <= int(x[2], 16) < hi][:5]}", r)
        ck.ran((c, SEED))
        ck.count("downloads_of_windows")
        ck.count("requests_answered", len(log))
        ck.seen("window_positions", lo)

    cases = []
    for i in range(scale(72, 1500)):
        cases.append((f"any-{i}", dict(sig=f"any-{i}", shuffle=i % 6 == 0)))
    # sizes around the writer's buffer of 10000 records, the 64 kB body reserve, and large bodies
    for fmt in FMT:
        for k, n in (("9999", 9999), ("10000", 10000), ("10001", 10001), ("20000", 20000)):
            if THOROUGH or (fmt, k) in (("sha1", "10000"), ("ntlm", "10001"), ("sha1t64", "20000"), ("sha1", "9999")):
                cases.append((f"buffer-{fmt}-{k}", dict(sig=f"buffer-{fmt}-{k}", fmt=fmt, n=10,
                                                         sizes=lambda r, p, n=n: n // 10 + (n % 10 if p == 0 else 0))))
        cases.append((f"body-{fmt}", dict(sig=f"body-{fmt}", fmt=fmt, n=6, shape="mixed",
                                          sizes=lambda r, p: [1, 1700, 2500, 1560, 1638, 30][p])))
    cases.append(("many", dict(sig="many", fmt="sha1t64", n=scale(1500, 20000), par=300, shape="plain", perturb=None,
                               sizes=lambda r, p: r.randrange(1, 4))))
    for i, pol in enumerate(["firstlast", "lifo", "fifo", "random", "asap"]):
        cases.append((f"order-{pol}", dict(sig=f"order-{pol}", policy=pol, n=64, par=64)))
    # many answers wait for the first
    cases.append(("backlog", dict(sig="backlog", policy="firstlast", n=scale(400, 1500), par=16, shape="plain", perturb=None)))
    cases.append(("sequential", dict(sig="sequential", n=20, par=1, policy="asap")))
    ck.cases(case, cases, jobs=12)
    ck.cases(tail, [(f"tail-{f}-{k}", dict(fmt=f, k=k)) for f in FMT for k in scale([3], [2, 3, 17, 300])])
    windows, r = [], rnd("windows")
    edges = [0x10, 0x100, 0x1000, 0x8000, 0x10000, 0x20000, 0x80000, 0xA0000, 0xF0000, 0xFFFF0]
    for i in range(scale(24, 400)):
        n = r.choice([2, 5, 20, 60])
        lo = max(0, r.choice(edges) - r.randrange(1, n)) if i % 3 else r.randrange(0x100000 - 60)
        windows.append((f"window-{i}", dict(sig=f"window-{i}", fmt=r.choice(FMT), lo=min(lo, 0x100000 - n), n=n,
                                            par=r.choice([1, 4, 60, 300]), policy=r.choice(["asap", "lifo", "random", "firstlast"]))))
    # the whole range, from a stand-in that is quick enough for it
    def whole(c, d):
        range_run(ck, exe["fast"], exe["fullapi"], d, **c)
        ck.count("whole_range_downloads", c["n"] is None)
    wholes, r = [], rnd("whole")
    for fmt in scale([r.choice(FMT)], FMT):
        for par in scale([r.choice([40, 300])], [7, 64, 300]):
            wholes.append((f"whole-{fmt}-{par}", dict(fmt=fmt, n=None, par=par, opts=["--no-progress"])))
    for i in range(scale(6, 60)):
        n = r.choice([4096, 65535, 65536, 65537, 70000, 99999, 131073])
        wholes.append((f"range-{i}", dict(fmt=r.choice(FMT), n=n, par=r.choice([5, 64, 300]), opts=[r.choice(["--no-progress", "--progress"])])))
    ck.cases(window, windows, jobs=12)
    ck.cases(whole, wholes, jobs=4)
    return ck.finish()
