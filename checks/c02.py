"""C02: transfer failures are retried and never leak into the database."""
from checks.dl import *
BUILD = {"dl": ("app", "download", "asan", {"instr": True})}
STATUS = [201, 204, 206, 301, 302, 304, 400, 403, 404, 408, 418, 429, 500, 502, 503, 504]


def main(exe):
    ck = Check("C02", "fault_enumeration",
               "a case is one whole download by the real program in which the API stand-in fails chosen attempts of "
               "chosen prefixes (error status with a body that looks like records, body cut short by an orderly or "
               "abortive close, connection reset or closed without an answer, an answer that is not HTTP, stall, "
               "refused connection); every kind, 0 to 6 failures of a prefix, and every position (first, middle, "
               "last, several, all) is combined; judged byte for byte and on the attempts the stand-in counted; "
               "non-trivial: at least one attempt failed",
               ["a body cut short can be detected only if its length was announced (Content-Length or chunked)"])

    def failing(s, kind, prefix, ntlm, attempt, r):
        """an answer that is a failure, whose content would be noticed if it were used"""
        body = s.api.body(int(prefix, 16), ntlm)
        bogus = b"".join(model.text((r.randbytes(16 if ntlm else 20), 666)).encode()[5:] + b"\r\n" for _ in range(5))
        if kind == "status":
            st = r.choice(STATUS)
            b = b"" if st in (204, 304) else r.choice([bogus, body, b"", b"<html>error: 1</html>"])
            return mock.Reply(status=st, body=b, chunked=bool(b) and r.random() < .3)
        if kind in ("cut", "cutreset"):
            b = r.choice([body, bogus, body + bogus])
            # also cut exactly between two records
            k = r.choice([0, r.randrange(len(b) + 1), len(b) - 1, b.find(b"\n") + 1, b.rfind(b"\n", 0, -1) + 1])
            return mock.Reply(kind, body=b, cut=max(0, min(k, len(b) - 1)), chunked=r.random() < .4)
        if kind == "garbage":
            return mock.Reply("garbage", body=r.choice([b"\0\1\2garbage\r\n\r\n", b"HTTP/9.9 abc\r\n\r\n" + bogus,
                                                        b"HTTP/1.1 200 OK\r\nContent-Length: 99999\r\n\r\n" + bogus]))
        if kind == "crawl":      # never silent, but far below 1000 bytes a second for far longer than 5 seconds
            return mock.Reply("crawl", body=body + bogus * 200, frag=[r.choice([1, 3, 20])], fragdelay=r.choice([.2, .5, .9]),
                              chunked=r.random() < .3)
        if kind == "stall":
            return mock.Reply("stall", body=body, cut=r.randrange(len(body)))
        return mock.Reply(kind)

    def case(c, d):
        s = Scenario(c["sig"], n=c["n"], par=c["par"], txt=c["txt"], fmt=c.get("fmt"), policy=c.get("policy"),
                     sizes=lambda r, p: r.randrange(1, 25), shape=c.get("shape"), progress=["--no-progress"]) \
            if c.get("shape") else Scenario(c["sig"], n=c["n"], par=c["par"], txt=c["txt"], fmt=c.get("fmt"),
                                            policy=c.get("policy"), sizes=lambda r, p: r.randrange(1, 25),
                                            progress=["--no-progress"])
        plan = {f"{p:05X}": k for p, k in c["plan"].items()}
        kind = c["kind"]

        def respond(prefix, ntlm, attempt):
            if attempt < plan.get(prefix, 0):
                r = rnd(c["sig"], prefix, attempt)
                k = kind if kind != "mixed" else r.choice(["status", "cut", "cutreset", "reset", "close", "garbage"])
                ck.count("failed_attempts_served")
                ck.seen("failure_kinds", k)
                return failing(s, k, prefix, ntlm, attempt, r)
            return s.ok(prefix, ntlm)
        out = os.path.join(d, "db")
        with s.mock(respond) as m:
            r = run([exe["dl"]] + s.args(out), env={**m.env(), **s.penv(d)}, timeout=120)
            att, hold = dict(m.attempts), m.max_hold
        sane(r, "hibp-download")
        hopeless = [p for p, k in plan.items() if k > 5 and (kind == "status" or k > 50)]
        strict = kind == "status" and hold < 3     # libcurl repeats some requests by itself on a reset
        rec = 0 if s.txt else model.REC[s.fmt]
        got = rd(out)
        if not hopeless:
            expect(r.rc == 0, f"failed although every prefix succeeds within 5 retries (failures: {plan})", r)
            exact(got, s.want(), f"output after failures {plan} of kind {kind}", rec or 1)
            if strict:
                for p in range(s.n):
                    p = f"{p:05X}"
                    expect(att.get(p) == plan.get(p, 0) + 1,
                           f"prefix {p} was requested {att.get(p)} times, but failed {plan.get(p, 0)} times", r)
        else:
            expect(r.rc not in (0, None), f"exit {r.rc} although {hopeless} never succeeded", r)
            expect(any(p in r.errs for p in hopeless), f"no error message names {hopeless}", r)
            leading_part(got, s.want(), rec, "after a hard failure")
            if strict:
                expect(max(att.get(p, 0) for p in hopeless) == 6 and all(a <= 6 for a in att.values()),
                       f"attempts {att}: a failing prefix is tried once and then 5 times more", r)
            ck.count("hard_failures_judged")
        ck.ran((c, SEED), nontrivial=bool(plan))
        ck.sample(dict(case=c["sig"], kind=kind, failures=c["plan"], exit=r.rc))
        trace(ck, d)

    def refused(c, d):
        s = Scenario(c, n=5, par=c == "refused-1" and 1 or 5, shape="plain")
        out = os.path.join(d, "db")
        m = s.mock().start()
        m.stop()
        r = run([exe["dl"]] + s.args(out), env=m.env(), timeout=60)
        sane(r, "hibp-download")
        expect(r.rc not in (0, None) and re.search(r"\b0000[0-4]\b", r.errs),
               "nothing listens, but that is not reported (with the prefix)", r)
        expect(rd(out) == b"", "output from nowhere", r)
        ck.ran((c, SEED))
        ck.count("refused_connections")

    cases = []
    kinds = ["status", "cut", "cutreset", "reset", "close", "garbage", "mixed"]
    r = rnd("c02")

    def add(sig, **c):
        c.setdefault("txt", r.random() < .2)
        if c["txt"]:
            c.setdefault("fmt", r.choice(["sha1", "ntlm"]))
        c["sig"] = sig
        cases.append((sig, c))
    for kind in kinds:                     # each kind, each count, alone in the first / middle / last place
        for k in (1, 4, 5):
            n = r.choice([3, 6, 11])
            add(f"{kind}-{k}", kind=kind, n=n, par=r.choice([1, 2, n, 300]),
                plan={r.choice([0, n // 2, n - 1]): k})
        n = r.choice([2, 8, 20])
        add(f"{kind}-all", kind=kind, n=n, par=r.choice([1, 4, 300]), plan={p: r.randrange(0, 6) for p in range(n)})
        add(f"{kind}-forever", kind=kind, n=n, par=r.choice([1, 4, 300]), plan={r.choice([0, n // 2, n - 1]): 1000})
        add(f"{kind}-later", kind=kind, n=30, par=30, policy="lifo", plan={r.randrange(5): 5})
    add("six", kind="status", n=12, par=12, plan={5: 6})
    add("six-first", kind="status", n=12, par=3, plan={0: 6})
    add("six-last", kind="status", n=12, par=3, plan={11: 6})
    add("six-and-five", kind="status", n=12, par=12, plan={1: 6, 0: 5, 11: 5})
    add("forever-all", kind="status", n=20, par=7, plan={p: 1000 for p in range(20)})
    add("forever-last-txt", kind="cut", n=20, par=20, plan={19: 1000}, txt=True, policy="fifo")
    add("forever-first-lifo", kind="status", n=40, par=40, plan={0: 1000}, txt=False, policy="lifo")
    add("forever-mid", kind="status", n=40, par=5, plan={20: 1000}, txt=False, policy="fifo")
    add("stall", kind="stall", n=4, par=4, plan={1: 1, 3: 1}, txt=False)
    add("stall-crawl", kind="crawl", n=4, par=4, plan={1: 1, 2: 1}, txt=False)
    add("stall-crawl-txt", kind="crawl", n=3, par=1, plan={1: 1}, txt=True)
    add("stall-txt", kind="stall", n=4, par=2, plan={0: 1, 2: 1}, txt=True)
    for i in range(scale(24, 600)):
        n = r.choice([1, 2, 5, 13, 40])
        plan = {r.randrange(n): r.choice([1, 2, 3, 4, 5, 5, 6, 1000]) if r.random() < .5 else r.randrange(1, 6)
                for _ in range(r.choice([1, 1, 2, n]))}
        kind = r.choice(kinds)
        if kind != "status":    # what libcurl repeats by itself makes 6 ambiguous
            plan = {p: 5 if k == 6 else k for p, k in plan.items()}
        add(f"any-{i}", kind=kind, n=n, par=r.choice([1, 2, 7, 300]), plan=plan)
    if THOROUGH:
        for k in range(1, 4):
            add(f"stall-{k}", kind="stall", n=3, par=r.choice([1, 3]), plan={r.randrange(3): k})
            add(f"stall-crawl-{k}", kind="crawl", n=3, par=r.choice([1, 3]), plan={r.randrange(3): k})
    cases.sort(key=lambda c: not c[0].startswith("stall"))
    ck.cases(case, cases, jobs=14)
    ck.cases(refused, [("refused-1", "refused-1"), ("refused-5", "refused-5")])
    return ck.finish()
