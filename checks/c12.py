"""C12: hibp-topn keeps exactly the N most common passwords, sorted by hash."""
from checks.files import *
BUILD = {"batch": ("batch", "topn", "asan"), "app": ("app", "topn", "asan"), "fast": ("app", "topn", "plain")}


def main(exe):
    ck = Check("C12", "exploration",
               "a case is a generated database (any order, few or many ties of the count, counts from the whole 32 bit "
               "range, sizes around the read and write buffers) reduced by the real hibp-topn for some N, into a file "
               "or to standard output (a file, a pipe); the output is compared byte for byte with an independent "
               "selection (files of more than 4 GiB, with holes, and databases with repeated hashes included), or, when N is not less than the number of records, the refusal and the untouched files "
               "are; non-trivial: the reduction succeeded with 1 <= N, or an existing output file survived a refusal")
    pool = batch.Pool(exe["batch"], ck.tmp)

    def case(c, d):
        r = rnd("c12", c["sig"])
        fmt, n = c["fmt"], c["n"]
        recs = records(r, fmt, n, r.choice(["any", "ties", "ties", "ties", "extreme"]),
                       order=r.choice(["sorted", "sorted", "sorted", "random", "reversed"]))
        if c.get("same") and n > 1:        # the same hash several times, as truncated hashes can be
            for _ in range(r.choice([1, 2, n // 3 + 1])):
                i, j = r.randrange(n), r.randrange(n)
                recs[i] = (recs[j][0], recs[i][1]) if r.random() < .8 else recs[j]
            if r.random() < .7:
                recs.sort(key=lambda x: x[0])
        path = wr(os.path.join(d, r.choice(NAMES)), model.pack(recs))
        os.utime(path, (1.7e9, 1.7e9))
        ranked = sorted(recs, key=lambda x: (-x[1], x[0]))
        ns = {0, 1, n - 1, n, n + 1, r.randrange(n + 1), r.randrange(n + 1)} if n < 3000 else \
            {r.choice([1, n - 1]), n, 999, 1000, 1001, r.randrange(n), 2000}
        # just around a group of ties
        cuts = [i for i in range(1, n) if ranked[i][1] == ranked[i - 1][1]]
        ns |= set(r.sample(cuts, min(2, len(cuts))))
        for N in sorted(x for x in ns if x >= 0) + ([2**40] if r.random() < .05 else []):
            out = os.path.join(d, "top.bin")
            mode = r.choice(["new", "new", "over", "stdout", "pipe" if r.random() < .05 else "stdout"])
            if os.path.exists(out):
                os.unlink(out)
            old = None
            if mode == "over" or (N >= n and r.random() < .7):
                old = r.randbytes(r.choice([0, 1, 5, model.REC[fmt] * (n + 2)]))
                wr(out, old)
                os.utime(out, (1.65e9, 1.65e9))
            args = [path, r.choice(["-N", "--topn"]), N] + model.FLAG[fmt]
            args += ["--stdout"] if mode in ("stdout", "pipe") else ["-o", out] + (["--force"] if old is not None else [])
            r.shuffle(args) if False else None
            before = snapshot(d)
            q = run([exe["app"]] + args, timeout=60) if mode == "pipe" else pool.run(args)
            what = f"hibp-topn -N {N} of {n} records, {mode}"
            if N >= n:
                failed_cleanly(q, what)
                if mode not in ("stdout", "pipe") and old is None and os.path.exists(out):
                    os.unlink(out)      # no promise about a file that was not there
                unchanged(before, d, what, q)
                if mode in ("stdout", "pipe"):
                    expect(q.out == b"", f"{what}: output although it was refused", q)
                ck.count("refusals")
                ck.ran((c["sig"], N, mode), nontrivial=old is not None)
                continue
            sane(q, what)
            expect(q.rc == 0, f"{what}: failed", q)
            want = model.pack(sorted(ranked[:N]))
            got = q.out if mode in ("stdout", "pipe") else rd(out)
            if got != want and c.get("same"):   # in any order among equal hashes
                g = model.unpack(got, fmt)
                if sorted(g) == sorted(ranked[:N]) and all(a[0] <= b[0] for a, b in zip(g, g[1:])):
                    got = want
            if got != want:
                try:
                    g = model.unpack(got, fmt)
                    diff = f"missing: {[model.text(x) for x in sorted(set(ranked[:N]) - set(g))][:4]}, " \
                           f"not expected: {[model.text(x) for x in g if x not in set(ranked[:N])][:4]}"
                except ValueError as e:
                    diff = str(e)
                raise Violation(f"{what}: {first_diff(got, want, model.REC[fmt])}\n{diff}\n{q.brief()}")
            unchanged(before, d, what, q, new=["top.bin"] if mode in ("new", "over") else [])
            ck.ran((c["sig"], N, mode), nontrivial=N > 0)
            ck.count("records_compared", N)
            if 0 < N < n and ranked[N - 1][1] == ranked[N][1]:
                ck.count("cuts_within_ties")
            ck.count("to_" + mode)
        ck.seen("database_sizes", n)
        ck.sample(dict(case=c["sig"], fmt=fmt, records=n, N=sorted(ns)))

    cases = []

    def add(**c):
        c["sig"] = f"{c['fmt']}-{c['n']}-{len(cases)}"
        cases.append((c["sig"], c))
    r = rnd("c12cases")
    for f in ("sha1", "ntlm", "sha1t64"):
        b = 65536 // model.REC[f]
        for n in (0, 1, 2, 3):
            for _ in range(scale(3, 20)):
                add(fmt=f, n=n)
        for n in (b - 1, b, b + 1, 2 * b, 2 * b + 1) if not THOROUGH else \
                [b * k + x for k in (1, 2, 3) for x in (-1, 0, 1, 2, b // 2)] * 2:
            add(fmt=f, n=n)
        for i in range(scale(50, 1500)):
            add(fmt=f, n=r.choice([4, 5, 10, 30, 100, 400, r.randrange(1, 30), r.randrange(1, 1200)]))
        add(fmt=f, n=r.choice([2, 3, 6, 30, r.randrange(2, 300)]), same=True)
        for i in range(scale(20, 300)):
            add(fmt=f, n=r.choice([2, 3, 6, 30, r.randrange(2, 300)]), same=True)

    def huge(c, d):
        """records beyond what 32 bits can address"""
        fmt, zeros = c["fmt"], c["zeros"]
        r = rnd("c12huge", c["sig"])
        tail = records(r, fmt, 500, "extreme")
        tail = [(h, abs(c) % 1000000 + 1) for h, c in tail if any(h)]
        path = model.sparse(os.path.join(d, "db"), fmt, zeros, tail)
        if path is None:
            ck.count("no_room_for_huge_files")
            return
        top = sorted(tail, key=lambda x: (-x[1], x[0]))
        for N in (len(tail) // 2, len(tail) + 3):
            q = run([exe["fast"], path, "--topn", N, "--stdout"] + model.FLAG[fmt], timeout=300)
            sane(q, "topn of a huge file")
            expect(q.rc == 0, "failed", q)
            want = model.pack(sorted((top + [(bytes(model.HASH[fmt]), 0)] * 3)[:N]))
            expect(q.out == want, f"hibp-topn -N {N} of {zeros} zeros and {len(tail)} records: "
                   f"{first_diff(q.out, want, model.REC[fmt])}", q)
            ck.ran((c["sig"], N, SEED))
            ck.count("reductions_of_huge_files")

    huges = [(f"huge-{f}", dict(sig=f"huge-{f}", fmt=f, zeros=(1 << 32) // model.REC[f] + 77))
             for f in (("sha1", "ntlm", "sha1t64") if THOROUGH else (r.choice(["sha1", "ntlm"]),))]
    ck.cases(lambda c, d: (huge if "zeros" in c else case)(c, d), huges + cases, jobs=NCPU)
    pool.close()
    return ck.finish()
