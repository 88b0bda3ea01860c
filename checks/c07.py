"""C07: searching with a table of contents never changes the answer."""
from checks.search import *
BUILD = {"batch": ("batch", "search", "asan"), "app": ("app", "search", "plain")}


def dense(r, fmt, bits, chapters, per, gap=None, start=0):
    """a sorted database with records in every chapter (the first `bits` bits) from start on"""
    size = model.HASH[fmt]
    recs = {}
    low = 8 * size - bits
    for ch in range(start, chapters):
        if ch == gap:
            continue
        base = ch << low
        for i in range(per(r, ch)):
            k = r.randrange(8)
            v = 0 if k == 0 else (1 << low) - 1 if k == 1 else r.randrange(1 << low)
            recs[(base | v).to_bytes(size, "big")] = r.choice([-1, 0, 1, 2**31 - 1, r.randrange(10**6)])
    return sorted(recs.items())


def main(exe):
    ck = Check("C07", "exploration",
               "a case is one search through a table of contents (15 to 25 bits; complete and partial databases, "
               "single and many records per chapter, records at the chapters' edges, gaps; needles: records, "
               "neighbours, chapters beyond the last; files of more than 4 GiB, with holes) by the real hibp-search under sanitizers, many searches of "
               "different databases, formats and bits in one process in random order; judged against the set of "
               "records; non-trivial: the search was answered",
               ["a database that cannot be indexed (a chapter without records) may be refused"])
    pool = batch.Pool(exe["batch"], ck.tmp)

    def group(c, d):
        """several databases, searched in turns"""
        r = rnd("c07", c["sig"])
        dbs = []
        for i, (fmt, bits, kind) in enumerate(c["dbs"]):
            full = 1 << bits
            if kind == "full":
                recs = dense(r, fmt, bits, full, lambda r, c: r.choice([1, 1, 2]))
            elif kind == "partial":
                recs = dense(r, fmt, bits, r.choice([1, 2, 5, 100, 257, 1001]), lambda r, c: r.choice([1, 1, 2, 9]))
            elif kind == "skewed":      # chapters larger than the read buffer
                big = r.randrange(20)
                recs = dense(r, fmt, bits, 20, lambda r, c: 1000 if c == big else r.choice([1, 170, 171, 341]))
            elif kind == "wide":        # a chapter of more than 2^16 records
                big = r.randrange(3)
                recs = dense(r, fmt, bits, 3, lambda r, c: r.choice([66000, 70000, 140000]) if c == big else r.choice([1, 300]))
            elif kind == "one":
                recs = dense(r, fmt, bits, 1, lambda r, c: 1)
            elif kind == "gap":
                n = r.choice([3, 50, 300])
                recs = dense(r, fmt, bits, n, lambda r, c: r.choice([1, 3]), gap=r.randrange(n - 1))
            elif kind == "late":        # does not start with chapter 0
                recs = dense(r, fmt, bits, 40, lambda r, c: 2, start=r.choice([1, 20]))
            elif kind == "random":
                recs = database(r, fmt, r.choice([1, 3, 200]), "uniform")
            path = wr(os.path.join(d, f"db{i}"), model.pack(recs))
            os.utime(path, (1.7e9, 1.7e9))
            dbs.append((path, fmt, bits, kind, dict(recs), iter(self_needles(r, fmt, bits, recs, c["k"]))))
        # the databases in turns; and the same database under another number of bits in between
        live = list(dbs)
        while live:
            x = r.choice(live)
            path, fmt, bits, kind, known, it = x
            h = next(it, None)
            if h is None:
                live.remove(x)
                continue
            b = bits
            if r.random() < .08:
                b = r.choice([b for b in range(15, 26) if b <= bits] if kind != "gap" else range(15, 26))
            args = [path, h.hex().upper(), "--hash", "--toc"] + model.FLAG[fmt]
            if b != 20 or r.random() < .5:
                args += ["--toc-bits", b]
            q = pool.run(args) if r.random() < .97 else run([exe["app"]] + args)
            sane(q, f"toc search, {b} bits, {kind} database of {len(known)} records")
            holes = any_hole(known, b, kind)
            if q.rc != 0 and holes:
                expect(b"found" not in q.out and q.errs.strip(), "refused and answered", q)
                ck.count("refused_because_of_a_gap")
                ck.ran(("refused", c["sig"], h), nontrivial=False)
                continue
            judge(q, fmt, h, known, ck, f"{h.hex().upper()} with --toc-bits {b} ({kind})")
            ck.seen("formats_and_bits", (fmt, b))
        ck.sample(dict(case=c["sig"], databases=[(x[1], x[2], x[3], len(x[4])) for x in dbs]))

    def any_hole(known, b, kind):
        size = len(next(iter(known)))
        chapters = {int.from_bytes(h[:4], "big") >> (32 - b) for h in known}
        return len(chapters) != max(chapters) + 1

    def self_needles(r, fmt, bits, recs, k):
        out = needles(r, fmt, recs, k)
        low, size = 8 * model.HASH[fmt] - bits, model.HASH[fmt]
        last = int.from_bytes(recs[-1][0], "big") >> low
        for ch in {0, 1, last // 2, last - 1, last, last + 1, last + 2, (1 << bits) - 1}:
            if 0 <= ch < 1 << bits:
                for v in (0, (1 << low) - 1, r.randrange(1 << low)):
                    out.append(((ch << low) | v).to_bytes(size, "big"))
        r.shuffle(out)
        return out

    cases = []
    r = rnd("c07cases")
    fm = ["sha1", "ntlm", "sha1t64"]
    for b in range(15, 26):
        for rep in range(scale(1, 3)):
            kinds = ["partial", "skewed", "one", "gap", "late", "random"]
            dbs = [(r.choice(fm), b, k) for k in kinds] + [(f, b, "partial") for f in fm]
            sig = f"bits-{b}-{rep}"
            cases.append((sig, dict(sig=sig, dbs=dbs, k=scale(50, 200))))
    for i in range(scale(8, 50)):
        dbs = [(r.choice(fm), r.randrange(15, 26), r.choice(["partial", "skewed", "one", "random"])) for _ in range(4)]
        cases.append((f"mixed-{i}", dict(sig=f"mixed-{i}", dbs=dbs, k=scale(80, 400))))
    for i in range(scale(2, 12)):
        cases.append((f"wide-{i}", dict(sig=f"wide-{i}", dbs=[(r.choice(fm), r.randrange(15, 26), "wide") for _ in range(2)], k=scale(60, 300))))
    for f in fm if THOROUGH else [r.choice(fm)]:
        cases.insert(0, (f"full-15-{f}", dict(sig=f"full-15-{f}", dbs=[(f, 15, "full")], k=scale(300, 3000))))
        if THOROUGH:
            cases.insert(0, (f"full-20-{f}", dict(sig=f"full-20-{f}", dbs=[(f, 20, "full")], k=300)))
    def huge(c, d):
        """positions, in bytes or records, beyond 32 bits"""
        fmt, zeros, bits = c["fmt"], c["zeros"], c["bits"]
        r = rnd("c07huge", c["sig"])
        recs = [x for x in dense(r, fmt, bits, 300, lambda r, c: r.choice([1, 3]), start=c["start"]) if any(x[0])]
        path = model.sparse(os.path.join(d, "db"), fmt, zeros, recs)
        if path is None:
            ck.count("no_room_for_huge_files")
            return
        os.utime(path, (1.7e9, 1.7e9))
        known = dict(recs)
        known[bytes(model.HASH[fmt])] = 0
        for i, h in enumerate([recs[-1][0], recs[0][0], bytes(model.HASH[fmt])] + self_needles(r, fmt, bits, recs, 40)):
            args = [path, h.hex().upper(), "--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt]
            q = run([exe["app"]] + args, timeout=400) if not i else pool.run(args)
            sane(q, f"toc search in {zeros} zeros and {len(recs)} records")
            if q.rc != 0 and zeros + len(recs) >= 1 << 32:
                expect(b"found" not in q.out and q.errs.strip(), "refused and answered", q)
                ck.count("refused_because_of_the_size")
                ck.ran((c["sig"], SEED), nontrivial=False)
                return
            judge(q, fmt, h, known, ck, f"{h.hex().upper()} with --toc-bits {bits} (after {zeros} zeros)")
            ck.count("searches_in_huge_files")

    f = r.choice(["sha1", "ntlm"])
    huges = [(f"huge-{f}", dict(sig=f"huge-{f}", fmt=f, bits=r.randrange(15, 26), zeros=(1 << 32) // model.REC[f] + 77, start=0)),
             ("huge-records", dict(sig="huge-records", fmt="sha1t64", bits=15, zeros=(1 << 32) + 77, start=1))]
    ck.cases(lambda c, d: (huge if "zeros" in c else group)(c, d), huges + cases, jobs=8)
    for bits in (0, 14, 26, -1, 32, 64, "x"):
        p = wr(os.path.join(ck.tmp, "one"), model.pack([(bytes(20), 1)]))
        q = pool.run([p, "0" * 40, "--hash", "--toc", "--toc-bits", bits])
        sane(q, f"--toc-bits {bits}")
        if q.rc == 0 and answer(q, "sha1") != (bytes(20), 1):
            ck.violation(f"bits {bits}", "wrong answer\n" + q.brief())
        ck.count("bits_outside_the_range_tried")
    pool.close()
    return ck.finish()
