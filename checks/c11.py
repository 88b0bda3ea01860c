"""C11: hibp-sort writes exactly the sorted records and nothing else."""
import threading
from checks.files import *
from checks.c22 import harness
BUILD = {"batch": ("batch", "sort", "asan"), "app": ("app", "sort", "plain"), "ff": ("harness", "flatfile_h.cpp", "asan", {"alone": True, "optional": True})}


def main(exe):
    ck = Check("C11", "exploration",
               "a case is a generated database (order, ties, repeated hashes and records, counts from the whole 32 bit "
               "range, file name) sorted by the real hibp-sort with a memory limit that gives one to many chunks, in "
               "either order; the output file is compared with an independent sort, the directory and the input with "
               "their state before; several databases of one directory are also sorted at the same time; non-trivial: at least 2 records, not already in the wanted order",
               ["among records with equal hashes (which databases do not have) any order is right when sorting by hash"])
    pool = batch.Pool(exe["batch"], ck.tmp)

    def case(c, d):
        r = rnd("c11", c["sig"])
        fmt, n = c["fmt"], c["n"]
        recs = records(r, fmt, n, r.choice(["any", "ties", "ties", "extreme"]),
                       order=r.choice(["random", "random", "sorted", "reversed"]))
        if n > 1 and r.random() < .3:       # the same hash, or record, several times
            for _ in range(r.choice([1, 2, n // 2])):
                i, j = r.randrange(n), r.randrange(n)
                recs[i] = recs[j] if r.random() < .5 else (recs[j][0], recs[i][1])
        if n > 1 and r.random() < .1:
            recs = [recs[0]] * n
        name = r.choice(NAMES if r.random() < .5 else PLAIN)
        sub = os.path.join(d, r.choice(["", "", "", "s u b", "{0}"]), )
        os.makedirs(sub, exist_ok=True)
        path = wr(os.path.join(sub, name), model.pack(recs))
        os.utime(path, (1.7e9, 1.7e9))
        wr(os.path.join(sub, "bystander"), b"hands off")
        old = None
        if r.random() < .15:
            old = name + ".sorted"
            wr(os.path.join(sub, old), r.randbytes(r.choice([1, model.REC[fmt] * (n + 3)])))
        left = None
        if r.random() < .1:      # of a killed sort
            left = name + ".partial.0000"
            wr(os.path.join(sub, left), r.randbytes(model.REC[fmt] * r.choice([1, n + 2])))
        before = snapshot(sub)
        args = ["-i" if r.random() < .5 else "--input", path] + model.FLAG[fmt] + (["--sort-by-count"] if c["by"] else [])
        if c["mem"] is not None:
            args += ["--max-memory", c["mem"]]
        q = run([exe["app"]] + args, nofile=c["nofile"], timeout=120) if c.get("nofile") else pool.run(args)
        sane(q, "hibp-sort")
        expect(q.rc == 0, "hibp-sort failed", q)
        new = sorted(set(snapshot(sub)) - set(before))
        out = old if old and not new else new[0] if new else None
        expect(out is not None and len(new) == (0 if old else 1), f"files that are new after sorting: {new}", q)
        unchanged(before, sub, "sorting", q, new=[out, left])
        try:
            got = model.unpack(rd(os.path.join(sub, out)), fmt)
        except ValueError as e:
            raise Violation(f"{out}: {e}\n{q.brief()}")
        expect(len(got) == n, f"{n} records went in, {len(got)} came out", q)
        want = sorted(recs, key=(lambda x: (-x[1], x[0])) if c["by"] else (lambda x: x[0]))
        if c["by"]:
            bad = next((i for i in range(n) if got[i] != want[i]), None)
        else:
            bad = next((i for i in range(n) if got[i][0] != want[i][0]), None)
        if bad is not None:
            raise Violation(f"record {bad} of {n} is {model.text(got[bad])}, expected {model.text(want[bad])} "
                            f"({'by count' if c['by'] else 'by hash'})\n{q.brief()}")
        expect(sorted(got) == sorted(recs), "the records that came out are not those that went in", q)
        per = None if c["mem"] is None else max(1, c["mem"] * 1024 * 1024 // model.REC[fmt])
        ck.ran(c["sig"], nontrivial=n > 1 and want != recs)
        ck.count("records_compared", n)
        if per and n > per:
            ck.count("sorts_of_several_chunks")
            ck.maximum("chunks", -(-n // per))
        ck.sample(dict(case=c["sig"], fmt=fmt, records=n, by_count=c["by"], max_memory=c["mem"]))

    def direct(c, d):
        """the sorting function itself, with any chunk size, order and projection"""
        harness(ck, exe, c, d, "sorting in chunks")
    ck.cases(direct, [(f"direct-{i}", dict(sig=f"direct-{i}", exe="ff", mode="sort", rounds=scale(60, 1500), seed=SEED * 100 + i))
                      for i in range(8)])
    def together(c, d):
        """several databases of one directory at the same time"""
        r = rnd("c11", c["sig"])
        for i in range(c["k"]):
            todo = []
            mem = r.choice([0, 0, 1])
            for name in r.sample(["a", "b", "a.db", "b.db", "a.partial", "x.sorted.db", "c d"], r.choice([2, 3])):
                fmt = r.choice(["sha1", "ntlm"])
                by = r.random() < .3
                recs = records(r, fmt, r.choice([2, 60, 300]) if mem == 0 else r.choice([1000, 60000]), order="random")
                todo.append((name, fmt, by, recs, wr(os.path.join(d, name), model.pack(recs))))
            before = snapshot(d)
            res = {}

            def go(t):
                name, fmt, by, recs, p = t
                res[name] = run([exe["app"], "-i", p if r.random() < .5 else name, "--max-memory", mem] + model.FLAG[fmt] +
                                (["--sort-by-count"] if by else []), cwd=d, timeout=120)
            ts = [threading.Thread(target=go, args=(t,)) for t in todo]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for name, fmt, by, recs, p in todo:
                q = res[name]
                what = f"{name}, sorted at the same time as {sorted(set(res) - {name})} in one directory"
                sane(q, what)
                expect(q.rc == 0, f"{what}: failed", q)
                got, want = rd(p + ".sorted"), model.pack(sorted(recs, key=(lambda x: (-x[1], x[0])) if by else None))
                if got != want:
                    raise Violation(f"{what}: {first_diff(got, want, model.REC[fmt])}")
                ck.ran((c["sig"], i, name))
            unchanged(before, d, "sorting at the same time", q, new=[t[0] + ".sorted" for t in todo])
            for t in todo:
                os.unlink(t[4])
                os.unlink(t[4] + ".sorted")
            ck.count("sorts_at_the_same_time", len(todo))
    ck.cases(together, [(f"together-{i}", dict(sig=f"together-{i}", k=scale(5, 60))) for i in range(6)], jobs=4)
    cases = []

    def add(**c):
        c["sig"] = f"{c['fmt']}-{'count' if c['by'] else 'hash'}-{c['n']}-{c['mem']}-{len(cases)}"
        cases.append((c["sig"], c))
    r = rnd("c11cases")
    both = [(f, b) for f in ("sha1", "ntlm") for b in (False, True)]
    for f, b in both:
        for per in (1048576 // model.REC[f],):      # chunks of 1 MB
            for n in r.sample((per - 1, per, per + 1, 2 * per - 1), 2) + [2 * per + r.choice([0, 1]), r.randrange(per, 2 * per)] if not THOROUGH else \
                    [k * per + x for k in (1, 2, 3, 4) for x in (-1, 0, 1, r.randrange(per))]:
                add(fmt=f, by=b, n=n, mem=1)
        for n in (0, 1, 2, 3):
            for m in (0, 1, None):
                for _ in range(3):
                    add(fmt=f, by=b, n=n, mem=m)
        add(fmt=f, by=b, n=3000, mem=None)
        for n in (499, 500, 501, r.randrange(900, 1100), r.randrange(1000, 3000)):     # more chunks than files can be open
            add(fmt=f, by=b, n=n, mem=0, nofile=1024)
        for m in (2, 3, 100):
            add(fmt=f, by=b, n=r.choice([500, 90000]), mem=m)
        for i in range(scale(60, 1500)):        # chunks of one record
            add(fmt=f, by=b, n=r.choice([2, 3, 4, 7, 16, r.randrange(2, 60), r.randrange(2, 200)]), mem=0)
        for i in range(scale(40, 1000)):
            add(fmt=f, by=b, n=r.choice([5, 40, 300, r.randrange(1, 1500)]), mem=r.choice([1, None, 7]))
    ck.cases(case, cases, jobs=NCPU)
    pool.close()
    return ck.finish()
