"""C06: a search finds a record if and only if it is there, with its exact count."""
from checks.search import *
BUILD = {"batch": ("batch", "search", "asan"), "app": ("app", "search", "plain")}


def main(exe):
    ck = Check("C06", "exploration",
               "a case is one search (a needle in a generated database: every record, its neighbours, values between "
               "and beyond all, passwords; sizes 0 to a few thousand, around the read buffer's, and 2 GiB to 200 GB "
               "(with holes)) run by the real hibp-search built with address and undefined behaviour sanitizers, many per process, a part of them "
               "each in a process of its own; judged against the set of records; non-trivial: the database has at "
               "least one record")
    pool = batch.Pool(exe["batch"], ck.tmp)

    def db(c, d):
        fmt, n = c["fmt"], c["n"]
        r = rnd("c06", c["sig"])
        pws = [pw(r) for _ in range(min(n, 40))]
        recs = database(r, fmt, n, c["spread"], pws)
        path = wr(os.path.join(d, "db" + r.choice(["", ".bin", " with space", "ü"])), model.pack(recs))
        known = dict(recs)
        todo = needles(r, fmt, recs, c["k"])
        for i, h in enumerate(todo):
            args = [path, h.hex().upper(), "--hash"] + model.FLAG[fmt]
            judge(pool.run(args), fmt, h, known, ck)
        for p in pws[:c["k"] // 4] + [pw(r) for _ in range(c["k"] // 4)]:
            if p.startswith(b"-") or p == b"":
                continue
            judge(pool.run([path, p] + model.FLAG[fmt]), fmt, model.pw_hash(p, fmt), known, ck, p)
            ck.count("passwords")
        for h in r.sample(todo, min(3, len(todo))):     # the program as it is
            judge(run([exe["app"], path, h.hex().upper(), "--hash"] + model.FLAG[fmt]), fmt, h, known, ck)
        for bad in bad_hashes(r, fmt, recs):
            q = pool.run([path, "--hash"] + model.FLAG[fmt] + ["--", bad])
            sane(q, f"--hash {bad!r}")
            expect(q.rc not in (0, None), f"--hash {bad!r} was not refused", q)
            expect(b"found" not in q.out, f"--hash {bad!r} gave an answer", q)
            ck.count("invalid_hashes_refused")
        ck.sample(dict(fmt=fmt, records=n, spread=c["spread"], needles=len(todo)))
        ck.seen("database_shapes", (fmt, n, c["spread"]))

    def huge(c, d):
        """most of it are records of hash 0"""
        fmt = c["fmt"]
        r = rnd("c06huge", c["sig"])
        recs = [x for x in database(r, fmt, 300, "uniform") if any(x[0])]
        path = model.sparse(os.path.join(d, "db"), fmt, c["zeros"], recs)
        if path is None:
            ck.count("no_room_for_huge_files")
            return
        known = dict(recs)
        known[bytes(model.HASH[fmt])] = 0
        for h in recs[:3] + recs[-3:] + r.sample(recs, 30):
            judge(pool.run([path, h[0].hex().upper(), "--hash"] + model.FLAG[fmt]), fmt, h[0], known, ck)
            for v in (int.from_bytes(h[0], "big") + 1, int.from_bytes(h[0], "big") - 1):
                a = (v % (1 << 8 * len(h[0]))).to_bytes(len(h[0]), "big")
                judge(pool.run([path, a.hex().upper(), "--hash"] + model.FLAG[fmt]), fmt, a, known, ck)
        judge(pool.run([path, "0" * 2 * model.HASH[fmt], "--hash"] + model.FLAG[fmt]), fmt, bytes(model.HASH[fmt]), known, ck)
        ck.count("searches_beyond_4_GiB", 97 if c["zeros"] * model.REC[fmt] > 1 << 32 else 0)

    def go(c, d):
        (huge if "zeros" in c else db)(c, d)
    cases = []
    for fmt in ("sha1", "ntlm", "sha1t64"):
        for z in ((1 << 31) // model.REC[fmt], (1 << 32) // model.REC[fmt], (1 << 31) - 20, (1 << 32) - 20, 1 << 33,
                  10**9):
            cases.append((f"huge-{fmt}-{z}", dict(sig=f"huge-{fmt}-{z}", fmt=fmt, zeros=z)))
    for fmt in ("sha1", "ntlm", "sha1t64"):
        b = 4096 // model.REC[fmt]
        sizes = [0, 1, 2, 3, 4, 7, 8, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b + 5, 1000, 4097]
        for n in sizes:
            for spread in ("uniform", "clustered", "edges") if n > 1 else ("uniform", "edges"):
                sig = f"{fmt}-{n}-{spread}"
                cases.append((sig, dict(sig=sig, fmt=fmt, n=n, spread=spread, k=scale(150, 3000))))
    for i in range(scale(20, 400)):
        r = rnd("c06any", i)
        cases.append((f"any-{i}", dict(sig=f"any-{i}", fmt=r.choice(["sha1", "ntlm", "sha1t64"]),
                                       n=int(2 ** (r.random() * scale(12, 17))), spread=r.choice(["uniform", "clustered"]),
                                       k=scale(120, 2000))))
    ck.cases(go, cases, jobs=8)
    pool.close()
    return ck.finish()
