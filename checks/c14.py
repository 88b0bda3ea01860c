"""C14: applying a diff to the old database gives the new one; deletions are refused."""
from checks.files import *
BUILD = {"batch": ("batch", "diff", "asan"), "app": ("app", "diff", "asan"), "fast": ("app", "diff", "plain")}


def main(exe):
    ck = Check("C14", "exploration",
               "a case is an old database and a new one derived from it by inserting and updating records (at the ends, in "
               "runs, next to one another, around the 64 KiB read buffers, beyond the first 4 GiB of files with holes) and sometimes deleting or replacing some; "
               "the output of the real hibp-diff is applied to the old database by an independent interpreter and "
               "compared with the new one, and every entry must be an insertion or a real change; with deletions the "
               "program must fail; non-trivial: the databases differ")
    pool = batch.Pool(exe["batch"], ck.tmp)

    def apply(old, text, fmt, q):
        """the interpreter of diffs"""
        expect(text == b"" or text.endswith(b"\n"), "the last line of the diff is not complete", q)
        out, pos = [], 0
        n = 2 * model.HASH[fmt]
        last = None
        for l in text.decode("latin1").split("\n")[:-1]:
            m = re.fullmatch(r"([IU]):([0-9A-Fa-f]{8,16}):([0-9A-F]{%d}):(-?\d+)" % n, l)
            expect(m, f"not a diff entry: {l!r}", q)
            t, p, rec = m[1], int(m[2], 16), (bytes.fromhex(m[3]), int(m[4]))
            expect(pos <= p <= len(old), f"entry {l!r}: old position {p}, but the one before was at {pos} of {len(old)}", q)
            out += old[pos:p]
            pos = p
            if t == "I":
                expect(p == len(old) or old[p][0] != rec[0], f"entry {l!r} inserts a hash that is there", q)
                out.append(rec)
            else:
                expect(p < len(old) and old[p][0] == rec[0],
                       f"entry {l!r} updates a record that is {model.text(old[p]) if p < len(old) else 'not there'}", q)
                expect(old[p][1] != rec[1], f"entry {l!r} updates a record to what it was", q)
                out.append(rec)
                pos += 1
        return out + old[pos:], pos

    def edit(r, fmt, n, how):
        size = model.HASH[fmt]
        kind = r.choice(["any", "ties"])
        new = records(r, fmt, max(n, 1 if how["del"] else 0) + how["ins"], kind)
        have = list(new)
        # what the old one lacks
        m = len(have)
        gone = set()
        while len(gone) < how["ins"]:
            k = r.random()
            if k < .2:
                gone.add(0)
                gone.add(min(len(gone), m - 1))
            elif k < .4:
                gone.add(m - 1 - len(gone) if r.random() < .5 else m - 1)
            elif k < .7 and gone:       # a run
                x = r.choice(sorted(gone))
                gone |= {y for y in range(x, min(m, x + r.randrange(1, 5)))}
            else:
                gone.add(r.randrange(m))
        old = []
        for i, (h, c) in enumerate(have):
            if i in gone:
                continue
            if r.random() < how["upd"]:
                c = r.choice([c + 1 if c < 2**31 - 1 else 0, c - 1 if c > -2**31 else 0, -1 if c != -1 else 5, 2**31 - 1 if c != 2**31 - 1 else 1])
            old.append((h, c))
        lost = set()
        hs = {h for h, _ in new}
        while len(lost) < how["del"]:
            h = r.choice([bytes(size), b"\xff" * size, r.randbytes(size)])
            if r.random() < .5 and new:         # next to one that stays
                v = int.from_bytes(r.choice(new)[0], "big") + r.choice([1, -1])
                h = (v % (1 << 8 * size)).to_bytes(size, "big")
            if h not in hs:
                lost.add(h)
        old = sorted(old + [(h, model.rnd_count(r)) for h in lost])
        return old, new

    def case(c, d):
        r = rnd("c14", c["sig"])
        fmt = c["fmt"]
        for i in range(c["k"]):
            n = c["n"] if c["n"] is not None else r.choice([0, 1, 2, 3, 5, r.randrange(40), r.randrange(300)])
            how = {"ins": r.choice([0, 0, 1, 1, 2, 3, r.randrange(1 + n // 2 + 3)]), "upd": r.choice([0, 0, .1, .5, 1]),
                   "del": r.choice([0, 0, 0, 0, 1, 1, 2, 5])}
            if c["n"] is not None:
                how["ins"] = min(how["ins"], 40)
            old, new = edit(r, fmt, n, how)
            if how["del"] and r.random() < .3:      # the tail is gone
                old, new = (new + old[-1:], new) if old[-1] > new[-1] and old[-1][0] not in {h for h, _ in new} else (old, new)
            po, pn = wr(os.path.join(d, r.choice(NAMES)), model.pack(old)), wr(os.path.join(d, "new\u20ac"), model.pack(new))
            before = snapshot(d)
            real = r.random() < .02
            args = [po, pn] + model.FLAG[fmt]
            q = run([exe["app"]] + args, timeout=60) if real else pool.run(args)
            what = f"diff of {len(old)} and {len(new)} {fmt} records, {how}"
            deleted = {h for h, _ in old} - {h for h, _ in new}
            if deleted:
                failed_cleanly(q, what + ": a record was deleted")
                ck.count("deletions_refused")
            else:
                sane(q, what)
                expect(q.rc == 0, f"{what}: failed", q)
                got, _ = apply(old, q.out, fmt, q)
                if got != new:
                    k = next((i for i in range(min(len(got), len(new))) if got[i] != new[i]), min(len(got), len(new)))
                    raise Violation(f"{what}: applying the diff gives {len(got)} records, the first wrong one at {k}: "
                                    f"{got[k:k + 1]} instead of {new[k:k + 1]}\n{q.brief()}")
                entries = q.out.count(b"\n")
                oh = dict(old)
                need = sum(1 for h, cc in new if oh.get(h) != cc or h not in oh)
                expect(entries == need, f"{what}: {entries} entries where {need} records differ", q)
                ck.count("entries_applied", entries)
                ck.count("identical_databases", old == new)
            unchanged(before, d, what, q)
            ck.ran((c["sig"], i), nontrivial=old != new)
            os.unlink(po)
        ck.sample(dict(case=c["sig"], old=len(old), new=len(new), how=how))

    cases = []

    def add(**c):
        c["sig"] = f"{c['fmt']}-{c['n']}-{len(cases)}"
        cases.append((c["sig"], c))
    r = rnd("c14cases")
    for f in ("sha1", "ntlm"):
        b = 65536 // model.REC[f]
        for n in [b - 1, b, b + 1, 2 * b, 2 * b + 1]:
            add(fmt=f, n=n, k=scale(4, 40))
        for i in range(scale(60, 800)):
            add(fmt=f, n=None, k=30)
    def huge(c, d):
        """positions and sizes beyond 32 bits"""
        fmt, zeros = c["fmt"], c["zeros"]
        r = rnd("c14huge", c["sig"])
        while True:
            old, new = edit(r, fmt, 60, {"ins": 9, "upd": .3, "del": 0})
            if any(any(h) is False for h, _ in old + new) or len(old) == len(new):
                continue
            break
        po = model.sparse(os.path.join(d, "old"), fmt, zeros, old)
        pn = model.sparse(os.path.join(d, "new"), fmt, zeros, new)
        if None in (po, pn):
            ck.count("no_room_for_huge_files")
            return
        q = run([exe["fast"], po, pn] + model.FLAG[fmt], timeout=300)
        sane(q, "diff of huge files")
        expect(q.rc == 0, "failed", q)

        def down(m):
            expect(int(m[2], 16) >= zeros, f"position {m[2].decode()} before the first difference", q)
            return m[1] + b"%08X" % (int(m[2], 16) - zeros)
        out = re.sub(rb"^([IU]:)([0-9A-F]+)", down, q.out, flags=re.M)
        got, _ = apply(old, out, fmt, q)
        expect(got == new, f"diff of {zeros} zeros and {len(old)} / {len(new)} records: applying it does not give the new one", q)
        ck.ran((c["sig"], SEED))
        ck.count("diffs_of_huge_files")
        os.unlink(pn)
        pn = model.sparse(os.path.join(d, "new"), fmt, zeros, old[:-1] if r.random() < .5 else old[:3] + old[4:])
        failed_cleanly(run([exe["fast"], po, pn] + model.FLAG[fmt], timeout=300), "a record of a huge file was deleted")

    huges = [(f"huge-{f}", dict(sig=f"huge-{f}", fmt=f, zeros=(1 << 32) // model.REC[f] + 77))
             for f in (("sha1", "ntlm") if THOROUGH else (r.choice(["sha1", "ntlm"]),))]
    huges = [("huge-records", dict(sig="huge-records", fmt="ntlm", zeros=(1 << 32) + 5))] + huges
    ck.cases(lambda c, d: (huge if "zeros" in c else case)(c, d), huges + cases, jobs=NCPU)
    pool.close()
    return ck.finish()
