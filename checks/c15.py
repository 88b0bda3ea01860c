"""C15: hibp-dupes reports exactly the records that share their hash prefix."""
from checks.files import *
BUILD = {"batch": ("batch", "dupes", "asan"), "app": ("app", "dupes", "asan")}


def main(exe):
    ck = Check("C15", "exploration",
               "a case is a sorted database with neighbours that agree in a chosen number of bits (all zero and all one "
               "prefixes, first and last records, runs, around the 64 KiB read buffer) and a number of bits; the records "
               "the real hibp-dupes reports are compared with those whose first bits equal their predecessor's; "
               "non-trivial: at least one pair agrees in 31 bits or more")
    pool = batch.Pool(exe["batch"], ck.tmp)

    def db(r, fmt, n, bits):
        size = model.HASH[fmt]
        w = 8 * size
        out = set()
        while len(out) < n:
            k = r.random()
            if k < .1:
                v = r.choice([0, (1 << w) - 1]) ^ r.getrandbits(w - r.choice([bits, bits - 1, bits + 1, 64, 32, 33, 63]))
            elif k < .35 or not out:
                v = r.getrandbits(w)
            else:       # agrees with another one up to about the last bit that counts
                a = r.choice(pickable)
                b = min(w - 1, max(1, r.choice([bits - 1, bits, bits, bits + 1, bits + 9, 31, 32, 63, 64, 65, w - 1])))
                v = a ^ (1 << (w - 1 - b)) ^ r.getrandbits(w - 1 - b) if b < w - 1 else a ^ 1
                if b == w - 1:
                    v = a ^ 1
            if v not in out:
                out.add(v)
                if len(out) == 1:
                    pickable = []
                pickable.append(v)
        c = counts(r, r.choice(["any", "extreme"]))
        return [(v.to_bytes(size, "big"), c()) for v in sorted(out)]

    def case(c, d):
        r = rnd("c15", c["sig"])
        fmt = c["fmt"]
        n = 2 * model.HASH[fmt]
        for i in range(c["k"]):
            bits = c["bits"]
            recs = db(r, fmt, c["n"] if c["n"] is not None else r.choice([0, 1, 2, 3, 6, 20, r.randrange(200)]), bits)
            if len(recs) > 1 and r.random() < .1:       # the same record twice
                recs = sorted(recs + [r.choice(recs)])
            path = wr(os.path.join(d, r.choice(NAMES)), model.pack(recs))
            args = [path, "--bits", bits] + model.FLAG[fmt]
            if bits == 64 and r.random() < .5:
                args[1:3] = []
            before = snapshot(d)
            q = run([exe["app"]] + args, timeout=60) if r.random() < .02 else pool.run(args)
            what = f"dupes of {bits} bits in {len(recs)} {fmt} records"
            sane(q, what)
            expect(q.rc == 0, f"{what}: failed", q)
            unchanged(before, d, what, q)
            p = [int.from_bytes(h[:8], "big") >> (64 - bits) for h, _ in recs]
            want = [model.text(recs[i]) for i in range(1, len(recs)) if p[i] == p[i - 1]]
            got = re.findall(r"(?<![0-9A-F])([0-9A-F]{%d}:-?\d+)" % n, q.outs)
            if got != want:
                k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                raise Violation(f"{what}: {len(got)} reported, {len(want)} expected; report {k}: {got[k:k + 1]} "
                                f"instead of {want[k:k + 1]}\n{q.brief()}")
            extra = [l for l in q.outs.splitlines() if re.search(r"[0-9A-Fa-f]{16}", l)]
            expect(len(extra) == len(want), f"{what}: {len(extra)} lines with a hash, {len(want)} expected", q)
            near = any((int.from_bytes(recs[i][0][:8], "big") ^ int.from_bytes(recs[i - 1][0][:8], "big")) >> 33 == 0
                       for i in range(1, len(recs)))
            ck.ran((c["sig"], i), nontrivial=near)
            ck.count("dupes_reported_rightly", len(want))
            ck.count("records_examined", len(recs))
            os.unlink(path)
        ck.seen("bits", bits)
        ck.sample(dict(case=c["sig"], records=len(recs), dupes=len(want)))

    cases = []

    def add(**c):
        c["sig"] = f"{c['fmt']}-{c['bits']}-{c['n']}-{len(cases)}"
        cases.append((c["sig"], c))
    r = rnd("c15cases")
    for f in ("sha1", "ntlm"):
        b = 65536 // model.REC[f]
        for bits in range(32, 65):
            add(fmt=f, bits=bits, n=None, k=scale(25, 400))
        for n in (b - 1, b, b + 1, 2 * b + 1, 9000):
            for _ in range(scale(2, 20)):
                add(fmt=f, bits=r.choice([32, 33, 48, 63, 64, r.randrange(32, 65)]), n=n, k=1)
    ck.cases(case, cases, jobs=NCPU)
    pool.close()
    return ck.finish()
