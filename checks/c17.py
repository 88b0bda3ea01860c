"""C17: records convert between text and binary form without loss."""
from checks.files import *
BUILD = {"codec": ("harness", "codec_h.cpp", "asan", {"alone": True, "optional": True}),
         "codec-plain": ("harness", "codec_h.cpp", "plain", {"alone": True, "optional": True}),
         "conv": ("batch", "convert", "asan"), "search": ("batch", "search", "asan")}


def main(exe):
    ck = Check("C17", "exploration",
               "a case is a record formatted by the code under test, compared with snprintf(), and parsed back (upper, lower "
               "and mixed case, with and without a count, a full sha1 line as 64 bit record): every value of every byte, "
               "counts around all powers of ten and of two and a sweep over the 32 bit range (in the thorough tier all "
               "of it), random records; and strings judged by hash validation: every character at every position, every "
               "length below 100; the same again from outside through hibp-convert and hibp-search. distinct_nontrivial "
               "counts the different (record, direction) pairs")
    nontrivial = {"n": 0}

    def case(c, d):
        name = c["exe"]
        if name not in exe:
            ck.notes.append(f"{name}: records are not there any more in the form the harness knows")
            return
        r = run([exe[name], c["seed"], c["n"], c["lo"], c["hi"], c["step"]], timeout=600)
        if r.outs.startswith("MISMATCH"):
            raise Violation(f"{c['sig']}: {r.outs[:1500]}")
        sane(r, c["sig"])
        expect(r.rc == 0, f"{name}: exit {r.rc}", r)
        n = {k: int(x) for k, x in (p.split("=") for p in r.outs.split())}
        ck.ran(c["sig"], n=n["evaluations"])
        ck.count("round_trips", n["roundtrips"])
        ck.count("strings_validated", n["validated"])
        with ck.lock:
            nontrivial["n"] += n["roundtrips"] + n["validated"]
        ck.sample(dict(case=c["sig"], **n))
    pool, spool = batch.Pool(exe["conv"], ck.tmp), batch.Pool(exe["search"], ck.tmp)

    def outside(c, d):
        r = rnd("c17", c["sig"])
        fmt = c["fmt"]
        size = model.HASH[fmt]
        recs = [(bytes(r.choice([r.randrange(256), 0, 255, 0x9a, 0xa9]) for _ in range(size)),
                 r.choice([0, -1, 2**31 - 1, -2**31, 10 ** r.randrange(10), 10 ** r.randrange(10) - 1, -10 ** r.randrange(10),
                           r.getrandbits(r.randrange(1, 32))])) for _ in range(c["n"])]
        for i in range(256):        # every byte value
            recs.append((r.randbytes(size - 1) + bytes([i]), i))
        pb, pt = wr(os.path.join(d, "b"), model.pack(recs)), os.path.join(d, "t")
        q = pool.run(["--bin-to-txt", "-i", pb, "-o", pt] + model.FLAG[fmt])
        sane(q, "bin to txt")
        expect(q.rc == 0, "conversion failed", q)
        got, want = rd(pt).split(b"\n"), model.lines(recs).split(b"\n")
        for g, w in zip(got + [b"missing"], want + [b""]):
            if (g, w) == (b"missing", b""):
                break
            expect(g == w, f"a record became the text {g!r} instead of {w!r}", q)
        style = r.choice([bytes.lower, bytes.upper, lambda t: bytes(r.choice([b, bytes([b]).lower()[0]]) for b in t)])
        nocount = r.random() < .3
        lines = [style(model.text(x).encode())[:2 * size if nocount else None] for x in recs]
        wr(pt, b"\n".join(lines) + b"\n")
        q = pool.run(["--txt-to-bin", "-i", pt, "-o", pb, "--force"] + model.FLAG[fmt])
        sane(q, "txt to bin")
        expect(q.rc == 0, "conversion failed", q)
        for g, w, l in zip(model.unpack(rd(pb), fmt), recs, lines):
            w = (w[0], -1) if nocount else w
            expect(g == w, f"the text {l!r} became the record {model.text(g)}", q)
        expect(os.path.getsize(pb) == len(recs) * model.REC[fmt], "records are missing", q)
        ck.ran(c["sig"], n=2 * len(recs))
        ck.count("records_converted_both_ways", len(recs))
        # validation
        fmt = r.choice(["sha1", "ntlm", "sha1t64"])
        n = 2 * model.HASH[fmt]
        pb = wr(os.path.join(d, "s"), model.pack([(bytes([7]) * (n // 2), 3)]))
        for _ in range(12):
            s = "".join(r.choice("0123456789ABCDEF") for _ in range(n))
            k = r.randrange(4)
            if k:
                i = r.randrange(n)
                s = [s[:i] + r.choice("abcdefGg:@`/ .-+\n\x7fé") + s[i + 1:], s[:i], s + r.choice("0A ") * r.randrange(1, 5)][k - 1]
            q = spool.run([pb, "--hash"] + model.FLAG[fmt] + ["--", s] if s.startswith("-") else [pb, s, "--hash"] + model.FLAG[fmt])
            ok = re.fullmatch("[0-9A-F]{%d}" % n, s) is not None
            sane(q, f"hash argument {s!r}")
            expect((q.rc == 0) == ok, f"the {fmt} hash {s!r} was {'accepted' if q.rc == 0 else 'refused'}", q)
            ck.ran((fmt, s))
            ck.count("hash_arguments_judged")

    cases = []
    if THOROUGH:
        w = 1 << 26
        for i in range(64):     # every count
            c = dict(exe="codec-plain", n=0, lo=-2**31 + i * w, hi=-2**31 + (i + 1) * w, step=1)
            c["seed"] = SEED * 1000 + i
            c["sig"] = f"all-{i}"
            cases.append((c["sig"], c))
    for i in range(8):
        w = 1 << 29
        c = dict(sig=f"sweep-{i}", exe="codec-plain", n=0, lo=-2**31 + i * w, hi=-2**31 + (i + 1) * w, step=197, seed=SEED * 100 + i)
        cases.append((c["sig"], c))
        c = dict(sig=f"asan-{i}", exe="codec", n=scale(20000, 200000), lo=-2**31 + i * w, hi=-2**31 + (i + 1) * w, step=scale(9973, 997),
                 seed=SEED * 100 + 50 + i)
        cases.append((c["sig"], c))
    ck.cases(case, cases, jobs=NCPU)
    ck.cases(outside, [(f"outside-{i}", dict(sig=f"outside-{i}", fmt=("sha1", "ntlm")[i % 2], n=200)) for i in range(scale(60, 500))])
    pool.close()
    spool.close()
    rc = ck.finish()
    p = os.path.join(VERIF, "evidence", "C17.json")
    e = json.load(open(p))
    e["coverage"]["distinct_nontrivial"] += nontrivial["n"]
    json.dump(e, open(p, "w"), indent=1)
    return rc
