"""C22: a database file reads and writes like a vector of records."""
from checks.files import *
BUILD = {"ff": ("harness", "flatfile_h.cpp", "asan", {"alone": True, "optional": True}),
         "ff-plain": ("harness", "flatfile_h.cpp", "plain", {"alone": True, "optional": True}),
         "topn": ("batch", "topn", "asan"), "conv": ("batch", "convert", "asan")}


def harness(ck, exe, c, d, what):
    """one run of harness/flatfile_h.cpp -> evaluations"""
    if c["exe"] not in exe:
        ck.notes.append(f"{c['exe']}: the classes are not there any more in the form the harness knows")
        return 0
    r = run([exe[c["exe"]], d, c["seed"], c["mode"], c["rounds"]], timeout=600)
    if r.outs.startswith("MISMATCH"):
        raise Violation(f"{c['sig']} ({what}): {r.outs[:2500]}")
    sane(r, c["sig"])
    expect(r.rc == 0, f"{c['sig']}: exit {r.rc}", r)
    n = {k: int(x) for k, x in (p.split("=") for p in r.outs.split())}
    ck.ran(c["sig"], n=n["evaluations"])
    ck.count(f"{c['mode']}_histories", n["cases"])
    if c["mode"] == "fail":
        ck.count("reads_that_failed", n["refused"])
    ck.sample(dict(case=c["sig"], **n))
    return n["cases"]


def main(exe):
    ck = Check("C22", "exploration",
               "a case is a random history on the file classes, compared step by step with a vector: iterators of one "
               "object copied, assigned, moved, compared and dereferenced in any order with direct access in between, two "
               "objects on one file, moved objects, files of 2 to 64 GiB (with holes), standard algorithms, access past the end, files cut and restored "
               "under the object, and writers with any buffer size and flush pattern on files and streams, for record "
               "sizes 1 to 65 and buffers of 1 to 1000 records; also hibp-topn and hibp-convert of databases around "
               "their buffers. distinct_nontrivial counts the histories")
    done = {"n": 0}

    def case(c, d):
        n = harness(ck, exe, c, d, "reading and writing")
        with ck.lock:
            done["n"] += n
    cases = []
    for i in range(scale(4, 16)):
        for mode, rounds in (("read", 300), ("fail", 500), ("write", 300), ("huge", 6)):
            for e in ("ff", "ff-plain"):
                sig = f"{mode}-{e}-{i}"
                cases.append((sig, dict(sig=sig, exe=e, mode=mode, rounds=rounds * scale(1, 10) * (3 if e == "ff-plain" else 1),
                                        seed=SEED * 1000 + len(cases))))
    ck.cases(case, cases)
    tp, cp = batch.Pool(exe["topn"], ck.tmp), batch.Pool(exe["conv"], ck.tmp)

    def outside(c, d):
        """all records but one (the one with the lowest count) in order; all as text and back"""
        r = rnd("c22", c["sig"])
        fmt, n = c["fmt"], c["n"]
        recs = records(r, fmt, n, "any")
        i = r.randrange(n)
        recs[i] = (recs[i][0], -2**31)
        path = wr(os.path.join(d, "db"), model.pack(recs))
        q = tp.run([path, "-N", n - 1, "--stdout"] + model.FLAG[fmt])
        sane(q, "hibp-topn")
        lowest = min(recs, key=lambda x: (x[1], [255 - b for b in x[0]]))
        want = model.pack([x for x in recs if x != lowest])
        expect(q.rc == 0 and q.out == want, f"topn of all but one of {n}: {first_diff(q.out, want, model.REC[fmt])}", q)
        if fmt != "sha1t64":
            q = cp.run(["--bin-to-txt", "-i", path, "-o", path + ".txt"] + model.FLAG[fmt])
            sane(q, "hibp-convert")
            expect(q.rc == 0 and rd(path + ".txt") == model.lines(recs), f"text of {n} records", q)
            q = cp.run(["--txt-to-bin", "-i", path + ".txt", "--stdout"] + model.FLAG[fmt])
            sane(q, "hibp-convert")
            expect(q.rc == 0 and q.out == model.pack(recs), f"binary of {n} records", q)
        ck.ran(c["sig"])
        ck.count("records_through_the_programs", n)
    oc = []
    for f in ("sha1", "ntlm", "sha1t64"):
        for base in (4096 // model.REC[f], 65536 // model.REC[f], 1000):
            for k in (1, 2):
                for x in (-1, 0, 1, 2):
                    oc.append((f"outside-{f}-{base * k + x}", dict(sig=f"outside-{f}-{base * k + x}", fmt=f, n=base * k + x)))
    ck.cases(outside, oc)
    tp.close()
    cp.close()
    rc = ck.finish()
    p = os.path.join(VERIF, "evidence", "C22.json")
    e = json.load(open(p))
    e["coverage"]["distinct_nontrivial"] += done["n"]
    json.dump(e, open(p, "w"), indent=1)
    return rc
