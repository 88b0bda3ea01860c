"""C16: hash comparison is exactly bytewise lexicographic order."""
from checks.files import *

VARIANTS = {}
for cc, fl in (("gcc", "asan"), ("clang", "clang")):
    VARIANTS[f"{cc}-sse2"] = (fl, [])
    VARIANTS[f"{cc}-avx2"] = (fl, ["-mavx2", '-DNEED_CPU="avx2"'])
    VARIANTS[f"{cc}-avx512bw"] = (fl, ["-mavx512bw", '-DNEED_CPU="avx512bw"'])
VARIANTS["gcc-O2-native"] = ("plain", ["-march=native"])      # as the project builds its release
BUILD = {k: ("harness", "arrcmp_h.cpp", f, {"alone": True, "optional": True, "flags": fl}) for k, (f, fl) in VARIANTS.items()}
BUILD["sort"] = ("batch", "sort", "asan")
BUILD["sort-native"] = ("batch", "sort", "plain", {"flags": ["-march=native"]})


def main(exe):
    ck = Check("C16", "exploration",
               "a case is a pair of arrays compared three ways by the code under test, compiled for one instruction set "
               "by one compiler with address and undefined behaviour sanitizers: every length 0..70 and some up to 257, a "
               "difference at every position, equal and contradicting bytes behind it, 22 alignments, every pair of "
               "values of one byte, and records that differ in hash, count or both; the oracle is memcmp(). Programs "
               "sorting records confirm it from outside. distinct_nontrivial counts (variant, length, position, "
               "alignment) differences")
    total = {"positions": 0}

    def case(v, d):
        if v not in exe:
            ck.notes.append(f"{v}: the comparison functions are not there any more in the form the harness knows")
            return
        r = run([exe[v], SEED, scale(1, 12)], timeout=600)
        if r.outs.startswith("MISMATCH"):
            raise Violation(f"{v}: {r.outs[:1500]}")
        sane(r, v)
        if r.outs.startswith("unsupported"):
            ck.notes.append(f"{v}: not supported by this processor")
            return
        if r.rc == -4:
            raise RuntimeError(f"{v}: illegal instruction")
        expect(r.rc == 0, f"{v}: exit {r.rc}", r)
        n = {k: int(x) for k, x in (p.split("=") for p in r.outs.split())}
        ck.ran(v, n=n["evaluations"])
        ck.count("equal_pairs", n["equal"])
        ck.seen("variants_run", v)
        with ck.lock:
            total["positions"] += n["positions"]
        ck.sample(dict(variant=v, **n))
    pools = {k: batch.Pool(exe[k], ck.tmp) for k in ("sort", "sort-native")}

    def sorts(c, d):
        """from outside: sorting is nothing but comparisons"""
        r = rnd("c16", c["sig"])
        fmt = c["fmt"]
        recs = records(r, fmt, c["n"], "ties", order="random")
        path = wr(os.path.join(d, "db"), model.pack(recs))
        q = pools[c["exe"]].run(["-i", path] + model.FLAG[fmt])
        sane(q, "hibp-sort")
        expect(q.rc == 0, "hibp-sort failed", q)
        got = model.unpack(rd(path + ".sorted"), fmt)
        want = sorted(recs)
        bad = next((i for i in range(len(want)) if got[i] != want[i]), None)
        expect(bad is None, f"sorted by hash, record {bad} is {model.text(got[bad or 0])}, expected {model.text(want[bad or 0])}", q)
        ck.ran(c["sig"])
        ck.count("records_sorted", c["n"])
    ck.cases(case, [(v, v) for v in VARIANTS], jobs=NCPU)
    cases = []
    r = rnd("c16cases")
    for i in range(scale(160, 2000)):
        c = dict(sig=f"sort-{i}", fmt=("sha1", "ntlm")[i % 2], n=r.choice([2, 3, 10, 100, 1000]), exe=("sort", "sort-native")[i // 2 % 2])
        cases.append((c["sig"], c))
    ck.cases(sorts, cases)
    for p in pools.values():
        p.close()
    rc = ck.finish()
    p = os.path.join(VERIF, "evidence", "C16.json")
    e = json.load(open(p))
    e["coverage"]["distinct_nontrivial"] += total["positions"]
    json.dump(e, open(p, "w"), indent=1)
    return rc
