"""C18: NTLM hashes equal MD4 of the UTF-16LE password."""
from checks.files import *
from checks.search import pw
# (MD4 reads words from wherever the caller's data is, on purpose, on processors that allow it)
BUILD = {"ntlm": ("harness", "ntlm_h.cpp", "asan", {"optional": True, "flags": ["-fno-sanitize=alignment"]}),
         "ntlm-plain": ("harness", "ntlm_h.cpp", "plain", {"optional": True}),
         "search": ("batch", "search", "asan")}


def main(exe):
    ck = Check("C18", "exploration",
               "a case is a password whose NTLM hash by the code under test is compared with an independent UTF-8/UTF-16 "
               "encoder and MD4 (all code points alone, before and after another one, computed in four threads at "
               "once; all lengths; random ones from all planes), or a message digested by MD4 in pieces (every cut of "
               "every length to 200, many cuts, two messages at once, messages longer than 2^29 bytes); the same again "
               "from outside with hibp-search looking for passwords in databases of independent hashes. Every evaluation "
               "has its own password or cuts, so distinct_nontrivial counts evaluations of non-empty ones")
    extra = {"n": 0}

    def case(c, d):
        if c["exe"] not in exe:
            ck.notes.append(f"{c['exe']}: the functions are not there any more in the form the harness knows")
            return
        r = run([exe[c["exe"]], SEED, c["mode"], c["amount"]], timeout=600)
        if r.outs.startswith("MISMATCH"):
            raise Violation(f"{c['sig']}: {r.outs[:1500]}")
        sane(r, c["sig"])
        expect(r.rc == 0, f"{c['sig']}: exit {r.rc}", r)
        n = int(r.outs.split("=")[1])
        ck.ran(c["sig"], n=n)
        ck.count(f"{c['mode']}_judged", n)
        with ck.lock:
            extra["n"] += n - 1
        ck.sample(dict(case=c["sig"], evaluations=n))
    pool = batch.Pool(exe["search"], ck.tmp)

    def outside(c, d):
        r = rnd("c18", c["sig"])
        pws = set()
        while len(pws) < 40:
            p = pw(r)
            if r.random() < .3:
                p = "".join(chr(r.choice([r.randrange(1, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randrange(1, 70))).encode()
            if p and b"\0" not in p and not p.startswith(b"-"):
                pws.add(p)
        pws = sorted(pws)
        r.shuffle(pws)
        recs = sorted({model.ntlm(p): i + 1 for i, p in enumerate(pws[:30])}.items())
        path = wr(os.path.join(d, "db"), model.pack(recs))
        known = dict(recs)
        for p in pws:
            q = pool.run([path, p, "--ntlm"])
            sane(q, f"search for {p!r}")
            expect(q.rc == 0, f"search for {p!r} failed", q)
            want = known.get(model.ntlm(p))
            m = re.findall(rb":(-?\d+)\s*$", q.out, re.M)
            got = int(m[-1]) if m and b"not found" not in q.out else None
            expect(got == want, f"password {p!r} (ntlm {model.ntlm(p).hex().upper()}): count {got}, expected {want}", q)
            ck.ran(p)
            ck.count("passwords_looked_for")
    cases = []
    for exe_, mode, amount in [("ntlm", "codepoints", scale(16, 1)), ("ntlm", "lengths", scale(300, 1500)), ("ntlm", "random", scale(60000, 3000000)),
                               ("ntlm", "splits", scale(200, 400)), ("ntlm-plain", "large", 1), ("ntlm-plain", "codepoints", 1)] + \
            ([("ntlm-plain", "large", 2)] if THOROUGH else []):
        sig = f"{mode}-{exe_}-{amount}"
        cases.append((sig, dict(sig=sig, exe=exe_, mode=mode, amount=amount)))
    ck.cases(case, cases, jobs=NCPU)
    ck.cases(outside, [(f"outside-{i}", dict(sig=f"outside-{i}")) for i in range(scale(40, 800))])
    pool.close()
    rc = ck.finish()
    p = os.path.join(VERIF, "evidence", "C18.json")
    e = json.load(open(p))
    e["coverage"]["distinct_nontrivial"] += extra["n"]
    json.dump(e, open(p, "w"), indent=1)
    return rc
