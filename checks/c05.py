"""C05: text downloads are exact and agree with binary downloads."""
from checks.dl import *
BUILD = {"dl": ("app", "download", "asan", {"instr": True}), "conv": ("app", "convert", "asan"),
         "fast": ("app", "download", "plain"), "fullapi": FULLAPI}


def main(exe):
    ck = Check("C05", "exploration",
               "a case is one --txt-out download by the real program (API content, answer shapes, completion order, "
               "options and schedule perturbation drawn from the seed), judged byte for byte against the model of the "
               "API, then converted by the real hibp-convert and compared with the model's binary database, and in a "
               "part of the cases with a real binary download; non-trivial: at least 2 records")

    def case(c, d):
        s = Scenario(txt=True, **c)
        out, ntlm = os.path.join(d, "db.txt"), s.fmt == "ntlm"
        env = s.penv(d)
        with s.mock() as m:
            r = run([exe["dl"]] + s.args(out), env={**m.env(), **env}, timeout=60)
            released = list(m.released)
            modes = {x[3] for x in m.log}
        sane(r, "hibp-download --txt-out")
        expect(r.rc == 0, "the download failed although every request was answered", r)
        got = rd(out)
        exact(got, s.want(), "text database")
        expect(modes <= {"mode=ntlm" if ntlm else ""}, f"wrong API mode {modes}", r)
        bin_ = os.path.join(d, "db.bin")
        r = run([exe["conv"], "--txt-to-bin", "-i", out, "-o", bin_] + model.FLAG[s.fmt], timeout=60)
        sane(r, "hibp-convert")
        expect(r.rc == 0, "conversion failed", r)
        exact(rd(bin_), s.api.db(0, s.n, s.fmt), "converted text database", model.REC[s.fmt])
        if s.r.random() < .35:
            s.txt = False
            out2 = os.path.join(d, "db2")
            with s.mock() as m:
                r = run([exe["dl"]] + s.args(out2), env={**m.env(), **s.penv(d)}, timeout=60)
            sane(r, "hibp-download")
            exact(rd(out2), rd(bin_), "binary download / converted text download", model.REC[s.fmt])
            ck.count("compared_with_a_binary_download")
            s.txt = True
        nrec = s.desc()["records"]
        ck.ran((c, SEED), nontrivial=nrec > 1)
        ck.count("lines_compared", nrec)
        ck.seen("completion_orders", tuple(released))
        ck.sample(s.desc())
        trace(ck, d)

    cases = []
    for i in range(scale(60, 1200)):
        fmt = ("sha1", "ntlm")[i % 2]
        cases.append((f"any-{i}", dict(sig=f"any-{i}", fmt=fmt, shuffle=i % 7 == 0)))
    for fmt in ("sha1", "ntlm"):
        for shape in ("plain", "frag", "chunked", "tiny", "close"):
            for eol in (b"\n", b"\r\n"):
                for final in (True, False):
                    sig = f"shape-{fmt}-{shape}-{len(eol)}-{final}"
                    cases.append((sig, dict(sig=sig, fmt=fmt, shape=shape, eol=eol, final=final, n=7,
                                            sizes=lambda r, p: [3, 1, 0, 12, 1, 30, 2][p])))
        cases.append((f"body-{fmt}", dict(sig=f"body-{fmt}", fmt=fmt, n=6, shape="mixed",
                                          sizes=lambda r, p: [1, 1700, 2500, 1560, 1638, 30][p])))
    cases.append(("many", dict(sig="many", fmt="sha1", n=scale(600, 5000), par=300, shape="plain", perturb=None,
                               sizes=lambda r, p: r.randrange(1, 4))))
    ck.cases(case, cases, jobs=12)
    # long ranges, from a stand-in that is quick enough for them
    wholes, r = [], rnd("whole")
    for fmt in ("sha1", "ntlm"):
        for n in scale([r.choice([65536, 65537, 70000, 131073])], [65535, 65536, 65537, 131073, 300000, None]):
            for par in scale([r.choice([40, 300])], [5, 300]):
                wholes.append((f"range-{fmt}-{n}-{par}", dict(fmt=fmt, n=n, par=par, txt=True, opts=["--no-progress"])))
    ck.cases(lambda c, d: range_run(ck, exe["fast"], exe["fullapi"], d, **c), wholes, jobs=4)
    return ck.finish()
