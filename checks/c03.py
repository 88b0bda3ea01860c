"""C03: an interrupted download can be resumed to the identical database."""
from checks.dl import *
BUILD = {"dl": ("app", "download", "asan"), "fast": ("app", "download", "plain")}


def main(exe):
    ck = Check("C03", "fault_enumeration",
               "crash points: (cut) the output of an uninterrupted download cut at a byte, every byte around the "
               "ends of prefixes, records and of the file, others sampled (thorough: every byte of several "
               "databases); (kill) the real downloader killed by the kernel (SIGXFSZ) while it writes, at a chosen "
               "byte, or by SIGKILL while the API holds answers back, several times in a row; then resumed by the "
               "real program; judged byte for byte; (huge) files of 2 to 100 GB (with holes) cut within their last "
               "prefixes; (cannot) resumes that cannot proceed; non-trivial: the "
               "interrupted file differs from the final one",
               ["what was written before the interruption reached the file (no loss of the page cache)"])

    # -- 1. all crash points of a given database
    apis = {}

    def api_of(name, fmt="sha1t64"):
        n, hi = {"small": (6, 6), "single": (8, 4), "big": (3000, 3), "hex": (12, 40), "gap": (9, 5), "dup": (7, 5)}[name]
        twins = 16 if fmt == "sha1t64" else 40
        if (name, twins) not in apis:
            sizes = {"small": lambda r, p: n + p % 2, "single": lambda r, p: 1, "big": lambda r, p: n + p,
                     "hex": lambda r, p: r.randrange(1, n), "gap": lambda r, p: [5, 0, 3, 0, 6][p],
                     "dup": lambda r, p: [2, 6, 4, 3, 7][p]}[name]
            apis[name, twins] = (model.Api(f"{SEED}/{name}", 0, hi, sizes, twins), hi)
            if name == "dup":       # the first or last records of a prefix are the same when truncated to 64 bits
                data = apis[name, twins][0].data["sha1"]
                for q in range(hi):
                    k = [2, 3, 4, 2, 3][q]
                    first = q != 2
                    same = data[q][0 if first else -1][0][:8]
                    i = 0 if first else len(data[q]) - k
                    data[q][i:i + k] = sorted((same + h[8:], c) for h, c in data[q][i:i + k])
        return apis[name, twins]
    for n in ("small", "single", "big", "hex", "gap", "dup"):
        api_of(n), api_of(n, "sha1")

    def resume(d, fmt, api, hi, out, limit=None, exe_=None, extra=(), policy="asap", respond=None, timeout=60):
        def ok(p, ntlm, a):
            return mock.Reply(body=api.body(int(p, 16), ntlm, final=extra_final))
        extra_final = rnd(out, fmt).random() < .5
        with mock.Mock(respond or ok, policy=policy, want=4, seed=SEED) as m:
            r = run([exe_ or exe["dl"], "--testing", "--resume", "--limit", limit or hi, "--no-progress"]
                    + list(extra) + model.FLAG[fmt] + [out], env=m.env(), timeout=timeout)
            return r, list(m.log), list(m.other)

    def cut(c, d):
        api, hi = api_of(c["api"], c["fmt"])
        fmt, full = c["fmt"], api.db(0, hi, c["fmt"])
        for at in c["at"]:
            out = wr(os.path.join(d, "db"), full[:at])
            r, log, other = resume(d, fmt, api, hi, out, exe_=exe[c["exe"]])
            sane(r, f"resume at byte {at}")
            got = rd(out)
            if got != full:
                raise Violation(f"resumed from a {fmt} file cut at byte {at} (record size {model.REC[fmt]}): "
                                f"{first_diff(got, full, model.REC[fmt])}\n{r.brief()}")
            expect(r.rc == 0 or at == len(full), f"resume at byte {at}: right data, but exit {r.rc}", r)
            mode = "mode=ntlm" if fmt == "ntlm" else ""
            expect(all(x[3] == mode for x in log), f"wrong API mode {log[:3]}", r)
            ck.ran((c["api"], fmt, at, SEED), nontrivial=at != len(full))
            ck.count("crash_points")
            ck.count("resumes_within_a_prefix", "trimming" in r.errs)

    def points(api, hi, fmt):
        """offsets around the ends of the prefixes"""
        rec, o, pts = model.REC[fmt], 0, set()
        total = len(api.db(0, hi, fmt))
        for p in range(hi):
            k = len(api.recs(p, fmt)) * rec
            for e in (o, o + k):
                pts |= {e - rec - 1, e - rec, e - rec + 1, e - 1, e, e + 1, e + rec - 1, e + rec, e + rec + 1}
            pts.add(o + (k // rec // 2) * rec)
            o += k
        return sorted(x for x in pts if 0 <= x <= total)

    cases = []
    for fmt in FMT:
        for name in ("small", "single", "big", "hex", "gap") + (("dup",) if fmt == "sha1t64" else ()):
            api, hi = api_of(name, fmt)
            total = len(api.db(0, hi, fmt))
            if THOROUGH and name != "big":
                at = list(range(total + 1))
            else:
                at = points(api, hi, fmt)
                r = rnd("pts", fmt, name)
                k = scale({"small": 34, "single": 16, "big": 8, "hex": 22, "gap": 14, "dup": 24}[name], 400)
                must = [0, 1, total, total - 1, model.REC[fmt]]
                at = sorted(set(must + r.sample(at, min(k, len(at))) + [r.randrange(total + 1) for _ in range(5)]))
            step = 12
            for i in range(0, len(at), step):
                e = "dl" if i % (3 * step) == 0 else "fast"
                cases.append((f"cut-{name}-{fmt}-{at[i]}", dict(api=name, fmt=fmt, at=at[i:i + step], exe=e)))

    # -- 2. the real program killed while writing or waiting
    def kill(c, d):
        s = Scenario(c["sig"], fmt=c["fmt"], n=c["n"], par=c["par"], sizes=lambda r, p: r.randrange(1, c["size"]),
                     progress=["--no-progress"], shape="plain")
        out, full, r = os.path.join(d, "db"), s.want(), rnd("kill", c["sig"])
        rec = model.REC[s.fmt]
        first, history = True, []
        for step in range(12):
            size = os.path.getsize(out) if os.path.exists(out) else 0
            how = r.choice(["byte", "byte", "time", "hard"]) if step < c["kills"] else "none"
            history.append((how, size))
            if not first and size >= len(full) and how != "none":
                how = "none"
            held = r.randrange(s.n)

            def respond(p, ntlm, a):
                if how == "hard" and int(p, 16) == held:
                    return mock.Reply(status=500)
                return s.ok(p, ntlm)
            kw = {}
            if how == "byte":
                kw["fkill"] = r.randrange(size, len(full))
            with s.mock(respond) as m:
                if how == "time":
                    stop = r.randrange(len(full) // rec + 1)

                    def started(p, stop=stop):
                        def watch():
                            t = time.time() + r.random() * .15
                            while p.poll() is None and time.time() < t:
                                time.sleep(.002)
                            try:
                                p.kill()
                            except OSError:
                                pass
                        threading.Thread(target=watch, daemon=True).start()
                    kw["started"] = started
                q = run([exe["dl"]] + s.args(out, resume=not first), env=m.env(), timeout=60, **kw)
            ck.count("interrupted_by_" + how, how != "none" and q.rc != 0)
            if q.rc not in (-25, -9, 128 + 25):
                sane(q, f"{history}")
            if not os.path.exists(out):
                continue        # killed before it opened its output: starts again
            first = False
            got = rd(out)
            if how == "none":
                expect(got == full, f"{s.fmt}, interrupted {history}: {first_diff(got, full, rec)}", q)
                expect(q.rc == 0 or size == len(full), f"interrupted {history}: exit {q.rc}", q)
                break
            leading_part(got[:len(got) // rec * rec], full, rec, f"interrupted {history}")
        ck.ran((c, SEED), nontrivial=len(history) > 1)
        ck.sample(dict(case=c["sig"], fmt=s.fmt, bytes=len(full), interrupted=history))

    for i in range(scale(24, 400)):
        r = rnd("killcase", i)
        cases.append((f"kill-{i}", dict(sig=f"kill-{i}", fmt=r.choice(FMT), n=r.choice([2, 5, 20, 60]),
                                        par=r.choice([1, 4, 300]), size=r.choice([3, 30, 900]),
                                        kills=r.choice([1, 2, 5]))))

    # -- 3. resumes that cannot proceed leave what is there
    def cannot(c, d):
        fmt, why = c["fmt"], c["why"]
        api, hi = api_of("small", fmt)
        full = api.db(0, hi, fmt)
        rec = model.REC[fmt]
        end = len(full) // rec // 2 * rec
        keep = full[:end + c["tail"]]
        out = wr(os.path.join(d, "db"), keep)
        other = model.Api("another", 0, hi, lambda r, p: 7)
        html = b"<!DOCTYPE html><html>\r\n<b>sorry: no service</b>\r\n" + b"x" * 300 + b": try again\r\n</html>"

        def respond(p, ntlm, a):
            body = api.body(int(p, 16), ntlm)
            return {"404": mock.Reply(status=404, body=b""), "500html": mock.Reply(status=500, body=html),
                    "200html": mock.Reply(body=html), "empty": mock.Reply(body=b""),
                    "short": mock.Reply(body=b"AB:1\r\n"), "colon": mock.Reply(body=b":"),
                    "nocolon": mock.Reply(body=b"A" * 200), "foreign": mock.Reply(body=other.body(int(p, 16), ntlm)),
                    "cut": mock.Reply("cut", body=body, cut=len(body) // 2),
                    "reset": mock.Reply("reset"), "garbage": mock.Reply("garbage", body=b"\0\0\0\0"),
                    "stall": mock.Reply("stall", body=body, cut=len(body) // 2),
                    "binary": mock.Reply(body=bytes(range(256)) * 4)}[why]
        if why == "down":
            m = mock.Mock(respond).start()
            m.stop()
            q = run([exe["dl"], "--testing", "--resume", "--limit", hi, "--no-progress"] + model.FLAG[fmt] + [out],
                    env=m.env(), timeout=60)
        else:
            q, log, _ = resume(d, fmt, api, hi, out, respond=respond)
        sane(q, f"resume, server answers: {why}")
        expect(q.rc not in (0, None), f"resume succeeded although the server answers: {why}", q)
        expect(q.errs.strip() != "", "no message", q)
        got = rd(out)
        expect(got[:end] == full[:end] and keep.startswith(got),
               f"a resume that could not proceed ({why}) changed the file: {first_diff(got, full[:end], rec)}", q)
        ck.ran((c, SEED))
        ck.count("resumes_that_cannot_proceed")

    whys = ["down", "404", "500html", "200html", "empty", "short", "colon", "nocolon", "foreign", "cut", "reset",
            "garbage", "binary"]
    for fmt in FMT:
        for i, why in enumerate(whys + (["stall"] if fmt == "sha1" or THOROUGH else [])):
            for tail in ((0,), (1,), (model.REC[fmt] - 1,))[(i + len(fmt)) % 3] if not THOROUGH else (0, 1, 3, 7):
                cases.append((f"cannot-{why}-{fmt}-{tail}", dict(fmt=fmt, why=why, tail=tail)))

    # -- an answer to the first request that is none, although its body looks like one
    def error_status(c, d):
        fmt, r = c["fmt"], rnd("errstatus", c["sig"])
        api, hi = api_of(c["api"], fmt)
        full, rec = api.db(0, hi, fmt), model.REC[fmt]
        for i in range(scale(5, 40)):
            p = r.randrange(hi)
            before, here = len(api.db(0, p, fmt)), len(api.recs(p, fmt))
            k = r.randrange(here + 1)
            if before + k == 0:
                continue
            keep = full[:before + k * rec]
            out = wr(os.path.join(d, "db"), keep)
            st = r.choice([201, 202, 203, 206, 226, 300, 301, 302, 304, 307, 308, 400, 401, 403, 404, 418, 429, 500, 502, 503, 504, 599])
            how = r.choice(["written", "written", "written", "all", "none", "less", "other", "more"])

            def respond(q, ntlm, a, st=st, how=how, k=k):
                body = api.body(int(q, 16), ntlm)
                if m_seen or st == 304:
                    return mock.Reply(body=body)
                m_seen.append(q)
                lines = body.strip().split(b"\r\n")
                kk = k or len(lines)    # at the end of a prefix the one before is asked for
                use = {"written": lines[:kk], "all": lines, "none": [], "less": lines[:max(1, kk - 1)], "more": lines[:kk + 1],
                       "other": api.body((int(q, 16) + 1) % hi, ntlm).strip().split(b"\r\n")}[how]
                return mock.Reply(status=st, body=b"\r\n".join(use))
            m_seen = []
            q, log, _ = resume(d, fmt, api, hi, out, respond=respond, exe_=exe["fast"])
            what = f"resume after {k} of {here} records of prefix {p}, first answer: status {st}, body {how}"
            sane(q, what)
            got = rd(out)
            if q.rc == 0:
                expect(got == full, f"{what}: {first_diff(got, full, rec)}", q)
                ck.count("resumes_over_an_error_status")
            else:
                # what a resume trims before it fails is fetched again by the next
                expect(q.errs.strip() and full.startswith(got) and len(got) % rec == 0 and (len(got) >= before or k == 0), f"{what}: {first_diff(got, full, rec)}", q)
                ck.count("resumes_refused_over_an_error_status")
            ck.ran((fmt, p, k, st, how, SEED))

    for fmt in FMT:
        for name in ("small", "single", "hex", "gap"):
            cases.append((f"errstatus-{fmt}-{name}", dict(sig=f"{fmt}-{name}", fmt=fmt, api=name, errstatus=1)))

    def nofile(c, d):
        q = run([exe["dl"], "--testing", "--resume", "--limit", "3", "--no-progress", os.path.join(d, "absent")],
                timeout=60)
        sane(q, "resume without a file")
        expect(q.rc not in (0, None) and q.errs.strip(), "resume of a file that does not exist", q)
        ck.ran("nofile")

    def tail_resume(c, d):
        """no --limit: a cut within the very last prefixes of the whole range"""
        fmt, k = c["fmt"], 3
        lo, hi = 0x100000 - k, 0x100000
        api = model.Api(f"{SEED}/tail/{fmt}", lo, hi, lambda r, p: 9)
        full = api.db(lo, hi, fmt)
        for at in (1, 8, 9, 10, 17, 18, 19, 26):
            out = wr(os.path.join(d, "db"), full[:at * model.REC[fmt]])
            with mock.Mock(lambda p, n, a: mock.Reply(body=api.body(int(p, 16), n) if int(p, 16) >= lo else b""),
                           policy="random", want=3, seed=SEED) as m:
                # a first prefix that is incomplete is done again from its start
                q = run([exe["fast"], "--testing", "--resume", "--no-progress"] + model.FLAG[fmt] + [out],
                        env=m.env(), timeout=60)
            sane(q, "resume")
            exact(rd(out), full, f"resumed at record {at} of the last prefixes", model.REC[fmt])
            ck.ran(("tail", fmt, at))
            ck.count("crash_points")

    # -- 4. files that are larger than 32 bits can count
    def huge(c, d):
        fmt, zeros = c["fmt"], c["zeros"]
        r, rec = rnd("huge", c["sig"]), model.REC[fmt]
        lo, hi = 3, 8
        api = model.Api(f"{SEED}/huge/{fmt}", lo, hi, lambda r, p: r.choice([1, 5, 600]))
        tail = [x for p in range(lo, hi) for x in api.recs(p, fmt)]
        full = model.pack(tail)
        ends = [0]
        for p in range(lo, hi):
            ends.append(ends[-1] + len(api.recs(p, fmt)) * rec)
        for at in [ends[2], r.randrange(ends[1] + 1, ends[-1]), r.choice(ends[1:]) - 1, len(full) - rec]:
            at = max(at, rec)       # at least one record after the zeros
            out = model.sparse(os.path.join(d, "db"), fmt, zeros, ())
            if out is None:
                ck.count("no_room_for_huge_files")
                return
            with open(out, "ab") as f:
                f.write(full[:at])
            q, log, _ = resume(d, fmt, api, hi, out, exe_=exe["fast"])
            sane(q, f"resume of {zeros * rec + at} bytes")
            diff = model.differs(out, fmt, zeros, tail)
            expect(diff is None, f"resumed from a {fmt} file cut at byte {zeros * rec + at}: {diff}", q)
            ck.ran((c, at, SEED), nontrivial=at != len(full))
            ck.count("resumes_of_huge_files")
            os.unlink(out)

    for fmt in FMT:
        rec = model.REC[fmt]
        for z in ((1 << 31) // rec - 2, (1 << 32) // rec - 2, (1 << 32) // rec + 100, (1 << 33) // rec, 1 << 31, 1 << 32):
            cases.append((f"huge-{fmt}-{z}", dict(sig=f"huge-{fmt}-{z}", fmt=fmt, zeros=z)))

    def go(c, d):
        (error_status if "errstatus" in c else huge if "zeros" in c else cut if "at" in c else kill if "kills" in c else cannot if "why" in c else tail_resume if "tailof" in c
         else nofile)(c, d)
    cases += [("nofile", {})] + [(f"tailof-{f}", dict(fmt=f, tailof=1)) for f in FMT]
    cases.sort(key=lambda c: "stall" not in c[0])
    ck.cases(go, cases, jobs=10)
    return ck.finish()
