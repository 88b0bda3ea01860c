"""C23: public downloads come from the real API only."""
from checks.dl import *
from checks.files import failed_cleanly
from vlib import tls
import logging
logging.getLogger("asyncio").setLevel(logging.CRITICAL)
BUILD = {"app": ("app", "download", "plain"), "ca": ("shlib", "cafile.c", "plain"),
         "url": ("harness", "url_h.cpp", "asan", {"optional": True, "alone": True})}
BAD = ("untrusted", "wrong-host", "parent-host", "expired", "not-yet", "self-signed")


def main(exe):
    ck = Check("C23", "fault_enumeration",
               "a case is one run of the real hibp-download without --testing, its connections led to a server of ours by "
               "a proxy setting and, for the positive runs, with our certificate authority in the place of the system's: "
               "certificates that are valid, untrusted, self-signed, expired, not yet valid or for another host, a server "
               "that speaks no TLS, redirections to other places; new and resumed, all formats. The server records every "
               "connection and request; the output and the exit status are judged. And every prefix's url is compared "
               "through a harness. non-trivial: a TLS connection was attempted and the outcome is the right one",
               ["the list of trusted authorities is swapped by a preloaded library; the TLS implementation itself is trusted"])
    cdir = ck.dir()
    certs = tls.make(cdir)

    def case(c, d):
        r = rnd("c23", c["sig"])
        fmt, txt = c["fmt"], c["txt"]
        s = Scenario(c["sig"], fmt=fmt, n=r.choice([2, 3, 5, 20] if c["redirect"] == "first" else [1, 2, 5, 20]), txt=txt, perturb=None, sizes=lambda r, p: r.randrange(1, 30),
                     par=r.choice([1, 2, 5, 300]))
        kind = c["cert"]
        out = os.path.join(d, "out")
        want = s.want()
        victim = r.randrange(s.n)
        first = []                  # the request that a resume begins with
        start, keep = 0, b""
        if c["resume"]:
            start = r.randrange(1, s.n) if s.n > 1 else 0
            keep = s.api.db(0, start, fmt)
            if start and keep:
                wr(out, keep)
            else:
                start, keep = 0, b""
                wr(out, b"")
        elsewhere = s.mock()        # where redirections lead to
        elsewhere.start()

        def answer(p, ntlm, a):
            first.append(p)
            if c["redirect"] and (p == first[0] if c["redirect"] == "first" else int(p, 16) == max(victim, start)):
                loc = r.choice([f"http://127.0.0.1:{elsewhere.port}/{p}", f"http://{tls.HOST}/range/{p}", f"https://evil.example/range/{p}",
                                f"http://localhost:8090/{p}", f"//evil.example/range/{p}"])
                body = s.ok(p, ntlm).body
                return (f"HTTP/1.1 {r.choice([301, 302, 303, 307, 308])} Moved\r\nLocation: {loc}\r\nContent-Length: {len(body)}\r\n\r\n").encode() + body
            return s.ok(p, ntlm)
        args = [a for a in s.args(out, resume=c["resume"]) if a != "--testing"]
        m = tls.TlsMock(answer, certs.get(kind), connect=c["connect"], seed=c["sig"])
        with m:
            env = m.env()
            for k in ("SSL_CERT_FILE", "SSL_CERT_DIR", "CURL_CA_BUNDLE"):
                env[k] = ""
            if kind != "self-signed" or r.random() < .5:
                env.update(LD_PRELOAD=exe["ca"], VERIF_CA=certs["ca"])
            q = run([exe["app"]] + args, env=env, timeout=120)
        elsewhere.stop()
        what = f"download without --testing, {c['sig']}"
        sane(q, what)
        expect(not m.plain, f"{what}: a request outside TLS: {m.plain[:1]}", q)
        expect(all(t == tls.HOST + ":443" for t in m.connects), f"{what}: connections to {set(m.connects)}", q)
        expect(not elsewhere.log and not elsewhere.other and not elsewhere.connects, f"{what}: a redirection was followed: {elsewhere.log[:2]} {elsewhere.other[:2]}", q)
        expect(not m.other, f"{what}: a request that is not one for a range: {m.other[:1]}", q)
        got = rd(out) if os.path.exists(out) else b""
        stored = max(victim, start) if c["redirect"] != "first" else s.n
        good = kind in ("good", "wildcard") and c["connect"] == "tls"
        if good and not c["redirect"]:
            expect(q.rc == 0, f"{what}: failed", q)
            exact(got, want, what)
            asked = sorted(set(x[2] for x in m.log))
            expect(asked == ["%05X" % i for i in range(max(0, start - 1) if start else 0, s.n)], f"{what}: requests for {asked[:8]}...", q)
            expect(all((x[3] == "mode=ntlm") == (fmt == "ntlm") for x in m.log), f"{what}: requests in the wrong mode", q)
            ck.count("verified_downloads")
            ck.count("requests_through_tls", len(m.inside))
        else:
            failed_cleanly(q, what)
            if not good:
                expect(not m.inside, f"{what}: requests were sent to an impostor: {m.inside[:2]}", q)
                expect(got == keep, f"{what}: {len(got)} bytes in the output, {len(keep)} before", q)
                ck.count("handshakes_refused_by_the_client", m.failed)
            else:
                if c["redirect"] == "first" and keep:
                    expect(got == keep, f"{what}: {len(got)} bytes in the output, {len(keep)} before", q)
                expect(want[:len(got)] == got and len(got) <= len(s.api.db(0, stored, fmt) if not txt else s.api.txt(0, stored, fmt == "ntlm")),
                       f"{what}: the answer that redirects was stored", q)
            expect(m.connects, f"{what}: no connection was attempted", q)
            ck.count("impostors_refused")
        ck.ran(c["sig"], nontrivial=bool(m.connects))
        ck.seen("situations", (kind, c["connect"], c["redirect"], c["resume"], fmt))
        ck.sample(dict(case=c["sig"], connects=len(m.connects), inside=len(m.inside), exit=q.rc))

    def urls(c, d):
        if "url" not in exe:
            ck.notes.append("url() is not there any more in the form the harness knows")
            return
        q = run([exe["url"]], timeout=300)
        sane(q, "url harness")
        n = 0
        for l in q.outs.splitlines():
            m = re.fullmatch(r"(\d+) (\w+) (\S+)", l)
            p, f = int(m[1]), m[2]
            u = f"https://{tls.HOST}/range/{p:05X}" + ("?mode=ntlm" if f == "ntlm" else "")
            expect(m[3] == u, f"the url of prefix {p:05X} ({f}) is {m[3]}")
            n += 1
        expect(n >= 3 * (1 << 20) // c["step"], f"{n} urls", q)
        ck.ran("urls", n=n)
        ck.count("urls_compared", n)

    cases = []

    def add(cert, connect="tls", redirect=False, resume=False, fmt="sha1", txt=False):
        c = dict(cert=cert, connect=connect, redirect=redirect, resume=resume, fmt=fmt, txt=txt)
        c["sig"] = f"{cert}-{connect}-{f'redirect{redirect}' if redirect else ''}-{'resume' if resume else ''}-{fmt}{'-txt' if txt else ''}-{len(cases)}"
        cases.append((c["sig"], c))
    for _ in range(scale(1, 12)):
        for fmt in FMT:
            for resume in (False, True):
                for k in BAD:
                    add(k, resume=resume, fmt=fmt)
                for k in ("good", "good", "wildcard"):
                    add(k, resume=resume, fmt=fmt)
                for _ in range(2):
                    add("good", redirect=True, resume=resume, fmt=fmt)
                if resume:
                    for _ in range(3):
                        add("good", redirect="first", resume=True, fmt=fmt)
                for k in ("plain", "refuse"):
                    add("good", connect=k, resume=resume, fmt=fmt)
            if fmt != "sha1t64":
                for k in BAD + ("good",):
                    add(k, fmt=fmt, txt=True)
    ck.cases(case, cases, jobs=NCPU)
    ck.cases(urls, [("urls", dict(step=1))])
    return ck.finish()
