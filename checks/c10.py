"""C10: the server rejects invalid requests and survives hostile input."""
from checks.srv import *
BUILD = {"asan": ("app", "server", "asan"), "fast": ("app", "server", "plain")}


def main(exe):
    ck = Check("C10", "exploration",
               "a case is one request or one byte sequence sent to the real server (built with address and undefined "
               "behaviour sanitizers): hashes of the wrong length, case or alphabet, endpoints without a database, "
               "unknown formats, paths and methods, malformed, oversized, truncated, mutated and abandoned "
               "requests, several at a time, with valid requests in between whose answers are judged against the set "
               "of records; the server's whole life is watched for sanitizer reports and for ending by itself; "
               "non-trivial: the request is not a valid one")

    async def once(port, data, patience, half=False):
        """-> (status, headers, body) or None when the server closed without an answer"""
        r, w = await asyncio.open_connection("127.0.0.1", port, limit=1 << 22)
        try:
            w.write(data)
            await w.drain()
            if half:
                w.write_eof()
            return await asyncio.wait_for(read_response(r), patience)
        except (asyncio.IncompleteReadError, ConnectionError):
            return None
        finally:
            w.close()

    def invalid(r, world):
        """-> (path, expected status)"""
        k = r.randrange(10)
        fm = list(world.dbs)
        f = r.choice(["sha1", "ntlm", "sha1t64"])
        n = 2 * model.HASH[f]
        h = (r.choice(world.hashes[f]) if f in world.dbs else r.randbytes(n // 2)).hex().upper()
        if k == 0:
            missing = [f for f in ("sha1", "ntlm", "sha1t64") if f not in world.dbs]
            if missing:
                f = r.choice(missing)
                return f"/check/{f}/{r.randbytes(model.HASH[f]).hex().upper()}", 400
        if k <= 4:
            i = r.randrange(n)
            bad = r.choice([h[:-1], h + "0", h + h, h[:1], h[:-1] + "g", h[:i] + r.choice("GZgz-_.~@:;,") + h[i + 1:],
                            h[:i] + "%" + r.choice(["20", "00", "0A", "3A", "C3%A9", "7F"]) + h[i + 1:], h + "%00", h + "%20",
                            "%20" + h, h[:i] + "a" + h[i + 1:], (h[:i] + "f" + h[i + 1:]).lower() + "f" * 0,
                            h + ":1", "0x" + h[2:], "%25" + h, h + "%0D%0A", "0" * 2000, "F" * (n + 1)])
            if bad.lower() == bad and bad.upper() == bad and len(bad) == n and bad.isdigit():
                bad += "1"
            return f"/check/{f}/{bad}", 400
        if k <= 6:       # a hash of another format's length
            g = r.choice([x for x in ("sha1", "ntlm", "sha1t64") if x != f])
            return f"/check/{f}/{r.randbytes(model.HASH[g]).hex().upper()}", 400
        if k == 7:
            bad = r.choice(["md5", "SHA1", "Sha1", "sha", "sha11", "ntlm2", "plain1", "PLAIN", "sha1t65", "sha1t", "x", "-", "~",
                            "sha1,", "sha1:"])
            return f"/check/{bad}/{h}", 404
        return r.choice(["/", "/check", "/check/", f"/check/{f}", f"/check/{f}/{h}/x", f"/check/{f}/{h}/x/y", "/favicon.ico",
                         f"/{f}/{h}", f"/Check//{h}/", f"/range/{h[:5]}", "/x" * 50, f"//check/{f}/{h}", "/check//x/y",
                         f"/check/{f}//{h}"]), 404

    def hostile(r, world):
        ok = request(world.valid(r)[0])
        k = r.randrange(14)
        if k == 0:
            return ok[:r.randrange(len(ok))]
        if k == 1:
            return r.randbytes(r.choice([1, 10, 1000, 20000]))
        if k == 2:
            b = bytearray(ok)
            for _ in range(r.randrange(1, 6)):
                b[r.randrange(len(b))] = r.randrange(256)
            return bytes(b)
        if k == 3:
            return request("/check/plain/" + "a" * r.choice([3000, 8000, 70000, 300000]))
        if k == 4:
            return ok[:-2] + b"X-Long: " + b"y" * r.choice([5000, 100000]) + b"\r\n\r\n"
        if k == 5:
            return ok[:-2] + b"".join(b"H%d: v\r\n" % i for i in range(r.choice([100, 3000]))) + b"\r\n"
        if k == 6:
            return b"POST /check/plain/x HTTP/1.1\r\nHost: x\r\nContent-Length: " + \
                r.choice([b"10", b"99999999999999999999", b"-1", b"abc", b"4294967296"]) + b"\r\n\r\n" + b"z" * 30
        if k == 7:
            return ok.replace(b"HTTP/1.1", r.choice([b"HTTP/1.0", b"HTTP/0.9", b"HTTP/2.0", b"HTTP/9999999.1", b"http/1.1", b""]))
        if k == 8:
            return r.choice([b"PUT", b"DELETE", b"OPTIONS", b"TRACE", b"CONNECT", b"HEAD", b"PATCH", b"G\0T", b"get", b""]) + ok[3:]
        if k == 9:      # escapes, invalid and odd
            s = "".join(r.choice(["%", "%%", "%4", "%zz", "%00", "%FF", "%C3%28", "%F4%90%80%80", "%ED%A0%80", "%0a", "%C0%80",
                                  "%25", "%u0041", "%-1", "%+1", "% 1", "%2", "%E2%82", "a", "+", ";", "\"", "<", "|", "\\", "^"])
                        for _ in range(r.randrange(1, 8)))
            return request("/check/" + r.choice(["plain", "plain", "sha1", "ntlm", "sha1t64", s]) + "/" + s)
        if k == 10:
            return request("/check/" + r.choice(["plain", "sha1"]) + "/" + bytes(r.randrange(128, 256) for _ in range(9)).decode("latin1")
                           ).decode().encode("latin1", "replace")
        if k == 11:     # many in one go
            return b"".join(request(world.valid(r)[0]) for _ in range(r.choice([2, 3, 20])))
        if k == 12:
            return ok + b"\r\n" * r.randrange(5) + ok[:r.randrange(len(ok))]
        return b"GET /check/sha1/" + b"A" * 40 + b"?" + r.choice([b"", b"x=y", b"%", b"a" * 5000]) + b" HTTP/1.1\r\nHost: x\r\n\r\n"

    def case(c, d):
        r = rnd("c10", c["sig"])
        bits = 18 if c["toc"] else None
        world = World(r, d, c["n"], c["fmts"], bits)
        opts = ["--threads", c["threads"]] + (["--json"] if c["json"] else []) + \
            (["--toc", "--toc-bits", bits] if c["toc"] else [])
        s = Server(exe["asan"], d, world.dbs, opts)
        patience = 60 * getattr(PATIENCE, "factor", 1)

        async def client(rr, n):
            for i in range(n):
                k = rr.random()
                if k < .35:
                    p, want = invalid(rr, world)
                    a = await once(s.port, request(p, close=rr.random() < .5), patience)
                    expect(a is not None, f"GET {p}: no answer, expected status {want}")
                    expect(a[0] == want, f"GET {p}: status {a[0]} ({a[2][:100]!r}), expected {want}")
                    expect(count_of(a[2], c["json"]) is None and count_of(a[2], not c["json"]) is None,
                           f"GET {p}: a count in the answer: {a[2]!r}")
                    ck.count(f"refused_with_{want}")
                    ck.ran(p)
                elif k < .7:
                    data = hostile(rr, world)
                    mode = rr.randrange(4)
                    if mode == 0:       # abandoned at once, by a reset
                        with socket.socket() as q:
                            q.connect(("127.0.0.1", s.port))
                            q.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, __import__("struct").pack("ii", 1, 0))
                            q.settimeout(5)
                            try:
                                q.sendall(data[:60000])
                            except OSError:
                                pass
                    else:
                        try:
                            r_, w_ = await asyncio.open_connection("127.0.0.1", s.port, limit=1 << 22)
                            w_.write(data)
                            await asyncio.wait_for(w_.drain(), 10)
                            if mode == 1:
                                w_.write_eof()
                            await asyncio.wait_for(r_.read(65536), rr.choice([.003, .02, .1]))
                        except (OSError, asyncio.TimeoutError):
                            pass
                        finally:
                            w_.close()
                    ck.count("hostile_byte_sequences")
                    ck.ran(data)
                else:
                    p, want = world.valid(rr)
                    a = await once(s.port, request(p, close=rr.random() < .5), patience)
                    expect(a is not None and a[0] == 200, f"GET {p}: {a}, expected count {want}")
                    expect(count_of(a[2], c["json"]) == want, f"GET {p}: {a[2]!r}, expected count {want}")
                    ck.count("valid_requests_in_between")
                    ck.ran(p, nontrivial=False)
        trouble = None
        try:
            async def all_():
                ts = [asyncio.create_task(client(rnd("cl", c["sig"], i), c["reqs"])) for i in range(c["clients"])]
                done, pending = await asyncio.wait(ts, return_when=asyncio.FIRST_EXCEPTION)
                for t in pending:
                    t.cancel()
                await asyncio.gather(*pending, return_exceptions=True)
                for t in done:
                    t.result()
            try:
                asyncio.run(all_())
            except asyncio.TimeoutError:
                if getattr(PATIENCE, "factor", 1) == 1:
                    raise Slow("an answer did not arrive in time")
                raise Violation("an answer did not arrive, twice")
            except (Violation, OSError) as v:
                trouble = v
        except BaseException:
            s.kill()
            raise
        try:
            time.sleep(.05)
            s.stop(f"server {c['sig']}")
        except Violation as v:
            raise Violation(f"{trouble or ''}\n{v}")
        if trouble:
            raise Violation(f"{trouble}\nserver: {' '.join(s.args)}\n{c}")
        ck.seen("server_configurations", (c["threads"], c["toc"], c["json"], tuple(c["fmts"])))
        ck.sample(dict(c))

    def flood(c, d):
        """more connections than the server can have open, then the same requests again"""
        r = rnd("c10flood", c["sig"])
        world = World(r, d, 200, ["sha1", "ntlm"])
        s = Server(exe["fast"], d, world.dbs, ["--threads", c["threads"]] + (["--json"] if c["json"] else []), nofile=c["nofile"])
        patience = 60 * getattr(PATIENCE, "factor", 1)
        try:
            def ask(n, must):
                for _ in range(n):
                    p, want = world.valid(r)
                    a = None
                    end = time.time() + (10 if exhausted else patience)
                    while a is None and time.time() < end:
                        try:
                            a = asyncio.run(once(s.port, request(p, close=True), 5 if not must or exhausted else patience))
                        except (OSError, asyncio.TimeoutError):
                            if not must:
                                return
                        if not must:
                            break
                    if a is None and not must:
                        return
                    expect(s.alive(), f"the server ended during or after {c['conns']} connections: {s.errors()[-2000:]}")
                    expect(a is not None, f"GET {p} after {c['conns']} connections: no answer within {patience} s")
                    expect(a[0] == 200 and count_of(a[2], c["json"]) == want or not must and a[0] >= 500,
                           f"GET {p} after {c['conns']} connections: {a}, expected count {want}")
                    ck.ran(p)
                    ck.count("requests_around_floods")
            exhausted = False
            if c["before"]:
                ask(5, True)
            for round_ in range(2):
                socks = []
                for i in range(c["conns"]):
                    q = socket.socket()
                    q.setblocking(False)
                    q.connect_ex(("127.0.0.1", s.port))
                    socks.append(q)
                time.sleep(.1)
                for q in socks:
                    try:
                        q.send(request(world.valid(r)[0])[:r.choice([1, 20, 10000])])
                    except OSError:
                        pass
                time.sleep(.2)
                exhausted = c["conns"] >= c["nofile"] - 40
                ask(2, False)
                for q in socks:
                    if r.random() < .3:
                        q.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, __import__("struct").pack("ii", 1, 0))
                    q.close()
                ck.count("connections_in_floods", len(socks))
                if exhausted:
                    # it may have stopped accepting for good: a known finding
                    try:
                        ask(1, True)
                    except Violation as v:
                        if "no answer" not in str(v):
                            raise
                        ck.violation("no-accept-after-descriptors-exhausted", str(v))
                        break
                ask(20, True)
        except BaseException:
            s.kill()
            raise
        s.stop(f"server {c['sig']}")
        ck.ran(c["sig"])

    cases = []
    r = rnd("c10cases")
    every = ["sha1", "ntlm", "sha1t64"]
    for i in range(scale(32, 500)):
        fm = [["sha1"], ["ntlm"], ["sha1t64"], every, ["sha1", "ntlm"], ["ntlm", "sha1t64"], ["sha1", "sha1t64"]][i % 7]
        c = dict(sig=f"any-{i}", fmts=fm, n=r.choice([1, 40, 600]), threads=min(os.cpu_count() or 1, r.choice([1, 2, 4])),
                 toc=i % 3 == 1, json=i % 2 == 1, clients=r.choice([1, 4, 10]), reqs=r.choice([40, 80]))
        cases.append((c["sig"], c))
    for i in range(scale(6, 60)):
        c = dict(sig=f"flood-{i}", **r.choice([dict(nofile=64, conns=150), dict(nofile=200, conns=400)] if i % 3 == 0 else
                                              [dict(nofile=200, conns=150), dict(nofile=1000, conns=400)]), threads=min(os.cpu_count() or 1, r.choice([1, 2, 4])),
                 json=r.random() < .5, before=r.random() < .5, flood=1)
        cases.append((c["sig"], c))
    ck.cases(lambda c, d: (flood if "flood" in c else case)(c, d), cases, jobs=6)
    return ck.finish()
