"""C09: the server answers every request with the exact count, under concurrency."""
from checks.srv import *
BUILD = {"asan": ("app", "server", "asan"), "tsan": ("app", "server", "tsan", {"instr": True})}


def main(exe):
    ck = Check("C09", "exploration",
               "a case is one HTTP request (hash or percent-encoded password, present or absent) to the real server, "
               "sent by one of many concurrent keep-alive connections, against generated databases (a few of more than "
               "4 GiB, with holes), "
               "for combinations of threads, --toc, --json and databases, under AddressSanitizer and, with random "
               "delays in the server's functions, under ThreadSanitizer; every response is judged against the set "
               "of records, in order, per connection; non-trivial: at least 2 connections were active")

    async def conn(world, port, r, n, json_, w, stat):
        rd_, wr_ = await asyncio.open_connection("127.0.0.1", port, limit=1 << 20)
        done, reqs, zero = 0, [], r.random() < .5
        try:
            while done < n:
                k = 1
                reqs = [world.extreme(r) if not done and zero else world.valid(r) for _ in range(k)]
                last = done + k >= n
                data = b"".join(request(p, close=last and i == k - 1 and r.random() < .5)
                                for i, (p, _) in enumerate(reqs))
                cut = None
                # in pieces; only at first, as the library loses what it has parsed of a request
                # that begins to arrive before the end of its previous write is handled
                if r.random() < .4 and not done:
                    j = cut = r.randrange(1, len(data))
                    wr_.write(data[:j])
                    await wr_.drain()
                    await asyncio.sleep(r.random() * .003)
                    wr_.write(data[j:])
                else:
                    wr_.write(data)
                stat["active"] += 1
                ck.maximum("connections_waiting_at_once", stat["active"])
                for p, want in reqs:
                    status, h, body = await asyncio.wait_for(read_response(rd_), w)
                    got = count_of(body, json_)
                    if status != 200 or got != want:
                        raise Violation(f"GET {p}: status {status}, body {body!r}, expected count {want}")
                    ct = h.get(b"content-type", b"")
                    if (b"json" in ct) != json_:
                        raise Violation(f"GET {p}: content type {ct!r} with json = {json_}")
                    ck.count("answers_of_present" if want != -1 else "answers_of_absent")
                stat["active"] -= 1
                done += k
                if r.random() < .1:
                    await asyncio.sleep(r.random() * .005)
        except (asyncio.IncompleteReadError, ConnectionError) as e:
            raise Violation(f"connection broken by the server after {done} of {n} answers: {e!r}, sent {data!r} cut at {cut}; "
                            f"requests {reqs}")
        finally:
            wr_.close()

    def case(c, d):
        r = rnd("c09", c["sig"])
        bits = c["bits"] if c["toc"] else None
        world = World(r, d, c["n"], c["fmts"], bits, c["huge"] and not c["toc"])
        ck.count("servers_of_huge_databases", world.huge)
        opts = ["--threads", c["threads"]] + (["--json"] if c["json"] else [])
        if c["toc"]:
            opts += ["--toc"] + (["--toc-bits", bits] if bits != 20 or r.random() < .3 else [])
        env = {"VERIF_TRACE": os.path.join(d, "trace.json")}
        if c["exe"] == "tsan":
            env["VERIF_PERTURB"] = f"{r.randrange(1 << 30)}:{c['rate']}:{c['us']}"
        s = Server(exe[c["exe"]], d, world.dbs, opts, env)
        patience = 60 * getattr(PATIENCE, "factor", 1)
        trouble = None
        try:
            async def all_():
                stat = {"active": 0}
                ts = [asyncio.create_task(conn(world, s.port, rnd("conn", c["sig"], i), c["reqs"], c["json"],
                                               patience, stat)) for i in range(c["conns"])]
                done, pending = await asyncio.wait(ts, return_when=asyncio.FIRST_EXCEPTION)
                for t in pending:
                    t.cancel()
                await asyncio.gather(*pending, return_exceptions=True)
                for t in done:
                    t.result()
            try:
                asyncio.run(all_())
            except asyncio.TimeoutError:
                if getattr(PATIENCE, "factor", 1) == 1:
                    raise Slow("an answer did not arrive in time")
                raise Violation("an answer did not arrive, twice")
            except Violation as v:
                trouble = v
        except BaseException:
            s.kill()
            raise
        try:
            s.stop(f"server {c['sig']}")
        except Violation as v:
            raise Violation(f"{trouble or ''}\n{v}")
        if trouble:
            raise Violation(f"{trouble}\nserver: {' '.join(s.args)}\n{c}")
        ck.ran((c["sig"], SEED), nontrivial=c["conns"] > 1, n=c["reqs"] * c["conns"])
        for i in range(c["conns"]):
            ck.ran((c["sig"], i), nontrivial=c["conns"] > 1, n=0)
        ck.seen("server_configurations", (c["exe"], c["threads"], c["toc"], c["json"], tuple(c["fmts"])))
        ck.sample({k: v for k, v in c.items()})
        try:
            t = __import__("json").load(open(env["VERIF_TRACE"]))
            ck.count("thread_switches_observed", t["switches"])
            ck.count("injected_delays", t["delays"])
        except (OSError, ValueError):
            pass

    cases = []
    r = rnd("c09cases")
    every = ["sha1", "ntlm", "sha1t64"]
    maxthr = os.cpu_count() or 1
    for i in range(scale(48, 800)):
        e = "tsan" if i % 2 else "asan"
        fm = every if r.random() < .5 else r.sample(every, r.choice([1, 2]))
        c = dict(sig=f"any-{i}", exe=e, fmts=fm, n=r.choice([1, 5, 300, 1500]), threads=min(maxthr, r.choice([1, 2, 3, 4, 8])),
                 toc=i % 4 in (1, 2), bits=r.choice([15, 18, 20, 22, 25]), json=r.random() < .5, conns=r.choice([2, 8, 24, 64]),
                 reqs=r.choice([20, 60]), rate=r.choice([0, 30, 300, 2000]), us=r.choice([5, 100, 1000]))
        c["huge"] = not c["toc"] and r.random() < .25
        cases.append((c["sig"], c))
    ck.cases(case, cases, jobs=3)
    return ck.finish()
