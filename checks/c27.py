"""C27: what is asked for at the same time is really done at the same time."""
import mmap, struct
from checks.dl import *
from checks.srv import *
BUILD = {"download": ("app", "download", "plain"), "server": ("app", "server", "plain"), "gate": ("shlib", "gate.c", "plain")}


def main(exe):
    ck = Check("C27", "exploration",
               "a case is one run of the real downloader or server that is held up at a chosen place, while a monitor "
               "observes that all else goes on. fill: the API answers only when as many requests wait as may (or after "
               "4 s; from the first answer on, before that it may be one), in every order, also with failures that are retried: at each answer min(--parallel-max, prefixes "
               "left) requests must wait. writer: the first write to the database is held up until every prefix has been asked for "
               "and answered. server: the disk reads of threads - 1 requests are held up, then further requests must be "
               "answered, rightly, then the others. non-trivial: something was really held up, or at least 2 requests were outstanding",
               ["what is not done at the same time within 4 s (downloads) or 15 s (server) counts as not done at the same time, if it "
                "happens again in a second run, alone"])

    def late(msg):
        if getattr(PATIENCE, "factor", 1) == 1:
            raise Slow(msg)
        raise Violation(msg + " (twice)")

    class Gate:
        def __init__(self, d):
            self.path = wr(os.path.join(d, "gate"), bytes(32))
            self.f = open(self.path, "r+b")
            self.m = mmap.mmap(self.f.fileno(), 32)

        def env(self, kind, files):
            return {"LD_PRELOAD": exe["gate"], "VERIF_GATE": kind, "VERIF_GATE_FILES": "\n".join(files), "VERIF_GATE_CTL": self.path}

        def close(self, places):
            struct.pack_into("<q", self.m, 24, places)
            struct.pack_into("<q", self.m, 0, 1)

        def open(self):
            struct.pack_into("<q", self.m, 0, 0)

        def waiting(self):
            return struct.unpack_from("<q", self.m, 8)[0]

    def fill(c, d):
        r = rnd("c27", c["sig"])
        s = Scenario(c["sig"], n=c["n"], par=c["par"], policy=c["policy"], perturb=None, sizes=lambda r, p: r.randrange(1, 6), txt=r.random() < .2,
                     fmt=r.choice(["sha1", "ntlm"]), shape="plain")
        flaky = {f"{p:05X}": r.choice([1, 1, 2, 4]) for p in range(s.n) if r.random() < c["flaky"]}
        done = set()

        def respond(p, ntlm, a):
            if a < flaky.get(p, 0):
                ck.count("requests_failed_and_asked_again")
                return mock.Reply(status=500) if r.random() < .5 else mock.Reply("reset")
            done.add(p)
            return s.ok(p, ntlm)
        out = os.path.join(d, "db")
        s.batch = min(s.batch, 2) if s.n < 200 else 20
        with s.mock(respond, want=lambda: min(s.par, s.n - len(done)) if done else 1, window=4.0) as m:
            q = run([exe["download"]] + s.args(out), env=m.env(), timeout=170)
            seen = list(m.fill)
        what = f"{s.n} prefixes, --parallel-max {s.par}, {s.policy}"
        sane(q, what)
        expect(q.rc == 0, f"{what}: failed", q)
        exact(rd(out), s.want(), what)
        for got, want, k in seen:
            if got < want:
                late(f"{what}: after {k} answers only {got} requests were outstanding, and no more for 4 s; {want} could be")
        ck.ran(c["sig"], nontrivial=min(s.par, s.n) > 1)
        ck.count("moments_at_which_all_allowed_requests_were_outstanding", len(seen))
        ck.maximum("requests_outstanding", max(w for w, _, _ in seen))
        ck.seen("release_orders", tuple(m.released))

    def writer(c, d):
        r = rnd("c27", c["sig"])
        s = Scenario(c["sig"], n=c["n"], par=c["par"], policy="asap", perturb=None, sizes=lambda r, p: 800, txt=c["txt"], fmt=r.choice(["sha1", "ntlm"]),
                     shape="plain", progress=c["opts"])
        out = os.path.join(d, "db")
        g = Gate(d)
        g.close(1000)
        res = []
        with s.mock() as m:
            t = threading.Thread(target=lambda: res.append(run([exe["download"]] + s.args(out), env={**m.env(), **g.env("w", [out])}, timeout=170)))
            factor = getattr(PATIENCE, "factor", 1)
            t.start()
            t0 = time.time()
            held = 0
            while t.is_alive() and len(set(m.released)) < s.n and time.time() - t0 < 20 * factor:
                held = max(held, g.waiting())
                time.sleep(.002)
            asked = len(set(m.released))
            time.sleep(.01)
            held = max(held, g.waiting())
            g.open()
            t.join()
        q = res[0]
        what = f"{s.n} prefixes, {s.par} at once, the first write is held up"
        sane(q, what)
        if asked < s.n and held:
            late(f"{what}: only {asked} prefixes were asked for meanwhile")
        expect(q.rc == 0, f"{what}: failed", q)
        exact(rd(out), s.want(), what)
        ck.ran(c["sig"], nontrivial=held > 0)
        ck.count("prefixes_answered_while_the_output_was_held_up", asked if held else 0)

    def server(c, d):
        r = rnd("c27", c["sig"])
        bits = 16 if c["toc"] else None
        world = World(r, d, c["n"], c["fmts"], bits)
        g = Gate(d)
        s = Server(exe["server"], d, world.dbs, ["--threads", c["threads"]] + (["--toc", "--toc-bits", bits] if bits else []),
                   env=g.env("r", list(world.dbs.values())))
        factor = getattr(PATIENCE, "factor", 1)

        async def ask(p, w=15):
            rr, ww = await asyncio.open_connection("127.0.0.1", s.port)
            try:
                ww.write(request(p, close=True))
                await ww.drain()
                return await asyncio.wait_for(read_response(rr), w * factor)
            finally:
                ww.close()

        def right(a, p, want, when):
            expect(a[0] == 200 and count_of(a[2], False) == want, f"GET {p}: {a[0]}, {a[2][:80]!r}, expected {want} ({when})")

        async def all_():
            for rep in range(c["reps"]):
                k = c["threads"] - 1 if rep % 2 == 0 else r.randrange(1, c["threads"])
                g.close(k)
                # as different as possible, so that no search finds what it needs in memory
                held = [world.valid(r) for _ in range(k)]
                tasks = []
                for p, w in held:
                    n, t0 = g.waiting(), time.time()
                    tasks.append(asyncio.create_task(ask(p, 120)))
                    while g.waiting() <= n and not tasks[-1].done() and time.time() - t0 < 15 * factor:
                        await asyncio.sleep(.002)
                    if not tasks[-1].done() and g.waiting() <= n:
                        late(f"{c['threads']} threads, {n} of them held up in a disk read: a further request does not even begin to read ({p})")
                n = g.waiting()
                g.close(n)      # no one else
                ck.maximum("reads_held_up_at_once", n)
                for _ in range(r.choice([1, 3, 10])):
                    p, w = world.valid(r)
                    try:
                        right(await ask(p), p, w, "while others are held up")
                    except asyncio.TimeoutError:
                        late(f"{c['threads']} threads, {n} of them held up in a disk read: GET {p} is not answered for 15 s")
                    ck.count("answers_while_others_were_held_up", n > 0)
                    if g.waiting() < n:
                        raise Violation("the monitor lost those who wait")
                g.open()
                for (p, w), t in zip(held, tasks):
                    right(await t, p, w, "after it was held up")
                    ck.count("answers_after_being_held_up")
                ck.ran((c["sig"], rep), nontrivial=n > 0)
        try:
            asyncio.run(all_())
        except (OSError, asyncio.IncompleteReadError) as e:
            raise Violation(f"connection broken by the server: {e!r}\n{s.errors()[-1500:]}")
        finally:
            g.open()
            if s.alive():
                s.p.terminate()
                s.p.wait()
            s.err.close()

    cases = []
    r = rnd("c27cases")
    kinds = dict(fill=fill, writer=writer, server=server)

    def add(**c):
        c["sig"] = "-".join(str(v) for v in c.values() if not isinstance(v, list)) + f"-{len(cases)}"
        cases.append((c["sig"], c))
    for i in range(scale(30, 300)):
        par = r.choice([1, 2, 3, 5, 16, 60, 300])
        add(kind="fill", par=par, n=r.choice([1, 2, par, par + 1, 2 * par, 30, 80]), policy=r.choice(["fifo", "lifo", "random", "random", "firstlast"]),
            flaky=r.choice([0, 0, .1, .5]))
    add(kind="fill", par=300, n=700, policy="random", flaky=0)
    for i in range(scale(10, 100)):
        add(kind="writer", n=r.choice([8, 30, 100]), par=r.choice([1, 2, 5, 16]), txt=r.random() < .3, opts=r.choice([["--no-progress"], ["--progress"], ["--debug"]]))
    top = max(2, min(6, os.cpu_count() or 2))
    for i in range(scale(16, 150)):
        add(kind="server", threads=r.choice([2, 2, 3, 4, top]) if top >= 4 else 2, n=r.choice([3000, 20000]), toc=i % 3 == 2,
            fmts=r.choice([["sha1"], ["ntlm"], ["sha1t64"], ["sha1", "ntlm", "sha1t64"]]), reps=scale(6, 30))
    ck.cases(lambda c, d: kinds[c["kind"]](c, d), cases, jobs=6)
    return ck.finish()
