"""C25: memory use is bounded, whatever the amount of data. C26 shares its runner."""
from checks.srv import *
from checks.dl import FULLAPI
RSS = ("harness", "rss.c", "plain", {"alone": True})
MKDB = ("harness", "mkdb.c", "plain", {"alone": True})
BUILD = {k: ("app", k, "plain") for k in ("search", "convert", "sort", "topn", "diff", "dupes", "server", "download")}
BUILD.update(rss=RSS, mkdb=MKDB, api=FULLAPI)
MB = 1 << 20


class Use:
    """what one run needed"""
    def __init__(self, q, log):
        self.q = q
        a = [int(x) for x in rd(log).split()]
        self.peak, self.rbytes, self.wbytes, self.reads, self.writes = a[0] * 1024, *a[1:]


class Runner:
    def __init__(self, ck, exe):
        self.ck, self.exe, self.n, self.lock = ck, exe, 0, threading.Lock()

    def __call__(self, cmd, d, ok=(0,), **o):
        with self.lock:
            self.n += 1
            log = os.path.join(d, f"use{self.n}")
        out = o.pop("out", os.devnull)
        with open(out, "wb") as f:
            q = run([self.exe["rss"], log] + [self.exe[cmd[0]]] + cmd[1:], stdout=f, cwd=d, **o)
        sane(q, cmd[0])
        expect(q.rc in ok, f"{' '.join(map(str, cmd))}: exit {q.rc}", q)
        u = Use(q, log)
        self.ck.count("runs_measured")
        return u

    def mkdb(self, path, seed, fmt, n, how=()):
        with open(path, "wb") as f:
            subprocess.run([self.exe["mkdb"], str(seed), str(model.HASH[fmt]), str(n), *how], stdout=f, check=True)
        os.utime(path, (1.7e9, 1.7e9))
        return path


def mb(x):
    return f"{x / MB:.1f} MB"


def status(pid, name):
    m = re.search(rf"{name}:\s+(\d+) kB", open(f"/proc/{pid}/status").read())
    return int(m[1]) * 1024


async def ask(port, todo, json_=False, per=None):
    """the requests [(path, expected count or None)] on one connection (or per requests on each)"""
    i = w = 0
    for p, want in todo:
        if not w:
            r, w = await asyncio.open_connection("127.0.0.1", port)
        w.write(request(p))
        st, h, body = await asyncio.wait_for(read_response(r), 60)
        expect(want is None or st == 200 and count_of(body, json_) == want, f"GET {p}: {st} {body!r}, expected {want}")
        i += 1
        if st != 200 or per and i % per == 0:
            w.close()
            w = 0
    if w:
        w.close()


def record(path, fmt, i):
    with open(path, "rb") as f:
        f.seek(i * model.REC[fmt])
        b = f.read(model.REC[fmt])
    return b[:-4], int.from_bytes(b[-4:], "little", signed=True)


def main(exe):
    ck = Check("C25", "exploration",
               "a case is one program on a tiny and on a large input (or a server before and after very many requests, a "
               "download of few and of many prefixes), with the kernel's record of its peak resident memory as the "
               "monitor: what the large one needs more is compared with what the property allows; non-trivial: the large "
               "input is at least five times the memory allowed",
               ["one size of the tables of contents each run; the peak resident set stands for memory use",
                "downloads with answers that arrive roughly in order and a disk that keeps up: finished files that "
                "wait for an earlier one, or for the disk, are kept in memory"])
    use = Runner(ck, exe)
    big_n = scale(5_000_000, 12_000_000)
    slack = 4 * MB

    def grown(what, small, big, allowed, data):
        more = big.peak - small.peak
        ck.maximum("peak_MB_" + what.split()[0], round(big.peak / MB, 1))
        if more > allowed and what.startswith("download") and getattr(PATIENCE, "factor", 1) == 1:
            raise Slow(f"{what}: {mb(more)} more")     # the writer may have starved: once more, alone
        expect(more <= allowed, f"{what}: needs {mb(big.peak)} for {mb(data)} of data, {mb(small.peak)} for a tiny input; "
                                f"{mb(allowed)} more are allowed")
        ck.ran((what, data), nontrivial=data >= 5 * allowed)

    def tools(c, d):
        fmt, n = c["fmt"], c["n"]
        seed = rnd("c25", c["sig"]).randrange(1 << 40)
        F = model.FLAG[fmt]
        tiny, big = os.path.join(d, "tiny"), os.path.join(d, "big")
        use.mkdb(tiny, seed, fmt, 2000)
        use.mkdb(big, seed, fmt, n)
        size = os.path.getsize(big)
        what = c["what"]
        if what == "search":
            h = record(big, fmt, n // 3)[0].hex().upper()
            a, b = (use(["search", p, h, "--hash"] + F, d) for p in (tiny, big))
            grown("search", a, b, slack, size)
            bits = c["bits"]
            with open(big, "rb") as f:
                wr(tiny, f.read(100 * model.REC[fmt]))
            os.utime(tiny, (1.7e9, 1.7e9))
            t = ["--hash", "--toc", "--toc-bits", bits] + F
            a, b = (use(["search", p, h] + t, d, ok=(0, 1)) for p in (tiny, big))
            expect(a.q.rc == 0 and b.q.rc == 0 or n >> bits < 8, f"search --toc: exit {a.q.rc} and {b.q.rc}", b.q)
            grown(f"search --toc (building it) {bits}", a, b, slack + (4 << bits), size)
            a, b = (use(["search", p, h] + t, d) for p in (tiny, big))
            grown(f"search --toc (loading it) {bits}", a, b, slack + (4 << bits), size)
        if what in ("dupes", "diff"):
            a, b = (use([what, p] + ([p] if what == "diff" else ["--bits", c["bits"]]) + F, d) for p in (tiny, big))
            grown(what, a, b, slack, size)
            if what == "diff":      # all new, and all changed
                a, b = (use([what, tiny, p] + F, d, ok=(0, 1)) for p in (tiny, big))
                grown("diff (insertions)", a, b, slack, size)
        if what == "convert":
            us = []
            for p in (tiny, big):
                us.append((use(["convert", "--bin-to-txt", "-i", p, "-o", p + ".txt"] + F, d),
                           use(["convert", "--txt-to-bin", "-i", p + ".txt", "--stdout"] + F, d),
                           use(["convert", "--txt-to-bin", "--stdin", "-o", p + ".bin"] + F, d, stdin=open(p + ".txt"))))
            for k, w in enumerate(("to text", "to binary", "from stdin")):
                grown("convert " + w, us[0][k], us[1][k], slack, size)
        if what == "topn":
            for N in c["N"]:
                a = use(["topn", tiny, "--stdout", "-N", 100] + F, d)
                b = use(["topn", big, "--stdout", "-N", N] + F, d, timeout=300)
                grown(f"topn {N}", a, b, slack + 2 * N * model.REC[fmt], size)
        if what == "sort":
            use.mkdb(big, seed, fmt, n, ["shuffled"])
            for m, by in c["M"]:
                a, b = (use(["sort", "-i", p, "--max-memory", m] + by + F, d, timeout=400) for p in (tiny, big))
                # the buffers of up to 500 chunks
                chunks = min(500, size // (m * MB) + 1)
                grown(f"sort --max-memory {m} {' '.join(by)}", a, b, slack + int(2.2 * m * MB) + chunks * 40000, size)
        ck.sample(dict(what=what, fmt=fmt, records=n, bytes=size))

    def server(c, d):
        n = c["n"]
        r = rnd("c25srv", c["sig"])
        # the plain-password requests go to the first of these
        dbs = {f: use.mkdb(os.path.join(d, f), r.randrange(1 << 40), f, n) for f in c["fmts"]}
        size = sum(os.path.getsize(p) for p in dbs.values())
        opts = ["--threads", c["threads"]] + (["--toc", "--toc-bits", c["bits"]] if c["toc"] else []) + \
            (["--json"] if c["json"] else [])
        srv = Server(exe["server"], d, dbs, opts)
        try:
            known = {f: [record(p, f, r.randrange(n)) for _ in range(300)] for f, p in dbs.items()}

            def todo(k):
                out = []
                for _ in range(k):
                    x, fmt = r.random(), r.choice(c["fmts"])
                    if x < .6:
                        h, cnt = r.choice(known[fmt])
                        out.append((f"/check/{fmt}/{h.hex().upper()}", cnt))
                    elif x < .8:
                        out.append((f"/check/{fmt}/{r.randbytes(model.HASH[fmt]).hex().upper()}", -1))
                    elif x < .9:
                        out.append((f"/check/plain/{r.randbytes(r.choice([8, 8, 900])).hex()}", -1))
                    else:
                        out.append((r.choice([f"/check/{fmt}/12", "/nonsense", "/check/xyz/12", "/check/sha1/",
                                              f"/check/{fmt}/" + "A" * 2000]), None))
                return out

            async def load(k, conns, per=None):
                await asyncio.gather(*(ask(srv.port, todo(k // conns), c["json"], per) for _ in range(conns)))
            peaks = []
            for k, conns, per in c["loads"]:
                asyncio.run(load(k, conns, per))
                peaks.append((status(srv.p.pid, "VmHWM"), k))
                ck.count("server_requests_answered", k)
            start = 16 * MB + ((4 << c["bits"]) * len(dbs) if c["toc"] else 0)
            expect(peaks[0][0] <= start, f"server: {mb(peaks[0][0])} after {peaks[0][1]} requests, allowed {mb(start)}")
            for p, k in peaks[2:]:
                expect(p - peaks[1][0] <= 3 * MB, f"server {' '.join(map(str, opts))}: grew from {mb(peaks[1][0])} to {mb(p)} by "
                                                  f"{k} more requests, database of {mb(size)}")
            ck.maximum("peak_MB_server" + ("_toc" if c["toc"] else ""), round(peaks[-1][0] / MB, 1))
            ck.ran(c["sig"], nontrivial=size > 5 * peaks[-1][0] or not c["toc"])
            ck.sample(dict(what="server", opts=list(map(str, opts)), bytes=size, peaks=[[mb(p), k] for p, k in peaks]))
            srv.stop()
        finally:
            srv.kill()

    def download(c, d):
        fmt, recs = c["fmt"], c["recs"]
        us = []
        for n in (c["n"] // 20, c["n"]):
            p = subprocess.Popen([exe["api"], "serve", "5"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 env=dict(os.environ, FULLAPI_PROMPT="1", **({"FULLAPI_RECORDS": str(recs)} if recs else {})))
            try:
                port = int(p.stdout.readline())
                e = {"http_proxy": f"http://127.0.0.1:{port}", "no_proxy": "", "NO_PROXY": ""}
                out = os.path.join(d, f"out{n}")
                us.append(use(["download", "--testing", "--parallel-max", c["par"], "--limit", n, "--no-progress"] + c["opts"]
                              + model.FLAG[fmt] + [out], d, env=e, timeout=600))
                size = os.path.getsize(out)
                os.unlink(out)
            finally:
                p.kill()
                p.wait()
        # and what waits for the disk; each prefix has a buffer of its own
        grown(f"download {' '.join(c['opts'])} {c['par']} at once", us[0], us[1], 32 * MB, max(size, c["n"] * 4096))
        ck.count("prefixes_downloaded", c["n"])

    cases = []

    def add(fn, sig, **c):
        cases.append((sig, dict(sig=sig, fn=fn, **c)))
    r = rnd("c25cases")
    fm = ["sha1", "ntlm", "sha1t64"]
    r.shuffle(fm)
    for i in range(scale(1, 2)):
        f = fm[i:] + fm[:i]
        add(tools, f"sort-{i}", what="sort", fmt=r.choice(["sha1", "ntlm"]), n=big_n,
            M=[(r.choice([2, 3]), []), (r.choice([5, 9]), ["--sort-by-count"])] + ([(40, [])] if THOROUGH else []))
        add(download, f"dl-long-{i}", fmt=f[0], recs=0, n=scale(60000, 400000), par=r.choice([20, 100, 300]), opts=r.choice([[], ["--txt-out"]]))
        add(download, f"dl-big-{i}", fmt=f[1], recs=800, n=scale(5000, 12000), par=r.choice([10, 40]), opts=[])
        add(download, f"dl-text-{i}", fmt=r.choice(["sha1", "ntlm"]), recs=800, n=scale(5000, 12000), par=r.choice([10, 40]), opts=["--txt-out"])
        add(tools, f"convert-{i}", what="convert", fmt=r.choice(["sha1", "ntlm"]), n=big_n)
        for toc in (0, 1):
            k = scale(80000, 300000)
            add(server, f"server-{toc}-{i}", fmts=fm if not toc else f[:r.choice([1, 2, 3])], n=big_n, toc=toc, bits=r.randrange(16, 21), threads=r.choice([1, 2, 4]),
                json=r.random() < .5, loads=[(8000, 40, None), (4000, 20, 1), (k, 40, None), (k // 8, 20, r.choice([1, 3]))])
        add(tools, f"topn-{i}", what="topn", fmt=f[0], n=big_n, N=[1000, big_n // 40])
        add(tools, f"search-{i}", what="search", fmt=f[1], n=big_n, bits=r.randrange(15, 21))
        add(tools, f"dupes-{i}", what="dupes", fmt=r.choice(["sha1", "ntlm"]), n=big_n, bits=r.choice([32, 40, 64]))
        add(tools, f"diff-{i}", what="diff", fmt=r.choice(["sha1", "ntlm"]), n=big_n)
    ck.cases(lambda c, d: c["fn"](c, d), cases, jobs=6)
    return ck.finish()
