"""C26: a query costs a handful of disk reads; everything else reads its input a few times at most."""
import math
from checks.c25 import *
BUILD = {k: ("app", k, "plain") for k in ("search", "convert", "sort", "topn", "diff", "dupes", "server", "download")}
BUILD.update(rss=RSS, mkdb=MKDB, api=FULLAPI)


def io(pid):
    d = dict(l.split(": ") for l in open(f"/proc/{pid}/io").read().splitlines())
    return int(d["syscr"]), int(d["rchar"])


def main(exe):
    ck = Check("C26", "exploration",
               "a case is one run of a program (or thousands of requests to the server) on a generated database; the kernel's "
               "counts of its reads, writes and the bytes in them are compared with the number of records, the length of "
               "the chapters, the size of input and output; non-trivial: a program that looks at every record, once for "
               "each query or pass, would exceed the bound at least five times",
               ["the counts include the page cache: a read is a read system call"])
    use = Runner(ck, exe)
    log2 = lambda n: math.ceil(math.log2(max(n, 1))) if n > 1 else 0

    def searches(c, d):
        fmt, n, bits = c["fmt"], c["n"], c["bits"]
        r = rnd("c26", c["sig"])
        F = model.FLAG[fmt]
        path = use.mkdb(os.path.join(d, "db"), r.randrange(1 << 40), fmt, n)
        one = wr(os.path.join(d, "one"), bytes(model.REC[fmt]))
        os.utime(one, (1.7e9, 1.7e9))
        size = os.path.getsize(path)
        want = [0, n - 1, n // 2] + [r.randrange(n) for _ in range(c["k"])]
        todo = [record(path, fmt, i) for i in want]
        todo += [(r.randbytes(model.HASH[fmt]), None) for _ in range(c["k"])]
        todo += [(bytes(model.HASH[fmt]), None), (b"\xff" * model.HASH[fmt], None)]
        base = use(["search", one, todo[0][0].hex().upper(), "--hash"] + F, d)
        worst = 0
        for h, cnt in todo:
            u = use(["search", path, h.hex().upper(), "--hash"] + F, d)
            more, allowed = u.reads - base.reads, log2(n) + 3
            worst = max(worst, more)
            expect(more <= allowed, f"search: {more} reads among {n} records, {allowed} allowed (log2 n + 3)", u.q)
            expect(u.rbytes - base.rbytes <= allowed << 17, f"search: {u.rbytes - base.rbytes} bytes read among {n} records", u.q)
            ck.ran((c["sig"], h), nontrivial=size // 4096 >= 5 * allowed)
        ck.maximum("reads_per_search", worst)
        if n >> bits < 8 and n > 1 << bits:
            return
        # every chapter in use has records
        T = ["--hash", "--toc", "--toc-bits", bits] + F
        if n <= 1 << bits:      # squeezed into the first few chapters
            return
        # a table of the same size, for one record in each chapter
        one = use.mkdb(os.path.join(d, "even"), 1, fmt, 1 << bits)
        use(["search", one, todo[0][0].hex().upper()] + T, d)
        u = use(["search", path, todo[0][0].hex().upper()] + T, d)
        table = 4 << bits
        expect(u.rbytes <= 3 * size + MB, f"search --toc: read {u.rbytes} bytes to index {size}", u.q)
        expect(u.reads <= size // 1000 + 300, f"search --toc: {u.reads} reads to index {size} bytes", u.q)
        expect(u.wbytes <= 2 * table + MB, f"search --toc: wrote {u.wbytes} bytes for a table of {table}", u.q)
        ck.count("tables_built")
        base = use(["search", one, todo[0][0].hex().upper()] + T, d)
        chapter = 2 * (n >> bits) + 2
        worst = 0
        for h, cnt in todo:
            u = use(["search", path, h.hex().upper()] + T, d)
            more, allowed = u.reads - base.reads, log2(chapter) + 3
            worst = max(worst, more)
            expect(more <= allowed, f"search --toc: {more} reads in chapters of {n >> bits} records, {allowed} allowed "
                                    f"(log2 of the chapter + 3)", u.q)
            expect(u.rbytes - base.rbytes <= allowed << 17, f"search --toc: {u.rbytes} bytes read", u.q)
            ck.ran((c["sig"], bits, h), nontrivial=size // 4096 >= 5 * allowed)
        ck.maximum("reads_per_search_with_toc", worst)
        ck.sample(dict(what="search", fmt=fmt, records=n, bits=bits))

    def passes(c, d):
        fmt, n, what = c["fmt"], c["n"], c["what"]
        r = rnd("c26p", c["sig"])
        F = model.FLAG[fmt]
        seed = r.randrange(1 << 40)
        path = use.mkdb(os.path.join(d, "db"), seed, fmt, n, ["shuffled"] if what == "sort" else [])
        size = os.path.getsize(path)

        def bound(w, u, inp, out, passes=3, opasses=1):
            rb, wb = passes * inp + MB, int(1.1 * opasses * out) + MB
            # what it writes for people to read
            expect(u.rbytes <= rb, f"{w}: read {u.rbytes} bytes of input of {inp} bytes ({n} records), {rb} allowed", u.q)
            expect(u.reads <= rb // 1000 + 300, f"{w}: {u.reads} reads for {inp} bytes", u.q)
            expect(u.wbytes <= wb, f"{w}: wrote {u.wbytes} bytes for output of {out} bytes, {wb} allowed", u.q)
            expect(u.writes <= (inp + wb) // 500 + 300, f"{w}: {u.writes} writes for {out} bytes", u.q)
            ck.maximum("input_bytes_read_x100_" + w.split()[0], round(100 * u.rbytes / max(1, inp)))
            ck.ran((c["sig"], w), nontrivial=n > 1000)
        if what == "convert":
            u = use(["convert", "--bin-to-txt", "-i", path, "-o", path + ".txt"] + F, d)
            ts = os.path.getsize(path + ".txt")
            bound("convert to text", u, size, ts)
            bound("convert to binary", use(["convert", "--txt-to-bin", "-i", path + ".txt", "--stdout"] + F, d), ts, size)
            for L in (0, 1, 500):
                for a in (["--bin-to-txt", "-i", path], ["--txt-to-bin", "-i", path + ".txt"]):
                    u = use(["convert", *a, "--stdout", "-l", L] + F, d)
                    expect(u.rbytes <= MB, f"convert {a[0]} --limit {L}: read {u.rbytes} bytes", u.q)
                    ck.ran((c["sig"], a[0], L), nontrivial=size > 5 * MB)
        elif what == "dupes":
            bound("dupes", use(["dupes", path, "--bits", c["bits"]] + F, d), size, size if c["bits"] < 40 else 0)
        elif what == "diff":
            bound("diff", use(["diff", path, path] + F, d), 2 * size, 0)
            few = wr(os.path.join(d, "few"), rd(path)[:40 * model.REC[fmt]])
            out = os.path.join(d, "out")
            u = use(["diff", few, path] + F, d, out=out)
            bound("diff", u, size, os.path.getsize(out), opasses=2)
        elif what == "topn":
            bound("topn", use(["topn", path, "--stdout", "-N", c["N"]] + F, d, timeout=300), size, c["N"] * model.REC[fmt])
        elif what == "sort":
            m = c["m"]
            u = use(["sort", "-i", path, "--max-memory", m] + c["by"] + F, d, timeout=400)
            chunks = -(-size // (m * MB))
            lev = 1 if chunks <= 1 else 2 if chunks <= 500 else 3
            bound(f"sort --max-memory {m} ({chunks} chunks)", u, size, size, 3 * lev, lev)
        ck.sample(dict(what=what, fmt=fmt, records=n))

    def server(c, d):
        fmt, n, toc = c["fmt"], c["n"], c["toc"]
        r = rnd("c26srv", c["sig"])
        path = use.mkdb(os.path.join(d, "db"), r.randrange(1 << 40), fmt, n)
        bits = max(b for b in range(15, 21) if b == 15 or n >> b >= 8)
        srv = Server(exe["server"], d, {fmt: path}, ["--threads", c["threads"]] + (["--toc", "--toc-bits", bits] if toc else []))
        try:
            known = [record(path, fmt, r.randrange(n)) for _ in range(300)]
            for kind in ("hit", "miss", "plain"):
                k = 1500
                todo = [("/check/%s/%s" % (fmt, h.hex().upper()), cnt) for h, cnt in (r.choice(known) for _ in range(k))] \
                    if kind == "hit" else \
                    [(f"/check/{fmt}/{r.randbytes(model.HASH[fmt]).hex().upper()}", -1) for _ in range(k)] if kind == "miss" \
                    else [(f"/check/plain/{r.randbytes(12).hex()}", -1) for _ in range(k)]

                async def go():
                    await asyncio.gather(*(ask(srv.port, todo[i::4]) for i in range(4)))
                a = io(srv.p.pid)
                asyncio.run(go())
                b = io(srv.p.pid)
                per = (b[0] - a[0]) / k
                # with what the library may read from its event descriptors
                allowed = (log2(2 * (n >> bits) + 2) if toc else log2(n)) + 3
                expect(per <= allowed, f"server{' --toc' if toc else ''}, {kind}: {per:.1f} reads for each request, {allowed} allowed, "
                                       f"{n} records")
                expect((b[1] - a[1]) / k <= allowed << 17, f"server, {kind}: {(b[1] - a[1]) / k} bytes read for each request")
                ck.maximum("reads_per_request_x100" + ("_toc" if toc else ""), round(100 * per))
                ck.count("server_requests_measured", k)
                ck.ran((c["sig"], kind))
            srv.stop()
        finally:
            srv.kill()

    def download(c, d):
        """a download of a range, and resuming it near its end"""
        fmt, recs, n = c["fmt"], c["recs"], c["n"]
        r = rnd("c26dl", c["sig"])
        env = dict(os.environ, FULLAPI_PROMPT="1", FULLAPI_RECORDS=str(recs))
        want = os.path.join(d, "want")
        subprocess.run([exe["api"], "expect", "7", fmt, "0", str(n), want], check=True, env=env)
        size, rec = os.path.getsize(want), model.REC[fmt]
        p = subprocess.Popen([exe["api"], "serve", "7"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
        try:
            port = int(p.stdout.readline())
            e = {"http_proxy": f"http://127.0.0.1:{port}", "no_proxy": "", "NO_PROXY": ""}
            args = ["download", "--testing", "--parallel-max", c["par"], "--limit", n, "--no-progress"] + model.FLAG[fmt]
            out = os.path.join(d, "out")
            u = use(args + [out], d, env=e, timeout=300)
            expect(u.wbytes <= 1.1 * size + MB, f"download: wrote {u.wbytes} bytes for a database of {size}", u.q)
            ck.ran((c["sig"], "new"))
            for cut in (rec, r.randrange(1, recs * rec), recs * rec * r.randrange(2, 20) + r.randrange(rec)):
                with open(out, "r+b") as f:
                    f.truncate(size - cut)
                u = use(args + ["--resume", out], d, env=e, timeout=300)
                same = subprocess.run(["cmp", "-s", out, want]).returncode == 0
                expect(same, f"resumed {cut} bytes before the end: not the uninterrupted database", u.q)
                # one served file is looked for among the last records
                rb = MB + (2 * recs + 40) * 8192
                expect(u.rbytes <= rb, f"resume {cut} bytes before the end of {size}: read {u.rbytes} bytes, {rb} allowed", u.q)
                wb = int(1.1 * (cut + 2 * recs * rec)) + MB
                expect(u.wbytes <= wb, f"resume {cut} bytes before the end of {size}: wrote {u.wbytes} bytes, {wb} allowed", u.q)
                ck.ran((c["sig"], cut), nontrivial=size > 5 * max(rb, wb))
                ck.count("resumes_measured")
        finally:
            p.kill()
            p.wait()
        ck.sample(dict(what="download", fmt=fmt, prefixes=n, bytes=size))

    cases = []
    r = rnd("c26cases")

    def add(fn, sig, **c):
        cases.append((sig, dict(sig=sig, fn=fn, **c)))
    N = scale(8_000_000, 20_000_000)
    for i in range(scale(2, 5)):
        for fmt in ("sha1", "ntlm", "sha1t64"):
            for n in (r.choice([2, 3, 100]), r.randrange(5000, 300000), N):
                top = max(b for b in range(15, 24) if b == 15 or n >> b >= 8)
                add(searches, f"search-{fmt}-{n}-{i}", fmt=fmt, n=n, bits=r.randrange(15, top + 1), k=scale(15, 40))
        for what in ("convert", "dupes", "diff", "topn", "sort"):
            for n in (r.randrange(1, 3000), r.randrange(50000, 500000), N):
                add(passes, f"{what}-{n}-{i}", what=what, fmt=r.choice(["sha1", "ntlm"] + (["sha1t64"] if what == "topn" else [])), n=n,
                    bits=r.choice([32, 33, 48, 64]),
                    N=r.choice([max(1, n // 100), max(1, min(n - 1, 1000))]) if n > 1 else 0, m=r.choice([1, 2, 7, 1000]),
                    by=r.choice([[], ["--sort-by-count"]]))
        fm = r.sample(["sha1", "ntlm", "sha1t64"], 3)
        for fmt in fm[:scale(2, 3)]:
            add(download, f"resume-{fmt}-{i}", fmt=fmt, recs=100, n=scale(12000, 50000), par=r.choice([5, 50]))
        for toc in (0, 1):
            add(server, f"server-{toc}-{i}", fmt=r.choice(["sha1", "ntlm", "sha1t64"]), n=N, toc=toc, threads=r.choice([1, 4]))
    cases = [x for x in cases if not (x[1].get("what") == "topn" and x[1]["n"] < 3)]
    ck.cases(lambda c, d: c["fn"](c, d), cases, jobs=6)
    return ck.finish()
