"""C21: malformed input is rejected without memory errors."""
from checks.dl import *
from checks.files import *
APPS = ("convert", "topn", "sort", "diff", "dupes", "search")
BUILD = {a: ("batch", a, "asan") for a in APPS}
BUILD.update({"app-" + a: ("app", a, "asan") for a in APPS + ("download", "server")})

HEX = b"0123456789ABCDEFabcdef"


def classify(line, fmt, full=False):
    """What a line of text is: 'bad' (must be refused), (hash, count) or '?' (not judged, but if it
    is accepted, then with this hash). full: a sha1 line for a 64 bit record."""
    size = 20 if full else model.HASH[fmt]
    if line.endswith(b"\r"):
        line = line[:-1]
    if full and (len(line) <= 17 or line[16:17] == b":"):   # a 64 bit record's own form
        full, size = False, 8
        if len(line) == 17:
            line = line[:16]
    h, rest = line[:2 * size], line[2 * size:]
    if len(h) < 2 * size or any(b not in HEX for b in h):
        return "bad", None
    h = bytes.fromhex(h.decode())[:model.HASH[fmt]]
    if rest == b"":
        return "ok", (h, -1)
    if len(rest) == 1:
        return "?", h
    if rest[:1] != b":":
        return ("bad", None) if rest[0] in HEX else ("?", h)
    c = rest[1:]
    if re.fullmatch(rb"-?[0-9]{1,40}", c):
        v = int(c)
        return ("ok", (h, v)) if -2**31 <= v < 2**31 else ("bad", None)
    if re.fullmatch(rb"[+ ]*[0-9]+\s*", c) or b"\r" in c:
        return "?", h
    return "bad", None


def spoil(r, line, size):
    """a line made wrong"""
    n = 2 * size
    k = r.randrange(12)
    h, c = line[:n], line[n + 1:]
    if k == 0:
        return line[:r.randrange(1, n)]
    if k == 1:      # digits are missing
        i = r.randrange(n)
        return h[:i] + h[i + r.choice([1, 2, 3]):] + b":" + c
    if k in (2, 3, 4):
        i = r.choice([0, 4, 5, n - 1, r.randrange(n)])
        b = r.choice([b"G", b"g", b" ", b"/", b":", b"@", b"`", b"\x00", b"\xff", b"\x80", b"-", b"x", b"\x7f", b"Z", b"O"])
        if i == 0 and b == b"\x00":
            b = b"G"
        return h[:i] + b + h[i + 1:] + b":" + c
    if k == 5:
        return h + b":" + r.choice([b"x", b"--1", b"-", b"1x", b"12 34", b"0x10", b"1e3", b"1.5", b"1,000", b"\x00", b"1\x00", b"\xff", b"NaN", b"one"])
    if k == 6:
        return h + b":" + str(r.choice([2**31, -2**31 - 1, 2**32, 2**32 - 1, 2**32 + 1, -2**32, 2**63, 2**64, 2**64 + 5, 10**30, 4294967295, 9999999999])).encode()
    if k == 7:      # a longer hash
        return h + r.choice([b"0", b"AB", b"01234567"]) + b":" + c
    if k == 8:
        return r.choice([b"<html><body>rate limited</body></html>", b"HASH:COUNT", b"#" + line, b"\xef\xbb\xbf" + line, b" " + line,
                         b"0x" + line, b"\t" + line, b"null", b"A"])
    if k == 9:
        return r.randbytes(r.randrange(1, 80)).replace(b"\n", b"x")
    if k == 10:     # two records on one line
        return line + b"," + line
    i, j = sorted(r.sample(range(len(line) + 1), 2))
    return line[:i] + r.choice([b"", r.randbytes(j - i).replace(b"\n", b"*"), line[i:j] * 2]) + line[j:]


def main(exe):
    ck = Check("C21", "exploration",
               "a case is one run of a real program, compiled with AddressSanitizer and UndefinedBehaviorSanitizer and "
               "without asserts, on hostile input: text with lines that were spoiled (each kind of damage at the first, the last and random "
               "lines and at the buffer boundaries) or mutated, API responses spoiled likewise, databases that are missing, "
               "unreadable, a directory or not a whole number of records (every remainder), random databases and tables of "
               "contents, random arguments; an independent classifier says which lines must be refused, and what the others "
               "mean. non-trivial: the run was judged to be refused and was, or was accepted and compared",
               ["lines with text between the hash and the colon, or with blanks around the count, may be refused or accepted"])
    pools = {a: batch.Pool(exe[a], ck.tmp) for a in APPS}

    def text(c, d):
        r = rnd("c21", c["sig"])
        out = os.path.join(d, "out")
        p = os.path.join(d, "in")
        for i in range(c["k"]):
            fmt = r.choice(["sha1", "ntlm"])
            size = model.HASH[fmt]
            n = r.choice([1, 2, 3, 10]) if r.random() < .9 else r.choice([998, 999, 1000, 1001, 3000])
            recs = records(r, fmt, n, r.choice(["any", "extreme"]), "uniform")
            ls = [model.text(x).encode() for x in recs]
            if r.random() < .3:
                ls = [l.lower() for l in ls]
            for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
                at = r.choice([0, n - 1, r.randrange(n)])
                ls[at] = spoil(r, ls[at], size)
            blank = r.random() < .15      # blank lines, and nothing else that is wrong
            if blank:
                ls = [model.text(x).encode() for x in recs]
                for _ in range(r.choice([1, 1, 2, 5])):
                    ls.insert(r.choice([0, 1, len(ls), len(ls), r.randrange(len(ls) + 1)]), r.choice([b"", b"", b"", b" ", b"\t"]))
            if r.random() < .03:      # the other format
                fmt = "sha1" if fmt == "ntlm" else "ntlm"
            eol = r.choice([b"\n", b"\n", b"\r\n"])
            data = eol.join(ls) + (eol if r.random() < .8 else b"")
            if c["raw"] and not blank:            # mutated as bytes
                data = bytearray(data)
                for _ in range(r.randrange(1, 5)):
                    k = r.randrange(4)
                    at = r.randrange(len(data) + 1)
                    if k == 0:
                        data[at:at + r.randrange(1, 50)] = b""
                    elif k == 1:
                        data[at:at] = r.choice([b"\n", b"\0", b":", r.randbytes(5), b"9" * 20, b"-"])
                    elif k == 2:
                        data[at:at + 1] = bytes([r.randrange(256)])
                    else:
                        data[at:at] = bytes(data[:r.randrange(100)])
                    if not data:
                        data = bytearray(b"x")
                data = bytes(data)
            L = r.choice([None, None, None, n, 1, 0, r.randrange(n + 1)])
            ls = data.split(b"\n")
            if ls[-1] == b"":
                ls.pop()
            if L is not None:
                ls = ls[:L]
            cl = [classify(l, fmt) for l in ls]
            std = r.random() < .3
            tostd = r.random() < .5
            args = ["--txt-to-bin"] + (["--stdin"] if std else ["-i", wr(p, data)]) + (["--stdout"] if tostd else ["-o", out, "--force"]) + model.FLAG[fmt] + \
                (["--limit", L] if L is not None else [])
            q = pools["convert"].run(args, data if std else b"")
            bad = [k for k, x in enumerate(cl) if x[0] == "bad"]
            what = f"text with {len(ls)} lines" + (f", line {bad[0]} is {ls[bad[0]][:100]!r}" if bad else "")
            sane(q, what)
            if bad:
                if all(ls[k].strip() == b"" for k in bad):
                    # an empty line may be refused or skipped, but no record goes missing
                    if q.rc == 0:
                        got = model.unpack(q.out if tostd else rd(out), fmt)
                        every = [classify(l, fmt) for l in data.split(b"\n") if l.strip()]
                        need = len([k for k in range(len(cl)) if k not in bad])
                        fits = len(got) <= len(every) and all(g == x[1] or x[0] == "?" and g[0] == x[1] for g, x in zip(got, every))
                        expect(fits and need <= len(got) <= (len(every) if L is None else L),
                               f"text with {len(ls)} lines, of which {len(bad)} are blank: success with {len(got)} of {need} records", q)
                        ck.count("texts_with_blank_lines_accepted")
                    else:
                        failed_cleanly(q, what)
                        ck.count("texts_with_blank_lines_refused")
                    ck.ran((c["sig"], i))
                    continue
                expect(q.rc != 0, f"{what}: accepted", q)
                failed_cleanly(q, what)
                ck.count("malformed_texts_refused")
                ck.seen("malformed_lines", ls[bad[0]][:120])
            elif all(x[0] == "ok" for x in cl):
                expect(q.rc == 0, f"{what}, all well-formed: refused", q)
            if q.rc == 0:
                got = model.unpack(q.out if tostd else rd(out), fmt)
                expect(len(got) == len(cl), f"{what}: {len(got)} records", q)
                for g, x, l in zip(got, cl, ls):
                    if x[0] == "ok":
                        expect(g == x[1], f"the line {l!r} became {model.text(g)}", q)
                    else:
                        expect(g[0] == x[1], f"the line {l!r} became {model.text(g)}", q)
                ck.count("texts_accepted_and_compared")
            ck.ran((c["sig"], i), nontrivial=bool(bad) or q.rc == 0)
        ck.sample(dict(case=c["sig"], texts=c["k"]))

    def download(c, d):
        r = rnd("c21", c["sig"])
        fmt = c["fmt"]
        full = fmt == "sha1t64"
        size = 20 if full else model.HASH[fmt]
        s = Scenario(c["sig"], fmt=fmt, n=r.choice([1, 2, 5, 20, 40]), perturb=None, sizes=lambda r, p: r.randrange(1, 20), progress=["--no-progress"])
        victim = r.randrange(s.n)
        ls = s.api.body(victim, fmt == "ntlm", b"\n", False).split(b"\n")
        pre = b"%05X" % victim
        how = r.choice(["line", "line", "line", "line", "junk", "html", "nul", "long"])
        if how == "line":
            at = r.choice([0, len(ls) - 1, r.randrange(len(ls))])
            for _ in range(50):
                x = spoil(r, pre + ls[at], size)[5:] if r.random() < .9 else ls[at][:r.randrange(1, len(ls[at]))]
                if x.strip() and classify(pre + x, fmt, full)[0] == "bad":
                    break
            ls[at] = x
            body = s.eol.join(ls) + (s.eol if s.final else b"")
        elif how == "junk":
            body = r.randbytes(r.choice([1, 10, 1000, 20000]))
        elif how == "html":
            body = b"<!DOCTYPE html>\n<html>\n<head><title>Too many requests</title></head></html>\n"
        elif how == "nul":
            body = bytes(r.choice([1, 40, 5000]))
        else:
            body = r.choice([b"A", b"0", b":"]) * r.choice([36, 100, 100000, 3000000])
        ls = [l for l in body.split(b"\n") if l]
        cl = [classify(pre + l, fmt, full)[0] for l in ls]
        what = f"{fmt} download, the response to {victim:05X} has a malformed line ({how})"
        real = s.ok

        def answer(p, ntlm, a):
            rep = real(p, ntlm)
            if int(p, 16) == victim:
                rep.body = body
                if rep.frag and len(body) > 5000:
                    rep.frag = [len(body) // 4 + 1]
            return rep
        out = os.path.join(d, "out")
        with s.mock(answer) as m:
            q = run([exe["app-download"]] + s.args(out), env=m.env(), timeout=90)
        sane(q, what)
        if "bad" in cl:
            expect(q.rc != 0, f"{what}: reported success", q)
            failed_cleanly(q, what)
            want = s.api.db(0, victim, fmt)
            got = rd(out) if os.path.exists(out) else b""
            k = min(len(got), len(want))
            expect(got[:k - k % model.REC[fmt]] == want[:k - k % model.REC[fmt]], f"{what}: the records before it are wrong: {first_diff(got, want)}", q)
            ck.count("malformed_responses_refused")
        ck.ran(c["sig"], nontrivial="bad" in cl)
        ck.sample(dict(case=c["sig"], how=how, prefix=victim, body=repr(body[:80])))

    def usage(prog, path, r, fmt, good):
        F = model.FLAG[fmt]
        if prog == "search":
            t = r.choice([[], [], ["--toc"], ["--toc", "--toc-bits", r.choice([15, 20, 25])]])
            return [path, r.choice([["password"], [r.randbytes(model.HASH[fmt]).hex().upper(), "--hash"]])] + [F, t]
        if prog == "topn":
            return [path, "-N", r.choice([0, 1, 5]), "--stdout", F]
        if prog == "sort":
            return ["-i", path, "--max-memory", r.choice([0, 1, 100]), F, r.choice([[], ["--sort-by-count"]])]
        if prog == "diff":
            return r.choice([[path, good], [good, path], [path, path]]) + [F]
        if prog == "dupes":
            return [path, F, r.choice([[], ["--bits", r.choice([32, 40, 64])]])]
        if prog == "convert":
            return ["--bin-to-txt", "-i", path, "--stdout", F]
        if prog == "server":
            return [f"--{fmt}-db", path, "--port", 1, "--bind-address", "127.0.0.1"] + [r.choice([[], ["--toc"]])]

    def flat(a):
        return [x for y in a for x in (y if isinstance(y, list) else [y])]

    def database(c, d):
        """not a database"""
        r = rnd("c21", c["sig"])
        prog, how = c["prog"], c["how"]
        for i in range(c["k"]):
            fmt = r.choice(["sha1", "ntlm"] + (["sha1t64"] if prog in ("search", "topn", "server") else []))
            rec = model.REC[fmt]
            path = os.path.join(d, f"p{i}")
            good = wr(os.path.join(d, "good"), model.pack(records(r, fmt, 5)))
            o = {}
            if how == "missing":
                path = r.choice([path, os.path.join(d, "no", "such"), os.path.join(good, "x"), "", os.path.join(d, "x" * 300)])
            elif how == "dir":
                os.mkdir(path)
                for k in range(r.choice([0, 3, 24])):
                    wr(os.path.join(path, str(k)), b"")
            elif how == "size":
                n = r.choice([0, 1, 7, 200, 200, 200, 3000] if i % 8 == 0 else [0, 1, 7, 50])
                size = n * rec + (c["rem"] + i) % (rec - 1) + 1
                whole = records(r, fmt, n + 1)
                wr(path, model.pack(whole)[:size])
            elif how == "unreadable":
                wr(path, model.pack(records(r, fmt, 100)))
                os.chmod(path, 0)
                os.chmod(d, 0o777)
                o = dict(user=65534)
            elif how == "loop":
                os.symlink(path, path)
            args = flat(usage(prog, path, r, fmt, good))
            before = None if how == "loop" else snapshot(d)
            what = f"hibp-{prog}, the database is {how}"
            if o or prog == "server":
                q = run([exe["app-" + prog]] + args, cwd=d, timeout=30, **o)
            else:
                q = pools[prog].run(args)
            failed_cleanly(q, what)
            if before is not None:
                unchanged(before, d, what, q, new=[f for f in os.listdir(d) if f not in before])
            ck.ran((c["sig"], i))
            ck.count("unusable_databases_refused")
            shutil.rmtree(path) if how == "dir" else os.path.lexists(path) and os.path.dirname(path) == d and os.unlink(path)
            ck.seen("refusals", (prog, how, (c.get("rem", 0) + i) % (rec - 1)))

    def junk(c, d):
        """databases and tables of contents with any contents: nothing but memory safety and an ending"""
        r = rnd("c21", c["sig"])
        prog = c["prog"]
        for i in range(c["k"]):
            fmt = r.choice(["sha1", "ntlm"] + (["sha1t64"] if prog in ("search", "topn") else []))
            rec = model.REC[fmt]
            n = r.choice([0, 1, 2, 3, 50, 1000])
            path = os.path.join(d, f"p{i}")
            data = r.choice([r.randbytes(n * rec), bytes(n * rec), b"\xff" * (n * rec), r.randbytes(rec) * n,
                             model.pack(records(r, fmt, n, "extreme", order="reversed")), model.pack(records(r, fmt, n, "extreme"))])
            if prog == "search" and n and r.random() < .7:      # a partial database: a small table of contents
                data = b"".join(bytes(2) + data[k + 2:k + rec] for k in range(0, len(data), rec))
            wr(path, data)
            good = wr(os.path.join(d, "good"), model.pack(records(r, fmt, 5)))
            args = flat(usage(prog, path, r, fmt, good))
            if prog == "search" and r.random() < .8:
                bits = r.choice([15, 15, 16, 20])
                recs = model.unpack(data, fmt)
                if recs:
                    k = (int.from_bytes(recs[-1][0][:4], "big") >> (32 - bits)) + 1
                    if k <= 40000:
                        toc = r.choice([r.randbytes(4 * k), b"\xff" * 4 * k, bytes(4 * k), (b"%c\0\0\0" % min(n, 255)) * k,
                                        b"".join(r.choice([n, n - 1, n + 1, 0]).to_bytes(4, "little") for _ in range(k))])
                        t = f"{path}.{bits}.toc"
                        wr(t, toc)
                        os.utime(path, (1.6e9, 1.6e9))
                        ck.count("hostile_tables_of_contents")
                h = r.choice(recs)[0] if recs and r.random() < .7 else r.randbytes(model.HASH[fmt])
                args = [path, h.hex().upper(), "--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt]
            q = pools[prog].run(args)
            sane(q, f"hibp-{prog} on arbitrary records")
            expect(q.rc in (0, 1), f"hibp-{prog}: exit {q.rc}", q)
            expect(q.rc == 0 or q.err.strip(), f"hibp-{prog}: failed without a message", q)
            expect(rd(path) == data, f"hibp-{prog}: the database changed", q)
            ck.ran((c["sig"], i), nontrivial=n > 0)
            ck.count("arbitrary_databases")
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))

    def argv(c, d):
        """arguments without any sense"""
        r = rnd("c21", c["sig"])
        prog = c["prog"]
        fmt = r.choice(["sha1", "ntlm"])
        good = wr(os.path.join(d, "good"), model.pack(records(r, fmt, 20)))
        os.utime(good, (1.6e9, 1.6e9))
        opts = ["--ntlm", "--sha1t64", "--hash", "--toc", "--toc-bits", "--bits", "-N", "--topn", "-o", "--output", "--stdout", "-i", "--input", "--stdin",
                "--force", "-f", "--limit", "--max-memory", "--sort-by-count", "--txt-to-bin", "--bin-to-txt", "--", "-", "--help", "-h", "--version", "-x",
                "--topn=", "--bits=40", "-N5", "--limit=18446744073709551616"]
        for i in range(c["k"]):
            args = []
            for _ in range(r.randrange(8)):
                args.append(r.choice([r.choice(opts), r.choice(opts), good, str(r.choice([0, 1, -1, 20, 32, 64, 65, 2**31, 2**32, 2**63, 2**64, 10**25])),
                                      r.randbytes(r.choice([1, 5, 300])).replace(b"\0", b"x"), "password", "", "%s%n{}", "A" * 40, "0" * 32, "f" * 40, "{:d}"]))
            if any(str(a).startswith(("-N", "--topn", "--topn=")) or a in ("1", "20") for a in args) and prog == "topn":
                # N records are allocated ahead
                args = [a for a in args if not (isinstance(a, str) and a.isdigit() and int(a) > 10**6)]
            q = pools[prog].run(args, b"x" if r.random() < .5 else b"", timeout=60)
            sane(q, f"hibp-{prog}")
            expect(rd(good) == rd(good), "")
            ck.ran((c["sig"], i), nontrivial=q.rc != 0)
            ck.count("argument_vectors")
            for f in os.listdir(d):
                if f != "good" and not os.path.isdir(os.path.join(d, f)):
                    os.unlink(os.path.join(d, f))

    def one(c, d):
        dict(text=text, download=download, database=database, junk=junk, argv=argv)[c["kind"]](c, d)

    cases = []

    def add(**c):
        c["sig"] = "-".join(str(v) for v in c.values()) + f"-{len(cases)}"
        cases.append((c["sig"], c))
    for i in range(scale(24, 400)):
        add(kind="text", k=100, raw=i % 4 == 3)
    for fmt in FMT:
        for _ in range(scale(50, 1200)):
            add(kind="download", fmt=fmt)
    for prog in APPS + ("server",):
        srv = prog == "server"
        for how in ("missing", "dir", "loop"):
            add(kind="database", prog=prog, how=how, k=scale(4, 20) if srv else scale(10, 60))
        add(kind="database", prog=prog, how="unreadable", k=scale(3, 10))
        for rem in range(0, 24, 6):
            add(kind="database", prog=prog, how="size", rem=rem, k=scale(6, 6) if srv else scale(24, 200))
    for prog in APPS:
        for _ in range(scale(4, 60) * (3 if prog == "search" else 1)):
            add(kind="junk", prog=prog, k=30)
        for _ in range(scale(3, 60)):
            add(kind="argv", prog=prog, k=60)
    # the slow ones first
    cases.sort(key=lambda c: c[1]["kind"] != "download")
    os.chmod(ck.tmp, 0o755)
    ck.cases(one, cases, jobs=NCPU * 2)
    for p in pools.values():
        p.close()
    return ck.finish()
