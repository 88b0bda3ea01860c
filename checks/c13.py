"""C13: hibp-convert is lossless in both directions and honours its limit."""
import threading
from checks.files import *
BUILD = {"batch": ("batch", "convert", "asan"), "app": ("app", "convert", "asan")}


def main(exe):
    ck = Check("C13", "exploration",
               "a case is a generated list of records; the real hibp-convert turns its binary form to text and its text "
               "(canonical, or with CRLF, lower or mixed case hex, no final newline) to binary and back, through files, "
               "standard input and output (files, and pipes that deliver a few bytes at a time), with and without a "
               "limit, and every output is compared byte for byte with the model; non-trivial: at least 1 record")
    pool = batch.Pool(exe["batch"], ck.tmp)

    def piped(args, data, r):
        """the real process, input through a pipe in pieces"""
        a, b = os.pipe()

        def feed():
            pos = 0
            rr = random.Random(len(data))
            try:
                while pos < len(data):
                    k = rr.choice([1, 3, 50, 4000, 70000])
                    os.write(b, data[pos:pos + k])
                    pos += k
                    if k < 100 and rr.random() < .1:
                        time.sleep(.0005)
            except OSError:
                pass
            finally:
                os.close(b)
        t = threading.Thread(target=feed)
        t.start()
        try:
            return run([exe["app"]] + args, stdin=a, timeout=60)
        finally:
            os.close(a)
            t.join()

    def case(c, d):
        r = rnd("c13", c["sig"])
        fmt, n = c["fmt"], c["n"]
        recs = records(r, fmt, n, r.choice(["any", "extreme"]), order=r.choice(["sorted", "random"]))
        bin_, canon = model.pack(recs), model.lines(recs)
        pb = wr(os.path.join(d, r.choice(NAMES)), bin_)
        pt = wr(os.path.join(d, "text in"), canon)
        out = os.path.join(d, "out")

        def go(direction, data, path, limit, how, may_refuse=False):
            if os.path.exists(out):
                os.unlink(out)
            args = [direction] + model.FLAG[fmt]
            if limit is not None:
                args += [r.choice(["-l", "--limit"]), limit]
            inp = how in ("stdin", "stdio", "pipe") and direction == "--txt-to-bin"
            args += ["--stdin"] if inp else [r.choice(["-i", "--input"]), path]
            so = how in ("stdout", "stdio", "pipe")
            if not so and r.random() < .15:
                wr(out, os.urandom(0) + b"x" * r.choice([0, 3, 2 * len(data) + 9]))
                args += ["--force"]
            args += ["--stdout"] if so else [r.choice(["-o", "--output"]), out]
            before = snapshot(d)
            if how == "pipe":
                q = piped(args, data, r) if inp else run([exe["app"]] + args, timeout=60)
            else:
                q = pool.run(args, data if inp else b"")
            what = f"{direction} of {n} records, limit {limit}, {how}"
            sane(q, what)
            if may_refuse and q.rc != 0:
                failed_cleanly(q, what)
                return None, what, q
            expect(q.rc == 0, f"{what}: failed", q)
            unchanged(before, d, what, q, new=[] if so else ["out"])
            ck.count(f"{direction[2:]}_{how}")
            return (q.out if so else rd(out)), what, q

        def judge(got, want, what, q, rec=1):
            if got != want:
                raise Violation(f"{what}: {first_diff(got, want, rec)}\n"
                                f"{got[:200]!r}\n{want[:200]!r}\n{q.brief()}")
            ck.ran((c["sig"], what), nontrivial=n > 0)

        limits = [None, None, 0, 1, n - 1, n, n + 1, r.randrange(n + 1), 2**64 - 1, 2**63]
        ways = ["file", "stdin", "stdout", "stdio"]
        for _ in range(c["k"]):
            how = r.choice(ways) if r.random() < .96 else "pipe"
            L = max(0, x) if (x := r.choice(limits)) is not None else None
            m = n if L is None else min(L, n)
            got, what, q = go("--bin-to-txt", bin_, pb, L, how)
            judge(got, model.lines(recs[:m]), what, q)
            # there and back again
            how = r.choice(ways) if r.random() < .96 else "pipe"
            style = r.choice(["lf", "lf", "crlf", "lower", "mixed", "nofinal", "crlf-nofinal", "mixed-eol"])
            text = canon
            if style in ("lower", "mixed", "mixed-eol"):
                text = text.lower() if style == "lower" else bytes(
                    b if r.random() < .5 else bytes([b]).lower()[0] for b in text) if n < 300 else text.lower()
            if "crlf" in style:
                text = text.replace(b"\n", b"\r\n")
            if style == "mixed-eol":
                text = b"".join(l + r.choice([b"\n", b"\r\n"]) for l in text.splitlines())
            if "nofinal" in style:
                text = text.rstrip(b"\r\n")
            if how in ("file", "stdout") or how == "pipe":
                wr(pt, text)
            L = max(0, x) if (x := r.choice(limits)) is not None else None
            m = n if L is None else min(L, n)
            got, what, q = go("--txt-to-bin", text, pt, L, how)
            judge(got, model.pack(recs[:m]), what + f", {style}", q, model.REC[fmt])
            ck.count("text_style_" + style)
            if n and r.random() < .5:       # a blank line: refused, or nothing of the other lines is lost
                ls = text.splitlines(keepends=True)
                at = r.choice([0, n, r.randrange(n + 1), min(n, 1)])
                blank = b"".join(ls[:at]) + (b"\n" if at and not ls[at - 1].endswith(b"\n") else b"") + r.choice([b"\n", b"\n", b"\r\n"]) + b"".join(ls[at:])
                got, what, q = go("--txt-to-bin", blank, wr(pt, blank), None, r.choice(ways), True)
                if q.rc == 0:
                    judge(got, model.pack(recs), what + f", a blank line after {at}", q, model.REC[fmt])
                ck.count("texts_with_a_blank_line")
        ck.count("records_compared", n * c["k"] * 2)
        ck.sample(dict(case=c["sig"], fmt=fmt, records=n))

    cases = []

    def add(**c):
        c["sig"] = f"{c['fmt']}-{c['n']}-{len(cases)}"
        cases.append((c["sig"], c))
    r = rnd("c13cases")
    for f in ("sha1", "ntlm"):
        b = 4096 // model.REC[f]
        for n in (0, 1, 2, 3, b - 1, b, b + 1, 2 * b, 999, 1000, 1001, 2000, 2001, 3 * b + 1):
            for _ in range(scale(1, 8)):
                add(fmt=f, n=n, k=scale(8, 40))
        for i in range(scale(50, 1000)):
            add(fmt=f, n=r.choice([5, 20, 60, r.randrange(1, 900)]), k=scale(6, 20))
        add(fmt=f, n=scale(12000, 100000), k=3)
    ck.cases(case, cases, jobs=NCPU)
    pool.close()
    return ck.finish()
