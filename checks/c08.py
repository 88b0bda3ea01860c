"""C08: a stored table of contents is never trusted when stale or damaged."""
from checks.c07 import *
from checks.files import snapshot
import fcntl, signal, threading
BUILD = {"batch": ("batch", "search", "asan"), "app": ("app", "search", "asan"), "plain": ("app", "search", "plain"),
         "wfault": ("shlib", "wfault.c", "plain")}


def main(exe):
    ck = Check("C08", "fault_enumeration",
               "a case is a database with a table-of-contents file that was damaged or overtaken in one way (older "
               "than the database, cut at a byte, empty, extended, of another database, leftovers of an interrupted "
               "save; or its writer was killed by the kernel at a chosen byte of it, or found the disk full there; "
               "or the database was replaced while the table was built; or several programs, some killed, saved it at once), "
               "or databases with similar names have theirs side by side; followed by several searches through it by the real hibp-search; judged against the set of records; "
               "non-trivial: the table file differed from the right one, or did not exist, when the search started",
               ["a table that is newer than the database and has the right size is the intact one (the property "
                "does not cover contents altered on purpose)"])
    pool = batch.Pool(exe["batch"], ck.tmp)

    def case(c, d):
        r = rnd("c08", c["sig"])
        fmt, bits, how = c["fmt"], c["bits"], c["how"]
        n = r.choice([2, 5, 60, 400]) if how not in ("kill", "full", "cut") else r.choice([60, 400, 3000])
        recs = dense(r, fmt, bits, n, lambda r, c: r.choice([1, 2, 4]))
        path = wr(os.path.join(d, "db"), model.pack(recs))
        os.utime(path, (1.7e9, 1.7e9))
        flags = ["--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt]

        def search(h, rr=None):
            return pool.run([path, h.hex().upper()] + flags) if rr is None else rr

        def tocs():
            return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f != "db"]

        any_h = r.choice(recs)[0]
        if how in ("kill", "full"):
            # learn the size of the table first
            q = search(any_h)
            sane(q, "toc search")
            t = tocs()
            expect(len(t) == 1, f"files beside the database: {t}", q)
            size = os.path.getsize(t[0])
            intact = rd(t[0])
            if c["old"]:
                os.utime(t[0], (1.6e9, 1.6e9))
            else:
                os.unlink(t[0])
            at = r.choice([0, 1, size - 1, size // 2, 4 * r.randrange(size // 4), r.randrange(size),
                           min(size - 1, 8191), min(size - 1, 8192)])
            q = run([exe["app"], path, any_h.hex().upper()] + flags, **{"fkill" if how == "kill" else "fsize": at})
            if how == "kill":
                expect(q.rc in (-25, 0), f"killed at byte {at}, but exit {q.rc}", q)
                ck.count("table_writers_killed", q.rc == -25)
            else:
                sane(q, f"disk full at byte {at} of the table")
                # the answer may be refused, but not wrong
                if q.rc == 0:
                    judge(q, fmt, any_h, dict(recs), ck, "search while the table could not be saved")
                ck.count("table_saves_that_met_a_full_disk")
            ck.count("left_behind_by_the_interruption", len(tocs()))
        else:
            q = search(any_h)
            sane(q, "toc search")
            t = tocs()
            expect(len(t) == 1, f"files beside the database: {t}", q)
            toc = t[0]
            intact = rd(toc)
            size = len(intact)
            new = None
            if how == "cut":
                k = r.choice([1, 2, 3, 4, 5, 8, size - 1, size - 2, size - 3, size - 4, size // 2, size // 2 // 4 * 4,
                              r.randrange(size)]) % size
                new = intact[:k]
            elif how == "empty":
                new = b""
            elif how == "extended":
                new = intact + r.choice([b"\0", b"\0" * 4, intact, b"\xff" * 4])
            elif how == "other":        # the table of another (longer or shorter) database
                q = search(any_h)
                o = dense(r, fmt, bits, max(1, n + r.choice([-1, 1, 7, -n // 2])), lambda r, c: 3)
                if max(int.from_bytes(h[:4], "big") >> (32 - bits) for h, _ in o) == \
                        max(int.from_bytes(h[:4], "big") >> (32 - bits) for h, _ in recs):
                    return
                d2 = os.path.join(d, "x")
                os.mkdir(d2)
                p2 = wr(os.path.join(d2, "db"), model.pack(o))
                os.utime(p2, (1.7e9, 1.7e9))
                sane(pool.run([p2, any_h.hex().upper()] + flags), "search")
                new = rd(os.path.join(d2, os.path.basename(toc)))
                shutil.rmtree(d2)
            if new is not None:
                wr(toc, new)
            if how in ("stale", "stale-equal", "stale-grown", "stale-shrunk", "stale-counts"):
                # the database changes after the table was saved
                nrecs = {"stale": lambda: dense(r, fmt, bits, n, lambda r, c: r.choice([1, 2, 5])),
                         "stale-equal": lambda: dense(r, fmt, bits, n, lambda r, c: r.choice([1, 3])),
                         "stale-grown": lambda: dense(r, fmt, bits, n + 40, lambda r, c: 2),
                         "stale-shrunk": lambda: dense(r, fmt, bits, max(1, n // 2), lambda r, c: 2),
                         "stale-counts": lambda: [(h, k ^ 1) for h, k in recs]}[how]()
                recs = nrecs
                wr(path, model.pack(recs))
                tt = os.stat(toc).st_mtime
                # a database as old as its table (coarse clocks) counts as newer
                os.utime(path, (tt, tt) if how == "stale-equal" else (tt + r.choice([.001, 1, 1e6]),) * 2)
                if how == "stale-equal":
                    os.utime(toc, ns=(os.stat(path).st_mtime_ns,) * 2)
            if how == "leftover":       # what other interrupted programs may have left
                wr(toc + ".tmp", r.randbytes(r.choice([0, 5, size])))
                if r.random() < .5:
                    os.unlink(toc)
            if how == "intact":
                before = os.stat(toc)
        known = dict(recs)
        todo = needles(r, fmt, recs, 30)[:c["k"]] + [recs[0][0], recs[-1][0]]
        for i, h in enumerate(todo):
            q = search(h)
            judge(q, fmt, h, known, ck, f"{h.hex().upper()} after {how}, {bits} bits")
        if how == "intact":
            after = os.stat(toc)
            expect(rd(toc) == intact, "an intact table changed")
            expect((before.st_mtime_ns, before.st_ino) == (after.st_mtime_ns, after.st_ino),
                   "an intact table that is newer than the database was not reused, but written again")
            ck.count("intact_tables_reused")
        elif not how.startswith("stale"):
            # what is stored now is the table of this database
            t = [f for f in tocs() if f.endswith(".toc")]
            if len(t) == 1:
                ck.count("tables_rebuilt_right", rd(t[0]) == intact)
        ck.count("cases_" + how)
        ck.ran(c["sig"])
        ck.sample(dict(case=c["sig"], fmt=fmt, bits=bits, how=how, records=len(recs)))

    def names(c, d):
        """databases whose names resemble one another, in one directory and several"""
        r = rnd("c08names", c["sig"])
        fmt, bits = c["fmt"], c["bits"]
        stem = r.choice(["db", "a b", "x.y", "Pass{}", "ünï", ".hid", "p%d", "v1.2.3"])
        all_ = [stem, stem + ".bin", stem + ".sha1", stem + "2", stem + ".", stem[:-1], stem.upper(), stem + ".bin.old",
                "x" + stem, f"{stem}.{bits}", "s/" + stem, "s/" + stem + ".bin", stem + ".bin2", "s.d/" + stem]
        todo = r.sample([x for x in all_ if x not in ("", ".")], r.choice([2, 3, 5]))
        n = r.choice([1, 3, 50])
        dbs = []
        for x in todo:
            os.makedirs(os.path.dirname(os.path.join(d, x)), exist_ok=True)
            recs = dense(r, fmt, bits, n, lambda r, c: r.choice([1, 2, 4]))
            path = wr(os.path.join(d, x), model.pack(recs))
            os.utime(path, (1.7e9, 1.7e9))
            dbs.append((x, path, recs, dict(recs)))
        before = snapshot(d)
        for i in range(12):
            x, path, recs, known = r.choice(dbs)
            for h in (r.choice(recs)[0], recs[-1][0]):
                a = path if r.random() < .5 else os.path.relpath(path, d)
                q = run([exe["app"], a, h.hex().upper(), "--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt], cwd=d) \
                    if a != path or r.random() < .2 else \
                    pool.run([path, h.hex().upper(), "--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt])
                judge(q, fmt, h, known, ck, f"{h.hex().upper()} in {x!r}, one of {todo}, {bits} bits")
        after = snapshot(d)
        for p in before:
            expect(p in after and after[p][0] == before[p][0], f"searches among {todo} changed {p!r}")
        ck.count("cases_names")
        ck.ran(c["sig"])

    def replaced(c, d):
        """the database is replaced while a search reads it to build the table"""
        r = rnd("c08repl", c["sig"])
        fmt, bits = c["fmt"], r.randrange(15, 18)
        recs = dense(r, fmt, bits, 1 << bits, lambda r, c: r.choice([1, 1, 2]))
        path = wr(os.path.join(d, "db"), model.pack(recs))
        how = c["how"]
        prefix = lambda h: int.from_bytes(h[:4], "big") >> (32 - bits)
        if r.random() < .5:
            os.utime(path, (1.7e9, 1.7e9))
        new = {"other": lambda: dense(r, fmt, bits, 1 << bits, lambda r, c: r.choice([1, 2, 3])),
               "shrunk": lambda: recs[:len(recs) // 2],
               "thinned": lambda: [x for i, x in enumerate(recs) if i == 0 or r.random() < .5 or
                                   prefix(recs[i - 1][0]) != prefix(x[0])]}[c["new"]]()
        if c["old"]:        # an out-of-date table is there
            wr(path + f".{bits}.toc", r.randbytes(4 << bits))
            os.utime(path + f".{bits}.toc", (1.6e9, 1.6e9))
        rfd, wfd = os.pipe()
        try:
            fcntl.fcntl(wfd, 1031, 4096)        # F_SETPIPE_SZ: it blocks there until we read on
            pre = r.randrange(3000, 4096)
            os.write(wfd, b"x" * pre)
            p = subprocess.Popen([exe["plain"], path, recs[3][0].hex().upper(), "--hash", "--toc", "--toc-bits", str(bits)]
                                 + model.FLAG[fmt], stdout=wfd, stderr=subprocess.DEVNULL, cwd=d)
        finally:
            os.close(wfd)
        try:
            time.sleep(r.choice([.02, .05, .15]))
            for _ in range(r.choice([0, 0, 1, 2])):
                os.read(rfd, 4096)
                time.sleep(.05)
            blocked = p.poll() is None
            if how == "rename":
                wr(path + "-new", model.pack(new))
                os.rename(path + "-new", path)
            else:
                wr(path, model.pack(new))
            if r.random() < .5:
                time.sleep(.01)
            while os.read(rfd, 65536):
                pass
            p.wait(120)
        finally:
            os.close(rfd)
            if p.poll() is None:
                p.kill()
                p.wait()
        ck.count("databases_replaced_under_a_builder", blocked)
        known = dict(new)
        for h in r.sample([h for h, _ in new], 12) + r.sample([h for h, _ in recs], 4) + [new[0][0], new[-1][0]]:
            q = pool.run([path, h.hex().upper(), "--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt])
            judge(q, fmt, h, known, ck, f"{h.hex().upper()} after the database was replaced ({how}, {c['new']}) while "
                                        f"another search built its table, {bits} bits")
        ck.count("cases_replaced")
        ck.ran(c["sig"])

    def together(c, d):
        """several programs build the table of one database at the same time, some are killed"""
        r = rnd("c08together", c["sig"])
        fmt, bits = c["fmt"], r.randrange(15, 19)
        recs = dense(r, fmt, bits, r.choice([3000, 20000]), lambda r, c: r.choice([1, 2, 4]))
        path = wr(os.path.join(d, "db"), model.pack(recs))
        os.utime(path, (1.7e9, 1.7e9))
        known = dict(recs)
        err = []

        def one(i, seed):
            q_r = random.Random(seed)
            for j in range(4):
                time.sleep(q_r.random() * .03)
                h = q_r.choice(recs)[0]
                kill = q_r.random() < .4
                def started(p):
                    if kill:
                        threading.Timer(q_r.random() * .07, lambda: p.poll() is None and p.kill()).start()
                q = run([exe["plain"], path, h.hex().upper(), "--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt],
                        env={"LD_PRELOAD": exe["wfault"], "VERIF_WFAULT": f"slow:{q_r.randrange(1 << 30)}:1"},
                        started=started)
                try:
                    if kill and q.rc == -9:
                        ck.count("table_builders_killed_among_others")
                        continue
                    judge(q, fmt, h, known, ck, f"{h.hex().upper()} by one of several programs at once, {bits} bits")
                    ck.count("searches_by_programs_at_once")
                except Violation as e:
                    err.append(e)
                    return
        th = [threading.Thread(target=one, args=(i, r.randrange(1 << 30))) for i in range(c["n"])]
        [t.start() for t in th]
        [t.join() for t in th]
        if err:
            raise err[0]
        for h in needles(r, fmt, recs, 30)[:10] + [recs[0][0], recs[-1][0]]:
            q = pool.run([path, h.hex().upper(), "--hash", "--toc", "--toc-bits", bits] + model.FLAG[fmt])
            judge(q, fmt, h, known, ck, f"{h.hex().upper()} after several programs built the table at once, {bits} bits")
        ck.count("cases_together")
        ck.ran(c["sig"])

    cases = []
    r = rnd("c08cases")
    hows = ["cut", "cut", "cut", "empty", "extended", "other", "stale", "stale-equal", "stale-grown", "stale-shrunk",
            "stale-counts", "leftover", "intact", "kill", "kill", "kill", "full", "full"]
    for i in range(scale(8, 160)):
        for how in hows:
            k = len(cases)
            cases.append((f"{how}-{k}", dict(sig=f"{how}-{k}", how=how, fmt=r.choice(["sha1", "ntlm", "sha1t64"]),
                                             bits=r.randrange(15, 26), k=25, old=r.random() < .5)))
    for i in range(scale(25, 400)):
        cases.append((f"names-{i}", dict(sig=f"names-{i}", names=1, fmt=r.choice(["sha1", "ntlm", "sha1t64"]),
                                         bits=r.randrange(15, 26))))
    for i in range(scale(16, 300)):
        for how in ("rename", "rewrite"):
            for new in ("other", "shrunk", "thinned"):
                s = f"replaced-{how}-{new}-{i}"
                cases.append((s, dict(sig=s, how=how, new=new, replaced=1, fmt=r.choice(["sha1", "ntlm", "sha1t64"]),
                                      old=r.random() < .3)))
    for i in range(scale(30, 600)):
        cases.append((f"together-{i}", dict(sig=f"together-{i}", together=1, n=r.choice([2, 3, 6]),
                                            fmt=r.choice(["sha1", "ntlm", "sha1t64"]))))
    ck.cases(lambda c, d: next((f for k, f in (("names", names), ("replaced", replaced), ("together", together))
                                if k in c), case)(c, d), cases, jobs=8)
    pool.close()
    return ck.finish()
