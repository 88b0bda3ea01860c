"""C28: the server listens only where it was told, when it is ready, and ends cleanly."""
import mmap, signal, struct
from checks.srv import *
BUILD = {"plain": ("app", "server", "plain"), "asan": ("app", "server", "asan"), "tsan": ("app", "server", "tsan"), "gate": ("shlib", "gate.c", "plain")}
DEFAULT = 8082


def listening(pid):
    """-> (address, port) of the sockets with which the process listens"""
    inodes = set()
    try:
        for f in os.listdir(f"/proc/{pid}/fd"):
            try:
                inodes.add(os.readlink(f"/proc/{pid}/fd/{f}"))
            except OSError:
                pass
    except OSError:
        pass
    out = set()
    for name in ("tcp", "tcp6", "udp", "udp6"):
        try:
            rows = [l.split() for l in open(f"/proc/net/{name}").read().splitlines()[1:]]
        except OSError:
            continue
        for x in rows:
            if f"socket:[{x[9]}]" not in inodes or (x[3] != "0A" and name[0] == "t"):
                continue
            a, p = x[1].rsplit(":", 1)
            raw = b"".join(struct.pack("<I", int(a[i:i + 8], 16)) for i in range(0, len(a), 8))
            out.add((socket.inet_ntop(socket.AF_INET if len(raw) == 4 else socket.AF_INET6, raw), int(p, 16)))
    return out


def taken(port):
    """is there any socket of someone with that port, other than the remains of closed connections?"""
    for name in ("tcp", "tcp6"):
        try:
            rows = [l.split() for l in open(f"/proc/net/{name}").read().splitlines()[1:]]
        except OSError:
            continue
        if any(int(x[1].rsplit(":", 1)[1], 16) == port and x[9] != "0" for x in rows):
            return True
    return False


def free_port(addr="127.0.0.1"):
    while True:
        with socket.socket() as s:
            s.bind((addr, 0))
            p = s.getsockname()[1]
        with PORTS_LOCK:
            if p not in PORTS and p != DEFAULT:
                PORTS.add(p)
                return p


class Proc:
    """a server of which nothing is assumed yet"""

    def __init__(self, exe, d, args, env=None):
        self.d, self.args = d, [exe] + [str(a) for a in args]
        self.n = f"p{id(self)}"
        e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_") and "proxy" not in k.lower()}
        e.update(SAN_ENV)
        e.update(env or {})
        self.out, self.err = open(os.path.join(d, self.n + ".out"), "wb"), open(os.path.join(d, self.n + ".err"), "wb")
        self.p = subprocess.Popen(self.args, env=e, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err, cwd=d,
                                  preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))

    def outs(self):
        return rd(self.out.name).decode("utf-8", "replace")

    def errs(self):
        return rd(self.err.name).decode("utf-8", "replace")

    def up(self, wait=60):
        """-> where it listens, as soon as it does; None: it ended"""
        t = time.time()
        while time.time() - t < wait:
            at = listening(self.p.pid)
            if at:
                return at
            if self.p.poll() is not None:
                return None
            time.sleep(.005)
        return set()

    def wait(self, s):
        try:
            return self.p.wait(s)
        except subprocess.TimeoutExpired:
            return None

    def brief(self):
        return f"{' '.join(self.args)}\nstatus {self.p.poll()}\nstdout: {self.outs()[-1500:]}\nstderr: {self.errs()[-4000:]}"

    def judge(self):
        m = SAN_RE.search(self.errs())
        if m:
            raise Violation(f"{m.group(0)}\n{self.brief()}")

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.out.close()
        self.err.close()


def get(addr, port, path, wait=30):
    with socket.create_connection((addr, port), wait) as s:
        s.settimeout(wait)
        s.sendall(request(path, close=True))
        data = b""
        while True:
            x = s.recv(65536)
            if not x:
                break
            data += x
    m = re.match(rb"HTTP/1\.[01] (\d{3})[^\r\n]*\r\n", data)
    if not m or b"\r\n\r\n" not in data:
        raise Violation(f"GET {path}: not a HTTP response: {data[:200]!r}")
    return int(m[1]), data.split(b"\r\n\r\n", 1)[1]


def main(exe):
    ck = Check("C28", "exploration",
               "a case is one life of the real server. at: the sockets with which the process listens (from the kernel's tables) are "
               "compared with --bind-address and --port, or the defaults, and the announced addresses are asked. ready: the reading of a "
               "database or table is held up; meanwhile it must not listen, afterwards it must answer rightly. refused: the port is in use, "
               "the address not local or senseless, no or an unusable database: it must end by itself, non-zero, with a message, and leave the holder of the "
               "port alone. interrupt: SIGINT while connections are idle, half sent, busy or held up in a disk read; it must end with status zero, "
               "every whole answer must be right, the port must be free; under AddressSanitizer and ThreadSanitizer, whose reports at exit count. "
               "non-trivial: it listened, or refused with a message",
               ["what does not end within 20 s counts as not ending, if it happens again in a second run, alone"])

    def late(msg):
        if getattr(PATIENCE, "factor", 1) == 1:
            raise Slow(msg)
        raise Violation(msg + " (twice)")

    def small(r, d, fmts, n=200):
        """databases with the passwords of the announced examples"""
        w = World(r, d, n, fmts)
        for i, f in enumerate(fmts):
            for h in (model.pw_hash(b"password123", f), dict(sha1=bytes.fromhex("CBFDAC6008F9CAB4083784CBD1874F76618D2A97"),
                                                           ntlm=bytes.fromhex("A9FDFA038C4B75EBC76DC855DD74F0DA"), sha1t64=bytes.fromhex("00001131628B741F"))[f]):
                w.known[f][h] = 1000 + i + len(w.known[f])
            wr(w.dbs[f], model.pack(sorted(w.known[f].items())))
            os.utime(w.dbs[f], (1.7e9, 1.7e9))
        return w

    def options(r, w, *more):
        parts = [[f"--{f}-db", p] for f, p in w.dbs.items()] + [list(m) for m in more]
        r.shuffle(parts)
        return sum(parts, [])

    def check_at(s, at, addr, port):
        want = {(a, port) for a in ([addr] if addr else ["127.0.0.1", "::1"])}
        expect(at and at <= want, f"listens at {sorted(at)}, expected {addr or 'the loopback address'} port {port}\n{s.brief()}")

    def start(exe_, d, make, want_port, addr, env=None):
        """tries again when someone else was quicker to take the port"""
        for _ in range(20):
            port = free_port(addr or "127.0.0.1") if want_port else DEFAULT
            s = Proc(exe_, d, make(port), env)
            at = s.up()
            if at is None and "in use" in s.errs():
                s.close()
                continue
            if at is None or not at:
                b = s.brief()
                s.close()
                if at is None:
                    raise Violation(f"the server did not start\n{b}")
                raise Slow(f"the server does not listen for 60 s\n{b}")
            return s, port, at
        raise RuntimeError("no free port")

    def ask_right(w, addr, port, path, want, json_, when):
        st, body = get(addr, port, path)
        expect(st == 200 and count_of(body, json_) == want, f"GET {path} {when}: {st}, {body[:100]!r}, expected {want}")

    def interrupt(s, port, what, wait=20):
        s.p.send_signal(signal.SIGINT)
        rc = s.wait(wait * getattr(PATIENCE, "factor", 1))
        if rc is None:
            b = s.brief()
            late(f"{what}: did not end within {wait} s after SIGINT\n{b}")
        s.judge()
        expect(rc == 0, f"{what}: exit status {rc} after SIGINT\n{s.brief()}")

    def at(c, d):
        r = rnd("c28", c["sig"])
        w = small(r, d, c["fmts"])
        json_ = r.random() < .3
        addr = c["addr"]
        if not c["port"]:
            with socket.socket() as t:
                t.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    t.bind(("0.0.0.0", DEFAULT))
                except OSError:
                    ck.count("default_port_taken")
                    return
        s, port, where = start(exe["plain"], d, lambda p: options(r, w, *([["--bind-address", addr]] if addr else []), *([["--port", p]] if c["port"] else []),
                                                              *([["--json"]] if json_ else []), *([["--threads", r.choice([1, 2])]] if r.random() < .5 else [])), c["port"], addr)
        try:
            check_at(s, where, addr, port)
            a = "127.0.0.1" if addr in (None, "localhost", "0.0.0.0") else addr
            if not addr:
                a = next(iter(where))[0]
            for _ in range(5):
                p, n = w.valid(r)
                ask_right(w, a, port, p, n, json_, "")
            check_at(s, listening(s.p.pid), addr, port)
            for other in ("127.0.0.1", "127.0.0.2", "127.1.2.3"):
                with socket.socket() as t:
                    t.settimeout(10)
                    got = t.connect_ex((other, port)) == 0
                expect(got == (addr == "0.0.0.0" or other == a), f"bound to {addr or 'the default address'}: a connection to {other} is {'accepted' if got else 'refused'}\n{s.brief()}")
                ck.count("addresses_tried")
            interrupt(s, port, "at")
            urls = re.findall(r"http://([^\s/:]+):(\d+)(/check/(\w+)/\S+)(?:\s+\[using (\w+) db\])?", s.outs())
            expect({u[3] for u in urls} == {"plain"} | set(c["fmts"]), f"announced: {urls}, databases: {c['fmts']}\n{s.brief()}")
        finally:
            s.close()
        # what it has announced is answered by the next one at the same place
        s = Proc(exe["plain"], d, options(r, w, ["--port", port], *([["--bind-address", addr]] if addr else [])))
        try:
            where = s.up()
            if where is None and "in use" in s.errs():
                if taken(port):         # by another process
                    ck.count("port_taken_by_another_meanwhile")
                    return
                raise Violation(f"the port cannot be used again\n{s.brief()}")
            expect(where, f"the server did not start again at once\n{s.brief()}")
            check_at(s, where, addr, port)
            for h, p, path, kind, using in urls:
                expect(int(p) == port and h == (addr or "localhost"), f"announced {h}:{p}, listens at {addr or 'localhost'}:{port}")
                f = w.plain if kind == "plain" else kind
                expect(not using or using == w.plain, f"announced: plain passwords use {using}, expected {w.plain}")
                x = path.rsplit("/", 1)[1]
                ask_right(w, a, port, path, w.known[f].get(model.pw_hash(x.encode(), f) if kind == "plain" else bytes.fromhex(x), -1), False, "(announced)")
                ck.count("announced_addresses_asked")
            interrupt(s, port, "at, again")
        finally:
            s.close()
        ck.ran(c["sig"])

    def ready(c, d):
        r = rnd("c28", c["sig"])
        w = World(r, d, c["n"], c["fmts"], c["bits"])
        victim = r.choice(c["fmts"])
        bits = ["--toc-bits", c["bits"]]
        if c["table"]:          # an earlier one has built them
            s, port, _ = start(exe["plain"], d, lambda p: options(r, w, ["--toc"] + bits, ["--port", p]), True, None)
            interrupt(s, port, "ready, first")
            s.close()
        tables = [f for f in os.listdir(d) if f.endswith(".toc")]
        expect(len(tables) == (len(c["fmts"]) if c["table"] else 0), f"tables: {tables}")
        path = os.path.join(d, f"{os.path.basename(w.dbs[victim])}.{c['bits']}.toc") if c["table"] else w.dbs[victim]
        g = wr(os.path.join(d, "gate"), bytes(32))
        with open(g, "r+b") as f, mmap.mmap(f.fileno(), 32) as m:
            struct.pack_into("<q", m, 24, 1000)
            struct.pack_into("<q", m, 0, 1)
            port = free_port()
            s = Proc(exe["plain"], d, options(r, w, ["--toc"] + bits, ["--port", port]),
                     {"LD_PRELOAD": exe["gate"], "VERIF_GATE": "r", "VERIF_GATE_FILES": path, "VERIF_GATE_CTL": g})
            try:
                t, held, early = time.time(), 0, set()
                while time.time() - t < 30 and s.p.poll() is None and not early:
                    n = struct.unpack_from("<q", m, 8)[0]
                    early = listening(s.p.pid)
                    if n and not held:
                        held = time.time()
                    if held and time.time() - held > .15:
                        break
                    time.sleep(.005)
                expect(not early, f"it listens at {sorted(early)} before {os.path.basename(path)} has been read\n{s.brief()}")
                struct.pack_into("<q", m, 0, 0)
                where = s.up()
                if where is None and "in use" in s.errs():
                    return
                expect(where, f"the server did not start\n{s.brief()}")
                check_at(s, where, None, port)
                a = next(iter(where))[0]
                for _ in range(20):
                    p, n = w.valid(r)
                    ask_right(w, a, port, p, n, False, "as soon as it listens")
                interrupt(s, port, "ready")
            finally:
                struct.pack_into("<q", m, 0, 0)
                s.close()
        ck.count("starts_held_up_and_not_listening", held > 0)
        ck.ran(c["sig"], nontrivial=held > 0)

    def refused(c, d):
        r = rnd("c28", c["sig"])
        w = small(r, d, c["fmts"])
        how, port, addr, holder, other = c["how"], free_port(), "127.0.0.1", None, None
        more = []
        if how == "taken":          # by something else
            holder = socket.socket()
            holder.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, r.randrange(2))
            try:
                holder.bind((r.choice(["127.0.0.1", "0.0.0.0"]), port))
                holder.listen()
            except OSError:
                return
        elif how == "server":       # by another server, which goes on
            other, port, _ = start(exe["plain"], d, lambda p: options(r, w, ["--port", p], ["--bind-address", addr]), True, addr)
        elif how == "address":
            addr = r.choice(["192.0.2.1", "203.0.113.77", "198.51.100.5"])
        elif how == "senseless":
            addr = r.choice(["256.1.1.1", "1.2.3", "nowhere.invalid", "", "127.0.0.1:80", "::1::", "127.0.0.1 "])
        elif how == "missing":
            os.unlink(w.dbs[r.choice(c["fmts"])])
        elif how == "cut":
            f = r.choice(c["fmts"])
            wr(w.dbs[f], rd(w.dbs[f])[:-r.randrange(1, model.REC[f])])
        elif how == "none":
            w.dbs = {}
        elif how == "table":        # its table cannot be stored or read
            f = r.choice(c["fmts"])
            os.mkdir(f"{w.dbs[f]}.16.toc")
            more = [["--toc", "--toc-bits", 16]]
        if r.random() < .3 and not more:
            more = [["--toc"]]
        before = {f: rd(p) for f, p in w.dbs.items() if os.path.exists(p)}
        s = Proc(exe["asan"], d, options(r, w, ["--port", port], ["--bind-address", addr], *more))
        try:
            where, t = None, time.time()
            while s.p.poll() is None and time.time() - t < 20 * getattr(PATIENCE, "factor", 1):
                where = where or listening(s.p.pid)
                if where:
                    break
                time.sleep(.005)
            expect(not where, f"{how}: it listens at {sorted(where or [])}\n{s.brief()}")
            rc = s.p.poll()
            if rc is None:
                late(f"{how}: neither listens nor ends\n{s.brief()}")
            s.judge()
            expect(rc > 0, f"{how}: status {rc}\n{s.brief()}")
            expect(s.errs().strip(), f"{how}: no message\n{s.brief()}")
            if holder:
                with socket.create_connection(("127.0.0.1", port), 10):
                    holder.settimeout(10)
                    holder.accept()[0].close()
            if other:
                for _ in range(5):
                    p, n = w.valid(r)
                    ask_right(w, addr, port, p, n, False, "of the first server")
                interrupt(other, port, "the first server")
            for f, x in before.items():
                expect(rd(w.dbs[f]) == x, f"{how}: {f} database changed")
        finally:
            s.close()
            if holder:
                holder.close()
            if other:
                other.close()
        ck.ran(c["sig"])
        ck.count(f"refused_{how}")

    def ends(c, d):
        r = rnd("c28", c["sig"])
        toc = c["toc"]
        world = World(r, d, c["n"], c["fmts"], 16 if toc else None)
        env, m = None, None
        if c["held"]:
            g = wr(os.path.join(d, "gate"), bytes(32))
            gf = open(g, "r+b")
            m = mmap.mmap(gf.fileno(), 32)
            env = {"LD_PRELOAD": exe["gate"], "VERIF_GATE": "r", "VERIF_GATE_FILES": "\n".join(world.dbs.values()), "VERIF_GATE_CTL": g}
        s, port, _ = start(exe[c["build"]], d, lambda p: options(r, world, ["--port", p], ["--bind-address", "127.0.0.1"], ["--threads", c["threads"]],
                                                              *([["--toc", "--toc-bits", 16]] if toc else [])), True, "127.0.0.1", env)
        stat = dict(whole=0, cut=0)
        over = asyncio.Event()

        async def busy(k):
            rr, ww = await asyncio.open_connection("127.0.0.1", port)
            try:
                while True:
                    p, n = world.valid(rnd("c28busy", c["sig"], k, stat["whole"]))
                    ww.write(request(p))
                    await ww.drain()
                    st, h, body = await read_response(rr)
                    expect(st == 200 and count_of(body, False) == n, f"GET {p} around the interruption: {st}, {body[:80]!r}, expected {n}")
                    stat["whole"] += 1
            except (OSError, asyncio.IncompleteReadError):
                stat["cut"] += 1
            finally:
                ww.close()

        async def quiet(kind):
            try:
                rr, ww = await asyncio.open_connection("127.0.0.1", port)
            except OSError:
                return
            try:
                if kind == "half":
                    ww.write(b"GET /check/plain/some HTTP/1.1\r\nHos")
                elif kind == "deaf":        # asks and never reads
                    ww.write(request(world.valid(r)[0]) )
                elif kind == "used":
                    ww.write(request(world.valid(r)[0]))
                    await read_response(rr)
                await ww.drain()
                await over.wait()
            except (OSError, asyncio.IncompleteReadError):
                pass
            finally:
                ww.close()

        async def all_():
            tasks = [asyncio.create_task(busy(k)) for k in range(c["busy"])]
            tasks += [asyncio.create_task(quiet(r.choice(["idle", "half", "deaf", "used"]))) for _ in range(c["quiet"])]
            await asyncio.sleep(c["after"])
            held = 0
            if m:
                k = c["threads"] if c["held"] == "all" else max(1, c["threads"] - 1)
                struct.pack_into("<q", m, 24, k)
                struct.pack_into("<q", m, 0, 1)
                t = time.time()
                while time.time() - t < 2 and held < k:
                    held = struct.unpack_from("<q", m, 8)[0]
                    await asyncio.sleep(.002)
            s.p.send_signal(signal.SIGINT)
            if m:
                await asyncio.sleep(r.choice([0, .01, .2]))
                struct.pack_into("<q", m, 0, 0)
            t = time.time()
            while s.p.poll() is None and time.time() - t < 20 * getattr(PATIENCE, "factor", 1):
                await asyncio.sleep(.003)
            over.set()
            done = s.p.poll() is not None
            if not done:
                b = s.brief()
                s.p.kill()
                s.p.wait()
            for x in asyncio.as_completed(tasks, timeout=60):
                await x
            if not done:
                late(f"did not end within 20 s after SIGINT\n{b}")
            return held
        try:
            held = asyncio.run(all_())
            s.judge()
            expect(s.p.returncode == 0, f"exit status {s.p.returncode} after SIGINT\n{s.brief()}")
        finally:
            if m:
                struct.pack_into("<q", m, 0, 0)
                m.close()
                gf.close()
            s.close()
        ck.ran(c["sig"], nontrivial=stat["whole"] > 0 or c["quiet"] > 0)
        ck.count("interrupted_with_reads_held_up", held > 0)
        ck.count("right_answers_before_the_end", stat["whole"])
        ck.count("connections_cut_by_the_end", stat["cut"])
        ck.count("ends_under_" + c["build"])

    cases = []
    r = rnd("c28cases")
    kinds = dict(at=at, ready=ready, refused=refused, ends=ends)
    FMTS = [["sha1"], ["ntlm"], ["sha1t64"], ["sha1", "ntlm"], ["ntlm", "sha1t64"], ["sha1", "ntlm", "sha1t64"]]

    def add(**c):
        c["fmts"] = r.choice(FMTS)
        c["sig"] = "-".join(str(v) for v in c.values() if not isinstance(v, list)) + f"-{len(cases)}"
        cases.append((c["sig"], c))
    for i in range(scale(16, 100)):
        add(kind="at", addr=[None, "127.0.0.1", "127.0.0.2", "0.0.0.0", None, "127.77.5.3"][i % 6], port=True)
    for i in range(scale(12, 100)):
        add(kind="ready", n=r.choice([20, 200, 5000]), bits=r.choice([15, 16, 20]), table=i % 3 == 0)
    for i in range(scale(4, 20)):
        for how in ("taken", "server", "address", "senseless", "missing", "cut", "none", "table"):
            add(kind="refused", how=how)
    for i in range(scale(40, 500)):
        held = r.choice(["all", "some", ""]) if i % 4 == 0 else ""
        add(kind="ends", build="plain" if held else ["asan", "tsan"][i % 2], threads=r.choice([1, 2, 4]), toc=r.random() < .3, n=r.choice([200, 20000]),
            busy=r.choice([0, 1, 4, 20]), quiet=r.choice([0, 1, 5, 30]), after=r.choice([0, .01, .1, .3]), held=held)
    ck.cases(lambda c, d: kinds[c["kind"]](c, d), cases, jobs=6)
    # the default port, one at a time
    ck.cases(lambda c, d: at(c, d), [(f"default-{i}", dict(sig=f"default-{i}", addr=[None, "127.0.0.1", "0.0.0.0"][i % 3], port=False, fmts=FMTS[i % 6])) for i in range(scale(3, 12))], jobs=1)
    return ck.finish()
