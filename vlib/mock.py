"""Adversarial stand-in for the pwnedpasswords API. Runs in a thread of its own (asyncio), on an
ephemeral loopback port; the downloader is pointed at it with http_proxy, so any number of servers
can run at once. It records every request, decides when and in which order to answer, and how."""
import asyncio, random, re, socket, struct, threading, time, urllib.parse


class Reply:
    """What to do with one attempt."""
    def __init__(self, kind="ok", body=b"", status=200, cut=0, frag=None, fragdelay=0.0, chunked=False,
                 close=False):
        self.kind, self.body, self.status, self.cut = kind, body, status, cut
        self.frag, self.fragdelay, self.chunked, self.close = frag, fragdelay, chunked, close


class Mock:
    """respond(prefix, ntlm, attempt) -> Reply.   policy: how outstanding requests are released:
    'asap', 'lifo', 'fifo', 'random', 'firstlast' (the lowest prefix last), or a callable
    (list of prefixes) -> index."""

    def __init__(self, respond, policy="asap", seed=0, window=0.02, want=None, batch=1, total=None):
        self.respond, self.policy, self.rnd = respond, policy, random.Random(seed)
        self.window, self.want, self.batch, self.total = window, want, batch, total
        self.log = []            # (t, 'req'|'rsp', prefix, mode, attempt)
        self.fill = []           # if want is a function: (how many wait, how many should) at each release
        self.released = []       # order of release
        self.attempts = {}
        self.outstanding = 0
        self.max_outstanding = 0
        self.max_hold = 0.0      # longest time from a request to the end of its answer
        self.other = []          # requests that are not range requests
        self.connects = []
        self.waiting = []
        self.arrival = 0.0
        self.t0 = time.time()

    def start(self):
        self.loop = asyncio.new_event_loop()
        ev = threading.Event()

        def main():
            asyncio.set_event_loop(self.loop)
            self.server = self.loop.run_until_complete(
                asyncio.start_server(self.client, "127.0.0.1", 0, backlog=1024, limit=1 << 20))
            self.port = self.server.sockets[0].getsockname()[1]
            self.rel = self.loop.create_task(self.releaser())
            ev.set()
            try:
                self.loop.run_forever()
            finally:
                self.loop.close()
        self.thread = threading.Thread(target=main, daemon=True)
        self.thread.start()
        ev.wait()
        return self

    def stop(self):
        async def fin():
            self.server.close()
            me = asyncio.current_task()
            ts = [t for t in asyncio.all_tasks() if t is not me]
            for t in ts:
                t.cancel()
            await asyncio.gather(*ts, return_exceptions=True)
            self.loop.stop()
        try:
            self.loop.call_soon_threadsafe(lambda: self.loop.create_task(fin()))
        except RuntimeError:
            return
        self.thread.join(5)

    def __enter__(self):
        return self.start()

    def __exit__(self, *a):
        self.stop()

    def env(self):
        u = f"http://127.0.0.1:{self.port}"
        return {"http_proxy": u, "https_proxy": u, "no_proxy": "", "NO_PROXY": "", "all_proxy": ""}

    async def releaser(self):
        while True:
            await asyncio.sleep(0.0005)
            if not self.waiting:
                continue
            if self.policy == "asap":
                n = len(self.waiting)
            else:
                # let the client fill its window, so that there is something to reorder
                want = self.want() if callable(self.want) else self.want
                full = want is not None and len(self.waiting) >= want
                if not full and time.time() - self.arrival < self.window:
                    continue
                n = min(self.batch, len(self.waiting))
                if callable(self.want):
                    self.fill.append((len(self.waiting), want, len(self.released)))
            for _ in range(n):
                p = self.policy
                if callable(p):
                    i = p([w[0] for w in self.waiting])
                elif p in ("fifo", "asap"):
                    i = 0
                elif p == "lifo":
                    i = len(self.waiting) - 1
                elif p == "random":
                    i = self.rnd.randrange(len(self.waiting))
                elif p == "firstlast":
                    lo = min(range(len(self.waiting)), key=lambda k: self.waiting[k][0])
                    i = lo if len(self.waiting) == 1 else self.rnd.choice(
                        [k for k in range(len(self.waiting)) if k != lo])
                else:
                    raise ValueError(p)
                w = self.waiting.pop(i)
                w[1].set_result(None)

    async def client(self, r, w):
        try:
            while True:
                head = await r.readuntil(b"\r\n\r\n")
                line = head.split(b"\r\n", 1)[0].decode("latin1")
                m = re.match(r"(\S+) (\S+) HTTP/1\.[01]$", line)
                if not m:
                    self.other.append(line)
                    break
                if m[1] == "CONNECT":
                    self.connects.append(m[2])
                    await self.on_connect(m[2], r, w)
                    break
                u = urllib.parse.urlsplit(m[2])
                q = re.match(r"/([0-9A-F]{5})$", u.path)
                if m[1] != "GET" or not q or u.query not in ("", "mode=ntlm") or u.netloc != "localhost:8090":
                    self.other.append(line)
                    w.write(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n")
                    await w.drain()
                    continue
                prefix, mode = q[1], u.query
                n = self.attempts.get(prefix, 0)
                self.attempts[prefix] = n + 1
                self.log.append((time.time() - self.t0, "req", prefix, mode, n))
                asked = time.time()
                self.outstanding += 1
                self.max_outstanding = max(self.max_outstanding, self.outstanding)
                try:
                    fut = self.loop.create_future()
                    self.waiting.append((prefix, fut))
                    self.arrival = time.time()
                    await fut
                    self.released.append(prefix)
                    rep = self.respond(prefix, mode == "mode=ntlm", n)
                finally:
                    self.outstanding -= 1
                keep = await self.send(rep, w)
                self.max_hold = max(self.max_hold, time.time() - asked)
                if not keep:
                    break
        except (asyncio.IncompleteReadError, ConnectionError, asyncio.LimitOverrunError, OSError):
            pass
        finally:
            try:
                w.close()
            except Exception:
                pass

    async def on_connect(self, target, r, w):
        w.write(b"HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n")
        await w.drain()

    def _reset(self, w):
        s = w.get_extra_info("socket")
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        w.transport.abort()

    async def send(self, rep, w):
        """-> keep the connection"""
        if rep.kind == "reset":       # no answer at all
            self._reset(w)
            return False
        if rep.kind == "close":       # orderly close without an answer
            return False
        if rep.kind == "garbage":
            w.write(rep.body)
            await w.drain()
            return False
        body = rep.body
        if rep.chunked:
            head = f"HTTP/1.1 {rep.status} X\r\nContent-Type: text/plain\r\nTransfer-Encoding: chunked\r\n"
        else:
            head = f"HTTP/1.1 {rep.status} X\r\nContent-Type: text/plain\r\nContent-Length: {len(body)}\r\n"
        if rep.close:
            head += "Connection: close\r\n"
        w.write(head.encode() + b"\r\n")
        if rep.kind in ("cut", "cutreset"):   # only a part of the promised body
            part = body[:rep.cut]
            if rep.chunked and part:
                w.write(b"%x\r\n%s\r\n" % (len(part), part))
            else:
                w.write(part)
            await w.drain()
            if rep.kind == "cutreset":
                await asyncio.sleep(0.002)
                self._reset(w)
            return False
        if rep.kind == "stall":
            w.write(body[:rep.cut])
            await w.drain()
            await asyncio.sleep(3600)
            return False
        sizes = rep.frag or [len(body)]
        pos, k = 0, 0
        while pos < len(body):
            n = max(1, sizes[k % len(sizes)])
            k += 1
            part = body[pos:pos + n]
            pos += n
            w.write(b"%x\r\n%s\r\n" % (len(part), part) if rep.chunked else part)
            if rep.frag:
                await w.drain()
                await asyncio.sleep(rep.fragdelay)
        if rep.chunked:
            w.write(b"0\r\n\r\n")
        await w.drain()
        return not rep.close
