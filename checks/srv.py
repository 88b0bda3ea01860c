"""Shared by the server checks: starting the real server, a pipelining HTTP client, the oracle."""
import asyncio, os, re, socket, subprocess, threading, urllib.parse
from vlib import model
from vlib.common import *
from checks.search import database, pw, needles


PORTS, PORTS_LOCK = set(), threading.Lock()


def owns(pid, port):
    """does the process listen there itself? (another one of our servers may have been quicker)"""
    for name in ("tcp", "tcp6"):
        try:
            rows = [l.split() for l in open(f"/proc/net/{name}").read().splitlines()[1:]]
        except OSError:
            return True
        inodes = {f"socket:[{x[9]}]" for x in rows if x[3] == "0A" and int(x[1].rsplit(":", 1)[1], 16) == port}
        try:
            for f in os.listdir(f"/proc/{pid}/fd"):
                try:
                    if os.readlink(f"/proc/{pid}/fd/{f}") in inodes:
                        return True
                except FileNotFoundError:
                    pass
        except FileNotFoundError:
            return False
        except OSError:
            return True
    return False


class Server:
    def __init__(self, exe, d, dbs, opts, env=None, nofile=None):
        """dbs: {fmt: path}"""
        self.err = open(os.path.join(d, f"server{id(self)}.err"), "w+b")
        for attempt in range(20):
            while True:
                with socket.socket() as s:
                    s.bind(("127.0.0.1", 0))
                    self.port = s.getsockname()[1]
                with PORTS_LOCK:
                    if self.port not in PORTS:
                        PORTS.add(self.port)
                        break
            args = [exe, "--bind-address", "127.0.0.1", "--port", str(self.port)] + [str(o) for o in opts]
            for f, p in dbs.items():
                args += [f"--{f}-db", p]
            self.args = args
            e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_") and "proxy" not in k.lower()}
            e.update(SAN_ENV)
            e.update(env or {})
            self.err.seek(0)
            self.err.truncate()
            self.p = subprocess.Popen(args, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err,
                                      preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))) if nofile else None)
            t = time.time()
            while time.time() - t < 60 and self.p.poll() is None:
                with socket.socket() as s:
                    s.settimeout(5)
                    if s.connect_ex(("127.0.0.1", self.port)) == 0 and owns(self.p.pid, self.port):
                        return
                time.sleep(.01)
            if self.p.poll() is None:
                self.p.kill()
                self.p.wait()
                raise Slow("server did not start listening")
            e = self.errors()
            if "in use" not in e:
                raise Violation(f"the server did not start: {' '.join(args)}\nexit {self.p.returncode}: {e[:2000]}")
        raise RuntimeError("no free port")

    def errors(self):
        self.err.flush()
        return rd(self.err.name).decode("utf-8", "replace")

    def alive(self):
        return self.p.poll() is None

    def stop(self, what="server"):
        """-> stops it and judges its whole life"""
        died = self.p.poll()
        if died is None:
            self.p.terminate()
            try:
                self.p.wait(30)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        e = self.errors()
        self.err.close()
        m = SAN_RE.search(e)
        if m:
            raise Violation(f"{what}: {m.group(0)}\n{e[m.start():m.start() + 12000]}")
        if died is not None:
            raise Violation(f"{what}: the server ended by itself, status {died}\n{e[-2000:]}")

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()


async def read_response(r):
    head = await r.readuntil(b"\r\n\r\n")
    lines = head.split(b"\r\n")
    m = re.match(rb"HTTP/1\.[01] (\d{3})", lines[0])
    if not m:
        raise Violation(f"not a HTTP response: {head[:200]!r}")
    h = {}
    for l in lines[1:]:
        if b":" in l:
            k, v = l.split(b":", 1)
            h[k.strip().lower()] = v.strip()
    n = int(h.get(b"content-length", b"0"))
    body = await r.readexactly(n) if n else b""
    return int(m[1]), h, body


def request(path, close=False, method="GET"):
    return f"{method} {path} HTTP/1.1\r\nHost: localhost\r\n{'Connection: close' + chr(13) + chr(10) if close else ''}\r\n".encode()


def count_of(body, json_):
    """the count in a response body"""
    if json_:
        m = re.fullmatch(rb'\s*\{\s*"?count"?\s*:\s*(-?\d+)\s*\}\s*', body)
    else:
        m = re.fullmatch(rb"\s*(-?\d+)\s*", body)
    return int(m[1]) if m else None


def encode(r, p):
    """a percent-encoded form of a password"""
    how = r.randrange(3)
    out = ""
    for b in p:
        safe = chr(b) in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"
        if how == 0 and safe or how == 1 and safe and r.random() < .7:
            out += chr(b)
        else:
            out += (f"%{b:02X}" if r.random() < .7 else f"%{b:02x}")
    return out


class World:
    """databases of the three formats and what the server must answer"""

    def __init__(self, r, d, n, fmts, dense_bits=None, huge=False):
        from checks.c07 import dense
        self.r, self.dbs, self.known, self.pws = r, {}, {}, [p for p in (pw(r) for _ in range(60)) if p and len(p) < 600]
        # passwords that look like hashes in the databases
        self.alike = [(f, model.pw_hash(p, f)) for p in self.pws[:4] for f in fmts]
        self.pws = [h.hex().upper().encode() for _, h in self.alike] + self.pws
        for f in fmts:
            if dense_bits:
                recs = dense(r, f, dense_bits, n, lambda r, c: r.choice([1, 2, 3]))
                # the passwords whose hash falls into the covered chapters
                have = dict(recs)
                for p in self.pws:
                    h = model.pw_hash(p, f)
                    if int.from_bytes(h[:4], "big") >> (32 - dense_bits) < n:
                        have[h] = r.randrange(10**6)
                recs = sorted(have.items())
            else:
                recs = database(r, f, n, "uniform", self.pws[:30])
            if r.random() < .5:       # a record of the hash that is all zeros
                recs = sorted({**dict(recs), bytes(model.HASH[f]): r.choice([1, 7, 10**6])}.items())
            self.dbs[f] = None
            if huge:        # begins after 4 GiB
                recs = [x for x in recs if any(x[0])]
                self.dbs[f] = model.sparse(os.path.join(d, f + ".db"), f, (1 << 32) // model.REC[f] + 50, recs)
            self.huge = self.dbs[f] is not None
            if not self.dbs[f]:
                self.dbs[f] = wr(os.path.join(d, f + ".db"), model.pack(recs))
            self.known[f] = dict(recs)
            if self.huge:
                self.known[f][bytes(model.HASH[f])] = 0
            os.utime(self.dbs[f], (1.7e9, 1.7e9))
        self.needles = {f: needles(r, f, sorted(self.known[f].items()), 120) for f in fmts}
        self.hashes = {f: list(k) for f, k in self.known.items()}
        self.plain = next((f for f in ("sha1", "ntlm", "sha1t64") if f in self.dbs), None)

    def extreme(self, r):
        f = r.choice(list(self.dbs))
        h = r.choice([bytes(model.HASH[f])] * 3 + [b"\xff" * model.HASH[f], min(self.hashes[f]), max(self.hashes[f])])
        return f"/check/{f}/{h.hex().upper()}", self.known[f].get(h, -1)

    def valid(self, r):
        """-> (path, expected count)"""
        if r.random() < .15:        # the same text as a password and as a hash
            f, h = r.choice(self.alike[:2] if r.random() < .7 else self.alike)
            p = h.hex().upper()
            if r.random() < .5:
                return f"/check/{f}/{p}", self.known[f].get(h, -1)
            return f"/check/plain/{p}", self.known[self.plain].get(model.pw_hash(p.encode(), self.plain), -1)
        if r.random() < .3:
            p = r.choice(self.pws)
            if r.random() < .2:
                p = pw(r)
                while not p or len(p) > 600:
                    p = pw(r)
            return "/check/plain/" + encode(r, p), self.known[self.plain].get(model.pw_hash(p, self.plain), -1)
        f = r.choice(list(self.dbs))
        h = r.choice(self.hashes[f]) if r.random() < .5 else r.choice(self.needles[f])
        return f"/check/{f}/{h.hex().upper()}", self.known[f].get(h, -1)
