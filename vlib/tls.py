"""The public API as an impostor or as the real one would serve it: a proxy that answers CONNECT by itself with
TLS and certificates of our own making."""
import asyncio, os, re, ssl, subprocess
from .mock import Mock

HOST = "api.pwnedpasswords.com"
CONF = """
[ca]
default_ca = d
[d]
dir = %s
database = %s/index
serial = %s/serial
new_certs_dir = %s
default_md = sha256
policy = p
unique_subject = no
copy_extensions = copy
[p]
commonName = supplied
"""


def _sh(d, *a):
    r = subprocess.run(a, cwd=d, capture_output=True)
    if r.returncode:
        raise RuntimeError(f"{a}: {r.stderr.decode()[-800:]}")


def make(d):
    """-> {kind: (cert file, key file)}, 'ca': path of the trusted CA"""
    for f, c in (("index", ""), ("serial", "1000\n"), ("conf", CONF % (d, d, d, d))):
        open(os.path.join(d, f), "w").write(c)
    ec = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes"]
    out = {}
    for ca in ("ca", "otherca"):
        _sh(d, "openssl", "req", "-x509", *ec, "-keyout", f"{ca}.key", "-out", f"{ca}.pem", "-subj", f"/CN=verif {ca}", "-days", "30",
            "-addext", "basicConstraints=critical,CA:TRUE")
    for kind, ca, names, start, end in (
            ("good", "ca", f"DNS:{HOST}", None, None),
            ("wildcard", "ca", "DNS:*.pwnedpasswords.com", None, None),
            ("untrusted", "otherca", f"DNS:{HOST}", None, None),
            ("wrong-host", "ca", "DNS:api.pwnedpasswords.example,DNS:pwnedpasswords.com,DNS:localhost", None, None),
            ("parent-host", "ca", "DNS:pwnedpasswords.com", None, None),
            ("expired", "ca", f"DNS:{HOST}", "20200101000000Z", "20210101000000Z"),
            ("not-yet", "ca", f"DNS:{HOST}", "20900101000000Z", "20910101000000Z")):
        cn = HOST if kind not in ("wrong-host", "parent-host") else "other.example"
        _sh(d, "openssl", "req", *ec, "-keyout", f"{kind}.key", "-out", f"{kind}.csr", "-subj", f"/CN={cn}", "-addext", f"subjectAltName={names}")
        when = ["-startdate", start, "-enddate", end] if start else ["-days", "20"]
        _sh(d, "openssl", "ca", "-batch", "-notext", "-config", "conf", "-cert", f"{ca}.pem", "-keyfile", f"{ca}.key", "-in", f"{kind}.csr",
            "-out", f"{kind}.pem", *when)
        out[kind] = (os.path.join(d, f"{kind}.pem"), os.path.join(d, f"{kind}.key"))
    _sh(d, "openssl", "req", "-x509", *ec, "-keyout", "self.key", "-out", "self.pem", "-subj", f"/CN={HOST}", "-days", "30",
        "-addext", f"subjectAltName=DNS:{HOST}")
    out["self-signed"] = (os.path.join(d, "self.pem"), os.path.join(d, "self.key"))
    out["ca"] = os.path.join(d, "ca.pem")
    return out


class TlsMock(Mock):
    """respond() is asked for the requests that arrive through TLS at the right host and path"""

    def __init__(self, respond, cert, connect="tls", **o):
        super().__init__(respond, **o)
        self.connect = connect
        self.inside = []        # (host, target, method) of every request that came through TLS
        self.plain = []         # requests outside TLS
        self.handshakes = self.failed = 0
        if cert:
            self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.ctx.load_cert_chain(*cert)

    async def client(self, r, w):
        try:
            head = await r.readuntil(b"\r\n\r\n")
            m = re.match(rb"CONNECT (\S+) HTTP/1\.[01]\r\n", head)
            if not m:
                self.plain.append(head[:200])
                self.released.append(head[:50])
                b = self.respond("00000", False, 0).body        # it would get what it asked for
                w.write(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(b), b))
                await w.drain()
                return
            self.connects.append(m[1].decode())
            if self.connect == "refuse":
                w.write(b"HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
                await w.drain()
                return
            w.write(b"HTTP/1.1 200 Connection established\r\n\r\n")
            await w.drain()
            if self.connect == "plain":     # not TLS at all
                b = self.respond("00000", False, 0).body
                w.write(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s" % (len(b), b))
                await w.drain()
                head = await r.read(1000)
                if b"GET" in head:
                    self.plain.append(head[:200])
                return
            try:
                await w.start_tls(self.ctx, ssl_handshake_timeout=20)
            except (ssl.SSLError, OSError, ConnectionError):
                self.failed += 1
                return
            self.handshakes += 1
            while True:
                head = (await r.readuntil(b"\r\n\r\n")).decode("latin1")
                m = re.match(r"(\S+) (\S+) HTTP/1\.[01]\r\n", head)
                h = re.search(r"\r\nhost:\s*(\S+)\r\n", head, re.I)
                self.inside.append((h[1] if h else "", m[2] if m else "", m[1] if m else head[:50]))
                q = re.fullmatch(r"/range/([0-9A-F]{5})(\?mode=ntlm)?", m[2]) if m else None
                if not m or m[1] != "GET" or not q or not h or h[1] not in (HOST, HOST + ":443"):
                    self.other.append(head[:300])
                    w.write(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n")
                    await w.drain()
                    continue
                p, ntlm = q[1], bool(q[2])
                n = self.attempts.get(p, 0)
                self.attempts[p] = n + 1
                self.log.append((0, "req", p, "mode=ntlm" if ntlm else "", n))
                rep = self.respond(p, ntlm, n)
                if isinstance(rep, bytes):
                    w.write(rep)
                    await w.drain()
                    continue
                if not await self.send(rep, w):
                    break
        except (asyncio.IncompleteReadError, ConnectionError, asyncio.LimitOverrunError, OSError, ssl.SSLError):
            pass
        finally:
            try:
                w.close()
            except Exception:
                pass
