"""Reference models, independent of the code under test."""
import hashlib, os, random, struct

HASH = {"sha1": 20, "ntlm": 16, "sha1t64": 8}
REC = {k: v + 4 for k, v in HASH.items()}
FLAG = {"sha1": [], "ntlm": ["--ntlm"], "sha1t64": ["--sha1t64"]}


class Malformed(ValueError):
    pass


def pack(recs):
    """[(hash, count)] -> database bytes"""
    p = struct.Struct("<i").pack
    return b"".join([h + p(c) for h, c in recs])


def unpack(data, fmt):
    n, r = HASH[fmt], REC[fmt]
    if len(data) % r:
        raise Malformed(f"{len(data)} bytes are not a whole number of {fmt} records")
    return list(struct.iter_unpack(f"<{n}si", data))


def text(rec):
    return f"{rec[0].hex().upper()}:{rec[1]}"


def lines(recs):
    return "".join(text(r) + "\n" for r in recs).encode()


def rnd_count(rnd, neg=False):
    k = rnd.randrange(10)
    if k == 0:
        return rnd.choice([0, 1, 2, 9, 10, 99, 100, 2**31 - 1, 2**31 - 2, 2**24, 65535, 65536])
    if neg and k == 1:
        return rnd.choice([-1, -2, -2**31, -2**31 + 1, -12345])
    return rnd.randrange(1, 10 ** rnd.randrange(1, 9))


def rnd_recs(rnd, n, fmt, neg=False, spread="uniform", prefix_bits=None):
    """n records with distinct hashes, sorted by hash"""
    size = HASH[fmt]
    out = set()
    tails = 0
    while len(out) < n:
        if spread == "uniform":
            h = rnd.randbytes(size)
        elif spread == "clustered":     # long common prefixes: differ late
            base = bytearray(rnd.randbytes(2) * size)[:size]
            k = rnd.choice([0, 3, 4, 7, 8, 11, 12, 15, 16, size - 2, size - 1])
            base[min(k, size - 1)] = rnd.randrange(256)
            base[rnd.randrange(size)] = rnd.randrange(256)
            h = bytes(base)
        elif spread == "low":           # a partial database: low prefixes only
            h = (rnd.randrange(256)).to_bytes(3, "big") + rnd.randbytes(size - 3)
        else:
            raise ValueError(spread)
        out.add(h)
    return [(h, rnd_count(rnd, neg)) for h in sorted(out)]


class Api:
    """Content of the (fake) API: per prefix and mode a sorted list of (hash, count)."""

    def __init__(self, seed, lo, hi, sizes, twins=16):
        """sizes(rnd, prefix) -> number of records of that prefix; now and then the last two records of a prefix
        differ in a single one of their hexadecimal digits, which is among the first `twins`"""
        self.data = {"sha1": {}, "ntlm": {}}
        for mode, size in (("sha1", 20), ("ntlm", 16)):
            for p in range(lo, hi):
                rnd = random.Random(f"{seed}/{mode}/{p}")
                n = sizes(rnd, p)
                s = set()
                while len(s) < n:
                    b = bytearray(p.to_bytes(3, "big") + rnd.randbytes(size - 3 + 1))
                    v = int.from_bytes(b, "big") & ((1 << (8 * size - 20)) - 1)
                    s.add(((p << (8 * size - 20)) | v).to_bytes(size, "big"))
                if n >= 2 and rnd.random() < .5:
                    last = max(s)
                    at = min(rnd.choice([5, 6, 10, 15, 16, 17, 24, 31, 32, 38, 39]), 2 * size - 1, twins - 1)
                    if rnd.random() < .4:
                        at = min(twins, 2 * size) - 1
                    d = list(last.hex())
                    d[at] = rnd.choice([x for x in "0123456789abcdef" if x != d[at]])
                    twin = bytes.fromhex("".join(d))
                    s -= {sorted(s)[-2]}
                    s.add(twin)
                if size == 20 and n and twins <= 16:        # keep the 64 bit truncations distinct
                    t = {}
                    for h in s:
                        t[h[:8]] = h
                    s = set(t.values())
                self.data[mode][p] = [(h, rnd_count(rnd)) for h in sorted(s)]

    def body(self, p, ntlm, eol=b"\r\n", final=True):
        recs = self.data["ntlm" if ntlm else "sha1"][p]
        b = eol.join(text(r)[5:].encode() for r in recs)
        return b + (eol if final and recs else b"")

    def recs(self, p, fmt):
        if fmt == "sha1t64":
            return [(h[:8], c) for h, c in self.data["sha1"][p]]
        return self.data[fmt][p]

    def db(self, lo, hi, fmt):
        return pack([r for p in range(lo, hi) for r in self.recs(p, fmt)])

    def txt(self, lo, hi, ntlm):
        return lines([r for p in range(lo, hi) for r in self.data["ntlm" if ntlm else "sha1"][p]])


def sparse(path, fmt, zeros, tail):
    """a database of that many records of hash 0 and count 0 (a hole), and then the given ones; None where
    there is no room for such files"""
    try:
        with open(path, "wb") as f:
            f.truncate(zeros * REC[fmt])
            f.seek(0, 2)
            f.write(pack(tail))
    except OSError:
        return None
    return path


def differs(path, fmt, zeros, tail):
    """how that file differs from the sparse one described as above; None: not at all"""
    want, at = pack(tail), zeros * REC[fmt]
    with open(path, "rb") as f:
        size = f.seek(0, 2)
        if size != at + len(want):
            return f"size {size} instead of {at + len(want)}"
        o = 0
        while o < at:
            try:
                o = os.lseek(f.fileno(), o, os.SEEK_DATA)
                end = min(at, os.lseek(f.fileno(), o, os.SEEK_HOLE))
            except OSError:
                break
            while o < end:
                b = os.pread(f.fileno(), min(1 << 20, end - o), o)
                if b.strip(b"\0"):
                    i = len(b) - len(b.lstrip(b"\0"))
                    return f"at byte {o + i}: {b[i:i + 24].hex()} instead of zeros"
                o += len(b)
        f.seek(at)
        b = f.read()
        if b != want:
            i = next((i for i in range(len(want)) if b[i] != want[i]), len(want))
            return f"at byte {at + i} (record {zeros + i // REC[fmt]}): {b[i:i + 24].hex()} instead of {want[i:i + 24].hex()}"
    return None


# ---- MD4 (RFC 1320) ----

def md4(msg):
    def f(x, y, z): return (x & y) | (~x & z)
    def g(x, y, z): return (x & y) | (x & z) | (y & z)
    def h(x, y, z): return x ^ y ^ z
    M = 0xFFFFFFFF
    def rol(v, s):
        v &= M
        return ((v << s) | (v >> (32 - s))) & M
    a, b, c, d = 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476
    bits = len(msg) * 8
    msg = msg + b"\x80" + b"\0" * ((55 - len(msg)) % 64) + struct.pack("<Q", bits & (2**64 - 1))
    for o in range(0, len(msg), 64):
        x = struct.unpack_from("<16I", msg, o)
        s = [a, b, c, d]
        def rnd(fn, order, shifts, k):
            for i in range(16):
                j = (-i) % 4
                s[j] = rol(s[j] + fn(s[(j + 1) % 4], s[(j + 2) % 4], s[(j + 3) % 4]) + x[order[i]] + k, shifts[i % 4])
        rnd(f, range(16), (3, 7, 11, 19), 0)
        rnd(g, [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15], (3, 5, 9, 13), 0x5A827999)
        rnd(h, [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15], (3, 9, 11, 15), 0x6ED9EBA1)
        a, b, c, d = (a + s[0]) & M, (b + s[1]) & M, (c + s[2]) & M, (d + s[3]) & M
    return struct.pack("<4I", a, b, c, d)


def ntlm(pw: bytes):
    return md4(pw.decode("utf-8").encode("utf-16-le"))


def pw_hash(pw: bytes, fmt):
    return ntlm(pw) if fmt == "ntlm" else hashlib.sha1(pw).digest()[:HASH[fmt]]


assert md4(b"").hex() == "31d6cfe0d16ae931b73c59d7e0c089c0"
assert md4(b"abc").hex() == "a448017aaf21d8525fc10ae87aa6729d"
assert md4(b"12345678901234567890123456789012345678901234567890123456789012345678901234567890").hex() == \
    "e33b4ddc9c38f2199c3e7b164fcc0536"
