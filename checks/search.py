"""Shared by the search checks."""
import os, re
from vlib import batch, model
from vlib.common import *


def pw(r):
    k = r.randrange(6)
    if k == 0:
        return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(r.randrange(1, 12)))
    if k == 1:
        return "".join(chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0xa0, 0x800), r.randrange(0x800, 0xd800),
                                     r.randrange(0xe000, 0xfffe), r.randrange(0x10000, 0x110000)]))
                       for _ in range(r.randrange(1, 20))).encode()
    if k == 2:
        return b"x" * r.choice([1, 26, 27, 28, 29, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128, 1000])
    if k == 3:
        return bytes(r.randrange(0x20, 0x7f) for _ in range(r.randrange(1, 40)))
    if k == 4:
        return r.choice([b"password", b"123456", b"correct horse", b"a b", b"%41", b"100%", b"q\"'", b"tab\there",
                         b"0", b"null", b"ntlm", b"/etc", b"A" * 40, b"0123456789ABCDEF" * 2])
    return r.randbytes(4).hex().encode()


def database(r, fmt, n, spread, pws=()):
    size = model.HASH[fmt]
    if spread == "edges":
        hs = {bytes(size), b"\xff" * size, b"\x7f" + b"\xff" * (size - 1), b"\x80" + bytes(size - 1),
              bytes(size - 1) + b"\1", b"\xff" * (size - 1) + b"\xfe"}
        hs = set(sorted(hs)[:n]) if n < 6 else hs
        while len(hs) < n:
            h = bytearray(r.randbytes(size))
            k = r.randrange(size)
            h[k:] = r.choice([b"\0", b"\xff", b"\x80", b"\x7f"]) * (size - k)
            hs.add(bytes(h))
        recs = [(h, model.rnd_count(r, True)) for h in sorted(hs)]
    else:
        recs = model.rnd_recs(r, n, fmt, True, spread)
    have = dict(recs)
    for p in pws:                      # some of the passwords are in it
        if len(have) and len(have) == n:
            k = r.choice(sorted(have)) if n < 50 else next(iter(have))
            c = have.pop(k)
        have[model.pw_hash(p, fmt)] = model.rnd_count(r, True)
    return sorted(have.items())


def needles(r, fmt, recs, k):
    size = model.HASH[fmt]
    top = 1 << (8 * size)
    hs = [h for h, _ in recs]
    pick = hs if len(hs) <= k // 2 else hs[:5] + hs[-5:] + r.sample(hs, k // 2)
    b = 4096 // model.REC[fmt]
    pick = pick + [hs[i] for m in range(b, len(hs), b) for i in (m - 1, m) if i < len(hs)][:k // 8]
    out = set(pick) | {bytes(size), b"\xff" * size}
    for h in r.sample(pick, min(len(pick), k // 6)) if pick else []:
        v = int.from_bytes(h, "big")
        out.add(((v + 1) % top).to_bytes(size, "big"))
        out.add(((v - 1) % top).to_bytes(size, "big"))
        x = bytearray(h)
        x[r.randrange(size)] ^= 1 << r.randrange(8)
        out.add(bytes(x))
    for i in range(min(len(hs) - 1, k // 10)):
        j = r.randrange(len(hs) - 1)
        v = (int.from_bytes(hs[j], "big") + int.from_bytes(hs[j + 1], "big")) // 2
        out.add(v.to_bytes(size, "big"))
    for i in range(k // 10):
        out.add(r.randbytes(size))
    out = sorted(out)
    r.shuffle(out)
    return out


def bad_hashes(r, fmt, recs):
    n = 2 * model.HASH[fmt]
    h = recs[0][0].hex().upper() if recs else r.randbytes(n // 2).hex().upper()
    k = r.randrange(n)
    bad = [h[:-1], h + "0", h[:k] + r.choice("GgZz /@`:[-+.xé") + h[k + 1:], h + ":1", " " + h[1:], h[:-1] + " ", "", h[:5],
           h.lower() if h.lower() != h else "a" * n, h[:-1] + "a", "a" + h[1:], h + h, h[:-2] + "0x", "\n" + h[1:], h + "\n",
           h + " ", "0x" + h, "0x" + h[2:]]
    bad += ["0" * m for m in (16, 32, 40) if m != n]
    return bad


def answer(q, fmt):
    """-> count, or None: not found"""
    m = re.findall(rb"^\s*found\s*[=:]\s*([0-9A-Fa-f]+):(-?\d+)\s*$", q.out, re.M)
    no = re.findall(rb"^\s*not found\s*$", q.out, re.M)
    expect(len(m) + len(no) == 1, "no clear answer", q)
    return (bytes.fromhex(m[0][0].decode()), int(m[0][1])) if m else None


def judge(q, fmt, h, known, ck, what=None):
    what = f"{fmt} needle {what if what is not None else h.hex().upper()} in {len(known)} records"
    sane(q, what)
    expect(q.rc == 0, f"{what}: exit {q.rc}", q)
    a = answer(q, fmt)
    if h in known:
        expect(a is not None, f"{what}: reported as absent, but it is there with count {known[h]}", q)
        expect(a == (h, known[h]), f"{what}: reported {a[0].hex().upper()}:{a[1]} instead of count {known[h]}", q)
        ck.count("needles_present")
    else:
        expect(a is None, f"{what}: reported as found with {a}, but it is absent", q)
        ck.count("needles_absent")
    ck.ran((fmt, h, len(known)), nontrivial=bool(known))
