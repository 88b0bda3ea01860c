"""Shared by the checks of the programs that turn files into files."""
import os, re, stat
from vlib import batch, model
from vlib.common import *

NAMES = ["db", "db.bin", "a b", "x{}y", "ünï", "q'u\"o", "p%sd", "d,e=f", "-", "a.b.c.", "UPPER.Bin", "tab\tname", "$HOME", "~", "b\\s"]
PLAIN = ["db", "db.bin", "old.db", "x_1"]


def counts(r, kind):
    """-> function giving counts"""
    if kind == "ties":
        a = [r.randrange(-3, 60) for _ in range(r.choice([1, 2, 3, 8]))]
        return lambda: r.choice(a)
    if kind == "extreme":
        a = [0, 1, -1, 2**31 - 1, -2**31, 2**31 - 2, -2**31 + 1, 255, 256, 65535, 65536, 2**24, 2**24 - 1]
        return lambda: r.choice(a)
    return lambda: model.rnd_count(r, True)


def hashes(r, size, n, kind="mix"):
    """n distinct hashes, in no order"""
    out = set()
    base = r.randbytes(size)
    few = [r.randbytes(size) for _ in range(5)]
    kind = r.choice(["uniform", "late", "early", "edges"]) if kind == "mix" else kind
    if n > 3000:
        k = dict(uniform=size, late=5, early=4, edges=size)[kind]       # the bytes that differ
        b = r.randbytes(n * k)
        if kind == "edges":
            b = b.translate(bytes((i & 0x80) | (i & 0x7f if i & 1 else 0) for i in range(256)))
        pre, post = (base[:size - k], b"") if kind == "late" else (b"", base[k:])
        out = {pre + b[i:i + k] + post for i in range(0, n * k, k)}
    while len(out) < n:
        if kind == "uniform":
            h = r.randbytes(size)
        elif kind == "late":        # agree in a long prefix
            k = r.randrange(max(1, size - 4), size) if n < 200 else size - 4
            h = r.choice(few)[:k] + r.randbytes(size - k)
        elif kind == "early":       # agree in a long suffix
            k = 3 if n < 3000 else 4
            h = r.randbytes(k) + base[k:]
        else:                       # bytes around the sign bit, one differing byte
            h = bytearray(base)
            for _ in range(1 + (n > 50) * 3):
                h[r.randrange(size)] = r.choice([0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff])
            h = bytes(h)
        out.add(h)
    out = list(out)
    out.sort()
    r.shuffle(out)
    return out


def records(r, fmt, n, kind="any", hkind="mix", order="sorted"):
    hs = hashes(r, model.HASH[fmt], n, hkind)
    c = counts(r, kind)
    if order == "sorted":
        hs.sort()
    elif order == "reversed":
        hs.sort(reverse=True)
    return [(h, c()) for h in hs]


def failed_cleanly(q, what):
    """refused: a non-zero exit and a message"""
    sane(q, what)
    expect(q.rc not in (0, None), f"{what}: exit {q.rc}, expected a failure", q)
    expect(len(q.err.strip()) + len(q.out.strip()) > 0, f"{what}: exit {q.rc} without any message", q)


def snapshot(d):
    """everything below d: path -> (content, identity)"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files + dirs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (rd(p) if stat.S_ISREG(st.st_mode) else None, st.st_mode, st.st_ino, st.st_mtime_ns)
    return out


def unchanged(before, d, what, q=None, new=()):
    """nothing below d differs from the snapshot, except the files named in new"""
    after = snapshot(d)
    for p in sorted(set(before) | set(after)):
        if p in new:
            continue
        b, a = before.get(p), after.get(p)
        expect(b is not None, f"{what}: a new file {p!r} ({len(a[0] or b'')} bytes)" if a else "", q)
        expect(a is not None, f"{what}: {p!r} is gone", q)
        expect(a[0] == b[0], f"{what}: {p!r} changed: {first_diff(a[0] or b'', b[0] or b'')}", q)
        expect(a[1:3] == b[1:3], f"{what}: {p!r} was replaced", q)
        expect(a[3] == b[3], f"{what}: {p!r} was written to", q)
