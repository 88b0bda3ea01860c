"""Shared by the downloader checks: scenarios, runs under the adversarial API, the oracle."""
import json, os, subprocess
from vlib import mock, model
from vlib.common import *

FMT = ("sha1", "ntlm", "sha1t64")


class Scenario:
    """A fake API, its answers' shape and the client's options, all drawn from one seed."""

    def __init__(self, sig, fmt=None, n=None, sizes=None, txt=False, policy=None, par=None, **o):
        r = self.r = rnd("scenario", sig)
        self.sig = sig
        self.fmt = fmt or r.choice(FMT)
        self.txt = txt
        self.n = n or r.choice([1, 2, 3, 5, 16, 17, 40, 64, 100])
        self.par = par or r.choice([1, 2, 3, 4, 7, 16, 50, 299, 300, 301])
        self.policy = policy or r.choice(["asap", "fifo", "lifo", "random", "random", "firstlast"])
        sizes = sizes or r.choice([lambda r, p: r.randrange(1, 40), lambda r, p: r.choice([1, 1, 2, 60]),
                                   lambda r, p: r.choice([0, 1, 30]), lambda r, p: r.randrange(1, 6)])
        self.api = model.Api(f"{SEED}/{sig}", 0, self.n, sizes)
        if o.get("shuffle"):        # served in no order at all
            for mode in self.api.data.values():
                for recs in mode.values():
                    self.r.shuffle(recs)
        self.eol = o.get("eol", r.choice([b"\r\n", b"\r\n", b"\n"]))
        self.final = o.get("final", r.random() < .5)
        self.shape = o.get("shape", r.choice(["plain", "plain", "frag", "chunked", "close", "tiny", "mixed"]))
        self.progress = o.get("progress", r.choice([["--no-progress"], [], ["--progress"], ["--debug"]]))
        self.perturb = o.get("perturb", r.choice([None, (300, 200), (3000, 50), (50, 3000)]))
        self.batch = r.choice([1, 1, 2, 5, 1000])

    def desc(self):
        return dict(sig=self.sig, fmt=self.fmt, txt=self.txt, prefixes=self.n, parallel=self.par, policy=self.policy,
                    shape=self.shape, eol=self.eol.decode(), final_newline=self.final,
                    records=sum(len(x) for x in self.api.data["ntlm" if self.fmt == "ntlm" else "sha1"].values()))

    def ok(self, prefix, ntlm):
        b = self.api.body(int(prefix, 16), ntlm, self.eol, self.final)
        s = self.shape
        rr = rnd(self.sig, prefix)
        if s == "mixed":
            s = rr.choice(["plain", "frag", "chunked", "close", "tiny"])
        if s == "plain":
            return mock.Reply(body=b)
        if s == "frag":
            return mock.Reply(body=b, frag=[max(1, rr.choice([1, 7, 50, 333, len(b) // 2]))
                                            for _ in range(3)] if len(b) < 4000 else [len(b) // 3, 1, 16384],
                              chunked=rr.random() < .5)
        if s == "chunked":
            return mock.Reply(body=b, chunked=True)
        if s == "close":
            return mock.Reply(body=b, close=True)
        # every byte on its own (short bodies), so that lines are split everywhere
        return mock.Reply(body=b, frag=[1] if len(b) < 300 else [37, 1], chunked=True)

    def args(self, out, resume=False, limit=True):
        a = ["--testing", "--parallel-max", self.par] + self.progress
        if limit:
            a += ["--limit", self.n]
        if self.txt:
            a += ["--txt-out"]
        if resume:
            a += ["--resume"]
        return a + model.FLAG[self.fmt] + [out]

    def want(self):
        if self.txt:
            return self.api.txt(0, self.n, self.fmt == "ntlm")
        return self.api.db(0, self.n, self.fmt)

    def mock(self, respond=None, **o):
        o.setdefault("policy", self.policy)
        o.setdefault("want", min(self.par, self.n))
        o.setdefault("batch", self.batch)
        return mock.Mock(respond or (lambda p, ntlm, a: self.ok(p, ntlm)), seed=f"{SEED}{self.sig}", **o)

    def penv(self, d):
        e = {"VERIF_TRACE": os.path.join(d, "trace.json")}
        if self.perturb:
            e["VERIF_PERTURB"] = f"{self.r.randrange(1 << 30)}:{self.perturb[0]}:{self.perturb[1]}"
        return e


def trace(ck, d):
    """what the interleaving monitor in the process saw"""
    try:
        t = json.load(open(os.path.join(d, "trace.json")))
    except (OSError, ValueError):
        return
    ck.count("monitored_function_events", t["events"])
    ck.count("thread_switches_observed", t["switches"])
    ck.count("injected_delays", t["delays"])
    ck.seen("thread_interleavings", t["sig"])


def exact(got, want, what, rec=1):
    if got != want:
        raise Violation(f"{what}: {first_diff(got, want, rec)} (got / expected)")


def leading_part(got, want, rec, what):
    """got is a leading part of want in whole records (rec bytes, or 0: lines)"""
    if want[:len(got)] != got:
        raise Violation(f"{what}: the output is not a leading part of the correct database: "
                        + first_diff(got, want, rec or 1))
    if rec and len(got) % rec:
        raise Violation(f"{what}: {len(got)} bytes are not a whole number of records")
    if not rec and got and not got.endswith(b"\n"):
        raise Violation(f"{what}: ends within a line: {got[-60:]!r}")


FULLAPI = ("harness", "fullapi.cpp", "plain", {"alone": True})


def range_run(ck, exe, api, d, fmt, n, par, txt=False, opts=(), timeout=400, slow=False):
    """a download of the prefixes below n (None: no limit) from the quick API stand-in; slow: the client may be so slow
    that it gives up on answers"""
    seed, out, want = rnd("fullapi", fmt, n, par).randrange(1 << 60), os.path.join(d, "db"), os.path.join(d, "want")
    p = subprocess.Popen([api, "serve", str(seed)], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    try:
        port = int(p.stdout.readline())
        e = {"http_proxy": f"http://127.0.0.1:{port}", "no_proxy": "", "NO_PROXY": ""}
        q = run([exe, "--testing", "--parallel-max", par] + (["--limit", n] if n else []) + list(opts) + (["--txt-out"] if txt else [])
                + model.FLAG[fmt] + [out], env=e, timeout=timeout)
        p.stdin.close()
        stat = {k: int(v) for k, v in re.findall(r"(\w+)=(\d+)", p.stdout.read().decode())}
    finally:
        p.kill()
        p.wait()
    what = f"{fmt}{' text' if txt else ''}, prefixes below {n or 1 << 20:X}, {par} at once"
    sane(q, what)
    expect(q.rc == 0, f"{what}: failed although every request was answered", q)
    subprocess.run([api, "expect", str(seed), ("txt-" if txt else "") + fmt, "0", str(n or 1 << 20), want], check=True)
    if subprocess.run(["cmp", "-s", out, want]).returncode:
        a, b = rd(out), rd(want)
        raise Violation(f"{what}: {first_diff(a, b, 1 if txt else model.REC[fmt])} (got / expected)")
    N = n or 1 << 20
    expect(stat["other"] == 0 and stat["ntlm" if fmt == "ntlm" else "plain"] == stat["requests"], f"{what}: wrong requests: {stat}", q)
    if not slow:
        expect(stat["requests"] == stat["once"] == N, f"{what}: not one request for each prefix: {stat}", q)
        expect(stat["most"] <= par, f"{what}: {stat['most']} requests outstanding", q)
    ck.ran((what, seed))
    ck.count("range_requests_answered", stat["requests"])
    ck.count("range_answers_out_of_order", stat["outoforder"])
    ck.maximum("prefixes_in_one_download", N)
