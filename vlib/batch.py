"""Client of harness/batch.cpp: the programs of the repository, many runs per process."""
import os, struct, subprocess, tempfile, queue, threading, select, time
from .common import SAN_ENV, Result, rd, Slow, Violation, SAN_RE, PATIENCE


class Driver:
    def __init__(self, exe, dir):
        self.exe, self.dir = exe, dir
        self.p = None
        self.runs = 0

    def _start(self):
        a, b = os.pipe()     # requests
        c, d = os.pipe()     # answers
        e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF_") and "proxy" not in k.lower()}
        e.update(SAN_ENV)
        e["LC_ALL"] = "C.UTF-8"

        self.p = subprocess.Popen([self.exe, self.dir, str(a), str(d)], env=e, cwd=self.dir, pass_fds=(a, d),
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    def run(self, args, input=b"", timeout=60):
        """args without the program name -> Result"""
        timeout *= getattr(PATIENCE, "factor", 1)
        if self.p is None or self.p.poll() is not None:
            self.close()
            self._start()
        args = ["prog"] + [a if isinstance(a, bytes) else str(a).encode() for a in args]
        args = [a if isinstance(a, bytes) else a.encode() for a in args]
        msg = struct.pack("<I", len(args)) + b"".join(struct.pack("<I", len(a)) + a for a in args) + \
            struct.pack("<I", len(input)) + input
        t = time.time()
        to = False
        try:
            pos = 0
            while pos < len(msg):
                pos += os.write(self.w, msg[pos:pos + 60000])
        except BrokenPipeError:
            pass
        if select.select([self.r], [], [], timeout)[0]:
            data = os.read(self.r, 4)
        else:
            data = b""
            to = "busy"
            self.p.kill()
        if len(data) == 4:
            rc = struct.unpack("<i", data)[0]
        else:
            rc = self.p.wait()
        self.runs += 1
        out = rd(os.path.join(self.dir, "out"))
        err = rd(os.path.join(self.dir, "err"))
        cmd = [os.path.basename(self.exe)] + [a.decode("utf-8", "backslashreplace") for a in args[1:]]
        r = Result(cmd, rc, out, err, to, time.time() - t)
        if rc is not None and rc != 0 and len(data) == 0 and not to:
            self.close()
        return r

    def close(self):
        if self.p is not None:
            for fd in (self.w, self.r):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p = None


class Pool:
    """one driver per thread"""
    def __init__(self, exe, tmp):
        self.exe, self.tmp = exe, tmp
        self.local = threading.local()
        self.all = []
        self.lock = threading.Lock()

    def run(self, args, input=b"", timeout=60):
        d = getattr(self.local, "d", None)
        if d is None:
            d = self.local.d = Driver(self.exe, tempfile.mkdtemp(dir=self.tmp))
            with self.lock:
                self.all.append(d)
        return d.run(args, input, timeout)

    def close(self):
        for d in self.all:
            d.close()
