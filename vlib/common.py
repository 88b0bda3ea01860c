"""What all checks share: running programs under monitors, reporting, evidence."""
import concurrent.futures, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile
import threading, time, traceback
from . import build, model

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:handle_segv=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "exitcode=66:second_deadlock_stack=1:halt_on_error=0:history_size=3",
}
SAN_RE = re.compile(r"(==\d+==\s*ERROR: \w+Sanitizer|WARNING: ThreadSanitizer|runtime error:|"
                    r"ThreadSanitizer:DEADLYSIGNAL|FATAL: ThreadSanitizer|"
                    r"terminate called|_GLIBCXX_ASSERT|free\(\): |malloc\(\): |double free)")


class Violation(Exception):
    pass


class Hang(Violation):
    """Nothing more is run after one: others would hang as well, and the time is limited."""


class Slow(Exception):
    """A run that was still using the processor when its watchdog fired: inconclusive by itself, the
    case is run again, alone and with a longer watchdog, before it counts as a hang."""


PATIENCE = threading.local()     # factor on the watchdogs of this thread


class Result:
    def __init__(self, cmd, rc, out, err, timeout, wall):
        self.cmd, self.rc, self.out, self.err, self.timeout, self.wall = cmd, rc, out, err, timeout, wall

    @property
    def errs(self):
        return self.err.decode("utf-8", "replace")

    @property
    def outs(self):
        return self.out.decode("utf-8", "replace")

    def brief(self, n=1500):
        e = self.errs
        if len(e) > 2 * n:
            m = SAN_RE.search(e)
            at = m.start() if m else 0
            e = e[at:at + n] + "\n...\n" + e[-n:]
        return f"$ {' '.join(map(str, self.cmd))}\nexit {self.rc}{' (timed out)' if self.timeout else ''}\n" \
               f"stdout[{len(self.out)}]: {self.outs[:300]!r}\nstderr: {e}"


def run(cmd, input=None, cwd=None, env=None, timeout=120, fsize=None, stdin=None, stdout=None, nofile=None,
        fkill=None, started=None, nopipe=False, noout=False,
        user=None):
    e = dict(os.environ)
    for k in list(e):
        if k.lower() in ("http_proxy", "https_proxy", "all_proxy", "no_proxy") or k.startswith("VERIF_"):
            del e[k]
    e.update(SAN_ENV)
    e["LC_ALL"] = "C.UTF-8"
    e.update(env or {})

    def pre():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if fkill is not None:   # the kernel kills it (SIGXFSZ) when it writes beyond this offset
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fkill, fkill))
        if nopipe:      # a broken pipe is an error instead of a signal
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if noout:       # no standard output at all
            os.close(1)
        if nofile is not None:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if user is not None:
            os.setgroups([])
            os.setgid(user)
            os.setuid(user)
    t = time.time()
    errf = None
    p = subprocess.Popen([c if isinstance(c, bytes) else str(c) for c in cmd], cwd=cwd, env=e, preexec_fn=pre, restore_signals=not nopipe,
                         stdin=stdin if stdin is not None else (subprocess.PIPE if input is not None else subprocess.DEVNULL),
                         stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE)
    # at first at most a minute; who needs more is run again, alone and with patience
    if getattr(PATIENCE, "factor", 1) != 1:
        timeout *= 2
        if not THOROUGH:
            timeout = min(timeout, 250)
    elif not THOROUGH:
        timeout = min(timeout, max(60, timeout / 3))
    if started:
        started(p)
    try:
        try:
            out, err = p.communicate(input, timeout=min(12, timeout))
        except subprocess.TimeoutExpired:
            if deadlocked(p.pid):
                p.kill()
                out, err = p.communicate()
                return Result(cmd, p.returncode, out or b"", err or b"", "deadlock", time.time() - t)
            if timeout <= 12:
                raise
            out, err = p.communicate(timeout=timeout - 12)
        to = False
    except subprocess.TimeoutExpired:
        # blocked for good, or merely slow?
        before = cpu_time(p.pid)
        time.sleep(5)
        to = "blocked" if cpu_time(p.pid) - before < 0.05 else "busy"
        p.kill()
        out, err = p.communicate()
    return Result(cmd, p.returncode, out or b"", err or b"", to, time.time() - t)


def deadlocked(pid):
    """every thread of the process waits for another one, with no time limit"""
    def look():
        seen = []
        for t in sorted(os.listdir(f"/proc/{pid}/task")):
            f = open(f"/proc/{pid}/task/{t}/syscall").read().split()
            if f[0] != "202" or int(f[4], 16) != 0:      # futex(address, operation, value, time limit = NULL)
                return None
            st = open(f"/proc/{pid}/task/{t}/status").read()
            seen.append((t, f, re.findall(r"ctxt_switches:\s*(\d+)", st)))
        return seen
    try:
        a = look()
        if not a:
            return False
        for _ in range(3):
            time.sleep(1)
            if look() != a:
                return False
        return os.uname().machine == "x86_64"
    except (OSError, ValueError, IndexError):
        return False


def cpu_time(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def sane(r, what=""):
    """The part of the oracle that holds for every run of every program: no sanitizer report, no
    death by signal, no hang."""
    if r.timeout:
        m = SAN_RE.search(r.errs)
        if r.timeout == "deadlock" and not m:
            raise Hang(f"{what}: deadlock: every thread waits for another, without a time limit\n{r.brief()}")
        if not m:
            if getattr(PATIENCE, "factor", 1) == 1:
                raise Slow(f"{what}: {r.brief()}")
            raise Hang(f"{what}: did not terminate within {r.wall:.0f} s ({r.timeout}), twice\n{r.brief()}")
    m = SAN_RE.search(r.errs)
    if m or (r.rc is not None and (r.rc < 0 or r.rc in (66, 98, 99))):
        raise Violation(f"{what}: {'sanitizer report or crash: ' + m.group(0) if m else 'died, status ' + str(r.rc)}\n{r.brief()}")
    return r


def expect(cond, msg, r=None):
    if not cond:
        raise Violation(msg + (("\n" + r.brief()) if r is not None else ""))


class Check:
    """Collects cases, runs them in parallel, reports and writes the evidence."""

    def __init__(self, prop, level, rule, assumptions=()):
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.sets = {}
        self.maxima = {}
        self.violations = []
        self.hung = False
        self.known = load_known(prop)
        self.known_hit = {}
        self.notes = []
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        st = os.statvfs(base) if base else None
        if base and st.f_bavail * st.f_frsize < 2 << 30:
            base = None
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
        self.n = 0

    def dir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.tmp, f"c{self.n}")
        os.mkdir(d)
        return d

    # -- what was observed --
    def ran(self, key, nontrivial=True, n=1):
        with self.lock:
            self.evaluations += n
            if nontrivial:
                self.distinct.add(hashlib.md5(repr(key).encode()).digest())

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, name, value):
        with self.lock:
            self.sets.setdefault(name, set()).add(value)

    def maximum(self, name, v):
        with self.lock:
            self.maxima[name] = max(v, self.maxima.get(name, v))

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    # -- deciding --
    def violation(self, sig, msg, files=(), data=None):
        """sig identifies the failing input, call site or history (for known findings)"""
        with self.lock:
            for k in self.known:
                if k["signature"] == sig:
                    self.known_hit[sig] = k
                    return
            i = len(self.violations)
            d = os.path.join(VERIF, "replay", f"{self.prop}-{SEED}-{i}")
            if i < 20:
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d, exist_ok=True)
                for f in files:
                    try:
                        if os.path.isfile(f) and os.path.getsize(f) < 64 << 20:
                            shutil.copy(f, d)
                    except OSError:
                        pass
                with open(os.path.join(d, "README.txt"), "w") as o:
                    o.write(f"property {self.prop}, seed {SEED}, tier {TIER}\ncase: {sig}\n\n{msg}\n\n"
                            f"Re-run: VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {self.prop} "
                            f"--only '{sig}'\n")
                if data is not None:
                    json.dump(data, open(os.path.join(d, "case.json"), "w"), indent=1, default=repr)
            self.violations.append((sig, msg, d))
        print(f"--- {self.prop} case {sig}: {msg[:3000]}", flush=True)

    def cases(self, fn, cases, jobs=None, deadline=None):
        """fn(case, dir) for each (sig, case), in parallel threads. A Violation raised by fn is a
        violation of the property. Cases left when the deadline passes are counted as skipped."""
        only = os.environ.get("VERIF_ONLY")
        cases = [(s, c) for s, c in cases if not only or s.startswith(only)]

        def one(sig, case):
            if len(self.violations) >= 5 or self.hung:
                return
            if time.time() - self.t0 > (deadline or scale(600, 1e9)):
                self.count("cases_not_started_before_deadline")
                return
            if len(slow) >= 3 and not getattr(PATIENCE, "factor", 1) != 1:
                self.count("cases_not_started_after_watchdogs_fired")
                return
            d = self.dir()
            try:
                fn(case, d)
            except Violation as v:
                self.hung |= isinstance(v, Hang)
                self.violation(sig, str(v), [os.path.join(d, f) for f in os.listdir(d)], case)
            except Slow as s:
                if getattr(PATIENCE, "factor", 1) == 1:
                    slow.append((sig, case))
                else:
                    self.hung = True
                    self.violation(sig, f"twice: {s}", [os.path.join(d, f) for f in os.listdir(d)], case)
            except Exception as x:
                # output of the program that is not there or not made of records
                if isinstance(x, model.Malformed) or isinstance(x, FileNotFoundError) and str(x.filename or "").startswith(d):
                    self.violation(sig, "".join(traceback.format_exception(x)[-3:]), [os.path.join(d, f) for f in os.listdir(d)], case)
                    return
                with self.lock:
                    broken.append((sig, traceback.format_exc()))
            finally:
                shutil.rmtree(d, ignore_errors=True)

        slow, broken = [], []
        with concurrent.futures.ThreadPoolExecutor(jobs or NCPU) as ex:
            for f in [ex.submit(one, s, c) for s, c in cases]:
                f.result()
        if slow:
            todo = slow[:3]
            PATIENCE.factor = 2
            for s, c in todo:
                print(f"note: {self.prop} case {s}: watchdog fired, once more alone", flush=True)
                self.count("watchdog_reruns")
                one(s, c)
            PATIENCE.factor = 1
        for sig, tb in broken[:3]:
            print(f"error in the check, case {sig}:\n{tb}", flush=True)
        if broken and not self.violations:
            raise RuntimeError("the check itself failed")

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples)
        for k, v in sorted(self.counters.items()):
            cov[k] = v
        for k, v in sorted(self.sets.items()):
            cov["distinct_" + k] = len(v)
        for k, v in sorted(self.maxima.items()):
            cov["max_" + k] = v
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for sig, k in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for sig, msg, d in self.violations[:5]:
            print(f"VIOLATION property={self.prop} replay={d}")
        print(f"{self.prop}: {self.evaluations} evaluations, {len(self.distinct)} distinct non-trivial, "
              f"{len(self.violations)} violations, {time.time() - self.t0:.1f} s")
        return 1 if self.violations else 0


def load_known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f)["known"] if k["property"] == prop]
    except OSError:
        return []


def rnd(*parts):
    return random.Random("/".join(map(str, (SEED,) + parts)))


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def rd(path):
    with open(path, "rb") as f:
        return f.read()


def wr(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def first_diff(a, b, rec=1):
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return f"lengths {len(a)} and {len(b)}, first difference at byte {i} (record {i // rec}): " \
           f"{a[max(0, i - 4):i + 28].hex()} / {b[max(0, i - 4):i + 28].hex()}"
