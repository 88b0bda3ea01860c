"""Builds the code under test from /repo's working tree, out of tree, with the sanitizers of a
flavour. Objects are cached by the hash of their preprocessed source, so that a check compiles only
what really changed since setup; nothing is written in /repo."""
import concurrent.futures, fcntl, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")

ASIO = ["-DASIO_STANDALONE", "-DASIO_HAS_STD_CHRONO", "-DASIO_DISABLE_STD_STRING_VIEW"]
FLAVOURS = {
    # as users run it
    "plain": dict(cxx="g++", cc="gcc", flags=["-O2", "-g0", "-DNDEBUG"]),
    # NDEBUG as in release builds: what an assert would catch must not matter
    "asan": dict(cxx="g++", cc="gcc", flags=[
        "-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer"]),
    "clang": dict(cxx="clang++", cc="clang", flags=[
        "-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer"]),
    "fuzz": dict(cxx="clang++", cc="clang", flags=[
        "-O1", "-g1", "-DNDEBUG", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer"]),
    "tsan": dict(cxx="g++", cc="gcc", flags=[
        "-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-Wno-tsan", "-DASIO_DISABLE_FENCED_BLOCK"]),
}
INSTR = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/"]
LIBS = ["-Wl,--as-needed", "-lfmt", "-lcurl", "-levent", "-lhttp_parser", "-lcrypto", "-lpthread"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_headers = None


def _headers_digest():
    global _headers
    if _headers is None:
        h = []
        for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "app"), H):
            for d, dirs, files in sorted(os.walk(root)):
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".inl", ".ipp", ".tpp", ".inc")):
                        p = os.path.join(d, f)
                        h.append(p + ":" + hashlib.sha256(open(p, "rb").read()).hexdigest())
        _headers = _sha(*h)
    return _headers


_ccver = {}


def _compiler_id(cc):
    if cc not in _ccver:
        _ccver[cc] = subprocess.run([cc, "--version"], capture_output=True).stdout
    return _ccver[cc]


def _atomic(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os.rename(tmp, path)


def compile_one(src, flavour, extra=()):
    """-> path of the object file"""
    fl = FLAVOURS[flavour]
    is_c = src.endswith(".c")
    cc = fl["cc"] if is_c else fl["cxx"]
    args = [cc] + ([] if is_c else ["-std=c++20"]) + fl["flags"] + ["-w", "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(H, "sha1"), "-I" + H, "-DCLI11_COMPILE"] + ASIO + list(extra)
    text = open(src, "rb").read()
    key1 = _sha(_compiler_id(cc), " ".join(args), src, text, _headers_digest())
    map1 = os.path.join(BUILD, "map", key1)
    try:
        obj = os.path.join(BUILD, "obj", open(map1).read() + ".o")
        if os.path.exists(obj):
            return obj
    except OSError:
        pass
    # -P: without line markers, so comments and blank lines make no difference
    pp = subprocess.run(args + ["-E", "-P", src], capture_output=True)
    if pp.returncode != 0:
        raise BuildError(f"preprocessing {src} ({flavour}):\n" + pp.stderr.decode(errors="replace")[-4000:])
    key2 = _sha(_compiler_id(cc), " ".join(args), pp.stdout)
    obj = os.path.join(BUILD, "obj", key2 + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(obj), suffix=".o")
        os.close(fd)
        r = subprocess.run(args + ["-c", src, "-o", tmp], capture_output=True)
        if r.returncode != 0:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise BuildError(f"compiling {src} ({flavour}):\n" + r.stderr.decode(errors="replace")[-4000:])
        os.rename(tmp, obj)
    _atomic(map1, key2.encode())
    return obj


def _sources(*dirs, recurse=True, skip=()):
    out = []
    for d in dirs:
        for r, sub, files in os.walk(d):
            if not recurse:
                sub[:] = []
            sub[:] = [s for s in sorted(sub) if os.path.join(r, s) not in skip]
            out += [os.path.join(r, f) for f in sorted(files) if f.endswith((".cpp", ".cc", ".cxx", ".c"))]
    return out


def core_sources():
    s = os.path.join(REPO, "src")
    return _sources(s, skip=(os.path.join(s, "dnl"), os.path.join(s, "srv")))


def dnl_sources():
    return _sources(os.path.join(REPO, "src", "dnl"))


def srv_sources():
    return _sources(os.path.join(REPO, "src", "srv"))


def _link(objs, flavour, extra=()):
    fl = FLAVOURS[flavour]
    args = [fl["cxx"]] + fl["flags"] + list(extra)
    key = _sha(_compiler_id(fl["cxx"]), " ".join(args), *[os.path.basename(o) for o in objs])
    exe = os.path.join(BUILD, "bin", key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(exe))
        os.close(fd)
        r = subprocess.run(args + objs + LIBS + ["-o", tmp], capture_output=True)
        if r.returncode != 0:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise BuildError(f"linking ({flavour}):\n" + r.stderr.decode(errors="replace")[-4000:])
        os.chmod(tmp, 0o755)
        os.rename(tmp, exe)
    return exe


def build(specs):
    """specs: {name: (kind, what, flavour, options)} with kind 'app' (what: convert, download, ...),
    'batch' (the same, many runs in one process) or 'harness' (what: file in harness/). Returns {name: executable}. Options: instr (compile the
    repository with the perturbation hooks), flags (extra compiler flags), optional (a harness that
    does not compile any more is left out instead of being an error), alone (do not link /repo/src)."""
    jobs = {}   # (src, flavour, extra) -> None
    plan = {}
    for name, (kind, what, flavour, *o) in specs.items():
        o = o[0] if o else {}
        extra = tuple(o.get("flags", ()))
        iextra = extra + (tuple(INSTR) if o.get("instr") else ())
        srcs = []
        if kind == "app":
            srcs.append((os.path.join(REPO, "app", f"hibp_{what}.cpp"), flavour, iextra))
            srcs.append((os.path.join(H, "cli11.cpp"), "plain", ()))
            srcs.append((os.path.join(H, "sha1", "sha1.cpp"), "plain", ()))
        elif kind == "batch":   # the program as a function, called many times by the batch driver
            srcs.append((os.path.join(REPO, "app", f"hibp_{what}.cpp"), flavour,
                         iextra + ("-Dmain=hibp_app_main",)))
            srcs.append((os.path.join(H, "batch.cpp"), "plain", ()))
            srcs.append((os.path.join(H, "cli11.cpp"), "plain", ()))
            srcs.append((os.path.join(H, "sha1", "sha1.cpp"), "plain", ()))
        elif kind == "shlib":   # to be preloaded
            srcs.append((os.path.join(H, what), flavour, ("-fPIC",)))
            o = dict(o, alone=True)
            extra = ("-shared", "-ldl")
        else:
            srcs.append((os.path.join(H, what), flavour, extra))
        if o.get("instr"):
            srcs.append((os.path.join(H, "perturb.cpp"), "plain", ()))
        if not o.get("alone"):
            lib = list(core_sources())
            if what == "download" or o.get("dnl"):
                lib += dnl_sources()
            if what == "server":
                lib += srv_sources()
            srcs += [(s, flavour, iextra) for s in lib]
        # what is not instrumented comes last, so that its copies of inline functions are not chosen
        srcs.sort(key=lambda s: s[1] != flavour)
        plan[name] = (srcs, flavour, o, extra)
        for s in srcs:
            jobs[s] = None
    out = {}
    errors = {}
    _headers_digest()
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        # the long ones first
        order = sorted(jobs, key=lambda s: (0 if "srv/" in s[0] else 1 if "/app/" in s[0] else 2, s[0]))
        futs = {s: ex.submit(compile_one, *s) for s in order}
        for s, f in futs.items():
            try:
                jobs[s] = f.result()
            except BuildError as e:
                errors[s] = e

        def do_link(name):
            srcs, flavour, o, extra = plan[name]
            for s in srcs:
                if s in errors:
                    raise errors[s]
            return _link([jobs[s] for s in srcs], flavour, extra)
        futs = {n: ex.submit(do_link, n) for n in plan}
        for n, f in futs.items():
            try:
                out[n] = f.result()
            except BuildError as e:
                if plan[n][2].get("optional"):
                    print(f"note: {n} left out: {str(e)[:600]}", file=sys.stderr)
                else:
                    raise
    return out
