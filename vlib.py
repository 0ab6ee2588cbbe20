"""Build, run and replay machinery shared by all checks (see DESIGN.md)."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
IRSYM = os.path.join(BUILD, "engine", "irsym")
NPROC = int(os.environ.get("VP_JOBS", "8"))
CLANG, CLANGXX = "clang", "clang++"


def sh(cmd, timeout=None, env=None, cwd=None):
    """Run a command in its own process group; kill the group on timeout. Returns (rc, stdout, stderr)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("latin1"), e.decode("latin1")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -999, o.decode("latin1"), e.decode("latin1")


def build_engine():
    src = os.path.join(VERIF, "engine")
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, e = sh(["make", "-s", "-j%d" % NPROC, "-C", src], timeout=1500)
    if rc or not os.path.exists(IRSYM):
        print(o + e)
        print("ERROR: cannot build the symbolic executor")
        sys.exit(3)


def repo_sources():
    """The library's sources, as its own build lists them."""
    out = []
    try:
        txt = open(os.path.join(REPO, "cmake/targets/libpgfe.cmake")).read()
        txt = re.sub(r"#.*", "", txt)
        for m in re.findall(r"\$\{src_dir\}/([\w./+-]+\.(?:cpp|cc|c))\b", txt):
            p = os.path.join(REPO, "src", m)
            if os.path.exists(p) and p not in out:
                out.append(p)
    except OSError:
        pass
    if len(out) < 5:
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".c", ".cpp", ".cc"))]
    return out


INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "ref")]
BASEFLAGS = ["-DNDEBUG", "-w", "-DVP_REPO=1"]


def lang(src):
    cpp = src.endswith((".cpp", ".cc"))
    return (CLANGXX, ["-std=gnu++14"]) if cpp else (CLANG, ["-std=gnu11", "-include", "stdarg.h"])


class BuildError(Exception):
    pass


def compile_many(items, timeout=300):
    """items: list of command lists; run in parallel, raise on failure."""
    def one(c):
        rc, o, e = sh(c, timeout=timeout)
        if rc:
            raise BuildError(" ".join(c) + "\n" + e[:4000])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, items))


def build_bitcode(work, harness, defines=()):
    """Compile the repository's current sources, the harness, the references and the runtime to one bitcode module."""
    cmds, bcs = [], []
    flags = ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-emit-llvm", "-c", "-fno-builtin", "-U_FORTIFY_SOURCE"]
    for s in repo_sources() + harness + [os.path.join(VERIF, "ref/ref.c")]:
        cc, lf = lang(s)
        bc = os.path.join(work, hashlib.sha1(s.encode()).hexdigest()[:16] + ".bc")
        bcs.append(bc)
        if cc == CLANGXX:
            lf = lf + ["-include", os.path.join(VERIF, "rt/instantiate.h")]
        cmds.append([cc] + lf + flags + BASEFLAGS + INC + list(defines) + [s, "-o", bc])
    rt = os.path.join(work, "vprt.bc")
    bcs.append(rt)
    cmds.append([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-w", "-ffreestanding", "-fno-builtin", os.path.join(VERIF, "rt/vprt.c"), "-o", rt])
    compile_many(cmds)
    linked = os.path.join(work, "all.bc")
    link, opt = "llvm-link-18", "opt-18"
    if not shutil.which(link):
        link, opt = "/usr/lib/llvm-18/bin/llvm-link", "/usr/lib/llvm-18/bin/opt"
    for c in ([link] + bcs + ["-o", linked], [opt, "-passes=mem2reg", linked, "-o", linked + ".opt"]):
        rc, o, e = sh(c, timeout=300)
        if rc:
            raise BuildError(e[:4000])
    return linked + ".opt"


NATIVE = {
    "asan": (["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1"], ["-fsanitize=address"]),
    "o2": (["-O2", "-g"], []),
    "o0": (["-O0", "-g"], []),
    "tsan": (["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"]),
}


class Native:
    """Native builds of repository + harness, made on demand."""

    def __init__(self, work, harness, defines=()):
        self.work, self.harness, self.defines, self.exe = work, harness, defines, {}

    def build(self, kind):
        if kind in self.exe:
            return self.exe[kind]
        cf_, lf = NATIVE[kind]
        cmds, objs = [], []
        for s in repo_sources() + self.harness + [os.path.join(VERIF, "ref/ref.c"), os.path.join(VERIF, "rt/native.c")]:
            cc, l = lang(s)
            o = os.path.join(self.work, kind + "_" + hashlib.sha1(s.encode()).hexdigest()[:16] + ".o")
            objs.append(o)
            own = kind == "tsan" and s.endswith("rt/native.c") # the scheduler itself is not under test
            cmds.append([cc] + l + (["-O1", "-g"] if own else cf_) + BASEFLAGS + INC + list(self.defines) + ["-fPIC", "-c", s, "-o", o])
        compile_many(cmds)
        exe = os.path.join(self.work, "native_" + kind)
        wraps = set(re.findall(r"\b__wrap_(\w+)\s*\(", open(os.path.join(VERIF, "rt/native.c")).read()))
        for h in self.harness: # functions a harness stands in for, as with the linker's --wrap under the executor too
            wraps.update(re.findall(r"\b__wrap_(\w+)\s*\(", open(h).read()))
        lf = lf + ["-Wl,--wrap=" + w for w in sorted(wraps)]
        rc, o, e = sh([CLANGXX] + lf + objs + ["-rdynamic", "-ldl", "-lpthread", "-lm", "-o", exe], timeout=300)
        if rc:
            raise BuildError(e[:4000])
        self.exe[kind] = exe
        return exe

    def run(self, kind, replay, timeout=60, valgrind=False):
        exe = self.build(kind)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1", TSAN_OPTIONS="exitcode=98:halt_on_error=1:report_signal_unsafe=0", TMPDIR=self.work)
        cmd = ["setarch", "-R", exe, replay] if False else [exe, replay]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=43", "--exit-on-first-error=yes", "--track-origins=no"] + cmd
        return sh(cmd, timeout=timeout, env=env, cwd=self.work)


def write_replay(path, entry, args, inputs, poison="a5"):
    with open(path, "w") as f:
        f.write("entry %s\n" % entry)
        for a in args:
            f.write("arg %d\n" % a)
        f.write("poison %s\n" % poison)
        for n, h in inputs:
            f.write("in %s %s\n" % (n, h))


def rewrite_poison(path, poison, out):
    s = open(path).read()
    open(out, "w").write(re.sub(r"^poison .*$", "poison " + poison, s, flags=re.M))


BAD = {98: "data race (ThreadSanitizer)", 42: "assertion failed", 43: "uninitialised data used", 99: "memory error (AddressSanitizer)", 134: "aborted", -6: "aborted", -11: "segmentation fault", 139: "segmentation fault", -4: "illegal instruction", -8: "arithmetic exception", -999: "did not terminate"}


def describe(rc, o, e):
    if rc == 42:
        m = re.search(r"ASSERTION FAILED: (.*)", o)
        return "assertion failed: " + (m.group(1) if m else "")
    if rc == 99:
        m = re.search(r"ERROR: AddressSanitizer: (.*)", e)
        return "AddressSanitizer: " + (m.group(1)[:160] if m else "")
    if rc == 98:
        m = re.search(r"WARNING: ThreadSanitizer: (.*?)( \(pid.*)?$", e, flags=re.M)
        return "ThreadSanitizer: " + (m.group(1) if m else "")
    if rc == 43:
        m = re.search(r"(UNINITIALISED.*)", o) or re.search(r"==\d+== (.*)", e)
        return "uninitialised data: " + (m.group(1) if m else "")
    return BAD.get(rc, "exit %d" % rc)


def reproduce(native, replay, kind="", timeout=60):
    """Replay a counterexample on the real code. Returns a description, or None when it does not reproduce."""
    notes = []
    order = ["asan", "o2", "o0"]
    if re.search(r"^in switch ", open(replay).read(), flags=re.M):
        order.insert(0, "tsan")
    for k in order:
        for poison in ("a5", "00", "ff"):
            p = replay + ".tmp"
            rewrite_poison(replay, poison, p)
            rc, o, e = native.run(k, p, timeout=timeout)
            os.unlink(p)
            if rc in BAD:
                rewrite_poison(replay, poison, replay)
                return "%s build, memory pattern %s: %s" % (k, poison, describe(rc, o, e))
            notes.append((k, poison, rc))
            if k == "asan" and poison == "a5" and rc == 77:
                break
    rc, o, e = native.run("o0", replay, timeout=max(timeout, 120), valgrind=True)
    if rc in BAD and rc != -999:
        return "valgrind: " + describe(rc, o, e)
    return None


def run_jobs(module, jobs, work, tier, seed, total, wall, extra=(), repo_prefix=None):
    """Distribute jobs [(entry, args)] over processes; jobs with the largest cost first. Returns result dicts."""
    results = []
    procs = []
    pending = list(enumerate(jobs))
    t0 = time.time()
    deadline = t0 + total
    running = {}
    idx = 0
    while pending or running:
        while pending and len(running) < NPROC:
            i, (entry, args) = pending.pop(0)
            left = deadline - time.time()
            if left < 1:
                results.append(dict(entry=entry, args=list(args), incomplete="time limit of the whole run", missing=True))
                continue
            jf, of = os.path.join(work, "job%d.txt" % i), os.path.join(work, "out%d.json" % i)
            with open(jf, "w") as f:
                f.write(entry + "".join(" %d" % a for a in args) + "\n")
            cmd = [IRSYM, module, jf, of, "--repo", repo_prefix or REPO, "--wall", "%.1f" % min(wall, left), "--total", "%.1f" % left, "--seed", str(seed)] + list(extra)
            p = subprocess.Popen(cmd, stdout=open(os.path.join(work, "so%d" % i), "wb"), stderr=subprocess.STDOUT, start_new_session=True)
            running[p] = (i, entry, args, of, time.time())
        done = [p for p in running if p.poll() is not None]
        for p in list(running):
            if p not in done and (time.time() - running[p][4] > min(wall, total) + 60 or time.time() > deadline + 30):
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                done.append(p)
        for p in done:
            i, entry, args, of, ts = running.pop(p)
            r = None
            try:
                for line in open(of):
                    r = json.loads(line)
            except (OSError, ValueError):
                pass
            if r is None:
                so = open(os.path.join(work, "so%d" % i), "rb").read().decode("latin1")[-600:]
                r = dict(entry=entry, args=list(args), incomplete="executor ended with status %s: %s" % (p.returncode, so), missing=True)
            r["elapsed"] = time.time() - ts
            results.append(r)
            if r.get("violations") and deadline > time.time() + 60: # enough is known soon
                deadline = time.time() + 60
        if not done:
            time.sleep(0.02)
    return results
