"""Building the harness from /repo, running scenarios on every build variant, running TLC."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# name -> (features, release)
VARIANTS = {
    "std": ("std", True),
    "std-debug": ("std", False),
    "simd": ("simd", True),
    "simd-debug": ("simd", False),
    "nostd": ("", True),
    "nostd-debug": ("", False),
}
# 32 bit builds (wasm32, run by node), with and without overflow checks
WASM = {"w32": True, "w32-debug": False}
# the only build with unsafe code, under the address sanitizer
ASAN = {"simd-asan": ("simd", True)}
# a big endian 64 bit machine, interpreted (slow; thorough tier only)
MIRI = {"be": "s390x-unknown-linux-gnu"}
EXTRA = tuple(WASM) + tuple(ASAN) + tuple(MIRI)
DEFAULT = ("std", "std-debug", "simd", "nostd")


class ToolError(Exception):
    pass


def tree_hash():
    """Content of everything the build depends on: stale builds are impossible."""
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            if "target" in ds:
                ds.remove("target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("Cargo.toml", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def build(variants):
    th = tree_hash()
    base = os.path.join(BUILD, "tree-" + th)
    # keep the disk small: drop builds of other trees
    if os.path.isdir(BUILD):
        olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("tree-")), key=os.path.getmtime)
        for d in olds[:-3]:
            if d != base:
                shutil.rmtree(d, ignore_errors=True)
    os.makedirs(base, exist_ok=True)
    groups = {}
    for v in variants:
        if v in EXTRA:
            continue
        feat, rel = VARIANTS[v]
        groups.setdefault(feat, []).append((v, rel))
    bins, errs = {}, []

    def work(feat, lst):
        tdir = os.path.join(base, "f-" + (feat or "none"))
        for v, rel in lst:
            cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if rel else [])
            if feat:
                cmd += ["--features", feat]
            env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_TERM_COLOR="never")
            env.pop("RUSTFLAGS", None)
            r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                errs.append(f"build of {v} failed:\n{r.stdout[-3000:]}")
                return
            bins[v] = os.path.join(tdir, "release" if rel else "debug", "jeharness")

    def wasm(vs):
        """std is built from the toolchain's sources; kept apart from the tree, which is always rebuilt"""
        try:
            root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
            vendor = root + "/lib/rustlib/src/rust/library/vendor"
            tdir = os.path.join(BUILD, "wasm")
            os.makedirs(tdir, exist_ok=True)
            flags = "-Cpanic=unwind " + " ".join("-Clink-arg=--export=je_" + x for x in ("run", "alloc", "free"))
            env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_TERM_COLOR="never", CARGO_TARGET_WASM32_UNKNOWN_UNKNOWN_RUSTFLAGS=flags)
            env.pop("RUSTFLAGS", None)
            with open(os.path.join(tdir, ".lock-verif"), "w") as lock:
                fcntl.flock(lock, fcntl.LOCK_EX)
                for v in vs:
                    out = os.path.join(base, v + ".wasm")
                    if not os.path.exists(out):
                        rel = ["--release"] if WASM[v] else []
                        tgt = ["--target", "wasm32-unknown-unknown"]
                        h = os.path.join(ROOT, "harness")
                        subprocess.run(["cargo", "+nightly", "clean", "--offline", "--quiet", "-p", "jpeg-encoder", "-p", "jeharness"] + rel + tgt, cwd=h, env=env,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--features", "std", "-Zbuild-std=std,panic_unwind",
                                            "--config", 'source.crates-io.replace-with="v"', "--config", f"source.v.directory='{vendor}'"] + rel + tgt,
                                           cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                        if r.returncode != 0:
                            raise OSError(r.stdout[-1000:])
                        shutil.copy(os.path.join(tdir, "wasm32-unknown-unknown", "release" if WASM[v] else "debug", "jeharness.wasm"), out + ".tmp")
                        os.replace(out + ".tmp", out)
                    bins[v] = ["node", os.path.join(ROOT, "harness", "wasm.js"), out]
        except OSError as e:
            print(f"32 bit build not available: {e}", flush=True)

    def asan(vs):
        for v in vs:
            feat, rel = ASAN[v]
            tdir = os.path.join(base, "asan-" + feat)
            env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_TERM_COLOR="never", RUSTFLAGS="-Zsanitizer=address")
            r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--features", feat, "--target", "x86_64-unknown-linux-gnu"] + (["--release"] if rel else []),
                               cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(f"sanitizer build not available: {r.stdout[-500:]}", flush=True)
                continue
            bins[v] = [os.path.join(tdir, "x86_64-unknown-linux-gnu", "release" if rel else "debug", "jeharness")]

    def miri(vs):
        for v in vs:
            run = ["env", "MIRIFLAGS=-Zmiri-disable-isolation", "CARGO_TARGET_DIR=" + os.path.join(base, "miri"), "cargo", "+nightly", "miri", "run", "--quiet", "--offline",
                   "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml"), "--features", "std", "--target", MIRI[v], "--"]
            try:
                r = subprocess.run(run + [os.path.join(base, "miri-scratch")], input="", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                r = None
            if r is None or r.returncode != 0:
                print(f"big endian build not available: {r.stdout[-500:] if r else 'timeout'}", flush=True)
                continue
            bins[v] = run

    ts = [threading.Thread(target=work, args=(f, l)) for f, l in groups.items()]
    a = [v for v in variants if v in ASAN]
    if a:
        ts.append(threading.Thread(target=asan, args=(a,)))
    w = [v for v in variants if v in WASM]
    if w:
        ts.append(threading.Thread(target=wasm, args=(w,)))
    m = [v for v in variants if v in MIRI]
    if m:
        ts.append(threading.Thread(target=miri, args=(m,)))
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise ToolError(errs[0])
    return bins


def has_avx2(bins):
    v = next(b for b in bins.values() if isinstance(b, str))
    r = subprocess.run([v, "info"], stdout=subprocess.PIPE, text=True)
    return "true" in r.stdout


HANGS = {}     # per build: seconds lost in scenarios that killed the process or never ended
PATIENCE = 150 # after so many seconds the rest is not run


def run_variant(binary, scens, scratch, timeout_each, mem_gb=6):
    """-> list of raw trace lines (str) or ("crash"|"hang", text), one per scenario."""
    key = str(binary)
    os.makedirs(scratch, exist_ok=True)
    out = [None] * len(scens)
    i = 0
    while i < len(scens):
        if HANGS.get(key, 0) > PATIENCE:
            out[i:] = [("hang", "not run: earlier scenarios never ended or killed the process")] * (len(scens) - i)
            break
        if HANGS.get(key, 0) > 60:
            timeout_each = min(timeout_each, 20)
        data = "".join(json.dumps(s, separators=(",", ":")) + "\n" for s in scens[i:])
        lim = None if isinstance(binary, list) else lambda: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        p = subprocess.Popen((binary if isinstance(binary, list) else [binary]) + [scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim)
        last = [time.time()]
        res = []

        def feed():
            try:
                p.stdin.write(data.encode())
                p.stdin.close()
            except BrokenPipeError:
                pass

        def read():
            for l in p.stdout:
                res.append(l.decode())
                last[0] = time.time()

        err = []
        th = [threading.Thread(target=feed, daemon=True), threading.Thread(target=read, daemon=True),
              threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)]
        [t.start() for t in th]
        hang = False
        while th[1].is_alive():
            th[1].join(0.5)
            if th[1].is_alive() and time.time() - last[0] > timeout_each:
                hang = True
                p.kill()
                th[1].join(5)
                break
        p.wait()
        th[2].join(2)
        full = [l for l in res if l.endswith("\n")]
        for j, l in enumerate(full):
            out[i + j] = l.rstrip("\n")
        i += len(full)
        if i < len(scens):
            text = (err[0] if err else b"").decode(errors="replace")[-400:]
            if re.search(r"^harness: ", text, re.M):
                raise ToolError(f"harness: {text} at {scens[i]['id']}")
            HANGS[key] = HANGS.get(key, 0) + time.time() - last[0]
            out[i] = ("hang" if hang else "crash", f"{text} rc={p.returncode}")
            i += 1
    return out


class Tlc:
    """One TLC run."""

    def __init__(self, module, cfg, env=None, workers=8, timeout=800, extra=(), heap="6g", work=None, stack="48m"):
        self.module, self.cfg = module, cfg
        d = work or os.path.join(BUILD, "tlc", f"{os.getpid()}-{module}-{time.time_ns()}")
        os.makedirs(d, exist_ok=True)
        self.dir = d
        cf = os.path.join(d, "run.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d + "/st",
               "-workers", str(workers), "-config", cf] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        self.cmd = cmd
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
            self.out, self.rc, self.timed_out = r.stdout, r.returncode, False
        except subprocess.TimeoutExpired as e:
            self.out, self.rc, self.timed_out = (e.stdout or b"").decode(errors="replace"), -1, True
        self.wall = time.time() - t0
        shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out.replace(",", ",").replace("\u00a0", ""))
        self.states = int(m[-1][1]) if m else 0
        self.transitions = int(m[-1][0]) if m else 0
        self.ok = "Model checking completed. No error has been found." in self.out
        self.violated = re.findall(r"Invariant (\w+) is violated", self.out)
        # constant-level checks
        self.assume_false = re.findall(r"Assumption line (\d+)[^\n]* is false", self.out)
        self.ends = re.findall(r'^"END (.*)"$', self.out, re.M)
        self.json = {}
        for tag, body in re.findall(r'^"(CFG|HIST|GEN|SCHED) (.*)"$', self.out, re.M):
            self.json.setdefault(tag, []).append(json.loads(json.loads('"' + body + '"')))
        self.prints = re.findall(r'^"(?!END )([A-Z][A-Z]+ .*)"$', self.out, re.M)

    def counterexample(self, n=3):
        """the last states of the reported behaviour"""
        i = self.out.find("Error:")
        t = self.out[i:] if i >= 0 else self.out
        st = re.split(r"\n(?=State \d+:)", t)
        head = st[0]
        return head[:1500] + "\n...\n" + "\n".join(s[:2500] for s in st[-n:])
