"""Builds the engine, the LLVM IR of harness and tools, and the native replayer
from the current /repo tree. Everything goes to /verif/build."""
import fcntl, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(VERIF, "build")
TC = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_INCREMENTAL="0")
HENV_FLAGS = "--cfg telsym"
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
OPT = os.path.expanduser(f"~/.rustup/toolchains/{TC}/lib/rustlib/{TRIPLE}/bin/opt")
PROFILE = ['profile.release.lto="fat"', "profile.release.codegen-units=1", 'profile.release.panic="abort"',
           "profile.release.opt-level=1", "profile.release.overflow-checks=true",
           "profile.release.debug-assertions=true"]
CFG = sum((["--config", p] for p in PROFILE), [])
IRFLAGS = ["--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "no-prepopulate-passes"]


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(f"{what or cmd[0]} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        fs = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, ds, ff in os.walk(root) for f in ff if "/target/" not in d + "/")
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as g:
                h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


SRC = [f"{REPO}/src", f"{REPO}/Cargo.toml"]
HSRC = [f"{VERIF}/harness/src", f"{VERIF}/harness/Cargo.toml", f"{VERIF}/harness/Cargo.lock"]


def engine():
    with Lock("engine"):
        run(["cargo", "build", "--release", "--offline"], f"{VERIF}/engine",
            dict(ENV, CARGO_TARGET_DIR=f"{B}/engine"), "engine build")
    return f"{B}/engine/release/telsym"


def harness_names():
    import re
    t = open(f"{VERIF}/harness/src/lib.rs").read()
    return re.findall(r"^\s*(h_\w+)\(", t, re.M)


def _opt(ll, out, api):
    tmp = out + f".{os.getpid()}"
    run([OPT, "-passes=internalize,globaldce,default<O1>,globaldce", "-internalize-public-api-list=" + api,
         "-strip-debug", ll, "-S", "-o", tmp], "/", what="opt")
    os.replace(tmp, out)


def _newest_ll(d, prefix):
    c = [os.path.join(d, f) for f in os.listdir(d) if f.startswith(prefix + "-") and f.endswith(".ll")]
    if not c:
        raise BuildError(f"no IR for {prefix}")
    return max(c, key=os.path.getmtime)


def fresh(td, key):
    """cargo trusts modification times; forget its record of our crates when the sources differ"""
    import glob, shutil
    st = os.path.join(td, "sources.digest")
    old = open(st).read() if os.path.exists(st) else None
    if old != key:
        for f in glob.glob(td + "/**/.fingerprint/*", recursive=True):
            if os.path.basename(f).rsplit("-", 1)[0] in ("telda2", "harness"):
                shutil.rmtree(f, ignore_errors=True)
        os.makedirs(td, exist_ok=True)
        with open(st, "w") as g:
            g.write(key)


def cache(name):
    os.makedirs(f"{B}/cache", exist_ok=True)
    return f"{B}/cache/{name}"


def trim(prefix, keep):
    d = f"{B}/cache"
    fs = sorted((f for f in os.listdir(d) if f.startswith(prefix)), key=lambda f: os.path.getmtime(f"{d}/{f}"))
    for f in fs[:-keep]:
        try:
            os.remove(f"{d}/{f}")
        except OSError:
            pass


def harness_ir():
    key = digest(SRC + HSRC, "h1" + str(PROFILE))
    out = cache(f"harness-{key}.ll")
    if os.path.exists(out):
        return out
    with Lock("hir"):
        if os.path.exists(out):
            return out
        td = f"{B}/hir"
        fresh(td, key)
        d = f"{td}/{TRIPLE}/release/deps"
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith(("harness-", "libharness")):
                    os.remove(os.path.join(d, f))
        run(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "staticlib", "--target", TRIPLE]
            + CFG + ["--"] + IRFLAGS, f"{VERIF}/harness", dict(ENV, CARGO_TARGET_DIR=td, RUSTFLAGS=HENV_FLAGS), "harness IR")
        ll = _newest_ll(d, "harness")
        _opt(ll, out, ",".join(harness_names()))
        os.remove(ll)
        trim("harness-", 3)
    return out


def tool_ir(names):
    key = digest(SRC, "t1" + str(PROFILE))
    res = {n: cache(f"tool-{n}-{key}.ll") for n in names}
    need = [n for n in names if not os.path.exists(res[n])]
    if not need:
        return res
    with Lock("tir"):
        need = [n for n in names if not os.path.exists(res[n])]
        if not need:
            return res
        td = f"{B}/tir"
        fresh(td, key)
        d = f"{td}/{TRIPLE}/release/deps"
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.split("-")[0] in need:
                    os.remove(os.path.join(d, f))
        # the flags only have to reach the bins, but cargo passes them to all crates
        env = dict(ENV, CARGO_TARGET_DIR=td, CARGO_ENCODED_RUSTFLAGS="\x1f".join(IRFLAGS))
        run(["cargo", "build", "--release", "--offline", "--target", TRIPLE] + CFG + sum((["--bin", n] for n in need), []),
            REPO, env, "tool IR")

        def one(n):
            ll = _newest_ll(d, n)
            _opt(ll, res[n], "main")
            os.remove(ll)
            trim(f"tool-{n}-", 2)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, need))
    return res


def replayer():
    with Lock("native"):
        fresh(f"{B}/native", digest(SRC + HSRC))
        run(["cargo", "build", "--offline", "--bin", "replay"], f"{VERIF}/harness",
            dict(ENV, CARGO_TARGET_DIR=f"{B}/native", RUSTFLAGS=HENV_FLAGS), "replayer build")
    return f"{B}/native/debug/replay"


def native_tools(names):
    with Lock("ntools"):
        fresh(f"{B}/ntools", digest(SRC))
        run(["cargo", "build", "--offline"] + sum((["--bin", n] for n in names), []), REPO,
            dict(ENV, CARGO_TARGET_DIR=f"{B}/ntools"), "native tools build")
    return f"{B}/ntools/debug"


def everything(tools):
    """(engine, harness ir, {tool: ir}, replayer, native tool dir), built in parallel"""
    with ThreadPoolExecutor(6) as ex:
        a = ex.submit(engine)
        b = ex.submit(harness_ir)
        c = ex.submit(tool_ir, tools) if tools else None
        d = ex.submit(replayer)
        e = ex.submit(native_tools, tools) if tools else None
        return (a.result(), b.result(), c.result() if c else {}, d.result(), e.result() if e else None)


if __name__ == "__main__":
    t0 = time.time()
    try:
        everything(["t", "tar", "tc", "tl", "tobjdump", "tstrip"])
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(f"built in {time.time() - t0:.0f} s")
