#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).
   seedtest.py confirm ID...   builds, tests and demonstrates each in a scratch copy of /repo
   seedtest.py catch ID...     applies each to /repo, runs its property's check, undoes it"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDS", V + "/seeded")
SC = "/tmp/seedscratch"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    p = sh("cargo build --workspace --offline && cargo test --workspace --offline", SC)
    return p.returncode == 0, p.stdout[-1500:]


def plant(id, prop, edits, needs, breaks, files):
    """edits: (file, old, new); files: {name: text} beside demo.sh"""
    d = f"{S}/{id}"
    os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in edits:
        t = open(f"{SC}/{f}").read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(f"{SC}/{f}", "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", SC).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n, t in files.items():
        open(f"{d}/{n}", "w").write(t)
    original(id)
    return confirm(id)


def original(id):
    """warns when a line of our own commits is changed"""
    ours, f = set(), None
    base = sh("git log --format=%H", "/repo").stdout.split()[-1]
    for l in sh(f"git diff {base} HEAD", "/repo").stdout.splitlines():
        if l.startswith("+++ "):
            f = l[6:]
        elif l.startswith("+"):
            ours.add((f, l[1:]))
    for l in open(f"{S}/{id}/patch.diff"):
        l = l.rstrip("\n")
        if l.startswith("+++ "):
            f = l[6:]
        elif l.startswith("-") and not l.startswith("---") and (f, l[1:]) in ours and len(l.strip()) > 4:
            print(id, "CHANGES OUR LINE", l, flush=True)


def fresh():
    if not os.path.exists(SC):
        subprocess.run(["cp", "-a", "/repo", SC], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SC)


def confirm(id):
    d = f"{S}/{id}"
    fresh()
    ok, log = build()
    assert ok, log
    a = sh(f"bash {d}/demo.sh", SC, timeout=300)
    p = sh(f"git apply {d}/patch.diff", SC)
    assert p.returncode == 0, p.stdout
    ok, log = build()
    b = sh(f"bash {d}/demo.sh", SC, timeout=300) if ok else None
    sh("git checkout -q -- .", SC)
    good = ok and a.returncode == 0 and b.returncode != 0
    print(id, "confirmed" if good else f"BAD build+test {ok} clean {a.returncode} patched {b and b.returncode}\n{log if not ok else ''}\n{a.stdout[-800:]}\n----\n{b and b.stdout[-800:]}", flush=True)
    return good


def catch(id, tier="quick"):
    d = f"{S}/{id}"
    prop = json.load(open(d + "/meta.json"))["property"]
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        p = subprocess.run(["python3", V + "/check.py", prop, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    hit = p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout
    print(id, prop, "CAUGHT" if hit else f"MISSED rc {p.returncode}", "" if hit else p.stdout[-1500:], flush=True)


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    for i in ids:
        (confirm if sys.argv[1] == "confirm" else catch)(i)
