#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property (see DESIGN.md)
   check.py replay FILE                 replays a reported violation natively
Exit 0: held; 1: VIOLATION; 2: the check could not decide."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import build, plan

SUM = ("paths", "dropped", "steps", "forks", "asserts", "assert_syntactic", "assert_solver", "merges", "queries",
       "cache_hits", "sat", "unsat", "solver_s", "fallback", "sweep", "left")


def known_findings():
    f = os.path.join(VERIF, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def matches(e, prop, v):
    return (e.get("status") == "finding" and e["property"] == prop and e["harness"] == v["harness"]
            and e["id"] == v["id"] and e.get("msg", "") in v["msg"])


def engine_run(eng, ll, tools, r, tier, out, stop, left, workers=8):
    o = dict(plan.DEFAULTS)
    o.update(r.get("opts", {}))
    if tier == "thorough":
        o.update(r.get("thorough", {}))
    o["budget"] = max(5, min(o["budget"], left))
    cmd = [eng, "--harness", r["h"], "--ll", ll, "--out", out, "--workers", str(workers)]
    if stop:
        cmd += ["--stop", "5"]
    for k, v in o.items():
        cmd += ["--" + k, str(v)]
    for a in (r.get("args_thorough") if tier == "thorough" and "args_thorough" in r else r.get("args", [])):
        cmd += ["--arg", str(a)]
    for n in r.get("tools", []):
        cmd += ["--tool", f"{n}={tools[n]}"]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=o["budget"] + 120)
    res = {k: 0 for k in SUM}
    res.update(max_query_s=0.0, rss_mb=0, violations=[], viol_count={}, samples=[], unsupported={}, covers=set(),
               encoded=set(), secs=time.time() - t0, rc=p.returncode, log=p.stdout[-2000:])
    for f in glob.glob(out + "/*.json"):
        j = json.load(open(f))
        for k in SUM:
            res[k] += j[k]
        for k in ("max_query_s", "rss_mb"):
            res[k] = max(res[k], j[k])
        res["violations"] += [dict(v, harness=r["h"]) for v in j["violations"]]
        res["samples"] += j["samples"]
        for m in ("unsupported", "viol_count"):
            for k, n in j[m].items():
                res[m][k] = res[m].get(k, 0) + n
        res["covers"] |= set(j["covers"])
        res["encoded"] |= set(j["encoded"])
    return res


def replay(rep, tooldir, text):
    """Runs one recorded path natively; (exit code, output lines)"""
    d = tempfile.mkdtemp(prefix="telsym")
    try:
        f = os.path.join(d, "case")
        s = os.path.join(d, "fs")
        os.mkdir(s)
        with open(f, "w") as g:
            g.write(text)
        try:
            p = subprocess.run([rep, f, tooldir or s, s], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=60)
            return p.returncode, p.stdout.decode("utf-8", "replace").splitlines()
        except subprocess.TimeoutExpired:
            return 4, ["HANG"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduced(v, rc, lines):
    i = v["id"]
    if f"FAIL {i}" in lines:
        return True
    if i == "hang":
        return rc == 4
    if i in ("panic", "division", "stack-overflow", "unreachable", "memory"):
        return rc in (101, 134, -6, -11) or any(l.startswith(("PANIC", "TOOLPANIC")) for l in lines)
    if i == "exit":
        return rc not in (0, 3)
    return False


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        txt = open(sys.argv[2]).read()
        rep = build.replayer()
        tools = [l[7:] for l in txt.splitlines() if l.startswith("# tool ")]
        rc, lines = replay(rep, build.native_tools(tools) if tools else None, txt)
        print("\n".join(lines))
        return 1 if rc != 0 or any(l.startswith("TOOLPANIC") for l in lines) else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = plan.PLAN[prop]
    t0 = time.time()
    runs = [r for r in P["runs"] if tier == "thorough" or not r.get("thorough_only")]
    tools = sorted({t for r in runs for t in r.get("tools", [])})
    try:
        eng, ll, tir, rep, tdir = build.everything(tools)
    except build.BuildError as e:
        print(f"check {prop}: {e}")
        return 2
    t_build = time.time() - t0
    err, viols, known, done = [], [], {}, []
    validated = 0
    allsamples = []
    encoded = set()
    tot = {k: 0 for k in SUM}
    maxq, exhausted = 0.0, True
    kf = known_findings()
    for r in runs:
        out = tempfile.mkdtemp(prefix="telsym", dir=build.B)
        try:
            # the search ends soon after a violation unless listed findings are expected to show up first
            stop = not any(e.get("status") == "finding" and e["property"] == prop for e in kf)
            left = (780 if tier == "quick" else 36000) - (time.time() - t0)
            res = engine_run(eng, ll, tir, r, tier, out, stop, left)
        except subprocess.TimeoutExpired:
            err.append(f"{r['h']}: engine did not stop")
            continue
        finally:
            shutil.rmtree(out, ignore_errors=True)
        name = r["h"] + "".join(f" {a}" for a in r.get("args", []))
        if res["rc"] != 0:
            err.append(f"{name}: engine exit {res['rc']}: {res['log']}")
        for k in SUM:
            tot[k] += res[k]
        maxq = max(maxq, res["max_query_s"])
        encoded |= res["encoded"]
        budget = sum(n for k, n in res["unsupported"].items() if k.startswith(("time budget", "stopped")))
        uns = {k: n for k, n in res["unsupported"].items() if not k.startswith(("time budget", "stopped"))}
        if budget:
            exhausted = False
        if uns:
            err.append(f"{name}: not encodable: {json.dumps(uns)[:1500]}")
        # native confirmation of violations, one per kind first
        seen = {}
        for v in res["violations"]:
            seen.setdefault((v["id"], v["msg"]), []).append(v)
        for (i, msg), vs in sorted(seen.items()):
            hit = None
            last = None
            for v in vs[:4]:
                head = "".join(f"# tool {t}\n" for t in r.get("tools", []))
                last = replay(rep, tdir, v["replay"])
                if reproduced(v, *last):
                    hit = dict(v, replay=head + v["replay"], native=last)
                    break
            if hit is None:
                err.append(f"{name}: {i} {msg} does not reproduce natively (rc {last[0]}): {last[1][-6:]} stack {vs[0]['stack'][:400]}")
                continue
            e = next((e for e in kf if matches(e, prop, hit)), None)
            if e:
                known[json.dumps(e, sort_keys=True)] = e
            else:
                viols.append(hit)
        # sampled paths: the engine's predicted observations against a native run
        for s in res["samples"][: plan.MAX_SAMPLES]:
            rc, lines = replay(rep, tdir, s["replay"])
            tr = [l[6:] for l in lines if l.startswith("TRACE ")]
            bad = [l for l in lines if l.startswith(("MISMATCH", "ASSUMPTION", "HANG"))]
            if tr != [str(x) for x in s["trace"]] or bad:
                err.append(f"{name}: engine and native run disagree on a sampled path: {bad} {s['trace'][:8]} vs {tr[:8]}\n{s['replay'][:600]}")
            else:
                validated += 1
            if len(allsamples) < 3:
                allsamples.append({"harness": name, "inputs": s["replay"][:1500], "observed": s["trace"][:40]})
        if not viols:
            miss = [c for c in r.get("covers", []) if c not in res["covers"]]
            if miss and not budget:
                err.append(f"{name}: never reached: {miss}")
            if res["asserts"] == 0 and not r.get("crash_only"):
                err.append(f"{name}: no assertion reached")
            if res["paths"] == 0:
                err.append(f"{name}: no path completed")
        done.append({"harness": name, "paths": res["paths"], "assertions": res["asserts"],
                     "queries": res["queries"], "unsat": res["unsat"], "sat": res["sat"],
                     "solver_s": round(res["solver_s"], 2), "wall_s": round(res["secs"], 2),
                     "exhausted": not budget, "ir_steps": res["steps"], "covers": sorted(res["covers"])})
        if viols and stop:
            break
    crate = sorted(f for f in encoded if "telda2" in f or f.split("::")[0] in ("t", "tc", "tl", "tar", "tstrip", "tobjdump"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": tot["paths"] + tot["merges"] + tot["forks"],
              "transitions": tot["steps"],
              "traces_validated_against_impl": validated,
              "samples": allsamples or [{"note": "no sampled path"}],
              "exhaustive": exhausted and not err,
              "explanation": "states: symbolic path ends, joins and splits; transitions: IR instructions executed symbolically, each over all values of its inputs at once",
              "paths": tot["paths"], "assertions_checked": tot["asserts"],
              "assertions_decided_by_rewriting": tot["assert_syntactic"],
              "assertions_decided_by_solver": tot["assert_solver"],
              "queries_discharged": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"],
              "solver_s": round(tot["solver_s"], 2), "max_query_s": round(maxq, 3),
              "functions_encoded": len(encoded), "telda_functions_encoded": crate,
              "bounds": P.get("bounds", ""), "outside_bounds": P.get("outside", ""),
              "runs": done, "build_s": round(t_build, 1)},
          "assumptions": P.get("assumptions", plan.ASSUME),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in known.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    for m in err:
        print(f"check {prop}: {m}")
    print(f"{prop} {tier}: paths {tot['paths']}, assertions {tot['asserts']}, queries {tot['queries']} "
          f"({tot['unsat']} unsat), solver {tot['solver_s']:.1f} s, {validated} traces validated natively, "
          f"exhausted={exhausted}, build {t_build:.0f} s, total {time.time() - t0:.0f} s")
    if viols:
        rd = os.path.join(VERIF, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        for v in viols[:12]:
            tag = hashlib.sha256((v["harness"] + v["id"] + v["msg"]).encode()).hexdigest()[:8]
            f = os.path.join(rd, f"{prop}-{v['id'].replace('/', '_')}-{tag}.txt")
            with open(f, "w") as g:
                g.write(f"# {prop}: {v['id']} {v['msg']}\n# python3 check.py replay {f}\n" + v["replay"])
                for l in v["native"][1][-8:]:
                    g.write(f"# native: {l}\n")
            print(f"  {v['harness']} {v['id']} {v['msg'][:200]}")
            print(f"VIOLATION property={prop} replay={f}")
        return 1
    return 2 if err else 0


if __name__ == "__main__":
    sys.exit(main())
