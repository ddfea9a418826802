#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough] [--keep]

Builds the symbolic engine (symx) and the harness group from /repo's current sources, executes the harness
entries symbolically, replays every counterexample natively against the really compiled code, replays sample
paths natively as well (validation of the encoding), and writes evidence/<PROPERTY>.json.
"""
import concurrent.futures
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{VERIF}/tools")
import checks  # noqa: E402
import ws  # noqa: E402

WORK = ws.WORK
T0 = time.time()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def env_for(toolchain, target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",):
            e.pop(k)
    e.update(
        RUSTUP_TOOLCHAIN=toolchain,
        CARGO_TARGET_DIR=target,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        RUSTFLAGS="-Awarnings",
    )
    return e


def locked(name):
    os.makedirs(WORK, exist_ok=True)
    f = open(f"{WORK}/{name}.lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    with locked("symx"):
        r = run(
            ["cargo", "build", "--release", "--offline", "--manifest-path", f"{VERIF}/symx/Cargo.toml"],
            env={**env_for("1.98.1", f"{WORK}/target-symx"), "RUSTFLAGS": "-Awarnings"},
        )
    exe = f"{WORK}/target-symx/release/symx"
    if r.returncode or not os.path.exists(exe):
        print(r.stdout)
        sys.exit("cannot build the engine")
    return exe


def build_group(group):
    """-> (llvm ir file, native replay binary)"""
    with locked(f"g-{group}"):
        out = ws.layout(group)
        ir = f"{WORK}/ir/{group}.ll"
        target = f"{WORK}/target-{group}"
        os.makedirs(f"{WORK}/ir", exist_ok=True)
        lib = f"{target}/debug/libh_{group}.a"
        if not os.path.exists(ir) and os.path.exists(lib):
            # cargo would consider the harness fresh without the ir file
            os.utime(f"{out}/h/Cargo.toml")
        cmd = ["cargo", "rustc", "--offline", "-p", f"h_{group}", "--lib", "--",
               f"--emit=llvm-ir={ir},link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
        r = run(cmd, cwd=out, env=env_for("1.83.0", target))
        if r.returncode or not os.path.exists(ir):
            print(r.stdout[-6000:])
            sys.exit(f"cannot build harness group {group}")
        exe = f"{target}/replay"
        shim = f"{VERIF}/harness/native/shim.c"
        if not os.path.exists(exe) or os.path.getmtime(exe) < max(os.path.getmtime(lib), os.path.getmtime(shim)):
            r = run(["gcc", "-O1", "-rdynamic", shim, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive",
                     "-o", exe, "-lpthread", "-ldl", "-lm"])
            if r.returncode:
                print(r.stdout[-4000:])
                sys.exit("cannot link the replay binary")
    return ir, exe


def find_llc():
    import glob
    for p in sorted(glob.glob(os.path.expanduser("~/.rustup/toolchains/*/lib/rustlib/x86_64-unknown-linux-gnu/bin/llc"))) + ["/usr/bin/llc"]:
        if os.path.exists(p):
            return p
    sys.exit("no llc")


def build_threaded(group, ir):
    """the replay binary for parallel sections: the same IR with a scheduler call before each atomic instruction"""
    with locked(f"g-{group}"):
        exe = f"{WORK}/target-{group}/replay-mt"
        shim = f"{VERIF}/harness/native/shim.c"
        if os.path.exists(exe) and os.path.getmtime(exe) >= max(os.path.getmtime(ir), os.path.getmtime(shim)):
            return exe
        n = 0
        pat = re.compile(r"\s+(%\S+ = )?((load|store) atomic |atomicrmw |cmpxchg )")
        with open(ir) as f, open(f"{exe}.ll", "w") as o:
            for line in f:
                if pat.match(line):
                    n += 1
                    o.write(f"  call void @symx_sched(i32 {n})\n")
                o.write(line)
            o.write("\ndeclare void @symx_sched(i32)\n")
        for cmd in ([find_llc(), "-O0", "-filetype=obj", "-relocation-model=pic", f"{exe}.ll", "-o", f"{exe}.o"],
                    ["gcc", "-O1", "-rdynamic", shim, f"{exe}.o", "-o", exe, "-lpthread", "-ldl", "-lm", "-lgcc_s", "-lgcc"]):
            r = run(cmd)
            if r.returncode:
                print(r.stdout[-4000:])
                sys.exit("cannot build the threaded replay binary")
        os.unlink(f"{exe}.ll")
        os.unlink(f"{exe}.o")
        return exe


def native(exe, entry, inputs, image, params, timeout=60, valgrind=False):
    """runs one recorded path natively in a scratch directory -> (kind, detail, outs)"""
    d = tempfile.mkdtemp(prefix="symx-replay-")
    try:
        with open(f"{d}/inputs", "w") as f:
            for n, v in inputs:
                f.write(f"{n} {v}\n")
        cmd = [exe, entry, f"{d}/inputs"]
        if image is not None:
            with open(f"{d}/image", "wb") as f:
                f.write(bytes.fromhex(image))
            cmd.append(f"{d}/image")
        os.mkdir(f"{d}/cwd")
        env = {"PATH": os.environ.get("PATH", ""), "HOME": d, **{f"SYMX_PARAM_{k}": str(v) for k, v in params.items()}}
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
        try:
            r = subprocess.run(cmd, cwd=f"{d}/cwd", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "hang", "no end within the time limit", []
        so, se = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        outs = [int(x.split()[1]) for x in so.splitlines() if x.startswith("out ")]
        m = re.search(r"SYMX-ASSERT-FAIL (\S+)", se)
        if r.returncode == 42 and m:
            return "assert", m.group(1), outs
        if r.returncode == 99 and valgrind:
            return "memory", se[-1500:], outs
        if r.returncode == 43:
            return "hang", "all threads blocked", outs
        if r.returncode == 0:
            return "ok", "", outs
        if r.returncode < 0:
            s = signal.Signals(-r.returncode).name
            return ("panic" if s == "SIGABRT" else "signal"), f"{s} {se[-1500:]}", outs
        return "other", f"exit {r.returncode} {se[-600:]}", outs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(prop):
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[prop]
    budget = 760 if tier == "quick" else spec.get("thorough_budget", 5400)
    groups = sorted({e.get("group", spec.get("group")) for e in spec["entries"]})
    with concurrent.futures.ThreadPoolExecutor() as ex:
        fe = ex.submit(build_engine)
        fg = {g: ex.submit(build_group, g) for g in groups}
        symx = fe.result()
        built = {g: f.result() for g, f in fg.items()}
    log("built", symx, ", ".join(groups))

    work = tempfile.mkdtemp(prefix=f"symx-{prop}-")
    rep_dir = f"{VERIF}/evidence/replay"
    os.makedirs(rep_dir, exist_ok=True)
    ev = []
    viol_lines, known_lines, problems, notes = [], [], [], []
    tot = dict(paths=0, decisions=0, steps=0, queries=0, cached=0, solver_s=0.0, validated=0, asserts=0)
    fns = set()
    samples = []
    findings = known_findings(prop)
    try:
        for e in spec["entries"]:
            if tier == "quick" and e.get("thorough_only"):
                continue
            g = e.get("group", spec.get("group"))
            ir, exe = built[g]
            if e.get("mt"):
                exe = build_threaded(g, ir)
            params = dict(e.get("params", {}))
            if tier == "thorough":
                params.update(e.get("thorough_params", {}))
            left = budget - (time.time() - T0)
            limit = int(min(e.get("time", 600) if tier == "quick" else e.get("thorough_time", 3600), left))
            if limit < 10:
                problems.append(f"{e['name']}: no time left")
                continue
            out = f"{work}/{e['name']}.json"
            cmd = [symx, ir, "--entry", e["name"], "--out", out, "--jobs", str(e.get("jobs", 8)), "--time", str(limit),
                   "--samples", str(e.get("samples", 4))] + e.get("args", []) + (e.get("thorough_args", []) if tier == "thorough" else [])
            for k, v in params.items():
                cmd += ["--param", f"{k}={v}"]
            r = run(cmd)
            if r.returncode or not os.path.exists(out):
                problems.append(f"{e['name']}: engine failed: {r.stdout[-1500:]}")
                continue
            d = json.load(open(out))
            log(e["name"], {k: d[k] for k in ("paths", "forks", "queries", "solver_s", "wall_s", "unknown")}, "reach", d["reach"], d["errors"] or "")
            complete = not d["errors"] and not d["unknown"]
            # --- violations
            nv = 0
            seen = set()
            for i, v in enumerate(d["violations"]):
                for _ in range(6):
                    kind, detail, _ = native(exe, e["name"], v["inputs"], v.get("image"), params)
                    if "MISMATCH schedule" not in detail:
                        break
                ok = (v["kind"] == "assert" and kind == "assert") or (v["kind"] in ("panic", "abort") and kind in ("panic", "signal", "assert")) \
                    or (v["kind"] in ("steps", "deadlock", "hang") and kind == "hang")
                if not ok and v["kind"] in ("memory", "ub", "unreachable"):
                    if kind in ("signal", "panic", "assert"):
                        ok = True
                    else:
                        k2, d2, _ = native(exe, e["name"], v["inputs"], v.get("image"), params, timeout=120, valgrind=True)
                        ok = k2 in ("memory", "signal", "panic", "assert")
                        detail = detail + " | valgrind: " + k2 + " " + d2
                        if not ok and e.get("trust_memory"):
                            ok = True
                ident = f"{v['kind']}:{v['msg']}"
                f = f"{rep_dir}/{prop}-{e['name']}-{i}.json"
                json.dump({"property": prop, "entry": e["name"], "group": g, "params": params, "mt": bool(e.get("mt")), "violation": v,
                           "native": [kind, detail],
                           "how": f"python3 tools/replay.py {f}"}, open(f, "w"), indent=1)
                kf = [k for k in findings if k["entry"] == e["name"] and re.fullmatch(k["ident"], ident)
                      and all(any(n == kn and val == kv for n, val in v["inputs"]) for kn, kv in k.get("inputs", []))]
                if kf and ok:
                    line = f"KNOWN-FINDING: property={prop} {kf[0]['what']}"
                    if line not in known_lines:
                        known_lines.append(line)
                    continue
                if ok:
                    nv += 1
                    if ident not in seen:
                        seen.add(ident)
                        log("violation", ident, v["inputs"], "native:", kind, detail[:300])
                        viol_lines.append(f"VIOLATION property={prop} replay={f}")
                else:
                    problems.append(f"{e['name']}: counterexample not reproduced natively: {ident} {v['inputs']} native={kind} {detail[:300]}")
            # --- reachability of what must be possible (non-vacuity)
            missing = [x for x in e.get("reach", []) if x not in d["reach"]]
            if missing:
                if complete and not nv:
                    f = f"{rep_dir}/{prop}-{e['name']}-reach.json"
                    json.dump({"property": prop, "entry": e["name"], "group": g, "params": params,
                               "violation": {"kind": "unreachable", "msg": f"never happens for any input within the bounds: {missing}", "inputs": [], "image": None},
                               "native": []}, open(f, "w"), indent=1)
                    log("violation: expected outcome impossible:", missing)
                    viol_lines.append(f"VIOLATION property={prop} replay={f}")
                elif not nv and not viol_lines:
                    problems.append(f"{e['name']}: outcomes not reached: {missing} (incomplete exploration: {d['errors']})")
            if not complete:
                notes.append(f"{e['name']}: incomplete: {d['errors']} unknown={d['unknown']}")
            # --- validation of the encoding: recorded paths behave the same natively
            for s in d["samples"]:
                for _ in range(4):
                    kind, detail, outs = native(exe, e["name"], s["inputs"], s.get("image"), params)
                    if "MISMATCH schedule" not in detail:
                        break
                if "MISMATCH schedule" in detail:  # the recorded interleaving could not be imposed: nothing learnt
                    notes.append(f"{e['name']}: a sampled schedule could not be replayed natively")
                elif kind == "ok" and outs == [o for o in s["outs"]]:
                    tot["validated"] += 1
                elif nv == 0:
                    problems.append(f"{e['name']}: sample path differs natively: {s['inputs']} symbolic outs {s['outs']} native {kind} {detail[:300]} outs {outs}")
            samples += [{"entry": e["name"], "inputs": s["inputs"], "outs": s["outs"][:16]} for s in d["samples"][:2]]
            tot["paths"] += d["paths"]
            tot["decisions"] += d.get("branch_decisions", 0) + d.get("forks", 0)
            tot["steps"] += d["steps"]
            tot["queries"] += d["queries"]
            tot["cached"] += d["cached_queries"]
            tot["solver_s"] += d["solver_s"]
            tot["asserts"] += sum(d["asserts"].values())
            fns.update(d["functions"])
            ev.append({"entry": e["name"], "bounds": e.get("bounds", ""), "params": params, "paths": d["paths"], "forks": d["forks"],
                       "queries": d["queries"], "solver_s": d["solver_s"], "max_query_s": d["max_query_s"], "wall_s": d["wall_s"],
                       "crash_points": d.get("crash_points", 0), "asserts": d["asserts"], "reached": d["reach"], "complete": complete,
                       "incomplete_because": d["errors"]})
    finally:
        shutil.rmtree(work, ignore_errors=True)

    own = sorted(f for f in fns if re.search(r"\bbd_\w+::|<bd_|_<bd_", f))
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["decisions"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples[:12],
            "states_are": "feasible paths of the harness over the real code, each standing for every input satisfying its path condition",
            "transitions_are": "branch decisions put to the solver or forked on",
            "assertions_discharged": tot["asserts"],
            "instructions_executed": tot["steps"],
            "solver_queries": tot["queries"],
            "solver_cache_hits": tot["cached"],
            "solver_s": round(tot["solver_s"], 2),
            "functions_encoded_total": len(fns),
            "functions_encoded_from_repo": own[:400],
            "bounds": spec.get("bounds", ""),
            "outside_bounds": spec.get("outside", ""),
            "entries": ev,
            "notes": notes + problems,
        },
        "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol_lines),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(evidence, f, indent=1)
    for n in notes:
        print("NOTE", n)
    for p in problems:
        print("PROBLEM", p)
    for k in known_lines:
        print(k)
    if viol_lines:
        for v in dict.fromkeys(viol_lines):
            print(v)
        sys.exit(1)
    if problems:
        sys.exit(2)
    log(f"{prop}: held on everything explored ({tot['paths']} paths, {tot['queries']} queries, {tot['solver_s']:.1f}s solver, {tot['validated']} paths validated natively)")


if __name__ == "__main__":
    main()
