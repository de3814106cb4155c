#!/usr/bin/env python3
"""Decides one property: check.py ID   (VERIF_TIER=quick|thorough)

1. compiles /repo's current tree and the harness crate to LLVM IR,
2. runs the symbolic executor on every harness of the property,
3. replays sampled paths natively and compares what they computed,
4. replays every counterexample natively before reporting it.
Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
import spec

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
FILT = "/usr/lib/llvm-18/bin/llvm-cxxfilt"


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def die(msg, code=2):
    print(f"NO-ANSWER: {msg}", flush=True)
    sys.exit(code)


def run(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode = -99
            stdout = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            stderr = "timeout"
        return R


def engine():
    exe = f"{HERE}/engine/target/release/symx"
    r = run(["cargo", "build", "--release", "--offline"], cwd=f"{HERE}/engine", env=env())
    if r.returncode != 0 or not os.path.exists(exe):
        die("engine does not build:\n" + r.stderr[-3000:])
    return exe


# crates that need the hooks in /repo
HOOKED = {"harness_limits": "--cfg sparsey_verif"}
# crates whose native build stops at every atomic access, so that recorded schedules can be followed
POINTS = {"harness_threads"}


class Build:
    """A harness crate compiled from /repo's working tree, as IR and natively."""

    def __init__(self, crate, tmp, entries=()):
        self.crate, self.dir, self.tmp = crate, f"{HERE}/{crate}", tmp
        self.cfg = HOOKED.get(crate, "")
        self.followed = True
        if entries and crate == "harness":
            self.cfg = " ".join(["--cfg pick", *(f"--cfg {e}" for e in sorted(set(entries)))])
        self.ir_dir, self.nat_dir = f"{tmp}/{crate}-ir", f"{tmp}/{crate}-nat"

    def ir(self):
        r = run(["cargo", "build", "--offline", "--lib", "--profile", "symx"], cwd=self.dir, env=env(
            CARGO_TARGET_DIR=self.ir_dir,
            # generic functions of alloc and core must be compiled here, not linked from std's own objects
            RUSTC_BOOTSTRAP="1",
            RUSTFLAGS="-Zshare-generics=no --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp " + self.cfg))
        if r.returncode != 0:
            die(f"{self.crate} does not compile:\n" + r.stderr[-3000:])
        d = f"{self.ir_dir}/symx/deps"
        ll = [f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith(".ll")]
        if self.crate in POINTS:
            # atomic operations that the native build does not stop at
            rmw = re.compile(r"\batomicrmw (volatile )?(u?max|u?min|f\w+|u\w+_\w+) ")
            self.followed = not any(rmw.search(open(f).read()) for f in ll)
        # everything but the IR is of no further use
        return [x for f in ll for x in ("--ll", f)]

    def native(self):
        e = env(CARGO_TARGET_DIR=self.nat_dir, RUSTFLAGS=self.cfg)
        if self.crate in POINTS:
            o = f"{self.nat_dir}-points.o"
            r = run(["gcc", "-O1", "-w", "-c", "points.c", "-o", o], cwd=self.dir)
            if r.returncode != 0:
                die("points.c does not compile:\n" + r.stderr[-3000:])
            e["RUSTC_BOOTSTRAP"] = "1"
            e["RUSTFLAGS"] += f" -Zsanitizer=thread -Zexternal-clangrt -C unsafe-allow-abi-mismatch=sanitizer -C link-arg={o}"
        r = run(["cargo", "build", "--offline", "--features", "native", "--bin", "replay", "--profile", "symx",
                 "--target", "x86_64-unknown-linux-gnu"], cwd=self.dir, env=e)
        if r.returncode != 0:
            die(f"{self.crate} replay does not compile:\n" + r.stderr[-3000:])
        return f"{self.nat_dir}/x86_64-unknown-linux-gnu/symx/replay"

    def miri(self, entry, inputs, seeds=None):
        flags = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
        if seeds:
            flags += f" -Zmiri-many-seeds=0..{seeds} -Zmiri-preemption-rate=0.1"
        return run(["cargo", "+nightly", "miri", "run", "--offline", "--features", "native", "--bin", "replay",
                    "--", entry], cwd=self.dir, timeout=400, env=env(
                        RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=f"{self.tmp}/{self.crate}-miri",
                        XDG_CACHE_HOME=f"{self.tmp}/miri-cache", MIRIFLAGS=flags, REPLAY_INPUTS=inputs,
                        RUSTFLAGS="-Znext-solver=coherence " + self.cfg))


def replay_text(params, inputs):
    return ";".join([f"P {k} {v}" for k, v in params.items()] + [f"{t} {b} {v}" for t, b, v in inputs])


def native_run(exe, entry, text, timeout=20):
    r = run([exe, entry], timeout=timeout, env=env(REPLAY_INPUTS=text))
    last = (r.stdout.strip().splitlines() or [""])[-1]
    return r, last


def reproduce(b, exe, h, v, text):
    """How the real code shows the violation, or None."""
    r, last = native_run(exe, h["entry"], text)
    if r.returncode == -99:
        return "does not terminate (20 s)" if v["kind"] == "hang" else None
    if last.startswith(("CHECK", "HEAP")):
        return last
    if last.startswith("PANIC"):
        return last if v["kind"] != "ub" or "unsafe precondition" in last else last
    if r.returncode < 0:
        return f"killed by signal {-r.returncode}: {r.stderr.strip()[-300:]}"
    if r.returncode in (12, 14) and b.followed:
        return None
    # under Miri, schedules and spurious failures are Miri's: many of them are tried
    spurious = any(t in (9000, 9001) for t, _, x in v["inputs"])
    if v["kind"] in ("ub", "check") or spurious:
        m = b.miri(h["entry"], text, 64 if spurious else None)
        out = m.stdout + m.stderr
        g = re.search(r"error: Undefined Behavior: (.*)\n *--> (.*)", out)
        if g and "bin/replay.rs" not in g.group(2):
            return "Miri: " + g.group(1)
        if m.returncode == -99:
            return None
        for l in out.splitlines():
            if l.startswith(("CHECK", "PANIC")) and spurious:
                return "Miri: " + l
        if os.environ.get("VERIF_DEBUG"):
            print(out[-3000:])
    return None


def demangle(names):
    r = run([FILT], input="\n".join(names) + "\n") if os.path.exists(FILT) else None
    return r.stdout.splitlines() if r and r.returncode == 0 else names


def replay(crate, entry, path):
    """Runs the natively compiled code on the inputs of a recorded counterexample."""
    tmp = tempfile.mkdtemp(prefix="symx-replay-")
    try:
        r, last = native_run(Build(crate, tmp, [entry]).native(), entry, open(path).read().replace("\n", ";"), 60)
        print(r.stdout + r.stderr)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(last != "OK")


def main():
    if sys.argv[1] == "--replay":
        replay(*sys.argv[2:5])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = spec.PROPS[pid]
    t0 = time.time()
    budget = 820 if tier == "quick" else 4 * 3600
    tmp = tempfile.mkdtemp(prefix=f"symx-{pid}-")
    try:
        code = decide(pid, p, tier, seed, t0, budget, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(pid, p, tier, seed, t0, budget, tmp):
    crates = sorted({h.get("crate", "harness") for h in p["harnesses"]})
    builds = {c: Build(c, tmp, [h["entry"] for h in p["harnesses"] if h.get("crate", "harness") == c]) for c in crates}
    with cf.ThreadPoolExecutor(6) as ex:
        fe = ex.submit(engine)
        fi = {c: ex.submit(builds[c].ir) for c in crates}
        fn = {c: ex.submit(builds[c].native) for c in crates}
        exe = fe.result()
        ll = {c: f.result() for c, f in fi.items()}
        nat = {c: f.result() for c, f in fn.items()}
    build_s = time.time() - t0

    runs, problems, found, validated, funcs, samples, shared = [], [], [], 0, set(), [], []
    for h in p["harnesses"]:
        if tier == "quick" and h.get("thorough_only"):
            continue
        c = h.get("crate", "harness")
        params = dict(h.get("params", {}))
        params.update(h.get(tier, {}))
        left = budget - (time.time() - t0) - 60
        out = f"{tmp}/{h['entry']}.json"
        cmd = [exe, *ll[c], "--entry", h["entry"], "--out", out, "--tmp", tmp, "--workers", "8",
               "--time", str(max(20, int(left))), "--witnesses", str(h.get("witnesses", 24)),
               "--max-steps", str(h.get("max_steps", 3_000_000))]
        if h.get("only"):
            cmd += ["--max-viol", "100"]
        for k, v in params.items():
            cmd += ["--param", f"{k}={v}"]
        r = run(cmd, timeout=max(60, left + 120))
        if r.returncode != 0 or not os.path.exists(out):
            problems.append(f"{h['entry']}: engine failed: {r.stderr[-800:]}")
            continue
        j = json.load(open(out))
        os.remove(out)
        name = f"{h['entry']}({','.join(f'{k}={v}' for k, v in sorted(params.items()))})"
        # harnesses shared with another property: its assertions are decided there
        other = [v for v in j["violations"] if "only" in h and v["kind"] not in h["only"]]
        if other:
            j["violations"] = [v for v in j["violations"] if v["kind"] in h["only"]]
            shared.append(f"{name}: {len(other)} kinds of paths end where another property fails")
        # violations
        for v in j["violations"]:
            text = replay_text(params, v["inputs"])
            how = reproduce(builds[c], nat[c], h, v, text)
            what = f"{v['kind']} {v['id']} {v['msg']}".strip()
            if how:
                found.append((h, params, v, text, how))
                break
            problems.append(f"{name}: counterexample not reproduced natively: {what} at {demangle(v['stack'].split(' < ')[:3])}")
        if not j["violations"] and not other:
            for k, n in j["gave_up"].items():
                problems.append(f"{name}: gave up {n}x: {k}")
            missing = [i for i in h.get("reach", []) if not j["reach"].get(str(i))]
            if missing:
                problems.append(f"{name}: never reached {missing} (vacuous)")
            if not j["paths"]:
                problems.append(f"{name}: no path completed")
        # conformance of engine and compiled code on sampled paths
        for w in j["witnesses"]:
            if not builds[c].followed or any(t == 9001 and x for t, _, x in w["inputs"]):
                continue  # the processor cannot be told to fail a compare-exchange
            text = replay_text(params, w["inputs"])
            r, last = native_run(nat[c], h["entry"], text)
            notes = [int(l.split()[1]) for l in r.stdout.splitlines() if l.startswith("NOTE ")]
            if last != "OK" or notes != w["notes"]:
                if not j["violations"] and not other:
                    if last.startswith(("CHECK", "PANIC", "HEAP")) or r.returncode < 0:
                        # the real code fails where the executor saw no failure
                        problems.append(f"{name}: native run of a passing path ended in {last or r.returncode}")
                    else:
                        problems.append(f"{name}: native run disagrees with the executor: {last} {notes} {w['notes']}")
                break
            validated += 1
        if j["witnesses"] and len(samples) < 3:
            w = j["witnesses"][-1]
            samples.append({"harness": name, "path_inputs": replay_text(params, w["inputs"]), "notes": w["notes"]})
        funcs.update(j["functions"])
        runs.append({"harness": name, "what": h.get("what", ""), **{k: j.get(k, 0) for k in (
            "seconds", "paths", "forks", "steps", "checks", "checks_symbolic", "memory_checks", "queries", "sat",
            "unsat", "unknown", "solver_s", "infeasible", "max_depth", "reach")}})
        if found and tier == "quick":
            break

    tot = lambda k: sum(r.get(k, 0) for r in runs)
    mine = sorted(f for f in demangle(sorted(funcs)) if "sparsey" in f)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"),
            "traces_validated_against_impl": validated, "samples": samples,
            "technique": "symbolic execution of the LLVM IR of /repo's current tree, Z3 deciding branches and assertions",
            "bounds": p["bounds"], "outside_bounds": p["outside"],
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "queries_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
            "assertions_checked": tot("checks"), "assertions_decided_by_solver": tot("checks_symbolic"),
            "memory_accesses_checked": tot("memory_checks"), "build_s": round(build_s, 1),
            "harnesses": runs, "functions_encoded": mine, "functions_encoded_total": len(funcs),
            "problems": problems, "shared": shared,
        },
        "assumptions": spec.ASSUMPTIONS + p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(found),
    }
    if not samples:
        ev["coverage"]["samples"] = [{"harness": r["harness"]} for r in runs] or [{"none": True}]
    os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)

    for r in runs:
        print(f"{r['harness']}: {r['paths']} paths, {r['queries']} queries, {r['seconds']} s")
    known = spec.known_findings()
    code = 0
    for h, params, v, text, how in found:
        key = f"property={pid} {h['entry']} {v['kind']} {v['id']}"
        if key in known:
            print(f"KNOWN-FINDING: {key}")
            continue
        path = f"{HERE}/evidence/replay/{pid}-{h['entry']}.txt"
        with open(path, "w") as f:
            f.write(f"# {how}\n# engine: {v['kind']} {v['id']} {v['msg']}\n")
            f.write(f"# replay: cd {HERE} && python3 check.py --replay {h.get('crate', 'harness')} {h['entry']} {path}\n")
            f.write("# stack:\n" + "".join(f"#   {x}\n" for x in demangle(v["stack"].split(" < "))))
            f.write(text.replace(";", "\n") + "\n")
        print(f"{h['entry']}: {v['kind']} {v['id']} {v['msg']}; reproduced on the compiled code: {how}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        code = 1
    if code == 0 and problems:
        print("NO-ANSWER:\n " + "\n ".join(problems), flush=True)
        return 2
    print(f"{pid}: {'held' if code == 0 else 'broken'}; {tot('paths')} paths, {tot('queries')} queries, "
          f"{validated} paths replayed natively, {time.time() - t0:.0f} s")
    return code


if __name__ == "__main__":
    main()
