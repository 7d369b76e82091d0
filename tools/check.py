#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--replay FILE] [--jobs N]: builds what the property's check needs from /repo and runs it.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not give an answer."""
import sys, os, json, subprocess, time, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, registry
VERIF = B.VERIF

def known(pid):
    r = []
    for line in open(VERIF + "/known_findings.txt"):
        if line.startswith(f"finding: property={pid} "):
            r.append(line.rstrip("\n").split(" ", 2)[2])
    return r

def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    jobs = sys.argv[sys.argv.index("--jobs") + 1] if "--jobs" in sys.argv else "8"
    c = registry.CHECKS[pid]
    t0 = time.time()
    tot = dict(evaluations=0, nontrivial=0, transitions=0, schedules=0, outcomes=0, states=0)
    groups, samples, hits, capped, violation, error = {}, [], {}, False, None, None
    for k, run in enumerate(c["runs"]):
        if run.get("thorough_only") and not thorough: continue
        exe = B.build(run["variant"], run["harness"], run.get("modules", B.MODS))
        os.makedirs(VERIF + "/build", exist_ok=True)
        work = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=VERIF + "/build")
        try:
            kf = work + "/known"
            open(kf, "w").write("".join(s + "\n" for s in known(pid)))
            env = dict(os.environ, MC_DIR=work, TZ="UTC", LC_ALL="C")
            env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=%d:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1:malloc_fill_byte=165:max_malloc_fill_size=100000:detect_odr_violation=0:symbolize=1" % (1 if run.get("leaks") else 0)
            env.update(run.get("env", {}))
            budget = run.get("thorough", 600) if thorough else run.get("quick", 60)
            cmd = [exe, "--jobs", jobs, "--budget", str(budget), "--out", work + "/out.json", "--known", kf] + run.get("args", [])
            if thorough: cmd.append("--thorough")
            if replay:
                meta = dict(l.rstrip("\n").split("=", 1) for l in open(replay) if "=" in l)
                if meta.get("run", "0") != str(k): continue
                if meta.get("tier") == "thorough" and "--thorough" not in cmd: cmd.append("--thorough")
                cmd += ["--replay", replay]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=work)
            if replay:
                print(r.stdout)
                sys.exit(r.returncode)
            try: o = json.load(open(work + "/out.json"))
            except Exception as e:
                error = f"no result from {run['harness']}: exit {r.returncode}: {r.stdout[-2000:]}"
                break
            for f in tot: tot[f] += o[f]
            name = f"{run['harness']} ({run['variant']})"
            for g, n in o["groups"].items(): groups[f"{name}: {g}"] = groups.get(f"{name}: {g}", 0) + n
            samples += [s for s in o["samples"] if s not in samples][:4]
            for s, n in o["known"].items(): hits[s] = hits.get(s, 0) + n
            capped = capped or o["capped"]
            if "error" in o: error = o["error"]; break
            if "violation" in o:
                violation = o["violation"]
                os.makedirs(VERIF + "/replays", exist_ok=True)
                path = f"{VERIF}/replays/{pid}-{run['harness']}-{run['variant']}.txt"
                open(path, "w").write(f"property={pid}\nrun={k}\ntier={'thorough' if thorough else 'quick'}\nchoices={violation['choices']}\n"
                    f"# {violation['signature']}\n" + "".join("# " + l + "\n" for l in violation["detail"].split("\n"))
                    + f"# replay: python3 tools/check.py {pid} --replay {path}\n")
                break
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if replay: sys.exit(2)
    wall = time.time() - t0
    cov = dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["nontrivial"], rule=c["rule"], samples=samples or ["none"],
               distinct_outcomes=tot["outcomes"], exhaustive=not capped, cases_by_group=groups)
    if tot["states"]: cov["states"] = tot["states"]
    if tot["transitions"]: cov["transitions"] = tot["transitions"]
    if tot["schedules"]: cov["schedules"] = tot["schedules"]
    if c["level"] == "model_checking":
        cov.setdefault("states", 0); cov.setdefault("transitions", 0)
        cov["traces_validated_against_impl"] = tot["schedules"] or tot["evaluations"]
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=c["level"],
              coverage=cov, assumptions=c.get("assumptions", []), wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    for s in sorted(hits): print(f"KNOWN-FINDING: property={pid} {s}")
    if violation:
        print(violation["signature"]); print(violation["detail"][:4000])
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if error:
        print("ERROR: " + error[:4000]); sys.exit(2)
    if tot["evaluations"] == 0:
        print("ERROR: nothing was explored"); sys.exit(2)
    print(f"{pid}: held on {tot['evaluations']} cases ({tot['nontrivial']} non-trivial, {tot['transitions']} steps, {tot['schedules']} schedules, {tot['outcomes']} outcomes), "
          f"{'complete' if not capped else 'time budget reached'}, {wall:.1f} s")

main()
