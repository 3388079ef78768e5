#!/usr/bin/env python3
"""Runs the check of one property: builds it from /repo's working tree, explores, confirms every violation by
replaying it alone, checks that sampled executions replay identically, and writes evidence/<id>.json.
usage: run_check.py ID [--tier quick|thorough]      exit 0: held; 1: VIOLATION line printed; 2: error of the check"""
import os, sys, json, subprocess, time, re, argparse, hashlib, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--all", action="store_true")
    a = ap.parse_args(); pid = a.id; thorough = a.tier == "thorough"; t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1")) # recorded only: nothing here is random
    C = CHECKS[pid]; rep = os.path.join(V, "evidence", "replays"); os.makedirs(rep, exist_ok=True)
    known = {}
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
    tot = dict(execs=0, decisions=0, evals=0, transitions=0, states=0, outcomes=0, probes=0, maxlen=0); parts, samples, viols, fatal, capped = [], [], [], [], False
    budget = 3 * 3600 if thorough else 700
    for p in C["parts"]:
        b = subprocess.run([sys.executable, os.path.join(V, "tools/build.py"), p["src"], p.get("variant", "plain")], stdout=subprocess.PIPE, text=True)
        if b.returncode: print("ERROR the check could not be built from /repo"); return 2
        exe = b.stdout.strip().splitlines()[-1]; out = exe + ".%s.%d.json" % (pid, os.getpid())
        pr = []
        for k, v in dict(p.get("params", {}), **(p.get("thorough" if thorough else "quick", {}))).items(): pr += ["--param", "%s=%s" % (k, v)]
        base = [exe] + (["--thorough"] if thorough else []) + pr + (["--cpu", str(p["cpu"])] if "cpu" in p else [])
        cmd = base + ["--out", out, "--time", str(max(30, int((budget - (time.time() - t0)) if not thorough else p.get("time", 3000))))]
        for k in known: cmd += ["--known", k]
        if a.all: cmd += ["--all"]
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try: d = json.load(open(out)); os.unlink(out)
        except Exception as e: print("ERROR no result from %s (exit %d): %s" % (exe, r.returncode, r.stdout[-500:])); return 2
        for k in tot: tot[k] = max(tot[k], d[k]) if k == "maxlen" else tot[k] + d[k]
        capped |= bool(d["timeup"]); parts.append(dict(harness=p["src"], build=p.get("variant", "plain"), params=dict(zip(*[iter(pr[1::2])] * 1)) if False else pr[1::2], executions=d["execs"], decisions=d["decisions"], oracle_evaluations=d["evals"], distinct_states=d["states"], distinct_outcomes=d["outcomes"], longest_decision_sequence=d["maxlen"], observation_copies=d["probes"], wall_s=d["wall"], completed=not d["timeup"], bounds=d["bounds"]))
        def replay(path, extra=[]):
            return subprocess.run(base + ["--replay", path] + extra, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
        for v in d["violations"]:
            x = replay(v["path"], ["--cpu", "240"] if v["key"] == "hang" else [])
            m = re.search(r"^FAILED (\S.*?): ", x.stdout, re.M)
            if not m or m.group(1) != v["key"]:
                y = replay(v["path"]); m = re.search(r"^FAILED (\S.*?): ", y.stdout, re.M); x = y
            if not m:
                if v["key"] == "hang": print("note: a slow execution completed when re-run alone with a longer limit; not a violation"); continue
                fatal.append("violation %s at path %s did not reproduce in isolation: %s" % (v["key"], v["path"], x.stdout[-300:])); continue
            f = os.path.join(rep, "%s-%s-%s.txt" % (pid, p["src"], re.sub(r"[^A-Za-z0-9]+", "-", v["key"])[:60] + "-" + hashlib.sha1(v["path"].encode()).hexdigest()[:6]))
            open(f, "w").write("property %s\nkey %s\n%s\nsteps: %s\nreplay with: %s\n\n%s" % (pid, v["key"], v["msg"], v["labels"], " ".join(base + ["--replay", v["path"]]), x.stdout))
            viols.append((v["key"], v["msg"], f, v["labels"]))
        if d["error"] and not viols: fatal.append("%s: %s" % (p["src"], d["errmsg"]))
        if not d["error"] and not d["violations"]:
            for s in d["samples"][: 4]:
                x = replay(s["path"]); y = replay(s["path"]); mx = re.search(r"^COMPLETED outcome=(\w+)", x.stdout, re.M); my = re.search(r"^COMPLETED outcome=(\w+)", y.stdout, re.M)
                if not mx or not my or mx.group(1) != s["outcome"] or my.group(1) != s["outcome"]: fatal.append("%s: execution %s does not replay identically: %s" % (p["src"], s["path"], x.stdout[-300:]))
                # what the daemon did, unnumbered in virtual time, must agree as well
                elif x.stdout != y.stdout: fatal.append("%s: execution %s replays with different observations" % (p["src"], s["path"]))
            samples += [dict(harness=p["src"], path=s["path"], steps=s["steps"][:1500]) for s in d["samples"][-5:]]
            if d["execs"] < p.get("min_execs", 2): fatal.append("%s explored only %d executions" % (p["src"], d["execs"]))
    if not samples: samples = [dict(harness=parts[-1]["harness"], note="stopped at a violation")] 
    nv = [v for v in viols if v[0] not in known]
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["execs"], samples=samples, evaluations=tot["execs"], distinct_nontrivial=tot["outcomes"],
               rule="every decision of the driver (which event happens, which answer the environment gives) is enumerated exhaustively within the bounds; an execution counts as distinct when what it made observable (learned model, requests, answers) differs from all others",
               exhaustive=not capped and not viols and not fatal, oracle_evaluations=tot["evals"], decisions=tot["decisions"], observation_copies=tot["probes"], longest_decision_sequence=tot["maxlen"], parts=parts)
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=C["level"], coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(nv),
              assumptions=["the virtual OS answers the daemon's libc calls as the kernel would (DESIGN.md)", "bounds as stated per part"] + C.get("assumptions", []) + (["time limit reached: the part marked completed=false was not explored completely"] if capped else []))
    tmp = os.path.join(V, "evidence", "." + pid + ".tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for k, msg, f, lab in nv: print("violated: %s: %s\n  steps: %s" % (k, msg[:600], lab[:600]))
    if nv: print("VIOLATION property=%s replay=%s" % (pid, nv[0][2])); return 1
    if fatal:
        for f in fatal: print("ERROR " + f)
        return 2
    print("%s: held on %d executions (%d distinct outcomes, %d states, %d oracle evaluations) in %.1f s%s" % (pid, tot["execs"], tot["outcomes"], tot["states"], tot["evals"], time.time() - t0, " [capped by time]" if capped else "")); return 0
sys.exit(main())
