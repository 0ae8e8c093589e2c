#!/usr/bin/env python3
"""Decide one property: build libhfst (and tools, where the property needs them)
from /repo's working tree, replay the known findings, search generated inputs for
a violation, write /verif/evidence/<id>.json.

  check.py C01            quick tier
  check.py C01 --thorough thorough tier
  check.py C01 --replay F re-run one replay file
  check.py --setup        build what every check needs
"""
import fcntl, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = VERIF + "/build"
PLAIN = BUILD + "/plain"

# multiples of the case counts in the harnesses that fill about half a minute
SCALE = {"C01": 8, "C02": 6, "C03": 6, "C04": 3, "C05": 5, "C06": 4, "C07": 4, "C08": 2, "C14": 6, "C15": 1, "C20": 8, "C21": 2}

def build(targets, flavour="plain"):
    d = f"{BUILD}/{flavour}"
    os.makedirs(d, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        subprocess.run([sys.executable, VERIF + "/tools/genninja.py", d, flavour], check=True)
        r = subprocess.run(["ninja", "-C", d] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            print("BUILD FAILED: no verdict")
            sys.exit(2)

def tools_for(pid):
    p = f"{VERIF}/harness/{pid.lower()}.tools"
    if not os.path.exists(p):
        return []
    return [f"{PLAIN}/bin/{t}" for t in open(p).read().split()]

def main():
    if sys.argv[1] == "--setup":
        t = [f"{PLAIN}/libhfst.so", "harness", "tools"]
        build(t)
        return 0
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    exe = f"{PLAIN}/h/{pid.lower()}"
    build([exe] + tools_for(pid))
    t_build = time.time() - t0
    env = dict(os.environ, VERIF_TOOLS=PLAIN + "/bin", VERIF_DIR=VERIF, LC_ALL="C.UTF-8",
               LSAN_OPTIONS="detect_leaks=0", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    if "--replay" in sys.argv:
        return subprocess.run([exe, "--replay", sys.argv[sys.argv.index("--replay") + 1]], env=env).returncode
    known = []
    kf = VERIF + "/known_findings.jsonl"
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                k = json.loads(line)
                if k["property"] == pid:
                    known.append(k)
    for k in known:
        r = subprocess.run([exe, "--replay", f"{VERIF}/{k['replay']}"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rdir = VERIF + "/evidence/replays"
    os.makedirs(rdir, exist_ok=True)
    js = f"{BUILD}/{pid}.json"
    if os.path.exists(js):
        os.unlink(js)
    cmd = [exe, "--json", js, "--replaydir", rdir, "--seed", str(seed), "--workers", str(min(8, os.cpu_count() or 8))]
    cmd += ["--scale", str(SCALE.get(pid, 1))]
    cmd += ["--thorough", "--cap", "3000"] if tier == "thorough" else ["--cap", "400"]
    r = subprocess.run(cmd, env=env)
    if r.returncode not in (0, 1) or not os.path.exists(js):
        print(f"harness ended with {r.returncode}")
        return 2
    j = json.load(open(js))
    cov = {
        "evaluations": j["evaluations"], "distinct_nontrivial": j["distinct_nontrivial"],
        "rule": "cases are drawn from seeded choice sequences (one PRNG stream per law and case index); non-trivial: " + j["rule"],
        "samples": j["samples"], "laws": j["laws"], "discard_reasons": j["discard_reasons"],
        "stopped_by_time_cap": j["capped"], "failures_not_reproduced": j["unreproduced"], "cases_over_cpu_limit_not_reproduced": j["slow"],
        "build_s": round(t_build, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the reference model in /verif/harness is right within its stated bounds"],
          "wall_s": round(time.time() - t0, 2), "violations": len(j["violations"])}
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {j['evaluations']} cases, {j['distinct_nontrivial']} distinct non-trivial, "
          f"{len(j['violations'])} violations, build {t_build:.0f}s, search {j['wall']:.0f}s")
    return 1 if j["violations"] else 0

if __name__ == "__main__":
    sys.exit(main())
