"""check.py <property> quick|thorough : decide one property on /repo's working tree.

1. the driver of the property calls the real code and records every call with its arguments and results;
2. TLC validates each recorded session against the specification (spec/Trace.tla): every call is one step whose
   verdict is the set of clauses of the specification it breaks;
3. the design-level configurations of the property are model checked (and, for generated behaviours, replayed).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from harness import table, tlc  # noqa: E402

PY = "/opt/venv/bin/python"


def findings():
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) session=(\S+) clause=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def fail(msg):
    print("CHECK ERROR:", msg)
    sys.exit(2)


def environment(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", MPLCONFIGDIR=scratch, PYTHONPATH=VERIF)
    return env


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = table.PROPS[prop]
    run = os.path.join(VERIF, "run")
    os.makedirs(run, exist_ok=True)
    scratch = os.path.join(run, f"{prop}.{os.getpid()}")
    os.makedirs(scratch)
    try:
        return decide(prop, tier, seed, conf, run, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, conf, run, scratch, t0):
    tlc.build()
    traces = os.path.join(scratch, "traces.ndjson")
    env = environment(scratch)
    budget = 840

    # behaviours generated by the specification, to be replayed by the driver
    generated = 0
    for k, g in enumerate(conf.get("generate", [])):
        out = os.path.join(scratch, f"behaviours{k}.ndjson")
        num = g["num"][tier == "thorough"]
        r = tlc.run(g["module"], g["cfg"], scratch, env={"BEHAVIOURS": out}, workers=1, timeout=300,
                    args=["-simulate", f"num={num}", "-depth", str(g["depth"]), "-seed", str(seed)])
        if not os.path.exists(out) or "Error:" in r.out:
            print(r.out[-3000:])
            fail(f"no behaviours from {g['module']}")
        env[f"BEHAVIOURS{k}"] = out
        generated += sum(1 for _ in open(out))

    # in its own process group, output to a file: a crash or a hang of the code under test is a recorded outcome
    log = os.path.join(scratch, "driver.txt")
    with open(log, "w") as f:
        p = subprocess.Popen([PY, "-m", "harness.drive", prop, tier, str(seed), traces], cwd=VERIF, env=env,
                             stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(420 if tier == "quick" else 600)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = "timeout"
    text = open(log).read()
    if "Traceback" in text or rc != 0:
        print(text[-2000:])
    if rc not in (0, "timeout") and rc >= 0:
        fail("the driver did not run")
    sessions = []
    for line in open(traces) if os.path.exists(traces) else []:
        try:
            sessions.append(json.loads(line))
        except ValueError:                       # the last line of an interrupted driver
            pass
    if rc != 0:
        what = "no end of the calls" if rc == "timeout" else f"ended by signal {-rc}"
        sessions.append({"id": "driver", "ev": [{"op": "crash", "h": 0, "a": {"prop": prop, "what": what}, "r": {}}]})
        with open(traces, "w") as f:
            f.writelines(json.dumps(s, separators=(",", ":")) + "\n" for s in sessions)
    steps = sum(len(s["ev"]) for s in sessions)

    violations, known, other = [], [], Counter()
    states = transitions = 0
    design = []
    if sessions:
        res = tlc.run("Trace.tla", "Trace.cfg", scratch, env={"TRACES": traces},
                      timeout=max(60, budget - (time.time() - t0)))
        stuck = re.findall(r"(?m)^/\\ tr = (\d+)$", res.out)
        if not res.ok and stuck and "OutOfMemory" not in res.out and "StackOverflow" not in res.out and "Error:" in res.out:
            # a result on which the clauses cannot even be evaluated
            print(res.out[-4000:])
            violations.append((prop + ".result-without-a-verdict", int(stuck[-1]) - 1, 0))
        elif not res.ok:
            print(res.out[-4000:])
            fail("TLC did not finish the validation of the recorded sessions")
        elif res.distinct != steps + len(sessions):
            print(res.out[-2000:])
            fail(f"validated {res.distinct - len(sessions)} of {steps} recorded steps")
        states += res.distinct
        transitions += res.distinct - len(sessions)
        kf = findings()
        for m in re.finditer(r'<<\s*"NONCONFORMING",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', res.out, re.S):
            k, l = int(m.group(1)) - 1, int(m.group(2)) - 1
            for clause in re.findall(r'"([^"]*)"', m.group(3)):
                s = sessions[k]
                if not clause.startswith(prop + "."):
                    other[clause] += 1
                    continue
                hit = [f for f in kf if f[0] == prop and f[1] == s["id"] and f[2] == clause]
                if hit:
                    known.append((clause, s["id"], hit[0][3]))
                else:
                    violations.append((clause, k, l))

    # design level configurations
    for d in conf.get("design", []):
        if d.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        r = tlc.run(d["module"], d["cfg"], scratch, timeout=max(60, budget - (time.time() - t0)),
                    args=d.get("args", []),
                    # states with exact rationals stay in memory
                    jvm=["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if d.get("memory") else [])
        design.append({"config": d["cfg"], "states": r.states, "distinct": r.distinct, "wall_s": round(r.wall, 1)})
        states += r.distinct
        transitions += r.states
        # a variant of the model that is wrong: its invariant has to be violated
        if d.get("breaks") and f"Invariant {d['breaks']} is violated" in r.out: continue
        if not r.ok or d.get("breaks"):
            print(r.out[-4000:])
            fail(f"design level configuration {d['cfg']} does not hold")

    ops = Counter(e["op"] for s in sessions for e in s["ev"])
    refused = sum(1 for s in sessions for e in s["ev"] if e["r"].get("exc", "") not in ("", None))
    sample = []
    for s in sessions[:: max(1, len(sessions) // 5)][:5]:
        sample.append({"session": s["id"], "events": len(s["ev"]),
                       "first": json.dumps(s["ev"][0])[:400] if s["ev"] else ""})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "model_checking"),
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": len(sessions),
                       "calls_validated": steps, "calls_refused_by_the_code": refused,
                       "calls_by_operation": dict(ops), "generated_behaviours_replayed": generated,
                       "design_configurations": design,
                       "clauses_of_other_properties_seen_failing": dict(other), "samples": sample},
          "assumptions": conf.get("assumptions", []) + table.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for clause, sid, what in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {what} [{sid}, {clause}]")
    print(f"{prop} {tier}: {len(sessions)} sessions, {steps} calls validated, {states} states, "
          f"{len(violations)} violated clauses, {time.time() - t0:.1f} s")
    if violations:
        path = os.path.join(run, f"replay.{prop}.json")
        rep = []
        for clause, k, l in violations[:20]:
            s = sessions[k]
            rep.append({"clause": clause, "session": s["id"], "step": l + 1, "history": s["ev"][: l + 1][-60:]})
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier,
                       "replay": f"VERIF_SEED={seed} ./check {prop} {tier}", "violations": rep}, f)
        for (clause, sid), cnt in Counter((c, sessions[k]["id"]) for c, k, _ in violations).most_common(12):
            print(f"  violated: {clause} in session {sid} ({cnt}x)")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
