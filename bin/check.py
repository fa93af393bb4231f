#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE

Seeded search with the deterministic simulator for violations of one property; minimises and replays
what it finds.  Exit 0: nothing found.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import PROPS

VERIF = B.VERIF
SCRATCH = None


def runner(prop):
    c = PROPS[prop]
    if c.get("python"):
        return ["python3", os.path.join(VERIF, c["python"])], "python", 0.0
    exe, h, dt = B.build(c["group"])
    return [exe], h, dt


def execute(cmd, plan_path, log=None, timeout=200):
    args = cmd + ["exec", plan_path] + (["--log", log] if log else [])
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return {"verdict": "inconclusive", "cls": "timeout", "msg": "", "hash": ""}
    lines = r.stdout.strip().splitlines()
    try:
        return json.loads(lines[-1])
    except (ValueError, IndexError):
        return {"verdict": "error", "cls": "no-verdict", "msg": r.stdout[-300:], "hash": ""}


class PlanFile:
    """The textual plan: header lines, operations, faults, schedule deviations."""

    def __init__(self, text):
        self.head, self.ops, self.faults, self.sw = [], [], [], []
        for l in text.splitlines():
            if l.startswith("op "):
                self.ops.append(l)
            elif l.startswith("fault "):
                self.faults.append(l)
            elif l.startswith("sw "):
                self.sw.append(l)
            elif l.strip() and not l.startswith("#"):
                self.head.append(l)

    def text(self, ops=None, faults=None, sw=None, head=None):
        g = lambda a, b: b if a is None else a
        return "\n".join(g(head, self.head) + g(ops, self.ops) + g(faults, self.faults) + g(sw, self.sw)) + "\n"


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(cmd, text, cls, seconds):
    p = PlanFile(text)
    deadline = time.time() + seconds
    tmp = os.path.join(SCRATCH, "min.plan")
    stats = {"tries": 0}

    def bad(t):
        stats["tries"] += 1
        open(tmp, "w").write(t)
        r = execute(cmd, tmp)
        return r["verdict"] == "violation" and r["cls"] == cls
    for rnd in range(3):
        before = (len(p.ops), len(p.faults), len(p.sw))
        if p.faults and bad(p.text(faults=[])):
            p.faults = []
        if p.sw and bad(p.text(sw=[])):
            p.sw = []
        p.ops = ddmin(p.ops, lambda c: bad(p.text(ops=c)), deadline)
        p.faults = ddmin(p.faults, lambda c: bad(p.text(faults=c)), deadline)
        p.sw = ddmin(p.sw, lambda c: bad(p.text(sw=c)), deadline)
        if (len(p.ops), len(p.faults), len(p.sw)) == before or time.time() > deadline:
            break
    return p.text(), stats["tries"]


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(path))["findings"]
    except OSError:
        return []


def known_match(known, prop, scenario, cls, msg):
    for k in known:
        if k.get("property") == prop and k.get("status") == "open" and k.get("scenario", scenario) == scenario \
                and k.get("cls", cls) == cls and re.search(k.get("match", ""), msg):
            return k
    return None


def parse_workers(out):
    tot, probes, runs_with, why, per, samples, distinct, fails, hashes = {}, {}, {}, {}, {}, [], set(), [], {}
    for f in sorted(os.listdir(out)):
        if not f.startswith("worker_"):
            continue
        for l in open(os.path.join(out, f), errors="replace"):
            w = l.rstrip("\n").split(" ")
            if w[0] == "T":
                tot[w[1]] = tot.get(w[1], 0) + int(w[2])
            elif w[0] == "P":
                n = " ".join(w[3:])
                probes[n] = probes.get(n, 0) + int(w[1])
                runs_with[n] = runs_with.get(n, 0) + int(w[2])
            elif w[0] == "I":
                why[w[2]] = why.get(w[2], 0) + int(w[1])
            elif w[0] == "C":
                per[w[2]] = per.get(w[2], 0) + int(w[1])
            elif w[0] == "S":
                samples.append((int(w[1]), " ".join(w[2:])))
            elif w[0] == "D":
                distinct.update(w[1:])
            elif w[0] == "H":
                hashes[int(w[1])] = (w[2], w[3])
            elif w[0] == "F":
                fails.append({"i": int(w[1]), "kind": w[2], "cls": w[3], "hash": w[4], "msg": " ".join(w[5:])})
    return tot, probes, runs_with, why, per, [s for _, s in sorted(samples)], distinct, sorted(fails, key=lambda x: x["i"]), hashes


def gen(cmd, prop, seed, seconds, out, workers=8, extra=()):
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(cmd + ["gen", "--property", prop, "--seed", str(seed), "--seconds", str(seconds), "--workers", str(workers),
                              "--out", out] + list(extra), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                       timeout=seconds + 400)
    if r.returncode != 0:
        raise RuntimeError("runner failed: " + r.stderr[-2000:])
    return parse_workers(out)


def main():
    global SCRATCH
    a = sys.argv[1:]
    SCRATCH = tempfile.mkdtemp(prefix="verif_")
    try:
        if a[:1] == ["--replay"]:
            return replay(a[1])
        prop = a[0]
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        return check(prop, tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def replay(path):
    text = open(path).read()
    prop = re.search(r"^# property (\S+)", text, re.M).group(1)
    cmd, _, _ = runner(prop)
    want = re.search(r"^# hash (\S+)", text, re.M)
    log = os.path.join(SCRATCH, "log")
    r = execute(cmd, os.path.abspath(path), log)
    try:
        sys.stdout.write(open(log, errors="replace").read())
    except OSError:
        pass
    print(json.dumps(r))
    if r["verdict"] == "violation":
        print("replay: %s%s" % (r["cls"], "" if not want else ", identical trace" if want.group(1) == r["hash"] else ", trace differs"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def check(prop, tier, seed):
    t0 = time.time()
    c = PROPS[prop]
    seconds = c["quick"] if tier == "quick" else c["thorough"]
    print("property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    cmd, h, dt = runner(prop)
    print("build: %s (%.1f s)" % (h, dt), flush=True)
    known = load_known()
    workers = c.get("workers", min(8, os.cpu_count() or 8))
    out = os.path.join(SCRATCH, "gen")
    ts = time.time()
    extra = (["--thorough"] if tier == "thorough" else [])
    tot, probes, runs_with, why, per, samples, distinct, fails, _ = gen(
        cmd, prop, seed, seconds, out, workers, extra + ["--max-failures", "60" if any(k["property"] == prop and k.get("status") == "open" for k in known) else "6"])
    search_s = time.time() - ts
    # determinism: the first runs again, spread differently over processes
    nd = c.get("determinism", 48)
    mism = []
    ha = gen(cmd, prop, seed, 60, os.path.join(SCRATCH, "da"), workers, extra + ["--max", str(nd), "--hashes", "--max-failures", "100000"])[8]
    hb = gen(cmd, prop, seed, 60, os.path.join(SCRATCH, "db"), 3, extra + ["--max", str(nd), "--hashes", "--max-failures", "100000"])[8]
    both = [i for i in ha if i in hb]
    mism = [i for i in both if ha[i] != hb[i]]
    if mism:
        print("warning: %d of %d repeated runs differ (%s)" % (len(mism), len(both), mism[:5]), flush=True)

    confirmed, unrep, harness, listed = [], [], [], {}
    for f in fails:
        if f["kind"] != "violation":
            harness.append(f)
            continue
        plan = os.path.join(out, "fail_%d.plan" % f["i"])
        text = open(plan).read()
        scen = re.search(r"^scenario (\S+)", text, re.M).group(1)
        k = known_match(known, prop, scen, f["cls"], f["msg"])
        if k:
            listed.setdefault(k["id"], [k, 0])[1] += 1
            continue
        r1 = execute(cmd, os.path.join(out, "fail_%d.seedplan" % f["i"]))
        r2 = execute(cmd, plan)
        if r1["verdict"] == "violation" and r2["verdict"] == "violation" and r2["cls"] == f["cls"]:
            confirmed.append((f, text, scen))
            if len(confirmed) >= 2:
                break
        else:
            f["replays"] = [r1, r2]
            unrep.append(f)
    for n in probes:
        if n.startswith("known:"):
            for k in known:
                if k["id"] == n[6:]:
                    listed.setdefault(k["id"], [k, 0])[1] += probes[n]
    for kid, (k, n) in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, k["what"], n), flush=True)
    for f in harness[:3]:
        print("harness error in run %d: %s" % (f["i"], f["msg"][:500]), flush=True)
    for f in unrep[:3]:
        print("not reproducible, ignored: run %d %s %s -> %s" % (f["i"], f["cls"], f["msg"][:300], f["replays"]), flush=True)

    violations = []
    for f, text, scen in confirmed[:1]:
        mt, tries = minimise(cmd, text, f["cls"], 60 if tier == "quick" else 180)
        tmp = os.path.join(SCRATCH, "final.plan")
        open(tmp, "w").write(mt)
        ra, rb = execute(cmd, tmp), execute(cmd, tmp)
        if not (ra["verdict"] == "violation" and ra == rb):
            mt = text
            open(tmp, "w").write(mt)
            ra, rb = execute(cmd, tmp), execute(cmd, tmp)
        k = known_match(known, prop, scen, ra["cls"], ra["msg"])
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        rp = os.path.join(VERIF, "out", "%s-seed%d-run%d.replay" % (prop, seed, f["i"]))
        with open(rp, "w") as o:
            o.write("# property %s\n# class %s\n# message %s\n# hash %s\n# replay with: python3 /verif/bin/check.py --replay %s\n" %
                    (prop, ra["cls"], ra["msg"].replace("\n", " "), ra["hash"], rp))
            o.write(mt)
        p0, p1 = PlanFile(text), PlanFile(mt)
        print("violation class %s: %s" % (ra["cls"], ra["msg"]))
        print("minimised: %d->%d operations, %d->%d faults, %d->%d schedule deviations (%d executions)" %
              (len(p0.ops), len(p1.ops), len(p0.faults), len(p1.faults), len(p0.sw), len(p1.sw), tries))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        violations.append(rp)

    runs = tot.get("runs", 0)
    fault_kinds = {n[6:]: probes[n] for n in sorted(probes) if n.startswith("fault:")}
    faulted = {n[6:]: runs_with[n] for n in sorted(runs_with) if n.startswith("fault:")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": "a case is one simulated run: VERIF_SEED and the run's index determine its operations, faults and every scheduling "
                    "decision; distinct ones have different hashes over the whole event log (operations and results, every task switch, "
                    "every fault fired). " + c.get("rule", ""),
            "samples": samples[:3],
            "runs_per_hour": int(runs / max(search_s, 0.001) * 3600),
            "seeds_per_hour": int(runs / max(search_s, 0.001) * 3600),
            "search_wall_s": round(search_s, 2),
            "simulated_time_s": round(tot.get("sim_us", 0) / 1e6, 3),
            "scheduling_points": tot.get("points", 0),
            "task_switches": tot.get("switches", 0),
            "inconclusive_runs": why,
            "faults_injected": fault_kinds,
            "runs_with_fault": faulted,
            "probes": {n: probes[n] for n in sorted(probes) if not n.startswith(("fault:", "known:"))},
            "scenarios": per,
            "determinism_repeats": len(both), "determinism_mismatches": len(mism),
            "unreproduced_reports": len(unrep), "harness_errors": len(harness),
            "known_findings_hit": {k: v[1] for k, v in listed.items()},
            "real_components": c.get("real", ""),
            "stubbed_components": c.get("stub", ""),
            "build": h,
        },
        "assumptions": c.get("assumptions", ["sampling: a clean batch is evidence, not proof"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    print("runs=%d distinct=%d simulated=%.1fs faults=%s inconclusive=%s wall=%.1fs" %
          (runs, len(distinct), tot.get("sim_us", 0) / 1e6, fault_kinds, why, time.time() - t0), flush=True)
    if violations:
        return 1
    if runs == 0 or tot.get("errors", 0) > 0.2 * runs:
        print("the check could not decide: %d runs, %d harness errors" % (runs, tot.get("errors", 0)))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
