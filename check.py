#!/usr/bin/env python3
"""Runs one property's simulation check.

  check.py PROP quick|thorough      search, minimise, report, write evidence
  check.py replay FILE              reproduce a replay file exactly
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import build as builder  # noqa: E402
from budgets import BUDGETS, ASSUME, COMPONENTS, RULE  # noqa: E402

WORKERS = 8
KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """name -> text of the findings listed (not fixed) for a property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) name=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Sim:
    def __init__(self, prop):
        self.prop = prop
        self.flavour = BUDGETS[prop]["flavour"]
        self.exe = builder.build(self.flavour)
        self.env = dict(os.environ)
        self.env["SIM_KNOWN"] = ",".join(known_findings(prop))
        self.env["SIM_WALL"] = str(BUDGETS[prop].get("wall", 60))

    def spawn(self, args, **env):
        e = dict(self.env)
        e.update(env)
        return subprocess.Popen([self.exe] + args, stdout=subprocess.PIPE,
                                stderr=subprocess.DEVNULL, text=True, env=e,
                                errors="replace")

    def replay(self, seed, plan, extra=()):
        args = ["replay", self.prop, str(seed)]
        if plan.get("dropops"):
            args.append("dropops=" + ranges(plan["dropops"]))
        if plan.get("dropfaults"):
            args.append("dropfaults=" + ranges(plan["dropfaults"]))
        for k, v in sorted(plan.get("knobs", {}).items()):
            args.append("knob:%s=%d" % (k, v))
        tmp = None
        if plan.get("sched"):
            tmp = tempfile.NamedTemporaryFile("w", suffix=".sched")
            tmp.write(plan["sched"] + "\n")
            tmp.flush()
            args.append("sched=@" + tmp.name)
        args += extra
        out, _ = self.spawn(args).communicate()
        if tmp:
            tmp.close()
        res = {"status": 2, "hash": "", "cls": "", "msg": "", "nops": 0,
               "nfaults": 0, "knobs": {}, "out": out, "sched": ""}
        for line in out.splitlines():
            m = re.match(r"R (\d) (\S+) (\d+) (\d+) \[(.*?)\] ?(.*)", line)
            if m:
                res.update(status=int(m.group(1)), hash=m.group(2),
                           nops=int(m.group(3)), nfaults=int(m.group(4)),
                           cls=m.group(5), msg=m.group(6))
            elif line.startswith("KNOBS "):
                for kv in line[6:].split(","):
                    m = re.match(r"(\S+)=(-?\d+):(-?\d+)$", kv)
                    if m:
                        res["knobs"][m.group(1)] = (int(m.group(2)),
                                                    int(m.group(3)))
            elif line.startswith("SCHED "):
                res["sched"] = line[6:].strip()
        return res


def ranges(xs):
    xs = sorted(xs)
    out = []
    i = 0
    while i < len(xs):
        j = i
        while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
            j += 1
        out.append(str(xs[i]) if i == j else "%d-%d" % (xs[i], xs[j]))
        i = j + 1
    return ",".join(out)


def ddmin(n, test, deadline):
    """Smallest list of kept indices of range(n) for which test(kept)."""
    keep = list(range(n))
    chunk = max(1, n // 2)
    while chunk >= 1 and keep:
        i = 0
        changed = False
        while i < len(keep):
            if time.time() > deadline:
                return keep
            cand = keep[:i] + keep[i + chunk:]
            if test(cand):
                keep = cand
                changed = True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = chunk // 2 if chunk > 1 else (1 if changed else 0)
    return keep


def minimise(sim, seed, first, seconds):
    """Minimises faults, operations, knobs (and schedule) of a failing run."""
    deadline = time.time() + seconds
    cls = first["cls"]
    best = {"plan": {"dropops": [], "dropfaults": [], "knobs": {}},
            "res": first}

    def attempt(plan):
        r = sim.replay(seed, plan)
        if r["status"] == 1 and r["cls"] == cls:
            best["plan"], best["res"] = plan, r
            return True
        return False

    def without(field, n, kept):
        plan = dict(best["plan"])
        plan[field] = [i for i in range(n) if i not in set(kept)]
        return plan

    # a race needs no particular schedule
    if sim.flavour == "mt":
        attempt(dict(best["plan"], sched="-"))
    for _ in range(2):
        before = json.dumps(best["plan"], sort_keys=True)
        for field, count in (("dropfaults", "nfaults"), ("dropops", "nops")):
            n = best["res"][count]
            base = set(best["plan"][field])
            cand = [i for i in range(n) if i not in base]
            if cand:
                ddmin(len(cand), lambda kept: attempt(
                    without(field, n, [cand[k] for k in kept])), deadline)
        for name, (val, lo) in sorted(best["res"]["knobs"].items()):
            cur = best["plan"]["knobs"].get(name, val)
            while cur > lo and time.time() < deadline:
                for nxt in dict.fromkeys([lo, (lo + cur) // 2, cur - 1]):
                    plan = dict(best["plan"])
                    plan["knobs"] = dict(plan["knobs"])
                    plan["knobs"][name] = nxt
                    if nxt < cur and attempt(plan):
                        cur = nxt
                        break
                else:
                    break
        if sim.flavour == "mt" and not best["plan"].get("sched"):
            r = sim.replay(seed, best["plan"], ("recsched=1",))
            if r["sched"]:
                attempt(dict(best["plan"], sched=r["sched"]))
        if best["plan"].get("sched", "-") != "-":
            toks = best["plan"]["sched"].split(".")

            def keepsched(kept):
                plan = dict(best["plan"])
                plan["sched"] = ".".join(toks[k] for k in kept) or "-"
                return attempt(plan)
            ddmin(len(toks), keepsched, deadline)
        if json.dumps(best["plan"], sort_keys=True) == before or \
                time.time() > deadline:
            break
    return best


def search(sim, prop, b, tier, base):
    runs = b[tier]["runs"]
    secs = b[tier]["seconds"]
    per = (runs + WORKERS - 1) // WORKERS
    procs = [sim.spawn(["run", prop, str(base), str(w), str(WORKERS),
                        str(per), str(secs)]) for w in range(WORKERS)]
    outs = [None] * WORKERS

    def reader(i):
        outs[i] = procs[i].communicate()[0]
    ts = [threading.Thread(target=reader, args=(i,)) for i in range(WORKERS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    tot = {}
    counters = {}
    shapes = set()
    cov = 0
    hits = []
    hashes = {}
    bad = []
    for i, o in enumerate(outs):
        if not re.search(r"^S ", o or "", re.M):
            bad.append("worker %d ended without a summary" % i)
        for line in (o or "").splitlines():
            t = line.split(" ")
            if t[0] == "S":
                for kv in t[1:]:
                    k, v = kv.split("=")
                    tot[k] = tot.get(k, 0) + float(v) if k == "wall" \
                        else tot.get(k, 0) + int(v)
            elif t[0] == "C":
                c = counters.setdefault(t[1], [0, 0])
                c[0] += int(t[2])
                c[1] += int(t[3])
            elif t[0] == "D":
                shapes.add(t[1])
            elif t[0] == "B":
                cov |= int(t[1], 16)
            elif t[0] == "H":
                hashes[int(t[1])] = (int(t[2]), t[3])
            elif t[0] in "VX":
                m = re.match(r"([VX]) (\d+) (\d+) (\S+) \[(.*?)\] ?(.*)", line)
                if m:
                    hits.append({"kind": m.group(1), "idx": int(m.group(2)),
                                 "seed": int(m.group(3)),
                                 "hash": m.group(4), "cls": m.group(5),
                                 "msg": m.group(6)})
    hits.sort(key=lambda h: h["idx"])
    return tot, counters, shapes, bin(cov).count("1"), hits, hashes, bad


def run_check(prop, tier):
    t0 = time.time()
    if os.environ.get("VERIF_TIER") in ("quick", "thorough") and not tier:
        tier = os.environ["VERIF_TIER"]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    b = BUDGETS[prop]
    known = known_findings(prop)
    sim = Sim(prop)
    tb = time.time() - t0
    t1 = time.time()
    tot, counters, shapes, cov, hits, hashes, bad = search(
        sim, prop, b, tier, seed)
    twall = time.time() - t1
    # determinism: the same seeds again, in processes started afresh
    mismatch = []
    sample = sorted(hashes.items())[:: max(1, len(hashes) // 12)][:12]
    samples = []
    for idx, (sd, h) in sample:
        r = sim.replay(sd, {}, ["trace=1"] if len(samples) < 3 else [])
        if r["hash"] != h:
            mismatch.append(idx)
        if len(samples) < 3:
            samples.append({
                "seed": str(sd), "operations": r["nops"],
                "faults": r["nfaults"],
                "trace": [ln[:400] for ln in r["out"].splitlines()
                          if not ln.startswith(("R ", "KNOBS ", "SCHED "))
                          ][:25]})
    violations = []
    seen = set()
    harness = [h for h in hits if h["kind"] == "X"] + \
              [{"msg": m, "cls": "harness", "seed": 0} for m in bad]
    unrepro = []
    replays = os.path.join(VERIF, "replays")
    budget = time.time() + (90 if tier == "quick" else 200)
    for h in hits:
        if h["kind"] != "V" or h["cls"] in seen or len(violations) >= 3:
            continue
        extra = ["recsched=1"] if sim.flavour == "mt" else []
        r1 = sim.replay(h["seed"], {}, extra)
        r2 = sim.replay(h["seed"], {}, extra)
        if r1["status"] != 1 or r1["hash"] != r2["hash"] or \
                r1["hash"] != h["hash"]:
            unrepro.append(h)
            continue
        seen.add(h["cls"])
        left = budget - time.time()
        best = {"plan": {}, "res": r1} if left < 5 else \
            minimise(sim, h["seed"], r1, min(45, left))
        final = sim.replay(h["seed"], best["plan"], ["trace=1"])
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, "%s-%s-%d.json" % (
            prop, re.sub(r"\W+", "-", h["cls"]), h["seed"]))
        rec = {"property": prop, "seed": h["seed"], "plan": best["plan"],
               "expect": {"status": 1, "cls": final["cls"],
                          "hash": final["hash"], "msg": final["msg"]},
               "first": {"hash": h["hash"], "msg": h["msg"],
                         "operations": r1["nops"], "faults": r1["nfaults"]},
               "trace": [ln for ln in final["out"].splitlines()
                         if not ln.startswith(("R ", "KNOBS ", "SCHED "))],
               "how": "python3 check.py replay <this file>"}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        violations.append((h, final, path))
    for name, text in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for h, final, path in violations:
        print("%s: [%s] %s" % (prop, final["cls"], final["msg"]))
        for ln in json.load(open(path))["trace"][:40]:
            print("    " + ln[:300])
        print("VIOLATION property=%s replay=%s" % (
            prop, os.path.relpath(path, VERIF)))
    for h in unrepro[:3]:
        print("NOT REPRODUCIBLE (ignored): seed %s [%s] %s" % (
            h["seed"], h["cls"], h["msg"][:300]))
    for h in harness[:3]:
        print("HARNESS ERROR: seed %s %s" % (h["seed"], h["msg"][:400]))
    if mismatch:
        print("NONDETERMINISM: run indices %s differ between processes" %
              mismatch)
    nruns = tot.get("runs", 0)
    faults = {k[6:]: v[0] for k, v in sorted(counters.items())
              if k.startswith("fault.")}
    rest = {k: {"times": v[0], "runs": v[1]}
            for k, v in sorted(counters.items())
            if not k.startswith("fault.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": b["level"],
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": len(shapes),
            "rule": RULE[prop],
            "samples": samples,
            "simulated_runs": nruns,
            "runs_per_hour": int(nruns / max(twall, 1e-3) * 3600),
            "seeds_per_hour": int(nruns / max(twall, 1e-3) * 3600),
            "simulated_time": {
                "library_basic_blocks": tot.get("steps", 0),
                "simulated_clock_s": tot.get("simns", 0) * 1e-9},
            "observed_events": tot.get("events", 0),
            "operations": tot.get("ops", 0),
            "thread_switches": tot.get("switches", 0),
            "distinct_logs": tot.get("hashes", 0),
            "distinct_code_cells_reached_of_65536": cov,
            "faults_planned": tot.get("faults", 0),
            "faults_injected_by_kind": faults,
            "counters": rest,
            "components": COMPONENTS[sim.flavour],
            "determinism_recheck": {"seeds": len(sample),
                                    "mismatches": len(mismatch)},
            "not_reproducible": len(unrepro),
            "harness_errors": len(harness),
            "build_s": round(tb, 1), "search_s": round(twall, 1)},
        "assumptions": ASSUME[sim.flavour] + b.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d runs in %.1f s (build %.1f s), %d distinct shapes, "
          "%d faults injected, %d violations" % (
              prop, tier, nruns, twall, tb, len(shapes),
              sum(faults.values()), len(violations)))
    if violations:
        return 1
    if harness or nruns == 0:
        return 3
    return 0


def replay_file(path):
    rec = json.load(open(path))
    sim = Sim(rec["property"])
    r = sim.replay(rec["seed"], rec["plan"], ["trace=1"])
    print(r["out"], end="")
    same = r["hash"] == rec["expect"]["hash"] and r["status"] == 1
    print("replay: %s" % (
        "reproduced exactly" if same else
        "violation, but with another history" if r["status"] == 1 else
        "no violation on the current tree"))
    if r["status"] == 1:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1 if r["status"] == 1 else 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    if sys.argv[1] == "replay":
        sys.exit(replay_file(sys.argv[2]))
    sys.exit(run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2
                       else os.environ.get("VERIF_TIER", "quick")))
