#!/usr/bin/env python3
"""check.py PROP [--thorough]: builds the simulator with /repo's current tree, runs the seeded campaign of one property,
writes evidence/PROP.json and reports.  Exit 0: held on everything explored.  Exit 1: VIOLATION line."""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import facts

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def known(prop):
    """known findings of this property: lines "known: property=ID category=CAT match=<fragment of the report> :: text" """
    out = []
    try: lines = open(f"{V}/KNOWN_FINDINGS.txt").read().splitlines()
    except FileNotFoundError: return out
    for l in lines:
        m = re.match(r"known: property=(\S+) category=(\S+) match=(.*?) :: (.*)", l)
        if m and m.group(1) == prop: out.append({"category": m.group(2), "what": m.group(3), "text": m.group(4)})
    return out

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(f"{V}/evidence", exist_ok=True); os.makedirs(f"{V}/replays", exist_ok=True)
    flav = facts.FLAVOURS.get(prop, [("plain", 1.0)])
    total = None; viol = None; secs = 0.0
    for fl, share in flav:
        b = sh([sys.executable, f"{V}/bin/build.py", fl])
        if b.returncode != 0:
            sys.stderr.write(b.stdout + b.stderr); print(f"cannot build the {fl} simulator"); return 3
        exe = b.stdout.split()[-1]
        runs, cap = facts.budget(prop, tier, fl, share)
        out = f"{V}/evidence/.{prop}.{fl}.json"
        c = sh([exe, "campaign", prop, "--seed", str(seed), "--runs", str(runs), "--cap", str(cap), "--tier", tier, "--out", out, "--replays", f"{V}/replays", "--jobs", str(min(8, os.cpu_count() or 8))])
        sys.stderr.write(c.stderr[-4000:])
        if c.returncode not in (0, 1) or not os.path.exists(out):
            print(f"the campaign of {prop} ended with status {c.returncode}"); return 3
        d = json.load(open(out)); os.unlink(out); d["flavour"] = fl; secs += d["wall_s"]
        for s in range(len(d["samples"])): d["samples"][s] = f"[{fl}] " + d["samples"][s]
        if total is None: total = d; total["flavours"] = {fl: d["runs"]}
        else:
            for k in ("runs", "requested", "nontrivial", "selftests", "selftest_failures", "states", "distinct_executions", "other_property_reports", "unreproducible"): total[k] += d[k]
            for k in ("counts", "faults", "others"):
                for n, x in d[k].items(): total[k][n] = total[k].get(n, 0) + x
            total["samples"] = total["samples"][:3] + d["samples"][:2]; total["flavours"][fl] = d["runs"]
        v = d["violation"]
        if v:
            # gate: the replay file has to fail in the same way in two fresh processes
            r = [sh([exe, "replay", v["replay"]]) for _ in range(2)]
            if all(x.returncode == 1 for x in r) and r[0].stdout == r[1].stdout: viol = dict(v, flavour=fl); break
            total["unreproducible"] += 1
            sys.stderr.write(f"not reproduced in a fresh process: {v['what']}\n")
    quiet = []
    if viol:
        for k in known(prop):
            if k["category"] == viol["category"] and k["what"] in viol["what"]: quiet.append(k)
    sim_s = total["counts"].pop("sim_us", 0) / 1e6
    hours = max(secs, 1e-9) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": facts.LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": int(total["runs"]), "distinct_nontrivial": int(total["distinct_executions"]),
            "rule": facts.RULE.get(prop, "") + " Distinct: by the hash of the execution (every simulated operation with its path, size and result, every fault, every scheduling decision, final output). One run = one seed.",
            "samples": total["samples"],
            "nontrivial_runs": int(total["nontrivial"]),
            "runs_per_hour": int(total["runs"] / hours), "seeds_per_hour": int(total["runs"] / hours),
            "campaign_seconds": round(secs, 2), "simulated_seconds": round(sim_s, 1),
            "faults_injected": {k: int(v) for k, v in sorted(total["faults"].items())},
            "observations": {k: int(v) for k, v in sorted(total["counts"].items())},
            "distinct_states": int(total["states"]), "state_measure": facts.STATES.get(prop, "hashes of abstract states recorded by the scenario"),
            "same_seed_twice": {"runs": int(total["selftests"]), "different": int(total["selftest_failures"])},
            "unreproducible_reports": int(total["unreproducible"]),
            "reports_about_other_properties": total["others"],
            "builds": total["flavours"],
            "real_components": facts.REAL + facts.REAL_MORE.get(prop, []), "simulated_components": facts.SIMULATED,
        },
        "assumptions": facts.ASSUME.get(prop, []) + facts.ASSUME_ALL,
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol and not quiet else 0,
    }
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {total['runs']} runs ({int(total['nontrivial'])} non-trivial, {int(total['distinct_executions'])} distinct) in {secs:.1f} s, {sum(total['faults'].values()):.0f} injected events, {int(total['selftest_failures'])} of {int(total['selftests'])} repeated seeds differ")
    for k in known(prop): print(f"KNOWN-FINDING: property={prop} {k['text']}")
    if viol and not quiet:
        print(f"{viol['category']}: {viol['what']}")
        print(f"VIOLATION property={prop} replay={viol['replay']}")
        return 1
    if total["unreproducible"]: print("a report could not be reproduced: no answer"); return 2
    return 0

sys.exit(main())
