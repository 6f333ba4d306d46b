"""Runs one property's check: shards cases over worker processes, merges what the
monitors observed, writes evidence, prints VIOLATION lines."""
import argparse
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) mech=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def load(prop):
    return importlib.import_module(f"vf.props.{prop.lower()}").suite


def trace_lines(prefix, out):
    """development aid (VF_COV=folder): the lines of fortuna that a worker executes"""
    import atexit
    m, hit = sys.monitoring, set()
    m.use_tool_id(m.COVERAGE_ID, "vf")

    def line(code, n):
        if code.co_filename.startswith(prefix):
            hit.add((code.co_filename, n))
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
    atexit.register(lambda: json.dump(sorted(hit), open(out, "w")))


def worker(args):
    if os.environ.get("VF_COV"):
        trace_lines("/repo/fortuna/", os.path.join(os.environ["VF_COV"], f"{args.prop}-{args.shard.split('/')[0]}.json"))
    # the code under test must come from /repo's working tree
    from vf import core

    suite = load(args.prop)
    import fortuna

    where = os.path.abspath(list(fortuna.__path__)[0])
    assert where == "/repo/fortuna", f"fortuna imported from {where}"
    k, n = map(int, args.shard.split("/"))
    deadline = args.deadline
    with open(args.out, "w") as f:
        maxn = max(s.n(args.tier) for s in suite.scenarios)
        for i in range(maxn):
            for j, s in enumerate(suite.scenarios):
                if i >= s.n(args.tier) or (i + j) % n != k:
                    continue
                if args.only and s.name != args.only:
                    continue
                if time.time() > deadline and i >= s.minimum:
                    continue
                t0 = time.time()
                r = core.run_case(suite, s, i, args.seed, args.tier)
                r["t"] = round(time.time() - t0, 3)
                f.write(core.dumps(r) + "\n")
                f.flush()
                if os.environ.get("VF_FAILFAST"):  # development aid: one violation ends the run
                    stop = os.path.join(os.path.dirname(args.out), "stop")
                    if r["violations"]:
                        open(stop, "w").close()
                    if os.path.exists(stop):
                        return 0
    return 0


def replay(args):
    from vf import core

    suite = load(args.prop)
    d = json.load(open(args.replay))
    r = core.run_case(suite, suite.get(d["scenario"]), d["i"], d["seed"], d["tier"])
    print(json.dumps(r, indent=1))
    if r["violations"]:
        print(f"VIOLATION property={args.prop} replay={args.replay}")
        return 1
    return 0 if not r["error"] else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VF_WORKERS", "6")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.replay:
        return replay(args)
    if args.shard:
        return worker(args)

    t0 = time.time()
    soft = float(os.environ.get("VF_BUDGET", "300" if args.tier == "quick" else "2700"))
    hard = 840.0 if args.tier == "quick" else 6000.0
    suite_env = dict(os.environ)
    procs = []
    with tempfile.TemporaryDirectory(prefix="vf_") as tmp:
        suite_env["VF_TMP"] = tmp
        suite_env["TMPDIR"] = tmp
        for k in range(args.workers):
            out = os.path.join(tmp, f"{k}.jsonl")
            cmd = [sys.executable, os.path.abspath(__file__), args.prop, "--tier", args.tier, "--seed",
                   str(args.seed), "--shard", f"{k}/{args.workers}", "--out", out,
                   "--deadline", str(t0 + soft)]
            if args.only:
                cmd += ["--only", args.only]
            log = open(os.path.join(tmp, f"{k}.log"), "w")
            procs.append((subprocess.Popen(cmd, cwd=tmp, env=suite_env, stdout=log, stderr=log), out, log.name))
        errors = []
        for p, out, log in procs:
            try:
                rc = p.wait(timeout=max(1.0, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            if rc != 0:
                errors.append(f"worker ended with {rc}: " + open(log, errors="replace").read()[-1500:])
        results = []
        for p, out, log in procs:
            if os.path.exists(out):
                for line in open(out):
                    try:
                        results.append(json.loads(line))
                    except json.JSONDecodeError:
                        pass
    suite = load_meta(args.prop)
    results.sort(key=lambda r: (r["scenario"], r["i"]))
    events, keys, per, nontrivial = Counter(), set(), Counter(), 0
    times = Counter()
    checks = 0
    for r in results:
        events.update(r["events"])
        checks += r["checks"]
        per[r["scenario"]] += 1
        times[r["scenario"]] += r.get("t", 0)
        if r["checks"]:
            keys.update(r["keys"])
        if r["error"]:
            errors.append(f"harness error in {r['scenario']}#{r['i']}:\n{r['error']}")
    if not args.only:
        for s in suite.scenarios:
            if per[s.name] < s.minimum:
                errors.append(f"scenario {s.name}: only {per[s.name]} cases ran (< {s.minimum})")
        for ev, m in suite.required.items():
            if events[ev] < m:
                errors.append(f"monitor not reached: event {ev!r} seen {events[ev]} times (< {m})")

    known = known_findings(args.prop)
    viol, known_seen = [], {}
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    seen_mech = Counter()
    for r in results:
        for v in r["violations"]:
            hit = next((w for m, w in known if m == v["mech"]), None)
            if hit is not None:
                known_seen[v["mech"]] = hit
                continue
            seen_mech[v["mech"]] += 1
            if seen_mech[v["mech"]] > (2 if args.v else 1):
                continue
            path = os.path.join(ROOT, "replays", f"{args.prop}-{r['scenario']}-{r['i']}-{args.seed}.json")
            json.dump(dict(property=args.prop, scenario=r["scenario"], i=r["i"], seed=args.seed, tier=args.tier,
                           notes=r["notes"], violation=v), open(path, "w"), indent=1)
            viol.append((path, r, v))

    samples = []
    seen = set()
    for r in results:
        if r["checks"] and r["scenario"] not in seen:
            seen.add(r["scenario"])
            samples.append(dict(scenario=r["scenario"], case=r["i"], notes=r["notes"], checks=r["checks"]))
    ev = dict(
        property=args.prop, tier=args.tier, seed=args.seed, level=suite.level,
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(keys), rule=suite.rule,
            samples=samples[:12], oracle_checks=checks,
            cases_per_scenario=dict(per), events={k: v for k, v in sorted(events.items())},
            seconds_per_scenario={k: round(v, 1) for k, v in times.items()},
        ),
        assumptions=suite.assumptions, wall_s=round(time.time() - t0, 2),
        violations=sum(seen_mech.values()),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{args.prop}.json"), "w"), indent=1)

    for m, w in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={args.prop} {w}")
    for path, r, v in viol:
        print(f"VIOLATION property={args.prop} replay={path}")
        print(f"  {r['scenario']}#{r['i']} [{v['mech']}] {v['msg']}")
        if args.v:
            print("   notes", json.dumps(r["notes"])[:500])
            print("   detail", json.dumps(v["detail"])[:700])
    print(f"{args.prop} {args.tier} seed={args.seed}: {len(results)} cases, {checks} oracle checks, "
          f"{len(keys)} distinct outcomes, {sum(seen_mech.values())} violations, {len(errors)} errors, "
          f"{time.time() - t0:.1f}s")
    if args.v:
        print(json.dumps(ev["coverage"]["seconds_per_scenario"]))
        print(json.dumps(dict(sorted(seen_mech.items())), indent=1))
    for e in errors[:5]:
        print("ERROR", e)
    if viol:
        return 1
    return 2 if errors else 0


def load_meta(prop):
    return load(prop)


if __name__ == "__main__":
    sys.exit(main())
