#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decide one property
   check.py --replay FILE                         run a recorded counterexample again
   check.py --setup                               check the tools
See DESIGN.md."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import build as B
from vlib import plan

EV = os.environ.get("VERIF_EVIDENCE", V + "/evidence")
NCPU = min(8, os.cpu_count() or 8)


def known_findings(prop):
    out = []
    try:
        for l in open(V + "/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=(\S.*?) -- (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return out


def parse_run(s):
    w = s.split()
    args, params, i = [], [], 2
    while i < len(w):
        if w[i].startswith("-"):
            args += w[i:i + 2]; i += 2
        else:
            params.append("-D" + w[i]); i += 1
    return w[0], w[1], args + params


def build_bins(names, scratch):
    b = B.Build(scratch)
    out = {}
    futs = {}
    for n in names:
        hs, cs = plan.BIN[n][:2]
        gs = [g for gr in plan.BIN[n][2:] for g in b.stubs(V + "/harness/" + gr)]
        f = list(b.engine()) + list(b.runtime())
        f += [b.harness(V + "/harness/" + h, "h" + n) for h in hs]
        f += b.cut([V + "/harness/" + c for c in cs] + gs, "c" + n)
        futs[n] = f
    for n in names:
        out[n] = b.link(n, futs[n])
    return out


def explore(bins, run, budget, scratch, idx):
    b, sc, args = parse_run(run)
    rep = "%s/replay.%d" % (scratch, idx)
    js = "%s/out.%d" % (scratch, idx)
    t = time.time()
    p = subprocess.run([bins[b], sc] + args + ["--max-sec", str(budget), "--out", js, "--replay-out", rep],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    j = None
    try:
        j = json.load(open(js))
    except Exception:
        pass
    if p.returncode not in (0, 1) or j is None:
        raise RuntimeError("explorer failed on '%s' (exit %d): %s" % (run, p.returncode, p.stdout[-2000:]))
    j["run"] = run
    j["replay_file"] = rep if p.returncode == 1 else None
    j["t"] = time.time() - t
    return j


def do_replay(f):
    head = open(f).read().splitlines()
    m = [l for l in head if l.startswith("# run: ")]
    scratch = tempfile.mkdtemp(prefix="gracht-mc-")
    try:
        if m and m[0].startswith("# run: gen "):
            from vlib import gen
            print("\n".join(head[:60]))
            g = gen.replay(m[0][7:], scratch)
            print("again: " + (g["violations"][0]["what"] if g["violations"] else "no violation"))
            return 1 if g["violations"] else 0
        if m:
            b = parse_run(m[0][7:])[0]
            bins = build_bins([b], scratch)
            p = subprocess.run([bins[b], "--replay", os.path.abspath(f)])
            return p.returncode
        print("not a replay file of the explorer; it describes the failing case itself:\n" + "\n".join(head[:60]))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--times", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.setup:
        for t in ("clang", "objcopy", "ld", "python3"):
            if not shutil.which(t):
                print("missing tool: " + t); return 2
        print("tools present; every check builds what it needs"); return 0
    if a.replay:
        return do_replay(a.replay)
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = plan.P[prop]
    runs = list(spec.get("Q", [])) + (list(spec.get("T", [])) if a.tier == "thorough" else [])
    if a.only:
        runs = [r for r in runs if a.only in r]
    budget = 240 if a.tier == "quick" else 3600
    scratch = tempfile.mkdtemp(prefix="gracht-mc-")
    os.makedirs(EV, exist_ok=True)
    results, errors, gens = [], [], []
    try:
        try:
            bins = build_bins(sorted(set(r.split()[0] for r in runs)), scratch) if runs else {}
        except B.BuildError as e:
            print("cannot build the code under test:\n%s" % e); return 3
        with ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(explore, bins, r, budget, scratch, i) for i, r in enumerate(runs)]
            for f in as_completed(fs):
                try:
                    results.append(f.result())
                except Exception as e:
                    errors.append(str(e))
        if spec.get("gen") and not a.only:
            from vlib import gen
            gens = gen.decide(prop, spec["gen"], a.tier, scratch)
        results.sort(key=lambda j: runs.index(j["run"]))
        kf = known_findings(prop)
        nviol = 0
        os.makedirs(EV + "/replay", exist_ok=True)
        seen_known = set()
        allv = [(j["run"], j["scenario"], j["violation"], j["replay_file"]) for j in results if j["violation"]]
        allv += [(g["run"], g["scenario"], v["what"], v["file"]) for g in gens for v in g["violations"]]
        for run, sc, what, rep in allv:
            hit = [k for k in kf if k[0] == sc and k[1].search(what)]
            if hit:
                if hit[0][2] not in seen_known:
                    seen_known.add(hit[0][2]); print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
                continue
            nviol += 1
            dst = "%s/replay/%s-%d.txt" % (EV, prop, nviol)
            with open(dst, "w") as o:
                o.write("# run: %s\n" % run)
                if rep and os.path.exists(rep):
                    o.write(open(rep).read())
                else:
                    o.write("# %s\n" % what)
            print("violated in '%s': %s" % (run, what))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        if a.times:
            for j in sorted(results, key=lambda j: -j["t"]):
                print("%7.2fs %9d execs %9d states %s %s" % (j["t"], j["executions"], j["states"], "CAPPED" if j["capped"] else "", j["run"]))
            for g in gens:
                print("%7.2fs %9d execs %9d states %s" % (g["t"], g["executions"], g["states"], g["run"]))
        S = lambda k: sum(j[k] for j in results) + sum(g[k] for g in gens)
        counters = {}
        for j in results:
            for k, v in j["counters"].items():
                counters[k] = counters.get(k, 0) + v
        samples = []
        for j in results:
            if j["samples"] and len(samples) < 6:
                samples.append({"run": j["run"], "trace": j["samples"][-1][:3000]})
        for g in gens:
            samples += g["samples"][:4]
        ev = {
            "property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": S("states"), "transitions": S("transitions"),
                "traces_validated_against_impl": S("completed_executions"),
                "executions": S("executions"), "executions_pruned_as_equivalent": S("pruned"), "distinct_outcomes": S("outcomes"),
                "exhaustive": not any(j["capped"] for j in results) and not errors,
                "runs": [{"run": j["run"], "executions": j["executions"], "states": j["states"], "transitions": j["transitions"], "outcomes": j["outcomes"],
                          "completed_preemption_bound": j["completed_preemption_bound"], "bounds": j["bounds"], "capped": j["capped"], "longest_execution_points": j["max_points"],
                          "racy_sites": j["racy_sites"], "wall_s": j["wall_s"]} for j in results]
                        + [{k: g[k] for k in g if k not in ("violations", "samples")} for g in gens],
                "counters": counters,
                "unreproducible": [j["unreproducible"] for j in results if j["unreproducible"]],
                "samples": samples or ["(no complete execution)"],
            },
            "assumptions": spec.get("assume", plan.ASSUME),
            "wall_s": round(time.time() - t0, 2), "violations": nviol,
        }
        with open("%s/%s.json" % (EV, prop), "w") as o:
            json.dump(ev, o, indent=1)
        for e in errors:
            print("error: " + e)
        print("%s %s: %d runs, %d executions, %d states, %d transitions, %d violation(s), %.1f s" % (prop, a.tier, len(runs) + len(gens), S("executions"), S("states"), S("transitions"), nviol, time.time() - t0))
        if nviol:
            return 1
        return 3 if errors else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
