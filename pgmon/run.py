"""Command line: run the check of one property and decide."""
import sys, os, json, time, argparse, tempfile, shutil
from . import core


def load_known():
    """Known findings: lines `finding: property=<id> label=<substring> family=<name> ...`."""
    out = []
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf8"):
            l = l.strip()
            if l.startswith("finding:"):
                d = {}
                for part in l[len("finding:"):].split(";"):
                    if "=" in part:
                        k, v = part.split("=", 1)
                        d[k.strip()] = v.strip()
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--factor", type=float, default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("PGMON_JOBS") or "8"))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.prop
    t0 = time.time()
    try:
        core.load()
    except Exception as e:
        # the package does not even import: no property can be observed
        print("cannot load the library: %s: %s" % (type(e).__name__, e))
        return 2
    from . import props
    props.load(pid)
    if pid not in core.META:
        print("unknown property " + pid)
        return 2
    if a.family:
        core.FAMILIES[pid] = [f for f in core.FAMILIES[pid] if f["name"] == a.family]
    if a.replay:
        d = json.load(open(a.replay))
        fam = [f for f in core.FAMILIES[pid] if f["name"] == d["family"]][0]
        out = sys.stdout
        sys.stdout = core.Null()
        cx, status, failure = core.run_case(pid, fam, d["case"], d["seed"], purity=(pid in core.PURITY))
        sys.stdout = out
        print(json.dumps({"status": status, "failure": failure, "inputs": cx.inputs}, indent=1, default=str))
        return 1 if status == "fail" else 0

    tmp = tempfile.mkdtemp(prefix="pgmon")
    sys.stdout.flush()
    try:
        pids = []
        for s in range(a.jobs):
            pid_ = os.fork()
            if pid_ == 0:
                code = 3
                try:
                    core.run_shard(pid, a.tier, a.seed, s, a.jobs, os.path.join(tmp, "%d.json" % s), a.factor)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid_)
        bad = 0
        for p in pids:
            _, st = os.waitpid(p, 0)
            bad += st != 0
        if bad:
            print("INCONCLUSIVE property=%s: %d worker(s) died" % (pid, bad))
            return 2
        res = core.merge([json.load(open(os.path.join(tmp, "%d.json" % s))) for s in range(a.jobs)])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = [k for k in load_known() if k.get("property") == pid]
    order = {f["name"]: i for i, f in enumerate(core.FAMILIES[pid])}
    res["fails"].sort(key=lambda f: (order[f["family"]], f["case"]))
    viol, hit = [], {}
    for f in res["fails"]:
        k = next((k for k in known if k.get("family", f["family"]) == f["family"]
                  and k.get("label", "\0") in f["label"]), None)
        if k is None:
            viol.append(f)
        else:
            hit[k.get("what", "")] = hit.get(k.get("what", ""), 0) + 1
    missing = [e for e in core.META[pid]["require"] if not res["events"].get(e)]
    if not a.family:
        missing += [fam["name"] + ":" + c for fam in core.FAMILIES[pid] for c in fam["classes"]
                    if not res["classes"].get(fam["name"] + ":" + c)]
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": res["cases"] - res["skips"],
            "distinct_nontrivial": len(res["digests"]),
            "rule": "a case is one generated workload (seeded by the property, its family and its number) run against the "
                    "instrumented library; it is non-trivial when at least one oracle was evaluated on what was observed, "
                    "and distinct by the digest of the calls made to the library with their argument values. "
                    + core.META[pid]["rule"],
            "samples": res["samples"][:8],
            "generated_cases": res["cases"], "outside_domain_skipped": res["skips"],
            "oracle_evaluations": res["evals"],
            "oracle_evaluations_by_assertion": dict(sorted(res["labels"].items())),
            "observed_api_events": dict(sorted(res["events"].items())),
            "observed_outcome_classes": dict(sorted(res["classes"].items())),
            "families": {k: {"cases": v[0], "skipped": v[1], "oracle_evaluations": v[2]} for k, v in res["fam"].items()},
            "operand_snapshots_compared": res["purity"],
        },
        "assumptions": ["IEEE double arithmetic; tolerances stated in DESIGN.md",
                        "inputs in the domain of the property (ordinary scale, exactly degenerate or clearly not)"],
        "wall_s": round(wall, 3), "violations": len(viol),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (%d cases in this run)" % (pid, k.get("what"), hit.get(k.get("what"), 0)))
    if a.v:
        for f in viol[:20]:
            print(json.dumps(f, default=str)[:1500])
    if viol:
        f = viol[0]
        rp = os.path.join("evidence", "replay", "%s-%s-%d.json" % (pid, f["family"], f["case"]))
        with open(os.path.join(core.VERIF, rp), "w") as fh:
            json.dump(dict(f, property=pid, seed=a.seed, tier=a.tier), fh, indent=1, default=str)
        print("%s [%s #%d] %s" % (pid, f["family"], f["case"], f["label"]))
        print("  inputs: %s" % json.dumps(f["inputs"])[:1200])
        print("  observed: %s" % json.dumps(f["info"], default=str)[:1200])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if missing or res["evals"] == 0:
        print("INCONCLUSIVE property=%s: never observed %s" % (pid, ", ".join(missing) or "anything"))
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d oracle_evaluations=%d api_events=%d wall=%.1fs" % (
        pid, a.tier, a.seed, res["cases"] - res["skips"], len(res["digests"]), res["evals"],
        sum(res["events"].values()), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
