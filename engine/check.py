#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import hashlib, json, os, random, resource, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from checks import CHECKS
from pool import Pool, Job

ROOT = build.ROOT


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(exe, path, timeout=20):
    """runs a case natively: (kind, text); kind ok / check / panic / diverge / assume / other"""
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout,
                           preexec_fn=limits, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        return "diverge", "no result after %d s" % timeout
    t = r.stdout
    lines = [l for l in t.split("\n") if l.startswith("REPLAY-")]
    last = "\n".join(t[t.index(lines[0]):].split("\n")[:6]) if lines else ""
    if "REPLAY-PANIC vx:" in t or "panicked at src/vx.rs" in t or "panicked at src/nested.rs" in t:
        return "other", last
    if r.returncode == 0 and "REPLAY-OK" in t:
        return "ok", ""
    if r.returncode == 1 and "REPLAY-CHECK-FAILED" in t:
        return "check", last
    if r.returncode == 3:
        return "assume", last
    if r.returncode == 4 and "REPLAY-UNREAL" in t:
        return "unreal", last
    if r.returncode == 2 and "REPLAY-PANIC" in t:
        return "panic", last
    if r.returncode < 0 or "memory allocation" in t:
        return "diverge", "killed by signal %d (memory or stack exhausted)" % -r.returncode
    return "other", last or t[-500:]


def key_of(o):
    if o["what"] == "check":
        return ("check", o["msg"])
    return (o["what"], o.get("where") or o["msg"])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    try:
        b = build.prepare()
    except RuntimeError as e:
        print("ERROR: %s" % e)
        return 2
    built = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    outdir = os.path.join(ROOT, "evidence", prop + "-cases")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    pool = Pool(b, log=os.path.join(build.BUILD, "mirsrv.log"))
    jobs = []
    confs = {}
    for it in spec["jobs"](tier, pool.entries):
        entry, conf = it
        jobs.append(Job(len(jobs), entry, conf))
    if not jobs:
        print("ERROR: no entries for %s" % prop)
        return 2
    budget = spec.get("time", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    last = [time.time()]

    def progress(js):
        if os.environ.get("JLX_PROGRESS") and time.time() - last[0] > 5:
            last[0] = time.time()
            print("  .. %.0fs paths %d, open %d, jobs open %d: %s" % (
                time.time() - t0, sum((j.stats or {}).get("paths", 0) for j in js), sum(len(j.work) for j in js),
                sum(1 for j in js if not j.done()), [j.entry for j in js if not j.done()][:4]), file=sys.stderr)
    pool.run(jobs, deadline=t0 + budget, progress=progress)
    pool.close()
    # totals
    tot = {}
    from pool import merge_stats
    for j in jobs:
        if j.stats:
            tot = merge_stats(tot or None, j.stats)
    errs, viols, known = [], [], []
    kf = load_known(prop)
    ncase = 0
    nrep = 0
    for j in jobs:
        for e in j.errs[:2]:
            errs.append("%s %s: %s" % (j.entry, json.dumps(j.conf), e))
        if j.err:
            errs.append("%s: %s" % (j.entry, j.err))
        if j.truncated:
            errs.append("%s %s: not finished within the time limit" % (j.entry, json.dumps(j.conf)))
        seen, tries, ghosts = {}, {}, {}
        for o in j.outs:
            k = key_of(o) if o["kind"] == "violation" else ("error", o["msg"])
            if o["kind"] == "error" or "$unsupported" in o.get("inputs", {}):
                errs.append("%s: %s %s" % (j.entry, o["msg"], o.get("inputs")))
                continue
            if seen.get(k, 0) >= 3:
                continue
            seen[k] = seen.get(k, 0) + 1
            ncase += 1
            path = os.path.join(outdir, "case%03d.json" % ncase)
            json.dump({"property": prop, "entry": j.entry, "conf": j.conf, "what": o["what"], "msg": o["msg"],
                       "where": o.get("where"), "stack": o.get("stack"), "inputs": o["inputs"], "prefix": o["prefix"]},
                      open(path, "w"), ensure_ascii=False, indent=1)
            kind, text = replay(b["replay"], path)
            nrep += 1
            if kind in ("check", "panic", "diverge"):
                f = match_known(kf, j.entry, kind, o, text)
                (known if f else viols).append((prop, path, j.entry, o, kind, text, f))
            elif kind == "unreal" and tries.get(k, 0) < 30:
                # an abstract nested result no element was found for: look at the next case of the kind
                tries[k] = tries.get(k, 0) + 1
                seen[k] -= 1
                ghosts.setdefault(k, "%s: counterexample not realised natively (%s): %s" % (j.entry, text, path))
            else:
                errs.append("%s: counterexample does not reproduce natively (%s %s): %s" % (j.entry, kind, text, path))
        errs += [m for k, m in ghosts.items() if not seen.get(k)]
    # witnesses: models of completed paths, run against the real build
    rng = random.Random(seed)
    wit = [(j, s) for j in jobs for s in j.samples if "$unsupported" not in s]
    rng.shuffle(wit)
    want = 60 if tier == "quick" else 400
    per = {}
    pick = []
    for j, s in wit:       # spread over entries
        if per.get(j.entry, 0) < max(1, want // max(1, len({x.entry for x in jobs}))):
            per[j.entry] = per.get(j.entry, 0) + 1
            pick.append((j, s))
    nwit = 0
    wpath = os.path.join(outdir, "witness.json")
    samples = []
    for j, s in pick[:max(want, 1)]:
        json.dump({"entry": j.entry, "inputs": s}, open(wpath, "w"), ensure_ascii=False)
        kind, text = replay(b["replay"], wpath)
        if kind == "unreal":
            continue
        if kind == "ok":
            nwit += 1
            if len(samples) < 5:
                samples.append({"entry": j.entry, "inputs": s})
        elif kind in ("check", "panic", "diverge"):
            o = {"what": kind, "msg": text, "inputs": s}
            f = match_known(kf, j.entry, kind, o, text)
            ncase += 1
            path = os.path.join(outdir, "case%03d.json" % ncase)
            json.dump({"property": prop, "entry": j.entry, "inputs": s, "what": kind, "msg": text, "by": "witness replay"},
                      open(path, "w"), ensure_ascii=False, indent=1)
            (known if f else viols).append((prop, path, j.entry, o, kind, text, f))
        else:
            errs.append("%s: witness of a completed path does not run natively (%s %s) %s" % (j.entry, kind, text, json.dumps(s, ensure_ascii=False)[:300]))
    if os.path.exists(wpath):
        os.unlink(wpath)
    # vacuity: every job must reach an assertion or complete a path
    dead = [j.entry for j in jobs if not j.errs and not (j.stats or {}).get("checks")]
    if dead and spec.get("reach", True):
        errs.append("no assertion reached in: %s" % ", ".join(sorted(set(dead))))
    fns = sorted(n for n in tot.get("fns", {}) if "japanese_law_xml_schema" in n)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "explanation": spec["explain"],
            "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
            "entries": len({j.entry for j in jobs}), "jobs": len(jobs),
            "states": tot.get("paths", 0), "transitions": tot.get("steps", 0),
            "solver_queries": tot.get("queries", 0), "assertions_decided": tot.get("checks", 0),
            "solver_s": round(tot.get("solver_s", 0), 3), "merged_branches": tot.get("merges", 0),
            "functions_encoded": fns,
            "library_functions_encoded": len(tot.get("fns", {})) - len(fns),
            "modelled_functions": sorted(tot.get("models", {})),
            "assertions_reached": tot.get("reach", {}),
            "traces_validated_against_impl": nwit, "counterexamples_replayed": nrep,
            "samples": samples or [{"entry": j.entry} for j in jobs[:1]],
            "exhaustive": not errs,
            "known_findings": sorted({x[6]["id"] for x in known}),
            "incomplete": errs[:20], "build_s": round(built, 1),
        },
        "assumptions": spec.get("assume", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), ensure_ascii=False, indent=1)
    print("%s %s: %d jobs, %d paths, %d MIR steps, %d assertions, %d solver queries (%.1f s), %d native witnesses, %.1f s" % (
        prop, tier, len(jobs), tot.get("paths", 0), tot.get("steps", 0), tot.get("checks", 0), tot.get("queries", 0),
        tot.get("solver_s", 0), nwit, time.time() - t0))
    for f in sorted({x[6]["id"] for x in known}):
        d = next(x for x in kf if x["id"] == f)
        print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    if viols:
        shown = set()
        for p, path, entry, o, kind, text, _ in viols:
            k = (entry, kind, o["msg"])
            if k in shown:
                continue
            shown.add(k)
            print("VIOLATION property=%s replay=%s" % (p, os.path.relpath(path, ROOT)))
            print("   %s: %s: %s" % (entry, kind, text.replace("\n", " | ")[:600]))
            if len(shown) >= 12:
                break
        return 1
    if errs:
        print("ERROR: undecided:")
        for e in errs[:12]:
            print("  " + e[:1800])
        return 2
    return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x["property"] == prop]


def match_known(kf, entry, kind, o, text):
    for x in kf:
        if x["entry"] != entry or x["kind"] != kind:
            continue
        if x.get("text") and x["text"] not in text:
            continue
        if x.get("inputs"):
            if not all(o["inputs"].get(k) == v for k, v in x["inputs"].items()):
                continue
        return x
    return None


if __name__ == "__main__":
    sys.exit(main())
