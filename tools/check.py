#!/usr/bin/env python3
"""check.py <property>: decides one property.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
anything else: the machinery failed.
"""
import concurrent.futures, json, os, random, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as builder
import mbt
import jobs

VERIF = builder.VERIF
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(seed)


def confirm(job, ctx, failure, binary, binding):
    """a failure counts only if a second, separate execution shows one at the same step"""
    path = failure.path[:failure.step + 1]
    fs, _ = mbt.replay(binary, [path], binding.get("prefix", ()), binding.get("env"), job.compare, procs=1)
    if fs:
        return fs[0]
    again = failure.path
    fs, _ = mbt.replay(binary, [again] * 3, binding.get("prefix", ()), binding.get("env"), job.compare, procs=1)
    return fs[0] if fs else None


def run_job(job, ctx, binary, g):
    """returns (coverage dict, list of confirmed failures with their binding)"""
    res = {"job": job.name, "spec": job.spec}
    t0 = time.time()
    rng = random.Random(ctx.seed * 7919 + hash_name(job.name))
    if isinstance(g, mbt.Graph):
        res.update(states=g.distinct or len(g.out), transitions=len(g.edges), generated=g.generated, tlc_wall_s=round(g.wall, 1), actions=dict(g.actions.most_common()))
        paths = mbt.edge_cover(g, rng, maxlen=job.maxlen)
        nw, lw = job.walks[1 if ctx.thorough else 0]
        if nw:
            paths += mbt.random_walks(g, rng, nw, lw)
        res["exhaustive"] = True
    else:
        paths = g
        res.update(states=0, transitions=sum(len(p) for p in paths), exhaustive=False)
    if job.transform:
        paths = [job.transform(p) for p in paths]
    res["paths"] = len(paths)
    fails = []
    steps = 0
    validated = 0
    for b in job.bindings(ctx):
        fs, st = mbt.replay(binary, paths, b.get("prefix", ()), b.get("env"), job.compare)
        steps += st["steps"]
        validated += st["paths"] - len([f for f in fs if f.kind == "mismatch"])
        mine = [f for f in fs if job.mine(ctx.prop, f)]
        res.setdefault("other_divergences", 0)
        res["other_divergences"] += len(fs) - len(mine)
        mine.sort(key=lambda f: f.step)
        for f in mine[:6]:
            c = confirm(job, ctx, f, binary, b)
            if c is not None and job.mine(ctx.prop, c):
                fails.append((job, b, c))
                break
        else:
            if mine:
                print(f"note: {len(mine)} unconfirmed divergence(s) in {job.name}: {json.dumps(mine[0].describe())[:600]}")
        if fails:
            break
    res.update(steps=steps, traces_validated=validated, wall_s=round(time.time() - t0, 1))
    if paths:
        s = max(paths[:50], key=len)
        res["sample"] = [dict(cmd=c, expected=o) for c, o in s[:12]]
    return res, fails


def hash_name(s):
    return int.from_bytes(s.encode()[-6:], "big") % 100003


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Context(prop, tier, seed)
    todo = [j for j in jobs.JOBS[prop] if ctx.thorough or not j.thorough_only]
    coverage, fails, known = [], [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        futures = [ex.submit(j.model, ctx) for j in todo]
        bins = builder.build(sorted({j.harness for j in todo}))
        models = [f.result() for f in futures]
    # no thread is left: the replays fork
    for j, g in zip(todo, models):
        if j.runner is not None:
            res, fs, kn = j.runner(j, ctx, bins[j.harness], g)
            known += kn
        else:
            res, fs = run_job(j, ctx, bins[j.harness], g)
        coverage.append(res)
        fails += fs
        if fs:
            break
    for k in jobs.KNOWN.get(prop, []):
        if k["harness"] not in bins:
            bins.update(builder.build([k["harness"]]))
        line = jobs.check_known(k, bins[k["harness"]], KNOWN)
        if line:
            known.append(line)
    violations = 0
    for job, b, f in fails:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{prop}-{job.name}-{violations}.json")
        with open(p, "w") as o:
            json.dump(dict(property=prop, job=job.name, harness=job.harness, binding={k: v for k, v in b.items()}, **f.describe()), o, indent=1)
        violations += 1
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  {job.name}: {f.kind} in {f.fields} at {json.dumps(f.path[f.step][0])[:400]}")
        if f.kind == "mismatch":
            for fl in f.fields[:4]:
                print(f"    {fl}: expected {json.dumps(f.expected.get(fl))[:300]} observed {json.dumps(f.got.get(fl) if isinstance(f.got, dict) else f.got)[:300]}")
        else:
            print("    " + f.detail[-300:].replace("\n", "\n    "))
    for k in known:
        print(k)
    cov = dict(states=sum(c.get("states", 0) for c in coverage), transitions=sum(c.get("transitions", 0) for c in coverage),
               traces_validated_against_impl=sum(c.get("traces_validated", 0) for c in coverage),
               evaluations=sum(c.get("steps", 0) for c in coverage),
               samples=[c.pop("sample", None) for c in coverage][:3], jobs=coverage)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2), violations=violations,
              assumptions=jobs.ASSUMPTIONS.get(prop, jobs.ASSUMPTIONS["*"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    print(f"{prop} [{tier}] states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} steps={cov['evaluations']} wall={ev['wall_s']}s" + (" VIOLATED" if violations else " held"))
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    try:
        main()
    except mbt.ModelError as e:
        print("MODEL ERROR:", e)
        sys.exit(2)
