#!/opt/venv/bin/python
"""Run one property's check.

  check.py C01                     quick or thorough run (VERIF_TIER), seed VERIF_SEED
  check.py C01 --replay FILE       re-run one saved failing case
  check.py --shard ...             internal: one worker process
Exit 0: held on everything explored; 1: VIOLATION line printed; 3: harness error.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vf import boot  # noqa: E402


def child_env(tmp):
    env = dict(os.environ)
    env.update(boot.THREAD_ENV)
    env["PYTHONPYCACHEPREFIX"] = os.path.join(tmp, "pyc")
    env["TMPDIR"] = tmp
    env["PATH"] = "/usr/local/bin:/usr/bin:/bin"
    env["HOME"] = tmp
    return env


def run_shard(args):
    boot.setup()
    import warnings

    warnings.simplefilter("ignore")
    from vf import core

    prop = core.load_prop(args.pid)
    t_end = time.time() + args.budget
    out = []
    for suite in prop.suites:
        if args.only and suite.name not in args.only.split(","):
            continue
        total = suite.thorough if args.tier == "thorough" else suite.quick
        n = total // args.nshards + (1 if args.index < total % args.nshards else 0)
        if n == 0:
            continue
        ff = os.path.join(args.out, "fail.%s.%d.json" % (suite.name, args.index))
        orig = suite.check
        skipped = [0]

        def check(case, ctx, orig=orig, skipped=skipped):
            if time.time() > t_end:
                skipped[0] += 1
                raise core.Discard("time-budget")
            return orig(case, ctx)

        suite.check = check
        t0 = time.time()
        st = core.run_suite_shard(prop, suite, n, args.seed, args.index, ff)
        suite.check = orig
        st["wall_s"] = time.time() - t0
        out.append(st)
        if st["violation"] or st["error"]:
            break
    with open(os.path.join(args.out, "stats.%d.json" % args.index), "w") as f:
        json.dump(out, f)
    return 0


def replay(pid, path):
    boot.setup()
    import warnings

    warnings.simplefilter("ignore")
    from vf import codec, core

    with open(path) as f:
        rec = json.load(f)
    prop = core.load_prop(pid)
    suite = next(s for s in prop.suites if s.name == rec["suite"])
    if rec.get("mode") == "shard":
        ff = path + ".rerun"
        st = core.run_suite_shard(prop, suite, rec["n_examples"], rec["seed"], rec["shard"], ff)
        if os.path.exists(ff):
            os.remove(ff)
        outcome, msg = ("violation", st["violation"]) if st["violation"] else ("ok", st["error"] or "")
    else:
        _, outcome, msg = core.run_case(suite, codec.dec(rec["case"]))
    print("replay outcome: %s %s" % (outcome, msg))
    if outcome == "violation":
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--shard", action="store_true")
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default="")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.budget is None:
        args.budget = 420.0 if args.tier == "quick" else 3300.0
    if args.shard:
        return run_shard(args)
    if args.replay:
        return replay(args.pid, args.replay)
    return drive(args)


def drive(args):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % args.pid)
    procs = []
    try:
        env = child_env(tmp)
        for i in range(args.nshards):
            log = open(os.path.join(tmp, "log.%d" % i), "w")
            cmd = [boot.PYTHON, os.path.join(VERIF, "check.py"), args.pid, "--shard",
                   "--index", str(i), "--nshards", str(args.nshards), "--out", tmp,
                   "--tier", args.tier, "--seed", str(args.seed), "--budget", str(args.budget)]
            if args.only:
                cmd += ["--only", args.only]
            procs.append(subprocess.Popen(cmd, cwd=tmp, env=env, stdout=log, stderr=log,
                                          stdin=subprocess.DEVNULL, start_new_session=True))
        first_fail = None
        finished_fail = None
        hard = t0 + args.budget + 120
        while True:
            alive = [p for p in procs if p.poll() is None]
            fails = [f for f in os.listdir(tmp) if f.startswith("fail.") and f.endswith(".json")]
            now = time.time()
            if fails and first_fail is None:
                first_fail = now
            if fails and finished_fail is None:
                done = {int(f.split(".")[-2]) for f in fails}
                if any(procs[i].poll() is not None for i in done):
                    finished_fail = now
            if not alive:
                break
            if (finished_fail and now - finished_fail > 5) or (first_fail and now - first_fail > 60):
                break
            if now > hard:
                break
            time.sleep(0.2)
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        return report(args, tmp, env, procs, t0)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def report(args, tmp, env, procs, t0):
    from vf import core  # light import: no numpy, no hypothesis

    fails = []
    for f in sorted(os.listdir(tmp)):
        if f.startswith("fail.") and f.endswith(".json"):
            with open(os.path.join(tmp, f)) as fh:
                txt = fh.read()
            fails.append((len(txt), f, json.loads(txt)))
    stats, missing, errors = [], [], []
    for i in range(len(procs)):
        p = os.path.join(tmp, "stats.%d.json" % i)
        if os.path.exists(p):
            with open(p) as f:
                stats.append(json.load(f))
        else:
            missing.append(i)
    for st in stats:
        for s in st:
            if s["error"]:
                errors.append("%s: %s" % (s["suite"], s["error"]))
    write_evidence(args, stats, len(fails), time.time() - t0)
    if fails:
        fails.sort(key=lambda x: x[0])
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for attempt, (_, name, rec) in enumerate(fails[:4]):
            path = os.path.join(rdir, "%s-%s-seed%d.json" % (args.pid, rec["suite"], args.seed))
            for mode in ("case", "shard"):
                rec["mode"] = mode
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
                r = subprocess.run([boot.PYTHON, os.path.join(VERIF, "check.py"), args.pid,
                                    "--replay", path], env=env, cwd=tmp, capture_output=True,
                                   text=True, timeout=300)
                if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                    print("suite %s (%s replay): %s" % (rec["suite"], mode, rec["message"]))
                    print("VIOLATION property=%s replay=%s" % (args.pid, path))
                    return 1
            print("not reproduced in a fresh process: %s\n%s\n%s" % (rec["message"], r.stdout, r.stderr))
        print("HARNESS-ERROR: recorded failure did not reproduce")
        return 3
    if errors or missing:
        for e in errors[:3]:
            print("HARNESS-ERROR:", e)
        for i in missing[:3]:
            with open(os.path.join(tmp, "log.%d" % i)) as f:
                print("HARNESS-ERROR: shard %d gave no result\n%s" % (i, f.read()[-4000:]))
        return 3
    for k in core.findings_for(args.pid):
        print("KNOWN-FINDING: property=%s %s" % (args.pid, k["what"]))
    ev = sum(s["evaluations"] for st in stats for s in st)
    print("%s: held on %d generated cases (%.1f s)" % (args.pid, ev, time.time() - t0))
    return 0


def write_evidence(args, stats, violations, wall):
    from vf import propinfo

    info = propinfo.INFO[args.pid]
    suites, samples, digests = {}, [], set()
    ev = 0
    for st in stats:
        for s in st:
            d = suites.setdefault(s["suite"], {"evaluations": 0, "discarded": 0, "distinct_nontrivial": 0,
                                               "assertions": 0, "classes": {}, "_d": set(), "cpu_s": 0.0})
            d["evaluations"] += s["evaluations"]
            d["discarded"] += s["discarded"]
            d["assertions"] += s["assertions"]
            d["cpu_s"] = round(d["cpu_s"] + s.get("wall_s", 0), 1)
            d["_d"].update(s["digests"])
            for k, v in s["events"].items():
                d["classes"][k] = d["classes"].get(k, 0) + v
            ev += s["evaluations"]
            have = sum(1 for x in samples if x["suite"] == s["suite"])
            samples.extend(s["samples"][: max(0, 2 - have)])
    for name, d in suites.items():
        d["distinct_nontrivial"] = len(d["_d"])
        digests.update(name + x for x in d.pop("_d"))
        d["classes"] = dict(sorted(d["classes"].items()))
    samples = [x if len(json.dumps(x)) < 6000 else {"suite": x["suite"], "case_text": json.dumps(x["case"])[:6000]}
               for x in samples]
    doc = {
        "property": args.pid, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(digests), "rule": info["rule"],
                     "samples": samples, "suites": suites},
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", args.pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    try:
        rc = main()
    except boot.HarnessError as e:
        print("HARNESS-ERROR:", e)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
