"""Entry point: python -m vk.main <PROPERTY> [--tier T] [--replay FILE] [--n-scale X]"""
import argparse
import collections
import glob
import importlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORK = 8


def load_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise SystemExit("no sub-check %r" % name)


def known_findings(prop):
    """Descriptions of the open findings of this property (lines 'open: property=<id> <what>')."""
    p = os.path.join(HERE, "known_findings.txt")
    pre = "open: property=%s " % prop
    if not os.path.exists(p):
        return []
    return [line[len(pre):].strip() for line in open(p) if line.startswith(pre)]


def worker(a):
    from vk import core

    mod = importlib.import_module("vk.props." + a.prop.lower())
    import pipit

    if not os.path.abspath(pipit.__file__).startswith(core.REPO + "/"):
        raise SystemExit("imported pipit from %s" % pipit.__file__)
    warmed = set()

    def warm(s):
        if s.warm is not None and s.warm not in warmed:
            warmed.add(s.warm)
            s.warm()

    # deadline is per worker: what does not fit is reported as not explored
    deadline = time.time() + a.budget
    res = dict(subs={}, violation=None, error=None, regress=0)
    if a.shard == 0:
        for f in sorted(glob.glob(os.path.join(HERE, "regress", a.prop, "*.json"))):
            d = json.load(open(f))
            s = load_sub(mod, d["sub"])
            res["regress"] += 1
            warm(s)
            try:
                core.run_case(s, d["case"])
            except core.Violation as e:
                res["violation"] = dict(sub=s.name, case=d["case"], message=str(e))
                break
            except core.CaseTimeout:
                res["violation"] = dict(sub=s.name, case=d["case"], message="did not finish")
                break
    for s in mod.SUBS:
        if res["violation"]:
            break
        total = s.quick if a.tier == "quick" else s.thorough
        total = max(1, int(total * a.scale))
        nw = min(a.nwork, s.workers or a.nwork)
        if a.shard >= nw:
            continue
        warm(s)
        n = total // nw + (1 if a.shard < total % nw else 0)
        t0 = time.time()
        st = core.run_sub(s, n, a.seed, a.shard, deadline)
        res["subs"][s.name] = dict(
            evaluations=st["evaluations"], hashes=sorted(st["hashes"]), samples=st["samples"],
            truncated=st["truncated"], wall=round(time.time() - t0, 2),
        )
        if st["violation"]:
            res["violation"] = dict(sub=s.name, case=st["violation"][0], message=st["violation"][1])
        if st["error"]:
            res["error"] = "%s: %s" % (s.name, st["error"])
            break
    res["labels"] = dict(core.LABELS)
    tmp = a.out + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.rename(tmp, a.out)
    sys.stdout.flush()
    os._exit(0)


def report_violation(prop, v):
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    import hashlib

    h = hashlib.sha1(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(HERE, "replay", "%s-%s-%s.json" % (prop, v["sub"], h))
    json.dump(dict(property=prop, sub=v["sub"], case=v["case"], message=v["message"]),
              open(path, "w"), indent=1, ensure_ascii=True)
    print("property %s, sub-check %s: %s" % (prop, v["sub"], v["message"]))
    s = json.dumps(v["case"], ensure_ascii=True)
    print("minimal case: %s" % (s if len(s) < 3000 else s[:3000] + "..."))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--nwork", type=int, default=NWORK)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.budget is None:
        a.budget = 420 if a.tier == "quick" else 3 * 3600
    if a.out:
        return worker(a)

    if a.replay:
        from vk import core

        mod = importlib.import_module("vk.props." + a.prop.lower())
        d = json.load(open(a.replay))
        s = load_sub(mod, d["sub"])
        if s.warm is not None:
            s.warm()
        try:
            core.run_case(s, d["case"])
        except core.Violation as e:
            print(str(e))
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("no violation on this case")
        return 0

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vkmain_")
    env = dict(os.environ, VK_SCRATCH=tmp)
    procs = []
    try:
        for k in range(a.nwork):
            out = os.path.join(tmp, "w%d.json" % k)
            log = open(os.path.join(tmp, "w%d.log" % k), "w")
            cmd = [sys.executable, "-m", "vk.main", a.prop, "--tier", a.tier, "--seed", str(a.seed),
                   "--scale", str(a.scale), "--nwork", str(a.nwork), "--shard", str(k),
                   "--out", out, "--budget", str(a.budget)]
            p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            procs.append((p, out, log.name))
        pending = list(procs)
        results, errors, violation = [], [], None
        while pending:
            time.sleep(0.05)
            for t in list(pending):
                p, out, log = t
                if p.poll() is None:
                    continue
                pending.remove(t)
                if os.path.exists(out):
                    r = json.load(open(out))
                    results.append(r)
                    if r["error"]:
                        errors.append(r["error"])
                    if r["violation"] and violation is None:
                        violation = r["violation"]
                else:
                    errors.append("worker died rc=%s\n%s" % (p.returncode, open(log).read()[-3000:]))
            if violation:
                break
    finally:
        for p, _, _ in procs:
            try:
                os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

    mod_rules = {}
    from vk import core  # noqa: F401

    mod = importlib.import_module("vk.props." + a.prop.lower())
    for s in mod.SUBS:
        mod_rules[s.name] = s.rule
    labels = collections.Counter()
    per = {}
    trunc = 0
    for r in results:
        labels.update(r.get("labels", {}))
        for name, x in r["subs"].items():
            d = per.setdefault(name, dict(evaluations=0, hashes=set(), samples=[], wall=0.0))
            d["evaluations"] += x["evaluations"]
            d["hashes"].update(x["hashes"])
            if len(d["samples"]) < 1:
                d["samples"] += x["samples"][:1]
            d["wall"] = max(d["wall"], x["wall"])
            trunc += x["truncated"]

    def clip(c):
        s = json.dumps(c, ensure_ascii=True)
        return c if len(s) < 1500 else s[:1500] + "..."

    kf = known_findings(a.prop)
    ev = dict(
        property=a.prop, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in per.values()),
            distinct_nontrivial=sum(len(d["hashes"]) for d in per.values()),
            rule="; ".join("%s: %s" % (n, r or "every case") for n, r in mod_rules.items()),
            samples=[dict(sub=n, case=clip(c)) for n, d in per.items() for c in d["samples"]],
            per_sub={n: dict(evaluations=d["evaluations"], distinct_nontrivial=len(d["hashes"]),
                             wall_s=d["wall"]) for n, d in per.items()},
            labels=dict(sorted(labels.items())),
            regression_cases=sum(r.get("regress", 0) for r in results),
            not_explored_for_time=trunc,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    if violation:
        report_violation(a.prop, violation)
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors))
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
        a.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
