"""Run the check of one property, or replay one recorded case.

    check.py PROPERTY [--tier quick|thorough] [--cfg 3.8]
    check.py --replay FILE
"""

import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

JOBS = 8
DEADLINE_S = {"quick": 780, "thorough": 4 * 3600}
PYTHON = "/opt/venv/bin/python"


def load_known():
    """known_findings.txt: lines "KNOWN property=ID cfg=CFG case=KEY what" and
    "fixed: ..." (which suppress nothing)."""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN "):
                parts = line.split(None, 4)
                fields = dict(p.split("=", 1) for p in parts[1:4])
                known.append((fields["property"], fields["cfg"], fields["case"],
                              parts[4] if len(parts) > 4 else ""))
    return known


def prop_index():
    from props import INDEX

    return INDEX


def worker_main(argv):
    prop_id, cfg, tier, shard, nshards, out, progress = argv
    from harness import Worker, cfg_parse

    mod = importlib.import_module("props." + prop_index()[prop_id])
    sys.setrecursionlimit(3000)
    out_fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    prog_fd = os.open(progress, os.O_WRONLY | os.O_CREAT)
    w = Worker(mod, cfg_parse(cfg), tier, int(shard), int(nshards), out_fd, prog_fd)
    w.run()
    sys.stdout.flush()
    os._exit(0)


def run_check(prop_id, tier, only_cfg=None, show=5, brief=False):
    from harness import cfg_name

    t0 = time.time()
    mod = importlib.import_module("props." + prop_index()[prop_id])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = []
    for cfg in mod.configs(tier):
        name = cfg_name(cfg)
        if only_cfg and name not in only_cfg.split(","):
            continue
        n = mod.shards(tier) if hasattr(mod, "shards") else 1
        for s in range(n):
            jobs.append((name, s, n))
    tmp = tempfile.mkdtemp(prefix="mc-")
    results, crashed = [], []
    try:
        env = dict(os.environ)
        env.update(PYTHONHASHSEED="0", LC_ALL="C.UTF-8",
                   PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
                   HOME=tmp, TMPDIR=tmp)
        env.pop("PYTHONPATH", None)
        env.pop("PYTHONSTARTUP", None)
        queue, running = list(jobs), {}
        limit = t0 + DEADLINE_S[tier]
        while queue or running:
            while queue and len(running) < JOBS:
                name, s, n = queue.pop(0)
                base = os.path.join(tmp, f"{name}-{s}")
                err = open(base + ".err", "w")
                wd = base + ".d"
                os.mkdir(wd)
                p = subprocess.Popen(
                    [PYTHON, os.path.join(HERE, "check.py"), "--worker", prop_id, name,
                     tier, str(s), str(n), base + ".json", base + ".progress"],
                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                    env=env, cwd=wd)
                err.close()
                running[p] = (name, s, base)
            time.sleep(0.02)
            for p in list(running):
                if p.poll() is None and time.time() < limit:
                    continue
                name, s, base = running.pop(p)
                late = p.poll() is None
                if late:
                    p.kill()
                    p.wait()
                try:
                    results.append(json.load(open(base + ".json")))
                    if late:
                        raise ValueError
                except Exception:
                    prog = open(base + ".progress").read().strip() if os.path.exists(
                        base + ".progress") else "(none)"
                    crashed.append((name, s, p.returncode, prog,
                                    open(base + ".err").read()[-1500:], late))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    known = [k for k in load_known() if k[0] == prop_id]
    hit, violations = {}, []
    for r in results:
        for f in r["failures"]:
            f["cfg"] = r["cfg"]
            for k in known:
                if k[1] in (r["cfg"], "*") and k[2] == f["key"]:
                    hit[k] = hit.get(k, 0) + 1
                    break
            else:
                violations.append(f)
    rc = 0
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop_id} cfg={k[1]} case={k[2]} {k[3]}")
    harness_errors = []
    for name, s, code, prog, err, late in crashed:
        if prog == "(none)":
            harness_errors.append((name, s, code, err))
        violations.append(
            {"cfg": name, "key": prog, "payload": None, "want": "an answer",
             "got": ("deadline passed" if late else f"worker ended with {code}")
             + ": " + err})
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop_id + "-"):
            os.unlink(os.path.join(rdir, old))
    violations.sort(key=lambda f: (len(json.dumps(f["payload"])), f["key"], f["cfg"]))
    if brief:
        keys = {}
        for f in violations:
            keys.setdefault(f["key"], []).append(f["cfg"])
        for k in keys:
            print("  ", k, " ".join(keys[k]))
        show = 0
    for n, f in enumerate(violations):
        h = hashlib.sha1(f"{f['cfg']} {f['key']}".encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop_id}-{h}.json")
        if n < 50:
            json.dump({"property": prop_id, "tier": tier, **f}, open(path, "w"), indent=1)
        if n < show:
            print(f"VIOLATION property={prop_id} replay={path}")
            print(f"  cfg={f['cfg']} case={f['key']}")
            if f["payload"]:
                print("  " + str(f["payload"] if not isinstance(f["payload"], dict)
                                 else f["payload"].get("src", f["payload"]))
                      .replace("\n", "\n  "))
            print(f"  want={str(f['want'])[:600]}")
            print(f"  got ={str(f['got'])[:600]}")
        rc = 1
    if len(violations) > show:
        print(f"... {len(violations)} violations in all")

    cases = sum(r["cases"] for r in results)
    distinct = set()
    for r in results:
        distinct.update(r["nontrivial"])
    counts = {}
    for r in results:
        for k, c in r["counts"].items():
            counts[k] = counts.get(k, 0) + c
    samples = []
    for r in results:
        samples.extend(r["samples"][:1])
    samples = samples[:6]
    per_cfg = {}
    for r in results:
        per_cfg[r["cfg"]] = per_cfg.get(r["cfg"], 0) + r["cases"]
    coverage = {
        "evaluations": cases,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "exhaustive": not any(r["truncated"] for r in results) and not crashed,
        "bounds": mod.BOUNDS,
        "cases_per_configuration": per_cfg,
        "samples": samples,
    }
    if mod.LEVEL == "model_checking":
        coverage["states"] = counts.pop("states", 0)
        coverage["transitions"] = counts.pop("transitions", 0)
        coverage["traces_validated_against_impl"] = counts.pop("traces", cases)
    coverage.update(counts)
    ev = {
        "property": prop_id, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": coverage, "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop_id + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if cases == 0 and not violations:
        print("nothing was explored")
        return 2
    print(f"{prop_id}: {cases} cases, {len(distinct)} distinct observations, "
          f"{len(per_cfg)} configurations, {ev['wall_s']} s, {len(violations)} violations")
    if harness_errors:
        print(f"harness error: {harness_errors[0]}")
    return rc


def replay(path):
    from harness import cfg_parse

    f = json.load(open(path))
    mod = importlib.import_module("props." + prop_index()[f["property"]])
    want, got = mod.run(cfg_parse(f["cfg"]), f["payload"])
    print(json.dumps({"cfg": f["cfg"], "case": f["key"], "want": want, "got": got},
                     indent=1, default=repr))
    if want != got:
        print(f"VIOLATION property={f['property']} replay={path}")
        return 1
    print("holds")
    return 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        return worker_main(sys.argv[2:])
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cfg")
    ap.add_argument("--show", type=int, default=5)
    ap.add_argument("--brief", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    return run_check(a.property, a.tier, a.cfg, a.show, a.brief)


if __name__ == "__main__":
    sys.exit(main())
