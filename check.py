#!/usr/bin/env python3
"""
Entry point of every check:  check.py <ID> [--tier quick|thorough]
                             check.py <ID> --replay FILE
                             check.py --setup

Copies the current working tree of /repo/aiootp into a scratch directory,
runs the scenarios of property <ID> there in unprivileged worker processes,
judges their reports, writes evidence/<ID>.json.

exit 0: held; exit 1: a `VIOLATION property=<ID> replay=<path>` line was
printed; exit 2: no verdict (broken environment, unreached monitor, watchdog).
"""
import argparse
import compileall
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VMON_REPO", "/repo"))
NOBODY = 65534
PYTHON = "/opt/venv/bin/python"
if not os.path.exists(PYTHON):
    PYTHON = sys.executable

sys.path.insert(0, str(VERIF))
from vmon import levels  # noqa: E402


def say(*a):
    print(*a, flush=True)


def ignore_tree(directory, names):
    drop = {n for n in names if n == "__pycache__"}
    if os.path.basename(directory) == "db":
        drop |= set(names)
    return drop


def build_scratch(nworkers):
    """One private copy of the package per worker, owned by the worker's user."""
    root = pathlib.Path(tempfile.mkdtemp(prefix="vmon-"))
    master = root / "master"
    shutil.copytree(REPO / "aiootp", master / "aiootp", ignore=ignore_tree)
    (master / "aiootp" / "db").mkdir(exist_ok=True)
    shutil.copytree(VERIF / "vmon", master / "vmon", ignore=ignore_tree)
    shutil.copy(VERIF / "vmon" / "child_site.py", master / "sitecustomize.py")
    compileall.compile_dir(
        str(master), quiet=2, force=True, workers=1,
        invalidation_mode=__import__("py_compile").PycInvalidationMode.UNCHECKED_HASH,
    )
    homes = []
    for i in range(nworkers):
        w = root / f"w{i}"
        shutil.copytree(master, w / "src", symlinks=True)
        (w / "tmp").mkdir()
        homes.append(w)
    if os.geteuid() == 0:
        for d, dirs, files in os.walk(root):
            os.chown(d, NOBODY, NOBODY)
            for f in files:
                os.chown(os.path.join(d, f), NOBODY, NOBODY)
    return root, homes


def demote():
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o077)


def wipe(root):
    if root is None or not str(root).startswith(tempfile.gettempdir() + "/vmon-"):
        return
    for d, dirs, files in os.walk(root):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(root, ignore_errors=True)


def spawn(home, prop, tier, seed, shard, nshards, only):
    env = {
        "PATH": "/usr/local/bin:/usr/bin:/bin",
        "LANG": "C.UTF-8",
        "HOME": str(home / "tmp"),
        "TMPDIR": str(home / "tmp"),
        "PYTHONPATH": str(home / "src"),
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONFAULTHANDLER": "1",
        "VMON_HOME": str(home),
        "VERIF_SEED": str(seed),
        "VERIF_TIER": tier,
    }
    cmd = [PYTHON, "-m", "vmon.worker", prop, tier, str(seed), str(shard), str(nshards),
           str(home / "report.json")]
    if only:
        cmd.append(json.dumps(only))
    log = open(home / "log.txt", "wb")
    return subprocess.Popen(
        cmd, cwd=home / "tmp", env=env, stdin=subprocess.DEVNULL, stdout=log,
        stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=demote,
    )


def known_keys(prop):
    """`known: property=<ID> key=<mechanism key> <text>` lines."""
    out = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--jobs", type=int, default=0)
    args = ap.parse_args()
    if args.setup:
        ok = compileall.compile_dir(str(VERIF / "vmon"), quiet=1, force=True)
        (VERIF / "evidence").mkdir(exist_ok=True)
        say("setup ok" if ok else "setup failed")
        return 0 if ok else 2
    prop, tier = args.prop, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if args.replay:
        only = json.loads(pathlib.Path(args.replay).read_text())
        seed, tier = only["seed"], only["tier"]
    started = time.monotonic()
    meta = levels.META.get(prop) or levels.m("", "", "")
    jobs = args.jobs or min(8, os.cpu_count() or 1, meta.get("jobs", 8))
    if only:
        jobs = 1
    limit = meta.get("limit", {}).get(tier, 780 if tier == "quick" else 3 * 3600)
    root, homes = build_scratch(jobs)
    procs = []
    try:
        for i, home in enumerate(homes):
            procs.append(spawn(home, prop, tier, seed, i, jobs, only))
        deadline = started + limit
        timed_out = False
        for p in procs:
            try:
                p.wait(max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                timed_out = True
                break
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        reports, broken = [], []
        for i, (home, p) in enumerate(zip(homes, procs)):
            path = home / "report.json"
            log = (home / "log.txt").read_text(errors="replace")
            try:
                r = json.loads(path.read_text())
            except (OSError, ValueError):
                r = None
            if r is None or not r.get("complete"):
                broken.append((i, p.returncode, log[-3000:]))
            if r is not None:
                reports.append(r)
        return judge(prop, tier, seed, meta, reports, broken, timed_out, started, only, jobs)
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        if args.keep:
            say("kept", root)
        else:
            wipe(root)


def judge(prop, tier, seed, meta, reports, broken, timed_out, started, only, jobs):
    monitors, shapes, samples, violations, errors = {}, {}, {}, [], []
    runs, times = {}, {}
    required = set()
    for r in reports:
        for m, n in r["monitors"].items():
            monitors[m] = monitors.get(m, 0) + n
        for m, s in r["shapes"].items():
            shapes.setdefault(m, set()).update(s)
        for m, s in r["samples"].items():
            samples.setdefault(m, []).extend(s)
        for s, n in r["runs"].items():
            runs[s] = runs.get(s, 0) + n
        for s, n in r.get("times", {}).items():
            times[s] = times.get(s, 0) + n
        violations += r["violations"]
        errors += r["errors"]
        required |= set(r["required"])
    known = known_keys(prop)
    fresh, old = [], {}
    for v in violations:
        if v["key"] in known:
            old[v["key"]] = old.get(v["key"], 0) + 1
        else:
            fresh.append(v)
    evaluations = sum(monitors.values())
    distinct = sum(len(s) for s in shapes.values())
    flat = []
    for m in sorted(samples):
        for s in samples[m][:2]:
            flat.append({"monitor": m, "case": s})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": meta["level"],
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": meta["rule"],
            "samples": flat[:40],
            "monitors": {m: {"evaluations": monitors[m], "distinct": len(shapes.get(m, ()))}
                         for m in sorted(monitors)},
            "scenario_runs": dict(sorted(runs.items())),
            "scenario_seconds": {k: round(v, 1) for k, v in sorted(times.items())},
            "workers": jobs,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.monotonic() - started, 3),
        "violations": len(fresh),
    }
    if meta.get("exhaustive"):
        evidence["coverage"]["exhaustive"] = False
    out = VERIF / "evidence"
    out.mkdir(exist_ok=True)
    if old:
        evidence["coverage"]["known_findings_seen"] = old
    (out / f"{prop}.json").write_text(json.dumps(evidence, indent=1, sort_keys=False) + "\n")
    for key, n in sorted(old.items()):
        say(f"KNOWN-FINDING: property={prop} {known[key]} ({n} observations)")
    if fresh:
        rdir = out / "replay"
        rdir.mkdir(exist_ok=True)
        seen = set()
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = rdir / f"{prop}-{len(seen)}.json"
            path.write_text(json.dumps(dict(v, property=prop, tier=tier, seed=seed), indent=1) + "\n")
            say(f"VIOLATION property={prop} replay={path}")
            say(f"  {v['key']} in {v['scenario']}[{v['index']}]: {v['detail'][:600]}")
            if len(seen) >= 5:
                break
        return 1
    problem = False
    for i, code, log in broken:
        say(f"worker {i} gave no complete report (exit {code}, watchdog={timed_out}):\n{log}")
        problem = True
    for e in errors[:5]:
        say(f"harness error in {e['scenario']}[{e['index']}]:\n{e['trace']}")
        problem = True
    if not only:
        missing = sorted(m for m in required if not monitors.get(m))
        if missing:
            say("monitors never reached:", ", ".join(missing))
            problem = True
    if problem:
        return 2
    say(f"HELD property={prop} tier={tier} seed={seed} evaluations={evaluations} "
        f"distinct={distinct} wall={evidence['wall_s']}s")
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
