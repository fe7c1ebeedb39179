"""Driver: explores the tasks of one property's check, replays what it finds, writes evidence.

  python -m symx.run check P01 --tier quick
  python -m symx.run replay /verif/replays/P01-....json
"""
import argparse
import gc
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("HF_HUB_OFFLINE", "1")
os.environ.setdefault("AWS_EC2_METADATA_DISABLED", "true")

_monotonic = time.monotonic

from symx import core  # noqa: E402


class _Timeout(core.PathAbort):
    pass


# ---------------------------------------------------------------- function recorder
_seen = set()


def record_functions(on=True):
    mon = sys.monitoring
    if on:
        try:
            mon.use_tool_id(3, "symx")
        except ValueError:
            pass

        def start(code, off):
            fn = code.co_filename
            i = fn.find("/src/litdata/")
            if i >= 0:
                _seen.add(f"{fn[i + 5:]}:{code.co_qualname}")
            return mon.DISABLE

        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    else:
        mon.set_events(3, 0)


def load(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


_WATCH = [0.0, 0.0]


def _solver_s():
    return core.CUR.stats.solver_s if getattr(core.CUR, "symbolic", False) else 0.0


def watch(alarm):
    _WATCH[:] = [_monotonic() - _solver_s(), time.process_time() - _solver_s()]
    signal.setitimer(signal.ITIMER_REAL, alarm)


def over(alarm):
    """Whether the run is stuck, rather than delayed by the machine or the solver."""
    real, cpu = _monotonic() - _solver_s() - _WATCH[0], time.process_time() - _solver_s() - _WATCH[1]
    ctx = core.CUR
    if (ctx is not None and getattr(ctx, "in_solver", False)) or (cpu < 0.7 * alarm and real < 4 * alarm):
        signal.setitimer(signal.ITIMER_REAL, max(1, alarm / 4))
        return False
    return True


def run_concrete(mod, task, values, alarm=60):
    """Runs a harness on plain values. Returns None if every obligation held, else a message."""
    ctx = core.ConcreteCtx(values)
    h = mod.harness(task)

    def onalarm(*a):
        if over(alarm):
            raise core.Violated(f"did not terminate within {alarm} s")

    old = signal.signal(signal.SIGALRM, onalarm)
    watch(alarm)
    try:
        h(ctx)
        return None
    except core.Infeasible:
        return "INFEASIBLE"
    except core.Stop:
        return None
    except core.Violated as v:
        return v.msg
    except Exception as e:
        traceback.print_exc(file=sys.stderr)
        return f"unexpected {type(e).__name__}: {e}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def explore_task(prop, task, deadline):
    mod = load(prop)
    h = mod.harness(task)
    opts = task.get("opts", {})
    alarm = opts.get("alarm", 60)
    validate = []
    every = opts.get("validate_every", 1)
    cap = opts.get("validate_cap", 3)
    counter = [0]

    def on_run(ctx):
        watch(alarm)

    def on_path(ctx):
        signal.setitimer(signal.ITIMER_REAL, 0)
        counter[0] += 1
        k = counter[0]
        if len(validate) < cap and (k - 1) % every == 0:
            validate.append(ctx.values())
        elif len(validate) >= cap and cap > 0 and (k & (k - 1)) == 0:
            # replace one: powers of two, so late paths are represented too
            validate[k.bit_length() % cap] = ctx.values()

    def onalarm(*a):
        if over(alarm):
            raise core.Hang(f"did not terminate within {alarm} s")

    def confirm(values):
        """A counterexample the same code does not show on plain values is the model's, not the code's."""
        signal.setitimer(signal.ITIMER_REAL, 0)
        import io, contextlib

        with contextlib.redirect_stderr(io.StringIO()):
            m = run_concrete(mod, task, values, alarm=max(alarm, 30))
        signal.signal(signal.SIGALRM, onalarm)
        return m is not None and m != "INFEASIBLE"

    signal.signal(signal.SIGALRM, onalarm)
    t0 = _monotonic()
    try:
        res = core.explore(h, max_paths=opts.get("max_paths"), deadline=deadline, on_path=on_path, on_run=on_run,
                           timeout_ms=opts.get("timeout_ms", 30000), confirm=confirm)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res["task"] = task
    res["explore_s"] = _monotonic() - t0
    # replay path witnesses on the real code with ordinary values
    bad = []
    for v in validate:
        if deadline and _monotonic() > deadline + 60:
            break
        m = run_concrete(mod, task, v, alarm=max(alarm, 30))
        if m == "INFEASIBLE":
            res["spurious"].append({"msg": f"witness infeasible when replayed: {v}"})
            res["stats"]["unsupported"] += 1
        elif m is not None:
            bad.append({"msg": m, "values": v, "from": "witness replay"})
        else:
            res["stats"]["replayed"] += 1
    res["violations"] += bad
    if bad and res["status"] not in ("violation",):
        res["status"] = "violation"
    res["samples"] = validate[:2]
    res["functions"] = sorted(_seen)
    return res


def _worker(inq, outq, prop, deadline):
    try:
        record_functions()
        gc.freeze()
        while True:
            item = inq.get()
            if item is None:
                break
            k, task = item
            if _monotonic() > deadline:
                outq.put((k, {"status": "skipped", "stats": core.Stats().asdict(), "violations": [], "errors": [],
                              "task": task, "samples": [], "functions": [], "explore_s": 0}))
                continue
            try:
                r = explore_task(prop, task, deadline)
            except BaseException as e:
                r = {"status": "error", "stats": core.Stats().asdict(), "violations": [],
                     "errors": [f"{type(e).__name__}: {e}\n{traceback.format_exc()}"], "task": task, "samples": [],
                     "functions": [], "explore_s": 0}
            outq.put((k, r))
    except KeyboardInterrupt:
        pass
    finally:
        outq.put((None, None))
        outq.close()
        outq.join_thread()
        os._exit(0)


def check(prop, tier, jobs=8, budget=None, only=None):
    t0 = _monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    budget = budget or getattr(mod, "BUDGET", {}).get(tier) or (480 if tier == "quick" else 3600)
    deadline = t0 + budget
    tasks = mod.tasks(tier)
    for i, t in enumerate(tasks):
        t.setdefault("name", str(i))
        t["id"] = i
    if only is not None:
        tasks = [t for t in tasks if only in t["name"]]
    ctxm = mp.get_context("fork")
    inq, outq = ctxm.Queue(), ctxm.Queue()
    n = max(1, min(jobs, len(tasks)))
    for k, t in enumerate(tasks):
        inq.put((k, t))
    for _ in range(n):
        inq.put(None)
    procs = [ctxm.Process(target=_worker, args=(inq, outq, prop, deadline), daemon=False) for _ in range(n)]
    for p in procs:
        p.start()
    results = {}
    alive = n
    hard = deadline + 150
    stop_early = False
    while alive and len(results) < len(tasks):
        try:
            k, r = outq.get(timeout=2)
        except Exception:
            if _monotonic() > hard:
                break
            if not any(p.is_alive() for p in procs):
                break
            continue
        if k is None:
            alive -= 1
            continue
        results[k] = r
        if r["violations"]:
            stop_early = True
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    stats = core.Stats()
    funcs = set()
    errors, violations, samples, spurious = [], [], [], []
    statuses = {}
    for k, r in sorted(results.items()):
        stats.merge(r["stats"])
        funcs.update(r["functions"])
        statuses[r["status"]] = statuses.get(r["status"], 0) + 1
        errors += [f"[{r['task']['name']}] {e}" for e in r["errors"]]
        spurious += [f"[{r['task']['name']}] {e['msg']}\n{e.get('tb') or ''}" for e in r.get("spurious", [])]
        for v in r["violations"]:
            violations.append((r["task"], v))
        if len(samples) < 8:
            for s in r["samples"][:1]:
                samples.append({"task": r["task"]["name"], "path_witness": s})
    missing = len(tasks) - len(results)
    if missing and not stop_early:
        errors.append(f"{missing} task(s) gave no result")

    # reachability witnesses (vacuity guard)
    missing_reach = []
    if only is None and not violations and not errors:
        for tag in getattr(mod, "REACH", []):
            if not stats.reach.get(tag):
                missing_reach.append(tag)
        if missing_reach:
            msg = f"vacuous: never reached {missing_reach}"
            if set(statuses) <= {"complete"} and not stats.unsupported:
                errors.append(msg)
            else:
                spurious.append(msg)

    # what the solver or the proxies could not decide is reported, not judged
    spurious += [e for e in errors if "] inconclusive" in e]
    errors = [e for e in errors if "] inconclusive" not in e]
    if tasks and not stats.checks and not errors and not violations:
        errors.append("nothing was decided: " + "; ".join(spurious[:3]))
    if os.environ.get("SYMX_STRICT") == "1":
        errors += spurious
    confirmed, unconfirmed, known = [], [], []
    for task, v in violations:
        if v.get("values") is None:
            unconfirmed.append((task, v, "no model"))
            continue
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{task['id']}-{abs(hash(json.dumps(v['values'], sort_keys=True, default=str))) % 10**8}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "task": task, "values": v["values"], "msg": v["msg"], "tb": v.get("tb")}, f,
                      default=str, indent=1)
        r = subprocess.run([sys.executable, "-B", "-m", "symx.run", "replay", path], cwd=VERIF, capture_output=True,
                           text=True, timeout=400)
        if r.returncode == 1:
            confirmed.append((task, v, path, r.stdout.strip()))
        else:
            unconfirmed.append((task, v, r.stdout[-2000:] + r.stderr[-2000:]))

    wall = _monotonic() - t0
    complete = statuses.get("complete", 0)
    if os.environ.get("SYMX_V"):
        for k, r in sorted(results.items(), key=lambda x: -x[1]["explore_s"]):
            print(f"   {r['task']['name']:40s} {r['status']:10s} {r['explore_s']:7.1f}s paths={r['stats']['paths']} "
                  f"obl={r['stats']['checks']}")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": stats.paths + stats.infeasible,
            "transitions": stats.branches,
            "traces_validated_against_impl": stats.replayed,
            "samples": samples or [{"none": True}],
            "tasks": len(tasks),
            "tasks_by_status": statuses,
            "paths_explored": stats.paths,
            "symbolic_branches": stats.branches,
            "solver_queries": stats.queries,
            "solver_seconds": round(stats.solver_s, 3),
            "solver_unknown": stats.unknown,
            "paths_not_decided": stats.unsupported,
            "not_decided": spurious[:5],
            "obligations_checked": stats.checks,
            "obligations_decided_by_solver_query": stats.check_queries,
            "reachability_witnesses": stats.reach,
            "functions_encoded": sorted(funcs),
            "bounds": mod.BOUNDS if not callable(mod.BOUNDS) else mod.BOUNDS(tier),
            "stubs": getattr(mod, "STUBS", []),
            "outside": getattr(mod, "OUTSIDE", ""),
            "exhaustive": complete == len(tasks),
        },
        "assumptions": getattr(mod, "STUBS", []),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: tasks={len(tasks)} {statuses} paths={stats.paths} branches={stats.branches} "
          f"queries={stats.queries} solver={stats.solver_s:.1f}s obligations={stats.checks} "
          f"replayed={stats.replayed} wall={wall:.1f}s")
    if confirmed:
        for task, v, path, out in confirmed[:5]:
            print(f"  {v['msg']}\n  values={json.dumps(v['values'], default=str)}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        return 1
    if unconfirmed:
        for task, v, why in unconfirmed[:5]:
            print(f"NOTE: counterexample not reproduced on the real code: [{task['name']}] {v['msg']} {v.get('values')}\n"
                  f"{v.get('tb', '')}\n{why}")
        if os.environ.get("SYMX_STRICT") == "1":
            return 3
    if errors:
        for e in errors[:10]:
            print("ERROR:", e)
        return 2
    for e in spurious[:5]:
        print("NOTE: not decided:", e.strip().splitlines()[0][:300])
    for line in getattr(mod, "known_findings", lambda: [])():
        print(f"KNOWN-FINDING: property={prop} {line}")
    return 0


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    m = run_concrete(mod, d["task"], d["values"], alarm=d["task"].get("opts", {}).get("replay_alarm", 60))
    if m is None or m == "INFEASIBLE":
        print(f"replay: property held ({m})")
        return 0
    print(f"replay: {m}")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay"])
    ap.add_argument("arg")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", default=None)
    a = ap.parse_args()
    if a.cmd == "replay":
        os.environ["SYMX_PLAIN"] = "1"  # replays run the unmodified sources
        rc = replay(a.arg)
    else:
        rc = check(a.arg, a.tier, a.jobs, a.budget, a.only)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
