"""Runs, workers, minimisation, replay files and evidence"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
PROPS = ["C%02d" % i for i in range(1, 15)]


class Run:
    """One simulated run: event log, counters, reached states"""

    def __init__(self, keep=False):
        self.h = hashlib.blake2b(digest_size=16)
        self.events, self.keep = [], keep
        self.stats = collections.Counter()
        self.sigs = set()
        self.sig = ""
        self.nontrivial = False
        self.switches = None

    def log(self, *ev):
        s = json.dumps(ev, default=_dig, sort_keys=True)
        self.h.update(s.encode())
        if self.keep:
            self.events.append(s)

    def count(self, key, n=1):
        self.stats[key] += n

    def reach(self, s):
        """A state/interleaving signature reached by this run"""
        self.sigs.add(hashlib.blake2b(str(s).encode(), digest_size=6).hexdigest())


def _dig(x):
    import torch

    if isinstance(x, torch.Tensor):
        x = x.detach()
        if x.is_complex():
            x = torch.view_as_real(x)
        return hashlib.blake2b(x.contiguous().numpy().tobytes(), digest_size=8).hexdigest()
    return repr(x)


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def run_seed(prop, base, i):
    h = hashlib.blake2b(f"{prop}:{base}:{i}".encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def reset_process():
    """Everything process-wide that a run could leave behind"""
    import numpy as np
    import torch

    from . import kernel

    torch.set_default_dtype(torch.float32)
    torch.manual_seed(0)
    np.random.seed(0)
    random.seed(0)
    torch.set_grad_enabled(True)
    kernel.drop_package()
    kernel._tasks.clear()


def execute(mod, plan, keep=False):
    """-> (Run, None or violation text). Harness errors propagate."""
    from . import kernel

    reset_process()
    kernel.set_granularity(plan.get("granularity", "line"))
    R = Run(keep)
    viol = None
    try:
        mod.run(plan, R)
    except kernel.Violation as e:
        viol = str(e)
    except kernel.SimHang as e:
        viol = f"no progress: {e}"
    except kernel.HarnessError:
        raise
    except Exception as e:
        # an exception that left the library where none may leave it
        where = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(kernel.PKG_DIR + os.sep)]
        if not where:
            # the reference model cannot read the state the library left
            mine = [f for f in traceback.extract_tb(e.__traceback__) if os.path.basename(f.filename) in ("ref.py", "adapt.py") or f.name == "refill"]
            if not mine or isinstance(e, (MemoryError, NameError, AttributeError, TypeError)):
                raise
            viol = f"the model's state does not fit its configuration ({type(e).__name__} in {mine[-1].name}: {str(e)[:200]})"
            R.log("end", viol)
            return R, viol
        viol = f"library raises {type(e).__name__} in {where[-1].name}: {str(e)[:200]}"
    R.log("end", viol)
    return R, viol


def make_plan(mod, prop, base, i, tier):
    seed = run_seed(prop, base, i)
    rng = random.Random(seed)
    plan = mod.gen(rng, tier)
    plan["seed"] = seed
    plan["index"] = i
    return plan


# --------------------------------------------------------------------------
# Worker


def worker(args):
    import torch

    torch.set_num_threads(1)
    mod = load(args.prop)
    t0 = time.time()
    out = {"runs": 0, "stats": collections.Counter(), "sigs": set(), "nontriv": set(), "hash": {}, "viol": [], "err": []}
    samples = []
    i = args.start
    while i < args.count and time.time() - t0 < args.budget:
        if args.mark:
            with open(args.mark, "w") as f:
                f.write(f"{i} {time.time()}")
        try:
            plan = make_plan(mod, args.prop, args.seed, i, args.tier)
            R, viol = execute(mod, plan)
        except (Exception, KeyboardInterrupt) as e:
            out["err"].append({"index": i, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]})
            if len(out["err"]) >= 3:
                break
            i += args.stride
            continue
        out["runs"] += 1
        out["stats"].update(R.stats)
        out["sigs"] |= R.sigs
        if R.nontrivial:
            out["nontriv"].add(R.sig)
        out["hash"][i] = R.h.hexdigest()
        if len(samples) < 2 and R.nontrivial:
            samples.append(_short(plan))
        if viol is not None:
            out["viol"].append({"index": i, "text": viol})
            if len(out["viol"]) >= 2:
                break
        i += args.stride
    out["wall"] = time.time() - t0
    out["samples"] = samples
    out["sigs"], out["nontriv"] = sorted(out["sigs"]), sorted(out["nontriv"])
    with open(args.out, "w") as f:
        json.dump(out, f)


def _short(plan, limit=2500):
    s = json.dumps(plan)
    return plan if len(s) <= limit else {"truncated_plan": s[:limit]}


# --------------------------------------------------------------------------
# Minimisation


def ddmin(items, test):
    """Greedy delta debugging on a list; test(list) -> still fails?"""
    n = 2
    budget = 400
    while len(items) >= 1 and budget > 0:
        size = max(1, len(items) // n)
        chunks = [items[j : j + size] for j in range(0, len(items), size)]
        for k in range(len(chunks)):
            cand = [x for j, c in enumerate(chunks) if j != k for x in c]
            budget -= 1
            if test(cand):
                items, n = cand, max(n - 1, 2)
                break
            if budget <= 0:
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(mod, plan, viol, seconds=60):
    t0 = time.time()
    best = plan

    def fails(p):
        if time.time() - t0 > seconds:
            return False
        try:
            _, v = execute(mod, p)
        except (Exception, KeyboardInterrupt):
            return False
        return v is not None and vclass(v) == vclass(viol)

    if "sched" in plan:
        try:
            R, v = execute(mod, plan)
            if R.switches is not None:
                cand = dict(plan, sched={"kind": "replay", "switches": R.switches})
                if fails(cand):
                    best = cand
        except Exception:
            pass
    for key in getattr(mod, "SHRINK", ["ops"]):
        if key in best and isinstance(best[key], list):

            def test(items, key=key):
                return fails({**best, key: items})

            best = {**best, key: ddmin(list(best[key]), test)}
    if best.get("sched", {}).get("kind") == "replay":
        best = {
            **best,
            "sched": {
                "kind": "replay",
                "switches": ddmin(
                    list(best["sched"]["switches"]),
                    lambda it: fails({**best, "sched": {"kind": "replay", "switches": it}}),
                ),
            },
        }
    if hasattr(mod, "simplify"):
        again = True
        while again and time.time() - t0 < seconds:
            again = False
            for cand in mod.simplify(best):
                if fails(cand):
                    best, again = cand, True
                    break
    return best


def vclass(v):
    return v.split(":")[0][:60]


# --------------------------------------------------------------------------
# Driver


def spawn_workers(prop, tier, seed, count, budget, tmp, nw, extra_env=None, hard=None):
    env = dict(
        os.environ,
        PYTHONPATH=VERIF + os.pathsep + REPO,
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
        PYTHONHASHSEED="0",
    )
    env.update(extra_env or {})
    procs = []
    for w in range(nw):
        out, mark = f"{tmp}/w{w}.json", f"{tmp}/m{w}"
        cmd = [sys.executable, "-W", "ignore", "-m", "dst", "--worker", prop, "--seed", str(seed), "--tier", tier]
        cmd += ["--start", str(w), "--stride", str(nw), "--count", str(count), "--budget", str(budget)]
        cmd += ["--out", out, "--mark", mark]
        p = subprocess.Popen(cmd, env=env, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=open(f"{tmp}/e{w}", "w"))
        procs.append((p, out, mark, f"{tmp}/e{w}"))
    hard = hard or budget + 150
    t0 = time.time()
    hung = []
    alive = list(procs)
    while alive:
        time.sleep(0.1)
        still = []
        for pr in alive:
            p, out, mark, err = pr
            if p.poll() is not None:
                continue
            stuck = None
            try:
                i, t = open(mark).read().split()
                if time.time() - float(t) > 150:
                    stuck = int(i)
            except (OSError, ValueError):
                pass
            if stuck is not None or time.time() - t0 > hard:
                p.send_signal(signal.SIGKILL)
                p.wait()
                hung.append(stuck)
                continue
            still.append(pr)
        alive = still
    res = []
    for p, out, mark, err in procs:
        try:
            with open(out) as f:
                res.append(json.load(f))
        except (OSError, ValueError):
            tail = ""
            try:
                tail = open(err).read()[-1500:]
            except OSError:
                pass
            if not hung:
                res.append({"runs": 0, "err": [{"index": -1, "error": f"worker died (exit {p.returncode})", "tb": tail}]})
    return res, hung


def replay_in_fresh_process(path, timeout=300):
    env = dict(
        os.environ,
        PYTHONPATH=VERIF + os.pathsep + REPO,
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        PYTHONWARNINGS="ignore",
        PYTHONHASHSEED="7",
    )
    try:
        r = subprocess.run(
            [sys.executable, "-W", "ignore", "-m", "dst", "--replay", path], env=env, cwd=VERIF, capture_output=True, text=True, timeout=timeout
        )
    except subprocess.TimeoutExpired:
        return "hang"
    return r.stdout.strip().splitlines()[-1] if r.returncode == 1 and r.stdout.strip() else None


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f).get("known", [])
    except OSError:
        return []


def is_known(prop, plan, text, known):
    for k in known:
        if k["property"] == prop and k["violation_contains"] in text and all(plan.get("spec", {}).get(a) == b for a, b in k.get("spec", {}).items()):
            return k
    return None


def check(prop, tier):
    import tempfile

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    cfg = mod.BUDGET[tier]
    nw = int(os.environ.get("DST_WORKERS", min(8, os.cpu_count() or 1)))
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="dst-") as tmp:
        res, hung = spawn_workers(prop, tier, seed, cfg["runs"], cfg["seconds"], tmp, nw)
        # determinism sample: same seeds, other worker count and hash seed
        again = {}
        if not any(r.get("viol") for r in res):
            os.makedirs(tmp + "/d")
            res2, _ = spawn_workers(
                prop, tier, seed, min(cfg["runs"], 24), 60, tmp + "/d", min(3, nw), {"PYTHONHASHSEED": "4242"}
            )
            for r in res2:
                again.update(r.get("hash", {}))
    runs = sum(r["runs"] for r in res)
    stats = collections.Counter()
    sigs, nontriv, hashes, samples, errs, viols = set(), set(), {}, [], [], []
    for r in res:
        stats.update(r.get("stats", {}))
        sigs |= set(r.get("sigs", []))
        nontriv |= set(r.get("nontriv", []))
        hashes.update(r.get("hash", {}))
        samples += r.get("samples", [])[:1]
        errs += r.get("err", [])
        viols += r.get("viol", [])
    diverged = [i for i, h in again.items() if i in hashes and hashes[i] != h]
    code = 0
    lines = []
    known = known_findings()
    real = []
    for i in sorted({h for h in hung if h is not None}):
        viols.append({"index": i, "text": "no progress: the run does not return"})
    for v in sorted(viols, key=lambda v: v["index"]):
        plan = make_plan(mod, prop, seed, v["index"], tier)
        k = is_known(prop, plan, v["text"], known)
        if k:
            stats["known_findings_hit"] += 1
        else:
            real.append((v, plan))
    for k in known:
        if k["property"] == prop:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    if real:
        v, plan = real[0]
        lines.append(report(prop, tier, seed, mod, v, plan, replays))
        code = 1
    elif errs:
        for e in errs[:3]:
            print(f"HARNESS-ERROR property={prop} run={e['index']} {e['error']}\n{e['tb']}", file=sys.stderr)
        code = 2
    elif hung or runs < cfg["min"]:
        print(f"INCOMPLETE property={prop} runs={runs} of at least {cfg['min']}", file=sys.stderr)
        code = 2
    wall = time.time() - t0
    ev = evidence(prop, mod, tier, seed, runs, stats, sigs, nontriv, hashes, samples, wall, len(real), diverged, again, nw, errs)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print(
        f"property={prop} tier={tier} seed={seed} runs={runs} distinct={len(nontriv)} states={len(sigs)} "
        f"violations={len(real)} diverged={len(diverged)} wall={wall:.1f}s exit={code}"
    )
    return code


def report(prop, tier, seed, mod, v, plan, replays):
    path = os.path.join(replays, f"{prop}-{seed}-{v['index']}.json")
    text = v["text"]

    def write(p, note):
        doc = {
            "property": prop,
            "verif_seed": seed,
            "tier": tier,
            "run_index": v["index"],
            "run_seed": p.get("seed"),
            "violation": text,
            "note": note,
            "plan": p,
        }
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)

    if text.startswith("no progress: the run does not return"):
        write(plan, "not minimised: the run blocks; replaying it blocks as well")
        return f"VIOLATION property={prop} replay={path}\n  {text}"
    # minimise in a child, so that a hang while shrinking is harmless
    write(plan, "as found")
    env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    note = "as found"
    try:
        r = subprocess.run(
            [sys.executable, "-W", "ignore", "-m", "dst", "--minimise", path], env=env, cwd=VERIF, capture_output=True, text=True, timeout=240
        )
        if r.returncode == 0:
            with open(path + ".min") as f:
                doc = json.load(f)
            os.replace(path + ".min", path)
            got = replay_in_fresh_process(path)
            if got:
                note = "minimised, replayed in a fresh process"
                text = doc["violation"]
            else:
                write(plan, "as found; the minimised plan did not replay")
    except (subprocess.TimeoutExpired, OSError, ValueError):
        write(plan, "as found; minimisation failed")
    if note == "as found":
        got = replay_in_fresh_process(path)
        note = "as found, replayed in a fresh process" if got else "as found; a fresh process did not reproduce it"
    return f"VIOLATION property={prop} replay={path}\n  {text}\n  ({note})"


def do_minimise(path):
    import torch

    torch.set_num_threads(1)
    with open(path) as f:
        doc = json.load(f)
    mod = load(doc["property"])
    p = minimise(mod, doc["plan"], doc["violation"])
    R, v = execute(mod, p, keep=True)
    if v is None:
        return 1
    doc.update(plan=p, violation=v, note="minimised", log_hash=R.h.hexdigest(), log_tail=R.events[-30:])
    doc["size"] = {k: len(p[k]) for k in getattr(mod, "SHRINK", ["ops"]) if isinstance(p.get(k), list)}
    with open(path + ".min", "w") as f:
        json.dump(doc, f, indent=1)
    return 0


def do_replay(path, verbose=False):
    import torch

    torch.set_num_threads(1)
    with open(path) as f:
        doc = json.load(f)
    mod = load(doc["property"])
    R, v = execute(mod, doc["plan"], keep=True)
    if verbose:
        print("\n".join(R.events))
    if v is None:
        print(f"REPLAY property={doc['property']} no violation")
        return 0
    same = doc.get("log_hash") in (None, R.h.hexdigest())
    print(f"VIOLATION property={doc['property']} replay={path} same_log={same} {v}")
    return 1


def evidence(prop, mod, tier, seed, runs, stats, sigs, nontriv, hashes, samples, wall, nviol, diverged, again, nw, errs):
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault:")}
    unfired = {k[8:]: v for k, v in stats.items() if k.startswith("unfired:")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe:")}
    rest = {k: v for k, v in stats.items() if not k.startswith(("fault:", "probe:", "unfired:"))}
    comb = hashlib.blake2b("".join(f"{i}{hashes[i]}" for i in sorted(hashes, key=int)).encode(), digest_size=16).hexdigest()
    return {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples[:4],
            "distinct_states": len(sigs),
            "state_measure": mod.STATES,
            "runs_per_hour": int(runs / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(runs / max(wall, 1e-9) * 3600),
            "simulated_steps": rest.pop("steps", 0),
            "simulated_time": getattr(mod, "TIME", "logical: one step per executed line of library code under the scheduler; the library reads no clock"),
            "simulated_seconds": rest.pop("sim_ms", 0) / 1000.0,
            "faults_fired": faults,
            "faults_planned_but_not_reached": unfired,
            "probes": probes,
            "counters": rest,
            "workers": nw,
            "determinism_recheck": {"runs": len(again), "diverged": len(diverged)},
            "event_log_hash": comb,
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "harness_errors": len(errs),
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--worker")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--count", type=int, default=1)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--mark")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--minimise")
    ap.add_argument("--one", type=int, help="execute one run index of prop, verbosely")
    a = ap.parse_args(argv)
    if a.worker:
        a.prop = a.worker
        worker(a)
        return 0
    if a.replay:
        return do_replay(a.replay, a.verbose)
    if a.minimise:
        return do_minimise(a.minimise)
    if a.one is not None:
        import torch

        torch.set_num_threads(1)
        mod = load(a.prop)
        plan = make_plan(mod, a.prop, int(os.environ.get("VERIF_SEED", "1")), a.one, a.tier)
        if a.verbose:
            print(json.dumps(plan, indent=1))
        R, v = execute(mod, plan, keep=True)
        print("\n".join(R.events[-40:]))
        print(dict(R.stats), "viol:", v)
        return 0
    return check(a.prop.upper(), a.tier)
