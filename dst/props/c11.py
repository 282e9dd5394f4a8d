"""C11: shuffling and loading data keep every datum with its label, in the same order every time"""
import numpy as np
import torch

from dst import rng as G
from dst import twin, zoo
from dst import world as W
from dst.kernel import HarnessError, Incarnation, Sim, SimHang, Violation, run_call
from dst.props.c01 import gen_sched

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 300}, "thorough": {"runs": 10**7, "seconds": 780, "min": 2000}}
RULE = "a run in which another thread used a global generator while a call was between two of its statements, or a generator was used or a call aborted between two calls"
STATES = "distinct interleavings: the sequence of (from thread, to thread, place) switches of a run with the uses of generators in between"
REAL = ["torchmps.utils joint_shuffle, load_HV_data", "NumPy, PyTorch, random and their global generators", "real Python threads (one runs at a time)"]
STUB = ["thread scheduling (baton handed over at every executed line or bytecode instruction of the package)"]
ASSUME = ["CPU tensors"]
SHRINK = ["threads"]
TIME = "logical: scheduler steps; no component reads a clock"

DTYPES = ["float32", "float64", "float16", "int64", "int32", "uint8", "bool"]


def gen_call(rng):
    if rng.random() < 0.3:
        return {"op": "hv", "length": rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]) if rng.random() < 0.97 else rng.choice([8, 8, 9, 10])}
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 101]) if rng.random() < 0.93 else rng.choice([300, 700, 3000])
    if rng.random() < 0.002:
        return {"op": "shuffle", "n": rng.choice([33000, 70000]), "shape": [], "dt": "int64", "lshape": [], "ldt": "int64", "view": None, "seed": W.seed_of(rng)}
    return {
        "op": "shuffle",
        "n": n,
        "shape": rng.choice([[], [3], [2, 3], [1], [4, 4]]),
        "dt": rng.choice(DTYPES[:5]),
        "lshape": rng.choice([[], [], [2], [1]]),
        "ldt": rng.choice(["int64", "int64", "int32", "float32"]),
        "view": rng.choice([None, None, None, "stride", "transpose", "slice"]),
        "seed": W.seed_of(rng),
    }


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    calls = [gen_call(rng) for _ in range(rng.choice([1, 2, 3]))]
    threads = []
    for t in range(n):
        ops = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.55:
                c = dict(rng.choice(calls))
                if rng.random() < 0.3 and c["op"] == "shuffle":
                    c["seed"] = W.seed_of(rng)  # other data, same length
                ops.append(c)
            elif r < 0.9:
                ops.append({"op": "use", "kind": rng.choice(G.KINDS), "k": W.seed_of(rng)})
            else:
                c = dict(rng.choice(calls))
                ops.append(dict(c, abort=rng.random()))
        threads.append({"tid": t, "ops": ops})
    for _ in range(rng.choice([0, 1, 1, 2])):
        # threads which do nothing but use the generators
        uses = [{"op": "use", "kind": rng.choice(G.KINDS), "k": W.seed_of(rng)} for _ in range(rng.randint(2, 12))]
        threads.append({"tid": len(threads), "ops": uses})
    if not any(o["op"] != "use" and "abort" not in o for t in threads for o in t["ops"]):
        threads[0]["ops"].append(dict(calls[0]))
    g = "instr" if rng.random() < 0.3 else "line"
    return {"threads": threads, "sched": gen_sched(rng, len(threads)), "granularity": g, "gseed": W.seed_of(rng)}


def make(op):
    """Data in which every row is identified, and labels naming the row"""
    n = op["n"]
    g = zoo.gen_t(op["seed"])
    dt, ldt = getattr(torch, op["dt"]), getattr(torch, op["ldt"])
    rows = torch.arange(n)
    per = 1
    for s in op["shape"]:
        per *= s
    x = torch.stack([rows * 3 + 7 * j for j in range(per)], dim=1) if per else torch.zeros(n, 0)
    if op["dt"] in ("uint8",):
        x = x % 256
    x = x.to(dt).view([n] + op["shape"])
    lab = torch.randperm(n, generator=g)
    per = 1
    for s in op["lshape"]:
        per *= s
    y = torch.stack([lab + j for j in range(per)], dim=1).to(ldt).view([n] + op["lshape"])
    v = op["view"]
    if v == "stride" and n:
        big = torch.zeros([2 * n] + op["shape"], dtype=dt)
        big[::2] = x
        x = big[::2]
    elif v == "slice":
        big = torch.zeros([n + 3] + op["shape"], dtype=dt)
        big[1 : n + 1] = x
        x = big[1 : n + 1]
    elif v == "transpose" and len(op["shape"]) == 2:
        x = x.transpose(1, 2).contiguous().transpose(1, 2)
    return x, y


def call(inc, op):
    utils = inc.pkg.utils if hasattr(inc.pkg, "utils") else __import__("torchmps.utils", fromlist=["x"])
    if op["op"] == "hv":
        return utils.load_HV_data(op["length"])
    x, y = make(op)
    return utils.joint_shuffle(x, y)


def run(plan, R):
    if not plan["threads"]:
        return
    G.reset(plan["gseed"])
    torch.set_default_dtype(torch.float32)
    # the same calls alone, in a process of their own
    alone, pts = {}, 0
    for th in plan["threads"]:
        for op in th["ops"]:
            if op["op"] == "use":
                continue
            k = repr(sorted((a, b) for a, b in op.items() if a != "abort"))
            if k in alone:
                continue
            inc = Incarnation()
            val, exc, info = run_call(lambda: call(inc, op), limit=3_000_000)
            pts += info["points"]
            if exc is not None:
                raise Violation(f"{op['op']} raises {W.describe(exc)} for {op}")
            alone[k] = (val, info["points"])
            judge(op, val)
    inc = Incarnation()
    sched = dict(plan["sched"])
    sched.setdefault("est", pts * 2 + 20)
    sched["n"] = len(plan["threads"])
    sim = Sim(sched, limit=60 * pts * len(plan["threads"]) + 200_000)
    seen = {"inside": set(), "mixed": False, "events": 0}

    def body(task, th, recs):
        for op in th["ops"]:
            task.yield_("op")
            if op["op"] == "use":
                G.use(op["kind"], op["k"])
                seen["events"] += 1
                if seen["inside"] - {task.tid}:
                    seen["mixed"] = True
                sim.sig.update(op["kind"].encode())
                continue
            if "abort" in op:
                k = repr(sorted((a, b) for a, b in op.items() if a != "abort"))
                task.stop_at = max(1, int(op["abort"] * alone[k][1]))
                try:
                    call(inc, op)
                    R.count("unfired:kbd")
                except KeyboardInterrupt:
                    R.count("fault:kbd")
                    seen["events"] += 1
                finally:
                    task.stop_at = None
                continue
            seen["inside"].add(task.tid)
            try:
                recs.append((op, call(inc, op)))
            finally:
                seen["inside"].discard(task.tid)
            if seen["events"]:
                seen["mixed"] = True

    recs = []
    for th in plan["threads"]:
        sim.spawn(lambda task, th=th: body(task, th, recs))
    sim.run()
    R.switches = sim.switches
    R.count("steps", sim.step)
    R.count("fault:preemption", len(sim.switches))
    R.count("fault:foreign_generator_use", seen["events"])
    R.reach(sim.sig.hexdigest())
    R.sig = sim.sig.hexdigest()
    R.nontrivial = seen["mixed"]
    if sim.why:
        raise Violation(f"no progress: {sim.why}")
    for t in sim.tasks:
        if t.exc is not None:
            if isinstance(t.exc, (HarnessError, SimHang)):
                raise t.exc
            raise Violation(f"call raises {W.describe(t.exc)} although it succeeds alone")
    orders = {}
    for op, val in recs:
        if op["op"] == "shuffle":
            o = order(op, val)
            if o is not None and orders.setdefault(op["n"], o) != o:
                raise Violation(f"joint_shuffle orders {op['n']} data differently in two calls ({op})")
        R.log(op["op"], twin.digest(list(val)))
        judge(op, val)
        k = repr(sorted((a, b) for a, b in op.items() if a != "abort"))
        want = alone[k][0]
        if not all(torch.equal(a, b) for a, b in zip(val, want)):
            raise Violation(f"{op['op']} returns another order than the same call in a fresh process ({op})")


def judge(op, val):
    if op["op"] == "hv":
        return judge_hv(op["length"], val)
    x0, y0 = make(op)
    x, y = val
    if x.shape != x0.shape or y.shape != y0.shape or x.dtype != x0.dtype or y.dtype != y0.dtype:
        raise Violation(f"joint_shuffle changes shape or dtype ({op})")
    n = op["n"]

    def pairs(a, b):
        if n > 10000:  # single integers
            return (a * 1_000_003 + b).sort()[0].tolist()
        return sorted((tuple(a[i].reshape(-1).tolist()), tuple(b[i].reshape(-1).tolist())) for i in range(n))

    if n and pairs(x, y) != pairs(x0, y0):
        sep = sorted(map(str, x.tolist())) == sorted(map(str, x0.tolist()))
        raise Violation(f"joint_shuffle {'pairs data with labels of other data' if sep else 'loses data'} ({op})")


def order(op, val):
    """The permutation, where the rows can be told apart"""
    if op["n"] > 10000:
        return (val[0] // 3).tolist()
    x0 = [tuple(r.reshape(-1).tolist()) for r in make(op)[0]]
    if len(set(x0)) < len(x0):
        return None
    at = {r: i for i, r in enumerate(x0)}
    return [at[tuple(r.reshape(-1).tolist())] for r in val[0]]


def judge_hv(L, val):
    if len(val) != 4:
        raise Violation("load_HV_data returns something else than four tensors")
    xi, xl, ti, tl = val
    total = 4 * (2 ** (L - 1) - 1)
    if len(xi) != len(xl) or len(ti) != len(tl) or len(xi) + len(ti) != total or 3 * len(ti) != len(xi):
        raise Violation(f"load_HV_data({L}) gives {len(xi)}/{len(xl)} training and {len(ti)}/{len(tl)} test images")
    imgs, labs = torch.cat([xi, ti]), torch.cat([xl, tl])
    seen = set()
    for im, lab in zip(imgs, labs):
        if im.shape != (L, L) or not bool(((im == 0) | (im == 1)).all()):
            raise Violation(f"load_HV_data({L}) gives an image which is not black and white")
        hor = bool((im == im[:, :1]).all())
        ver = bool((im == im[:1]).all())
        if hor == ver or int(lab) != (0 if hor else 1):
            raise Violation(f"load_HV_data({L}) gives an image with the wrong label")
        seen.add((int(lab), tuple(im.reshape(-1).tolist())))
    if len(seen) != total:
        raise Violation(f"load_HV_data({L}) has {len(seen)} distinct images instead of {total}")
