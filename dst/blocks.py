"""Histories of calls of the tensor routines, for properties C15 to C18.

Several simulated callers use the routines at the same time, hand the same
argument objects to several calls, abort calls (interrupt at a line, failing
allocation) and keep the results of earlier calls while they make later ones.
Every call is also made alone, in a process of its own.  Results are judged at
the end of the run, against plain formulas in double precision; arguments have
to be what they were.
"""
import torch

from . import twin, zoo
from . import world as W
from .kernel import FAULT_EXC, HarnessError, Incarnation, OpFault, Sim, SimHang, SimKilled, Violation, run_call

RULE = "a run in which a call was made between two steps of another thread's call, or after an aborted call, or with arguments another call had used"
STATES = "distinct (routine, options, shapes class, kind of the call before, outcome) tuples"
STUB = ["thread scheduling (baton handed over at every executed line or bytecode instruction of the package)", "failing allocations and interrupts"]
ASSUME = ["CPU, single intra-op thread", "PyTorch kernels are thread safe"]
TIME = "logical: scheduler steps; no component reads a clock"
SHRINK = ["threads"]
WORLDS = ["f64", "f64", "f32", "mixed"]


def gen(rng, gen_op):
    from .props.c01 import gen_sched

    world = rng.choice(WORLDS)
    n = rng.choice([1, 1, 2, 2, 3])
    pool = [gen_op(rng, world) for _ in range(rng.choice([1, 2, 3, 4]))]
    threads = []
    for t in range(n):
        ops = []
        for _ in range(rng.randint(1, 5)):
            op = dict(rng.choice(pool))
            if rng.random() < 0.3:
                op["seed"] = W.seed_of(rng)  # other values, same shapes
            if rng.random() < 0.2:
                op["abort"] = [rng.choice(["kbd", "kbd", "alloc", "oom"]), rng.random()]
            op["shared"] = rng.random() < 0.5
            ops.append(op)
        threads.append({"tid": t, "ops": ops})
    if all("abort" in o for t in threads for o in t["ops"]):
        threads[0]["ops"].append(dict(pool[0], shared=False))
    g = "instr" if rng.random() < 0.2 else "line"
    return {"world": world, "threads": threads, "sched": gen_sched(rng, n), "granularity": g}


def dt_of(world, cplx=False):
    r = torch.float32 if world == "f32" else torch.float64
    return r if not cplx else (torch.complex64 if world == "f32" else torch.complex128)


def eps(world):
    return 3e-5 if world == "f32" else 1e-9


def key(op):
    return repr(sorted((k, v) for k, v in op.items() if k not in ("abort", "shared")))


def tensors(a):
    if isinstance(a, torch.Tensor):
        return [a]
    if isinstance(a, (list, tuple)):
        return [t for x in a for t in tensors(x)]
    if isinstance(a, dict):
        return [t for x in a.values() for t in tensors(x)]
    return []


def same(a, b):
    """Bitwise the same, NaN included"""
    if a.shape != b.shape or a.dtype != b.dtype or a.requires_grad != b.requires_grad:
        return False
    a, b = a.detach(), b.detach()
    return torch.equal(a, b) or twin.digest([a]) == twin.digest([b])


def run(plan, R, B):
    """B: the property module with make(op, world), call(inc, op, args) and
    judge(op, args, outcome, world)"""
    world = plan["world"]
    if not plan["threads"]:
        return
    torch.set_default_dtype(torch.float64 if world == "f64" else torch.float32)
    torch.manual_seed(5)
    alone, pts = {}, 0
    for th in plan["threads"]:
        for op in th["ops"]:
            k = key(op)
            if k in alone:
                continue
            inc = Incarnation()
            args = B.make(op, world)
            val, exc, info = run_call(lambda: B.call(inc, op, args), {"kind": None, "count_ops": True}, limit=2_000_000)
            pts += info["points"]
            alone[k] = (info["points"], info["ops"])
            B.judge(op, B.make(op, world), (val, exc), world)
            unchanged(B, op, args, world)
    inc = Incarnation()
    sched = dict(plan["sched"])
    sched.setdefault("est", 2 * pts + 20)
    sched["n"] = len(plan["threads"])
    sim = Sim(sched, limit=60 * (pts + 50) * len(plan["threads"]) + 200_000)
    given, recs = {}, []
    inside = {t["tid"]: 0 for t in plan["threads"]}
    seen = {"mixed": False, "aborted": False}

    def args_of(op):
        if not op["shared"]:
            return B.make(op, world)
        k = key(op)
        if k in given:
            seen["mixed"] = True
        else:
            given[k] = B.make(op, world)
        return given[k]

    def body(task, th):
        prev = "-"
        for op in th["ops"]:
            task.yield_("op")
            args = args_of(op)
            n, nops = alone[key(op)]
            fault = None
            if "abort" in op:
                kind, frac = op["abort"]
                if kind == "kbd":
                    task.stop_at = max(1, int(frac * n))
                else:
                    fault = OpFault(int(frac * max(1, nops)), FAULT_EXC[kind]())
            inside[task.tid] += 1
            if sum(inside.values()) > 1 or seen["aborted"]:
                seen["mixed"] = True
            val = exc = None
            try:
                if fault is not None:
                    with fault:
                        val = B.call(inc, op, args)
                else:
                    val = B.call(inc, op, args)
            except (SimHang, SimKilled, HarnessError):
                raise
            except (KeyboardInterrupt, Exception) as e:
                exc = e
            finally:
                task.stop_at = None
                inside[task.tid] -= 1
            if "abort" in op:
                hit = exc is not None and (isinstance(exc, KeyboardInterrupt) or exc is getattr(fault, "exc", None))
                R.count(f"fault:{op['abort'][0]}" if hit else f"unfired:{op['abort'][0]}")
                seen["aborted"] = True
                if hit:
                    recs.append((op, args, None, None))
                    prev = "aborted"
                    continue
            recs.append((op, args, (val, exc), [t.detach().clone() for t in tensors(val)]))
            R.reach((B.label(op), type(exc).__name__ if exc else "", prev, op["shared"]))
            prev = op["op"]

    for th in plan["threads"]:
        sim.spawn(lambda task, th=th: body(task, th))
    sim.run()
    R.switches = sim.switches
    R.count("steps", sim.step)
    R.count("fault:preemption", len(sim.switches))
    R.sig = sim.sig.hexdigest() + key({"x": [[key(o) for o in t["ops"]] for t in plan["threads"]]})
    R.nontrivial = seen["mixed"]
    if sim.why:
        raise Violation(f"no progress: {sim.why}")
    for t in sim.tasks:
        if t.exc is not None:
            if isinstance(t.exc, (HarnessError, SimHang)):
                raise t.exc
            raise Violation(f"call raises {W.describe(t.exc)} although it succeeds alone")
    for op, args, out, then in recs:
        R.log(op["op"], type(out[1]).__name__ if out and out[1] else None, twin.digest(then or []))
        if out is not None:
            if not all(same(a.detach(), b) for a, b in zip(tensors(out[0]), then)):
                raise Violation(f"{op['op']}: a result changes after it was returned ({short(op)})")
            B.judge(op, B.make(op, world), out, world)
            R.count("calls")
        unchanged(B, op, args, world)
    if hasattr(B, "together"):
        B.together([(op, out[0]) for op, args, out, then in recs if out is not None and out[1] is None])


def short(op):
    cut = lambda v: v[:6] + ["..."] if isinstance(v, list) and len(v) > 9 else v
    return {k: cut(v) for k, v in op.items() if k not in ("seed", "shared", "abort")}


def unchanged(B, op, args, world):
    fresh = tensors(B.make(op, world))
    now = tensors(args)
    skip = set(map(id, B.outputs(args))) if hasattr(B, "outputs") else set()
    if len(fresh) != len(now):
        raise Violation(f"{op['op']}: a list given as argument was changed ({short(op)})")
    for a, b in zip(now, fresh):
        if id(a) not in skip and not same(a, b):
            raise Violation(f"{op['op']}: a tensor given as argument was changed ({short(op)})")
        if a.grad is not None:
            raise Violation(f"{op['op']}: a tensor given as argument received a gradient ({short(op)})")


def rnd(shape, g, world, cplx=False, style="dense"):
    t = torch.randn(list(shape), generator=g, dtype=torch.float64)
    if cplx:
        t = torch.complex(t, torch.randn(list(shape), generator=g, dtype=torch.float64))
    if style == "sparse":
        t = t * (torch.rand(list(shape), generator=g) < 0.5)
    if style == "zero":
        t = t * 0
    return t.to(dt_of(world, cplx))


def viewed(t, how):
    """The same values in another layout of storage"""
    if how == "t" and t.dim() >= 2:
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if how == "slice" and t.dim() >= 1 and t.numel():
        big = torch.zeros((t.shape[0] * 2 + 1,) + tuple(t.shape[1:]), dtype=t.dtype)
        v = big[1::2]
        v.copy_(t)
        return v
    return t


def up(t):
    if t.is_complex():
        return t.detach().to(torch.complex128)
    return t.detach().to(torch.float64) if t.is_floating_point() else t.detach()


def close(got, want, tol, what):
    if not isinstance(got, torch.Tensor):
        raise Violation(f"{what}: result is {type(got).__name__}, not a tensor")
    if tuple(got.shape) != tuple(want.shape):
        raise Violation(f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    if want.is_complex() != got.is_complex():
        raise Violation(f"{what}: dtype {got.dtype}")
    err = (up(got) - want).abs()
    bad = ~((err <= tol) | (up(got) == want))
    if bool(bad.any()):
        raise Violation(f"{what}: off by {float(err[bad].max() if bool(bad.any()) else 0):.3g}")
