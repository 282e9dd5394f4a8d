"""C01: concurrent callers each get what they would get alone"""
import torch

from dst import ref, zoo
from dst import world as W
from dst.kernel import HarnessError, Incarnation, Sim, SimHang, SimKilled, Violation, run_call

BUDGET = {"quick": {"runs": 100000, "seconds": 75, "min": 100}, "thorough": {"runs": 10**7, "seconds": 780, "min": 800}}
RULE = "a run in which the baton changed hands inside a library call of each of two threads at least once"
STATES = "distinct interleavings: the sequence of (from thread, to thread, function) switches of a run"
REAL = ["torchmps (all modules)", "PyTorch kernels, autograd", "real Python threads (one runs at a time)"]
STUB = ["thread scheduling (baton handed over at every executed line or bytecode instruction of the package)", "threading.Lock/RLock inside the package"]
ASSUME = ["PyTorch kernels are thread safe", "CPU, single intra-op thread", "the interpreter switches threads only between bytecode instructions"]
SHRINK = ["threads"]


def gen_sched(rng, n):
    k = rng.choice(["random", "random", "pct", "pct", "burst", "rr", "hot"])
    s = {"kind": k, "seed": W.seed_of(rng), "n": n}
    if k == "random":
        s["p"] = rng.choice([0.5, 0.2, 0.05, 0.02])
    if k == "pct":
        s["depth"] = rng.choice([1, 2, 3, 5, 8])
    if k == "burst":
        s.update(count=rng.choice([1, 3, 6]), len=rng.choice([5, 20, 60]))
    if k == "rr":
        s["k"] = rng.choice([1, 2, 3, 7, 20, 50])
    if k == "hot":
        s["share"] = rng.choice([3, 8, 20])
    return s


def gen(rng, tier):
    world = rng.choice(["f64", "f32"])
    n = rng.choice([2, 2, 2, 3, 3, 4])

    def spec(own):
        dt = "f64" if world == "f64" else rng.choice(["f32", "dbl"])
        s = zoo.gen_any(rng, adaptive=None if own else False, dtype=dt, small=True)
        if world == "f32" and s["dtype"] == "f64":
            s["dtype"] = "f32"
        return s

    models = []
    share = rng.random()
    nshared = 0 if share < 0.3 else 1 if share < 0.85 else 2
    for _ in range(nshared):
        models.append({**W.gen_slot(rng, spec(False)), "owner": None, "late": False})
    threads = []
    for t in range(n):
        mine = []
        if not nshared or rng.random() < 0.5:
            if models and rng.random() < 0.45:  # same shapes, other values
                s = dict(rng.choice(models)["spec"])
            else:
                s = spec(True)
            models.append({**W.gen_slot(rng, s), "owner": t, "late": rng.random() < 0.25})
            mine.append(len(models) - 1)
        pool = list(range(nshared)) + mine
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            m = rng.choice(pool)
            sp = models[m]["spec"]
            op = {"m": m, "x": zoo.gen_x(rng, sp), "wseed": W.seed_of(rng)}
            op["grad"] = rng.random() < 0.5
            op["nograd"] = not op["grad"] and rng.random() < 0.4
            if models[m]["owner"] is not None and rng.random() < 0.2:
                op["train"] = True
            ops.append(op)
        threads.append({"tid": t, "ops": ops})
    for m in models:
        if m["spec"].get("adaptive"):
            m["spec"] = dict(m["spec"], cutoff=1e-10)
    g = "instr" if rng.random() < 0.2 else "line"
    return {"models": models, "threads": threads, "sched": gen_sched(rng, n), "granularity": g}


class Slot(W.Slot):
    pass


def one_op(slot, op):
    """A library call on behalf of a thread; -> record to be judged later"""
    spec, model, x = slot.spec, slot.model, op["x"]
    lx, _ = zoo.make_x(spec, x)
    shape = (x["B"], spec["output_dim"]) if "output_dim" in spec else (x["B"],)
    w = W.weights(shape, op["wseed"])
    kw = zoo.call_kwargs(x)
    own = slot.owner is not None
    rec = {"P": ref.snapshot(model) if own else slot.P0}
    gs = None
    if op["nograd"]:
        with torch.no_grad():
            out = model(lx, **kw)
    else:
        out = model(lx, **kw)
    if spec.get("adaptive"):
        rec["P"] = ref.snapshot(model)
    if op["grad"]:
        ps = list(model.parameters())
        g = torch.autograd.grad((out * w.to(out.dtype)).sum(), ps, allow_unused=True, retain_graph=bool(op.get("train")))
        gs = {id(p): h for p, h in zip(ps, g)}
        gs = {n: gs[id(p)] for n, p in zoo.named(model).items()}
    if op.get("train") and not op["nograd"]:
        ps = list(model.parameters())
        g = torch.autograd.grad((out * w.to(out.dtype)).sum(), ps, allow_unused=True)
        tot = sum(float(h.abs().pow(2).sum()) for h in g if h is not None) ** 0.5
        if 0 < tot < float("inf"):
            with torch.no_grad():
                for p, h in zip(ps, g):
                    if h is not None:
                        p.sub_(0.01 * h / tot)
    rec.update(out=out.detach(), gs=gs, w=w)
    if own:
        rec["after"] = ref.snapshot(model)
    return rec


def world_of(plan):
    w = [None] * len(plan["models"])
    return w


def make(inc, models, i):
    m = models[i]
    s = Slot.__new__(Slot)
    s.name, s.spec, s.owner = i, m["spec"], m["owner"]
    s.model = zoo.build(inc, m["spec"], m["seed"])
    zoo.refill(s.model, m["spec"], m["vseed"], m["style"])
    s.P0 = ref.snapshot(s.model)
    return s


def body(inc, plan, slots, th, recs, task=None):
    for j, op in enumerate(th["ops"]):
        if task:
            task.yield_("op")
        m = op["m"]
        if slots[m] is None:
            slots[m] = make(inc, plan["models"], m)
        recs.append(one_op(slots[m], op))


def alone(plan):
    """Each thread by itself, in a process of its own"""
    recs, pts = {}, 0
    for th in plan["threads"]:
        inc = Incarnation()
        need = {op["m"] for op in th["ops"]}
        slots = [make(inc, plan["models"], i) if i in need and not m["late"] else None for i, m in enumerate(plan["models"])]
        out = []
        _, exc, info = run_call(lambda: body(inc, plan, slots, th, out), limit=5_000_000)
        if exc is not None:
            raise Violation(f"single thread: call raises {W.describe(exc)}")
        recs[th["tid"]] = out
        pts += info["points"]
    return recs, pts


def run(plan, R):
    if not plan["threads"]:
        return
    zoo.set_default(plan["models"][0]["spec"])
    solo, pts = alone(plan)
    inc = Incarnation()
    slots = [None if m["late"] else make(inc, plan["models"], i) for i, m in enumerate(plan["models"])]
    sched = dict(plan["sched"])
    sched.setdefault("est", pts)
    sched["n"] = len(plan["threads"])
    sim = Sim(sched, limit=60 * pts + 200_000)
    inside = set()
    sim.on_switch = lambda a, b, name: inside.add(a) if name not in ("op", "client") else None
    recs = {}
    for th in plan["threads"]:
        r = recs[th["tid"]] = []
        sim.spawn(lambda task, th=th, r=r: body(inc, plan, slots, th, r, task))
    default = torch.get_default_dtype()
    sim.run()
    if torch.get_default_dtype() != default:
        now = torch.get_default_dtype()
        torch.set_default_dtype(default)
        raise Violation(f"the process's default dtype is {now} after the calls, {default} before them")
    R.switches = sim.switches
    R.count("steps", sim.step)
    R.count("fault:preemption", len(sim.switches))
    R.log("switches", len(sim.switches), sim.sig.hexdigest())
    R.reach(sim.sig.hexdigest())
    R.sig = sim.sig.hexdigest()
    R.nontrivial = len(inside) >= 2
    if sim.why:
        raise Violation(f"no progress: {sim.why}")
    for t, th in zip(sim.tasks, plan["threads"]):
        if t.exc is not None:
            if isinstance(t.exc, (HarnessError, SimHang)):
                raise t.exc
            raise Violation(f"thread call raises {W.describe(t.exc)} although it succeeds alone")
    for th in plan["threads"]:
        for op, rec, sol in zip(th["ops"], recs[th["tid"]], solo[th["tid"]]):
            spec = plan["models"][op["m"]]["spec"]
            R.log("call", th["tid"], op["m"], rec["out"])
            judge(spec, op, rec, sol)


def judge(spec, op, rec, sol):
    what = f"{spec['cls']} value in a thread"
    if rec["out"].dtype != sol["out"].dtype:
        raise Violation(f"{what}: dtype {rec['out'].dtype}, alone {sol['out'].dtype} [{W.brief(spec)} {op['x']}]")
    rx = zoo.make_x(spec, op["x"])[1]
    try:
        zoo.compare(spec, rec["P"], rx, rec["out"], what)
        if rec["gs"] is not None:
            zoo.check_grads(spec, rec["P"], rx, rec["w"], rec["gs"], f"{spec['cls']} gradient in a thread")
    except Violation as v:
        raise Violation(f"{v} [{W.brief(spec)} {op['x']}]")
    if "after" in rec:
        a, b = rec["after"], sol["after"]
        if set(a) != set(b):
            raise Violation("state after a thread's calls: other entries than after the same calls alone")
        tol = 1e-3 if spec["dtype"] == "f32" else 1e-7
        for k in a:
            if not isinstance(a[k], torch.Tensor):
                if a[k] != b[k]:
                    raise Violation(f"state after a thread's calls: {k} is {a[k]}, alone {b[k]}")
                continue
            if k == "bond_list" or spec.get("adaptive"):
                continue  # SVD gauge; the function was compared above
            if a[k].numel() and float((a[k] - b[k]).abs().max()) > tol * (float(b[k].abs().max()) + 1e-30):
                raise Violation(f"state after a thread's calls: {k} differs from the same calls alone")
