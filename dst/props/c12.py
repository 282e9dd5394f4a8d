"""C12: only model construction draws random numbers"""
import copy
import io
import pickle

import torch

from dst import ref, twin, zoo
from dst import rng as G
from dst import world as W
from dst.kernel import HarnessError, Incarnation, Sim, SimHang, Violation, aim, run_call, quietly
from dst.props import c11
from dst.props.c01 import gen_sched
from dst.props.c08 import usable_x

BUDGET = {"quick": {"runs": 100000, "seconds": 70, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run in which generator states were compared around calls of at least four kinds including a training step, or a bystander thread drew numbers while a call was between two of its statements"
STATES = "distinct (class, operation, how it ended, where it was aborted) tuples around which generator states were compared, and distinct interleavings"
REAL = ["torchmps (all modules)", "the global generators of PyTorch, NumPy and random", "PyTorch kernels, autograd, optimisers"]
STUB = ["thread scheduling in runs with a bystander thread", "other processes (package imported afresh)"]
ASSUME = ["CPU, single intra-op thread", "PyTorch kernels draw no random numbers unless documented"]
SHRINK = ["ops", "uses"]
TIME = "logical: operations and scheduler steps; no component reads a clock"

OPS = [("eval", 4), ("train", 4), ("grad", 1), ("norm", 0.7), ("save", 0.7), ("copy", 0.7), ("map", 0.8), ("bad", 0.8), ("shuffle", 1), ("hv", 0.5), ("set", 0.4), ("mode", 0.3), ("svd", 0.5), ("info", 0.3)]


def gen(rng, tier):
    threaded = rng.random() < 0.3
    k = rng.choice([1, 1, 2])
    slots = []
    for i in range(k):
        spec = twin.gen_spec(rng)
        if i:
            spec["dtype"] = slots[0]["spec"]["dtype"] if spec["cls"] in ("MPS", "TI_MPS") or slots[0]["spec"]["dtype"] != "dbl" else "f32"
        slots.append(W.gen_slot(rng, spec))
    ops = [{"op": "new", "m": i} for i in range(k)]
    for _ in range(rng.randint(3, 12) if not threaded else rng.randint(2, 5)):
        m = rng.randrange(k)
        o = W.weighted(rng, OPS)
        op = {"op": o, "m": m, "x": zoo.gen_x(rng, slots[m]["spec"]), "wseed": W.seed_of(rng)}
        if o == "set":
            op.update(seed=W.seed_of(rng), style=W.style_for(rng, slots[m]["spec"]))
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "bad":
            op.update(kind=rng.choice(W.World.BAD), seed=W.seed_of(rng))
        if o == "copy":
            op["how"] = rng.choice(["deepcopy", "pickle"])
        if o in ("shuffle", "hv"):
            while True:
                op["call"] = c11.gen_call(rng)
                if op["call"]["op"] == o:
                    break
        if o == "svd":
            op.update(a=rng.randint(1, 5), b=rng.randint(1, 5), maxd=rng.choice([None, 2, 4]), seed=W.seed_of(rng))
        if o == "map":
            d = slots[m]["spec"].get("feature_dim")
            op["fmap"] = None if d is None else rng.choice([None, zoo.gen_fmap(rng, d), {"kind": "bad", "d": d, "how": "size"}, {"kind": "raise", "d": d, "ok": 0}])
        if rng.random() < 0.2 and o in ("eval", "train", "norm", "grad", "shuffle", "hv", "map"):
            op["fault"] = {"kind": rng.choice(["kbd", "kbd", "alloc", "oom"]), "frac": rng.random()}
        if rng.random() < 0.08:
            ops.append({"op": "new", "m": m})
        ops.append(op)
    uses = [{"kind": rng.choice(G.KINDS), "k": W.seed_of(rng)} for _ in range(rng.randint(0, 8) if not threaded else rng.randint(4, 30))]
    plan = {"slots": slots, "opt": rng.choice(["sgd", "momentum", "adam"]), "ops": ops, "uses": uses, "threaded": threaded, "gseed": W.seed_of(rng)}
    if threaded:
        plan["sched"] = gen_sched(rng, 2)
    return plan


class Hist:
    """One execution of the operations, in a process of its own"""

    def __init__(self, plan):
        self.plan, self.inc, self.lives, self.pts = plan, Incarnation(), {}, {}

    def new(self, m):
        p = self.plan["slots"][m]
        zoo.set_default(p["spec"])
        live = twin.Live.__new__(twin.Live)
        live.spec, live.optkind, live.pts, live.inc = dict(p["spec"]), self.plan["opt"], None, self.inc
        # torch.manual_seed of the harness replaced by the user's own stream
        seed = torch.manual_seed
        torch.manual_seed = lambda s: None
        try:
            live.model = zoo.build(self.inc, p["spec"], p["seed"])
        finally:
            torch.manual_seed = seed
        live.init = {k: v.detach().clone() for k, v in live.model.state_dict().items() if isinstance(v, torch.Tensor)}
        live.opt = twin.make_opt(live.optkind, live.model)
        self.lives[m] = live
        return live

    def op(self, op):
        """-> nullary function performing the operation and returning a value to compare"""
        o = op["op"]
        if o in ("shuffle", "hv"):
            torch.set_default_dtype(torch.float32)
            return lambda: list(c11.call(self.inc, op["call"]))
        if o == "svd":
            zoo.set_default(self.plan["slots"][0]["spec"])
            t = torch.randn(op["a"], 2, op["b"], generator=zoo.gen_t(op["seed"]))
            utils = self.inc.pkg.utils
            return lambda: list(utils.svd_flex(t, "aub->aul,lb", max_D=op["maxd"])[:2])
        live = self.lives[op["m"]]
        spec, model = live.spec, live.model
        zoo.set_default(spec)
        x = usable_x(spec, op["x"])
        if o == "bad":
            w = W.World.__new__(W.World)
            slot = W.Slot.__new__(W.Slot)
            slot.spec, slot.model = spec, model
            lx = w.bad_input(slot, op["kind"], op["seed"])
            return lambda: model(lx)
        lx, _ = zoo.make_x(spec, x)
        kw = zoo.call_kwargs(x)
        shape = (x["B"], spec["output_dim"]) if "output_dim" in spec else (x["B"],)
        wt = W.weights(shape, op["wseed"])
        if o == "eval":

            def go():
                with torch.no_grad():
                    return model(lx, **kw)

            return go
        if o == "grad":
            ps = list(model.parameters())

            def go():
                out = model(lx, **kw)
                return list(torch.autograd.grad((out * wt.to(out.dtype)).sum(), ps, allow_unused=True))

            return go
        if o == "train":

            def go():
                live.opt.zero_grad()
                out = model(lx, **kw) if "output_dim" in spec else -model.loss(lx, **kw)
                if not bool(out.isfinite().all()):
                    return out
                ((out * wt.to(out.dtype)).sum() if out.dim() else out).backward()
                ps = [p for p in model.parameters() if p.grad is not None]
                tot = sum(float(p.grad.abs().pow(2).sum()) for p in ps) ** 0.5
                if 0 < tot < float("inf"):
                    for p in ps:
                        p.grad /= tot
                    quietly(live.opt.step)
                return out

            return go
        if o == "norm":
            if spec["cls"] == "ProbMPS":
                return lambda: model.log_norm()
            if spec["cls"] == "ProbUnifMPS":
                return lambda: model.log_norm(x["len"])
            if spec["cls"] == "MPS":
                return lambda: model.embed_input(lx) if lx.dim() == 2 and not spec["path"] else None
            return lambda: None
        if o == "save":

            def go():
                buf = io.BytesIO()
                torch.save(model.state_dict(), buf)
                buf.seek(0)
                model.load_state_dict(torch.load(buf, weights_only=False))

            return go
        if o == "copy":

            def go():
                c = copy.deepcopy(model) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(model))
                with torch.no_grad():
                    return c(lx, **kw)

            return go
        if o == "map":
            if "feature_dim" not in spec:
                return lambda: None
            fm = op["fmap"]
            obj = zoo.make_map(self.inc, fm)
            if isinstance(obj, torch.nn.Module) and spec["dtype"] == "dbl":
                obj = obj.double()

            def go():
                model.register_feature_map(obj)
                live.spec = dict(live.spec, fmap=fm)
                live.opt = twin.make_opt(live.optkind, model)

            return go
        if o == "info":
            return lambda: [repr(model)[:0], len(list(model.parameters())), getattr(model, "input_dim", None)]
        if o == "set":
            return lambda: zoo.refill(model, spec, op["seed"], op["style"])
        if o == "mode":
            return lambda: (model.train(op["training"]), None)[1]
        raise HarnessError(o)


def may_fail(op, live, exc):
    if op["op"] == "bad" or op["op"] == "map" and op["fmap"] and op["fmap"]["kind"] in ("bad", "raise"):
        return True
    if isinstance(exc, RuntimeError) and "cutoff" in str(exc):
        return True
    return op["op"] in ("eval", "train", "grad", "copy", "norm") and isinstance(exc, AssertionError)  # probability model out of range


def run(plan, R):
    if plan["threaded"]:
        return run_threaded(plan, R)
    # first execution, with the states compared around every call
    h1, recs = execute(plan, R, plan["gseed"], [])
    kinds = {r[0] for r in recs}
    R.nontrivial = len(kinds) >= 4 and "train" in kinds
    # the same with foreign generators in other states and in use in between
    h2, again = execute(plan, R, plan["gseed"], plan["uses"])
    for i, (a, b) in enumerate(zip(recs, again)):
        if a[1] != b[1]:
            raise Violation(f"history does not repeat: operation {i} ({a[0]}) ends with {a[1]} and with {b[1]} when NumPy's and Python's generators are used meanwhile")
        if not same(a[2], b[2], plan, exact=a[0] == "new"):
            raise Violation(f"history does not repeat: {a[0]} (operation {i}) gives other values when NumPy's and Python's generators are used meanwhile")
        if a[3] != b[3]:
            raise Violation(f"history does not repeat: {a[0]} (operation {i}) leaves PyTorch's generator in another state when NumPy's and Python's generators are used meanwhile")
    R.sig = R.h.hexdigest()


def same(a, b, plan, exact):
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        a, b = a.detach(), b.detach()
        if exact:
            return a.dtype == b.dtype and a.shape == b.shape and torch.equal(a.nan_to_num(), b.nan_to_num())
        return twin.close(a, b, plan["slots"][0]["spec"] if not any(s["spec"]["dtype"] == "f32" for s in plan["slots"]) else {"dtype": "f32"})
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, plan, exact) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], plan, exact) for k in a)
    return a == b


def execute(plan, R, gseed, uses):
    G.reset(gseed)
    if uses:
        G.use("np.seed", gseed + 1)
        G.use("r.seed", gseed + 2)
    h, recs = Hist(plan), []
    foreign = [u for u in uses if not u["kind"].startswith("t.")]
    for i, op in enumerate(plan["ops"]):
        if foreign:
            u = foreign[i % len(foreign)]
            G.use(u["kind"], u["k"])
            R.count("fault:foreign_generator_use")
        before = G.states()
        o = op["op"]
        if o == "new":
            val, exc, info = run_call(lambda: h.new(op["m"]), limit=3_000_000)
            if exc is not None:
                raise Violation(f"construction fails: {W.describe(exc)}")
            after = G.states()
            changed = [g for g in ("numpy", "random") if after[g] != before[g]]
            if changed:
                raise Violation(f"constructing {W.brief(val.spec)} changes the generator of {' and '.join(changed)}")
            R.reach((val.spec["cls"], "new"))
            R.log("new", op["m"], twin.digest(val.init))
            recs.append(("new", None, val.init, after["torch"]))
            continue
        if op["m"] not in h.lives:
            continue
        live = h.lives[op["m"]]
        go = h.op(op)
        before2 = G.states()
        if before2 != before:
            raise HarnessError("harness uses a global generator")
        f = op.get("fault")
        if f:
            f = {"kind": f["kind"], "at": aim(h.pts.get((o, op["m"])), f["kind"], f["frac"], 60)}
        val, exc, info = run_call(go, f)
        if not (f and info["fired"]):
            h.pts[(o, op["m"])] = info["trace"]
        R.count("steps", info["points"])
        after = G.states()
        end = type(exc).__name__ if exc is not None else "returns"
        if f:
            R.count(f"fault:{f['kind']}" if info["fired"] else f"unfired:{f['kind']}")
        if o == "bad" and exc is not None:
            R.count("fault:bad_input")
        changed = [g for g in after if after[g] != before[g]]
        if changed:
            raise Violation(f"{o} that {end if end == 'returns' else 'raises ' + end} changes the global generator of {' and '.join(changed)} [{W.brief(live.spec)}]")
        if exc is not None and not (f and info["fired"]) and not may_fail(op, live, exc):
            raise Violation(f"{o} raises {W.describe(exc)} [{W.brief(live.spec)}]")
        R.reach((live.spec["cls"], o, end, info["fired"]))
        R.log(o, op["m"], end)
        recs.append((o, end, None if exc is not None else val, after["torch"]))
    return h, recs


def run_threaded(plan, R):
    """A bystander thread uses the generators while library calls run"""
    G.reset(plan["gseed"])
    h = Hist(plan)
    todo = []
    for op in plan["ops"]:
        if op["op"] == "new" and op["m"] not in h.lives:
            _, exc, info = run_call(lambda: h.new(op["m"]), limit=3_000_000)
            if exc is not None:
                raise Violation(f"construction fails: {W.describe(exc)}")
        elif op["op"] not in ("new", "set", "mode") and op["m"] in h.lives:
            todo.append(op)
    start = (torch.get_rng_state(), G.np.random.get_state(), G.random.getstate())
    want = [G.use(u["kind"], u["k"]) for u in plan["uses"]]
    want_end = G.states()
    torch.set_rng_state(start[0])
    G.np.random.set_state(start[1])
    G.random.setstate(start[2])
    sched = dict(plan["sched"], n=2)
    sched.setdefault("est", 400)
    sim = Sim(sched)
    inside = {"n": 0, "in": False}

    def caller(task):
        for op in todo:
            task.yield_("op")
            go = h.op(op)
            f = op.get("fault")
            if f and f["kind"] == "kbd":
                task.stop_at = max(1, int(f["frac"] * 150))
            inside["in"] = True
            try:
                go()
            except KeyboardInterrupt:
                R.count("fault:kbd")
            except Exception as e:  # rejected or out of range: C02, C09 judge that
                if not may_fail(op, h.lives[op["m"]], e):
                    raise
            finally:
                task.stop_at = None
                inside["in"] = False

    got = []

    def bystander(task):
        for u in plan["uses"]:
            task.yield_("use")
            if inside["in"]:
                inside["n"] += 1
            got.append(G.use(u["kind"], u["k"]))
            sim.sig.update(u["kind"].encode())

    sim.spawn(caller)
    sim.spawn(bystander)
    sim.run()
    R.switches = sim.switches
    R.count("steps", sim.step)
    R.count("fault:preemption", len(sim.switches))
    R.count("fault:foreign_generator_use", len(got))
    R.reach(sim.sig.hexdigest())
    R.sig = sim.sig.hexdigest()
    R.nontrivial = inside["n"] > 0
    if sim.why:
        raise Violation(f"no progress: {sim.why}")
    for t in sim.tasks:
        if t.exc is not None:
            if isinstance(t.exc, (HarnessError, SimHang)):
                raise t.exc
            raise Violation(f"call raises {W.describe(t.exc)} while another thread uses the generators")
    for u, a, b in zip(plan["uses"], got, want):
        if a != b:
            raise Violation(f"a bystander's draw ({u['kind']}) gives other numbers because of library calls in another thread")
    end = G.states()
    if end != want_end:
        raise Violation(f"library calls in a thread changed the generator of {' and '.join(g for g in end if end[g] != want_end[g])}")
