"""C02: MPS and TI_MPS compute the exact contraction at every point of any history"""
import torch

from dst import world as W
from dst import zoo
from dst.kernel import Incarnation

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run with at least two different kinds of state-affecting operation before an evaluation that was compared with the reference contraction"
STATES = "distinct (model geometry, kinds of the last three operations, kind and place of the last fault) tuples at a compared evaluation"
REAL = ["torchmps (all modules)", "PyTorch kernels, autograd and optimisers"]
STUB = ["feature maps supplied by the simulated user"]
ASSUME = ["CPU, single intra-op thread", "parameter values are finite and keep the exact result within the range of the dtype"]
SHRINK = ["ops"]


def gen(rng, tier):
    k = rng.choice([1, 2, 2, 3])
    slots = []
    for i in range(k):
        spec = zoo.gen_mps(rng) if rng.random() < 0.68 else zoo.gen_ti(rng)
        if i and rng.random() < 0.4:  # related model: same geometry, other dtype/values
            spec = dict(slots[0]["spec"])
        if spec.get("adaptive"):
            spec["cutoff"] = 1e-10
        slots.append(W.gen_slot(rng, spec))
    ops = []
    table = [("eval", 6), ("set", 1), ("train", 1.5), ("mode", 0.5), ("bad", 1.2), ("abort", 1.2), ("reinc", 0.4), ("empty", 0.3), ("pend", 0.5), ("cast", 0.3)]
    for _ in range(rng.randint(3, 14)):
        s = rng.randrange(k)
        spec = slots[s]["spec"]
        o = W.weighted(rng, table)
        op = {"op": o, "slot": s}
        if o in ("eval", "train", "abort"):
            op["x"] = zoo.gen_x(rng, spec)
            op["wseed"] = W.seed_of(rng)
        if o == "eval":
            op["grad"] = rng.random() < 0.6
            op["nograd"] = not op["grad"] and rng.choice([False, True, True, "inference"])
        if o == "pend":
            op["xs"] = [zoo.gen_x(rng, spec) for _ in range(rng.choice([2, 2, 3]))]
            op["order"] = rng.sample(range(len(op["xs"])), len(op["xs"]))
            op["wseed"] = W.seed_of(rng)
        if o == "empty":
            op["x"] = zoo.gen_x(rng, spec, B=0)
        if o == "abort":
            op["kind"] = rng.choice(["kbd", "kbd", "alloc", "oom"])
            op["frac"] = rng.random()
            op["grad"] = rng.random() < 0.3
        if o == "set":
            op.update(seed=W.seed_of(rng), style=W.style_for(rng, spec))
        if o == "train":
            op["lr"] = rng.choice([0.01, 0.1])
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "bad":
            op.update(kind=rng.choice(W.World.BAD), seed=W.seed_of(rng))
        ops.append(op)
    ops.append({"op": "eval", "slot": rng.randrange(k), "grad": True, "nograd": False, "wseed": 1})
    ops[-1]["x"] = zoo.gen_x(rng, slots[ops[-1]["slot"]]["spec"])
    W.flavour(rng, ops, k)
    return {"slots": slots, "ops": ops}


def run(plan, R):
    w = W.World(R)
    slots = [W.build_ok(w, i, s["spec"], s["seed"], s["style"], s["vseed"]) for i, s in enumerate(plan["slots"])]
    last, kinds = [], set()
    for op in plan["ops"]:
        s = slots[op["slot"]]
        o = op["op"]
        if o == "eval":
            w.evaluate(s, op["x"], op["grad"], op["nograd"], op["wseed"])
            R.reach((geometry(s.spec), tuple(last[-3:])))
            if len(kinds) >= 2:
                R.nontrivial = True
        elif o == "abort":
            w.evaluate(s, op["x"], op["grad"], False, op["wseed"], fault=w.fault(s, op["kind"], op["frac"]))
        elif o == "set":
            w.assign(s, op["seed"], op["style"])
        elif o == "train":
            w.train(s, op["x"], op["lr"], op["wseed"])
        elif o == "pend":
            w.pending(s, op["xs"], op["order"], op["wseed"])
        elif o == "cast" and s.spec["dtype"] != "f64":
            to = "dbl" if s.spec["dtype"] == "f32" else "f32"
            if to == "dbl" or s.spec["cls"] == "TI_MPS" or s.spec["input_dim"] <= 8 and s.spec["bond_dim"] <= 5:
                s.spec = dict(s.spec, dtype=to)
                s.model.to(torch.float64 if to == "dbl" else torch.float32)
        elif o == "mode":
            w.mode(s, op["training"])
        elif o == "bad":
            w.bad_call(s, op["kind"], op["seed"])
        elif o == "reinc":
            # crash and restart: a new process builds and fills all models again
            R.count("fault:process_restart")
            vals = [zoo.ref.snapshot(t.model) for t in slots]
            w.inc = Incarnation()
            order = sorted(range(len(slots)), key=lambda i: (i - op["slot"]) % len(slots))
            new = {}
            for i in order:
                p = plan["slots"][i]
                new[i] = W.build_ok(w, i, p["spec"], p["seed"], p["style"], p["vseed"])
            slots = [new[i] for i in range(len(slots))]
        elif o == "empty":
            w.bad_empty(s, op["x"])
        last.append(o)
        if o != "eval":
            kinds.add(o)
    R.sig = R.h.hexdigest()


def geometry(spec):
    keys = ("cls", "periodic", "parallel", "use_bias", "fixed_bias", "adaptive", "label_site", "input_dim", "dtype", "fixed_ends")
    return tuple(str(spec.get(k)) for k in keys) + (bool(spec.get("path")), bool(spec.get("fmap")))
