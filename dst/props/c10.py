"""C10: the last accepted feature map is the one used, trained and saved"""
import torch

from dst import ref, usermaps, zoo
from dst import world as W
from dst.kernel import Incarnation, Violation, run_call

BUDGET = {"quick": {"runs": 100000, "seconds": 70, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run with at least two accepted registrations, or one accepted and one rejected, raising or aborted one, each followed by compared evaluations (or a trainable embedding changed by training between two of them)"
STATES = "distinct (class, sequence of the last four registrations with their kinds and ends, kind of check) tuples"
REAL = ["torchmps (all modules)", "PyTorch kernels and autograd"]
STUB = ["feature maps and embeddings supplied by the simulated user"]
ASSUME = ["user supplied maps are deterministic"]
SHRINK = ["ops"]
TIME = "logical: operations of the simulated user; no component reads a clock"


def gen_map(rng, d):
    r = rng.random()
    if r < 0.62:
        return zoo.gen_fmap(rng, d)
    if r < 0.78:
        return {"kind": "bad", "d": d, "how": rng.choice(["size", "rank", "scalar", "list"])}
    if r < 0.87:
        return {"kind": "badmod", "d": d, "how": rng.choice(["size", "rank", "scalar", "list"])}
    if r < 0.95:
        return {"kind": "raise", "d": d, "ok": 0}
    return {"kind": "raise", "d": d, "ok": 1}


def gen(rng, tier):
    k = rng.choice([1, 1, 2])
    slots = []
    for i in range(k):
        r = rng.random()
        if r < 0.45:
            spec = zoo.gen_mps(rng, small=True)
            if spec["adaptive"]:
                spec["cutoff"] = 1e-10
        elif r < 0.8:
            spec = zoo.gen_ti(rng, small=True)
        else:
            spec = zoo.gen_prob(rng, emb=rng.choice(["embtab", "embfeat", "mlp"]), small=True)
        if i and "feature_dim" in spec and "feature_dim" in slots[0]["spec"]:
            spec.update(dtype=slots[0]["spec"]["dtype"])
            if spec["cls"] == "MPS" or not spec["fixed_ends"]:
                spec["feature_dim"] = slots[0]["spec"]["feature_dim"]
            spec["fmap"] = None
        slots.append(W.gen_slot(rng, spec))
    maps = {}
    for d in {s["spec"]["feature_dim"] for s in slots if "feature_dim" in s["spec"]}:
        maps[str(d)] = [gen_map(rng, d) for _ in range(rng.randint(2, 5))]
    ops = []
    for _ in range(rng.randint(4, 14)):
        s = rng.randrange(k)
        spec = slots[s]["spec"]
        op = {"slot": s, "wseed": W.seed_of(rng), "x": gen_x(rng, spec)}
        table = [("reg", 5), ("eval", 4), ("train", 2), ("save", 1), ("mode", 0.4), ("set", 0.6), ("abort", 0.5), ("bad", 0.3)]
        op["op"] = o = W.weighted(rng, table)
        if o == "reg":
            if "feature_dim" not in spec:
                op["op"] = o = "train"
            else:
                n = len(maps[str(spec["feature_dim"])])
                op["map"] = rng.choice([None, *range(n), *range(n)])
                if rng.random() < 0.3:
                    op["fault"] = {"kind": rng.choice(["kbd", "kbd", "alloc"]), "frac": rng.random()}
        if o == "set":
            op.update(seed=W.seed_of(rng), style=W.style_for(rng, spec))
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "abort":
            op["kind"], op["frac"] = rng.choice(["kbd", "alloc"]), rng.random()
        if o == "bad":
            op.update(kind=rng.choice(["sites", "feat", "rank1", "none", "list"]), seed=W.seed_of(rng))
        op["grad"] = rng.random() < 0.7
        ops.append(op)
        if o == "reg" and rng.random() < 0.5:
            ops.append({"op": "eval", "slot": s, "grad": True, "wseed": W.seed_of(rng), "x": gen_x(rng, spec)})
    for s in range(k):
        ops.append({"op": "eval", "slot": s, "grad": True, "wseed": 1, "x": gen_x(rng, slots[s]["spec"])})
    W.flavour(rng, ops, k)
    return {"slots": slots, "maps": maps, "ops": ops}


def gen_x(rng, spec):
    x = zoo.gen_x(rng, spec)
    if "feature_dim" in spec:
        x["emb"] = rng.random() < 0.15
    return x


class User:
    """What the simulated user knows about one model"""

    def __init__(self, slot, obj):
        self.slot, self.obj, self.hist = slot, obj, []


def run(plan, R):
    w = W.World(R)
    users = []
    for i, p in enumerate(plan["slots"]):
        s = W.build_ok(w, i, p["spec"], p["seed"], p["style"], p["vseed"])
        s.spec = dict(s.spec)
        own = None
        if "feature_dim" in s.spec:
            own = s.model.feature_map if isinstance(s.model.feature_map, torch.nn.Module) else None
        elif s.spec["emb"]:
            own = s.model.embedding.emb_module if hasattr(s.model.embedding, "emb_module") else None
        users.append(User(s, own))
    pool = {}
    trained = 0
    for op in plan["ops"]:
        u = users[op["slot"]]
        s, o = u.slot, op["op"]
        spec = s.spec
        if o == "reg":
            register(w, plan, u, op, pool)
        elif o in ("eval", "abort"):
            f = w.fault(s, op["kind"], op["frac"]) if o == "abort" else None
            use(w, s, op, f)
            R.reach((spec["cls"], tuple(u.hist[-4:]), o))
            if o == "eval":
                ends = [h[1] for h in u.hist]
                if ends.count("ok") >= 2 or ("ok" in ends and len(set(ends)) > 1) or (trained and "emb" in spec):
                    R.nontrivial = True
        elif o == "train":
            if not raises(spec) or fix_x(spec, op["x"]).get("emb"):
                w.train(s, fix_x(spec, op["x"]), 0.05, op["wseed"])
                trained += 1
        elif o == "save":
            save(w, plan, u, op)
        elif o == "mode":
            w.mode(s, op["training"])
            if u.obj is not None and any(m.training != op["training"] for m in u.obj.modules()):
                raise Violation("mode change does not reach the registered map")
        elif o == "set":
            w.assign(s, op["seed"], op["style"])
        elif o == "bad":
            w.bad_call(s, op["kind"], op["seed"])
        for v in users:
            exposed(v.slot, v.obj)
    R.sig = R.h.hexdigest()


def raises(spec):
    return bool(spec.get("fmap")) and spec["fmap"]["kind"] == "raise"


def fix_x(spec, x):
    if "feature_dim" in spec and spec["fmap"] is None and spec["feature_dim"] != 2:
        return dict(x, emb=True)
    return x


def use(w, s, op, fault=None):
    """Evaluate with the map which should be in force"""
    spec, x = s.spec, op["x"]
    if raises(spec) and not x.get("emb"):
        zoo.set_default(spec)
        val, exc, info = run_call(lambda: s.model(zoo.make_x(dict(spec, fmap=None), x)[0]))
        if exc is None:
            raise Violation("evaluation succeeds although the feature map in force raises")
        w.R.count("fault:map_raises")
        return
    if "feature_dim" in spec and spec["fmap"] is None and spec["feature_dim"] != 2 and not x.get("emb"):
        # no usable map: raw input cannot be embedded
        zoo.set_default(spec)
        val, exc, info = run_call(lambda: s.model(zoo.make_x(spec, x)[0]))
        if exc is None:
            raise Violation(f"raw input is embedded although there is no map for {spec['feature_dim']} features")
        x = dict(x, emb=True)
    w.evaluate(s, x, op["grad"], bool(op.get("nograd")) and not fault, op["wseed"], fault=fault)


def make(w, s, m, pool, key):
    """User's map object: the same object whenever it is registered again"""
    if m is None:
        return None
    key = key + (s.spec["dtype"],)
    if key not in pool:
        zoo.set_default(s.spec)
        obj = zoo.make_map(w.inc, m)
        if isinstance(obj, torch.nn.Module) and s.spec["dtype"] == "dbl":
            obj = obj.double()
        pool[key] = obj
    obj = pool[key]
    if isinstance(obj, usermaps.RaisingMap):
        obj.n = 0
    return obj


def register(w, plan, u, op, pool):
    s = u.slot
    d = str(s.spec["feature_dim"])
    m = None if op["map"] is None else plan["maps"][d][op["map"]]
    obj = make(w, s, m, pool, (d, op["map"]))
    zoo.set_default(s.spec)
    kind = m["kind"] if m else "default"
    old, oldobj = s.spec["fmap"], u.obj
    f = op.get("fault")
    if f:
        f = {"kind": f["kind"], "at": int(f["frac"] * (9 if f["kind"] == "kbd" else 14))}
    before = ref.snapshot(s.model)
    val, exc, info = run_call(lambda: s.model.register_feature_map(obj), f)
    fired = bool(f and info["fired"])
    if f:
        w.R.count(f"fault:{f['kind']}" if fired else f"unfired:{f['kind']}")
        if fired:
            w.R.reach(("registration aborted", s.spec["cls"], kind, info["fired"]))
    reject = kind in ("bad", "badmod") or kind == "raise" and m["ok"] == 0
    new = (m, obj if isinstance(obj, torch.nn.Module) else None)
    w.R.log("reg", s.name, kind, type(exc).__name__ if exc else None)
    if exc is None:
        if reject:
            raise Violation(f"registration of a map that {'raises' if kind == 'raise' else 'returns ' + m['how']} is accepted")
        end, cands = "ok", [new]
    elif fired:
        end, cands = "aborted", [(old, oldobj)] + ([] if reject else [new])
    elif reject:
        end, cands = "rejected", [(old, oldobj)]
        w.R.count(f"fault:registration_{kind}")
    else:
        raise Violation(f"registering a {kind} map raises {W.describe(exc)} [{W.brief(s.spec)}]")
    first = None
    for cand, cobj in cands:
        s.spec["fmap"] = cand
        try:
            exposed(s, cobj)
            if not (cand and cand["kind"] == "raise"):
                use(w, s, dict(op, x=dict(op["x"], emb=False), grad=False))
            else:
                use(w, s, dict(op, x=dict(op["x"], emb=False)))
            break
        except Violation as v:
            first = first or v
    else:
        raise Violation(f"after a registration ({kind}) that was {end}: {first}")
    u.obj = cobj
    u.hist.append((kind, end))
    if end != "ok" and cand is old and not s.spec.get("adaptive"):
        after = ref.snapshot(s.model)
        for k, v in before.items():
            if isinstance(v, torch.Tensor) and not torch.equal(v.nan_to_num(), after[k].nan_to_num()):
                raise Violation(f"a registration that was {end} changes {k}")


def exposed(s, obj):
    """The map's parameters are those of the model exactly while in force"""
    spec, model = s.spec, s.model
    pre = "feature_map." if "feature_dim" in spec else "embedding."
    ids = [id(p) for p in model.parameters()]
    if len(set(ids)) != len(ids):
        raise Violation("a parameter is exposed twice")
    names = {n: p for n, p in model.named_parameters(remove_duplicate=False)}
    mine = {id(p) for n, p in names.items() if n.startswith(pre)}
    want = {id(p): n for n, p in obj.named_parameters()} if obj is not None else {}
    if mine - set(want):
        raise Violation("parameters of a map that is not in force are still among the model's")
    if set(want) - mine:
        raise Violation(f"parameter {want[(set(want) - mine).pop()]} of the map in force is not among the model's")
    state = {k: v for k, v in model.state_dict().items() if k.startswith(pre)}
    if len(state) != len(obj.state_dict() if obj is not None else {}):
        raise Violation(f"saved state has {len(state)} entries of the map instead of {len(obj.state_dict() if obj is not None else {})}")
    ptrs = {v.untyped_storage().data_ptr() for v in state.values()}
    if obj is not None and any(p.untyped_storage().data_ptr() not in ptrs for p in obj.parameters()):
        raise Violation("saved state does not hold the parameters of the map in force")


def save(w, plan, u, op):
    """Saved state fits a new model with an equal map and reproduces this one"""
    s = u.slot
    p = plan["slots"][s.name]
    spec = dict(s.spec)
    if raises(spec):
        spec["fmap"] = None
    if spec.get("fmap"):
        spec["fmap"] = dict(spec["fmap"], seed=spec["fmap"]["seed"] ^ 77)
    t = W.build_ok(w, s.name, spec, p["seed"] ^ 5)
    state = {k: (v.clone() if isinstance(v, torch.Tensor) else v) for k, v in s.model.state_dict().items()}
    _, exc, _ = run_call(lambda: t.model.load_state_dict(state))
    if exc is not None:
        raise Violation(f"saved state does not fit a model with the same map: {W.describe(exc)} [{W.brief(spec)}]")
    w.R.log("save", s.name, len(state))
    x = fix_x(spec, op["x"])
    w.evaluate(t, x, False, False, op["wseed"], what="output of the restored model")
