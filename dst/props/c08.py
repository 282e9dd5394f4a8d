"""C08: copies of a model are faithful and independent"""
import copy
import io
import pickle

import torch

from dst import ref, twin, zoo
from dst import world as W
from dst.kernel import Incarnation, Violation, aim, run_call

BUDGET = {"quick": {"runs": 100000, "seconds": 70, "min": 100}, "thorough": {"runs": 10**7, "seconds": 780, "min": 800}}
RULE = "a run in which a copy was taken after training, a shift or an aborted call, and original and copy both went on and were compared with undisturbed twins"
STATES = "distinct (class, geometry, way of copying, last two operations before it, merge state, copy of a copy) tuples at a copy"
REAL = ["torchmps (all modules)", "copy.deepcopy, pickle, torch.save", "PyTorch autograd and optimisers"]
STUB = ["other processes (package imported afresh, pickled bytes passed over)", "feature maps and embeddings supplied by the simulated user"]
ASSUME = ["user supplied feature maps and embeddings can themselves be copied"]
SHRINK = ["ops"]
TIME = "logical: operations of the simulated user; no component reads a clock"


def gen(rng, tier):
    spec = twin.gen_spec(rng)
    slot = W.gen_slot(rng, spec)
    if rng.random() < 0.15:
        slot["style"] = None
    ops, n = [], 1
    for _ in range(rng.randint(5, 15)):
        r = rng.random()
        if r < 0.7 or n >= 4:
            op = twin.gen_hist_op(rng, spec, [("train", 5), ("eval", 4), ("set", 0.6), ("mode", 0.5)])
            op["m"] = rng.randrange(n)
            if op["op"] in ("train", "eval") and rng.random() < 0.12:
                op["fault"] = {"kind": rng.choice(["kbd", "alloc"]), "frac": rng.random()}
            ops.append(op)
        elif r < 0.75 and "fmap" in spec:
            d = spec["feature_dim"]
            fm = rng.choice([None, zoo.gen_fmap(rng, d)])
            ops.append({"op": "fmap", "m": rng.randrange(n), "fmap": fm})
        else:
            how = rng.choice(["deepcopy", "deepcopy", "pickle", "save", "other"])
            ops.append({"op": "copy", "m": rng.randrange(n), "how": how, "graph": rng.random() < 0.4, "x": zoo.gen_x(rng, spec), "proto": rng.choice([2, 3, 4, 5]), "alone": rng.random() < 0.25})
            n += 1
    if n == 1:
        ops.insert(len(ops) // 2, {"op": "copy", "m": 0, "how": rng.choice(["deepcopy", "pickle", "save", "other"]), "graph": False, "proto": 4, "alone": False, "x": None})
        n = 2
    for m in range(n):
        o = twin.gen_hist_op(rng, spec, [("train", 1), ("eval", 1)])
        o["m"] = m
        ops.append(o)
    W.flavour(rng, ops, 1)
    return {"slots": [slot], "opt": rng.choice(["sgd", "momentum", "adam"]), "ops": ops}


def do_copy(live, op, R):
    how = op["how"]
    new = twin.Live.__new__(twin.Live)
    new.spec, new.optkind, new.pts, new.inc = dict(live.spec), live.optkind, live.pts, live.inc
    live.inc.activate()
    zoo.set_default(live.spec)
    if op.get("graph") and not live.spec.get("adaptive"):
        # a graph of an evaluation is still alive while the copy is taken
        x = usable_x(live.spec, op["x"])
        live.keep = live.model(zoo.make_x(live.spec, x)[0], **zoo.call_kwargs(x))
    pair = (live.model,) if op["alone"] else (live.model, live.opt)

    def go():
        if how == "deepcopy":
            return copy.deepcopy(pair)
        if how == "pickle":
            return pickle.loads(pickle.dumps(pair, protocol=op["proto"]))
        buf = io.BytesIO()
        if how == "save":
            torch.save(pair, buf)
            buf.seek(0)
            return torch.load(buf, weights_only=False)
        data = pickle.dumps(pair, protocol=op["proto"])
        new.inc = Incarnation()
        new.inc.activate()
        return pickle.loads(data)

    val, exc, info = run_call(go)
    if exc is not None:
        raise Violation(f"copying ({how}) raises {W.describe(exc)} for {W.brief(live.spec)}")
    new.model = val[0]
    if op["alone"]:  # the user makes a new optimizer for the copy ...
        new.opt = twin.make_opt(live.optkind, new.model)
        # ... and gives it the state of the old one
        new.opt.load_state_dict(copy.deepcopy(live.opt.state_dict()))
    else:
        new.opt = val[1]
    return new


def act(live, op):
    live.inc.activate()
    if op["op"] == "fmap":
        zoo.set_default(live.spec)
        fm = op["fmap"]
        obj = zoo.make_map(live.inc, fm)
        if obj is not None and live.spec["dtype"] == "dbl" and isinstance(obj, torch.nn.Module):
            obj = obj.double()
        _, exc, info = run_call(lambda: live.model.register_feature_map(obj))
        if exc is not None:
            raise Violation(f"registering a feature map raises {W.describe(exc)}")
        live.spec = dict(live.spec, fmap=fm)
        live.opt = twin.make_opt(live.optkind, live.model)
        return ("mode", True), None, info
    if op.get("x"):
        op = dict(op, x=usable_x(live.spec, op["x"]))
    return live.apply(op, op.get("at"))


def usable_x(spec, x):
    """Without a map raw inputs need two features"""
    if "feature_dim" in spec and spec["fmap"] is None and spec["feature_dim"] != 2:
        return dict(x, emb=True)
    return x


def run(plan, R):
    p = plan["slots"][0]
    spec = p["spec"]
    inc = Incarnation()
    val, exc, _ = run_call(lambda: twin.Live(inc, spec, p["seed"], plan["opt"], p["style"], p["vseed"]), limit=3_000_000)
    if exc is not None:
        raise Violation(f"construction fails: {W.describe(exc)} for {W.brief(spec)}")
    lives, hists, recs, gen_no = [val], [[]], [[]], [0]
    sums = [twin.digest(ref.snapshot(val.model))]
    goes = {}
    for op in plan["ops"]:
        o = op["op"]
        m = op["m"] % len(lives)
        live = lives[m]
        if o == "copy":
            new = do_copy(live, op, R)
            last = tuple(h["op"] + ("!" if h.get("at") else "") for h in hists[m][-2:])
            R.reach((spec["cls"], spec.get("input_dim"), spec.get("label_site"), op["how"], last, str(new.model.state_dict().get("linear_region._extra_state")), gen_no[m]))
            R.count(f"copies_{op['how']}")
            P, Q = ref.snapshot(live.model), ref.snapshot(new.model)
            twin.same_state(Q, P, spec, f"copy ({op['how']})")
            same_params(live, new, op["how"])
            if any(h["op"] == "train" or h.get("at") for h in hists[m]):
                goes[len(lives)] = set()
                goes.setdefault(m, set())
            lives.append(new)
            hists.append(list(hists[m]))
            recs.append(list(recs[m]))
            gen_no.append(gen_no[m] + 1)
            sums.append(None)
            sums[-1] = twin.digest(ref.snapshot(new.model))
            R.log("copy", m, op["how"])
        else:
            f = op.get("fault")
            if f:
                op = dict(op, at={"kind": f["kind"], "at": aim(live.pts, f["kind"], f["frac"], 150)})
            rec, exc, info = act(live, op)
            R.count("steps", info["points"])
            if f:
                R.count(f"fault:{f['kind']}" if info["fired"] else f"unfired:{f['kind']}")
            if exc is not None and not (f and info["fired"]) and not (spec.get("adaptive") and isinstance(exc, RuntimeError) and "cutoff" in str(exc)):
                raise Violation(f"call raises {W.describe(exc)} for {W.brief(spec)}")
            if exc is not None:
                live.opt.zero_grad()
            hists[m].append(op)
            recs[m].append(rec)
            if m in goes:
                goes[m].add(o)
                R.nontrivial = R.nontrivial or sum(bool(v) for v in goes.values()) >= 2
            R.log(o, m, rec[1] if len(rec) > 1 else None)
            sums[m] = twin.digest(ref.snapshot(live.model))
        for j, other in enumerate(lives):
            if j != m and twin.digest(ref.snapshot(other.model)) != sums[j]:
                raise Violation(f"independence: {o} on model {m} changes its copy {j} ({W.brief(spec)})")
            if j != m and o != "copy" and any(q.grad is not None and bool(q.grad.abs().max() > 0) for q in other.model.parameters() if q.numel()):
                raise Violation(f"independence: {o} on model {m} leaves gradients on its copy {j}")
    shared(lives)
    for m, live in enumerate(lives):
        inc2 = Incarnation()
        zoo.set_default(spec)
        ctl = twin.Live(inc2, spec, p["seed"], plan["opt"], p["style"], p["vseed"])
        for i, (op, rec) in enumerate(zip(hists[m], recs[m])):
            want, exc, info = act(ctl, op)
            if exc is not None:
                ctl.opt.zero_grad()
            R.count("steps", info["points"])
            twin.same_record(rec, want, spec, f"model {m} after copying ({op['op']} number {i} of {len(hists[m])}, {W.brief(spec)})")
        twin.same_state(ref.snapshot(live.model), ref.snapshot(ctl.model), spec, f"final state of model {m} ({W.brief(spec)})")
    R.sig = R.h.hexdigest()


def same_params(a, b, how):
    x, y = dict(a.model.named_parameters()), dict(b.model.named_parameters())
    if list(x) != list(y):
        raise Violation(f"copy ({how}): trainable parameters {sorted(set(x) ^ set(y))[:3]} differ")
    held = {id(q) for grp in b.opt.param_groups for q in grp["params"]}
    if held != {id(q) for q in y.values()}:
        raise Violation(f"copy ({how}): its optimizer holds other parameters than it")
    if a.model.training != b.model.training:
        raise Violation(f"copy ({how}): mode differs")


def shared(lives):
    ptr = {}
    for j, l in enumerate(lives):
        for k, t in list(l.model.named_parameters()) + list(l.model.named_buffers()):
            if t.numel() == 0:
                continue
            q = t.untyped_storage().data_ptr()
            if ptr.setdefault(q, j) != j:
                raise Violation(f"independence: models {ptr[q]} and {j} share the storage of {k}")
