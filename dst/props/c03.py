"""C03: adaptive shifts preserve the function up to the documented truncation"""
import torch

from dst import adapt, ref, zoo
from dst import world as W
from dst.kernel import Violation, run_call, quietly

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run with at least two merge shifts whose result was compared with the predicted truncation, at least one of them after training or parameter changes"
STATES = "distinct (chain length, label position, boundary, bond dimension, offset, which bonds were truncated and how far, previous operation) tuples at a compared shift"
REAL = ["torchmps (all modules)", "PyTorch kernels (SVD), autograd, optimisers"]
STUB = ["feature maps supplied by the simulated user"]
ASSUME = ["the documented truncation means the best approximation with at most bond_dim singular values, none below cutoff", "shifts with (nearly) tied singular values at the truncation point have no unique result and are only counted"]
SHRINK = ["ops"]


def gen(rng, tier):
    spec = zoo.gen_mps(rng, adaptive=True)
    spec["merge_threshold"] = rng.choice([1, 1, 2, 3, 4, 7])
    if rng.random() < 0.3 and (spec["dtype"] != "f32" or spec["bond_dim"] < 6):
        spec["input_dim"] = n = rng.choice([8, 9, 10, 11, 12])
        spec["label_site"], spec["label_given"] = rng.randint(0, n), True
        spec["path"], spec["raw_dim"] = None, n
    slot = W.gen_slot(rng, spec)
    if rng.random() < 0.15:
        slot["style"] = None  # as initialised
    ops = []
    for _ in range(rng.randint(4, 14)):
        o = W.weighted(rng, [("eval", 6), ("set", 1), ("train", 2), ("mode", 0.4), ("bad", 0.5), ("abort", 0.7), ("zero", 0.12)])
        op = {"op": o, "x": zoo.gen_x(rng, spec), "wseed": W.seed_of(rng)}
        if o == "abort":
            op.update(kind=rng.choice(["kbd", "alloc", "svd"]), frac=rng.random())
        if o == "set":
            op.update(seed=W.seed_of(rng), style=W.style_for(rng, spec))
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "bad":
            op.update(kind=rng.choice(["sites", "feat", "rank4", "none"]), seed=W.seed_of(rng))
        if o == "eval":
            op["nograd"] = rng.random() < 0.3
        ops.append(op)
    W.flavour(rng, ops, 1)
    return {"slots": [slot], "ops": ops}


def run(plan, R):
    w = W.World(R)
    p = plan["slots"][0]
    spec = p["spec"]
    s = W.build_ok(w, 0, spec, p["seed"], p["style"], p["vseed"])
    X = adapt.probes(spec, p["vseed"] ^ 55)
    changed, shifts, prev = False, 0, "start"
    for op in plan["ops"]:
        o = op["op"]
        if o in ("eval", "train", "abort"):
            P = s.snap()
            sh = adapt.Shift(spec, P)
            fault = None
            if o == "abort":
                fault = w.fault(s, op["kind"], op["frac"]) if op["kind"] != "svd" else {"kind": "svd", "at": int(op["frac"] * 3)}
            out, failed = call(w, s, op, fault, sh)
            Q = s.snap() if o != "train" or failed else out[1]
            R.log(o, "failed" if failed else out[0], adapt.kinds(spec, Q)[0])
            n = judge(R, spec, P, Q, sh, X, prev, failed)
            if n:
                shifts += 1
                R.nontrivial = R.nontrivial or (shifts >= 2 and changed)
            if not failed:
                rx = zoo.make_x(spec, op["x"])[1]
                zoo.compare(spec, Q, rx, out[0], "output after shift" if n else "output between shifts")
            changed = changed or o == "train"
        elif o == "set":
            w.assign(s, op["seed"], op["style"])
            changed = True
        elif o == "zero":
            # an exactly zero lone core: the function is zero, and stays so
            P = s.snap()
            names = [k for kind, k, _ in ref.mps_layout(spec, P) if kind in ("site", "out")]
            if names:
                zoo.assign(s.model, {names[op["wseed"] % len(names)]: torch.zeros((), dtype=torch.float64)})
                R.count("probe:zero_core")
        elif o == "mode":
            w.mode(s, op["training"])
        elif o == "bad":
            w.bad_call(s, op["kind"], op["seed"])
        prev = o
    R.sig = R.h.hexdigest()


def call(w, s, op, fault, sh):
    """-> ((output, snapshot after the call), failed)"""
    spec, R = s.spec, w.R
    zoo.set_default(spec)
    lx, _ = zoo.make_x(spec, op["x"])
    wt = W.weights((op["x"]["B"], spec["output_dim"]), op["wseed"])

    def go():
        if op.get("nograd"):
            with torch.no_grad():
                return s.model(lx), None
        out = s.model(lx)
        snap = None
        if op["op"] == "train":
            s.model.zero_grad()
            (out * wt.to(out.dtype)).sum().backward()
            snap = s.snap()
            ps = [p for p in s.model.parameters() if p.grad is not None]
            tot = sum(float(p.grad.pow(2).sum()) for p in ps) ** 0.5
            if 0 < tot < float("inf"):
                quietly(torch.optim.SGD(ps, lr=0.03 / tot).step)
            s.model.zero_grad()
        return out, snap

    val, exc, info = run_call(go, fault)
    R.count("steps", info["points"])
    if fault:
        if info["fired"]:
            R.count(f"fault:{fault['kind']}")
        else:
            R.count(f"unfired:{fault['kind']}")
    if exc is not None:
        if fault and info["fired"]:
            return None, True
        if sh.may_remove_all and isinstance(exc, RuntimeError):
            R.count("fault:cutoff_removes_all")
            return None, True
        raise Violation(f"adaptive call raises {W.describe(exc)} for {W.brief(spec)}")
    s.pts = info["trace"]
    return val, False


def judge(R, spec, P, Q, sh, X, prev, failed):
    """Function before and after one call; -> shifted and compared?"""
    before, after = adapt.kinds(spec, P), adapt.kinds(spec, Q)
    if before == after:
        if not adapt.active_equal(spec, P, Q):
            raise Violation("evaluation without a shift changes the function's parameters")
        return False
    if before[1] != after[1]:
        raise Violation("the number of cores changed")
    if failed and sh.removes_all:
        raise Violation("shift removing everything took place")
    if sh.fuzzy or sh.may_remove_all or (spec["dtype"] == "f32" and sh.amp > 1e3):
        R.count(f"probe:not_unique_{sh.fuzzy or 'amp'}")
        return False
    trunc = tuple((b, len(S) - lo if lo == hi else -1) for b, S, lo, hi, s0 in sh.splits)
    adapt.same_function(spec, Q, sh.output(X), X, "function after a shift")
    R.count("shifts")
    if any(k for _, k in trunc) or sh.amp > 1:
        R.count("probe:truncating_shift")
    else:
        R.count("probe:lossless_shift")
    R.reach((spec["input_dim"], spec["label_site"], spec["periodic"], spec["bond_dim"], before[0][:1], trunc, sh.amp > 1, prev))
    return True
