"""C09: probabilistic models report normalised Born-rule log probabilities at every moment"""
import itertools

import torch

from dst import ref, zoo
from dst import world as W
from dst.kernel import Incarnation, Violation, run_call

F64 = torch.float64

BUDGET = {"quick": {"runs": 100000, "seconds": 70, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run in which a training step, a parameter change, an aborted or a rejected call preceded an evaluation that was compared with the reference"
STATES = "distinct (class, embedding, complex, bias, evaluation mode, kinds of the last three operations) tuples at a compared call"
REAL = ["torchmps.prob_mps, mps_base, embeddings, utils2", "PyTorch kernels and autograd"]
STUB = ["embeddings supplied by the simulated user"]
ASSUME = ["CPU, single intra-op thread", "parameter values keep amplitudes of single sites within the range of the dtype", "trapezoidal rule with 1000 points is good enough for the embeddings used (relative error below 1e-5)"]
SHRINK = ["ops"]
TIME = "logical: operations of the simulated user; no component reads a clock"


def gen(rng, tier):
    slots = []
    k = rng.choice([1, 1, 2, 2])
    for i in range(k):
        spec = zoo.gen_prob(rng)
        share = False
        if i and slots[0]["spec"]["emb"] and rng.random() < 0.5:
            # a second model using the same embedding object
            e = slots[0]["spec"]
            share = e["emb"].get("wrap") or e["emb"]["kind"] in ("embtab", "embfeat", "mlp")
            if share:
                spec = dict(spec, emb=e["emb"], input_dim=e["input_dim"], dtype=e["dtype"])
                if e["emb"].get("cplx"):
                    spec["complex"] = True
        if i:
            spec["dtype"] = slots[0]["spec"]["dtype"]
            if spec["dtype"] == "dbl" and (spec["emb"] or spec["complex"]):
                spec["dtype"] = "f32"
        r = rng.random()
        if r < 0.12:
            spec["seq_len"] = rng.choice([20, 40, 90, 170])
        elif r < 0.3:
            spec["seq_len"] = rng.choice([1, 2, 3])
        slot = W.gen_slot(rng, spec)
        if spec["seq_len"] > 6:
            slot["style"] = rng.choice(["positive", "scales"])
        if rng.random() < 0.12:
            slot["style"] = None
        slot["share"] = bool(share)
        slots.append(slot)
    ops = []
    table = [("eval", 6), ("modes", 1), ("loss", 1.2), ("norm", 1.5), ("sum", 1.2), ("train", 3), ("set", 1.5), ("mode", 0.4), ("bad", 0.8), ("abort", 1.2), ("reinc", 0.2)]
    for _ in range(rng.randint(3, 13)):
        s = rng.randrange(k)
        spec = slots[s]["spec"]
        o = W.weighted(rng, table)
        op = {"op": o, "slot": s, "wseed": W.seed_of(rng)}
        if o in ("eval", "train", "abort", "modes", "loss"):
            op["x"] = gen_x(rng, spec)
            op["grad"] = rng.random() < 0.5
            op["nograd"] = not op["grad"] and rng.random() < 0.4
        if o == "train":
            op["lr"] = rng.choice([0.01, 0.1])
        if o == "abort":
            op["kind"] = rng.choice(["kbd", "kbd", "alloc", "oom"])
            op["frac"] = rng.random()
            op["what"] = rng.choice(["eval", "eval", "norm"])
        if o in ("norm", "abort"):
            op["len"] = spec["seq_len"] if spec["cls"] == "ProbMPS" else rng.choice([1, 2, 3, 4, 7, 12])
            op["grad"] = rng.random() < 0.5
        if o == "sum":
            op["len"] = spec["seq_len"] if spec["cls"] == "ProbMPS" else rng.choice([1, 2, 3])
            op["mode"] = rng.choice([{}, {"parallel_eval": True}, {"slim_eval": True}]) if not spec["use_bias"] else {}
        if o == "set":
            op.update(seed=W.seed_of(rng), style=style(rng, spec))
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "bad":
            op.update(kind=rng.choice(["sites", "feat", "rank1", "none", "list", "range", "float", "bias_slim"]), seed=W.seed_of(rng))
        ops.append(op)
    s = rng.randrange(k)
    ops.append({"op": "eval", "slot": s, "grad": True, "nograd": False, "wseed": 1, "x": gen_x(rng, slots[s]["spec"])})
    W.flavour(rng, ops, k)
    return {"slots": slots, "ops": ops}


def style(rng, spec):
    return rng.choice(["positive", "scales"]) if spec["seq_len"] > 6 and spec["cls"] == "ProbMPS" else W.style_for(rng, spec)


def gen_x(rng, spec):
    x = zoo.gen_x(rng, spec)
    if spec["cls"] == "ProbUnifMPS" and rng.random() < 0.1:
        x["len"] = rng.choice([9, 15])
    return x


def run(plan, R):
    w = W.World(R)
    slots = build(w, plan)
    last, changed = [], set()
    for op in plan["ops"]:
        s = slots[op["slot"]]
        o = op["op"]
        if o == "eval":
            w.evaluate(s, op["x"], op["grad"], op["nograd"], op["wseed"], what="log probability")
            note(R, s, op["x"].get("mode"), last, changed)
        elif o == "modes":
            for m in modes(s.spec):
                w.evaluate(s, dict(op["x"], mode=m), op["grad"], False, op["wseed"], what=f"log probability ({m or 'default'})")
                note(R, s, m, last, changed)
        elif o == "loss":
            loss(w, s, op)
            note(R, s, "loss", last, changed)
        elif o == "norm":
            norm(w, s, op)
            note(R, s, "norm", last, changed)
        elif o == "sum":
            total(w, s, op)
            note(R, s, "sum", last, changed)
        elif o == "train":
            w.train(s, op["x"], op["lr"], op["wseed"])
        elif o == "set":
            w.assign(s, op["seed"], op["style"])
        elif o == "mode":
            w.mode(s, op["training"])
        elif o == "bad":
            bad(w, s, op)
        elif o == "abort":
            f = w.fault(s, op["kind"], op["frac"])
            if op["what"] == "norm":
                norm(w, s, op, f)
            else:
                w.evaluate(s, op["x"], op["grad"], False, op["wseed"], fault=f, what="log probability")
        elif o == "reinc":
            R.count("fault:process_restart")
            w.inc = Incarnation()
            slots = build(w, plan)
        last.append(o)
        if o in ("train", "set", "bad", "abort", "reinc"):
            changed.add(o)
    R.sig = R.h.hexdigest()


def build(w, plan):
    slots = []
    for i, p in enumerate(plan["slots"]):
        emb = slots[0].model.embedding if p.get("share") else None
        slots.append(W.build_ok(w, i, p["spec"], p["seed"], p["style"], p["vseed"], emb))
    return slots


def note(R, s, mode, last, changed):
    sp = s.spec
    kind = sp["emb"]["kind"] if sp["emb"] else None
    R.reach((sp["cls"], kind, sp["complex"], sp["use_bias"], str(mode), tuple(last[-3:])))
    if changed:
        R.nontrivial = True


def modes(spec):
    ms = [{}, {"parallel_eval": True}, {"slim_eval": True, "parallel_eval": True}]
    return ms if spec["use_bias"] else ms + [{"slim_eval": True}]


def guarded(w, s, fn, what, fault=None):
    val, exc, info = run_call(fn, fault)
    w.R.count("steps", info["points"])
    if fault:
        w.R.count(f"fault:{fault['kind']}" if info["fired"] else f"unfired:{fault['kind']}")
    if exc is not None:
        if fault and info["fired"]:
            w.R.log("aborted", what, info["fired"])
            return None
        raise Violation(f"{what}: call raises {W.describe(exc)} for {W.brief(s.spec)}")
    return val


def loss(w, s, op):
    spec, x = s.spec, op["x"]
    zoo.set_default(spec)
    lx, rx = zoo.make_x(spec, x)
    P = ref.snapshot(s.model)
    if zoo.ill_conditioned(spec, P, x["len"]):
        return
    ps = list(s.model.parameters())

    def go():
        v = s.model.loss(lx, **zoo.call_kwargs(x))
        gs = torch.autograd.grad(v, ps, allow_unused=True) if op["grad"] else None
        return v, gs

    v, gs = guarded(w, s, go, "loss")
    w.R.log("loss", v)
    r, tol = zoo.expected(spec, P, rx)
    zoo.check_close(v, -r.mean(), tol.mean() + zoo.eps(spec) * r.abs().max() if bool(r.isfinite().all()) else tol.mean(), f"loss [{W.brief(spec)} {x}]")
    if gs is not None:
        wt = torch.full((x["B"],), -1.0 / x["B"], dtype=F64)
        gs = {id(p): g for p, g in zip(ps, gs)}
        zoo.check_grads(spec, P, rx, wt, {n: gs[id(p)] for n, p in zoo.named(s.model).items()}, f"loss gradient [{W.brief(spec)} {x}]")


def norm(w, s, op, fault=None):
    spec, L = s.spec, op["len"]
    zoo.set_default(spec)
    P = ref.snapshot(s.model)
    if zoo.ill_conditioned(spec, P, L):
        return
    ps = list(s.model.parameters())

    def go():
        v = s.model.log_norm() if spec["cls"] == "ProbMPS" else s.model.log_norm(L)
        gs = torch.autograd.grad(v, ps, allow_unused=True) if op["grad"] else None
        return v, gs

    val = guarded(w, s, go, "log_norm", fault)
    if val is None:
        return
    v, gs = val
    w.R.log("norm", L, v)
    A = {k: (t.abs() if isinstance(t, torch.Tensor) and (t.is_floating_point() or t.is_complex()) else t) for k, t in P.items()}
    r = ref.prob_logz(spec, P, L)
    cz = (ref.prob_logz(spec, A, L, ref.prob_lambda(spec, P).abs()) - r).exp()
    e = zoo.eps(spec)
    tol = (e * cz + zoo.quad_tol(spec, L) * (1 + cz) + e * (2 * r.abs() + 20)).clamp(max=1e9)
    zoo.check_close(v, r, tol, f"log_norm [{W.brief(spec)} length {L}]")
    if gs is None:
        return
    names = ref.active_names(spec, P)
    Q, leaves = dict(P), []
    for n in names:
        Q[n] = P[n].detach().clone().requires_grad_(True)
        leaves.append(Q[n])
    want = torch.autograd.grad(ref.prob_logz(spec, Q, L), leaves, allow_unused=True)
    got = {id(p): g for p, g in zip(ps, gs)}
    nm = zoo.named(s.model)
    for n, g in zip(names, want):
        g = torch.zeros_like(P[n]) if g is None else g
        h = got.get(id(nm[n])) if n in nm else None
        h = torch.zeros_like(g) if h is None else h.to(g.dtype)
        size = float(g.abs().max()) + (L + 1) / (float(P[n].abs().max()) + 1e-300)
        t = size * min(1e9, 10 * e * float(cz) ** 2 + 10 * zoo.quad_tol(spec, L) * (1 + float(cz)))
        if h.shape != g.shape or not bool(((h - g).abs() <= t).all()):
            raise Violation(f"log_norm gradient: {n} is off by {float((h - g).abs().max()):.3g} (size {float(g.abs().max()):.3g}) [{W.brief(spec)} length {L}]")


def total(w, s, op):
    """The library's probabilities of all inputs of a length"""
    spec, L = s.spec, op["len"]
    e = spec["emb"]
    zoo.set_default(spec)
    if e and e["domain"]["continuous"]:
        lo, hi = e["domain"]["min"], e["domain"]["max"]
        if L > 2:
            return
        pts, wt = ref._gauss(lo, hi, panels=2 if L == 1 else 1)
        if L == 2:
            import numpy as np

            a, b = np.polynomial.legendre.leggauss(20)
            pts, wt = lo + (hi - lo) * (torch.from_numpy(a) + 1) / 2, torch.from_numpy(b) * (hi - lo) / 2
        X = torch.tensor(list(itertools.product(pts.tolist(), repeat=L)), dtype=F64).to(zoo.dtype_of(spec))
        Wt = torch.tensor(list(itertools.product(wt.tolist(), repeat=L)), dtype=F64).prod(1)
    else:
        n = spec["input_dim"] if e is None else int(e["domain"]["max"])
        if n**L > 400:
            return
        X = torch.tensor(list(itertools.product(range(n), repeat=L)))
        Wt = torch.ones(len(X), dtype=F64)
    P = ref.snapshot(s.model)
    if zoo.ill_conditioned(spec, P, L):
        return
    r, tol = zoo.expected(spec, P, X if not X.is_floating_point() else X.to(F64))

    def go():
        with torch.no_grad():
            return s.model(X, **op["mode"])

    v = guarded(w, s, go, "log probabilities of all inputs")
    w.R.log("sum", v)
    pr = v.to(F64).exp()
    tot = float((pr * Wt).sum())
    t = float((tol * r.exp() * Wt).nan_to_num(0.0).sum()) + 1e-9 + zoo.quad_tol(spec, L) + (2e-5 if spec["dtype"] == "f32" else 0)
    if not abs(tot - 1) <= t:
        raise Violation(f"probabilities of all inputs of length {L} sum to {tot:.10g} (tolerance {t:.3g}) [{W.brief(spec)}]")
    w.R.count("brute_force_sums")


def bad(w, s, op):
    spec = s.spec
    kind, seed = op["kind"], op["seed"]
    kw = {}
    if kind == "range" and not (spec["emb"] and spec["emb"]["domain"]["continuous"]):
        n = spec["input_dim"] if spec["emb"] is None else int(spec["emb"]["domain"]["max"])
        x = torch.full((2, spec["seq_len"]), n + seed % 3)
    elif kind == "float":
        x = torch.full((2, spec["seq_len"]), float("nan"), dtype=zoo.dtype_of(spec))
    elif kind == "bias_slim":
        if not spec["use_bias"]:
            return
        x, kw = zoo.make_x(spec, {"B": 2, "seed": seed, "len": spec["seq_len"]})[0], {"slim_eval": True}
    elif kind == "range":
        return
    else:
        w.bad_call(s, kind, seed)
        return
    zoo.set_default(spec)
    val, exc, info = run_call(lambda: s.model(x, **kw))
    w.R.count("fault:bad_input" if exc is not None else "unfired:bad_input")
    w.R.log("bad", kind, type(exc).__name__ if exc else None)
