"""C06: an optimizer built once keeps training the live parameters"""
import torch

from dst import adapt, ref, zoo
from dst import world as W
from dst.kernel import Violation, run_call

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run with at least three optimizer steps by one optimizer whose gradients and effect were checked, with another state-affecting operation (shift, failure, mode change, freeze) between them"
STATES = "distinct (class, geometry, optimizer, operations since the last step, offset) tuples at a checked optimizer step"
REAL = ["torchmps (all modules)", "PyTorch autograd and optimisers"]
STUB = ["feature maps and embeddings supplied by the simulated user"]
ASSUME = ["CPU, single intra-op thread", "the loss is differentiable at the point (probability not exactly zero)"]
SHRINK = ["ops"]


def gen(rng, tier):
    r = rng.random()
    if r < 0.45:
        spec = zoo.gen_mps(rng, adaptive=True)
        spec["merge_threshold"] = rng.choice([1, 2, 3, 5, 8])
        spec["cutoff"] = 1e-10
    else:
        spec = zoo.gen_any(rng, adaptive=False)
    slot = W.gen_slot(rng, spec)
    if spec["cls"].startswith("Prob") and slot["style"] in ("tiny", "huge") and rng.random() < 0.5:
        slot["style"] = "dense"
    ops = []
    for _ in range(rng.randint(5, 14)):
        o = W.weighted(rng, [("step", 7), ("eval", 1.5), ("mode", 0.6), ("bad", 0.5), ("abort", 1.2), ("freeze", 0.5), ("accum", 0.8), ("pend", 0.5)])
        op = {"op": o, "x": zoo.gen_x(rng, spec), "wseed": W.seed_of(rng), "lr": rng.choice([1e-3, 0.01, 0.05])}
        if o == "pend":
            op["xs"] = [zoo.gen_x(rng, spec) for _ in range(rng.choice([2, 2, 3]))]
            op["order"] = rng.sample(range(len(op["xs"])), len(op["xs"]))
        if o == "abort":
            op.update(kind=rng.choice(["kbd", "alloc"]), frac=rng.random() * 1.5)
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "bad":
            op.update(kind=rng.choice(W.World.BAD), seed=W.seed_of(rng))
        if o == "freeze":
            op["which"] = W.seed_of(rng)
        ops.append(op)
    opt = rng.choice(["sgd", "sgd", "sgd", "groups", "adam", "momentum"])
    W.flavour(rng, ops, 1)
    return {"slots": [slot], "opt": opt, "ops": ops}


def make_opt(kind, model):
    ps = list(model.parameters())
    if kind == "adam":
        return torch.optim.Adam(ps, lr=1e-3)
    if kind == "momentum":
        return torch.optim.SGD(ps, lr=1e-3, momentum=0.9)
    if kind == "groups":
        return torch.optim.SGD([{"params": ps[::2]}, {"params": ps[1::2]}] if len(ps) > 1 else ps, lr=1e-3)
    return torch.optim.SGD(ps, lr=1e-3)


def run(plan, R):
    w = W.World(R)
    p = plan["slots"][0]
    spec = p["spec"]
    s = W.build_ok(w, 0, spec, p["seed"], p["style"], p["vseed"])
    model = s.model
    opt = make_opt(plan["opt"], model)
    held = list(model.parameters())  # keeps the objects alive: ids stay unique
    ids = {id(q) for q in held}
    names = [n for n, _ in model.named_parameters()]
    since, steps = [], 0
    const = {n: s.snap().get(n) for n in declared_fixed(spec)}
    for n in zoo.named(model):
        if n in const:
            raise Violation(f"trainable parameters: {n} was declared fixed for {W.brief(spec)}")
    for op in plan["ops"]:
        o = op["op"]
        zoo.set_default(spec)
        if o in ("step", "accum"):
            ok = opt_step(w, s, opt, plan["opt"], op, 2 if o == "accum" else 1)
            if ok:
                steps += 1
                if steps >= 3 and len(since) > 0:
                    R.nontrivial = True
                lay = adapt.kinds(spec, s.snap())[0][:1] if spec.get("adaptive") else None
                R.reach((spec["cls"], spec.get("input_dim"), spec.get("label_site"), spec.get("use_bias"), str((spec.get("emb") or {}).get("kind")), plan["opt"], tuple(since[-3:]), lay))
                since = []
        elif o == "eval":
            w.evaluate(s, op["x"])
            since.append(o)
        elif o == "abort":
            w.evaluate(s, op["x"], grad=True, wseed=op["wseed"], fault=w.fault(s, op["kind"], op["frac"]))
            since.append(o)
        elif o == "pend":
            w.pending(s, op["xs"], op["order"], op["wseed"])
            since.append(o)
        elif o == "mode":
            w.mode(s, op["training"])
            since.append(o)
        elif o == "bad":
            w.bad_call(s, op["kind"], op["seed"])
            since.append(o)
        elif o == "freeze":
            q = held[op["which"] % len(held)]
            q.requires_grad_(not q.requires_grad)
            since.append(o)
        now = list(model.parameters())
        if {id(q) for q in now} != ids or len(now) != len(held):
            raise Violation(f"trainable parameters: the set of objects changed after {o} for {W.brief(spec)}")
        if [n for n, _ in model.named_parameters()] != names or any(a is not b for a, b in zip(now, held)):
            raise Violation(f"trainable parameters: names or order changed after {o} for {W.brief(spec)}")
        if any(not isinstance(q, torch.nn.Parameter) for q in now):
            raise Violation("trainable parameters: not a Parameter any more")
    P = s.snap()
    for n, v in const.items():
        if v is not None and not torch.equal(P[n], v):
            raise Violation(f"{n} was declared fixed but has changed for {W.brief(spec)}")
    R.sig = R.h.hexdigest()


def declared_fixed(spec):
    out = []
    if spec["cls"] == "TI_MPS":
        out += ["bias_mat"] if spec["use_bias"] and spec["fixed_bias"] else []
        out += ["init_vector.vec", "terminal_mat.mat"] if spec["fixed_ends"] else []
    return out


def opt_step(w, s, opt, kind, op, times):
    spec, R, model = s.spec, w.R, s.model
    lx, rx = zoo.make_x(spec, op["x"])
    if not any(q.requires_grad for q in model.parameters()):
        return False
    shape = (op["x"]["B"], spec["output_dim"]) if "output_dim" in spec else (op["x"]["B"],)
    wt = W.weights(shape, op["wseed"])

    def go():
        outs = []
        opt.zero_grad()
        for _ in range(times):
            out = model(lx, **zoo.call_kwargs(op["x"]))
            outs.append((out, s.snap()))
            if out.requires_grad:
                (out * wt.to(out.dtype)).sum().backward()
        return outs

    outs, exc, info = run_call(go)
    R.count("steps", info["points"])
    if exc is not None:
        raise Violation(f"training raises {W.describe(exc)} for {W.brief(spec)} {op['x']}")
    nm = zoo.named(model)
    where = f"[{W.brief(spec)} {op['x']}]"
    # the true gradient, accumulated over the passes
    want, tol, finite = {}, {}, True
    for out, Q in outs:
        try:
            zoo.compare(spec, Q, rx, out, "output in training")
        except Violation as v:
            raise Violation(f"{v} {where}")
        r, exp = zoo.expected_grads(spec, Q, rx, wt)
        finite = finite and bool(r.isfinite().all())
        for n, (g, t) in exp.items():
            # a shift between two passes makes other parameters the live ones
            key = alias(spec, Q, n, nm)
            if key is None and spec["cls"] == "TI_MPS" and (n == "bias_mat" and spec["fixed_bias"] or "." in n and spec["fixed_ends"]):
                continue  # documented as fixed
            if key is None:
                raise Violation(f"parameter {n} in use is not among the trainable ones {where}")
            want[key] = want.get(key, 0) + g
            tol[key] = tol.get(key, 0) + t
    if not finite:
        opt.zero_grad()
        return False
    live = {id(nm[k]) for k in want}
    for k in want:
        q = nm[k]
        if not q.requires_grad:
            if q.grad is not None and float(q.grad.abs().max()) > 0:
                raise Violation(f"gradient: frozen parameter {k} receives one {where}")
            continue
        zoo_check(k, q.grad, want[k], tol[k], where)
    for k, q in nm.items():
        if id(q) not in live and q.grad is not None and float(q.grad.abs().max()) > 0:
            raise Violation(f"gradient: parameter {k} receives one, though the output does not depend on it {where}")
    # the step
    tot = sum(float(g.abs().pow(2).sum()) for g in want.values()) ** 0.5
    if not 3 * sum(tol.values()) < tot < 1e30:  # nothing but rounding errors
        opt.zero_grad()
        return False
    if kind == "momentum":
        tot = s.most = max(tot, getattr(s, "most", 0.0))
    lr = op["lr"] / tot if kind in ("sgd", "groups", "momentum") else 1e-3
    for grp in opt.param_groups:
        grp["lr"] = lr
    before = {id(q): q.detach().clone() for q in nm.values()}
    P = s.snap()
    opt.step()
    if kind in ("sgd", "groups"):
        # outputs move as the true gradients prescribe
        N = dict(P)
        upd = {}
        for k in want:
            if nm[k].requires_grad:
                upd[id(nm[k])] = (-lr * want[k], lr * tol[k])
        M = s.snap()
        for k, q in nm.items():
            if id(q) in upd and k in N:
                N[k] = N[k] + upd[id(q)][0]
        for k in N:
            if isinstance(N[k], torch.Tensor) and isinstance(M.get(k), torch.Tensor) and N[k].numel():
                d = float((N[k] - M[k]).abs().max())
                q = nm.get(k)
                u = upd.get(id(q), (torch.zeros(1), 0.0)) if q is not None else (torch.zeros(1), 0.0)
                lim = u[1] * 2 + (1e-5 if spec["dtype"] == "f32" else 1e-12) * (float(P[k].abs().max()) + float(u[0].abs().max()))
                if not d <= lim:
                    raise Violation(f"optimizer step: {k} in use moved by {d:.3g} other than prescribed (tolerance {lim:.3g}) {where}")
    else:
        for k in want:
            q = nm[k]
            if q.requires_grad and float(want[k].abs().max()) > 2 * tol[k] + 1e-12 and kind == "adam" and torch.equal(before[id(q)], q.detach()):
                raise Violation(f"optimizer step: {k} in use did not move {where}")
    opt.zero_grad()
    for q in model.parameters():
        if q.grad is not None:
            q.grad = None
    w.evaluate(s, op["x"], what="output after an optimizer step")
    R.log("step", s.name, lr)
    R.count("optimizer_steps")
    return True


def alias(spec, Q, n, nm):
    """Name under which the parameter called n in the snapshot Q is found now"""
    if not spec.get("adaptive") or not n.startswith("linear_region.module_list."):
        return n if n in nm else None
    off = adapt.kinds(spec, Q)[0][:1]
    # active tensor number i of the merge state shown in Q
    i = n.split(".")[2]
    for cand in ("module_list_0", "module_list_1"):
        k = f"linear_region.{cand}.{i}.tensor"
        if k in Q and k in nm and torch.equal(Q[k], Q[n]) and nm[k].shape == Q[n].shape and same_list(Q, cand):
            return k
    return n if n in nm else None


def same_list(Q, cand):
    pre = "linear_region.module_list."
    a = [k for k in Q if k.startswith(pre) and k.endswith(".tensor")]
    b = [k for k in Q if k.startswith(f"linear_region.{cand}.") and k.endswith(".tensor")]
    return len(a) == len(b) and all(k.replace("module_list.", cand + ".") in Q and torch.equal(Q[k], Q[k.replace("module_list.", cand + ".")]) for k in a)


def zoo_check(k, got, g, t, where):
    if got is None:
        if float(g.abs().max()) > t:
            raise Violation(f"gradient: {k} receives none {where}")
        return
    h = got.detach()
    h = h.to(torch.complex128 if h.is_complex() else torch.float64)
    err = float((h - g).abs().max()) if g.numel() else 0.0
    if h.shape != g.shape or not err <= t:
        raise Violation(f"gradient: {k} is off by {err:.3g} (tolerance {t:.3g}, size {float(g.abs().max()):.3g}) {where}")
