"""C13: evaluating a model changes neither it nor its input"""
import torch

from dst import ref, twin, zoo
from dst import world as W
from dst.kernel import Incarnation, Violation, run_call

F64 = torch.float64

BUDGET = {"quick": {"runs": 100000, "seconds": 70, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run in which calls ended in at least two of the ways success, rejection, abort, and the model, its gradients and the caller's tensors were compared bit by bit around each"
STATES = "distinct (model geometry, kind of call, form of input, how it ended, where it was aborted) tuples"
REAL = ["torchmps (all modules)", "PyTorch kernels and autograd"]
STUB = ["feature maps and embeddings supplied by the simulated user"]
ASSUME = ["user supplied maps change neither their input nor their parameters"]
SHRINK = ["ops"]
TIME = "logical: operations of the simulated user; no component reads a clock"

FORMS = ["plain", "plain", "plain", "slice", "stride", "transpose", "expand", "grad", "readonly", "param"]


def gen(rng, tier):
    k = rng.choice([1, 1, 2])
    slots = []
    for i in range(k):
        spec = zoo.gen_any(rng, adaptive=False)
        slots.append(W.gen_slot(rng, spec))
    ops = []
    for _ in range(rng.randint(3, 12)):
        s = rng.randrange(k)
        spec = slots[s]["spec"]
        o = W.weighted(rng, [("eval", 5), ("abort", 4), ("bad", 1.5), ("empty", 0.3), ("other", 1), ("grads", 1), ("mode", 0.5), ("late", 1), ("freeze", 0.4), ("set", 0.3), ("scribble", 0.7)])
        op = {"op": o, "slot": s, "wseed": W.seed_of(rng)}
        if o in ("eval", "abort", "other", "late"):
            op["x"] = zoo.gen_x(rng, spec)
            op["form"] = rng.choice(FORMS)
            op["how"] = rng.choice(["grad", "grad", "backward", "nograd", "inference", "plain"])
        if o == "abort":
            op["kind"] = rng.choice(["kbd", "kbd", "alloc", "oom"])
            op["frac"] = rng.random()
            op["what"] = rng.choice(["eval", "eval", "eval", "other"])
        if o == "empty":
            op["x"] = zoo.gen_x(rng, spec, B=0)
        if o == "bad":
            op.update(kind=rng.choice(W.World.BAD), seed=W.seed_of(rng))
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "grads":
            op["seed"] = W.seed_of(rng)
        if o == "set":
            op.update(seed=W.seed_of(rng), style=W.style_for(rng, spec))
        ops.append(op)
    for s in range(k):
        ops.append({"op": "eval", "slot": s, "wseed": 1, "x": zoo.gen_x(rng, slots[s]["spec"]), "form": "plain", "how": "grad"})
    return {"slots": slots, "ops": ops}


# -- bitwise observation ----------------------------------------------------


def watch(model, grads=True):
    out = {"names": [], "buffers": []}
    for n, p in model.named_parameters(remove_duplicate=False):
        out["names"].append((n, id(p), p.requires_grad, p.is_leaf))
        out["value of parameter " + n] = twin.digest(p)
        if grads:
            out["gradient of parameter " + n] = None if p.grad is None else (id(p.grad), twin.digest(p.grad))
    for n, b in model.named_buffers():
        out["buffers"].append((n, b.requires_grad))
        out["value of buffer " + n] = twin.digest(b)
    out["saved state"] = twin.digest(dict(model.state_dict()))
    out["mode"] = [(n, m.training) for n, m in model.named_modules()]
    return out


def same(a, b, what):
    for k in a:
        if k not in b:
            raise Violation(f"{what}: {k} is gone")
        if a[k] != b[k]:
            raise Violation(f"{what} changes the {k if k not in ('names', 'buffers') else 'set of ' + ('parameters' if k == 'names' else 'buffers')}")
    for k in b:
        if k not in a:
            raise Violation(f"{what} adds: {k}")


def tensors(lx):
    return list(lx) if isinstance(lx, (list, tuple)) else [lx] if isinstance(lx, torch.Tensor) else []


def form(lx, kind):
    """The caller's tensor in another memory layout; -> (input, what to watch)"""
    keep = []

    def one(t):
        if kind == "slice":
            big = torch.full((t.shape[0] + 3,) + tuple(t.shape[1:]), 7, dtype=t.dtype)
            big[2 : t.shape[0] + 2] = t
            keep.append(big)
            return big[2 : t.shape[0] + 2]
        if kind == "stride" and t.dim() >= 2:
            big = torch.full((t.shape[0], 2 * t.shape[1]) + tuple(t.shape[2:]), 7, dtype=t.dtype)
            big[:, ::2] = t
            keep.append(big)
            return big[:, ::2]
        if kind == "transpose" and t.dim() >= 2:
            return t.transpose(0, 1).contiguous().transpose(0, 1)
        if kind == "expand" and t.shape[0] == 1:
            return t[:1].expand(t.shape)
        if kind in ("grad", "param") and t.is_floating_point():
            t = t.clone().requires_grad_(True)
            return torch.nn.Parameter(t.detach()) if kind == "param" else t
        return t

    lx = [one(t) for t in lx] if isinstance(lx, list) else one(lx)
    return lx, keep + tensors(lx)


def storage(t):
    return t.untyped_storage().data_ptr()


def run(plan, R):
    w = W.World(R)
    slots = [W.build_ok(w, i, s["spec"], s["seed"], s["style"], s["vseed"]) for i, s in enumerate(plan["slots"])]
    held, late, ends = [], [], set()
    for op in plan["ops"]:
        s = slots[op["slot"]]
        o = op["op"]
        others = [(t, watch(t.model)) for t in slots if t is not s]
        if o in ("eval", "late", "abort", "other"):
            f = w.fault(s, op["kind"], op["frac"]) if o == "abort" else None
            if o == "other" or o == "abort" and op["what"] == "other":
                end = other(w, s, op, f)
            else:
                end = call(w, s, op, f, held, late if o == "late" else None)
            ends.add(end)
        elif o == "bad":
            a = watch(s.model)
            zoo.set_default(s.spec)
            lx = w.bad_input(s, op["kind"], op["seed"])
            keep = [t for t in tensors(lx) if isinstance(t, torch.Tensor)]
            before = twin.digest(keep)
            val, exc, info = run_call(lambda: s.model(lx))
            same(a, watch(s.model), f"a call {'rejected with ' + type(exc).__name__ if exc else 'with odd input'}")
            if twin.digest(keep) != before:
                raise Violation("a rejected call changes the caller's tensors")
            R.count("fault:bad_input" if exc is not None else "unfired:bad_input")
            R.reach((geometry(s.spec), "bad", op["kind"], type(exc).__name__))
            R.log("bad", op["kind"], type(exc).__name__ if exc else None)
            ends.add("rejected" if exc is not None else "odd")
        elif o == "empty":
            a = watch(s.model)
            w.bad_empty(s, op["x"])
            same(a, watch(s.model), "a call with an empty batch")
        elif o == "grads":
            g = zoo.gen_t(op["seed"])
            for p in s.model.parameters():
                c = int(torch.randint(3, (), generator=g))
                p.grad = None if c == 0 else torch.zeros_like(p) if c == 1 else torch.randn(p.shape, generator=g, dtype=F64).to(p.dtype)
        elif o == "mode":
            w.mode(s, op["training"])
        elif o == "freeze":
            for p in s.model.parameters():
                p.requires_grad_(not p.requires_grad)
        elif o == "set":
            for t, q, *_ in late:  # graphs of the old values must not be used any more
                q.clear()
            late.clear()
            w.assign(s, op["seed"], op["style"])
        elif o == "scribble":
            # the caller may do with a result what it likes
            for out, dig in held:
                if out is not None and not out[0].is_inference():
                    out[0].detach().fill_(-3.0)
            held = []
        for t, a in others:
            same(a, watch(t.model), f"{o} on another model")
    for out, dig in held:
        if out is not None and twin.digest(out[0]) != dig:
            raise Violation("a result changes when the model is evaluated again")
    for args in late:
        finish(w, *args)
    if len(ends & {"ok", "rejected", "aborted"}) >= 2:
        R.nontrivial = True
    R.sig = R.h.hexdigest()


def geometry(spec):
    return tuple(str(spec.get(k)) for k in ("cls", "periodic", "parallel", "use_bias", "label_site", "input_dim", "fixed_ends", "complex")) + (
        (spec.get("emb") or {}).get("kind"),
        bool(spec.get("fmap")),
        bool(spec.get("path")),
    )


def call(w, s, op, fault, held, late):
    spec, R, x = s.spec, w.R, op["x"]
    zoo.set_default(spec)
    lx, rx = zoo.make_x(spec, x)
    lx, keep = form(lx, op["form"])
    items = tensors(lx)
    kw = zoo.call_kwargs(x)
    P = ref.snapshot(s.model)
    ill = "len" in x and zoo.ill_conditioned(spec, P, x["len"])
    how = op["how"] if late is None else "plain"
    wt = W.weights((x["B"], spec["output_dim"]) if "output_dim" in spec else (x["B"],), op["wseed"])
    ps = [p for p in s.model.parameters() if p.requires_grad]
    asked = {n for n, p in zoo.named(s.model).items() if p.requires_grad}
    before, mine = watch(s.model), twin.digest(keep)
    flags = [(t.requires_grad, t._version if not t.is_inference() else 0) for t in keep]

    def go():
        if how == "nograd":
            with torch.no_grad():
                return s.model(lx, **kw), None
        if how == "inference":
            with torch.inference_mode():
                return s.model(lx, **kw), None
        out = s.model(lx, **kw)
        gs = None
        if how == "grad" and ps and out.requires_grad:
            gs = torch.autograd.grad((out * wt.to(out.dtype)).sum(), ps, allow_unused=True)
        return out, gs

    val, exc, info = run_call(go, fault)
    R.count("steps", info["points"])
    s.pts = info["trace"] if not (fault and info["fired"]) else s.pts
    if fault:
        R.count(f"fault:{fault['kind']}" if info["fired"] else f"unfired:{fault['kind']}")
    end = "ok" if exc is None else "aborted" if fault and info["fired"] else "rejected"
    what = {"ok": "evaluation", "aborted": f"an aborted call ({info['fired']})", "rejected": "a rejected call"}[end]
    same(before, watch(s.model), what)
    if twin.digest(keep) != mine or flags != [(t.requires_grad, t._version if not t.is_inference() else 0) for t in keep]:
        raise Violation(f"{what} changes the caller's tensors [{W.brief(spec)}]")
    if isinstance(lx, list) and [id(t) for t in lx] != [id(t) for t in items]:
        raise Violation(f"{what} changes the caller's list")
    for t in keep:
        if t.is_leaf and t.grad is not None:
            raise Violation(f"{what} leaves a gradient on the input")
    R.reach((geometry(spec), how, op["form"], end, info["fired"]))
    R.log("call", s.name, how, end)
    if end == "rejected":
        if ill and isinstance(exc, AssertionError):
            return "rejected"
        raise Violation(f"call raises {W.describe(exc)} [{W.brief(spec)} {x} {op['form']}]")
    if end == "aborted":
        return end
    out, gs = val
    owners = {storage(t): n for n, t in list(s.model.named_parameters()) + list(s.model.named_buffers()) if t.numel()}
    owners.update({storage(t): "the input" for t in keep if t.numel()})
    owners.update({storage(h[0][0]): "an earlier result" for h in held if h[0] is not None and h[0][0].numel()})
    if out.numel() and storage(out) in owners:
        raise Violation(f"result shares its storage with {owners[storage(out)]} [{W.brief(spec)}]")
    held.append(((out.detach() if not out.is_inference() else out, lx), twin.digest(out)))
    if ill:
        return end
    try:
        zoo.compare(spec, P, rx, out, "result")
        if gs is not None:
            got = {id(p): g for p, g in zip(ps, gs)}
            nm = {n: got[id(p)] for n, p in zoo.named(s.model).items() if id(p) in got}
            zoo.check_grads(spec, P, rx, wt, nm, "gradient")
    except Violation as v:
        raise Violation(f"{v} [{W.brief(spec)} {x} {op['form']}]")
    if how == "backward" and ps and out.requires_grad and bool(out.isfinite().all()):
        finish(w, s, [out], P, rx, wt, op, asked)
    if late is not None and out.requires_grad:
        late.append((s, [out], P, rx, wt, op, asked))
    return end


def finish(w, s, outs, P, rx, wt, op, asked):
    """Backward pass, perhaps long after the call: adds the true gradient to .grad"""
    if not outs:
        return
    spec, out = s.spec, outs[0]
    if not bool(out.isfinite().all()):
        return
    nm = zoo.named(s.model)
    old = {n: None if p.grad is None else p.grad.detach().clone() for n, p in nm.items()}
    vals = {n: p.detach().clone() for n, p in nm.items()}
    _, exc, _ = run_call(lambda: (out * wt.to(out.dtype)).sum().backward(retain_graph=True))
    if exc is not None:
        raise Violation(f"backward pass after later calls raises {W.describe(exc)} [{W.brief(spec)}]")
    for n, p in nm.items():
        if not torch.equal(torch.view_as_real(vals[n]) if vals[n].is_complex() else vals[n], torch.view_as_real(p.detach()) if p.is_complex() else p.detach()):
            raise Violation(f"backward pass changes parameter {n}")
    got = {}
    for n in sorted(asked):
        g = nm[n].grad
        if g is None or not nm[n].requires_grad:
            continue
        h = g.detach() if old[n] is None else g.detach() - old[n]
        if old[n] is None or not bool(old[n].any()):
            got[n] = h  # otherwise the difference is rounded to the size of what was there
    zoo.check_grads(spec, P, rx, wt, got, "accumulated gradient")
    w.R.log("backward", s.name)


def other(w, s, op, fault):
    """Methods besides calling the model"""
    spec, R, x, m = s.spec, w.R, op["x"], s.model
    zoo.set_default(spec)
    lx, _ = zoo.make_x(spec, x)
    keep = tensors(lx)
    if spec["cls"] == "ProbMPS":
        fns = [lambda: m.log_norm(), lambda: m.loss(lx, **zoo.call_kwargs(x)), lambda: m.state_dict()]
    elif spec["cls"] == "ProbUnifMPS":
        fns = [lambda: m.log_norm(x["len"]), lambda: m.loss(lx, **zoo.call_kwargs(x)), lambda: m.state_dict()]
    elif spec["cls"] == "MPS":
        emb = lx[:, : spec["input_dim"]]
        fns = [lambda: m.core_len(), lambda: len(m), lambda: m.state_dict()]
        if spec["raw_dim"] >= spec["input_dim"] and (lx.dim() == 3 or spec["fmap"] is not None or spec["feature_dim"] == 2):
            fns.append(lambda: m.embed_input(emb))
    else:
        fns = [lambda: m.state_dict(), lambda: list(m.parameters())]
    fn = fns[op["wseed"] % len(fns)]
    before, mine = watch(m), twin.digest(keep)
    val, exc, info = run_call(fn, fault)
    if fault:
        R.count(f"fault:{fault['kind']}" if info["fired"] else f"unfired:{fault['kind']}")
    same(before, watch(m), "a query of the model")
    if twin.digest(keep) != mine:
        raise Violation("a query of the model changes the caller's tensors")
    if exc is not None and not (fault and info["fired"]):
        if isinstance(exc, AssertionError) and "len" in x and zoo.ill_conditioned(spec, ref.snapshot(m), x["len"]):
            return "rejected"
        raise Violation(f"query raises {W.describe(exc)} [{W.brief(spec)}]")
    R.log("other", s.name, op["wseed"] % len(fns))
    return "aborted" if exc is not None else "ok"
