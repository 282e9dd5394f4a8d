"""C05: a failed or interrupted shift leaves a usable old or new model"""
import torch

from dst import adapt, ref, zoo
from dst import world as W
from dst.kernel import Violation, aim, run_call

BUDGET = {"quick": {"runs": 100000, "seconds": 75, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run in which a fault fired inside a call whose shift was due, and the model was then retried"
STATES = "distinct (kind of fault, function it fired in, outcome old/new, chain length, boundary, offset) tuples, and the distinct source lines an interrupt was delivered at"
REAL = ["torchmps (all modules)", "PyTorch kernels (SVD), autograd, optimisers"]
STUB = ["failing allocations and kernels (raised from a dispatch mode before the k-th tensor operation)", "interrupts (raised before the k-th line executed in the package)", "feature maps supplied by the simulated user"]
ASSUME = ["an interrupt is delivered between lines of Python code", "a failing allocation surfaces as an exception of the tensor operation, leaving its arguments alone"]
SHRINK = ["pre", "faults", "post"]


def gen(rng, tier):
    spec = zoo.gen_mps(rng, adaptive=True, dtype=rng.choice(["f64", "f64", "dbl", "f32"]))
    spec["merge_threshold"] = rng.choice([1, 2, 3, 5])
    slot = W.gen_slot(rng, spec)

    def op(kinds):
        o = W.weighted(rng, kinds)
        d = {"op": o, "x": zoo.gen_x(rng, spec), "wseed": W.seed_of(rng)}
        if o == "set":
            d.update(seed=W.seed_of(rng), style=W.style_for(rng, spec))
        return d

    basic = [("eval", 3), ("train", 2), ("set", 0.7)]
    pre = [op(basic) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(["kbd", "kbd", "kbd", "alloc", "alloc", "oom", "svd", "cut"])
        f = {"kind": k, "frac": rng.random(), "x": zoo.gen_x(rng, spec), "train": rng.random() < 0.3, "wseed": W.seed_of(rng)}
        faults.append(f)
    post = [op(basic) for _ in range(rng.randint(2, 5))]
    g = "instr" if rng.random() < 0.15 else "line"
    return {"slots": [slot], "pre": pre, "faults": faults, "post": post, "granularity": g}


def run(plan, R):
    w = W.World(R)
    p = plan["slots"][0]
    spec = p["spec"]
    s = W.build_ok(w, 0, spec, p["seed"], p["style"], p["vseed"])
    X = adapt.probes(spec, p["vseed"] ^ 55)
    opt = torch.optim.SGD(s.model.parameters(), lr=0.01, momentum=0.0)
    s.ids = {id(q) for q in s.model.parameters()}
    s.opt = opt
    s.counts = {0}
    for op in plan["pre"]:
        step(w, s, op, X, None)
    for f in plan["faults"]:
        # get the model to the point where its next call has to shift
        zoo.set_default(spec)
        for _ in range(12):
            due = due_now(s)
            if due:
                break
            step(w, s, {"op": "eval", "x": dict(f["x"], B=3), "wseed": 1}, X, None)
        at = None
        if f["kind"] != "cut":
            at = {"kind": f["kind"], "at": target(w, s, f, R)}
        saved = None
        if f["kind"] == "cut":
            P = s.snap()
            lay = [k for kind, k, _ in ref.mps_layout(spec, P) if kind in ("pair", "outl", "outr")]
            if not lay:
                continue  # nothing merged at this moment
            name = lay[int(f["frac"] * len(lay))]
            saved = {name: P[name]}
            q = P[name].clone()
            if q.dim() == 5:
                q[int(f["frac"] * 1000) % q.shape[0]] *= 1e-30
            else:
                q *= 1e-30
            zoo.assign(s.model, {name: q})
        fired = step(w, s, {"op": "train" if f["train"] else "eval", "x": f["x"], "wseed": f["wseed"]}, X, at)
        if saved and fired == "old":
            zoo.assign(s.model, saved)
        if fired and due:
            R.nontrivial = True
    for op in plan["post"]:
        step(w, s, op, X, None)
    R.sig = R.h.hexdigest()


def due_now(s):
    """Is a shift due, by every count of inputs the history allows?"""
    T = s.spec["merge_threshold"]
    return all(c >= T for c in s.counts)


def counted(s, B, shifted, failed):
    """Inputs seen since the last shift: a set, as a call that fails may or may
    not count"""
    T = s.spec["merge_threshold"]
    if shifted:
        new = {c - T for c in s.counts if c >= T}
        if failed:  # cut short before the surplus was worked out
            new |= {c for c in s.counts if c >= T}
    elif failed:
        new = set(s.counts)
    else:
        new = {c for c in s.counts if c < T}
    if not new:
        raise Violation("a shift happens that is not due" if shifted else "a shift that is due does not happen")
    s.counts = new | {c + B for c in new} if failed else {c + B for c in new}


def target(w, s, f, R):
    """Concrete position of the fault: count the points of the same call on a
    replica (only aims the fault; a wrong aim is no violation)"""
    spec, info = s.spec, None
    try:
        m = zoo.build(w.inc, spec, 1)
        m.load_state_dict(s.model.state_dict())
    except Exception:  # saving and restoring is another property
        m = None
    if m is not None:
        lx, _ = zoo.make_x(spec, f["x"])
        flt = {"kind": "svd", "at": 10**9} if f["kind"] == "svd" else {"count_ops": 1}
        _, _, info = run_call(lambda: m(lx), flt)
    zoo.set_default(spec)
    if f["kind"] == "kbd":
        return aim(info and info["trace"], "kbd", f["frac"], 400)
    n = (info and info["ops"]) or (3 if f["kind"] == "svd" else 40)
    return int(f["frac"] * n)


def step(w, s, op, X, fault):
    """One call judged as a whole; -> None, 'old' or 'new' if it failed"""
    spec, R = s.spec, w.R
    zoo.set_default(spec)
    if op["op"] == "set":
        w.assign(s, op["seed"], op["style"])
        return None
    lx, rx = zoo.make_x(spec, op["x"])
    wt = W.weights((op["x"]["B"], spec["output_dim"]), op["wseed"])
    P = s.snap()
    b0, v0 = s.model.bond_list.clone(), s.model.sv_list.clone()
    sh = adapt.Shift(spec, P)
    due = due_now(s)

    def go():
        out = s.model(lx)
        if op["op"] == "train":
            s.model.zero_grad()
            (out * wt.to(out.dtype)).sum().backward()
        return out

    out, exc, info = run_call(go, fault)
    R.count("steps", info["points"])
    if fault:
        R.count(f"fault:{fault['kind']}" if info["fired"] else f"unfired:{fault['kind']}")
    fired = bool(fault and info["fired"])
    if exc is not None and not fired:
        if sh.may_remove_all and isinstance(exc, RuntimeError):
            R.count("fault:cutoff_removes_all")
        else:
            raise Violation(f"call after a failed shift raises {W.describe(exc)} for {W.brief(spec)}")
    Q = s.snap()
    # trainable parameters are the same objects
    if {id(q) for q in s.model.parameters()} != s.ids:
        raise Violation("trainable parameters: other objects than before the shift")
    a, b = adapt.kinds(spec, P), adapt.kinds(spec, Q)
    if a == b:
        if not adapt.active_equal(spec, P, Q):
            raise Violation(f"mixture: parameters changed without a completed shift (fault {fault}, at {info['fired']})")
        outcome = "old"
    else:
        outcome = "new"
        if sh.removes_all:
            raise Violation("shift removing everything took place")
        if not (sh.fuzzy or sh.may_remove_all or (spec["dtype"] == "f32" and sh.amp > 1e3)):
            adapt.same_function(spec, Q, sh.output(X), X, f"mixture: function after {'a failed' if exc else 'a'} shift")
    counted(s, op["x"]["B"], outcome == "new", exc is not None)
    b1, v1 = s.model.bond_list, s.model.sv_list
    if outcome == "old":
        if not (torch.equal(b0, b1) and torch.equal(v0, v1)):
            raise Violation("reported bonds: changed although the shift did not take place")
    elif not sh.fuzzy:
        sh.check_bonds(b1, v1, b0, v0, allow_old=exc is not None)
    if exc is None:
        zoo.compare(spec, Q, rx, out, "output after a failed shift")
        if op["op"] == "train":
            gs = {n: q.grad for n, q in zoo.named(s.model).items()}
            zoo.check_grads(spec, Q, rx, wt, gs, "gradient after a failed shift")
            tot = sum(float(q.grad.pow(2).sum()) for q in s.model.parameters() if q.grad is not None) ** 0.5
            if 0 < tot < float("inf"):
                act = ref.active_names(spec, Q)
                nm = zoo.named(s.model)
                before = {k: nm[k].detach().clone() for k in act}
                for grp in s.opt.param_groups:
                    grp["lr"] = 0.03 / tot
                s.opt.step()
                for k in act:
                    if nm[k].grad is not None and not torch.equal(nm[k].detach(), before[k] - grp["lr"] * nm[k].grad) and float(nm[k].grad.abs().max()) > 0:
                        d = float((nm[k].detach() - (before[k] - grp["lr"] * nm[k].grad)).abs().max())
                        if d > 1e-5 * float(before[k].abs().max() + grp["lr"] * nm[k].grad.abs().max()):
                            raise Violation("training after a failed shift: the optimizer does not update the parameters in use")
    s.model.zero_grad()
    if fired:
        R.reach((fault["kind"], info["fired"], outcome, exc is None, due))
        R.reach((fault["kind"], info["fired"], outcome, spec["input_dim"], spec["periodic"], a[0][:1]))
        R.log("fault", fault["kind"], info["fired"], outcome, type(exc).__name__)
    else:
        R.log(op["op"], outcome, out)
    return outcome if exc is not None else None
