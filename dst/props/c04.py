"""C04: shifts happen on schedule and report the true bond spectrum"""
import torch

from dst import adapt, ref, zoo
from dst import world as W
from dst.kernel import Violation, run_call

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run with at least two shifts on schedule, at least one of them leaving a surplus, and at least two calls without a shift"
STATES = "distinct (threshold, counter before the call, batch size, offset, chain length, boundary, which bonds lost how many dimensions) tuples at a checked call"
REAL = ["torchmps (all modules)", "PyTorch kernels (SVD), autograd, optimisers"]
STUB = ["feature maps supplied by the simulated user"]
ASSUME = ["an input counts as seen once the call accepted its shape", "singular values closer to the cutoff than the rounding error of the dtype may count either way"]
SHRINK = ["ops"]


def gen(rng, tier):
    spec = zoo.gen_mps(rng, adaptive=True)
    spec["merge_threshold"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 13])
    if rng.random() < 0.25:
        spec["input_dim"] = n = rng.choice([8, 9, 10, 11, 12])
        spec["label_site"], spec["label_given"] = rng.randint(0, n), True
        spec["path"], spec["raw_dim"] = None, n
    slots = [W.gen_slot(rng, spec)]
    if rng.random() < 0.4:  # a second model, with its own schedule
        s2 = dict(spec) if rng.random() < 0.5 else zoo.gen_mps(rng, adaptive=True)
        s2["merge_threshold"] = rng.choice([1, 2, 3, 5, 8])
        slots.append(W.gen_slot(rng, s2))
    for s in slots:
        if rng.random() < 0.15:
            s["style"] = None
    ops = []
    for _ in range(rng.randint(5, 18)):
        o = W.weighted(rng, [("eval", 7), ("train", 2), ("set", 0.8), ("mode", 0.5), ("bad", 0.8)])
        k = rng.randrange(len(slots))
        sp = slots[k]["spec"]
        op = {"op": o, "slot": k, "x": zoo.gen_x(rng, sp, B=rng.choice([1, 1, 2, 3, 4, 6, 9, 15]))}
        op["wseed"] = W.seed_of(rng)
        if o == "set":
            op.update(seed=W.seed_of(rng), style=W.style_for(rng, sp))
        if o == "mode":
            op["training"] = rng.random() < 0.5
        if o == "bad":
            op.update(kind=rng.choice(["sites", "feat", "rank4", "none"]), seed=W.seed_of(rng))
        if o == "eval":
            op["nograd"] = rng.random() < 0.3
        ops.append(op)
    W.flavour(rng, ops, len(slots))
    return {"slots": slots, "ops": ops}


class Track:
    """What the schedule requires, from the documentation alone"""

    def __init__(self, slot):
        spec = slot.spec
        self.slot, self.counter, self.offset = slot, 0, 0
        n, D = spec["input_dim"], spec["bond_dim"]
        want = [D] * (n + 2)
        if not spec["periodic"]:
            want[0] = want[-1] = 1
        b, s = lists(slot.model)
        if b.tolist() != want or tuple(s.shape) != (n + 2, D) or not bool((s == -1).all()):
            raise Violation("reported bonds: wrong before the first shift")
        self.bonds, self.svs = b, s


def lists(model):
    return model.bond_list.detach().clone(), model.sv_list.detach().clone()


def run(plan, R):
    w = W.World(R)
    tracks = []
    for i, p in enumerate(plan["slots"]):
        s = W.build_ok(w, i, p["spec"], p["seed"], p["style"], p["vseed"])
        tracks.append(Track(s))
    shifts = surplus = plain = 0
    for op in plan["ops"]:
        t = tracks[op["slot"]]
        s, spec = t.slot, t.slot.spec
        zoo.set_default(spec)
        o = op["op"]
        if o in ("eval", "train"):
            due = t.counter >= spec["merge_threshold"]
            P = s.snap()
            sh = adapt.Shift(spec, P)
            exc = call(w, s, op)
            Q = s.snap()
            b, v = lists(s.model)
            if exc is not None:
                if due and sh.may_remove_all and isinstance(exc, RuntimeError):
                    R.count("fault:cutoff_removes_all")
                    check_unchanged(t, P, Q, b, v, sh)
                    continue
                raise Violation(f"adaptive call raises {W.describe(exc)} for {W.brief(spec)}")
            shifted = adapt.kinds(spec, P) != adapt.kinds(spec, Q)
            where = f"(counter {t.counter}, threshold {spec['merge_threshold']}, offset {t.offset})"
            if due != shifted:
                raise Violation(f"schedule: a shift {'was due but did not happen' if due else 'happened although none was due'} {where}")
            if due:
                if not sh.may_remove_all and sh.removes_all:
                    raise Violation("shift removing everything took place")
                split = sorted(x[0] for x in sh.splits)
                want = [k + 1 for k in range(sh.ncores - 1) if k % 2 == t.offset]
                if split != want:
                    raise Violation(f"schedule: bonds {split} were merged, should be {want} {where}")
                sh.check_bonds(b, v, t.bonds, t.svs)
                t.offset = 1 - t.offset
                now = sorted(k + 1 for k in adapt.kinds(spec, Q)[0])
                want = [k + 1 for k in range(sh.ncores - 1) if k % 2 == t.offset]
                if now != want:
                    raise Violation(f"schedule: after the shift bonds {now} are merged, should be {want} {where}")
                t.counter -= spec["merge_threshold"]
                shifts += 1
                surplus += t.counter > 0
                R.count("shifts")
            else:
                plain += 1
                if not (torch.equal(b, t.bonds) and torch.equal(v, t.svs)):
                    raise Violation("reported bonds: changed by a call without a shift")
            R.reach((spec["merge_threshold"], t.counter, op["x"]["B"], t.offset, spec["input_dim"], spec["periodic"], due, tuple(int(i) for i in b - t.bonds)))
            t.counter += op["x"]["B"]
            t.bonds, t.svs = b, v
            R.log(o, s.name, due, b.tolist(), v)
        elif o == "set":
            w.assign(s, op["seed"], op["style"])
        elif o == "mode":
            w.mode(s, op["training"])
        elif o == "bad":
            P = s.snap()
            exc = w.bad_call(s, op["kind"], op["seed"])
            if exc is None:
                raise Violation(f"unusable input ({op['kind']}) is accepted by {W.brief(spec)}")
            b, v = lists(s.model)
            check_unchanged(t, P, s.snap(), b, v, None)
    R.nontrivial = shifts >= 2 and surplus >= 1 and plain >= 2
    R.sig = R.h.hexdigest()


def check_unchanged(t, P, Q, b, v, sh):
    """A call that failed before anything could be counted or shifted"""
    if adapt.kinds(t.slot.spec, P) != adapt.kinds(t.slot.spec, Q):
        raise Violation("schedule: a shift happened in a call that failed")
    if not (torch.equal(b, t.bonds) and torch.equal(v, t.svs)):
        raise Violation("reported bonds: changed by a call that failed")


def call(w, s, op):
    spec = s.spec
    lx, _ = zoo.make_x(spec, op["x"])
    wt = W.weights((op["x"]["B"], spec["output_dim"]), op["wseed"])

    def go():
        if op.get("nograd"):
            with torch.no_grad():
                return s.model(lx)
        out = s.model(lx)
        if op["op"] == "train":
            s.model.zero_grad()
            (out * wt.to(out.dtype)).sum().backward()
            s.pending = [p for p in s.model.parameters() if p.grad is not None]
        return out

    val, exc, info = run_call(go)
    w.R.count("steps", info["points"])
    if exc is None and op["op"] == "train":
        tot = sum(float(p.grad.pow(2).sum()) for p in s.pending) ** 0.5
        if 0 < tot < float("inf"):
            torch.optim.SGD(s.pending, lr=0.03 / tot).step()
        s.model.zero_grad()
    return exc
