"""Operations of the simulated user on models of the package under test"""
import random

import torch

from . import ref, zoo
from .kernel import HarnessError, Incarnation, Violation, aim, run_call

F64 = torch.float64


def describe(exc):
    return f"{type(exc).__name__}: {str(exc)[:160]}"


class Slot:
    """One model of the simulated process"""

    def __init__(self, world, name, spec, seed, style=None, vseed=0, emb=None):
        self.world, self.name, self.spec = world, name, spec
        self.model = zoo.build(world.inc, spec, seed, emb)
        if style:
            zoo.refill(self.model, spec, vseed, style)
        self.pts = self.ops = None
        self.training = True

    def snap(self):
        return ref.snapshot(self.model)


def build_ok(world, name, spec, seed, style=None, vseed=0, emb=None):
    """Construct a model; failing to is a violation"""
    val, exc, _ = run_call(lambda: Slot(world, name, spec, seed, style, vseed, emb), limit=3_000_000)
    if exc is not None:
        raise Violation(f"construction fails: {describe(exc)} for {brief(spec)}")
    return val


def brief(spec):
    return {k: v for k, v in spec.items() if k not in ("fmap", "emb") or v} if spec else spec


def weights(B_or_shape, seed):
    return torch.randn(B_or_shape, generator=zoo.gen_t(seed), dtype=F64)


def raw_call(slot, x, kwargs=None):
    kw = zoo.call_kwargs(x) if kwargs is None else kwargs
    return slot.model(zoo_in(slot, x), **kw)


def watched(lx):
    """The input as leaves of the user's graph; -> (input, leaves)"""
    if isinstance(lx, list):
        lx = [t.clone().requires_grad_(True) for t in lx]
        return lx, list(lx)
    if not lx.is_floating_point():
        return lx, []
    lx = lx.clone().requires_grad_(True)
    return lx, [lx]


def counter(model):
    """Inputs since the last shift, from the saved state"""
    return next((v["input_counter"] for v in model.state_dict().values() if isinstance(v, dict) and "input_counter" in v), None)


def zoo_in(slot, x):
    return zoo.make_x(slot.spec, x)[0]


class World:
    def __init__(self, R):
        self.R = R
        self.inc = Incarnation()
        self.slots = {}
        self.buffers = {}

    # -- evaluation checked against the reference -------------------------

    def input(self, spec, x):
        """Library and reference input; perhaps in a buffer used before"""
        lx, rx = zoo.make_x(spec, x)
        if x.get("buf"):
            one = isinstance(lx, torch.Tensor)
            out = []
            for i, t in enumerate([lx] if one else lx):
                key = (i, str(t.dtype), tuple(t.shape))
                b = self.buffers.setdefault(key, t)
                if b is not t:
                    b.copy_(t)
                out.append(b)
            lx = out[0] if one else out
        return lx, rx

    def evaluate(self, slot, x, grad=False, nograd=False, wseed=0, fault=None, what=None, count=True, model=None):
        """Library call (values and perhaps gradients) == reference.

        With a fault that fires the call may fail; otherwise it must not.
        Returns the library output or None.
        """
        spec, R = slot.spec, self.R
        model = slot.model if model is None else model
        what = what or f"{spec['cls']} output"
        zoo.set_default(spec)
        lx, rx = self.input(spec, x)
        kw = zoo.call_kwargs(x)
        P = ref.snapshot(model)
        B = x["B"]
        ill = "len" in x and zoo.ill_conditioned(spec, P, x["len"])
        wshape = (B, spec["output_dim"]) if "output_dim" in spec else (B,)
        w = weights(wshape, wseed)
        ps = [p for p in model.parameters() if p.requires_grad]

        xs = []
        if grad and not nograd and x.get("xg") and not x.get("buf") and zoo.has_xgrad(spec, x):
            lx, xs = watched(lx)

        def go():
            if nograd:
                with torch.inference_mode() if nograd == "inference" else torch.no_grad():
                    return model(lx, **kw), None
            out = model(lx, **kw)
            if not grad or not ps + xs or not out.requires_grad:
                return out, None
            gs = torch.autograd.grad((out * w.to(out.dtype)).sum(), ps + xs, allow_unused=True)
            return out, {id(p): g for p, g in zip(ps + xs, gs)}

        val, exc, info = run_call(go, fault)
        if count:
            R.count("steps", info["points"])
        if fault and not fault.get("count_ops"):
            if info["fired"]:
                R.count(f"fault:{fault['kind']}")
                R.reach(f"{fault['kind']}@{info['fired']}")
            else:
                R.count(f"unfired:{fault['kind']}")
        if exc is not None:
            if fault and info["fired"]:
                R.log("aborted", slot.name, type(exc).__name__, info["fired"])
                return None
            if ill and isinstance(exc, AssertionError):
                return None
            raise Violation(f"{what}: call raises {describe(exc)} for {brief(spec)} {x}")
        slot.pts = info["trace"]
        slot.ops = info.get("ops", slot.ops)
        out, gs = val
        R.log("eval", slot.name, x["seed"], out)
        if ill:
            R.count("not_judged_ill_conditioned")
            return out
        if spec.get("adaptive"):
            P = ref.snapshot(model)  # the call may have shifted the merge state
        xgs = [gs[id(q)] for q in xs] if gs is not None else []
        if gs is not None:
            gs = {n: gs[id(p)] for n, p in zoo.named(model).items() if id(p) in gs}
        try:
            zoo.compare(spec, P, rx, out, what)
            if gs is not None:
                zoo.check_grads(spec, P, rx, w, gs, what.replace("output", "gradient"))
            if xgs:
                zoo.check_xgrad(spec, P, rx, w, xgs, what.replace("output", "gradient"))
                R.count("input_gradients")
        except Violation as v:
            raise Violation(f"{v} [{brief(spec)} {x}]")
        R.count("evaluations")
        return out

    def pending(self, slot, xs, order, wseed=0):
        """Several forward passes before the backward passes, in any order"""
        spec, R, model = slot.spec, self.R, slot.model
        zoo.set_default(spec)
        ins = [self.input(spec, dict(x, buf=False)) for x in xs]
        shape = lambda x: (x["B"], spec["output_dim"]) if "output_dim" in spec else (x["B"],)
        ws = [weights(shape(x), wseed ^ i) for i, x in enumerate(xs)]
        ps = [p for p in model.parameters() if p.requires_grad]
        if spec.get("adaptive"):
            # a second shift would write into what the first pass has saved
            c, thr, later = counter(model), spec["merge_threshold"], 0
            if c is None:
                return
            for i, x in enumerate(xs):
                if c >= thr:
                    c, later = c - thr, later + (i > 0)
                c += x["B"]
            if later > 1:
                return
        if not ps or any("len" in x and zoo.ill_conditioned(spec, ref.snapshot(model), x["len"]) for x in xs):
            return
        outs, gs, snaps = [], {}, []

        def go():
            for (lx, _), x in zip(ins, xs):
                outs.append(model(lx, **zoo.call_kwargs(x)))
                snaps.append((ref.snapshot(model), zoo.named(model)))
            for i in order:
                o = outs[i]
                if o.requires_grad:
                    g = torch.autograd.grad((o * ws[i].to(o.dtype)).sum(), ps, allow_unused=True)
                    gs[i] = {id(p): t for p, t in zip(ps, g)}

        _, exc, info = run_call(go)
        R.count("steps", info["points"])
        R.log("pending", slot.name, order)
        if exc is not None:
            raise Violation(f"delayed backward passes raise {describe(exc)} for {brief(spec)} {xs}")
        for i, ((_, rx), (P, names), x) in enumerate(zip(ins, snaps, xs)):
            what = f"{spec['cls']} {{}} of pass {i} of {len(xs)}, backward in order {order}"
            try:
                zoo.compare(spec, P, rx, outs[i], what.format("output"))
                if i in gs:
                    got = {n: gs[i][id(p)] for n, p in names.items() if id(p) in gs[i]}
                    zoo.check_grads(spec, P, rx, ws[i], got, what.format("gradient"))
            except Violation as v:
                raise Violation(f"{v} [{brief(spec)} {x}]")
        R.count("delayed_backward_passes", len(order))

    # -- ops that change the model ----------------------------------------

    def assign(self, slot, seed, style):
        zoo.refill(slot.model, slot.spec, seed, style)
        self.R.log("set", slot.name, seed, style)

    def mode(self, slot, training):
        slot.model.train(training)
        slot.training = training

    def train(self, slot, x, lr=0.01, wseed=0, opt=None, clip=True):
        """One step of gradient descent by the library's gradients"""
        spec = slot.spec
        zoo.set_default(spec)
        lx, _ = self.input(spec, x)
        wshape = (x["B"], spec["output_dim"]) if "output_dim" in spec else (x["B"],)
        w = weights(wshape, wseed)

        def go():
            slot.model.zero_grad()
            out = slot.model(lx, **zoo.call_kwargs(x))
            (out * w.to(out.dtype)).sum().backward()
            ps = [p for p in slot.model.parameters() if p.grad is not None]
            tot = sum(float(p.grad.abs().pow(2).sum()) for p in ps) ** 0.5
            if tot > 0 and tot == tot and tot != float("inf"):
                if opt is None and "len" in x:  # a step relative to the size of each parameter
                    with torch.no_grad():
                        for p in ps:
                            m = float(p.grad.abs().max())
                            if m > 0:
                                p.sub_(lr * float(p.abs().max()) / m * p.grad)
                else:
                    (opt or torch.optim.SGD(slot.model.parameters(), lr=lr / tot)).step()
            slot.model.zero_grad()
            return out

        out, exc, info = run_call(go)
        self.R.count("steps", info["points"])
        if exc is not None:
            if isinstance(exc, AssertionError) and "len" in x and zoo.ill_conditioned(spec, ref.snapshot(slot.model), x["len"]):
                return
            raise Violation(f"training step raises {describe(exc)} for {brief(spec)} {x}")
        self.R.log("train", slot.name, out)

    # -- rejected inputs ----------------------------------------------------

    BAD = ["sites", "feat", "rank1", "rank4", "none", "str", "list", "half", "empty_list", "mixed"]

    def bad_input(self, slot, kind, seed):
        spec = slot.spec
        g = zoo.gen_t(seed)
        dt = zoo.dtype_of(spec)
        n = spec.get("raw_dim") or spec.get("seq_len") or 3
        d = spec.get("feature_dim") or spec.get("input_dim")
        B = 1 + seed % 3
        if kind == "sites":
            m = n + 1 if seed % 2 else max(0, n - 1)
            if spec["cls"] == "MPS" and spec["path"]:
                m = max(spec["path"])
            return torch.rand((B, m), generator=g, dtype=F64).to(dt)
        if kind == "feat":
            return torch.rand((B, n, d + 1), generator=g, dtype=F64).to(dt)
        if kind == "rank1":
            return torch.rand((n,), generator=g, dtype=F64).to(dt)
        if kind == "rank4":
            return torch.rand((B, n, d, 2), generator=g, dtype=F64).to(dt)
        if kind == "none":
            return None
        if kind == "str":
            return "input"
        if kind == "list":
            return [[0.5] * n] * B
        if kind == "half":
            return torch.zeros((B, n, d), dtype=torch.int8)
        if kind == "empty_list":
            return []
        if kind == "mixed":
            return [torch.rand((n,), generator=g), torch.rand((n, d), generator=g)]
        raise HarnessError(kind)

    def bad_call(self, slot, kind, seed, fn=None):
        """A call with unusable input; must not hang, may raise anything"""
        zoo.set_default(slot.spec)
        lx = self.bad_input(slot, kind, seed)
        val, exc, info = run_call(lambda: slot.model(lx))
        self.R.count("fault:bad_input" if exc is not None else "unfired:bad_input")
        self.R.log("bad", slot.name, kind, type(exc).__name__ if exc else None)
        return exc

    def bad_empty(self, slot, x):
        """A batch without any input: an empty result or an exception"""
        zoo.set_default(slot.spec)
        lx, _ = zoo.make_x(slot.spec, x)
        val, exc, info = run_call(lambda: slot.model(lx))
        self.R.count("fault:empty_batch")
        if exc is None:
            want = (0, slot.spec["output_dim"]) if "output_dim" in slot.spec else (0,)
            if tuple(val.shape) != want:
                raise Violation(f"empty batch gives shape {tuple(val.shape)}")
        self.R.log("empty", slot.name, type(exc).__name__ if exc else None)

    def fault(self, slot, kind, frac):
        """Concrete fault from a relative position in the last call"""
        if kind != "kbd" and slot.ops:
            return {"kind": kind, "at": int(frac * slot.ops)}
        return {"kind": kind, "at": aim(slot.pts, kind, frac)}


# --------------------------------------------------------------------------
# Plan generation helpers

STYLES = ["dense", "dense", "ident", "tiny", "huge", "decay", "lowrank"]


def style_for(rng, spec):
    if spec["cls"] == "TI_MPS":
        return rng.choice(["dense", "ident"])
    if spec["cls"] != "MPS":
        return rng.choice(["dense", "dense", "dense", "tiny", "huge", "positive", "scales", "symbols", "sparse"])
    return rng.choice(STYLES)


def flavour(rng, ops, k):
    """Habits of a simulated user, over all operations of a plan: a service which
    only evaluates in eval mode, the same inputs again and again, inputs
    handed over in buffers that are used again for the next ones"""
    if rng.random() < 0.25:
        at = rng.randint(0, min(2, len(ops) - 1))
        for s in range(k):
            ops.insert(at, {"op": "mode", "slot": s, "m": 0, "training": False, "wseed": 0})
        keep = rng.random() < 0.3
        for op in ops[at + k :]:
            if op["op"] == "mode" and not keep:
                op["training"] = False
            if op["op"] == "eval" and op is not ops[-1] and rng.random() < 0.8:
                op["grad"], op["nograd"] = False, rng.choice([True, True, "inference"])
    if rng.random() < 0.25:
        seen = {}
        for op in ops:
            if op.get("x") and op["op"] != "empty":
                xs = seen.setdefault(op.get("slot", 0), [])
                if len(xs) >= 2 or xs and rng.random() < 0.5:
                    op["x"] = dict(rng.choice(xs))
                else:
                    xs.append(op["x"])
    if rng.random() < 0.2:
        for op in ops:
            if op.get("x"):
                op["x"] = dict(op["x"], buf=True)
    return ops


def gen_slot(rng, spec):
    return {"spec": spec, "seed": rng.randrange(1 << 30), "style": style_for(rng, spec), "vseed": rng.randrange(1 << 30)}


def seed_of(rng):
    return rng.randrange(1 << 30)


def weighted(rng, table):
    tot = sum(w for _, w in table)
    r = rng.random() * tot
    for k, w in table:
        r -= w
        if r < 0:
            return k
    return table[-1][0]
