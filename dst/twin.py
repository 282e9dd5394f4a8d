"""Histories whose future is compared with that of an undisturbed twin (C07, C08)"""
import copy
import hashlib

import torch

from . import ref, zoo
from . import world as W
from .kernel import Incarnation, Violation, run_call, quietly


def gen_hist_op(rng, spec, kinds=None):
    o = W.weighted(rng, kinds or [("train", 5), ("eval", 4), ("set", 0.5), ("mode", 0.5), ("fmap", 0.0)])
    op = {"op": o, "x": zoo.gen_x(rng, spec), "wseed": W.seed_of(rng)}
    if o == "set":
        op.update(seed=W.seed_of(rng), style=W.style_for(rng, spec))
    if o == "mode":
        op["training"] = rng.random() < 0.5
    return op


def gen_spec(rng):
    r = rng.random()
    if r < 0.5:
        spec = zoo.gen_mps(rng, adaptive=True)
        spec["merge_threshold"] = rng.choice([1, 2, 3, 4, 6, 9])
        spec["cutoff"] = rng.choice([1e-10, 1e-10, 1e-4, 1e-3])
    else:
        spec = zoo.gen_any(rng, adaptive=False)
    return spec


class Live:
    """A model with its optimizer, as the simulated user holds them"""

    def __init__(self, inc, spec, seed, opt, style=None, vseed=0):
        self.inc, self.spec, self.optkind = inc, spec, opt
        self.model = zoo.build(inc, spec, seed)
        if style:
            zoo.refill(self.model, spec, vseed, style)
        self.opt = make_opt(opt, self.model)
        self.pts = None

    def apply(self, op, fault=None, limit=400_000):
        """-> (record, exception, info)"""
        spec, model = self.spec, self.model
        zoo.set_default(spec)
        o = op["op"]
        if o == "set":
            zoo.refill(model, spec, op["seed"], op["style"])
            return ("set",), None, {"fired": None, "points": 0}
        if o == "mode":
            model.train(op["training"])
            return ("mode", model.training), None, {"fired": None, "points": 0}
        lx, rx = zoo.make_x(spec, op["x"])
        shape = (op["x"]["B"], spec["output_dim"]) if "output_dim" in spec else (op["x"]["B"],)
        wt = W.weights(shape, op["wseed"])

        def go():
            if o == "eval":
                with torch.no_grad():
                    return model(lx, **zoo.call_kwargs(op["x"]))
            self.opt.zero_grad()
            out = model(lx, **zoo.call_kwargs(op["x"]))
            if not bool(out.isfinite().all()):
                return out
            (out * wt.to(out.dtype)).sum().backward()
            ps = [p for p in model.parameters() if p.grad is not None]
            tot = sum(float(p.grad.abs().pow(2).sum()) for p in ps) ** 0.5
            if 0 < tot < float("inf"):
                for p in ps:
                    p.grad /= tot
                quietly(self.opt.step)
            self.opt.zero_grad()
            return out

        out, exc, info = run_call(go, fault, limit)
        self.pts = info["trace"]
        if exc is not None:
            if isinstance(exc, AssertionError) and "len" in op["x"] and zoo.ill_conditioned(spec, ref.snapshot(model), op["x"]["len"]):
                return ("raised", type(exc).__name__), None, info  # no probabilities to report
            return ("raised", type(exc).__name__), exc, info
        rec = [o, out.detach().clone()]
        rec.append(ref.snapshot(model) if o == "eval" or True else None)
        return rec, None, info

    def bonds(self):
        m = self.model
        return (m.bond_list.clone(), m.sv_list.clone()) if self.spec.get("adaptive") else None


def make_opt(kind, model):
    if kind == "adam":
        return torch.optim.Adam(model.parameters(), lr=0.01)
    if kind == "momentum":
        return torch.optim.SGD(model.parameters(), lr=0.01, momentum=0.8)
    return torch.optim.SGD(model.parameters(), lr=0.02)


def close(a, b, spec, scale=None):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if torch.equal(a, b):
        return True
    if not (a.is_floating_point() or a.is_complex()):
        return False
    if torch.equal(a.isnan(), b.isnan()) and bool(a.isnan().any()):
        a, b = a.nan_to_num(), b.nan_to_num()
    rel = 2e-3 if spec["dtype"] == "f32" else 1e-6
    m = max(float(a.abs().max()), float(b.abs().max())) if a.numel() else 0.0
    d = float((a - b).abs().max()) if a.numel() else 0.0
    return d <= rel * m or d == 0


def same_record(a, b, spec, what):
    if a[0] != b[0]:
        raise Violation(f"{what}: {a[0:2] if a[0] == 'raised' else a[0]} instead of {b[0:2] if b[0] == 'raised' else b[0]}")
    if a[0] in ("raised", "mode"):
        if a[1] != b[1]:
            raise Violation(f"{what}: {a[1]} instead of {b[1]}")
        return
    if a[0] in ("eval", "train"):
        if not close(a[1], b[1], spec):
            raise Violation(f"{what}: output differs by {maxdiff(a[1], b[1])}")
        same_state(a[2], b[2], spec, what + ", state")


def maxdiff(a, b):
    if a.shape != b.shape:
        return f"shape {tuple(a.shape)} / {tuple(b.shape)}"
    return f"{float((a.to(torch.complex128) - b.to(torch.complex128)).abs().max()):.3g} (size {float(b.abs().max()):.3g})"


def same_state(P, Q, spec, what):
    """Entries of two state dictionaries; the inactive merged cores hold only
    leftovers and are compared as well, as the twin has the same ones"""
    if set(P) != set(Q):
        raise Violation(f"{what}: entries {sorted(set(P) ^ set(Q))[:3]} differ")
    for k in P:
        a, b = P[k], Q[k]
        if isinstance(a, torch.Tensor) != isinstance(b, torch.Tensor):
            raise Violation(f"{what}: {k} is of another kind")
        if isinstance(a, torch.Tensor):
            if not close(a, b, spec):
                raise Violation(f"{what}: {k} differs by {maxdiff(a, b)}")
        elif a != b:
            raise Violation(f"{what}: {k} is {a} instead of {b}")


def digest(obj, h=None):
    """Digest of nested state (tensors by value)"""
    top = h is None
    h = h or hashlib.blake2b(digest_size=12)
    if isinstance(obj, torch.Tensor):
        t = obj.detach().cpu()
        h.update(f"{t.dtype}{tuple(t.shape)}".encode())
        t = torch.view_as_real(t) if t.is_complex() else t
        h.update(t.contiguous().numpy().tobytes())
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            h.update(str(k).encode())
            digest(obj[k], h)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            digest(v, h)
    else:
        h.update(repr(obj).encode())
    return h.hexdigest() if top else None
