"""C17: initialisers, whatever happens around the call"""
import math

import torch

from dst import blocks as B
from dst import world as W
from dst.kernel import Violation

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE, STATES, STUB, ASSUME, TIME, SHRINK = B.RULE, B.STATES, B.STUB, B.ASSUME, B.TIME, B.SHRINK
REAL = ["torchmps.utils.init_tensor", "torchmps.mps_base.near_eye_init, normal_init", "PyTorch kernels and global generator"]


def gen_op(rng, world):
    kind = rng.choice(["init", "init", "init", "eye", "normal"])
    op = {"op": kind, "seed": W.seed_of(rng)}
    dim = lambda: rng.choice([1, 2, 3, 3, 4, 5, 8]) if rng.random() < 0.9 else rng.choice([12, 20])
    if kind == "init":
        op["method"] = rng.choice(["random_eye", "random_eye", "min_random_eye", "min_random_eye", "random_zero", "plain_eye", "plain_zero", "bad"])
        nd = rng.choice([2, 3, 3, 4, 5])
        bond = ["l", "r"] + rng.sample("abcdeo", nd - 2)
        if op["method"] in ("random_zero", "plain_zero") and rng.random() < 0.3:
            bond = rng.sample("abcdeolr", rng.randint(1, 4))
        rng.shuffle(bond)
        op["bond"] = "".join(bond)
        op["shape"] = [dim() for _ in bond]
        if rng.random() < 0.4 and "l" in bond and "r" in bond:
            op["shape"][bond.index("l")] = op["shape"][bond.index("r")]
        op["std"] = rng.choice([0, 1e-9, 1e-3, 1e-2, 0.1, 1.0])
        op["dim"] = rng.choice([1, 1, 2, 3, 4, 7, 30])
        op["tuple"] = rng.random() < 0.3
    else:
        d = dim()
        op["shape"] = [dim() for _ in range(rng.choice([1, 1, 2, 3]))] + [d, d]
        if rng.random() < 0.2:
            op["shape"][-1] = dim()
        op["cplx"] = rng.random() < 0.4
        op["amount"] = rng.choice([None, None, 0.0, 1e-3, 0.05, 0.5, 2.0])
        op["tuple"] = rng.random() < 0.7
    return op


def make(op, world):
    return [tuple(op["shape"]) if op["tuple"] else list(op["shape"])]


def call(inc, op, args):
    if op["op"] == "init":
        m = {
            "random_eye": ("random_eye", op["std"]),
            "random_zero": ("random_zero", op["std"]),
            "min_random_eye": ("min_random_eye", op["std"], op["dim"]),
            "plain_eye": "random_eye",
            "plain_zero": "random_zero",
            "bad": ("random_one", op["std"]),
        }[op["method"]]
        return [inc.utils.init_tensor(args[0], op["bond"], m)]
    base = inc.mps_base
    kw = {}
    if op["cplx"]:
        kw["is_complex"] = True
    if op["amount"] is not None:
        kw["noise" if op["op"] == "eye" else "rel_std"] = op["amount"]
    return [(base.near_eye_init if op["op"] == "eye" else base.normal_init)(tuple(args[0]), **kw)]


def label(op):
    return (op["op"], op.get("method"), len(op["shape"]), op.get("cplx"), op.get("amount", op.get("std")), op.get("dim"))


def judge(op, args, out, world):
    val, exc = out
    what = f"{op['op']} {B.short(op)}"
    shape = op["shape"]
    dt = torch.get_default_dtype()
    if op["op"] == "init":
        if op["method"] == "bad":
            if not isinstance(exc, ValueError):
                raise Violation(f"{what}: unknown method is not rejected ({type(exc).__name__})")
            return
        std = 1e-9 if op["method"].startswith("plain") else op["std"]
        want = torch.zeros(shape, dtype=torch.float64)
        if "eye" in op["method"]:
            i, j = op["bond"].index("l"), op["bond"].index("r")
            k = min(shape[i], shape[j])
            if op["method"] == "min_random_eye":
                k = min(k, op["dim"])
            for a in range(k):
                want.select(max(i, j), a).select(min(i, j), a).fill_(1)
    else:
        if shape[-1] != shape[-2] and math.prod(shape[:-3]) != 1:
            if not isinstance(exc, ValueError):
                raise Violation(f"{what}: batch of matrices which are not square is not rejected ({type(exc).__name__})")
            return
        want = torch.zeros(shape, dtype=torch.float64)
        if op["op"] == "eye":
            want = want + torch.eye(*shape[-2:], dtype=torch.float64)
            std = (1e-3 if op["amount"] is None else op["amount"]) / math.sqrt(shape[-1] * shape[-2])
        else:
            std = (1.0 if op["amount"] is None else op["amount"]) / shape[-1]
        if op["cplx"]:
            dt = {torch.float32: torch.complex64, torch.float64: torch.complex128}[dt]
    if exc is not None:
        raise Violation(f"{what}: raises {W.describe(exc)}")
    t = val[0]
    if not isinstance(t, torch.Tensor) or list(t.shape) != list(shape) or t.dtype != dt:
        raise Violation(f"{what}: {getattr(t, 'dtype', type(t))} of shape {list(getattr(t, 'shape', []))} instead of {dt}")
    noise = (B.up(t) - want).flatten()
    off = noise[want.flatten() == 0]  # rounding hides small noise next to ones
    n = noise.numel()
    slack = 1e-6 if torch.finfo(dt).eps > 1e-10 else 1e-14
    if not float(noise.abs().max()) <= 7.5 * std + slack:
        raise Violation(f"{what}: off by {float(noise.abs().max()):.3g} from its structure, noise has standard deviation {std:.3g}")
    m = off.numel()
    if std > 0 and m >= 30:
        parts = [off] if not off.is_complex() else [off, off.real * math.sqrt(2), off.imag * math.sqrt(2)]
        for p in parts:
            rms = float(p.abs().square().mean().sqrt()) / std
            lo, hi = (0.25, 2.2) if m < 300 else (0.7, 1.35) if m < 1000 else (0.82, 1.2)
            if not lo <= rms <= hi:
                raise Violation(f"{what}: noise has standard deviation {rms * std:.3g} instead of {std:.3g}")
            if not abs(complex(p.mean())) <= 7 * std / math.sqrt(m):
                raise Violation(f"{what}: noise has mean {complex(p.mean()):.3g}, standard deviation {std:.3g}")
        if int(off.abs().unique().numel()) * 2 < m:
            raise Violation(f"{what}: noise repeats")
    if any(st == 0 and sz > 1 for st, sz in zip(t.stride(), t.shape)):
        raise Violation(f"{what}: entries share storage")


def noise_of(op):
    if op["op"] == "init":
        return 0 if op["method"].startswith("plain") else op["std"]
    return op["amount"] if op["amount"] is not None else 1e-3 if op["op"] == "eye" else 1


def together(vals):
    """Results of different calls: own storage, own noise"""
    seen = {}
    for op, v in vals:
        t = v[0]
        p = t.untyped_storage().data_ptr()
        if t.numel() and p in seen:
            raise Violation(f"{op['op']}: two results share storage ({B.short(op)})")
        seen[p] = t
    big = [(op, v[0]) for op, v in vals if v[0].numel() >= 8 and noise_of(op) >= 1e-2]
    for a in range(len(big)):
        for b in range(a):
            x, y = big[a][1].flatten(), big[b][1].flatten()
            k = min(len(x), len(y))
            if x.dtype == y.dtype and torch.equal(x[:k], y[:k]) and k >= 8:
                raise Violation(f"{big[a][0]['op']}: two calls draw the same noise ({B.short(big[a][0])})")


def gen(rng, tier):
    return B.gen(rng, gen_op)


def run(plan, R):
    import sys

    return B.run(plan, R, sys.modules[__name__])
