"""C18: embedding functions, whatever happens around the call"""
import math

import torch

from dst import blocks as B
from dst import world as W
from dst.kernel import Violation

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE, STATES, STUB, ASSUME, TIME, SHRINK = B.RULE, B.STATES, B.STUB, B.ASSUME, B.TIME, B.SHRINK
REAL = ["torchmps.embeddings.onehot_embed, trig_embed, sincos_embed", "torchmps.utils.onehot", "PyTorch kernels, autograd"]


def gen_op(rng, world):
    nd = rng.choice([0, 1, 1, 2, 2, 2, 3, 4])
    shape = [rng.choice([0, 1, 1, 2, 3, 4, 7]) if rng.random() < 0.9 else 40 for _ in range(nd)]
    kind = rng.choice(["trig", "trig", "trig", "sincos", "onehot", "onehot", "labels"])
    op = {"op": kind, "seed": W.seed_of(rng), "shape": shape, "dim": rng.choice([1, 2, 2, 3, 4, 5, 8, 12]), "view": rng.choice([None, None, "t", "slice"])}
    if kind in ("trig", "sincos"):
        op["grad"] = rng.random() < 0.5
        op["values"] = rng.choice(["unit", "unit", "wide", "edge"])
        op["kw"] = rng.random() < 0.4
    if kind == "labels":
        op["shape"] = [rng.randint(0, 9)]
        op["list"] = rng.random() < 0.5
    return op


def make(op, world):
    g = torch.Generator().manual_seed(op["seed"])
    if op["op"] in ("onehot", "labels"):
        t = B.viewed(torch.randint(0, op["dim"], op["shape"], generator=g), op["view"])
        return [t.tolist()] if op.get("list") else [t]
    t = torch.rand(op["shape"], generator=g, dtype=torch.float64)
    if op["values"] == "wide":
        t = t * 6 - 3
    if op["values"] == "edge":
        t = (t * 5 - 2).floor() / 2
    t = B.viewed(t.to(B.dt_of(world)), op["view"])
    if op["grad"]:
        t.requires_grad_()
    return [t]


def call(inc, op, args):
    emb, ut = inc.embeddings, inc.utils
    if op["op"] == "labels":
        return [ut.onehot(args[0], op["dim"])]
    if op["op"] == "onehot":
        return [emb.onehot_embed(args[0], op["dim"])]
    if op["op"] == "sincos":
        out = emb.sincos_embed(args[0])
    elif op["kw"]:
        out = emb.trig_embed(args[0], emb_dim=op["dim"])
    else:
        out = emb.trig_embed(args[0], op["dim"])
    if not op["grad"]:
        return [out]
    w = weights(op, out.shape).to(out.dtype)
    return [out, torch.autograd.grad((out * w).sum(), args[0])[0]]


def weights(op, shape):
    return torch.randn(tuple(shape), generator=torch.Generator().manual_seed(op["seed"] + 1), dtype=torch.float64)


def label(op):
    return (op["op"], len(op["shape"]), 0 in op["shape"], op["dim"], op.get("grad"), op.get("values"))


def judge(op, args, out, world):
    val, exc = out
    what = f"{op['op']} {B.short(op)}"
    if exc is not None:
        raise Violation(f"{what}: raises {W.describe(exc)}")
    if op["op"] in ("onehot", "labels"):
        x = torch.as_tensor(args[0], dtype=torch.int64)
        want = (x[..., None] == torch.arange(op["dim"])).to(torch.float64)
        B.close(val[0], want, 0, what)
        return
    d = 2 if op["op"] == "sincos" else op["dim"]
    x = B.up(args[0])
    c, s = torch.cos(x * math.pi / 2), torch.sin(x * math.pi / 2)
    p = lambda a, k: a**k if k >= 0 else torch.zeros_like(a)
    root = [math.sqrt(math.comb(d - 1, j)) for j in range(d)]
    want = torch.stack([root[j] * c ** (d - 1 - j) * s**j for j in range(d)], dim=-1)
    tol = B.eps(world) * (d + 1) * (1 + x.abs().max() if x.numel() else 1) * max(root)
    B.close(val[0], want, tol, what)
    if val[0].dtype != args[0].dtype:
        raise Violation(f"{what}: dtype {val[0].dtype}")
    if op["grad"]:
        der = torch.stack([root[j] * math.pi / 2 * (j * p(s, j - 1) * p(c, d - j) - (d - 1 - j) * p(c, d - 2 - j) * p(s, j + 1)) for j in range(d)], dim=-1)
        w = weights(op, want.shape)
        B.close(val[1], (w * der).sum(-1), 20 * tol * (d + 1), f"{what}: gradient")


def gen(rng, tier):
    return B.gen(rng, gen_op)


def run(plan, R):
    import sys

    return B.run(plan, R, sys.modules[__name__])
