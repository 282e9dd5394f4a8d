"""C15: splitting a tensor by SVD, whatever happens around the call"""
import math

import torch

from dst import blocks as B
from dst import world as W
from dst.kernel import Violation

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE, STATES, STUB, ASSUME, TIME, SHRINK = B.RULE, B.STATES, B.STUB, B.ASSUME, B.TIME, B.SHRINK
REAL = ["torchmps.utils.svd_flex", "PyTorch kernels"]


def gen_op(rng, world):
    nd = rng.choice([2, 2, 3, 3, 4, 5])
    cap = 6 if nd < 4 else 3
    shape = [rng.randint(1, cap) for _ in range(nd)]
    names = rng.sample("abcdefghijklmnopqrstuvwxyz", nd + 1)
    init, bond = names[:nd], names[nd]
    k = rng.randint(1, nd - 1)
    order = rng.sample(init, nd)
    left, right = order[:k], order[k:]
    if rng.random() < 0.4:
        left, right = sorted(left, key=init.index), sorted(right, key=init.index)
    lpos, rpos = (len(left), 0) if rng.random() < 0.4 else (rng.randint(0, len(left)), rng.randint(0, len(right)))
    left.insert(lpos, bond)
    right.insert(rpos, bond)
    s = "".join(init) + "->" + "".join(left) + "," + "".join(right)
    if rng.random() < 0.3:
        s = s.replace("->", " -> ").replace(",", ", ")
    return {
        "op": "svd",
        "seed": W.seed_of(rng),
        "shape": shape,
        "string": s,
        "max_D": rng.choice([None, None, 1, 2, 3, 4, 6, 9]),
        "cutoff": rng.choice(["default", 1e-10, 1e-10, 0.0, 0.3, 1.0, 2.5, 100.0]),
        "sv_right": rng.choice([True, False, None]),
        "vec": rng.choice([None, None, "ok", "ok", "bad"]),
        "cplx": rng.random() < 0.3,
        "style": rng.choice(["dense", "dense", "dense", "lowrank", "sparse", "zero", "big", "small", "ortho"]),
        "view": rng.choice([None, None, "t", "slice"]),
        "grad": rng.random() < 0.2,
    }


def dims(op):
    s = op["string"].replace(" ", "")
    init, post = s.split("->")
    left, right = post.split(",")
    bond = (set(left) & set(right)).pop()
    size = dict(zip(init, op["shape"]))
    lp, rp = left.replace(bond, ""), right.replace(bond, "")
    return init, left, right, bond, lp, rp, math.prod(size[c] for c in lp), math.prod(size[c] for c in rp), size


def make(op, world):
    g = torch.Generator().manual_seed(op["seed"])
    style = op["style"]
    t = B.rnd(op["shape"], g, world, op["cplx"], style if style in ("sparse", "zero") else "dense")
    init, left, right, bond, lp, rp, ld, rd, size = dims(op)
    if style in ("lowrank", "ortho"):
        a = B.rnd([ld, min(ld, rd)], g, world, op["cplx"])
        b = B.rnd([min(ld, rd), rd], g, world, op["cplx"])
        if style == "ortho":
            m = torch.linalg.qr(B.up(a))[0] @ torch.linalg.qr(B.up(b).mT)[0].mT
            m = m.to(a.dtype)
        else:
            r = max(1, min(ld, rd) // 2)
            m = a[:, :r] @ b[:r]
        t = torch.einsum(f"{lp + rp}->{init}", m.reshape([size[c] for c in lp + rp])).contiguous()
    t = t * {"big": 1e6, "small": 1e-4}.get(style, 1)
    t = B.viewed(t, op["view"])
    if op["grad"]:
        t.requires_grad_()
    args = [t]
    if op["vec"]:
        n = op["max_D"] or min(ld, rd)
        n += 0 if op["vec"] == "ok" else 1
        args.append(torch.full([n], 7.0, dtype=B.dt_of(world)))
    return args


def call(inc, op, args):
    svd_flex = inc.utils.svd_flex
    kw = {}
    if op["max_D"]:
        kw["max_D"] = op["max_D"]
    if op["cutoff"] != "default":
        kw["cutoff"] = op["cutoff"]
    if op["sv_right"] is not None:
        kw["sv_right"] = op["sv_right"]
    if op["vec"]:
        # the vector is the caller's own, as the call writes to it
        vec = args[1].clone()
        kw["sv_vec"] = vec
        return list(svd_flex(args[0], op["string"], **kw)) + [vec]
    return list(svd_flex(args[0], op["string"], **kw))


def label(op):
    return ("svd", len(op["shape"]), op["max_D"], op["cutoff"], op["sv_right"], op["vec"], op["style"], op["cplx"])


def judge(op, args, out, world):
    val, exc = out
    what = f"svd_flex {B.short(op)}"
    init, left, right, bond, lp, rp, ld, rd, size = dims(op)
    m = torch.einsum(f"{init}->{lp + rp}", B.up(args[0])).reshape(ld, rd)
    svs = torch.linalg.svdvals(m)
    max_d, cutoff = op["max_D"], 1e-10 if op["cutoff"] == "default" else op["cutoff"]
    top = float(svs[0])
    tol = (2e-5 if world == "f32" else 1e-10) * max(top, 1e-30) * max(ld, rd)
    if max_d:
        lead = torch.zeros(max_d, dtype=torch.float64)
        lead[: len(svs)] = svs[:max_d]
    else:
        lead = svs
    lo = int((lead >= cutoff + tol).sum())
    hi = int((lead >= cutoff - tol).sum())
    if op["vec"] == "bad":
        if not isinstance(exc, TypeError):
            raise Violation(f"{what}: vector of wrong length for the singular values gives {type(exc).__name__ if exc else 'no error'}")
        return
    if exc is not None:
        if isinstance(exc, RuntimeError) and lo == 0:
            return
        raise Violation(f"{what}: raises {W.describe(exc)}")
    if hi == 0:
        raise Violation(f"{what}: every singular value is below the cutoff, but no error")
    lt, rt, bd = val[:3]
    if not lo <= bd <= hi or bd == 0:
        raise Violation(f"{what}: bond dimension {bd}, but {lo if lo == hi else (lo, hi)} singular values reach the cutoff")
    size = dict(size, **{bond: max_d or bd})
    for t, names in ((lt, left), (rt, right)):
        if tuple(t.shape) != tuple(size[c] for c in names):
            raise Violation(f"{what}: factor {names} has shape {tuple(t.shape)}")
        if t.dtype != args[0].dtype:
            raise Violation(f"{what}: factor {names} has dtype {t.dtype}")
    lm = torch.einsum(f"{left}->{lp + bond}", B.up(lt)).reshape(ld, -1)
    rm = torch.einsum(f"{right}->{bond + rp}", B.up(rt)).reshape(-1, rd)
    if bool(lm[:, bd:].any()) or bool(rm[bd:].any()):
        raise Violation(f"{what}: factors are not zero beyond the bond dimension")
    err = float(torch.linalg.norm(lm @ rm - m))
    best = float(svs[bd:].square().sum().sqrt())
    if not abs(err - best) <= 20 * tol:
        raise Violation(f"{what}: product of the factors is {err:.6g} from the tensor, best possible {best:.6g}")
    iso, sv = (lm.mH[:bd], rm[:bd]) if op["sv_right"] in (True, None) else (rm[:bd], lm.mH[:bd])
    k = min(bd, len(svs))
    e = 2e-5 if world == "f32" else 1e-10
    B.close((iso[:k] @ iso[:k].mH), torch.eye(k, dtype=iso.dtype), 20 * e * max(ld, rd), f"{what}: factor without the singular values is not orthonormal;")
    B.close((sv[:k] @ sv[:k].mH), torch.diag(svs[:k].square()).to(sv.dtype), 20 * tol * max(top, 1e-30), f"{what}: rows of the factor with the singular values;")
    if op["vec"]:
        B.close(val[3], lead.to(torch.float64), tol, f"{what}: vector of singular values;")


def gen(rng, tier):
    return B.gen(rng, gen_op)


def run(plan, R):
    import sys

    return B.run(plan, R, sys.modules[__name__])
