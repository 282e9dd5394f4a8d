"""C16: contraction of matrix sequences, whatever happens around the call"""
import math

import torch

from dst import blocks as B
from dst import world as W
from dst.kernel import Violation

BUDGET = {"quick": {"runs": 100000, "seconds": 60, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE, STATES, STUB, ASSUME, TIME, SHRINK = B.RULE, B.STATES, B.STUB, B.ASSUME, B.TIME, B.SHRINK
REAL = ["torchmps.mps_base.contract_matseq, get_mat_slices, slim_eval_fun, get_log_norm", "torchmps.utils2.batch_broadcast, batch_to", "PyTorch kernels, autograd"]


def gen_op(rng, world):
    kind = rng.choice(["mat", "mat", "mat", "mat", "slices", "slim", "norm", "bcast", "to"])
    op = {"op": kind, "seed": W.seed_of(rng), "cplx": rng.random() < 0.3}
    batch = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]

    def sub():  # a batch shape which broadcasts to `batch`
        b = [1 if rng.random() < 0.3 else x for x in batch]
        return b[rng.randint(0, len(b)) if rng.random() < 0.3 else 0 :]

    D = rng.randint(1, 4)
    if kind == "mat":
        L = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9]) if rng.random() < 0.93 else rng.choice([17, 40, 129])
        form = rng.choice(["tensor", "tensor", "same", "mixed", "mixed", "batches"])
        dims = [D] * (L + 1) if form in ("tensor", "same") else [rng.randint(1, 4) for _ in range(L + 1)]
        if L == 1 and rng.random() < 0.5:
            dims = [rng.randint(1, 4), rng.randint(1, 4)]
        if L == 0:
            dims = [dims[0]]
        op.update(form=form, L=L, dims=dims, batch=sub() if form != "batches" else None)
        op["each"] = [sub() for _ in range(L)] if form == "batches" else None
        op["lb"], op["rb"] = (sub() if rng.random() < 0.5 else None), (sub() if rng.random() < 0.5 else None)
        op["par"] = rng.choice([None, None, True, False])
        op["log"] = rng.choice([None, False, True])
        op["scale"] = rng.choice([1, 1, 1, 1e-2, 10, 1e4 if op["log"] or L < 5 else 1])
        op["style"] = rng.choice(["dense", "dense", "dense", "sparse", "zero"] if rng.random() < 0.5 else ["dense"])
        op["grad"] = rng.random() < 0.4
        op["view"] = rng.choice([None, None, "t", "slice"])
    elif kind in ("slices", "slim"):
        op.update(batch=[rng.randint(1, 5)], L=rng.choice([1, 2, 3, 4, 5, 8]) if rng.random() < 0.9 else 60, D=D, d=rng.randint(1, 4), uniform=rng.random() < 0.5, vec=rng.random() < 0.5)
        op["scale"] = rng.choice([1, 1, 0.01, 30])
        op["grad"] = rng.random() < 0.4
        op["view"] = rng.choice([None, None, "t"])
    elif kind == "norm":
        op.update(L=rng.choice([0, 1, 2, 3, 4, 5, 9]) if rng.random() < 0.9 else 80, D=D, d=rng.randint(1, 3), uniform=rng.random() < 0.5, lamb=rng.choice([None, 0, 1, 2, 2]), scale=rng.choice([1, 1, 0.02, 20]))
        op["grad"] = rng.random() < 0.4
        op["pass_len"] = rng.random() < 0.5
        if not op["uniform"]:
            op["L"] = max(1, op["L"])
    elif kind == "bcast":
        n = rng.choice([1, 2, 2, 3, 4])
        op["each"] = [[sub(), [rng.randint(1, 3) for _ in range(rng.randint(0, 2))]] for _ in range(n)]
        if n > 1 and batch and rng.random() < 0.2:
            op["each"][0][0], op["each"][1][0] = [2] * len(batch), [3] * len(batch)
    else:
        op.update(batch=batch, own=sub(), rest=[rng.randint(1, 3) for _ in range(rng.randint(0, 2))])
        if batch and rng.random() < 0.15:
            op["own"] = [x + 1 for x in batch]
    return op


def make(op, world):
    g = torch.Generator().manual_seed(op["seed"])
    cplx, kind = op["cplx"], op["op"]
    t = lambda shape, scale=1, style="dense": B.viewed(B.rnd(shape, g, world, cplx, style) * scale, op.get("view"))
    if kind == "mat":
        dims, L, scale, style = op["dims"], op["L"], op["scale"], op["style"]
        if op["form"] == "tensor":
            m = t(op["batch"] + [L, dims[0], dims[-1]], scale, style)
        elif op["form"] == "batches":
            m = [t(op["each"][i] + [dims[i], dims[i + 1]], scale, style) for i in range(L)]
        else:
            m = [t(op["batch"] + [dims[i], dims[i + 1]], scale, style) for i in range(L)]
        a = [m, None if op["lb"] is None else t(op["lb"] + [dims[0]]), None if op["rb"] is None else t(op["rb"] + [dims[-1]])]
    elif kind in ("slices", "slim"):
        d, D, L = op["d"], op["D"], op["L"]
        core = t(([] if op["uniform"] else [L]) + [d, D, D], op["scale"])
        if op["vec"]:
            x = torch.randn(op["batch"] + [L, d], generator=g, dtype=torch.float64).to(B.dt_of(world))
        else:
            x = torch.randint(0, d, op["batch"] + [L], generator=g)
        a = [x, core, t([2, D]) if kind == "slim" else None]
    elif kind == "norm":
        d, D, L = op["d"], op["D"], op["L"]
        core = t(([] if op["uniform"] else [L]) + [d, D, D], op["scale"])
        lamb = None
        if op["lamb"] == 0:
            lamb = torch.rand([], generator=g, dtype=torch.float64).to(B.dt_of(world)) + 0.1
        elif op["lamb"] == 1:
            lamb = torch.rand([d], generator=g, dtype=torch.float64).to(B.dt_of(world)) + 0.1
        elif op["lamb"] == 2:
            e = B.rnd([d + 1, d], g, world, cplx and op["seed"] % 2 == 0)
            lamb = e.mT @ e.conj()
        a = [core, t([2, D]), lamb]
    elif kind == "bcast":
        a = [t(b + r) for b, r in op["each"]]
    else:
        a = [t(op["own"] + op["rest"])]
    if op.get("grad"):
        for x in B.tensors(a):
            if x.is_floating_point() or x.is_complex():
                x.requires_grad_()
    return a


def call(inc, op, args):
    mb, u2, kind = inc.mps_base, inc.utils2, op["op"]
    if kind == "bcast":
        return list(u2.batch_broadcast(args, [len(r) for b, r in op["each"]]))
    if kind == "to":
        return [u2.batch_to(args[0], tuple(op["batch"]), len(op["rest"]))]
    if kind == "mat":
        kw = {}
        if op["par"] is not None:
            kw["parallel_eval"] = op["par"]
        if op["log"] is not None:
            kw["log_format"] = op["log"]
        if args[1] is not None:
            kw["left_vec"] = args[1]
        if args[2] is not None:
            kw["right_vec"] = args[2]
        out = mb.contract_matseq(args[0], **kw)
        out = list(out) if op["log"] else [out]
        if not op["log"]:
            return out + grads(op, out[0], args)
        return out + (grads(op, out[0] * torch.exp(out[1]), args) if op["scale"] == 1 and op["L"] < 10 else [])
    if kind == "slices":
        out = mb.get_mat_slices(args[0], args[1])
        return [out] + grads(op, out, args)
    if kind == "slim":
        out = list(mb.slim_eval_fun(args[0], args[1], args[2]))
        return out + (grads(op, out[0] * torch.exp(out[1]), args) if op["scale"] == 1 and op["L"] < 10 else [])
    kw = {"lamb_mat": args[2]} if args[2] is not None else {}
    if op["uniform"] or op["pass_len"]:
        kw["length"] = op["L"]
    out = mb.get_log_norm(args[0], args[1], **kw)
    return [out] + grads(op, out, args)


def weights(op, shape):
    return torch.randn(tuple(shape), generator=torch.Generator().manual_seed(op["seed"] + 1), dtype=torch.float64)


def grads(op, out, args):
    """Gradients of a real function of the result, by every argument"""
    if not op.get("grad"):
        return []
    leaves = [x for x in B.tensors(args) if x.requires_grad]
    if not leaves or not out.requires_grad:
        return []
    w = weights(op, out.shape)
    f = (out.real * w).sum() + (out.imag * w.flip(0) if out.ndim else out.imag * w).sum() if out.is_complex() else (out * w).sum()
    return list(torch.autograd.grad(f, leaves, allow_unused=True))


def label(op):
    k = op["op"]
    if k == "mat":
        return (k, op["form"], min(op["L"], 10), op["lb"] is None, op["rb"] is None, op["par"], op["log"], op["style"], op["cplx"], op["grad"])
    return (k, op["cplx"], op.get("uniform"), op.get("vec"), op.get("lamb"), op.get("L"), op.get("grad"))


def dbl(a):
    if isinstance(a, torch.Tensor):
        r = a.detach().to(torch.complex128 if a.is_complex() else torch.float64) if a.is_floating_point() or a.is_complex() else a
        return r.clone().requires_grad_() if a.requires_grad else r
    if isinstance(a, (list, tuple)):
        return [dbl(x) for x in a]
    return a


def product(mats):
    """Plain product and a bound of its terms, both divided by exp(log)"""
    p, b, log = mats[0], mats[0].detach().abs(), 0.0
    for m in mats[1:]:
        p, b = p @ m, b @ m.detach().abs()
        s = float(b.max()) if b.numel() else 0
        if s > 0:
            p, b, log = p / s, b / s, log + math.log(s)
    return p, b, log


def judge(op, args, out, world):
    val, exc = out
    what = f"{op['op']} {B.short(op)}"
    kind = op["op"]
    ref = dbl(args)
    tol = B.eps(world)
    if kind in ("bcast", "to"):
        if kind == "bcast":
            shapes, rest, full = [tuple(b) for b, r in op["each"]], [r for b, r in op["each"]], None
        else:
            shapes, rest = [tuple(op["own"]), tuple(op["batch"])], [op["rest"], []]
        try:
            full = torch.broadcast_shapes(*shapes)
        except RuntimeError:
            if not isinstance(exc, ValueError):
                raise Violation(f"{what}: shapes which do not fit are not rejected ({type(exc).__name__})")
            return
        if exc is not None:
            raise Violation(f"{what}: raises {W.describe(exc)}")
        if len(val) != len(args):
            raise Violation(f"{what}: {len(val)} results")
        for t, r, x in zip(val, rest, ref):
            if len(args) == 1 and kind == "bcast":
                full = x.shape[: x.ndim - len(r)]
            b = x.shape[: x.ndim - len(r)]
            B.close(t, x.reshape((1,) * (len(full) - len(b)) + tuple(x.shape)).expand(tuple(full) + tuple(r)), 0, what)
        return
    if kind == "mat" and op["form"] != "tensor" and op["L"] == 0 and op["lb"] is None and op["rb"] is None:
        if not isinstance(exc, ValueError):
            raise Violation(f"{what}: nothing to contract is not rejected ({type(exc).__name__})")
        return
    if exc is not None:
        raise Violation(f"{what}: raises {W.describe(exc)}")
    if kind == "mat":
        m = ref[0] if isinstance(ref[0], list) else [ref[0][..., i, :, :] for i in range(op["L"])]
        if not m and isinstance(ref[0], torch.Tensor):
            m = [torch.eye(op["dims"][0], dtype=ref[0].dtype).expand(tuple(op["batch"]) + (op["dims"][0],) * 2)]
        if ref[1] is not None:
            m = [ref[1][..., None, :]] + m
        if ref[2] is not None:
            m = m + [ref[2][..., None]]
        p, b, log = product(m)
        if ref[1] is not None:
            p, b = p[..., 0, :], b[..., 0, :]
        if ref[2] is not None:
            p, b = p[..., 0], b[..., 0]
        compare(op, what, val, p, b, log, tol * (op["L"] + 2), op["log"], args, ref, 2)
        return
    L = op["L"]
    if kind == "norm":
        core, vecs, lamb = ref
        d = op["d"]
        lam = torch.eye(d, dtype=core.dtype) if lamb is None else lamb * torch.eye(d, dtype=core.dtype) if lamb.ndim == 0 else torch.diag(lamb).to(core.dtype) if lamb.ndim == 1 else lamb.to(core.dtype)
        D = op["D"]
        kron = lambda c: torch.einsum("ij,ilr,jpq->lprq", lam, c, c.conj()).reshape(D * D, D * D)
        m = [kron(c) for c in ([core] * L if op["uniform"] else core)]
        outer = lambda v: torch.einsum("a,b->ab", v, v.conj()).reshape(-1)
        p, b, log = product([outer(vecs[0])[None]] + m + [outer(vecs[1])[:, None]])
        p, b = p[0, 0], b[0, 0]
        z = p.real if p.is_complex() else p
        if float(z) < 1e-4 * float(b):
            return  # cancels
        want = torch.log(z) + log
        cond = float(b / z.detach())
        if val[0].is_complex():
            raise Violation(f"{what}: result is {val[0].dtype}")
        B.close(val[0], want.detach(), tol * (L + 2) * cond * (1 + abs(float(want)) / 10), what)
        gradients(op, what, val[1:], want, args, ref, tol * (L + 2) * cond**2)
        return
    x, core, vecs = ref
    if op["vec"]:
        x = x.to(core.dtype) if core.is_complex() else x
        sl = torch.einsum("bti,ide->tbde" if op["uniform"] else "bti,tide->tbde", x, core)
        bound = torch.einsum("bti,ide->tbde" if op["uniform"] else "bti,tide->tbde", x.detach().abs(), core.detach().abs())
    else:
        sl = torch.stack([core[x[:, i]] if op["uniform"] else core[i][x[:, i]] for i in range(L)])
        bound = sl.detach().abs()
    if kind == "slices":
        sl, bound = sl.transpose(0, 1), bound.transpose(0, 1)
        B.close(val[0], sl.detach(), tol * op["d"] * bound, what)
        gradients(op, what, val[1:], sl, args, ref, tol * 20 * max(1, op["scale"]))
        return
    p, b, log = product([vecs[0][None, None]] + list(sl) + [vecs[1][:, None]])
    p, b = p[:, 0, 0], b[:, 0, 0]
    bb = product([vecs[0].detach().abs()[None, None]] + list(bound) + [vecs[1].detach().abs()[:, None]])
    b = bb[1][:, 0, 0] * math.exp(max(-200.0, min(200.0, bb[2] - log)))
    compare(op, what, val, p, b, log, tol * (L + 2) * 2, True, args, ref, 2)


def compare(op, what, val, p, b, log, tol, logged, args, ref, skip):
    if logged:
        if val[1].is_complex():
            raise Violation(f"{what}: log scale is {val[1].dtype}")
        zero = B.up(val[0]) == 0
        sh = (B.up(val[1]) - log).expand(val[0].shape).masked_fill(zero, 0)
        if bool((sh > 600).any()):
            raise Violation(f"{what}: log scale {float(B.up(val[1]).max()):.4g}, magnitude of the product is at most exp({log:.4g})")
        got = B.up(val[0]) * torch.exp(sh)
        tol = tol * (1 + abs(log) / 20)
    elif span(op, ref) > 75:
        return  # leaves the range of the number format
    else:
        got = B.up(val[0]) * math.exp(-log)
    B.close(got, p.detach(), tol * b + 1e-38 * math.exp(max(0, -log)) * (not logged), what)
    if len(val) > (2 if logged else 1):
        gradients(op, what, val[2 if logged else 1 :], p * math.exp(log), args, ref, tol * 20 * op.get("scale", 1))


def span(op, ref):
    """Bound of the logarithms of all partial products"""
    if isinstance(ref[0], list):
        ms = ref[0]
    else:
        ms = list(ref[0].movedim(-3, 0))
    top = lambda m: abs(math.log(float(m.detach().abs().max()) or 1) + math.log(m.shape[-1])) if m.numel() else 0
    return sum(top(m) for m in ms if m is not None)


def gradients(op, what, got, fn, args, ref, tol):
    if not got:
        return
    leaves = [x for x in B.tensors(ref) if x.requires_grad]
    w = weights(op, fn.shape)
    f = (fn.real * w).sum() + (fn.imag * w.flip(0) if fn.ndim else fn.imag * w).sum() if fn.is_complex() else (fn * w).sum()
    want = torch.autograd.grad(f, leaves, allow_unused=True)
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} gradients instead of {len(want)}")
    big = max([float(x.abs().max()) for x in want if x is not None and x.numel()] + [1e-30])
    for i, (g, x) in enumerate(zip(got, want)):
        if x is None or g is None:
            if (x is not None and bool((x.abs() > 1e3 * tol * big).any())) or (g is not None and bool((B.up(g).abs() > 1e3 * tol * big).any())):
                raise Violation(f"{what}: gradient by argument {i} is missing")
            continue
        B.close(g, x, 50 * tol * big * max(1, x.numel()) ** 0.5, f"{what}: gradient by argument {i}")


def gen(rng, tier):
    return B.gen(rng, gen_op)


def run(plan, R):
    import sys

    return B.run(plan, R, sys.modules[__name__])
