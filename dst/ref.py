"""Reference model: what the library is supposed to compute.

Independent of the package: it reads the parameters out of a state dictionary
(a {name: tensor} snapshot) and contracts them site by site in double
precision with plain tensor arithmetic.  All functions are differentiable, so
that true gradients come from autograd through the reference.
"""
import math

import torch

from . import usermaps
from .kernel import Violation

F64 = torch.float64


def to_ref(t):
    if not isinstance(t, torch.Tensor):
        return t
    if t.is_complex():
        return t.detach().to(torch.complex128)
    if t.is_floating_point():
        return t.detach().to(F64)
    return t.detach().clone()


def snapshot(model):
    """{name: double copy} of everything in the model's state dictionary"""
    return State({k: to_ref(v).clone() if isinstance(v, torch.Tensor) else v for k, v in model.state_dict().items()})


class State(dict):
    def __missing__(self, k):
        raise Violation(f"the state dictionary of the model has no entry {k}")


# --------------------------------------------------------------------------
# Layout of an MPS: the list of its sites in order, each with its tensor


def mps_keys(spec, keys):
    """Names of the module tensors in chain order"""
    pre, suf = "linear_region.module_list.", ".tensor"
    idx = sorted(int(k[len(pre) : -len(suf)]) for k in keys if k.startswith(pre) and k.endswith(suf))
    return [f"{pre}{i}{suf}" for i in idx]


def mps_layout(spec, P):
    """[(kind, key, bias_key)] with kind in region|out|pair|site|outl|outr"""
    keys = mps_keys(spec, P)
    n, ls = spec["input_dim"], spec["label_site"]
    lay, p = [], 0
    if not spec["adaptive"]:
        for k in keys:
            if P[k].dim() == 4:
                lay.append(("region", k, k[: -len("tensor")] + "bias_mat"))
                p += P[k].shape[0]
            else:
                lay.append(("out", k, None))
        return lay
    has_merged_out = any(P[k].dim() == 4 for k in keys)
    out_seen = False
    for k in keys:
        d = P[k].dim()
        if d == 5:
            lay.append(("pair", k, None))
            p += 2 * P[k].shape[0]
        elif d == 4:
            lay.append(("outl" if p == ls else "outr", k, None))
            p += 1
        elif not has_merged_out and not out_seen and p == ls:
            lay.append(("out", k, None))
            out_seen = True
        else:
            lay.append(("site", k, None))
            p += 1
    return lay


def mps_active_names(spec, P):
    """Names of the parameters the output depends on"""
    names = []
    for kind, k, b in mps_layout(spec, P):
        names.append(k)
        if kind == "region" and spec["use_bias"] and b in P:
            names.append(b)
    return names


def embed(spec, P, x):
    """Raw (B, n) inputs -> (B, n, d)"""
    fm = spec.get("fmap")
    if fm is None:
        return torch.stack([x, 1 - x], dim=-1)
    return usermaps.ref_map(fm, P, "feature_map.", x)


def mps_cores(spec, P, lay=None):
    """List of per-position callables applied to the running state"""
    cores = []
    for kind, k, b in lay or mps_layout(spec, P):
        t = P[k]
        if kind == "region":
            bias = P[b] if spec["use_bias"] else None
            if bias is not None and bias.dim() == 2:
                bias = bias[None]
            for s in range(t.shape[0]):
                bm = None if bias is None else bias[s if bias.shape[0] > 1 else 0]
                cores.append(("in", t[s], bm))
        elif kind == "site":
            cores.append(("in", t, None))
        elif kind == "pair":
            for s in range(t.shape[0]):
                cores.append(("in2", t[s], None))
        elif kind == "out":
            cores.append(("out", t, None))
        else:
            cores.append(("outin", t, None))
    return cores


def contract(cores, x, periodic):
    """x: (B, n, d) embedded inputs; returns (B, output_dim)"""
    B = x.shape[0]
    D0 = cores[0][1].shape[0] if cores[0][0] in ("in", "in2") else cores[0][1].shape[1]
    dt = x.dtype
    if periodic:
        st = torch.eye(D0, dtype=dt)[None].expand(B, D0, D0)
    else:
        st = torch.zeros(B, 1, D0, dtype=dt)
        st[:, :, 0] = 1
    # st: (B, a, l) before the output core, (B, o, a, l) after it
    pos, seen = 0, False
    for kind, t, bias in cores:
        if kind in ("in", "in2"):
            if kind == "in":
                m = torch.tensordot(x[:, pos], t, dims=([1], [2]))  # B l r
                pos += 1
            else:
                m = torch.tensordot(x[:, pos + 1], t, dims=([1], [3]))  # B l r i
                m = (m * x[:, pos][:, None, None, :]).sum(-1)
                pos += 2
            if bias is not None:
                m = m + bias[None]
            st = torch.matmul(st, m if not seen else m[:, None])
        else:
            if kind == "outin":
                m = torch.tensordot(x[:, pos], t, dims=([1], [3]))  # B o l r
                pos += 1
            else:
                m = t[None].expand(B, *t.shape)
            st = torch.matmul(st[:, None], m)
            seen = True
    if pos != x.shape[1] or not seen:
        raise ValueError("reference contraction does not fit the input")
    if periodic:
        return torch.diagonal(st, dim1=-2, dim2=-1).sum(-1)
    return st[:, :, 0, 0]


def embed_abs(spec, P, x):
    fm = spec.get("fmap")
    if fm is None:
        return torch.stack([x, 1 - x], dim=-1).abs()
    return usermaps.map_abs(fm, P, "feature_map.", x)


def select_path(spec, x):
    return x[:, spec["path"]] if spec.get("path") else x


def mps(spec, P, x):
    """x: (B, N) raw or (B, N, d) embedded"""
    x = select_path(spec, x)
    if x.dim() == 2:
        x = embed(spec, P, x)
    return contract(mps_cores(spec, P), x, spec["periodic"])


def ti_mps(spec, P, x):
    """x: (L,) raw or (L, d) embedded, one sequence; returns (output_dim,)"""
    if x.dim() == 1:
        x = embed(spec, P, x[None])[0]
    core = P["core_tensor"]
    v = P["init_vector.vec"]
    for t in range(x.shape[0]):
        m = torch.tensordot(x[t], core, dims=([0], [2]))
        if spec["use_bias"]:
            m = m + P["bias_mat"]
        v = v @ m
    return v @ P["terminal_mat.mat"]


# --------------------------------------------------------------------------
# Probabilistic models


def prob_site(spec, P, t):
    c = P["core_tensors"]
    m = c if spec["cls"] == "ProbUnifMPS" else c[t]
    return m  # (i, l, r)


def prob_embed(spec, P, x):
    e = spec.get("emb")
    if e is None:
        if x.dim() == 2:
            return torch.nn.functional.one_hot(x.long(), spec["input_dim"]).to(F64)
        return x
    return usermaps.ref_map(e, P, usermaps.EMB_PREFIX, x)


def prob_embed_abs(spec, P, x):
    e = spec.get("emb")
    return prob_embed(spec, P, x).abs() if e is None else usermaps.map_abs(e, P, usermaps.EMB_PREFIX, x)


def prob_logamp(spec, P, x):
    """log |amplitude| of raw inputs x: (B, L) or vectors (B, L, d)"""
    v = prob_embed(spec, P, x)
    cplx = P["core_tensors"].is_complex()
    if cplx:
        v = v.to(torch.complex128)
    else:
        v = v.to(F64) if not v.is_complex() else v
    B, L = v.shape[:2]
    h = P["edge_vecs"][0][None].expand(B, -1)
    logs = torch.zeros(B, dtype=F64)
    for t in range(L):
        m = torch.tensordot(v[:, t], prob_site(spec, P, t), dims=([1], [0]))
        if spec["use_bias"]:
            m = m + P["bias_mat"][None]
        h = torch.matmul(h[:, None], m)[:, 0]
        s = h.abs().max(dim=1, keepdim=True).values.detach()
        s = torch.where(s > 0, s, torch.ones_like(s))
        h = h / s
        logs = logs + s[:, 0].log()
    a = (h * P["edge_vecs"][1][None]).sum(-1)
    return a.abs().log() + logs


def prob_lambda(spec, P):
    """Integral (or sum) of phi_i conj(phi_j) over the data domain"""
    e = spec.get("emb")
    if e is None:
        return torch.eye(spec["input_dim"], dtype=F64)
    if e["domain"]["continuous"]:
        lo, hi = e["domain"]["min"], e["domain"]["max"]
        pts, w = _gauss(lo, hi)
    else:
        pts = torch.arange(int(e["domain"]["max"]))
        w = torch.ones(len(pts), dtype=F64)
    v = usermaps.ref_map(e, P, usermaps.EMB_PREFIX, pts[None])[0]
    if spec["use_bias"]:
        v = torch.cat([v, torch.ones_like(v[:, :1])], dim=1)
    return (w.to(v.dtype)[:, None] * v).T @ v.conj()


_GL = {}


def _gauss(lo, hi, n=64, panels=8):
    if "x" not in _GL:
        import numpy as np

        x, w = np.polynomial.legendre.leggauss(n)
        _GL["x"], _GL["w"] = torch.from_numpy(x), torch.from_numpy(w)
    xs, ws = [], []
    step = (hi - lo) / panels
    for i in range(panels):
        a = lo + i * step
        xs.append(a + step * (_GL["x"] + 1) / 2)
        ws.append(_GL["w"] * step / 2)
    return torch.cat(xs), torch.cat(ws)


def prob_logz(spec, P, L=None, lam=None):
    lam = prob_lambda(spec, P) if lam is None else lam
    c = P["core_tensors"]
    if L is None:
        L = c.shape[0]
    a, w = P["edge_vecs"][0], P["edge_vecs"][1]
    rho = torch.outer(a, a.conj())
    if c.is_complex():
        lam = lam.to(torch.complex128)
    logs = torch.zeros((), dtype=F64)
    bias = P["bias_mat"] if spec["use_bias"] else None
    if bias is not None and spec.get("emb") is None:
        # documented transition matrices A[x] + B of the symbols x
        ext = lambda m: m + bias[None]
    elif bias is not None:
        # transition matrices sum_i phi_i(x) A_i + B: the bias goes with a
        # constant component of the embedding
        ext = lambda m: torch.cat([m, bias[None]])
    else:
        ext = lambda m: m
    for t in range(L):
        mm = ext(prob_site(spec, P, t))
        x = torch.matmul(mm.transpose(1, 2), rho)  # i r m
        y = torch.tensordot(lam.to(mm.dtype), x, dims=([0], [0]))  # j r m
        rho = torch.matmul(y, mm.conj()).sum(0)
        s = rho.abs().max().detach()
        if float(s) > 0:
            rho = rho / s
            logs = logs + s.log()
    z = torch.dot(w, torch.mv(rho, w.conj()))
    z = z.real if z.is_complex() else z
    return z.log() + logs


def prob(spec, P, x):
    L = x.shape[1]
    return 2 * prob_logamp(spec, P, x) - prob_logz(spec, P, L)


# --------------------------------------------------------------------------


def evaluate(spec, P, x):
    """x as the library call gets it (tensor, or list for TI_MPS)"""
    cls = spec["cls"]
    if cls == "MPS":
        return mps(spec, P, x)
    if cls == "TI_MPS":
        return torch.stack([ti_mps(spec, P, s) for s in x])
    return prob(spec, P, x)


def active_names(spec, P):
    """Names of state entries the output depends on (for gradients)"""
    cls = spec["cls"]
    if cls == "MPS":
        names = mps_active_names(spec, P)
    elif cls == "TI_MPS":
        names = ["core_tensor", "init_vector.vec", "terminal_mat.mat"]
        if spec["use_bias"]:
            names.append("bias_mat")
    else:
        names = ["core_tensors", "edge_vecs"] + (["bias_mat"] if spec["use_bias"] else [])
    names += [k for k in P if k.startswith("feature_map.") or k.startswith(usermaps.EMB_PREFIX)]
    return names


def grads(spec, P, x, w, names=None):
    """True gradient of (w * out).sum() with respect to the named entries"""
    names = active_names(spec, P) if names is None else names
    Q = dict(P)
    leaves = []
    for n in names:
        Q[n] = P[n].detach().clone().requires_grad_(True)
        leaves.append(Q[n])
    with torch.enable_grad():
        out = evaluate(spec, Q, x)
        loss = (out * w).sum()
        gs = torch.autograd.grad(loss, leaves, allow_unused=True)
    return out.detach(), {n: (torch.zeros_like(l) if g is None else g) for n, l, g in zip(names, leaves, gs)}


def norm_grads(spec, P, L, names):
    """Size of the gradient of the log normalisation alone"""
    Q, leaves = dict(P), []
    for n in names:
        Q[n] = P[n].detach().clone().requires_grad_(True)
        leaves.append(Q[n])
    with torch.enable_grad():
        gs = torch.autograd.grad(prob_logz(spec, Q, L), leaves, allow_unused=True)
    return {n: 0.0 if g is None else float(g.abs().max()) for n, g in zip(names, gs)}


def absolute(spec, P, x):
    """Conditioning scale: the same contraction of absolute values"""
    if spec["cls"] not in ("MPS", "TI_MPS"):
        return None
    if isinstance(x, list):
        ax = [embed_abs(spec, P, s[None])[0] if s.dim() == 1 else s.abs() for s in x]
    else:
        ax = embed_abs(spec, P, x) if x.dim() == 2 else x.abs()
    A = {k: (v.abs() if isinstance(v, torch.Tensor) and v.is_floating_point() else v) for k, v in P.items()}
    return A, ax
