"""Model zoo: seeded configurations, construction, parameter values, inputs"""
import copy
import math

import torch

from . import ref, usermaps
from .kernel import HarnessError, Violation

F64 = torch.float64


def gen_t(seed):
    return torch.Generator().manual_seed(int(seed) & 0x7FFFFFFF)


def dtype_of(spec):
    return torch.float32 if spec["dtype"] == "f32" else torch.float64


def set_default(spec):
    """Default dtype of the simulated process ('dbl' models are converted)"""
    torch.set_default_dtype(torch.float64 if spec["dtype"] == "f64" else torch.float32)


# --------------------------------------------------------------------------
# Specs


def gen_fmap(rng, d, module=None):
    module = rng.random() < 0.5 if module is None else module
    return {
        "kind": "mod" if module else "fn",
        "odd": rng.choice(["empty", "equal"]) if rng.random() < 0.1 else None,
        "name": rng.choice(["poly", "cos", "gauss"]),
        "d": d,
        "c": round(rng.uniform(0.5, 1.5), 3),
        "seed": rng.randrange(1 << 30),
    }


def gen_mps(rng, adaptive=None, dtype=None, fmap=None, small=False):
    adaptive = rng.random() < 0.35 if adaptive is None else adaptive
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8] if not small else [1, 2, 3, 4, 5])
    d = rng.choice([2, 2, 2, 3, 1, 4])
    D = rng.choice([1, 2, 3, 4, 5] if not small else [1, 2, 3])
    o = rng.choice([1, 2, 3, 4, 5])
    if not small and rng.random() < 0.08:  # now and then something larger
        n = rng.choice([n, 9, 12, 16, 19, 27])
        d = rng.choice([d, 5, 8])
        D = rng.choice([D, 6, 8, 11])
        o = rng.choice([o, 10, 13])
    dtype = dtype or rng.choice(["f64", "f64", "f64", "dbl", "f32"])
    if dtype == "f32":
        n = min(n, 8)  # or results may leave the range of the dtype
    ls = rng.choice([None, None, 0, n, rng.randint(0, n), rng.randint(0, n)])
    if fmap is None:
        fmap = rng.random() < 0.3
    path = None
    if rng.random() < 0.3:
        N = n + rng.choice([0, 0, 1, 3])
        path = [rng.randrange(N) for _ in range(n)] if rng.random() < 0.4 else rng.sample(range(N), n)
    spec = {
        "cls": "MPS",
        "input_dim": n,
        "output_dim": o,
        "bond_dim": D,
        "feature_dim": d,
        "periodic": rng.random() < 0.45,
        "parallel": rng.random() < 0.5,
        "label_site": n // 2 if ls is None else ls,
        "label_given": ls is not None,
        "path": path,
        "path_tensor": bool(path) and rng.random() < 0.3,
        "raw_dim": (max(path) + 1 + rng.choice([0, 0, 2])) if path else n,
        "use_bias": (not adaptive) and rng.random() < 0.5,
        "adaptive": adaptive,
        "cutoff": rng.choice([1e-10, 1e-10, 1e-8, 1e-3, 1e-2]) if adaptive else 1e-10,
        "merge_threshold": rng.choice([1, 2, 3, 5, 8, 20]) if adaptive else 2000,
        "dtype": dtype,
        "init_std": rng.choice([1e-9, 1e-3, 0.3]),
        "fmap": gen_fmap(rng, d) if fmap else None,
    }
    return spec


def gen_ti(rng, dtype=None, fmap=None, can_pad=None, small=False):
    d = rng.choice([2, 2, 2, 3, 1])
    D = rng.choice([1, 2, 3, 4, 5] if not small else [1, 2, 3])
    if not small and rng.random() < 0.06:
        d, D = rng.choice([d, 5, 8]), rng.choice([D, 7, 10])
    ends = rng.random() < 0.4
    o = rng.randint(1, D) if ends else rng.choice([1, 2, 3, 4])
    if fmap is None:
        fmap = rng.random() < 0.35
    ub, fb = rng.random() < 0.7, rng.random() < 0.6
    if can_pad:
        ub, fb = True, True
    return {
        "cls": "TI_MPS",
        "output_dim": o,
        "bond_dim": D,
        "feature_dim": d,
        "parallel": rng.random() < 0.5,
        "fixed_ends": ends,
        "use_bias": ub,
        "fixed_bias": fb,
        "init_std": rng.choice([1e-9, 1e-3, 0.3]),
        "dtype": dtype or rng.choice(["f64", "f64", "f64", "dbl", "f32"]),
        "fmap": gen_fmap(rng, d) if fmap else None,
    }


def gen_prob(rng, cls=None, dtype=None, emb=None, small=False, bias=None, cplx=None):
    cls = cls or rng.choice(["ProbMPS", "ProbUnifMPS"])
    d = rng.choice([1, 2, 2, 3, 4])
    kind = emb or rng.choice(
        ["none", "none", "none", "embtab", "embfeat", "mlp", "fixfeat", "fixtab", "sincos", "trig", "onehot"]
    )
    cplx = rng.random() < 0.35 if cplx is None else cplx
    e = None
    if kind == "none":
        if d == 1 and rng.random() < 0.8:
            d = 2
    if kind in ("embtab", "fixtab"):
        n = rng.choice([2, 3, 4])
        e = {"kind": kind, "d": d, "seed": rng.randrange(1 << 30), "domain": {"continuous": False, "max": n}}
        if rng.random() < 0.35:  # feature vectors which are almost orthonormal
            e.update(ortho=True, noise=rng.choice([1e-2, 1e-3, 1e-4, 1e-4, 0.0, 0.0, 0.0]))
            e["diag"] = rng.random() < 0.4  # of different lengths
        if kind == "fixtab":
            e["scale"] = rng.choice([1.0, 1.0, 1e-3, 30.0])
            e["ortho"] = e.get("ortho") or rng.random() < 0.4
            e["diag"] = e["ortho"] and rng.random() < 0.6
            e["wrap"] = rng.random() < 0.5
    elif kind in ("embfeat", "mlp", "fixfeat", "sincos", "trig"):
        lo = rng.choice([0, 0, -1.0, 0.5])
        dom = {"continuous": True, "min": lo, "max": lo + rng.choice([1, 1, 0.5, 2.0])}
        e = {"kind": kind, "d": d, "seed": rng.randrange(1 << 30), "domain": dom}
        if kind == "embfeat":
            e.update(c=round(rng.uniform(0.5, 2.0), 3), scale=rng.choice([1.0, 1.0, 1e-3, 20.0]))
        if kind == "fixfeat":
            e.update(name=rng.choice(["poly", "cos", "gauss"]), c=round(rng.uniform(0.5, 2.0), 3))
            e.update(scale=rng.choice([1.0, 1.0, 1e-3, 20.0]), wrap=rng.random() < 0.5)
        if kind == "sincos":
            e["d"] = d = 2
        if kind in ("sincos", "trig"):
            e["wrap"] = rng.random() < 0.5
        if kind == "mlp":
            e["layers"] = rng.choice([1, 2])
            e["hidden"] = rng.choice([3, 5])
            if rng.random() < 0.5:
                e["domain"] = {"continuous": True, "min": 0, "max": 1}
                e["default_domain"] = True
    elif kind == "onehot":
        d = max(2, d)
        e = {"kind": kind, "d": d, "seed": 0, "domain": {"continuous": False, "max": d}, "wrap": rng.random() < 0.5}
    if cplx and kind in ("embtab", "fixtab", "embfeat", "fixfeat") and rng.random() < 0.5:
        e["cplx"] = True  # a complex embedding
    return {
        "cls": cls,
        "seq_len": rng.choice([1, 2, 3, 4, 5, 6] if rng.random() < 0.94 else [9, 12, 16]),
        "input_dim": d,
        "bond_dim": rng.choice([1, 2, 3, 4] if not small else [1, 2, 3]) if small or rng.random() < 0.95 else rng.choice([6, 9]),
        "complex": cplx,
        "use_bias": rng.random() < 0.4 if bias is None else bias,
        "init_method": rng.choice(["near_eye", "normal"]),
        "emb": e,
        "dtype": prob_dtype(rng, dtype, e is None and not cplx),
    }


def prob_dtype(rng, dtype, convertible):
    if dtype is None:
        return rng.choice(["f64", "f64", "f64", "f32"] + ["dbl"] * convertible)
    return dtype if convertible or dtype != "dbl" else "f64"


def gen_any(rng, adaptive=None, dtype=None, small=False):
    r = rng.random()
    if r < 0.5:
        return gen_mps(rng, adaptive=adaptive, dtype=dtype, small=small)
    if r < 0.7:
        return gen_ti(rng, dtype=dtype, small=small)
    return gen_prob(rng, dtype=dtype, small=small)


# --------------------------------------------------------------------------
# Construction


def make_map(inc, m):
    """User map object for a feature map spec (None -> None)"""
    if m is None:
        return None
    if m["kind"] == "fn":
        return usermaps.ODD.get(("fn", m.get("odd")), usermaps.FnMap)(m["name"], m["d"], m["c"])
    if m["kind"] == "mod":
        return usermaps.ODD.get(("mod", m.get("odd")), usermaps.ModMap)(m["name"], m["d"], m["c"], gen_t(m["seed"]))
    if m["kind"] == "bad":
        return usermaps.BadMap(m["d"], m["how"])
    if m["kind"] == "badmod":
        return usermaps.BadModule(m["d"], m["how"])
    if m["kind"] == "raise":
        return usermaps.RaisingMap(m["d"], m.get("ok", 0))
    raise HarnessError(m["kind"])


def make_emb(inc, e):
    """(embed_fun, domain) arguments for a probabilistic model"""
    E = inc.embeddings
    if e is None:
        return None, None
    d = e["domain"]
    if d["continuous"]:
        dom = E.DataDomain(continuous=True, max_val=d["max"], min_val=d["min"])
    else:
        dom = E.DataDomain(continuous=False, max_val=int(d["max"]))
    k, g = e["kind"], gen_t(e["seed"])
    if k == "embtab":
        return E.TrainableEmbedding(usermaps.EmbTab(int(d["max"]), e["d"], g, usermaps.tab_of(e) if e.get("ortho") or e.get("cplx") else None), dom), None
    if k == "embfeat":
        return E.TrainableEmbedding(usermaps.EmbFeat(e["d"], e["c"], g, e["scale"], e.get("cplx", False)), dom), None
    if k == "mlp":
        return (
            E.init_mlp_embed(
                e["d"], num_layers=e["layers"], hidden_dims=e["hidden"], data_domain=None if e.get("default_domain") else dom
            ),
            None,
        )
    if k == "fixfeat":
        f = usermaps.FixFeat(e["name"], e["d"], e["c"], e["scale"], e.get("cplx", False))
    elif k == "fixtab":
        dt = torch.get_default_dtype()
        f = usermaps.FixTab(usermaps.tab_of(e).to(usermaps.cdtype(dt) if e.get("cplx") else dt))
    elif k == "sincos":
        f = E.sincos_embed
    elif k == "trig":
        import functools

        f = functools.partial(E.trig_embed, emb_dim=e["d"])
    elif k == "onehot":
        import functools

        f = functools.partial(E.onehot_embed, emb_dim=e["d"])
    if e.get("wrap"):
        return E.FixedEmbedding(f, dom), None
    return f, dom


def build(inc, spec, seed=0, emb=None):
    """Construct the model of `spec` in incarnation `inc`

    emb: embedding object to share with another model
    """
    set_default(spec)
    torch.manual_seed(int(seed) & 0x7FFFFFFF)
    cls = spec["cls"]
    if cls == "MPS":
        kw = {}
        if spec["label_given"]:
            kw["label_site"] = spec["label_site"]
        if spec["adaptive"]:
            kw.update(adaptive_mode=True, cutoff=spec["cutoff"], merge_threshold=spec["merge_threshold"])
        path = spec["path"]
        if path and spec["path_tensor"]:
            path = torch.tensor(path)
        elif path:
            path = list(path)
        m = inc.pkg.MPS(
            input_dim=spec["input_dim"],
            output_dim=spec["output_dim"],
            bond_dim=spec["bond_dim"],
            feature_dim=spec["feature_dim"],
            periodic_bc=spec["periodic"],
            parallel_eval=spec["parallel"],
            path=path,
            use_bias=spec["use_bias"] or spec["adaptive"],
            init_std=spec["init_std"],
            **kw,
        )
        if spec["fmap"] is not None:
            m.register_feature_map(make_map(inc, spec["fmap"]))
    elif cls == "TI_MPS":
        m = inc.pkg.TI_MPS(
            output_dim=spec["output_dim"],
            bond_dim=spec["bond_dim"],
            feature_dim=spec["feature_dim"],
            parallel_eval=spec["parallel"],
            fixed_ends=spec["fixed_ends"],
            init_std=spec["init_std"],
            use_bias=spec["use_bias"],
            fixed_bias=spec["fixed_bias"],
        )
        if spec["fmap"] is not None:
            m.register_feature_map(make_map(inc, spec["fmap"]))
    else:
        ef, dom = make_emb(inc, spec["emb"]) if emb is None else (emb, None)
        kw = dict(
            input_dim=spec["input_dim"],
            bond_dim=spec["bond_dim"],
            complex_params=spec["complex"],
            use_bias=spec["use_bias"],
            init_method=spec["init_method"],
            embed_fun=ef,
            domain=dom,
        )
        if cls == "ProbMPS":
            kw["seq_len"] = spec["seq_len"]
        m = getattr(inc.prob_mps, cls)(**kw)
    if spec["dtype"] == "dbl":
        m = m.double()
    return m


def named(model):
    """name -> parameter, aliases included"""
    return dict(model.named_parameters(remove_duplicate=False))


# --------------------------------------------------------------------------
# Parameter values


def _randn(shape, g, cplx=False):
    t = torch.randn(shape, generator=g, dtype=F64)
    if cplx:
        t = torch.complex(t, torch.randn(shape, generator=g, dtype=F64)) / math.sqrt(2)
    return t


def values(spec, P, seed, style):
    """Seeded values {name: double tensor} for the entries in use"""
    g = gen_t(seed)
    out = {}
    if spec["cls"] == "MPS":
        D, d, o = spec["bond_dim"], spec["feature_dim"], spec["output_dim"]
        for kind, k, b in ref.mps_layout(spec, P):
            t = P[k]
            if kind == "region":
                out[k] = _core(t.shape, (1, 2), g, style)
                if spec["use_bias"] and b in P:
                    out[b] = _core(P[b].shape, (P[b].dim() - 2, P[b].dim() - 1), g, style)
            elif kind == "out":
                out[k] = _core(t.shape, (1, 2), g, style)
            elif kind == "site":
                out[k] = _core(t.shape, (0, 1), g, style)
            elif kind == "pair":
                n = t.shape[0]
                if style in ("dense", "tiny", "huge", "decay"):
                    v = _randn(t.shape, g) / math.sqrt(D)
                    if style == "decay":
                        v = v * torch.logspace(0, -6, v.numel(), dtype=F64)[torch.randperm(v.numel(), generator=g)].view(v.shape)
                else:
                    A = _core((n, D, D, d), (1, 2), g, style)
                    B = _core((n, D, D, d), (1, 2), g, style)
                    r = _rank(g, D, style)
                    A[:, :, r:] = 0
                    v = torch.einsum("slui,surj->slrij", A, B)
                out[k] = v
            else:
                if style in ("dense", "tiny", "huge", "decay"):
                    v = _randn(t.shape, g) / math.sqrt(D)
                else:
                    O = _core((o, D, D), (1, 2), g, style)
                    A = _core((D, D, d), (0, 1), g, style)
                    r = _rank(g, D, style)
                    if kind == "outr":
                        A[:, r:] = 0
                        v = torch.einsum("lui,our->olri", A, O)
                    else:
                        A[r:] = 0
                        v = torch.einsum("olu,uri->olri", O, A)
                out[k] = v
        scale = {"tiny": 1e-2, "huge": 30.0}.get(style, 1.0)
        if scale != 1.0:
            out = {k: v * scale for k, v in out.items()}
    elif spec["cls"] == "TI_MPS":
        c = P["core_tensor"]
        out["core_tensor"] = _core(c.shape, (0, 1), g, style)
        if spec["use_bias"] and not spec["fixed_bias"]:
            out["bias_mat"] = _core(P["bias_mat"].shape, (0, 1), g, style)
        if not spec["fixed_ends"]:
            out["init_vector.vec"] = _randn(P["init_vector.vec"].shape, g)
            out["terminal_mat.mat"] = _randn(P["terminal_mat.mat"].shape, g)
    else:
        cx = spec["complex"]
        c = P["core_tensors"]
        D = spec["bond_dim"]
        sc = {"tiny": 1e-3, "huge": 300.0}.get(style, 1.0)
        out["core_tensors"] = sc * _randn(c.shape, g, cx) / math.sqrt(D)
        out["edge_vecs"] = sc * _randn(P["edge_vecs"].shape, g, cx)
        if spec["use_bias"]:
            out["bias_mat"] = 0.7 * sc * _randn(P["bias_mat"].shape, g, cx)
        if style in ("positive", "scales", "symbols"):
            # amplitudes without cancellation, up to a phase per site
            out = {k: v.abs() + 0.05 * sc for k, v in out.items()}
            if style == "symbols" and (spec["emb"] or {"kind": "onehot"})["kind"] == "onehot":
                # inputs whose amplitudes differ by many orders of magnitude
                top = 7 if spec["dtype"] == "f32" else 70
                per = (c.shape[-3], 1, 1)
                out["core_tensors"] = out["core_tensors"] * 10.0 ** (top * (2 * torch.rand(per, generator=g, dtype=F64) - 1))
            if style == "scales":
                top = 7 if spec["dtype"] == "f32" else 50
                lead = c.shape[:-3] + (1, 1, 1)
                out["core_tensors"] = out["core_tensors"] * 10.0 ** (top * (2 * torch.rand(lead, generator=g, dtype=F64) - 1))
                out["edge_vecs"] = out["edge_vecs"] * 10.0 ** (0.3 * top * (2 * torch.rand((2, 1), generator=g, dtype=F64) - 1))
                if spec["use_bias"] and spec["cls"] == "ProbUnifMPS":
                    out["bias_mat"] = out["bias_mat"] * out["core_tensors"].abs().max()
            if cx:
                out = {k: v * torch.exp(2j * math.pi * torch.rand((), generator=g, dtype=F64)) for k, v in out.items() if k != "bias_mat"} | {
                    k: v + 0j for k, v in out.items() if k == "bias_mat"
                }
        if style == "sparse":
            for k in out:
                keep = torch.rand(out[k].shape, generator=g, dtype=F64) < 0.5
                keep[(..., 0, 0) if k != "edge_vecs" else (..., 0)] = True
                out[k] = out[k] * keep
    mlp = bool(spec.get("emb")) and spec["emb"]["kind"] == "mlp"
    for k in P:
        if mlp and k.startswith(usermaps.EMB_PREFIX):
            out[k] = 0.8 * _randn(P[k].shape, g)
        elif k.startswith("feature_map.") or k.startswith(usermaps.EMB_PREFIX):
            out[k] = P[k] + (spec.get("emb") or {}).get("noise", 0.3) * _randn(P[k].shape, g, P[k].is_complex()) * float(P[k].abs().max() + 1e-12)
    return out


def _rank(g, D, style):
    if style == "lowrank":
        return int(torch.randint(1, D + 1, (1,), generator=g))
    return D


def _core(shape, lr, g, style):
    t = torch.randn(shape, generator=g, dtype=F64)
    D = shape[lr[0]]
    if style in ("ident", "lowrank"):
        view = [1] * len(shape)
        view[lr[0]], view[lr[1]] = shape[lr[0]], shape[lr[1]]
        return torch.eye(shape[lr[0]], shape[lr[1]], dtype=F64).view(view) + 0.3 * t
    return t / math.sqrt(max(D, 1))


def assign(model, vals, how=0):
    """Write values into the live parameters, in one of the ways users do it"""
    nm = named(model)
    with torch.no_grad():
        for k, v in vals.items():
            if k not in nm:
                raise Violation(f"parameter {k} of the saved state is not among the model's parameters")
            v = v.to(nm[k].dtype)
            if how == 1:
                nm[k].data.copy_(v)
            elif how == 2:
                nm[k].data = v.clone()
            else:
                nm[k].copy_(v)


def refill(model, spec, seed, style):
    assign(model, values(spec, ref.snapshot(model), seed, style), seed % 3)


# --------------------------------------------------------------------------
# Inputs


def gen_x(rng, spec, B=None):
    """Plan entry describing an input"""
    if B is None:
        B = rng.choice([1, 1, 2, 3, 4, 5, 7])
        if rng.random() < 0.03 and not spec.get("fmap"):
            B = rng.choice([16, 33, 70])
            if rng.random() < 0.12 and spec.get("bond_dim", 9) <= 4 and spec.get("input_dim", 9) <= 8 and spec.get("seq_len", 0) <= 8:
                B = rng.choice([130, 257, 1030])
    x = {"B": B, "seed": rng.randrange(1 << 30)}
    cls = spec["cls"]
    if cls == "MPS":
        x["emb"] = spec["fmap"] is None and spec["feature_dim"] != 2 or rng.random() < 0.3
    elif cls == "TI_MPS":
        x["emb"] = spec["fmap"] is None and spec["feature_dim"] != 2 or rng.random() < 0.3
        x["list"] = rng.random() < 0.5
        hi = 7 if rng.random() < 0.93 or spec["dtype"] == "f32" else 30 if not spec["fmap"] else 12
        if x["list"] and spec["use_bias"] and spec["fixed_bias"]:
            x["lens"] = [rng.randint(1, hi) for _ in range(B)]
        else:
            x["lens"] = [rng.randint(1, hi)] * B
    else:
        x["len"] = spec["seq_len"] if cls == "ProbMPS" else rng.randint(1, 6) if rng.random() < 0.93 else rng.choice([9, 16, 23])
        x["vec"] = spec["emb"] is None and rng.random() < 0.2
        if spec["use_bias"]:
            x["mode"] = rng.choice([{}, {"parallel_eval": True}])
        else:
            x["mode"] = rng.choice([{}, {"parallel_eval": True}, {"slim_eval": True}, {"slim_eval": True, "parallel_eval": True}])
    x["amp"] = rng.choice([1.0, 1.0, 1.0, 3.0])
    if rng.random() < 0.15 and has_xgrad(spec, x):
        x["xg"] = True  # asked for its gradient as well, where gradients are taken
    return x


def make_x(spec, x):
    """(library input in the model's dtype, reference input)"""
    g = gen_t(x["seed"])
    dt = dtype_of(spec)
    cls, B = spec["cls"], x["B"]
    amp = x.get("amp", 1.0)
    if cls == "MPS":
        if x["emb"]:
            t = amp * torch.randn((B, spec["raw_dim"], spec["feature_dim"]), generator=g, dtype=F64)
        else:
            t = amp * torch.rand((B, spec["raw_dim"]), generator=g, dtype=F64)
        t = t.to(dt)
        return t, t.to(F64)
    if cls == "TI_MPS":
        seqs = []
        for L in x["lens"]:
            if x["emb"]:
                s = amp * torch.randn((L, spec["feature_dim"]), generator=g, dtype=F64) * 0.7
            else:
                s = amp * torch.rand((L,), generator=g, dtype=F64)
            seqs.append(s.to(dt))
        r = [s.to(F64) for s in seqs]
        if x["list"]:
            return seqs, r
        return torch.stack(seqs) if seqs else torch.zeros((0, 1), dtype=dt), r
    e = spec["emb"]
    L = x["len"]
    if e is not None and e["domain"]["continuous"]:
        lo, hi = e["domain"]["min"], e["domain"]["max"]
        t = (lo + (hi - lo) * torch.rand((B, L), generator=g, dtype=F64)).to(dt)
        return t, t.to(F64)
    n = spec["input_dim"] if e is None else int(e["domain"]["max"])
    t = torch.randint(n, (B, L), generator=g)
    if x.get("vec"):
        v = torch.nn.functional.one_hot(t, n)
        return v.to(dt), v.to(F64)
    return t, t


def call_kwargs(x):
    return dict(x.get("mode") or {})


# --------------------------------------------------------------------------
# Comparison


def eps(spec):
    return 3e-5 if spec["dtype"] == "f32" else 1e-9


def floor(spec):
    """Below this, underflow may have happened on the way"""
    return 1e-30 if spec["dtype"] == "f32" else 1e-250


def in_range(spec, size):
    """The size of what is summed, or infinity beyond the range of the dtype"""
    return torch.where(size < (1e35 if spec["dtype"] == "f32" else 1e290), size, float("inf"))


def quad_tol(spec, L):
    e = spec.get("emb")
    if e is not None and (e.get("noise") or (e.get("ortho") and e["kind"] == "embtab")):
        return 1e-5 * (L + 1)  # what is close to a multiple of the identity counts as one
    return 1e-5 * (L + 1) if e is not None and e["domain"]["continuous"] else 0.0


def _prob_cond(spec, P, rx):
    """Condition numbers of amplitude and normalisation"""
    A = {k: (v.abs() if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex()) else v) for k, v in P.items()}
    L = rx.shape[1]
    v = ref.prob_embed_abs(spec, P, rx)
    s2 = dict(spec, emb=None)
    la = ref.prob_logamp(s2, A, v)
    lr = ref.prob_logamp(spec, P, rx)
    za = ref.prob_logz(spec, A, L, ref.prob_lambda(spec, P).abs())
    return (la - lr).exp(), (za - ref.prob_logz(spec, P, L)).exp()


def ill_conditioned(spec, P, L):
    """Does cancellation in the normalisation consume the dtype's precision?"""
    if spec["cls"] in ("MPS", "TI_MPS"):
        return False
    with torch.no_grad():
        A = {k: (v.abs() if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex()) else v) for k, v in P.items()}
        lam = ref.prob_lambda(spec, P)
        d = ref.prob_logz(spec, A, L, lam.abs()) - ref.prob_logz(spec, P, L, lam)
        return not float(d) < math.log(1e-3 / eps(spec))


def expected(spec, P, rx):
    """(reference output, elementwise tolerance)"""
    with torch.no_grad():
        r = ref.evaluate(spec, P, rx)
        e = eps(spec)
        if spec["cls"] in ("MPS", "TI_MPS"):
            A, ax = ref.absolute(spec, P, rx)
            sc = ref.evaluate(dict(spec, fmap=None), A, ax)
            return r, e * in_range(spec, sc) + floor(spec)
        if rx.shape[0] == 0:
            return r, torch.zeros_like(r)
        ca, cz = _prob_cond(spec, P, rx)
        L = rx.shape[1]
        t = (e * (2 * ca + cz) + quad_tol(spec, L) * (1 + cz) + e * (2 * r.abs() + 20)).clamp(max=1e9)
        return r, t


def compare(spec, P, rx, out, what="output"):
    """Raise Violation unless `out` equals the reference"""
    r, tol = expected(spec, P, rx)
    check_close(out, r, tol, what)
    return r


def check_close(out, r, tol, what):
    if not isinstance(out, torch.Tensor):
        raise Violation(f"{what}: result is {type(out).__name__}, not a tensor")
    if tuple(out.shape) != tuple(r.shape):
        raise Violation(f"{what}: shape {tuple(out.shape)} instead of {tuple(r.shape)}")
    o = out.detach().to(F64)
    err = (o - r).abs()
    bad = ~((err <= tol) | (o == r) | (tol == float("inf")))
    if bool(bad.any()):
        i = tuple(int(j) for j in bad.nonzero()[0])
        raise Violation(
            f"{what}: element {i} is {float(o[i]):.12g}, should be {float(r[i]):.12g} (error {float(err[i]):.3g}, tolerance {float(tol[i] if tol.dim() else tol):.3g})"
        )


def expected_grads(spec, P, rx, w, names=None):
    """{name: (true gradient, scalar tolerance)}"""
    out, gs = ref.grads(spec, P, rx, w, names)
    e = eps(spec)
    tols = {}
    if spec["cls"] in ("MPS", "TI_MPS"):
        A, ax = ref.absolute(spec, P, rx)
        fm = [n for n in gs if n.startswith("feature_map.")]
        s2 = dict(spec, fmap=None)
        _, ga = ref.grads(s2, A, ax, w.abs(), [n for n in gs if n not in fm])
        for n in gs:
            if n in fm:
                tols[n] = None
            else:
                tols[n] = e * 3 * float(in_range(spec, ga[n].abs().max())) + floor(spec)
        if fm:
            # scale of the map gradients: via gradient with respect to vectors
            axs = [a.clone().requires_grad_(True) for a in ax] if isinstance(ax, list) else ax.clone().requires_grad_(True)
            with torch.enable_grad():
                o = ref.evaluate(s2, A, axs)
                gx = torch.autograd.grad((o * w.abs()).sum(), axs)
            tot = sum(float(in_range(spec, g.abs().sum())) for g in (gx if isinstance(gx, tuple) else (gx,)))
            for n in fm:
                tols[n] = e * 30 * tot + floor(spec)
    else:
        ca, cz = _prob_cond(spec, P, rx) if rx.shape[0] else (torch.ones(1, dtype=F64), torch.ones(1, dtype=F64))
        L = rx.shape[1]
        # gradients of logs: relative conditioning squared, generous
        c = float((ca**2).max()) + float(cz) ** 2
        # gradient of the normalisation alone: the difference may cancel
        gz = ref.norm_grads(spec, P, L, list(gs))
        ws = float(w.abs().sum())
        gz = {n: 2 * ws * v for n, v in gz.items()}
        for n in gs:
            m = float(gs[n].abs().max())
            pm = float(P[n].abs().max()) + 1e-300
            s = m + gz[n] + float(w.abs().sum()) * (L + 1) / pm
            tols[n] = s * min(1e9, 10 * e * c + 10 * quad_tol(spec, L) * (1 + float(cz)))
    return out, {n: (gs[n], tols[n]) for n in gs}


def has_xgrad(spec, x):
    """Is the derivative with respect to this input checked?"""
    if spec["cls"] in ("MPS", "TI_MPS"):
        return bool(x["emb"]) or spec["fmap"] is None
    return bool(x.get("vec"))


def check_xgrad(spec, P, rx, w, got, what="gradient"):
    """Gradient with respect to the caller's input (has_xgrad)"""
    seq = isinstance(rx, list)
    if seq and len(got) == 1 and got[0] is not None and got[0].dim() > rx[0].dim():
        got = list(got[0])  # handed over as one tensor
    elif seq and len(got) == 1:
        got = [got[0]] * len(rx) if got[0] is None else got

    def grad(P, xs, w):
        ls = [a.to(F64).detach().clone().requires_grad_(True) for a in xs]
        with torch.enable_grad():
            out = ref.evaluate(dict(spec, fmap=None), P, ls if seq else ls[0])
            return out.detach(), torch.autograd.grad((out * w).sum(), ls)

    r, gr = grad(P, rx if seq else [rx], w)
    if not bool(r.isfinite().all()):
        return
    e = eps(spec)
    if spec["cls"] in ("MPS", "TI_MPS"):
        A, ax = ref.absolute(spec, P, rx)
        # |d/dx| of the default embedding (x, 1 - x) is bounded by both parts
        _, ga = grad(A, ax if seq else [ax], w.abs())
        tol = [e * 6 * float(in_range(spec, g.abs().max() if g.numel() else torch.zeros(()))) + floor(spec) for g in ga]
    else:
        ca, _ = _prob_cond(spec, P, rx)
        c = float((ca**2).max())
        tol = [float(g.abs().max() + w.abs().sum()) * min(1e9, 30 * e * c) for g in gr]
    for i, (g, h, t) in enumerate(zip(gr, got, tol)):
        if h is None:
            if float(g.abs().max() if g.numel() else 0) > t:
                raise Violation(f"{what}: the input receives no gradient")
            continue
        err = float((h.detach().to(F64) - g).abs().max()) if g.numel() else 0.0
        if t != float("inf") and not err <= t:
            raise Violation(f"{what}: that of the input is off by {err:.3g} (tolerance {t:.3g}, size {float(g.abs().max()):.3g})")


def check_grads(spec, P, rx, w, got, what="gradient", names=None):
    """got: name -> gradient tensor or None"""
    r, exp = expected_grads(spec, P, rx, w, names)
    if not bool(r.isfinite().all()):
        return  # probability zero: the gradient is not defined
    for n, (g, t) in exp.items():
        h = got.get(n)
        if n not in got:
            continue
        if h is None:
            if float(g.abs().max() if g.numel() else 0) > (t or 0):
                raise Violation(f"{what}: {n} receives no gradient")
            continue
        h = h.detach()
        h = h.to(torch.complex128 if h.is_complex() else F64)
        if h.shape != g.shape:
            raise Violation(f"{what}: {n} has shape {tuple(h.shape)}, should be {tuple(g.shape)}")
        err = (h - g).abs()
        if h.numel() and t != float("inf") and not bool((err <= t).all()):
            raise Violation(f"{what}: {n} is off by {float(err.max()):.3g} (tolerance {t:.3g}, size {float(g.abs().max()):.3g})")
