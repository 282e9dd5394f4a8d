"""Feature maps and embeddings written by the simulated user.

Each map has two independent implementations: the one handed to the library
(acting on what the library passes in) and `ref_map`, a vectorised formula in
double precision used by the reference model.  All are picklable.
"""
import math

import torch
from torch import nn

EMB_PREFIX = "embedding.emb_module."


# ---- elementwise formulas: x (...) -> (..., d) ---------------------------


def poly(x, d, c):
    return torch.stack([c * x**j if j else torch.full_like(x, c) for j in range(d)], dim=-1)


def cosine(x, d, c):
    return torch.stack([torch.cos(c * (j + 1) * x) for j in range(d)], dim=-1)


def gauss(x, d, c):
    return torch.stack([torch.exp(-c * (x - j / max(d - 1, 1)) ** 2) for j in range(d)], dim=-1)


FORMULA = {"poly": poly, "cos": cosine, "gauss": gauss}


def phase(x, d):
    return torch.exp(1j * torch.arange(1, d + 1).to(x.dtype) * x[..., None])


def cdtype(dt):
    return torch.complex64 if dt == torch.float32 else torch.complex128


class FnMap:
    """Plain callable (not a Module); keeps the dtype of default tensors"""

    def __init__(self, name, d, c):
        self.name, self.d, self.c = name, d, c

    def __call__(self, x):
        if not x.is_floating_point():
            x = x.to(torch.get_default_dtype())
        return FORMULA[self.name](x, self.d, self.c)


class ModMap(nn.Module):
    """Trainable map: formula features times a trainable matrix plus vector"""

    def __init__(self, name, d, c, gen):
        super().__init__()
        self.name, self.d, self.c = name, d, c
        dt = torch.get_default_dtype()
        self.w = nn.Parameter((torch.randn(d, d, generator=gen, dtype=torch.float64) * 0.5 + torch.eye(d, dtype=torch.float64)).to(dt))
        self.b = nn.Parameter((torch.randn(d, generator=gen, dtype=torch.float64) * 0.3).to(dt))

    def forward(self, x):
        x = x.to(self.w.dtype)
        return FORMULA[self.name](x, self.d, self.c) @ self.w + self.b


class EmptyFn(FnMap):
    """A callable container of length zero, hence false"""

    def __len__(self):
        return 0


class EmptyMod(ModMap):
    def __len__(self):
        return 0


class EqualFn(FnMap):
    """Equal to every other map of its class, whatever it computes"""

    def __eq__(self, other):
        return type(other) is type(self)

    def __hash__(self):
        return 1


class EqualMod(ModMap):
    def __eq__(self, other):
        return type(other) is type(self)

    def __hash__(self):
        return 1


ODD = {("fn", "empty"): EmptyFn, ("fn", "equal"): EqualFn, ("mod", "empty"): EmptyMod, ("mod", "equal"): EqualMod}


class RaisingMap:
    """Works on scalars until it has been called `ok` times, then raises"""

    def __init__(self, d, ok=0):
        self.d, self.ok, self.n = d, ok, 0

    def __call__(self, x):
        self.n += 1
        if self.n > self.ok:
            raise ArithmeticError("user feature map failed")
        return torch.ones(self.d)


class BadMap:
    """Returns something of the wrong shape / kind"""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def __call__(self, x):
        if self.kind == "size":
            return torch.ones(self.d + 1)
        if self.kind == "rank":
            return torch.ones(1, self.d)
        if self.kind == "scalar":
            return torch.tensor(1.0)
        return [1.0] * self.d


class BadModule(nn.Module):
    def __init__(self, d, kind):
        super().__init__()
        self.bad = BadMap(d, kind)
        self.p = nn.Parameter(torch.ones(2))

    def forward(self, x):
        return self.bad(x)


# ---- embeddings of probabilistic models ----------------------------------


class EmbTab(nn.Module):
    """Trainable table for discrete data; gets (..., 1), gives (..., d)"""

    def __init__(self, n, d, gen, tab=None):
        super().__init__()
        dt = torch.get_default_dtype()
        tab = torch.randn(n, d, generator=gen, dtype=torch.float64) if tab is None else tab
        self.tab = nn.Parameter(tab.to(cdtype(dt) if tab.is_complex() else dt))

    def forward(self, x):
        return self.tab[x[..., 0]]


class EmbFeat(nn.Module):
    """Trainable features of a real value; gets (..., 1), gives (..., d)"""

    def __init__(self, d, c, gen, scale=1.0, cplx=False):
        super().__init__()
        dt = torch.get_default_dtype()
        self.c = c
        w = scale * (torch.randn(d, d, generator=gen, dtype=torch.float64) * 0.4 + torch.eye(d, dtype=torch.float64))
        b = scale * torch.randn(d, generator=gen, dtype=torch.float64) * 0.3
        if cplx:
            w = w * torch.exp(6j * torch.rand(d, d, generator=gen, dtype=torch.float64))
            b = b * 1j
        self.w = nn.Parameter(w.to(cdtype(dt) if cplx else dt))
        self.b = nn.Parameter(b.to(cdtype(dt) if cplx else dt))
        self.d = d

    def forward(self, x):
        return cosine(x[..., 0].to(self.w.abs().dtype), self.d, self.c).to(self.w.dtype) @ self.w + self.b


class FixFeat:
    """Fixed formula embedding for continuous data"""

    def __init__(self, name, d, c, scale=1.0, cplx=False):
        self.name, self.d, self.c, self.scale, self.cplx = name, d, c, scale, cplx

    def __call__(self, x):
        x = x.to(torch.get_default_dtype())
        v = self.scale * FORMULA[self.name](x, self.d, self.c)
        return v * phase(x, self.d) if self.cplx else v


class FixTab:
    """Fixed table embedding for discrete data"""

    def __init__(self, tab):
        self.tab = tab

    def __call__(self, x):
        return self.tab[x.long()]


def tab_of(e):
    g = torch.Generator().manual_seed(e["seed"])
    n = int(e["domain"]["max"])
    t = torch.randn(n, e["d"], generator=g, dtype=torch.float64) * e.get("scale", 1.0)
    if e.get("ortho"):
        noise = e.get("noise", 0.0) * t / e.get("scale", 1.0)
        t = (torch.eye(max(n, e["d"]), dtype=torch.float64)[:n, : e["d"]] + noise) * e.get("scale", 1.0)
    if e.get("diag"):
        t = t * torch.tensor([1.0, 0.4, 2.5, 1.3, 0.7], dtype=torch.float64)[: e["d"]]
    if e.get("cplx"):
        t = t * torch.exp(6j * torch.rand(n, e["d"], generator=g, dtype=torch.float64))
    return t


def ref_map(m, P, prefix, x):
    """Reference for every map above; x real or integer tensor (...)"""
    k = m["kind"]
    f = lambda t: t.to(torch.float64)
    if k == "fn":
        return FORMULA[m["name"]](f(x), m["d"], m["c"])
    if k == "mod":
        return FORMULA[m["name"]](f(x), m["d"], m["c"]) @ P[prefix + "w"] + P[prefix + "b"]
    if k == "embtab":
        return P[prefix + "tab"][x.long()]
    if k == "embfeat":
        return cosine(f(x), m["d"], m["c"]).to(P[prefix + "w"].dtype) @ P[prefix + "w"] + P[prefix + "b"]
    if k == "fixfeat":
        v = m.get("scale", 1.0) * FORMULA[m["name"]](f(x), m["d"], m["c"])
        return v * phase(f(x), m["d"]) if m.get("cplx") else v
    if k == "fixtab":
        return tab_of(m)[x.long()]
    if k == "sincos":
        h = f(x) * math.pi / 2
        return torch.stack([torch.cos(h), torch.sin(h)], dim=-1)
    if k == "trig":
        d = m["d"]
        h = f(x) * math.pi / 2
        return torch.stack(
            [math.sqrt(math.comb(d - 1, j)) * torch.cos(h) ** (d - 1 - j) * torch.sin(h) ** j for j in range(d)], dim=-1
        )
    if k == "onehot":
        return torch.nn.functional.one_hot(x.long(), m["d"]).to(torch.float64)
    if k == "mlp":
        h = f(x)[..., None]
        i = 0
        while f"{prefix}{i}.weight" in P:
            h = torch.sigmoid(h @ P[f"{prefix}{i}.weight"].T + P[f"{prefix}{i}.bias"])
            i += 2
        return h
    raise ValueError(k)


def map_abs(m, P, prefix, x):
    """Size of the vectors as far as rounding errors are concerned: the error
    of a cosine near its zero is relative to one, not to its value"""
    k = m["kind"]
    f = lambda t: t.to(torch.float64)

    def feats(name):
        F = FORMULA[name](f(x), m["d"], m["c"]).abs()
        if name == "poly":
            return F
        return F + 0.05 * (1 + m["d"] * m["c"] * f(x).abs()[..., None])

    if k == "fn":
        return feats(m["name"])
    if k == "mod":
        return feats(m["name"]) @ P[prefix + "w"].abs() + P[prefix + "b"].abs()
    if k == "embfeat":
        return feats("cos") @ P[prefix + "w"].abs() + P[prefix + "b"].abs()
    if k == "fixfeat":
        v = m.get("scale", 1.0) * feats(m["name"])
        return v * (1 + 0.2 * m["d"] * f(x).abs()[..., None]) if m.get("cplx") else v
    v = ref_map(m, P, prefix, x).abs()
    if k in ("sincos", "trig"):
        return v + 0.05 * m["d"]
    if k == "mlp":
        h, e = f(x)[..., None].abs(), 0.0
        i = 0
        while f"{prefix}{i}.weight" in P:
            h = h @ P[f"{prefix}{i}.weight"].abs().T + P[f"{prefix}{i}.bias"].abs()
            i += 2
        return v + 0.05 * (1 + h)
    return v
