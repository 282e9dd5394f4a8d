"""What an adaptive shift has to do, computed independently of the library"""
import torch

from . import ref, zoo
from .kernel import Violation

F64 = torch.float64


def noise(spec):
    return 2e-6 if spec["dtype"] == "f32" else 1e-13


class Shift:
    """Prediction of the shift of the state P (double precision snapshot)"""

    def __init__(self, spec, P):
        self.spec, D = spec, spec["bond_dim"]
        self.cores, self.splits, self.amp, self.fuzzy = [], [], 1.0, None
        self.acores = []  # sizes of the cores, for the rounding errors
        self._sizes = []
        self.removes_all = self.may_remove_all = False
        self.zero_lone = False
        pos = 0  # number of cores before the current one
        for kind, key, _ in ref.mps_layout(spec, P):
            t = P[key]
            if kind == "site":
                self.cores.append(("in", t, None))
                self.zero_lone |= float(t.abs().max()) == 0
                pos += 1
            elif kind == "out":
                self.cores.append(("out", t, None))
                self.zero_lone |= float(t.abs().max()) == 0
                pos += 1
            elif kind == "pair":
                for s in range(t.shape[0]):
                    A, B = self._split(t[s].permute(0, 2, 1, 3), pos)  # (l i)(r j)
                    self.cores.append(("in", A.permute(0, 2, 1), 1))  # l i u -> l u i
                    self.cores.append(("in", B, 1))  # u r j
                    self._sized(lambda A: A.permute(0, 2, 1), lambda B: B)
                    pos += 2
            elif kind == "outl":
                A, B = self._split(t, pos)  # (o l)(r i)
                self.cores.append(("out", A, 1))
                self.cores.append(("in", B, 1))
                self._sized(lambda A: A, lambda B: B)
                pos += 2
            else:  # outr: o l r i -> (l i)(o r)
                A, B = self._split(t.permute(1, 3, 0, 2), pos)
                self.cores.append(("in", A.permute(0, 2, 1), 1))
                self.cores.append(("out", B.permute(1, 0, 2), 1))
                self._sized(lambda A: A.permute(0, 2, 1), lambda B: B.permute(1, 0, 2))
                pos += 2
        self.ncores = pos
        # the rounding error of a decomposition is relative to the largest
        # singular value, not to the size of the element concerned
        it = iter(self._sizes)
        for kind, t, how in self.cores:
            self.acores.append((kind, t.abs() if how is None else next(it), None))
        self.cores = [(k, t, None) for k, t, _ in self.cores]

    def _split(self, t, pos):
        """t with two left and two right indices -> left (.,.,u), right (u,.,.)"""
        spec, D, cut = self.spec, self.spec["bond_dim"], self.spec["cutoff"]
        a, b, c, d = t.shape
        U, S, Vh = torch.linalg.svd(t.reshape(a * b, c * d), full_matrices=False)
        s0 = float(S[0]) if len(S) else 0.0
        ns = noise(spec) * s0
        avail = min(len(S), D)
        s = S[:avail]
        hi = int((s >= cut - ns).sum())
        lo = int((s >= cut + ns).sum())
        if hi == 0:
            self.removes_all = True
        if lo == 0:
            self.may_remove_all = True
        k = int((s >= cut).sum())
        # tie at the boundary between kept and dropped values
        if len(S) > k and k > 0:
            gap = float(S[k - 1] - S[k])
            if float(S[k]) > 10 * ns:
                if gap <= 0 or s0 / gap > 1e6:
                    self.fuzzy = "tie"
                else:
                    self.amp = max(self.amp, s0 / gap)
        if any(abs(float(v) - cut) <= ns and float(v) > 20 * ns for v in s):
            self.fuzzy = "cutoff"
        self.splits.append((pos + 1, S[: min(len(S), D)].clone(), lo, hi, s0))
        k = max(k, 1)
        A, B = U[:, :k].reshape(a, b, k), (S[:k, None] * Vh[:k]).reshape(k, c, d)
        A1, B1 = A.abs(), B.abs()
        A1[:, :, 0] = 1
        B1[0] = B1[0].clamp(min=s0)
        self._last = (A1, B1)
        return A, B

    def _sized(self, fa, fb):
        self._sizes += [fa(self._last[0]), fb(self._last[1])]

    def output(self, x):
        """(value, tolerance) of the shifted function"""
        spec = self.spec
        x = ref.select_path(spec, x)
        out = self._contract(self.cores, x)
        sc = self._contract(self.acores, x.abs())
        e = 1e-4 if spec["dtype"] == "f32" else 1e-9
        e = e * min(self.amp, 1e4) if spec["dtype"] == "f32" else e * self.amp
        return out, e * sc + zoo.floor(spec)

    def _contract(self, cores, x):
        # bonds have their retained sizes here, only the ends matter
        return contract_ragged(cores, x, self.spec["periodic"])

    def check_bonds(self, bond_list, sv_list, old_bonds, old_svs, allow_old=False):
        """Reported spectrum after the shift (with None: no shift)"""
        spec, D = self.spec, self.spec["bond_dim"]
        n = spec["input_dim"]
        split = {b: rest for b, *rest in self.splits}
        if tuple(bond_list.shape) != (n + 2,) or tuple(sv_list.shape) != (n + 2, D):
            raise Violation("reported bonds: wrong shape")
        for i in range(n + 2):
            same = torch.equal(bond_list[i], old_bonds[i]) and torch.equal(sv_list[i], old_svs[i])
            if i not in split:
                if not same:
                    raise Violation(f"reported bonds: bond {i} was not split, but its entry changed")
                continue
            if allow_old and same:
                continue
            S, lo, hi, s0 = split[i]
            b = int(bond_list[i])
            if allow_old and b == int(old_bonds[i]):
                pass
            elif not lo <= b <= hi:
                raise Violation(f"reported bonds: bond {i} has dimension {b}, should be {lo if lo == hi else (lo, hi)}")
            if allow_old and torch.equal(sv_list[i], old_svs[i]):
                continue
            want = torch.zeros(D, dtype=F64)
            want[: len(S)] = S
            tol = (noise(spec) * 5 + (2e-6 if spec["dtype"] != "f64" else 0)) * s0
            err = float((sv_list[i].to(F64) - want).abs().max())
            if not err <= tol:
                raise Violation(f"reported singular values: bond {i} is off by {err:.3g} (tolerance {tol:.3g})")


def contract_ragged(cores, x, periodic):
    B = x.shape[0]
    k0, t0, _ = cores[0]
    D0 = t0.shape[0] if k0 == "in" else t0.shape[1]
    st = torch.eye(D0, dtype=x.dtype)[None].expand(B, D0, D0) if periodic else torch.eye(1, D0, dtype=x.dtype)[None].expand(B, 1, D0)
    pos, seen = 0, False
    for kind, t, _ in cores:
        if kind == "in":
            m = torch.tensordot(x[:, pos], t, dims=([1], [2]))
            pos += 1
            st = torch.matmul(st, m[:, None] if seen else m)
        else:
            st = torch.matmul(st[:, None], t[None])
            seen = True
    if pos != x.shape[1]:
        raise ValueError("prediction does not fit the input")
    if periodic:
        return torch.diagonal(st, dim1=-2, dim2=-1).sum(-1)
    return st[:, :, 0, 0]


def kinds(spec, P):
    """Merge state as visible in the layout: position of every merged pair"""
    out, pos = [], 0
    for kind, key, _ in ref.mps_layout(spec, P):
        if kind == "pair":
            for _ in range(P[key].shape[0]):
                out.append(pos)
                pos += 2
        elif kind in ("outl", "outr"):
            out.append(pos)
            pos += 2
        else:
            pos += 1
    return tuple(out), pos


def probes(spec, seed, B=3):
    """Embedded probe inputs (double precision)"""
    g = zoo.gen_t(seed)
    return torch.randn((B, spec["raw_dim"], spec["feature_dim"]), generator=g, dtype=F64)


def function(spec, P, X):
    """(value, tolerance) of the function the state P computes on probes"""
    s2 = dict(spec, fmap=None)
    r = ref.evaluate(s2, P, X)
    A, ax = ref.absolute(s2, P, X)
    return r, zoo.eps(spec) * ref.evaluate(s2, A, ax) + zoo.floor(spec)


def same_function(spec, Ppost, predicted, X, what, extra=1.0):
    r, tol = function(spec, Ppost, X)
    v, vt = predicted
    bad = ~((r - v).abs() <= extra * (tol + vt))
    if bool(bad.any()):
        i = tuple(int(j) for j in bad.nonzero()[0])
        raise Violation(
            f"{what}: output {i} of the function is {float(r[i]):.12g}, should be {float(v[i]):.12g} (tolerance {float((tol + vt)[i]):.3g})"
        )


def is_same(spec, Ppost, predicted, X, extra=1.0):
    try:
        same_function(spec, Ppost, predicted, X, "", extra)
        return True
    except Violation:
        return False


def active_equal(spec, P, Q):
    a, b = ref.mps_layout(spec, P), ref.mps_layout(spec, Q)
    return len(a) == len(b) and all(x[0] == y[0] and torch.equal(P[x[1]], Q[y[1]]) for x, y in zip(a, b))
