"""The process-wide random generators, and simulated users of them"""
import hashlib
import random

import numpy as np
import torch


def states():
    """{generator: digest of its state}"""
    out = {}
    s = np.random.get_state()
    h = hashlib.blake2b(digest_size=8)
    h.update(s[1].tobytes())
    h.update(repr((s[0], s[2], s[3], s[4])).encode())
    out["numpy"] = h.hexdigest()
    out["random"] = hashlib.blake2b(repr(random.getstate()).encode(), digest_size=8).hexdigest()
    out["torch"] = hashlib.blake2b(torch.get_rng_state().numpy().tobytes(), digest_size=8).hexdigest()
    return out


def reset(seed):
    np.random.seed(seed % (1 << 32))
    random.seed(seed)
    torch.manual_seed(seed)


KINDS = [
    "np.rand",
    "np.randn",
    "np.seed",
    "np.shuffle",
    "np.perm",
    "np.state",
    "t.rand",
    "t.randn",
    "t.seed",
    "t.perm",
    "t.state",
    "r.random",
    "r.seed",
    "r.shuffle",
    "r.gauss",
]


def use(kind, k):
    """One use of a global generator by somebody else; returns what was drawn"""
    if kind == "np.rand":
        return np.random.rand(1 + k % 5).tolist()
    if kind == "np.randn":
        return np.random.randn(1 + k % 5).tolist()
    if kind == "np.seed":
        return np.random.seed(k % 7)
    if kind == "np.shuffle":
        a = np.arange(2 + k % 9)
        np.random.shuffle(a)
        return a.tolist()
    if kind == "np.perm":
        return np.random.permutation(2 + k % 9).tolist()
    if kind == "np.state":
        return np.random.set_state(np.random.RandomState(k % 1000).get_state())
    if kind == "t.rand":
        return torch.rand(1 + k % 5, dtype=torch.float64).tolist()
    if kind == "t.randn":
        return torch.randn(1 + k % 20, dtype=torch.float64).tolist()
    if kind == "t.seed":
        torch.manual_seed(k % 7)
        return None
    if kind == "t.perm":
        return torch.randperm(2 + k % 9).tolist()
    if kind == "t.state":
        return torch.set_rng_state(torch.Generator().manual_seed(k % 1000).get_state())
    if kind == "r.random":
        return random.random()
    if kind == "r.seed":
        return random.seed(k % 7)
    if kind == "r.shuffle":
        a = list(range(2 + k % 9))
        random.shuffle(a)
        return a
    if kind == "r.gauss":
        return random.gauss(0, 1)
    raise ValueError(kind)
