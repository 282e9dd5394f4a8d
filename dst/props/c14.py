"""C14: results do not depend on how requests are batched

A simulated inference and training service: clients send requests at simulated
times, a server collects them into batches by its policy, evaluates, and on a
rejected or failed batch splits or retries; it may crash and restart, whereupon
clients send unanswered requests again.
"""
import heapq

import torch

from dst import ref, zoo
from dst import world as W
from dst.kernel import Incarnation, Violation, run_call

F64 = torch.float64

BUDGET = {"quick": {"runs": 100000, "seconds": 70, "min": 150}, "thorough": {"runs": 10**7, "seconds": 780, "min": 1000}}
RULE = "a run in which at least two batches of more than one request were evaluated and at least one request shared a batch with a poisoned, differently scaled or longer companion, or was retried in another batch"
STATES = "distinct (class, geometry, batch composition by kinds and lengths, attempt) tuples of evaluated batches"
REAL = ["torchmps (all modules)", "PyTorch kernels and autograd"]
STUB = ["clients, server and its batching policy", "clock (simulated, event driven)", "processes (package imported afresh)", "feature maps and embeddings supplied by the simulated user"]
ASSUME = ["CPU, single intra-op thread"]
SHRINK = ["requests", "crashes", "faults"]
TIME = "simulated seconds of the event-driven clock"


def gen(rng, tier):
    r = rng.random()
    if r < 0.3:
        spec = zoo.gen_ti(rng, can_pad=rng.random() < 0.75)
    elif r < 0.65:
        spec = zoo.gen_mps(rng)
    else:
        spec = zoo.gen_prob(rng)
    if spec.get("adaptive"):
        spec["cutoff"] = 1e-10
    slot = W.gen_slot(rng, spec)
    if "seq_len" in spec and spec["emb"] is None and rng.random() < 0.35:
        slot["style"] = "symbols"
        spec["seq_len"] = rng.choice([spec["seq_len"], 8, 12])
    n = rng.choice([3, 5, 8, 12, 20])
    poison = rng.choice([0.1, 0.2, 0.3, 0.5])
    burst = rng.random() < 0.015 and spec["cls"] != "TI_MPS" and spec.get("input_dim", 0) <= 12  # a batch of many requests
    if burst:
        n, poison = rng.choice([130, 150, 270]), rng.choice([0.0, 0.01])
    emb, vec, lens = rng.random() < 0.3, rng.random() < 0.5, rng.choice([1, 2, 3, 5, 8] if rng.random() < 0.9 else [12, 16])
    reqs, t = [], 0.0
    for i in range(n):
        t += rng.choice([0.0, 0.0, 0.001, 0.01, 0.2]) * rng.random()
        x = zoo.gen_x(rng, spec, B=1)
        if burst or rng.random() < 0.88:  # mostly compatible requests
            if "emb" in x:
                x["emb"] = spec["fmap"] is None and spec["feature_dim"] != 2 or emb
            if "vec" in x:
                x["vec"] = vec and spec["emb"] is None
            if spec["cls"] == "ProbUnifMPS":
                x["len"] = lens
        q = {"t": round(t, 5), "x": x, "kind": "plain", "wseed": W.seed_of(rng), "grad": rng.random() < 0.5}
        if rng.random() < poison:
            q["kind"] = rng.choice(["nan", "inf", "huge", "tiny", "zero", "symbol"])
        if i and rng.random() < 0.12:  # the same request sent again
            d = rng.choice(reqs)
            q.update(x=d["x"], kind=d["kind"])
        reqs.append(q)
    mode = None
    if "seq_len" in spec and (burst or rng.random() < 0.8):
        mode = reqs[0]["x"].get("mode")
        for q in reqs:
            q["x"] = dict(q["x"], mode=mode)
    policy = {
        "max": rng.choice([1, 2, 3, 3, 4, 4, 8, 8, 32]),
        "wait": rng.choice([0.0, 0.005, 0.02, 0.05, 0.2, 1.0]),
        "order": rng.choice(["fifo", "fifo", "lifo", "mixed"]),
        "retry": rng.choice(["split", "single", "requeue"]),
        "oseed": W.seed_of(rng),
        "grad": rng.choice(["none", "row", "sum", "row"]),
        "nograd": rng.random() < 0.5,
    }
    if spec["cls"] == "TI_MPS" and not (spec["use_bias"] and spec["fixed_bias"]):
        policy["careless"] = rng.random() < 0.4  # puts sequences of different lengths together all the same
    if burst:
        policy.update(max=512, wait=1e4, retry="split")
    crashes = sorted({round(rng.random() * (t + 0.01), 5) for _ in range(rng.choice([0, 0, 0, 1, 2]))})
    faults = [{"call": rng.randrange(1, 8), "kind": rng.choice(["kbd", "alloc", "oom"]), "frac": rng.random()} for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"slots": [slot], "requests": reqs, "policy": policy, "crashes": crashes, "faults": faults}


def payload(spec, q):
    """(library input, reference input) of one request"""
    x = q["x"]
    lx, rx = zoo.make_x(spec, x)
    l, r = (lx[0], rx[0]) if isinstance(rx, list) else (lx[0], rx[0])
    k = q["kind"]
    if k == "plain":
        return l, r
    l, r = l.clone(), r.clone()
    vecs = bool(x.get("emb") or x.get("vec"))
    mapped = not vecs and (spec.get("fmap") or spec.get("emb"))
    if k == "symbol":
        if not l.is_floating_point():
            l.view(-1)[q["wseed"] % l.numel()] = 10**6
        return l, r
    if not l.is_floating_point():
        return l, r
    if k in ("nan", "inf"):
        l.view(-1)[q["wseed"] % l.numel()] = float(k)
        r = l.to(F64)
    elif k in ("huge", "tiny") and not mapped:
        f = {"huge": 1e6, "tiny": 1e-9}[k] if spec["dtype"] != "f32" else {"huge": 1e3, "tiny": 1e-4}[k]
        l = l * f
        r = l.to(F64)
    elif k == "zero":
        if vecs:
            l = l * 0
            r = l.to(F64)
    return l, r


def fatal(spec, q):
    """Requests the model may refuse or answer with a non-finite value"""
    if q["kind"] == "symbol":
        return "seq_len" in spec and not payload(spec, q)[0].is_floating_point()
    return q["kind"] in ("nan", "inf") and payload(spec, q)[0].is_floating_point()


def group(spec, q, careless=False):
    """Requests that a server can put into one batch"""
    x = q["x"]
    key = (bool(x.get("emb")), bool(x.get("vec")), str(x.get("mode")))
    if spec["cls"] == "TI_MPS":
        pad = spec["use_bias"] and spec["fixed_bias"]
        return key + ((0,) if pad or careless else tuple(x["lens"]))
    return key + (x.get("len"),)


class Server:
    def __init__(self, plan, R):
        self.plan, self.R, self.spec = plan, R, plan["slots"][0]["spec"]
        self.w = W.World(R)
        p = plan["slots"][0]
        self.slot = W.build_ok(self.w, 0, p["spec"], p["seed"], p["style"], p["vseed"])
        self.calls, self.faults = 0, {f["call"]: f for f in plan["faults"]}
        self.answers, self.tries = {}, {}
        self.big = self.mixed = 0

    def restart(self):
        self.R.count("fault:process_restart")
        state = {k: (v.clone() if isinstance(v, torch.Tensor) else v) for k, v in self.slot.model.state_dict().items()}
        p = self.plan["slots"][0]
        self.w = W.World(self.R)
        self.slot = W.build_ok(self.w, 0, p["spec"], p["seed"] ^ 1)
        self.slot.model.load_state_dict(state)

    def evaluate(self, ids):
        """One call with a batch; -> True if it was answered"""
        spec, R, pol = self.spec, self.R, self.plan["policy"]
        qs = [self.plan["requests"][i] for i in ids]
        zoo.set_default(spec)
        ins = [payload(spec, q) for q in qs]
        for i in ids:
            self.tries[i] = self.tries.get(i, 0) + 1
        if sum(self.tries[i] for i in ids) > 400 + 60 * len(ids):
            raise Violation("no progress: requests are retried without end")
        if spec["cls"] == "TI_MPS":
            lens = [len(r) for _, r in ins]
            aslist = len(set(lens)) > 1 or qs[0]["x"]["list"]
            lx = [l.clone() for l, _ in ins] if aslist else torch.stack([l for l, _ in ins])
            rx = [r for _, r in ins]
        else:
            lens = []
            lx = torch.stack([l for l, _ in ins])
            rx = torch.stack([r for _, r in ins])
        kw = zoo.call_kwargs(qs[0]["x"])
        bad = [fatal(spec, q) for q in qs]
        model = self.slot.model
        self.calls += 1
        f = self.faults.pop(self.calls, None)
        if f:
            f = self.w.fault(self.slot, f["kind"], f["frac"])
        P0 = ref.snapshot(model)
        ill = "seq_len" in spec and zoo.ill_conditioned(spec, P0, rx.shape[1])
        wt = torch.stack([W.weights((spec.get("output_dim", 1),), q["wseed"]) for q in qs])
        wt = wt if "output_dim" in spec else wt[:, 0]
        good = [j for j in range(len(ids)) if not bad[j]]
        gmode = pol["grad"] if good and all(q["grad"] for q in qs) else "none"
        if any(bad):
            gmode = "none"
        row = good[pol["oseed"] % len(good)] if good else None
        ps = list(model.parameters())

        def go():
            if gmode == "none" and pol["nograd"]:
                with torch.no_grad():
                    return model(lx, **kw), None
            out = model(lx, **kw)
            if gmode == "none":
                return out, None
            o, v = (out[row], wt[row]) if gmode == "row" else (out, wt)
            if not bool(out.detach().isfinite().all()):
                return out, None
            return out, torch.autograd.grad((o * v.to(o.dtype)).sum(), ps, allow_unused=True)

        val, exc, info = run_call(go, f)
        R.count("steps", info["points"])
        if f:
            R.count(f"fault:{f['kind']}" if info["fired"] else f"unfired:{f['kind']}")
        if not (f and info["fired"]):
            self.slot.pts = info["trace"]
        R.log("batch", ids, type(exc).__name__ if exc else None)
        if exc is not None:
            if f and info["fired"]:
                return None  # the server tries the same batch again
            if not any(bad):
                if pol.get("careless") and len(set(lens)) > 1:
                    R.count("fault:mixed_lengths_rejected")
                    return False
                if ill and isinstance(exc, AssertionError):
                    for i in ids:
                        self.answers[i] = "not judged"
                    return True
                raise Violation(f"batch of {len(ids)} acceptable requests raises {W.describe(exc)} [{W.brief(spec)} kinds {[q['kind'] for q in qs]} lens {lens}]")
            R.count("fault:poisoned_batch_rejected")
            return False
        out, gs = val
        kinds = sorted({q["kind"] for q in qs})
        R.reach((spec["cls"], spec.get("input_dim"), spec.get("bond_dim"), tuple(kinds), len(ids), tuple(sorted(lens)), max(self.tries[i] for i in ids)))
        R.count("batches")
        R.count("rows", len(ids))
        for k in kinds:
            if k != "plain":
                R.count(f"fault:companion_{k}")
        if len(ids) > 1:
            self.big += 1
            if len(kinds) > 1 or len(set(lens)) > 1 or any(self.tries[i] > 1 for i in ids):
                self.mixed += 1
        P = ref.snapshot(model)  # the call may have shifted an adaptive model
        if tuple(out.shape[:1]) != (len(ids),):
            raise Violation(f"batch of {len(ids)} gives {tuple(out.shape)}")
        many = len(ids) > 32 and not isinstance(rx, list) and not ill and not any(bad)
        if many:
            rs, tols = zoo.expected(spec, P, rx)
        for j, i in enumerate(ids):
            o = out[j].detach()
            if bad[j]:
                self.answers[i] = "poison"
                if qs[j]["kind"] == "nan" and "output_dim" in spec and bool(o.isfinite().all()) and uses_all(spec):
                    raise Violation("a request holding NaN gets a finite answer")
                continue
            self.answers[i] = "not judged"
            if ill:
                continue
            one = [rx[j]] if isinstance(rx, list) else rx[j : j + 1]
            r, tol = (rs[j : j + 1], tols[j : j + 1]) if many else zoo.expected(spec, P, one)
            if "output_dim" in spec and float(tol.max()) > zoo.eps(spec) * (1e28 if spec["dtype"] == "f32" else 1e250):
                R.count("not_judged_out_of_range")
                gs = None if gmode == "sum" or j == row else gs
                continue
            try:
                zoo.check_close(o[None], r, tol, f"row {j} of a batch of {len(ids)}")
            except Violation as v:
                raise Violation(f"{v}; companions {[q['kind'] for q in qs]} lens {lens} [{W.brief(spec)} {kw}]")
            self.answers[i] = o
        if gs is not None and not ill:
            got = {id(p): g for p, g in zip(ps, gs)}
            nm = {n: got[id(p)] for n, p in zoo.named(model).items()}
            one, v = (rx, wt) if gmode == "sum" else ([rx[row]] if isinstance(rx, list) else rx[row : row + 1], wt[row : row + 1])
            try:
                zoo.check_grads(spec, P, one, v, nm, f"gradient of {'all rows' if gmode == 'sum' else f'row {row}'} of a batch of {len(ids)}")
            except Violation as v:
                raise Violation(f"{v}; companions {[q['kind'] for q in qs]} lens {lens} [{W.brief(spec)} {kw}]")
            R.count(f"gradients_{gmode}")
        return True


def uses_all(spec):
    return spec["cls"] == "MPS" and not spec["path"] and not spec["fmap"]


def run(plan, R):
    spec, pol = plan["slots"][0]["spec"], plan["policy"]
    srv = Server(plan, R)
    events = [(q["t"], 1, i) for i, q in enumerate(plan["requests"])] + [(t, 0, None) for t in plan["crashes"]]
    heapq.heapify(events)
    queue, due, now, steps = [], None, 0.0, 0
    rnd = zoo.gen_t(pol["oseed"])

    def batch_of(queue):
        """Take one batch of compatible requests out of the queue"""
        q = list(queue)
        if pol["order"] == "lifo":
            q.reverse()
        if pol["order"] == "mixed":
            q = [q[j] for j in torch.randperm(len(q), generator=rnd).tolist()]
        head = group(spec, plan["requests"][q[0]], pol.get("careless"))
        ids = [i for i in q if group(spec, plan["requests"][i], pol.get("careless")) == head][: pol["max"]]
        for i in ids:
            queue.remove(i)
        return ids

    def serve(ids):
        todo = [ids]
        while todo:
            b = todo.pop(0)
            ok = srv.evaluate(b)
            if ok is None:
                todo.insert(0, b)
            elif ok is False:
                if len(b) == 1:
                    srv.answers[b[0]] = "rejected"
                elif pol["retry"] == "split":
                    todo += [b[: len(b) // 2], b[len(b) // 2 :]]
                elif pol["retry"] == "single" or pol.get("careless"):
                    todo += [[i] for i in b]
                else:  # suspects alone, the others go back into the queue
                    for i in b:
                        if fatal(spec, plan["requests"][i]):
                            todo.append([i])
                        else:
                            queue.append(i)

    while events or queue:
        steps += 1
        if steps > 3000:
            raise Violation("no progress: the service does not answer all requests")
        if queue and (len(queue) >= pol["max"] or due is not None and (not events or due <= events[0][0])):
            if due is not None:
                now = max(now, due) if len(queue) < pol["max"] else now
            serve(batch_of(queue))
            due = now + pol["wait"] if queue else None
            continue
        if not events:
            due = now if due is None else due
            continue
        now, kind, i = heapq.heappop(events)
        if kind == 0:
            srv.restart()
            # clients send again what was not answered
            for j in list(queue):
                R.count("fault:resent")
            continue
        queue.append(i)
        if due is None:
            due = now + pol["wait"]
    R.count("sim_time_ms", int(now * 1000))
    for i, q in enumerate(plan["requests"]):
        if i not in srv.answers:
            raise Violation("a request was never answered")
    R.nontrivial = srv.big >= 2 and srv.mixed >= 1
    R.sig = R.h.hexdigest()
