"""C07: restoring a checkpoint reproduces the model and its future exactly"""
import copy
import io

import torch

from dst import disk as D
from dst import ref, twin, zoo
from dst import world as W
from dst.kernel import Incarnation, Violation, aim, run_call

BUDGET = {"quick": {"runs": 100000, "seconds": 70, "min": 100}, "thorough": {"runs": 10**7, "seconds": 780, "min": 800}}
RULE = "a run in which a checkpoint was restored (after a crash or into the live model) after at least one training step or shift, and at least one training step or evaluation after it was compared with the undisturbed twin"
STATES = "distinct (class, geometry, way of restoring, disk fault, operations since the checkpoint, merge state and counter at the checkpoint) tuples at a restore"
REAL = ["torchmps (all modules)", "torch.save / torch.load, state dictionaries", "PyTorch autograd and optimisers"]
STUB = ["disk (SimDisk: page cache, durable contents, sync, rename, faults)", "the user's checkpoint protocol (temporary file, checksum, sync, rename)", "process death (all memory dropped, package imported afresh)", "feature maps and embeddings supplied by the simulated user"]
ASSUME = ["the user rebuilds the model with the same arguments and registers the same feature map", "a checksum tells intact checkpoints from torn ones"]
SHRINK = ["ops"]
TIME = "logical: operations of the simulated user; no component reads a clock"

DISK = ["enospc", "eio_write", "short_write", "crash_in_write", "crash_before_fsync", "lost_fsync", "eio_fsync", "crash_before_rename", "lost_rename", "crash_after_rename", "rot"]


def gen(rng, tier):
    spec = twin.gen_spec(rng)
    slot = W.gen_slot(rng, spec)
    if rng.random() < 0.15:
        slot["style"] = None
    ops = []
    for _ in range(rng.randint(4, 16)):
        r = rng.random()
        if r < 0.55:
            ops.append(twin.gen_hist_op(rng, spec))
        elif r < 0.76:
            op = {"op": "save", "fault": None, "pickle": rng.random() < 0.2}
            if rng.random() < 0.45:
                op["fault"] = {"kind": rng.choice(DISK), "frac": rng.random()}
            ops.append(op)
        elif r < 0.88:
            op = {"op": "crash", "frac": rng.random(), "late_opt": rng.random() < 0.5, "seed": W.seed_of(rng), "weights_only": rng.random() < 0.5}
            op["torn_op"] = twin.gen_hist_op(rng, spec) if rng.random() < 0.6 else None
            op["at"] = rng.random()
            ops.append(op)
        else:
            op = {"op": "rollback", "which": rng.random(), "seed": W.seed_of(rng), "late_opt": False, "retry": None}
            if rng.random() < 0.3:
                op["retry"] = {"kind": rng.choice(["kbd", "alloc"]), "at": rng.randrange(12)}
            op["torn_op"] = twin.gen_hist_op(rng, spec) if rng.random() < 0.4 else None
            op["at"] = rng.random()
            ops.append(op)
    if not any(o["op"] in ("crash", "rollback") for o in ops):
        ops.append({"op": "crash", "frac": rng.random(), "late_opt": rng.random() < 0.5, "seed": W.seed_of(rng), "torn_op": None, "at": 0.5, "weights_only": True})
    for _ in range(rng.randint(1, 4)):
        ops.append(twin.gen_hist_op(rng, spec, [("train", 1), ("eval", 1)]))
    W.flavour(rng, ops, 1)
    return {"slots": [slot], "opt": rng.choice(["sgd", "momentum", "adam"]), "ops": ops}


def freeze(live, hist):
    buf = io.BytesIO()
    torch.save({"model": live.model.state_dict(), "opt": live.opt.state_dict(), "training": live.model.training, "hist": len(hist)}, buf)
    return buf.getvalue()


def restore(live, data, op, R, weights_only=True):
    """Load a checkpoint; -> position in the history"""
    doc = torch.load(io.BytesIO(data), weights_only=weights_only)
    r = op.get("retry")
    if r:
        _, exc, info = run_call(lambda: live.model.load_state_dict(doc["model"]), r)
        if info["fired"]:
            R.count(f"fault:{r['kind']}_in_load")
    _, exc, info = run_call(lambda: live.model.load_state_dict(doc["model"]))
    if exc is not None:
        raise Violation(f"restoring raises {W.describe(exc)} for {W.brief(live.spec)}")
    if op.get("late_opt"):
        live.opt = twin.make_opt(live.optkind, live.model)
    try:
        live.opt.load_state_dict(doc["opt"])
    except (ValueError, KeyError) as e:
        raise Violation(f"restoring the optimizer raises {W.describe(e)} for {W.brief(live.spec)}")
    live.model.train(doc["training"])
    return doc["hist"], doc["model"]


def run(plan, R):
    p = plan["slots"][0]
    spec = p["spec"]
    inc = Incarnation()
    val, exc, _ = run_call(lambda: twin.Live(inc, spec, p["seed"], plan["opt"], p["style"], p["vseed"]), limit=3_000_000)
    if exc is not None:
        raise Violation(f"construction fails: {W.describe(exc)} for {W.brief(spec)}")
    live = val
    hist, recs = [], []  # operations that count, and what they returned
    disk, nsave, mem, since = D.SimDisk(), 0, [], []
    restored = False
    sums = []

    def dead(frac, op):
        """The process has died: restart from the newest usable checkpoint"""
        nonlocal live, inc, mem
        R.count("fault:process_crash")
        disk.crash(frac)
        inc, mem = Incarnation(), []
        zoo.set_default(spec)
        got = next(D.usable(disk), None)
        if got is None:
            live = twin.Live(inc, spec, p["seed"], plan["opt"], p["style"], p["vseed"])
            del hist[:], recs[:]
            R.count("probe:no_usable_checkpoint")
            return
        v, exc, _ = run_call(lambda: twin.Live(inc, spec, op.get("seed", 1), plan["opt"]), limit=3_000_000)
        if exc is not None:
            raise Violation(f"construction fails in a new process: {W.describe(exc)}")
        live = v
        n, sd = restore(live, got[1], op, R, op.get("weights_only", True))
        after_restore(n, sd, "crash", op)

    def after_restore(n, sd, way, op):
        nonlocal restored
        lost = hist[n:]
        del hist[n:], recs[n:]
        P = ref.snapshot(live.model)
        want = {k: ref.to_ref(v) for k, v in sd.items()}
        # the restored state is the saved one, entry by entry
        if set(P) != set(want):
            raise Violation(f"restored state: entries {sorted(set(P) ^ set(want))[:3]} differ")
        for k in P:
            same = torch.equal(P[k], want[k]) or bool(((P[k] == want[k]) | (P[k].isnan() & want[k].isnan())).all()) if isinstance(P[k], torch.Tensor) else P[k] == want[k]
            if not same:
                raise Violation(f"restored state: {k} is not the saved one")
        restored = restored or any(h["op"] == "train" for h in hist)
        R.count("restores")
        R.reach((spec["cls"], spec.get("input_dim"), spec.get("label_site"), way, tuple(o["op"] for o in lost[:3]), str(want.get("linear_region._extra_state"))))
        R.log("restored", way, n, len(lost))

    for op in plan["ops"]:
        o = op["op"]
        if o in ("train", "eval", "set", "mode"):
            rec, exc, info = live.apply(op)
            R.count("steps", info["points"])
            if exc is not None and not (spec.get("adaptive") and isinstance(exc, RuntimeError) and "cutoff" in str(exc)):
                raise Violation(f"call raises {W.describe(exc)} for {W.brief(spec)}")
            hist.append(op)
            recs.append(rec)
            R.log(o, rec[1] if len(rec) > 1 else None)
            if restored and o in ("train", "eval"):
                R.nontrivial = True
        elif o == "save":
            f = op["fault"]
            data = freeze(live, hist)
            if f:
                R.count(f"fault:disk_{f['kind']}")
            try:
                ok = D.save(disk, nsave, data, f)
                if f and f["kind"] == "rot":
                    disk.rot(f"ckpt-{nsave:06d}", f["frac"])
            except D.DiskCrash:
                nsave += 1
                dead(f["frac"], dict(op, seed=nsave, late_opt=True))
                continue
            nsave += 1
            if ok:
                mem.append((len(hist), copy.deepcopy({"model": live.model.state_dict(), "opt": live.opt.state_dict(), "training": live.model.training})))
                sums.append((mem[-1][1], twin.digest(mem[-1][1])))
            R.log("save", ok, len(data) > 0)
        elif o == "crash":
            if op["torn_op"] and op["torn_op"]["op"] in ("train", "eval"):
                rec, exc, info = live.apply(op["torn_op"], {"kind": "kbd", "at": aim(live.pts, "kbd", op["at"], 150)})
                R.count("fault:kbd" if info["fired"] else "unfired:kbd")
            dead(op["frac"], op)
        elif o == "rollback":
            usable = [m for m in mem if m[0] <= len(hist)]
            if not usable:
                continue
            if op["torn_op"] and op["torn_op"]["op"] in ("train", "eval"):
                rec, exc, info = live.apply(op["torn_op"], {"kind": "kbd", "at": aim(live.pts, "kbd", op["at"], 150)})
                R.count("fault:kbd" if info["fired"] else "unfired:kbd")
            n, doc = usable[int(op["which"] * len(usable))]
            zoo.set_default(spec)
            r = op.get("retry")
            if r:
                _, exc, info = run_call(lambda: live.model.load_state_dict(doc["model"]), r)
                R.count(f"fault:{r['kind']}_in_load" if info["fired"] else f"unfired:{r['kind']}_in_load")
            _, exc, info = run_call(lambda: live.model.load_state_dict(doc["model"]))
            if exc is not None:
                raise Violation(f"rolling back raises {W.describe(exc)} for {W.brief(spec)}")
            live.opt.load_state_dict(copy.deepcopy(doc["opt"]))
            live.opt.zero_grad()
            live.model.train(doc["training"])
            # positions of later checkpoints refer to a history given up
            mem = [m for m in mem if m[0] <= n]
            after_restore(n, doc["model"], "rollback", op)
            for name, data in [(x, disk.read(x)) for x in disk.list() if x.startswith("ckpt-")]:
                pass
            drop_newer(disk, n)
    for doc, d in sums:
        if twin.digest(doc) != d:
            raise Violation("saved state: a checkpoint held in memory changed after it was taken")
    # the undisturbed twin
    inc2 = Incarnation()
    zoo.set_default(spec)
    ctl = twin.Live(inc2, spec, p["seed"], plan["opt"], p["style"], p["vseed"])
    for i, (op, rec) in enumerate(zip(hist, recs)):
        want, exc, info = ctl.apply(op)
        R.count("steps", info["points"])
        twin.same_record(rec, want, spec, f"continuation after restoring ({op['op']} number {i} of {len(hist)}, {W.brief(spec)})")
    twin.same_state(ref.snapshot(live.model), ref.snapshot(ctl.model), spec, f"final state ({W.brief(spec)})")
    if live.model.training != ctl.model.training:
        raise Violation("final mode differs")
    R.sig = R.h.hexdigest()


def drop_newer(disk, n):
    """After a rollback the user deletes checkpoints of the abandoned future"""
    import io as _io

    for num, data in list(D.usable(disk)):
        if torch.load(_io.BytesIO(data), weights_only=False)["hist"] > n:
            disk.remove(f"ckpt-{num:06d}")
