"""Simulation kernel: the seams through which one seed decides everything.

* Incarnation  - a fresh import of the package under test ("process start"):
                 all module- and class-level state starts from scratch.
* Task threads - real Python threads of which exactly one runs at a time; the
                 baton changes hands only at switch points the scheduler owns
                 (every line - or every bytecode instruction - executed in the
                 package, plus explicit yields of the client code).
* Interrupts   - KeyboardInterrupt raised at the k-th switch point of a call.
* Op faults    - a failing allocation / kernel raised at the k-th eligible
                 tensor operation of a call (TorchDispatchMode).
* SimDisk      - see disk.py.

Nothing here draws randomness: all decisions are data in the plan.
"""
import hashlib
import importlib.abc
import importlib.machinery
import os
import random
import sys
import threading
import types

import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "torchmps"
PKG_DIR = os.path.join(os.path.realpath(REPO), PKG)
_real_threading = threading


class Violation(Exception):
    """The property under test is broken."""


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)."""


class SimHang(BaseException):
    """A call exceeded its bound of internal steps."""


class SimKilled(BaseException):
    """Unwinds a task thread once the simulation has been given up."""


# --------------------------------------------------------------------------
# Points: every line (or instruction) of package code run by a known thread

_mon = sys.monitoring
_TOOL = 4
_tasks = {}  # thread ident -> object with .point(code, pos)
_CODE = {}  # path -> code object, compiled once per OS process
_PKG_CODES = []
_mode = None


def _on_line(code, line):
    t = _tasks.get(threading.get_ident())
    if t is not None:
        t.point(code, line)


def _walk(code):
    _PKG_CODES.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c)


def set_granularity(mode):
    """mode is None, 'line' or 'instr'"""
    global _mode
    if mode == _mode:
        return
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "dst")
        _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
        _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_line)
    ev = {
        None: 0,
        "line": _mon.events.LINE,
        "instr": _mon.events.INSTRUCTION,
    }[mode]
    for c in _PKG_CODES:
        if c.co_name != "<module>":
            _mon.set_local_events(_TOOL, c, ev)
    _mode = mode


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        parts = name.split(".")
        base = os.path.join(os.path.dirname(PKG_DIR), *parts)
        for p, is_pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                spec = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=is_pkg)
                spec.has_location = True
                if is_pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        code = _CODE.get(path)
        if code is None:
            with open(path, "rb") as f:
                src = f.read()
            code = compile(src, path, "exec", dont_inherit=True)
            _CODE[path] = code
            _walk(code)
            if _mode is not None:
                m = _mode
                globals()["_mode"] = "reset"
                set_granularity(m)
        exec(code, module.__dict__)


_finder = _Finder()


class SimLock:
    """Lock whose blocking is visible to the scheduler (for library locks)"""

    _reentrant = False

    def __init__(self):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_threading.get_ident()
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            t = _tasks.get(me)
            if t is None or not hasattr(t, "blocked_yield"):
                raise Violation("call blocks for ever on a lock nobody will release")
            if timeout is not None and timeout >= 0:
                return False
            t.blocked_yield(lambda: self._owner is None)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # so that models holding locks could still be copied by user hooks
    _is_owned = lambda self: self._owner == _real_threading.get_ident()


class SimRLock(SimLock):
    _reentrant = True


def _sim_threading():
    m = types.ModuleType("threading")
    m.__dict__.update(_real_threading.__dict__)
    m.Lock, m.RLock = SimLock, SimRLock
    m.Condition = lambda lock=None: _real_threading.Condition(lock or SimRLock())
    return m


class Incarnation:
    """A freshly started process, as far as the package under test can tell"""

    MODS = ["torchmps", "contractables", "prob_mps", "mps_base", "embeddings", "utils", "utils2"]

    def __init__(self):
        drop_package()
        if _finder not in sys.meta_path:
            sys.meta_path.insert(0, _finder)
        saved = sys.modules["threading"]
        sys.modules["threading"] = _sim_threading()
        try:
            self.pkg = importlib.import_module(PKG)
            for m in self.MODS:
                setattr(self, m, importlib.import_module(f"{PKG}.{m}"))
        finally:
            sys.modules["threading"] = saved
        if os.path.realpath(self.pkg.__file__) != os.path.join(PKG_DIR, "__init__.py"):
            raise HarnessError("imported the wrong package: " + self.pkg.__file__)
        self.modules = {k: v for k, v in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}

    def activate(self):
        """Make this the process whose modules `import` and pickle find"""
        drop_package()
        sys.modules.update(self.modules)


def drop_package():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


# --------------------------------------------------------------------------
# Single calls under observation / faults


class OpFault(TorchDispatchMode):
    """Counts the allocating tensor operations of a call and fails the k-th"""

    def __init__(self, at=None, exc=None, only=None):
        super().__init__()
        self.n, self.at, self.exc, self.only, self.fired = 0, at, exc, only, None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        if self._eligible(func):
            k = self.n
            self.n += 1
            if self.at is not None and k == self.at:
                self.fired = str(func)
                raise self.exc
        return func(*args, **(kwargs or {}))

    def _eligible(self, func):
        name = str(func)
        if self.only is not None:
            return any(s in name for s in self.only)
        sch = func._schema
        return bool(sch.returns) and not any(r.alias_info is not None for r in sch.returns)


def quietly(fn):
    """Part of a call that is the user's (an optimizer's step): no faults"""
    with _disable_current_modes():
        return fn()


class CallCtx:
    """Observes one call: counts points, raises the interrupt, bounds steps"""

    def __init__(self, at=None, limit=400_000):
        self.n, self.at, self.limit, self.fired = 0, at, limit, None
        self.trace = []

    def point(self, code, pos):
        k = self.n
        self.n += 1
        self.trace.append((code, pos))
        if self.at is not None and k == self.at:
            self.fired = f"{os.path.basename(code.co_filename)}:{code.co_name}"
            raise KeyboardInterrupt("simulated interrupt")
        if k > self.limit:
            raise SimHang(f"more than {self.limit} internal steps in one call")

    def __enter__(self):
        _tasks[threading.get_ident()] = self
        return self

    def __exit__(self, *a):
        _tasks.pop(threading.get_ident(), None)


FAULT_EXC = {
    "alloc": lambda: RuntimeError("[enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: can't allocate memory"),
    "oom": lambda: MemoryError("simulated allocation failure"),
    "svd": lambda: torch.linalg.LinAlgError(
        "linalg.svd: The algorithm failed to converge because the input matrix is ill-conditioned"
    ),
}


def run_call(fn, fault=None, limit=400_000):
    """Run fn() under observation, perhaps with a fault.

    fault: None or {"kind": 'kbd'|'alloc'|'oom'|'svd', "at": k}
    Returns (value, exception or None, info dict)
    """
    info = {}
    kind = fault.get("kind") if fault else None
    ctx = CallCtx(at=fault["at"] if kind == "kbd" else None, limit=limit)
    value, exc = None, None
    if kind in ("alloc", "oom", "svd"):
        of = OpFault(fault["at"], FAULT_EXC[kind](), only=("svd",) if kind == "svd" else None)
    elif fault and fault.get("count_ops"):
        of = OpFault()
    else:
        of = None
    try:
        with ctx:
            if of is not None:
                with of:
                    value = fn()
            else:
                value = fn()
    except (KeyboardInterrupt, Exception) as e:  # noqa
        exc = e
    if isinstance(exc, (HarnessError, Violation)):
        raise exc
    info["points"], info["trace"] = ctx.n, ctx.trace
    if of is not None:
        info["ops"] = of.n
    info["fired"] = ctx.fired or (of.fired if of else None)
    return value, exc, info


def aim(trace, kind, frac, default=120):
    """Where in a call a fault fires, from a number in [0, 1) and the points of
    an earlier call of that kind: for an interrupt, half of the numbers stand
    for all points alike, the other half for all places in the source alike, as
    a place which is passed only once is hardly ever hit otherwise"""
    n = len(trace) if trace else default
    if kind != "kbd":
        return int(frac * max(6, n // 9))
    if not trace or frac >= 1:
        return int(frac * n)
    if frac < 0.5:
        return int(2 * frac * n)
    places = {}
    for k, place in enumerate(trace):
        places.setdefault(place, []).append(k)
    u = (2 * frac - 1) * len(places)
    ks = list(places.values())[int(u)]
    return ks[int((u - int(u)) * len(ks))]


# --------------------------------------------------------------------------
# Task threads under a baton


class Switcher:
    """Decides at each switch point who runs next; records the deviations"""

    def __init__(self, sched):
        self.kind = sched["kind"]
        self.rng = random.Random(sched.get("seed", 0))
        self.sched = sched
        if self.kind == "replay":
            self.todo = {int(s): int(t) for s, t in sched["switches"]}
        if self.kind == "pct":
            n = sched["n"]
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            est = max(10, sched.get("est", 2000))
            self.change = sorted(self.rng.randrange(est) for _ in range(sched["depth"]))
            self.low = -1
        if self.kind == "burst":
            est = max(10, sched.get("est", 2000))
            self.windows = [
                (a, a + sched["len"]) for a in (self.rng.randrange(est) for _ in range(sched["count"]))
            ]
        if self.kind == "hot":
            self.hot_salt = self.rng.randrange(1 << 30)

    def next(self, step, cur, runnable, where):
        """runnable: sorted task ids (cur included if it can go on)"""
        k = self.kind
        if k == "replay":
            t = self.todo.get(step)
            if t in runnable:
                return t
            return cur if cur in runnable else runnable[0]
        if k == "serial":
            return cur if cur in runnable else runnable[0]
        if k == "random":
            if cur in runnable and self.rng.random() >= self.sched["p"]:
                return cur
            return self.rng.choice(runnable)
        if k == "pct":
            while self.change and step >= self.change[0]:
                self.change.pop(0)
                self.prio[cur] = self.low
                self.low -= 1
            return max(runnable, key=lambda t: self.prio[t])
        if k == "burst":
            if cur not in runnable:
                return self.rng.choice(runnable)
            if any(a <= step < b for a, b in self.windows) and self.rng.random() < 0.5:
                return self.rng.choice(runnable)
            return cur
        if k == "rr":
            if cur not in runnable or step % self.sched["k"] == 0:
                later = [t for t in runnable if t > cur]
                return later[0] if later else runnable[0]
            return cur
        if k == "hot":
            # switch only at a few randomly chosen code locations, but often
            h = hash_int(f"{self.hot_salt}:{where}") % 100
            if cur not in runnable or (h < self.sched["share"] and self.rng.random() < 0.7):
                return self.rng.choice(runnable)
            return cur
        raise HarnessError("unknown scheduler " + k)


def hash_int(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


class SimTask:
    def __init__(self, sim, tid, fn):
        self.sim, self.tid, self.fn = sim, tid, fn
        self.sem = threading.Semaphore(0)
        self.done, self.exc, self.value = False, None, None
        self.blocked = self.stop_at = None
        self.thread = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.sem.acquire()
        _tasks[threading.get_ident()] = self
        try:
            if not self.sim.dead:
                self.value = self.fn(self)
        except SimKilled:
            pass
        except BaseException as e:  # noqa
            self.exc = e
        finally:
            _tasks.pop(threading.get_ident(), None)
            self.done = True
            self.sim.leave(self)

    def point(self, code, pos):
        if self.stop_at is not None:
            self.stop_at -= 1
            if self.stop_at <= 0:
                self.stop_at = None
                raise KeyboardInterrupt("simulated interrupt")
        self.sim.switch(self, code.co_name, (code.co_filename, code.co_name, pos))

    def yield_(self, label):
        self.sim.switch(self, label, ("client", label, 0))

    def blocked_yield(self, cond):
        self.blocked = cond
        try:
            self.sim.switch(self, "blocked", ("lock", "", 0))
        finally:
            self.blocked = None


class Sim:
    """Runs tasks one at a time, handing the baton over at switch points"""

    def __init__(self, sched, limit=600_000, watchdog=60.0):
        self.switcher = Switcher(sched)
        self.tasks, self.step, self.limit = [], 0, limit
        self.switches, self.sig = [], hashlib.blake2b(digest_size=8)
        self.finished = threading.Semaphore(0)
        self.dead, self.why, self.watchdog = False, None, watchdog
        self.on_switch = None

    def spawn(self, fn):
        t = SimTask(self, len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def _runnable(self):
        return [
            t.tid for t in self.tasks if not t.done and (t.blocked is None or t.blocked())
        ]

    def switch(self, task, name, where):
        if self.dead:
            raise SimKilled()
        step = self.step
        self.step += 1
        if step > self.limit:
            self._die(f"no progress: more than {self.limit} steps without all calls returning")
            raise SimKilled()
        runnable = self._runnable()
        if not runnable:
            self._die("deadlock: every thread is blocked on a lock")
            raise SimKilled()
        nxt = self.switcher.next(step, task.tid, runnable, f"{os.path.basename(where[0])}:{where[1]}:{where[2]}")
        if nxt != task.tid:
            self.switches.append([step, nxt])
            self.sig.update(f"{task.tid}>{nxt}@{name};".encode())
            if self.on_switch:
                self.on_switch(task.tid, nxt, name)
            self.tasks[nxt].sem.release()
            task.sem.acquire()
            if self.dead:
                raise SimKilled()

    def leave(self, task):
        if self.dead:
            return
        runnable = self._runnable()
        if runnable:
            step = self.step
            self.step += 1
            nxt = self.switcher.next(step, task.tid, runnable, "exit")
            if nxt != runnable[0]:
                self.switches.append([step, nxt])
            self.tasks[nxt].sem.release()
        elif all(t.done for t in self.tasks):
            self.finished.release()
        else:
            self._die("deadlock: remaining threads are blocked on a lock")

    def _die(self, why):
        self.dead, self.why = True, why
        for t in self.tasks:
            t.sem.release()
        self.finished.release()

    def run(self):
        for t in self.tasks:
            t.thread.start()
        first = self.switcher.next(self.step, 0, self._runnable(), "start")
        self.step += 1
        if first != 0:
            self.switches.append([0, first])
        self.tasks[first].sem.release()
        last = -1
        while not self.finished.acquire(timeout=self.watchdog):
            if self.step == last:  # blocked outside anything the simulator sees
                self._die("a call blocks outside the simulator's reach")
                break
            last = self.step
        for t in self.tasks:
            t.thread.join(timeout=5)
        return self
