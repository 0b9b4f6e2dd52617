"""C08: concurrency guards exclude and admit in arrival order."""
import asyncio
import random
import threading

import aiootp

from vmon import env
from vmon.core import scenario

A = aiootp.asynchs
GUARD_FILES = ("asynchs/guards",)


class Field:
    """Who is inside which target; judged at every entry."""

    def __init__(self, ctx, label):
        self.ctx, self.label = ctx, label
        self.lock = threading.Lock()
        self.inside = {}
        self.trace = []
        self.overlaps = 0

    def enter(self, target, who, exclusive):
        with self.lock:
            here = self.inside.setdefault(target, {})
            bad = [w for w, e in here.items() if e or exclusive]
            if here and not bad:
                self.overlaps += 1
            here[who] = exclusive
            self.trace.append(("in", target, who, exclusive))
            n = len(here)
            tail = self.trace[-12:]
        self.ctx.check("exclusion", not bad,
                       lambda: f"{self.label}: {who} ({'exclusive' if exclusive else 'shared'}) entered {target!r} while {bad} inside; {tail}",
                       shape=(self.label, exclusive, n, tuple(x[0] + str(x[3]) for x in tail[-6:])))

    def leave(self, target, who):
        with self.lock:
            here = self.inside[target]
            e = here.pop(who)
            self.trace.append(("out", target, who, e))


def maker(rng, kind):
    """make(target, exclusive) -> fresh guard, for managers or bare guards."""
    delay = rng.choice((None, 1e-5, 1e-4))
    if kind == "manager":
        mgr = A.MultiConcurrencyGaurd()

        def make(target, exclusive):
            return mgr.guard(target, probe_delay=delay) if exclusive else mgr.monitor(target, probe_delay=delay)
        make.manager = mgr
    else:
        pairs = {}
        G = A.ConcurrencyGuard

        def make(target, exclusive):
            p = pairs.setdefault(target, A.DequePair())
            pol = None if exclusive and rng.random() < 0.5 else (G.policies.Exclusive if exclusive else G.policies.NonExclusive)()
            return G(p, policy=pol, probe_delay=delay)
        make.manager = None
    return make


async def asection(make, field, rng, target, who, exclusive, steps):
    g = make(target, exclusive)
    async with g:
        field.enter(target, who, exclusive)
        for _ in range(steps):
            await asyncio.sleep(rng.choice((0, 0, 1e-5, 1e-4)))
        field.leave(target, who)


def section(make, field, target, who, exclusive, steps):
    g = make(target, exclusive)
    with g:
        field.enter(target, who, exclusive)
        for _ in range(steps):
            env.real_sleep(0)
        field.leave(target, who)


def after(ctx, make, field, label):
    if make.manager is not None:
        ctx.check("no-residue", len(make.manager.targets) == 0, f"{label}: targets left {list(make.manager.targets)}")


@scenario(quick=1200, thorough=12000, required=("exclusion", "shared-overlap"))
def tasks(ctx):
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]
    field = Field(ctx, f"tasks/{kind}")
    r = random.Random(rng.random())
    targets = ["t", ("x", 1), 7][: rng.randrange(1, 4)]
    share = rng.choice((0.0, 0.3, 0.6, 0.95))

    async def body():
        make = maker(r, kind)

        async def worker(w):
            for k in range(r.randrange(1, 5)):
                for _ in range(r.randrange(4)):
                    await asyncio.sleep(0)
                await asection(make, field, r, r.choice(targets), (w, k), r.random() >= share, r.randrange(5))

        await asyncio.gather(*(worker(w) for w in range(r.randrange(2, 10))))
        after(ctx, make, field, field.label)

    ctx.run(body(), noise=rng.choice((0, 0.2, 0.5)), virtual=True, budget=300_000)
    if field.overlaps:
        ctx.check("shared-overlap", True, shape=(kind, field.overlaps))


@scenario(quick=640, thorough=6000, required=("exclusion",))
def threads_and_loops(ctx):
    """Blocking threads and event loops in threads share the targets."""
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]
    field = Field(ctx, f"threads/{kind}")
    make = maker(random.Random(rng.random()), kind)
    targets = ["t", "u"][: rng.randrange(1, 3)]
    share = rng.choice((0.0, 0.3, 0.6))
    if kind == "bare":
        for t in targets:  # the deques exist before the race
            make(t, True)

    def blocking(w):
        r = random.Random(rng.random())

        def run():
            for k in range(r.randrange(2, 6)):
                section(make, field, r.choice(targets), (w, k), r.random() >= share, r.randrange(3))
        return run

    def looping(w):
        r = random.Random(rng.random())

        async def one(k):
            for j in range(2):
                await asection(make, field, r, r.choice(targets), (w, k, j), r.random() >= share, r.randrange(3))

        async def main():
            await asyncio.gather(*(one(k) for k in range(3)))

        def run():
            loop = asyncio.new_event_loop()
            try:
                loop.run_until_complete(asyncio.wait_for(main(), 100))
            finally:
                loop.close()
        return run

    fns = [blocking(w) for w in range(rng.randrange(2, 5))] + [looping(10 + w) for w in range(rng.randrange(0, 3))]
    env.line_noise.on(random.Random(rng.random()), rng.choice((0.05, 0.2, 0.4)), only=GUARD_FILES)
    try:
        res = ctx.threads(fns, budget=300_000)
    finally:
        env.line_noise.off()
    for _, e in res:
        if e is not None:
            raise e
    after(ctx, make, field, field.label)


async def settle(n=80):
    for _ in range(n):
        await asyncio.sleep(0)


@scenario(quick=600, thorough=6000, required=("arrival-order", "no-overtaking"))
def arrival_order_tasks(ctx):
    """Waiters arrive one after the other, each surely queued before the next
    asks; the admission order is judged."""
    rng = ctx.rng
    kind = ("manager", "bare", "manual")[ctx.index % 3]
    kinds = [rng.random() < rng.choice((0.4, 0.7, 1.0)) for _ in range(rng.randrange(3, 9))]
    order = []
    r = random.Random(rng.random())

    async def body():
        make = maker(r, "manager" if kind == "manager" else "bare")
        gate = asyncio.Event()
        if kind == "manual":
            G, pair = A.ConcurrencyGuard, A.DequePair()
            gs = [G(pair, policy=(G.policies.QueueManually if e else G.policies.NonExclusiveQueueManually)(), probe_delay=1e-5) for e in kinds]
            pair.queue.extend(gs)

            async def waiter(i):
                async with gs[i]:
                    order.append(i)
                    for _ in range(r.randrange(4)):
                        await asyncio.sleep(0)

            ts = [asyncio.ensure_future(waiter(i)) for i in r.sample(range(len(kinds)), len(kinds))]
            await asyncio.gather(*ts)
        else:
            async def holder():
                async with make("t", True):
                    await gate.wait()

            async def waiter(i):
                async with make("t", kinds[i]):
                    order.append(i)
                    for _ in range(r.randrange(4)):
                        await asyncio.sleep(0)

            ts = [asyncio.ensure_future(holder())]
            await settle()
            for i in range(len(kinds)):
                ts.append(asyncio.ensure_future(waiter(i)))
                await settle()
            ctx.check("exclusion", not order, f"{kind}: {order} entered while an exclusive holder was inside")
            gate.set()
            await asyncio.gather(*ts)
        after(ctx, make, None, kind)

    ctx.run(body(), noise=0 if kind == "manual" else rng.choice((0, 0.3)), virtual=True, budget=300_000)
    pos = {i: k for k, i in enumerate(order)}
    what = lambda: f"{kind}: arrivals {['X' if e else 's' for e in kinds]}, admitted {order}"
    ctx.check("everyone-admitted", sorted(order) == list(range(len(kinds))), what)
    ex = [i for i in order if kinds[i]]
    ctx.check("arrival-order", ex == sorted(ex), what, shape=(kind, tuple(kinds)), sample=what())
    for i, e in enumerate(kinds):
        if e and i in pos:
            late = [j for j in range(i + 1, len(kinds)) if pos.get(j, 99) < pos[i]]
            ctx.check("no-overtaking", not late, lambda: f"{what()}: {late} overtook", shape=(kind, tuple(kinds), i))


def queued(g):
    q = getattr(g, "queue", None)
    return q is not None and any(x is g for x in tuple(q))


@scenario(quick=160, thorough=1600, required=("arrival-order", "no-overtaking"))
def arrival_order_threads(ctx):
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]
    make = maker(random.Random(rng.random()), kind)
    kinds = [rng.random() < 0.6 for _ in range(rng.randrange(3, 6))]
    gate, order = threading.Event(), []
    gs = [make("t", e) for e in kinds]
    errors = []

    def holder():
        with make("t", True):
            ready.set()
            gate.wait(100)

    def waiter(i):
        env.set_sleep_budget(400_000)
        try:
            with gs[i]:
                order.append(i)
                env.real_sleep(0)
        except BaseException as e:
            errors.append(e)

    ready = threading.Event()
    ts = [threading.Thread(target=holder, daemon=True)]
    ts[0].start()
    if not ready.wait(60):
        raise TimeoutError("holder never ran")
    for i in range(len(kinds)):
        t = threading.Thread(target=waiter, args=(i,), daemon=True)
        ts.append(t)
        t.start()
        for _ in range(20_000):
            if queued(gs[i]) or not t.is_alive() or i in order:
                break
            env.real_sleep(1e-4)
    ctx.check("exclusion", not order, f"{kind} threads: {order} entered while an exclusive holder was inside")
    env.line_noise.on(random.Random(rng.random()), 0.2, only=GUARD_FILES)
    gate.set()
    try:
        for t in ts:
            t.join(100)
    finally:
        env.line_noise.off()
    for e in errors:
        raise e
    if any(t.is_alive() for t in ts):
        raise TimeoutError("threads still running")
    pos = {i: k for k, i in enumerate(order)}
    what = lambda: f"{kind} threads: arrivals {['X' if e else 's' for e in kinds]}, admitted {order}"
    ex = [i for i in order if kinds[i]]
    ctx.check("arrival-order", ex == sorted(ex), what, shape=(kind, "threads", tuple(kinds)))
    for i, e in enumerate(kinds):
        if e:
            late = [j for j in range(i + 1, len(kinds)) if pos.get(j, 99) < pos[i]]
            ctx.check("no-overtaking", not late, lambda: f"{what()}: {late} overtook", shape=(kind, "threads", tuple(kinds), i))


@scenario(quick=60, thorough=600, required=("independent-targets", "shared-together"))
def independence(ctx):
    """A held target never delays another one; shared holders overlap."""
    rng = ctx.rng
    done, together = [], []

    async def body():
        mgr = A.MultiConcurrencyGaurd()
        gate = asyncio.Event()

        async def holder(t):
            async with (mgr.guard if rng.random() < 0.7 else mgr.monitor)(t):
                await gate.wait()

        hs = [asyncio.ensure_future(holder(t)) for t in ("a", b"a", 1)]
        await settle()

        async def other(t, e):
            async with (mgr.guard if e else mgr.monitor)(t):
                done.append(t)

        others = ["b", b"b", 2, ("a",), "A", "", None, True and "1"]
        ts = [asyncio.ensure_future(other(t, rng.random() < 0.5)) for t in others]
        for _ in range(3000):
            if len(done) == len(others):
                break
            await asyncio.sleep(1e-4)
        ctx.check("independent-targets", len(done) == len(others), lambda: f"held a, b'a', 1; only {done} of {others} could enter",
                  shape=tuple(map(repr, done)))

        inside = [0, 0]
        meet = asyncio.Event()

        async def shared():
            async with mgr.monitor("m"):
                inside[0] += 1
                if inside[0] == 3:
                    meet.set()
                for _ in range(2000):
                    if meet.is_set():
                        break
                    await asyncio.sleep(1e-4)

        ss = [asyncio.ensure_future(shared()) for _ in range(3)]
        await asyncio.gather(*ss)
        ctx.check("shared-together", meet.is_set(), "three shared holders of an idle target never were inside together", shape=rng.random() < 0.5)
        gate.set()
        await asyncio.gather(*hs, *ts)
        ctx.check("no-residue", len(mgr.targets) == 0, f"targets left {list(mgr.targets)}")

    ctx.run(body(), noise=rng.choice((0, 0.3)), virtual=True, budget=300_000)
