"""C09: a guard is always released, so waiters never wedge and state never
leaks."""
import asyncio
import random
import threading

import aiootp

from vmon import env
from vmon.core import scenario

A = aiootp.asynchs
G = A.ConcurrencyGuard


class Boom(Exception):
    pass


class Setup:
    """Guards of one target, from a manager or over shared deques."""

    def __init__(self, kind, delay=1e-5):
        self.kind, self.delay = kind, delay
        self.mgr = A.MultiConcurrencyGaurd() if kind == "manager" else None
        self.pair = A.DequePair()

    def make(self, exclusive):
        if self.mgr is not None:
            return (self.mgr.guard if exclusive else self.mgr.monitor)("t", probe_delay=self.delay)
        return G(self.pair, policy=(G.policies.Exclusive if exclusive else G.policies.NonExclusive)(), probe_delay=self.delay)

    def residue(self):
        if self.mgr is not None:
            return list(self.mgr.targets)
        return [*self.pair.queue, *self.pair.observers]


async def passes(n):
    for _ in range(n):
        await env.real_asleep(0)


async def finish(tasks, steps=4000):
    """Lets the tasks run; True if all of them ended."""
    for _ in range(steps):
        if all(t.done() for t in tasks):
            return True
        await env.real_asleep(2e-5)
    return all(t.done() for t in tasks)


async def probe(ctx, s, what, shape):
    """Afterwards every kind of waiter must get in and out, twice."""
    got = []

    async def one(e):
        async with s.make(e):
            got.append(e)
            await asyncio.sleep(0)

    kinds = [True, False, True]
    ts = [asyncio.ensure_future(one(e)) for e in kinds]
    ok = await finish(ts)
    ctx.check("later-waiters-enter", ok and len(got) == 3 and not any(t.exception() for t in ts if t.done() and not t.cancelled()),
              lambda: f"{what()}: later waiters {len(got)} of 3 entered, "
                      f"{[repr(t.exception()) for t in ts if t.done() and not t.cancelled() and t.exception()]}", shape=shape)
    for t in ts:
        t.cancel()
    await asyncio.gather(*ts, return_exceptions=True)
    if ok:
        ctx.check("no-residue", not s.residue(), lambda: f"{what()}: nobody uses the target, left {s.residue()!r:.200}", shape=shape)
    return ok


PHASES = ("waiting", "holding", "leaving", "entering")


@scenario(quick=1280, thorough=12800, required=("later-waiters-enter", "no-residue", "cancelled-propagates", "others-unaffected"))
def cancellation(ctx):
    """One task is cancelled after k loop passes, for every k; the others must
    go on and the target must be left clean."""
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]
    victim_x = bool((ctx.index // 2) % 2)
    scene = ("behind-exclusive", "behind-shared", "alone", "in-a-row")[(ctx.index // 4) % 4]
    k = (ctx.index // 16) % 40
    noise = ctx.index >= 640
    holder_x = scene != "behind-shared"

    async def body():
        s = Setup(kind, rng.choice((1e-5, 1e-4)))
        log = []
        gate = asyncio.Event()

        async def user(name, exclusive, hold):
            log.append((name, "asks"))
            async with s.make(exclusive):
                log.append((name, "in"))
                for _ in range(hold):
                    await asyncio.sleep(0)
                log.append((name, "leaves"))
            log.append((name, "out"))

        async def holder():
            async with s.make(holder_x):
                await gate.wait()

        others = []
        if scene != "alone":
            others.append(asyncio.ensure_future(holder()))
            await passes(12)
        if scene == "in-a-row":
            others.append(asyncio.ensure_future(user("before", True, 3)))
            await passes(6)
        victim = asyncio.ensure_future(user("victim", victim_x, 3))
        await passes(2)
        if scene == "in-a-row":
            others.append(asyncio.ensure_future(user("after", True, 3)))
            others.append(asyncio.ensure_future(user("after-shared", False, 3)))
        early_gate = rng.random() < 0.5
        if early_gate:
            gate.set()
        await passes(k)
        where = [x for n, x in log if n == "victim"][-1:]
        victim.cancel()
        await passes(2)
        if rng.random() < 0.2:
            victim.cancel()  # cancelled again while unwinding
        await passes(rng.randrange(4))
        gate.set()
        ok = await finish([victim])
        shape = (kind, victim_x, scene, k, where)
        what = lambda: f"{kind} {'exclusive' if victim_x else 'shared'} victim {scene}, cancelled after {k} passes while {where}: {log}"
        ctx.check("cancelled-propagates", ok, lambda: f"{what()}: the cancelled task never ended", shape=shape)
        if ok and not victim.cancelled() and victim.exception():
            ctx.check("cancelled-propagates", False, f"{what()}: ended with {victim.exception()!r}")
        ok2 = await finish(others)
        bad = [repr(t.exception()) for t in others if t.done() and not t.cancelled() and t.exception()]
        ctx.check("others-unaffected", ok2 and not bad, lambda: f"{what()}: other users {'failed ' + str(bad) if bad else 'never got in'}",
                  shape=shape, sample=what())
        for t in (victim, *others):
            t.cancel()
        await asyncio.gather(victim, *others, return_exceptions=True)
        if ok and ok2:
            await probe(ctx, s, what, shape)

    ctx.run(body(), noise=0.3 if noise else 0, virtual=True, budget=200_000)


@scenario(quick=600, thorough=6000, required=("later-waiters-enter", "no-residue", "error-propagates"))
def exceptions(ctx):
    """Sections that raise, in tasks; every waiter still gets its turn and the
    error reaches the caller."""
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]
    n = rng.randrange(1, 7)
    plan = [(rng.random() < 0.6, rng.choice((None, Boom, KeyError, asyncio.CancelledError, StopAsyncIteration, TimeoutError)))
            for _ in range(n)]

    async def body():
        s = Setup(kind)
        entered = []

        async def user(i):
            x, exc = plan[i]
            async with s.make(x):
                entered.append(i)
                await asyncio.sleep(0)
                if exc is not None:
                    raise exc("from the section")
                await asyncio.sleep(0)
            return i

        ts = [asyncio.ensure_future(user(i)) for i in range(n)]
        ok = await finish(ts)
        what = lambda: f"{kind}: sections {[(x, e and e.__name__) for x, e in plan]}, entered {entered}"
        shape = (kind, tuple((x, e and e.__name__) for x, e in plan))
        ctx.check("everyone-enters", ok and len(entered) == n, what, shape=shape)
        for i, t in enumerate(ts):
            if not t.done():
                continue
            exc = plan[i][1]
            if exc is None:
                good = not t.cancelled() and t.exception() is None and t.result() == i
            elif exc is asyncio.CancelledError:
                good = t.cancelled()
            else:
                good = not t.cancelled() and (type(t.exception()) is exc or exc is StopAsyncIteration and t.exception() is not None)
            ctx.check("error-propagates", good, lambda: f"{what()}: user {i} ended as {t!r}", shape=(shape, i))
        for t in ts:
            t.cancel()
        await asyncio.gather(*ts, return_exceptions=True)
        if ok:
            await probe(ctx, s, what, shape)

    ctx.run(body(), noise=rng.choice((0, 0.3)), virtual=True, budget=200_000)


@scenario(quick=600, thorough=5000, required=("thread-later-waiters", "thread-residue", "thread-error"))
def threads(ctx):
    """Blocking sections that raise, or whose wait is interrupted."""
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]
    s = Setup(kind)
    n = rng.randrange(2, 6)
    plan = [(rng.random() < 0.6, rng.choice((None, Boom, KeyError, SystemExit, KeyboardInterrupt)), rng.random() < 0.4) for _ in range(n)]
    entered = []

    def user(i):
        x, exc, interrupt = plan[i]

        def run():
            if interrupt:  # the wait itself is interrupted, as by a signal
                env.set_sleep_budget(rng.choice((0, 1, 5)))
            try:
                with s.make(x):
                    env.set_sleep_budget(300_000)
                    entered.append(i)
                    env.real_sleep(0)
                    if exc is not None:
                        raise exc("from the section")
                return "done"
            except env.Wedged:
                if not interrupt:
                    raise
                return "interrupted"
            except BaseException as e:
                if exc is None or type(e) is not exc:
                    raise
                return "raised"
        return run

    env.line_noise.on(random.Random(rng.random()), 0.1, only=("asynchs/guards",))
    try:
        res = ctx.threads([user(i) for i in range(n)], budget=300_000)
    finally:
        env.line_noise.off()
    shape = (kind, tuple((x, e and e.__name__, c) for x, e, c in plan), tuple(r for r, _ in res))
    what = lambda: f"{kind} threads: {[(x, e and e.__name__, 'interrupted' if c else '') for x, e, c in plan]} -> {res}"
    for i, (r, e) in enumerate(res):
        want = "raised" if plan[i][1] else "done"
        ctx.check("thread-error", e is None and (r == want or plan[i][2] and r == "interrupted"), lambda: f"{what()}: user {i}", shape=shape)
    if any(isinstance(e, env.Wedged) for _, e in res):
        return

    def later(x):
        def run():
            with s.make(x):
                return True
        return run

    res2 = ctx.threads([later(True), later(False), later(True)], budget=300_000)
    ok = all(r is True for r, _ in res2)
    ctx.check("thread-later-waiters", ok, lambda: f"{what()}: later waiters {res2}", shape=shape)
    if ok:
        ctx.check("thread-residue", not s.residue(), lambda: f"{what()}: left {s.residue()!r:.200}", shape=shape)


@scenario(quick=120, thorough=600, required=("reuse-refused", "later-waiters-enter", "no-residue"))
def reuse(ctx):
    """A guard object used before is refused; the target is not disturbed."""
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]
    x = bool((ctx.index // 2) % 2)
    when = ("after", "held", "waiting")[(ctx.index // 4) % 3]
    how = ("async", "sync")[(ctx.index // 12) % 2]

    async def body():
        s = Setup(kind)
        shape = (kind, x, when, how)
        what = lambda: f"{kind} {'exclusive' if x else 'shared'} guard reused {when} ({how})"
        inside = []

        async def attempt(g):
            try:
                if how == "async":
                    async with g:
                        inside.append("reuse")
                else:
                    with g:
                        inside.append("reuse")
            except Exception as e:
                ctx.check("reuse-refused", True, shape=shape)
                return
            ctx.check("reuse-refused", False, lambda: f"{what()}: was accepted")

        if when == "after":
            g = s.make(x)
            async with g:
                pass
            for _ in range(rng.randrange(1, 4)):
                await attempt(g)
        elif when == "held":
            # Leaving may report the misuse; it must release all the same.
            g = s.make(x)
            try:
                async with g:
                    await attempt(g)
                    ctx.check("reuse-refused", not inside, what)
            except Exception:
                pass
        else:
            first = s.make(True)
            async with first:
                g = s.make(x)

                async def wait():
                    async with g:
                        pass

                t = asyncio.ensure_future(wait())
                await passes(12)
                if how == "async":
                    await attempt(g)
                ctx.check("reuse-refused", not inside, what)
            await finish([t])
            t.cancel()
            await asyncio.gather(t, return_exceptions=True)
        await probe(ctx, s, what, shape)

    ctx.run(body(), virtual=True, budget=200_000)


@scenario(quick=800, thorough=8000, required=("storm-probe",))
def storm(ctx):
    """Many users, random cancellations and errors; then all is clean."""
    rng = ctx.rng
    kind = ("manager", "bare")[ctx.index % 2]

    async def body():
        s = Setup(kind)
        r = random.Random(rng.random())

        async def user():
            for _ in range(r.randrange(3)):
                await asyncio.sleep(0)
            async with s.make(r.random() < 0.6):
                for _ in range(r.randrange(5)):
                    await asyncio.sleep(0)
                if r.random() < 0.2:
                    raise Boom

        ts = [asyncio.ensure_future(user()) for _ in range(r.randrange(4, 14))]
        victims = [t for t in ts if r.random() < 0.4]
        r.shuffle(victims)
        for t in victims:
            await passes(r.randrange(8))
            t.cancel()
        ok = await finish(ts)
        what = lambda: f"{kind}: {len(ts)} users, {len(victims)} cancelled"
        bad = [repr(t.exception()) for t in ts if t.done() and not t.cancelled() and t.exception() and not isinstance(t.exception(), Boom)]
        ctx.check("storm", ok and not bad, lambda: f"{what()}: {sum(not t.done() for t in ts)} never ended, errors {bad}",
                  shape=(kind, len(ts), len(victims)))
        for t in ts:
            t.cancel()
        await asyncio.gather(*ts, return_exceptions=True)
        if ok:
            ctx.check("storm-probe", await probe(ctx, s, what, (kind, len(ts), len(victims))), what)
        else:
            ctx.check("storm-probe", False, what)

    ctx.run(body(), noise=rng.choice((0, 0.3)), virtual=True, budget=300_000)


class Slow:
    """A target whose hashing takes a moment, so that users of a manager meet
    inside it."""

    def __init__(self, n, pause):
        self.n, self.pause = n, pause

    def __hash__(self):
        if self.pause:
            env.real_sleep(self.pause)
        return hash(self.n)

    def __eq__(self, other):
        return isinstance(other, Slow) and self.n == other.n


@scenario(quick=160, thorough=1500, required=("crowd-clean", "crowd-done"))
def crowd(ctx):
    """Loops and threads crowd one manager; afterwards it holds no record."""
    rng = ctx.rng
    mgr = A.MultiConcurrencyGaurd()
    pause = rng.choice((0, 1e-5, 1e-3))
    targets = rng.choice((1, 2, 20))
    rounds = 3 if pause == 1e-3 else 6
    done = []

    def make(r):
        t = Slow(r.randrange(targets), pause if r.random() < 0.5 else 0)
        return (mgr.guard if r.random() < 0.6 else mgr.monitor)(t, probe_delay=1e-5)

    def blocking(seed):
        r = random.Random(seed)

        def run():
            for _ in range(rounds):
                try:
                    with make(r):
                        if r.random() < 0.2:
                            raise Boom
                except Boom:
                    pass
            done.append(1)
        return run

    def loop(seed):
        async def user(r):
            for _ in range(rounds):
                try:
                    async with make(r):
                        await asyncio.sleep(0)
                        if r.random() < 0.2:
                            raise Boom
                except Boom:
                    pass
            done.append(1)

        async def main():
            await asyncio.gather(*(user(random.Random(seed + i)) for i in range(3)))
        return lambda: asyncio.run(main())

    jobs = [blocking(rng.randrange(2**32)) for _ in range(rng.choice((1, 2, 3)))]
    jobs += [loop(rng.randrange(2**32)) for _ in range(rng.choice((1, 2)))]
    if rng.random() < 0.5:
        env.line_noise.on(random.Random(rng.random()), 0.1, only=("asynchs/guards",))
    try:
        res = ctx.threads(jobs, budget=300_000)
    finally:
        env.line_noise.off()
    shape = (len(jobs), targets, pause, rounds)
    bad = [repr(e) for _, e in res if e is not None]
    ctx.check("crowd-done", not bad, lambda: f"{len(jobs)} threads and loops over {targets} targets: {bad}", shape=shape)
    if not bad:
        ctx.check("crowd-clean", not mgr.targets, lambda: f"{len(jobs)} threads and loops over {targets} targets: {len(mgr.targets)} unused targets still recorded", shape=shape)
