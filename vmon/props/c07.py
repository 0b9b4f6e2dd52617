"""C07: concurrent feeding of one stream never corrupts it."""
import asyncio
import random
import struct
import threading

import aiootp

from vmon import crypto as cr
from vmon import env
from vmon.core import scenario
from vmon.streams import Dec, emit

Closed = aiootp._exceptions.CipherStreamIsClosed
MARK = b"\xc7\x07"


def frame(rng, feeder, seq, n):
    """A self-describing chunk, so that the opened message can be parsed."""
    return MARK + struct.pack(">BHI", feeder, seq, n) + rng.randbytes(n)


def parse(msg):
    """[(feeder, seq, chunk)] or None if the message is not a sequence of
    whole chunks."""
    out, i = [], 0
    while i < len(msg):
        if msg[i : i + 2] != MARK or i + 9 > len(msg):
            return None
        f, s, n = struct.unpack(">BHI", msg[i + 2 : i + 9])
        chunk = msg[i : i + 9 + n]
        if len(chunk) != 9 + n:
            return None
        out.append((f, s, chunk))
        i += 9 + n
    return out


def workload(rng, name, feeders):
    b = cr.FORMATS[name]["block"]
    out = []
    for f in range(feeders):
        sizes = [rng.choice((0, 1, b - 9, b - 10, b - 8, b // 2, 2 * b, 3 * b - 9, rng.randrange(4 * b))) for _ in range(rng.randrange(2, 9))]
        out.append([frame(rng, f, s, n) for s, n in enumerate(sizes)])
    return out


def judge(ctx, name, kind, key, aad, enc, packets, accepted, refused, failures, early):
    """Opens the result and compares it with what the feeders were told."""
    where = f"{name} {kind}, {len(accepted)} feeders"
    for f in failures:
        ctx.check("feed-outcome", False, f"{where}: a feed failed with {f!r}")
    ctx.check("feed-outcome", True)
    body = b"".join(b for _, b in packets)
    whole = enc.shmac.result + enc.salt + enc.iv + body
    try:
        msg = cr.new_cipher(name, key).bytes_decrypt(whole, aad=aad)
    except Exception as e:
        ctx.check("opens", False, f"{where}: the resulting ciphertext does not open: {e!r}")
        return
    ctx.check("opens", True, shape=(name, kind, len(msg), early))
    got = parse(msg)
    if not ctx.check("whole-chunks", got is not None, lambda: f"{where}: the message is not a sequence of whole chunks"):
        return
    want = {(f, s): c for f, cs in accepted.items() for s, c in cs}
    ok = len(got) == len(want) and all(want.get((f, s)) == c for f, s, c in got)
    ctx.check("exactly-once", ok, lambda: f"{where}: accepted {sorted(want)}, message holds {[(f, s) for f, s, _ in got]}",
              shape=(kind, tuple(f for f, _, _ in got)))
    order = {}
    for f, s, _ in got:
        order.setdefault(f, []).append(s)
    ctx.check("feeder-order", all(v == sorted(v) for v in order.values()), lambda: f"{where}: order {order}", shape=(kind, str(order)))
    if refused:
        ctx.check("refused-absent", not any((f, s) in refused for f, s, _ in got),
                  lambda: f"{where}: a refused chunk is in the message", shape=(kind, tuple(sorted(refused))))


@scenario(quick=2000, thorough=20000, required=("opens", "exactly-once", "feeder-order", "refused-absent"))
def tasks_encrypting(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    key, aad = cr.rkey(rng), cr.raad(rng)
    feeders = rng.randrange(2, 6)
    work = workload(rng, name, feeders)
    early = rng.random() < 0.5
    accepted, refused, failures, packets = {f: [] for f in range(feeders)}, set(), [], []
    yields = random.Random(rng.random())

    async def body():
        c = cr.new_cipher(name, key)
        s = await c.astream_encrypt(aad=aad)
        left = [feeders]

        async def feed(f):
            try:
                for n, chunk in enumerate(work[f]):
                    try:
                        await s.abuffer(chunk)
                        accepted[f].append((n, chunk))
                    except Closed:
                        refused.add((f, n))
                    except Exception as e:
                        failures.append(e)
                    for _ in range(yields.randrange(3)):
                        await asyncio.sleep(0)
            finally:
                left[0] -= 1

        async def drain():
            total = sum(map(len, work))
            limit = rng.randrange(1, total + 1)
            while left[0] and not (early and sum(map(len, accepted.values())) >= limit):
                async for p in s:
                    packets.append(p)
                    if yields.random() < 0.2:
                        await asyncio.sleep(0)
                await asyncio.sleep(0)
            async for p in s:
                packets.append(p)
            async for p in s.afinalize():
                packets.append(p)
                if yields.random() < 0.3:
                    await asyncio.sleep(0)

        await asyncio.gather(*(feed(f) for f in range(feeders)), drain())
        return s

    s = ctx.run(body(), noise=rng.choice((0, 0.1, 0.4)), virtual=True, budget=300_000)
    judge(ctx, name, "tasks", key, aad, s, packets, accepted, refused, failures, early)


@scenario(quick=500, thorough=6000, required=("opens", "exactly-once", "feeder-order", "refused-absent"))
def threads_encrypting(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    key, aad = cr.rkey(rng), cr.raad(rng)
    feeders = rng.randrange(2, 5)
    work = workload(rng, name, feeders)
    early = rng.random() < 0.5
    c = cr.new_cipher(name, key)
    s = c.stream_encrypt(aad=aad)
    accepted, refused, failures, packets = {f: [] for f in range(feeders)}, set(), [], []
    left, lock = [feeders], threading.Lock()
    limit = rng.randrange(1, sum(map(len, work)) + 1)

    def feed(f):
        def run():
            try:
                for n, chunk in enumerate(work[f]):
                    try:
                        s.buffer(chunk)
                        accepted[f].append((n, chunk))
                    except Closed:
                        refused.add((f, n))
                    except Exception as e:
                        failures.append(e)
            finally:
                with lock:
                    left[0] -= 1
        return run

    def drain():
        while left[0] and not (early and sum(map(len, accepted.values())) >= limit):
            for p in s:
                packets.append(p)
        for p in s:
            packets.append(p)
        for p in s.finalize():
            packets.append(p)

    env.line_noise.on(random.Random(rng.random()), rng.choice((0.05, 0.2)), only=("cipher_streams", "concurrency_guard", "_gentools"))
    try:
        res = ctx.threads([feed(f) for f in range(feeders)] + [drain], budget=400_000)
    finally:
        env.line_noise.off()
    for _, e in res:
        if e is not None:
            raise e
    judge(ctx, name, "threads", key, aad, s, packets, accepted, refused, failures, early)


def decided(ctx, name, kind, got, msg, wins, npk, tag_ok):
    ctx.check("received-message", got == msg and tag_ok,
              lambda: f"{name} {kind}: receivers fed {npk} packets, message {'equal' if got == msg else 'differs'}, tag {tag_ok}",
              shape=(name, kind, npk, tuple(wins)[:12]))
    ctx.check("packet-once", sorted(wins) == list(range(npk)), lambda: f"{name} {kind}: packets accepted {wins}")


@scenario(quick=600, thorough=6000, required=("received-message", "packet-once"))
def tasks_decrypting(ctx):
    """Several receivers race to deliver the same packets; each packet is
    accepted from exactly one of them and the message is right."""
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    key, aad = cr.rkey(rng), cr.raad(rng)
    msg = cr.message(rng, cr.length(rng, name) + 3 * cr.FORMATS[name]["block"])
    wins = []

    async def body():
        c = cr.new_cipher(name, key)
        enc, pk = await emit(c, True, msg, aad=aad)
        d = await Dec.new(cr.new_cipher(name, key), True, salt=enc.salt, aad=aad, iv=enc.iv)
        out, done = [], [False]

        async def deliver():
            tries = 0
            while len(wins) < len(pk) and tries < 5000:
                i = len(wins)
                tries += 1
                try:
                    await d.s.abuffer(pk[i])
                    wins.append(i)
                except d.s.InvalidBlockID:
                    pass
                await asyncio.sleep(0)

        async def drain():
            while not wins:
                await asyncio.sleep(0)
            while not done[0]:
                await d.drain(out)
                await asyncio.sleep(0)

        t = asyncio.ensure_future(drain())
        await asyncio.gather(*(deliver() for _ in range(rng.randrange(2, 5))))
        done[0] = True
        await t
        await d.drain(out, final=True)
        try:
            await d.test(enc.shmac.result)
            ok = True
        except Exception:
            ok = False
        decided(ctx, name, "tasks", b"".join(out), msg, wins, len(pk), ok)

    ctx.run(body(), noise=rng.choice((0.1, 0.4)), virtual=True, budget=300_000)


@scenario(quick=240, thorough=3000, required=("received-message", "packet-once"))
def threads_decrypting(ctx):
    rng = ctx.rng
    name = cr.NAMES[ctx.index % 2]
    key, aad = cr.rkey(rng), cr.raad(rng)
    msg = cr.message(rng, cr.length(rng, name) + 3 * cr.FORMATS[name]["block"])
    enc, pk = ctx.run(emit(cr.new_cipher(name, key), False, msg, aad=aad))
    s = cr.new_cipher(name, key).stream_decrypt(salt=enc.salt, aad=aad, iv=enc.iv)
    wins, lock, out = [], threading.Lock(), []

    def deliver():
        # position and outcome are recorded by the packet itself
        for _ in range(5000):
            i = len(wins)
            if i >= len(pk):
                return
            try:
                s.buffer(pk[i])
            except s.InvalidBlockID:
                continue
            with lock:
                wins.append(i)

    def drain():
        while not wins:
            env.real_sleep(0)
        while len(wins) < len(pk):
            out.extend(s)

    env.line_noise.on(random.Random(rng.random()), 0.1, only=("decipher_streams", "concurrency_guard"))
    try:
        res = ctx.threads([deliver for _ in range(rng.randrange(2, 4))] + [drain], budget=400_000)
    finally:
        env.line_noise.off()
    for _, e in res:
        if e is not None:
            raise e
    out.extend(s.finalize())
    try:
        s.shmac.test_shmac(enc.shmac.result)
        ok = True
    except Exception:
        ok = False
    decided(ctx, name, "threads", b"".join(out), msg, wins, len(pk), ok)
