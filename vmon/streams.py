"""Uniform drivers for the online streams, blocking or asynchronous."""
from vmon import crypto as cr


class Enc:
    def __init__(self, stream, is_async):
        self.s, self.a = stream, is_async

    @classmethod
    async def new(cls, cipher, is_async, **kw):
        return cls(await cipher.astream_encrypt(**kw) if is_async else cipher.stream_encrypt(**kw), is_async)

    async def buffer(self, data):
        return await self.s.abuffer(data) if self.a else self.s.buffer(data)

    async def drain(self, sink, limit=None, final=False):
        """Items go into `sink` even if the iteration then fails."""
        if limit == 0:
            return
        n = 0
        if self.a:
            it = self.s.afinalize() if final else self.s.__aiter__()
            try:
                async for x in it:
                    sink.append(x)
                    n += 1
                    if n == limit:
                        break
            finally:
                await it.aclose()
        else:
            for x in self.s.finalize() if final else self.s:
                sink.append(x)
                n += 1
                if n == limit:
                    break


class Dec(Enc):
    @classmethod
    async def new(cls, cipher, is_async, **kw):
        return cls(await cipher.astream_decrypt(**kw) if is_async else cipher.stream_decrypt(**kw), is_async)

    async def test(self, tag):
        return await self.s.shmac.atest_shmac(tag) if self.a else self.s.shmac.test_shmac(tag)


async def emit(cipher, is_async, msg, **kw):
    """All packets of a message fed at once: (stream, packets)."""
    e = await Enc.new(cipher, is_async, **kw)
    await e.buffer(msg)
    out = []
    await e.drain(out)
    await e.drain(out, final=True)
    return e.s, [a + b for a, b in out]


def cuts(rng, n, k, near=()):
    """k-1 cut points of range(n+1), preferring values in `near`; sorted."""
    pts = []
    for _ in range(k - 1):
        pts.append(min(n, max(0, rng.choice(near))) if near and rng.random() < 0.6 else rng.randrange(n + 1))
    return [0, *sorted(pts), n]


def chunked(rng, name, msg):
    """A division of msg into buffering calls, with empty ones mixed in."""
    f = cr.FORMATS[name]
    b, h = f["block"], f["inner"]
    near = [k * b + d for k in range(5) for d in (-1, 0, 1)] + [k * b - h + d for k in range(1, 5) for d in (-1, 0, 1)]
    r = rng.random()
    if r < 0.1:
        parts = [msg]
    elif r < 0.25 and len(msg) < 700:
        parts = [msg[i : i + 1] for i in range(len(msg))]
    elif r < 0.4:
        w = rng.choice((b, b - 1, b + 1, 2 * b, h, b - h, 7, 3 * b + 1))
        parts = [msg[i : i + w] for i in range(0, len(msg), w)]
    else:
        c = cuts(rng, len(msg), rng.randrange(1, 9), near)
        parts = [msg[i:j] for i, j in zip(c, c[1:])]
    out = []
    for p in parts:
        while rng.random() < 0.15:
            out.append(b"")
        out.append(p)
    return out
