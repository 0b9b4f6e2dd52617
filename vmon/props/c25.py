"""C25: keyed permutations and sequence identifiers."""
import asyncio

import aiootp

from vmon.core import scenario, show

P = aiootp._permutations
KINDS = (P.affine_permutation.AffinePermutation, P.affine_xor_chain.AffineXORChain, P.fast_affine_xor_chain.FastAffineXORChain)
CHAINS = KINDS[1:]
SequenceID = aiootp.SequenceID
SIZES = (*range(1, 33), 48, 64, 128, 192, 256)


def prime_after(n, _known={}):
    """The smallest prime above n."""
    if n not in _known:
        c = n + 1 | 1
        while not all(pow(a, c - 1, c) == 1 for a in (2, 3, 5, 7, 11, 13)) or any(c % d == 0 and c != d for d in (2, 3, 5, 7, 11, 13, 17, 19)):
            c += 2
        _known[n] = c
    return _known[n]


def make_key(rng, n):
    r = rng.random()
    if r < 0.08:
        return bytes(n)
    if r < 0.16:
        return b"\xff" * n
    if r < 0.24:
        return bytes([rng.randrange(256)]) * n
    if r < 0.3:
        k = bytearray(n)
        k[rng.randrange(n)] = 1 << rng.randrange(8)
        return bytes(k)
    return rng.randbytes(n)


def near(rng, size, inner=()):
    """A value of the domain, often next to something special."""
    top = (1 << 8 * size) - 1
    r = rng.random()
    if inner and r < 0.4:
        return rng.choice(inner)
    if r < 0.5:
        return rng.choice((0, 1, 2, top, top - 1, top - 2))
    if r < 0.6:
        return min(top, max(0, (1 << rng.randrange(8 * size)) + rng.randrange(-1, 2)))
    return rng.getrandbits(8 * size)


async def fwd(p, how, x):
    return p.permute(x) if how == "sync" else await p.apermute(x)


async def back(p, how, x):
    return p.invert(x) if how == "sync" else await p.ainvert(x)


async def step(p, how):
    p.step() if how == "sync" else await p.astep()


def pick(rng):
    return rng.choice(("sync", "async"))


class Line:
    """
    A single affine map, measured from outside: which inputs make it pass
    through values above the domain.
    """

    def __init__(self, p, size):
        top = (1 << 8 * size) - 1
        q = prime_after(1 << 8 * size)
        self.ok = False
        for x in (0, 1, 12345 & top, top // 3):
            y, z, w = (p.permute(v & top) for v in (x, x + 1, x + 2))
            if (z - y - (w - z)) % q == 0 and (z - y) % q:
                m = (z - y) % q
                a = (y - m * x) % q
                inv = pow(m, -1, q)
                gap = [v for v in range(top + 1, q)]
                self.inner = [v for v in ((inv * (g - a)) % q for g in gap) if v <= top]
                self.outer = [v for v in ((m * g + a) % q for g in gap) if v <= top]
                self.ok = True
                return


async def judge(ctx, p, size, values, what, shape):
    """Distinct results inside the domain, undone exactly, both ways."""
    rng, top = ctx.rng, (1 << 8 * size) - 1
    seen = {}
    for x in values:
        how, undo = pick(rng), pick(rng)
        y = await fwd(p, how, x)
        ctx.check("domain", type(y) is int and 0 <= y <= top, lambda: f"{what}: {how} {x:#x} -> {show(y)}", shape=shape)
        if not 0 <= y <= top:
            continue
        ctx.check("one-to-one", seen.setdefault(y, x) == x, lambda: f"{what}: {x:#x} and {seen[y]:#x} both give {y:#x}", shape=shape)
        z = await back(p, undo, y)
        ctx.check("inverse", z == x, lambda: f"{what}: {how} {x:#x} -> {y:#x} -> {undo} {z:#x}", shape=(*shape, how, undo))
        w = await back(p, undo, x)
        ctx.check("domain", 0 <= w <= top, lambda: f"{what}: {undo} inverse of {x:#x} is {show(w)}", shape=shape)
        if 0 <= w <= top:
            v = await fwd(p, how, w)
            ctx.check("inverse", v == x, lambda: f"{what}: {undo} {x:#x} -> {w:#x} -> {how} {v:#x}", shape=(*shape, undo, how, "back"))


def targets(kind, p, key, size):
    """Inputs that lead a stage through values above the domain."""
    out = []
    if kind is KINDS[0]:
        line = Line(p, size)
        if line.ok:
            out = line.inner + line.outer
    else:
        s = size
        adds = key[3 * s :]
        lines = []
        for i in range(3):
            k = adds[2 * s * i : 2 * s * (i + 1)] or lines[0][0]
            a = KINDS[0](key=k, config_id=size)
            lines.append((k, a, Line(a, size)))
        if not all(l.ok for _, _, l in lines):
            return out
        xin, mid, xout = (int.from_bytes(key[i * s : (i + 1) * s], "big") for i in range(3))
        ip, op = (int(s * h, 16) for h in ("a3", "1b"))
        i, m, o = (a for _, a, _ in lines)
        lin, lmid, lout = (l for _, _, l in lines)
        for v in lin.inner + lin.outer:
            out.append(v ^ xin)
        for v in lmid.inner + lmid.outer:
            out.append(i.invert(v ^ mid ^ ip) ^ xin)
        for v in lout.inner + lout.outer:
            out.append(i.invert(m.invert(v ^ mid ^ op) ^ mid ^ ip) ^ xin)
            out.append(v ^ xout)
    top = (1 << 8 * size) - 1
    return [v for v in out if 0 <= v <= top]


@scenario(quick=40, thorough=400, required=("one-to-one", "inverse"))
def whole(ctx):
    """Every value of the smallest domains."""
    rng = ctx.rng
    kind = KINDS[ctx.index % 3]
    size = 2 if ctx.index % 20 == 7 else 1

    async def body():
        for _ in range(1 if size == 2 else 20):
            key = make_key(rng, kind.key_size(size))
            p = kind(key=key, config_id=size)
            moves = 0
            if kind in CHAINS:
                moves = await tweak(rng, p, size)
            n = 1 << 8 * size
            if size == 2:
                ys = [p.permute(x) for x in range(n)]
                ctx.check("one-to-one", sorted(ys) == list(range(n)), lambda: f"{kind.__name__} key {key.hex()} after {moves} moves: {n - len(set(ys))} of {n} results are repeats or outside", shape=(kind.__name__, size, "all"))
                bad = [x for x in range(n) if p.invert(ys[x]) != x]
                ctx.check("inverse", not bad, lambda: f"{kind.__name__} key {key.hex()} after {moves} moves: not undone for {show(bad)}", shape=(kind.__name__, size, "all"))
                await judge(ctx, p, size, [near(rng, size) for _ in range(50)], f"{kind.__name__} size {size}", (kind.__name__, size))
            else:
                await judge(ctx, p, size, range(n), f"{kind.__name__} size {size} key {key.hex()} after {moves} moves", (kind.__name__, size))

    ctx.run(body())


async def tweak(rng, p, size):
    """A few random tweaks; their number is returned."""
    n = rng.choice((0, 1, 2, 5, rng.randrange(40)))
    for _ in range(n):
        how = pick(rng)
        if rng.random() < 0.3:
            v = near(rng, size) or 1
            p.update_increment(v) if how == "sync" else await p.aupdate_increment(v)
        else:
            await step(p, how)
    return n


@scenario(quick=3 * 37, thorough=3 * 37 * 12, required=("one-to-one", "inverse", "domain"))
def wide(ctx):
    """Chosen values of every domain, among them those that leave it on the way."""
    rng = ctx.rng
    kind = KINDS[ctx.index % 3]
    size = SIZES[ctx.index // 3 % len(SIZES)]

    async def body():
        for _ in range(6 if size < 33 else 1):
            key = make_key(rng, kind.key_size(size))
            p = kind(key=key, config_id=size)
            inner = targets(kind, p, key, size)
            ctx.check("passes-above", True, shape=(kind.__name__, size, len(inner) > 0))
            some = rng.sample(inner, min(len(inner), 40))
            some += [min((1 << 8 * size) - 1, max(0, v + rng.choice((-1, 1)))) for v in some[:10]]
            values = list(dict.fromkeys(some + [near(rng, size) for _ in range(30)]))
            what = f"{kind.__name__} size {size} key {key.hex()[:80]}"
            await judge(ctx, p, size, values, what, (kind.__name__, size))
            if kind in CHAINS:
                for x in values[:20]:
                    y = p.uncapped_permute(x)
                    ctx.check("uncapped", p.uncapped_invert(y) == x == await p.auncapped_invert(y) and y == await p.auncapped_permute(x), lambda: f"{what}: uncapped {x:#x} -> {y:#x}", shape=(kind.__name__, size))
                moves = await tweak(rng, p, size)
                await judge(ctx, p, size, values, f"{what} after {moves} moves", (kind.__name__, size, "moved"))
            # the same key always gives the same map, in both interfaces
            q = kind(key=key, config_id=size)
            r = kind(key=key, config_id=size)
            for x in values[:12]:
                a, b = q.permute(x), await r.apermute(x)
                ctx.check("agree", a == b, lambda: f"{what}: {x:#x} -> {a:#x} or {b:#x}", shape=(kind.__name__, size))
            # one changed key bit gives another map
            i = rng.randrange(8 * len(key))
            other = bytearray(key)
            other[i // 8] ^= 1 << i % 8
            r = kind(key=bytes(other), config_id=size)
            xs = range(256) if size == 1 else values[:12]
            ctx.check("keys-differ", [q.permute(x) for x in xs] != [r.permute(x) for x in xs], lambda: f"{what}: bit {i} of the key makes no difference", shape=(kind.__name__, size, i * 16 // len(key) // 8))
            for bad in (key[:-1], key + b"\0", b""):
                ctx.raises("refused", ValueError, lambda bad=bad: kind(key=bad, config_id=size), what=f"{kind.__name__} size {size} key of {len(bad)} bytes", shape=(kind.__name__, size, len(bad) - len(key)))

    ctx.run(body())


@scenario(quick=60, thorough=600, required=("no-repeat", "agree"))
def tweaks(ctx):
    """Outputs of one input while the map is tweaked."""
    rng = ctx.rng
    kind = rng.choice(CHAINS)
    size = rng.choice((1, 1, 2, 3, 4, 8, 16, 32, rng.choice(SIZES)))

    async def body():
        key = make_key(rng, kind.key_size(size))
        p, q = (kind(key=key, config_id=size) for _ in "ab")
        start = []
        for _ in range(rng.randrange(3)):
            v = near(rng, size) or 1
            start.append(v)
            p.update_increment(v)
            await q.aupdate_increment(v)
        n = 256 if size == 1 else (65536 if size == 2 and ctx.index % 10 == 0 else rng.choice((64, 300)))
        x = near(rng, size)
        seen = {}
        for i in range(n):
            how = "sync" if n > 1000 else pick(rng)
            y = await fwd(p, how, x)
            ctx.check("no-repeat", seen.setdefault(y, i) == i, lambda: f"{kind.__name__} size {size} key {key.hex()[:80]} increments {start}: {x:#x} gives {y:#x} after {seen[y]} and after {i} steps", shape=(kind.__name__, size, min(i, 255)))
            if n <= 1000 or i % 500 == 0:
                z, w = await fwd(q, pick(rng), x), await back(p, pick(rng), y)
                ctx.check("agree", y == z, lambda: f"{kind.__name__} size {size} after {i} steps: {y:#x} or {z:#x}", shape=(kind.__name__, size, i < 2))
                ctx.check("inverse", w == x, lambda: f"{kind.__name__} size {size} after {i} steps: {x:#x} -> {y:#x} -> {w:#x}", shape=(kind.__name__, size, "stepping"))
            await step(p, how)
            await step(q, "sync" if n > 1000 else pick(rng))
        if n == 1 << 8 * size:
            y = p.permute(x)
            ctx.check("cycle", len(seen) == n, lambda: f"{kind.__name__} size {size}: {len(seen)} outputs in {n} steps", shape=(kind.__name__, size))
        top = 1 << 8 * size
        before = p.permute(x)
        for bad in (0, -1, top, top + 1):
            ctx.raises("refused", ValueError, p.update_increment, bad, what=f"{kind.__name__} size {size} increment {bad:#x}", shape=(kind.__name__, size, bad > 0))
        ctx.check("refused", p.permute(x) == before, "a refused increment changed the map", shape=(kind.__name__, size, "kept"))

    ctx.run(body())


@scenario(quick=64, thorough=640, required=("sequence",))
def sequences(ctx):
    """Sequence identifiers of every size."""
    rng = ctx.rng
    size = ctx.index % 32 + 1

    async def body():
        key = make_key(rng, SequenceID.key_size(size))
        s, t = (SequenceID(key=key, config_id=size) for _ in "ab")
        top = (1 << 8 * size) - 1
        if size == 1:
            xs = range(256)
        elif size == 2 and ctx.index < 32:
            xs = range(65536)
        else:
            xs = list(dict.fromkeys([*range(300), *range(top - 300, top + 1), *(near(rng, size) for _ in range(300))]))
        seen = {}
        for x in xs:
            how, undo = ("sync", "sync") if len(xs) > 5000 else (pick(rng), pick(rng))
            y = s.new(x) if how == "sync" else await s.anew(x)
            ctx.check("sequence", type(y) is bytes and len(y) == size and seen.setdefault(y, x) == x, lambda: f"size {size} key {key.hex()}: {x:#x} -> {show(y)}, also from {seen.get(y)}", shape=(size, how))
            reader = rng.choice((s, t))
            z = reader.read(y) if undo == "sync" else await reader.aread(y)
            ctx.check("sequence-read", z == x, lambda: f"size {size} key {key.hex()}: {x:#x} -> {y.hex()} -> {z:#x}", shape=(size, how, undo))
        i = rng.randrange(8 * len(key))
        other = bytearray(key)
        other[i // 8] ^= 1 << i % 8
        u = SequenceID(key=bytes(other), config_id=size)
        some = list(xs)[:256]
        ctx.check("keys-differ", [s.new(x) for x in some] != [u.new(x) for x in some], lambda: f"sequence size {size}: key bit {i} makes no difference", shape=("sequence", size))
        for bad in (key[:-1], key + b"\0", b""):
            ctx.raises("refused", ValueError, lambda bad=bad: SequenceID(key=bad, config_id=size), what=f"sequence size {size} key of {len(bad)} bytes", shape=("sequence", size, len(bad) - len(key)))

    ctx.run(body())
