"""C18: canonical packing."""
import aiootp

from vmon import crypto as cr, refs
from vmon.core import scenario, show

canon = aiootp.generics.canon
Refusal = aiootp._exceptions.CanonicalEncodingError
PACK = {"sync": aiootp.canonical_pack, "async": aiootp.acanonical_pack}
UNPACK = {"sync": aiootp.canonical_unpack, "async": aiootp.acanonical_unpack}


async def pack(how, *items, **kw):
    return PACK[how](*items, **kw) if how == "sync" else await PACK[how](*items, **kw)


async def unpack(how, data):
    return UNPACK[how](data) if how == "sync" else await UNPACK[how](data)


def settings(rng):
    width = rng.choice((1, 2, 3, 4, 8, 8, 8, 9, 16, 32, 200, 255))
    top = min(1 << 8 * width, 1 << 18) - 1
    blocksize = rng.choice((1, 1, 2, 3, 7, 8, 16, 64, 72, 104, 136, 144, 168, 255, 256, 257, 1000, 65535, 65536, 100000))
    return dict(blocksize=min(blocksize, top), pad=bytes([rng.choice((0, 0, 1, 8, 32, 255, rng.randrange(256)))]), int_bytes=width), top


def item(rng, top, pad=b"\0"):
    r = rng.random()
    if r < 0.15:
        return b""
    if r < 0.3:
        return pad * rng.randrange(1, 20)
    if r < 0.4:
        return bytes(rng.choice((1, 7, 8, 9))) + rng.randbytes(rng.randrange(4))
    n = rng.choice((1, 2, 8, rng.randrange(300), min(top, 254), min(top, 255), min(top, 256), cr.size(rng, 10)))
    if r > 0.99:
        n = cr.size(rng, 18)
    return rng.randbytes(min(n, top))


@scenario(quick=400, thorough=6000, required=("round-trip", "layout"))
def round_trip(ctx):
    rng = ctx.rng

    async def body():
        for _ in range(12):
            kw, top = settings(rng)
            count = min(rng.choice((0, 1, 2, 3, 5, 10, rng.randrange(60))), top - 2)
            if rng.random() < 0.02:
                count = min(top - 2, rng.choice((253, 254, 255, 256, 600)))
            items = [item(rng, top, kw["pad"]) for _ in range(count)]
            how = rng.choice(("sync", "async"))
            data = await pack(how, *items, **kw)
            shape = (kw["blocksize"], kw["int_bytes"], count if count < 6 else 6, min(len(data) // 64, 30))
            ctx.check("layout", data == refs.pack(*items, blocksize=kw["blocksize"], pad=kw["pad"], width=kw["int_bytes"]),
                      lambda: f"{how} {kw} {show(items)}: {show(data)}", shape=shape)
            for back in ("sync", "async"):
                got = await unpack(back, data)
                ctx.check("round-trip", list(got) == items and all(type(x) is bytes for x in got),
                          lambda: f"{how}->{back} {kw}: {show(items)} came back as {show(got)}", shape=shape)

    ctx.run(body())


@scenario(quick=8, thorough=40, required=("round-trip",))
def every_count_and_length(ctx):
    """All item counts and lengths around the limits of one-byte fields."""
    async def body():
        for n in range(ctx.index * 32, ctx.index * 32 + 32):
            for how in ("sync", "async"):
                for items in ([b"\0" * n], [b"\xff" * n, b""], [b"x"] * n, [b""] * n):
                    kw = dict(int_bytes=1, blocksize=ctx.rng.choice((1, 8, 168, 255))) if n < 254 and ctx.rng.random() < 0.7 else dict(blocksize=136)
                    data = await pack(how, *items, **kw)
                    got = await unpack(how, data)
                    ctx.check("round-trip", list(got) == items, lambda: f"{how} {kw}: {show(items)} came back as {show(got)}", shape=(n, len(items)))

    ctx.run(body())


def regroup(rng, items):
    """Sequences a careless encoding would confuse with `items`."""
    blob = b"".join(items)
    out = {tuple(items)}
    for _ in range(6):
        cuts = sorted(rng.randrange(len(blob) + 1) for _ in range(rng.randrange(4)))
        out.add(tuple(blob[a:b] for a, b in zip([0, *cuts], [*cuts, len(blob)])))
    for i in range(len(items) + 1):
        out.add((*items[:i], b"", *items[i:]))
        out.add((*items[:i], b"\0", *items[i:]))
    for i, x in enumerate(items):
        out.add((*items[:i], x + b"\0", *items[i + 1 :]))
        out.add((*items[:i], *items[i + 1 :]))
        if x:
            out.add((*items[:i], x[:-1], *items[i + 1 :]))
    out.add(tuple(reversed(items)))
    if len(items) > 1:
        # a length field smuggled into the contents
        out.add((items[0] + len(items[1]).to_bytes(8, "big") + items[1], *items[2:]))
        out.add((items[0] + b"\x08" + len(items[1]).to_bytes(8, "big") + items[1], *items[2:]))
    out.add((refs.pack(*items),))
    out.add((blob,))
    return out


@scenario(quick=240, thorough=3000, required=("injective", "key-injective"))
def injective(ctx):
    rng = ctx.rng

    async def body():
        items = [item(rng, 300) for _ in range(rng.randrange(5))]
        seen = {}
        params = [dict(), dict(blocksize=168), dict(blocksize=136), dict(blocksize=168, pad=b"\1"), dict(int_bytes=4), dict(int_bytes=9), dict(blocksize=8, pad=b"\x08")]
        for kw in params:
            for seq in regroup(rng, items):
                data = await pack(rng.choice(("sync", "async")), *seq, **kw)
                me = (seq, tuple(sorted(kw.items())))
                other = seen.setdefault(data, me)
                ctx.check("injective", other == me, lambda: f"{show(me)} and {show(other)} pack to the same bytes", shape=(len(seq), len(data) // 16, tuple(kw)))
        seen = {}
        base = item(rng, 300) or b"k"
        keys = {base, base + b"\0", base + b"\0" * 8, b"\0" + base, base + len(base).to_bytes(8, "little"), base + b"\xa8" + bytes(7),
                base + len(base).to_bytes(8, "little") + (168).to_bytes(8, "little"), base + b"\1" * 5, base * 2}
        keys |= {base + bytes(n) for n in range(2, 24)}
        for blocksize in (136, 168, 72):
            for pad in (b"\0", b"\1", b"\xa8"):
                for key in keys:
                    data = canon.encode_key(key, blocksize, pad=pad)
                    ctx.eq("key-agrees", await canon.aencode_key(key, blocksize, pad=pad), data, "blocking and asynchronous key encodings")
                    me = (key, blocksize, pad)
                    other = seen.setdefault(data, me)
                    ctx.check("key-injective", other == me and len(data) % blocksize == 0, lambda: f"keys {show(me)} and {show(other)} encode to the same bytes", shape=(len(key), blocksize, pad))

    ctx.run(body())


async def judge(ctx, data, what, shape):
    try:
        want = refs.unpack(data)
    except refs.Malformed:
        want = None
    for how in ("sync", "async"):
        try:
            got = list(await unpack(how, data))
        except Refusal:
            ctx.check("refused" if want is None else "accepted", want is None, lambda: f"{how}: {what}: well-formed {show(data)} refused", shape=shape)
        except Exception as e:
            ctx.check("refused", False, lambda: f"{how}: {what}: {show(data)} failed with {type(e).__name__}: {e}", shape=shape)
        else:
            ctx.check("refused" if want is None else "accepted", want is not None and got == want,
                      lambda: f"{how}: {what}: {show(data)} unpacked to {show(got)}, expected {'a refusal' if want is None else show(want)}", shape=shape)


@scenario(quick=300, thorough=5000, required=("refused",))
def altered(ctx):
    """Packings cut, extended, and with altered bytes."""
    rng = ctx.rng

    async def body():
        kw, top = settings(rng)
        if kw["int_bytes"] > 16 and rng.random() < 0.7:
            kw["int_bytes"] = 8
        kw["blocksize"] = min(kw["blocksize"], 400)
        items = [item(rng, min(top, 60), kw["pad"]) for _ in range(min(top - 2, rng.randrange(5)))]
        data = refs.pack(*items, blocksize=kw["blocksize"], pad=kw["pad"], width=kw["int_bytes"])
        shape = (kw["int_bytes"], kw["blocksize"], len(items))
        head = min(len(data), 3 * kw["int_bytes"] + 40)
        for i in {*range(min(head, 60)), *(rng.randrange(len(data)) for _ in range(20))}:
            for v in {0, 1, 2, 255, data[i] ^ 1, data[i] ^ 0x80, rng.randrange(256)}:
                await judge(ctx, data[:i] + bytes([v]) + data[i + 1 :], f"byte {i} set to {v}", (*shape, "set", i if i < 30 else 30))
        for i in {0, 1, 2, 3, len(data) - 1, len(data) - kw["blocksize"], *(rng.randrange(len(data) + 1) for _ in range(12))}:
            if 0 <= i <= len(data):
                await judge(ctx, data[:i], f"cut to {i}", (*shape, "cut"))
        for more in (b"\0", kw["pad"], kw["pad"] * kw["blocksize"], b"\xff" * kw["blocksize"], rng.randbytes(kw["blocksize"]), data):
            await judge(ctx, data + more, "extended", (*shape, "more", len(more)))

    ctx.run(body())


@scenario(quick=200, thorough=4000, required=("refused", "accepted"))
def crafted(ctx):
    """Byte strings with a packing's structure and arbitrary fields."""
    rng = ctx.rng

    async def body():
        for _ in range(30):
            width = rng.choice((0, 1, 1, 2, 3, 4, 7, 8, 8, 9, 16, 32, 255))

            def field(n):
                r = rng.random()
                if r < 0.8:
                    v = n
                elif r < 0.9:
                    v = rng.choice((0, 1, n + 1, max(0, n - 1), 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**127))
                else:
                    v = rng.getrandbits(8 * width or 1)
                return (v % (1 << 8 * width)).to_bytes(width, "big")

            blocksize = rng.choice((0, 1, 1, 1, 2, 8, 64, 168, 2**63, 2**64 - 1))
            meta = [rng.choice((blocksize.to_bytes(max(width, 8), "big")[-max(1, width):], bytes([rng.randrange(4)]), b"", rng.randbytes(rng.randrange(20)))),
                    rng.choice((b"\0", b"\0", b"\1", b"", b"\0\0", b"ab", rng.randbytes(1)))]
            items = meta[: rng.choice((2, 2, 2, 2, 1, 0))] + [item(rng, 30) for _ in range(rng.randrange(4))]
            data = bytes([width]) + field(len(items)) + b"".join(field(len(x)) + x for x in items)
            data += rng.choice((b"", b"", bytes(rng.randrange(200)), rng.randbytes(rng.randrange(20)), meta[1] * rng.randrange(100)))
            bs = int.from_bytes(meta[0], "big")
            if 0 < bs < 1000 and rng.random() < 0.7:
                data += meta[1] * (-len(data) % bs)
            await judge(ctx, data, f"width {width}", (width, bs if bs < 200 else 200, len(items), len(meta[1])))
        for n in (*range(12), 30):
            await judge(ctx, rng.randbytes(n), "random bytes", ("random", n))
            await judge(ctx, bytes(n), "zero bytes", ("zero", n))

    ctx.run(body())
