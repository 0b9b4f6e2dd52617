"""C20: conversions, generator tools and file helpers."""
import asyncio
import io
import itertools
from collections import deque

import aiootp

from vmon import crypto as cr
from vmon.core import scenario, show

IO = aiootp.generics.ByteIO
T = aiootp.generics.transform
G = aiootp._gentools
TABLES = aiootp._constants.datasets.Tables
URLSAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")


async def call(fn, how, *a, **kw):
    """A helper of IO or T in its blocking or asynchronous form."""
    owner, name = fn
    if how == "sync":
        return getattr(owner, name)(*a, **kw)
    name = "_a" + name[1:] if name.startswith("_") else "a" + name
    return await getattr(owner, name)(*a, **kw)


def both():
    return ("sync", "async")


def data(rng):
    r = rng.random()
    n = rng.choice((0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 33, rng.randrange(200), cr.size(rng, 12)))
    if r < 0.1:
        return bytes(n)
    if r < 0.2:
        return b"\xff" * n
    if r < 0.3:
        return bytes(rng.randrange(3)) + rng.randbytes(n)
    if r < 0.35:
        return rng.choice((b"\xfb\xef\xbe", b"\xff\xff\xff", b"\x00\x10\x83")) * rng.randrange(1, 9)
    return rng.randbytes(n)


def number(rng):
    r = rng.random()
    if r < 0.2:
        return rng.randrange(0, 300)
    bits = rng.choice((8, 16, 32, 64, 128, 256, 521, rng.randrange(1, 3000)))
    if r < 0.5:
        return max(0, (1 << bits) + rng.randrange(-2, 3))
    return rng.getrandbits(bits)


@scenario(quick=200, thorough=3000, required=("urlsafe", "filename", "phrase"))
def texts(ctx):
    """Bytes to URL-safe text, filenames and phrases, and back."""
    rng = ctx.rng

    async def body():
        for _ in range(40):
            x = data(rng)
            how, back = rng.choice(both()), rng.choice(both())
            t = await call((IO, "bytes_to_urlsafe"), how, x)
            ctx.check("urlsafe", type(t) is bytes and set(t) <= URLSAFE, lambda: f"{how} {show(x)}: text {show(t)}", shape=(len(x), how))
            for form in (t, t.decode()):
                got = await call((IO, "urlsafe_to_bytes"), back, form)
                ctx.check("urlsafe", got == x, lambda: f"{how}->{back} {show(x)} came back as {show(got)}", shape=(len(x), how, back, type(form).__name__))
            if len(x) <= 400:
                f = await call((IO, "bytes_to_filename"), how, x)
                ctx.check("filename", type(f) is str and set(f) <= set(TABLES.BASE_38) and len(f) > 0, lambda: f"{how} {show(x)}: filename {show(f)}", shape=(len(x), how))
                got = await call((IO, "filename_to_bytes"), back, f)
                ctx.check("filename", got == x.lstrip(b"\0"), lambda: f"{how}->{back} {show(x)} came back as {show(got)}", shape=(len(x), how, back))
                i = rng.randrange(len(f))
                bad = f[:i] + rng.choice("ABZ./\\ ~é+=:*%\0") + f[i + 1 :]
                try:
                    got = await call((IO, "filename_to_bytes"), back, bad)
                    ctx.check("foreign-symbol", False, lambda: f"filename {show(bad)} decoded to {show(got)}", shape=(len(f), i))
                except ValueError:
                    ctx.check("foreign-symbol", True, shape=("filename", back))
            if x:
                p = await call((IO, "_bytes_to_phrase"), how, x)
                ctx.check("phrase", len(p.split(b" ")) == len(x), lambda: f"{show(x)}: phrase {show(p)}", shape=(len(x), how))
                got = await call((IO, "_phrase_to_bytes"), back, p)
                ctx.check("phrase", got == x, lambda: f"{how}->{back} {show(x)} came back as {show(got)}", shape=(len(x), how, back))

    ctx.run(body())


@scenario(quick=2, thorough=2, required=("urlsafe", "phrase"))
def every_short(ctx):
    """All one-byte and many two-byte strings."""
    async def body():
        how = both()[ctx.index % 2]
        seen = {}
        for n in range(65536 + 256):
            x = n.to_bytes(1, "big") if n < 256 else (n - 256).to_bytes(2, "big")
            if n >= 256 and n % 7 != ctx.rng.randrange(7):
                continue
            t = await call((IO, "bytes_to_urlsafe"), how, x)
            p = await call((IO, "_bytes_to_phrase"), how, x)
            ctx.check("urlsafe", await call((IO, "urlsafe_to_bytes"), how, t) == x and seen.setdefault(t, x) == x, lambda: f"{how} {x!r} -> {t!r}", shape=(how, n >> 8))
            ctx.check("phrase", await call((IO, "_phrase_to_bytes"), how, p) == x and seen.setdefault((p,), x) == x, lambda: f"{how} {x!r} -> {p!r}", shape=(how, n >> 8))

    ctx.run(body())


@scenario(quick=200, thorough=3000, required=("base", "foreign-symbol"))
def bases(ctx):
    """Integers in every base of every table."""
    rng = ctx.rng
    tables = [TABLES.ASCII_95, TABLES.ASCII_128, TABLES.BASE_36, TABLES.BASE_38, TABLES.BASE_64, TABLES.BYTES, TABLES.HEX, TABLES.ONION_CHARS, TABLES.URL_SAFE]
    assert all(len(set(t)) == len(t) for t in tables)

    async def body():
        for _ in range(30):
            table = rng.choice((*tables, "".join(rng.sample(TABLES.ASCII_95, rng.randrange(2, 95))), bytes(rng.sample(range(256), rng.randrange(2, 256)))))
            base = rng.choice((None, 2, len(table), rng.randrange(2, len(table) + 1)))
            b = base or len(table)
            n = number(rng)
            if rng.random() < 0.4:
                n = max(0, b ** rng.randrange(0, 40) + rng.randrange(-1, 2))
            digits, m = [], n
            while m or not digits:
                digits.insert(0, table[m % b : m % b + 1])
                m //= b
            want = table[:0].join(digits)
            how, back = rng.choice(both()), rng.choice(both())
            got = await call((T, "int_as_base"), how, n, base, table=table)
            shape = (len(table), b, how, n.bit_length() // 8)
            ctx.check("base", got == want and type(got) is type(table), lambda: f"{how} {n} in base {base} of {show(table)}: {show(got)}, expected {show(want)}", shape=shape)
            zeros = table[:1] * rng.choice((0, 0, 1, 5))
            num = await call((T, "base_as_int"), back, zeros + want, base, table=table)
            ctx.check("base", num == n, lambda: f"{back} {show(want)} in base {base} of {show(table)}: {num}, expected {n}", shape=(*shape, back))
            for _ in range(2):
                i = rng.randrange(len(want) + 1)
                foreign = [c for c in (range(256) if isinstance(table, bytes) else [*map(chr, range(130)), "é", "☃"]) if c not in table[:b]]
                if foreign:
                    c = rng.choice(foreign)
                    if b < len(table) and rng.random() < 0.5:
                        c = table[b]
                    bad = want[:i] + (bytes([c]) if isinstance(table, bytes) else c) + want[i:]
                    try:
                        num = await call((T, "base_as_int"), back, bad, base, table=table)
                        ctx.check("foreign-symbol", False, lambda: f"{back} {show(bad)} in base {base} of {show(table)} read as {num}", shape=shape)
                    except ValueError:
                        ctx.check("foreign-symbol", True, shape=(len(table), b, back))
        for _ in range(6):
            x, size = data(rng), rng.choice((1, 2, 7, 8, 16, 33))
            want = 0
            for i in range(0, len(x), size):
                want ^= int.from_bytes(x[i : i + size], "big")
            for how in both():
                ctx.eq("mix", await call((T, "xi_mix"), how, x, size), want.to_bytes(size, "big"), f"{how} xi_mix of {show(x)}", shape=(len(x), size, how))

    ctx.run(body())


async def alist(it, limit=None):
    out = []
    async for x in it:
        out.append(x)
        if limit is not None and len(out) >= limit:
            break
    return out


async def source(items):
    for x in items:
        await asyncio.sleep(0)
        yield x


def sequence(rng):
    n = rng.choice((0, 1, 2, 3, 7, 8, 9, rng.randrange(100), cr.size(rng, 11)))
    kind = rng.choice(("bytes", "list", "tuple", "str"))
    if kind == "bytes":
        return rng.randbytes(n)
    if kind == "str":
        return "".join(chr(rng.randrange(1, 1000)) for _ in range(n))
    return (list if kind == "list" else tuple)(range(n))


@scenario(quick=300, thorough=4000, required=("split", "tools"))
def tools(ctx):
    """Splitting and regrouping, against slices and itertools."""
    rng = ctx.rng

    async def body():
        for _ in range(12):
            s = sequence(rng)
            size = rng.choice((1, 2, 3, 8, len(s) or 1, len(s) + 1, max(1, len(s) - 1), rng.randrange(1, 70)))
            chunks = [s[i : i + size] for i in range(0, len(s), size)]
            shape = (type(s).__name__, len(s), size)
            blocks = rng.choice((None, None, 1, 2, len(chunks) or 1, max(1, len(chunks) - 1), len(chunks) + 1, 1000))
            want = chunks if blocks is None else chunks[:blocks]
            ctx.eq("split", list(G.resize(s, size, blocks=blocks)), want, f"resize {show(s)} size {size} blocks {blocks}", shape=(*shape, blocks))
            ctx.eq("split", await alist(G.aresize(s, size, blocks=blocks)), want, f"aresize {show(s)} size {size} blocks {blocks}", shape=(*shape, blocks))
            if isinstance(s, (bytes, str)):
                kw = {} if isinstance(s, bytes) else dict(buffer_type=lambda x: io.StringIO(x, newline=""))
                ctx.eq("split", list(G.batch(s, size=size, **kw)), chunks, f"batch {show(s)} size {size}", shape=shape)
                ctx.eq("split", await alist(G.abatch(s, size=size, **kw)), chunks, f"abatch {show(s)} size {size}", shape=shape)
            parts = [rng.sample(range(1000), rng.randrange(6)) for _ in range(rng.randrange(1, 5))]
            mixed = lambda: [source(p) if rng.random() < 0.5 else rng.choice((list, iter, tuple))(p) for p in parts]  # noqa: E731
            flat = [x for p in parts for x in p]
            lens = tuple(map(len, parts))
            ctx.eq("tools", list(G.collate(*parts)), flat, f"collate {parts}", shape=("collate", lens))
            ctx.eq("tools", await alist(G.acollate(*mixed())), flat, f"acollate {parts}", shape=("acollate", lens))
            ctx.eq("tools", [tuple(x) for x in await alist(G.azip(*mixed()))], list(zip(*parts)), f"azip {parts}", shape=("azip", lens))
            one = rng.choice((list, iter, tuple, source))
            ctx.eq("tools", await alist(G.aunpack(one(flat))), flat, f"aunpack {flat}", shape=("aunpack", len(flat)))
            ctx.eq("tools", list(G.unpack(iter(flat))), flat, f"unpack {flat}", shape=("unpack", len(flat)))
            n = rng.randrange(1, 30)
            want = list(itertools.islice(itertools.cycle(flat), n))
            ctx.eq("tools", list(itertools.islice(G.cycle(iter(flat)), n)), want, f"cycle {flat}", shape=("cycle", len(flat), n))
            ctx.eq("tools", await alist(G.acycle(one(flat)), n), want, f"acycle {flat}", shape=("acycle", len(flat), n))
            start, width = number(rng) % (1 << 30), rng.choice((4, 5, 8, 16))
            order = rng.choice(("big", "little"))
            nums = list(range(start, start + n))
            enc = [x.to_bytes(width, order) for x in nums]
            ctx.eq("tools", list(itertools.islice(G.count(start=start), n)), nums, f"count {start}", shape=("count", n))
            ctx.eq("tools", await alist(G.acount(start=start), n), nums, f"acount {start}", shape=("acount", n))
            ctx.eq("tools", list(itertools.islice(G.bytes_count(start=start, size=width, byte_order=order), n)), enc, f"bytes_count {start}", shape=("bytes_count", width, order))
            ctx.eq("tools", await alist(G.abytes_count(start=start, size=width, byte_order=order), n), enc, f"abytes_count {start}", shape=("abytes_count", width, order))
            a = rng.choice(((n,), (n, n + rng.randrange(9)), (3, 40, rng.randrange(1, 9)), (40, 3, -rng.randrange(1, 9)), (5, 5)))
            ctx.eq("tools", await alist(G.arange(*a)), list(range(*a)), f"arange {a}", shape=("arange", a))
            enc = [x.to_bytes(width, order) for x in range(*a)]
            ctx.eq("tools", list(G.bytes_range(*a, size=width, byte_order=order)), enc, f"bytes_range {a}", shape=("bytes_range", a))
            ctx.eq("tools", await alist(G.abytes_range(*a, size=width, byte_order=order)), enc, f"abytes_range {a}", shape=("abytes_range", a))
            q = deque(flat)
            ctx.eq("tools", list(G.popleft(q)) + list(q), flat, f"popleft {flat}", shape=("popleft", len(flat)))
            q = deque(flat)
            ctx.eq("tools", await alist(G.apopleft(q)) + list(q), flat, f"apopleft {flat}", shape=("apopleft", len(flat)))
            for bad in (0, -1):
                for what, fn in (("size", lambda: list(G.resize(b"abc", bad))), ("blocks", lambda: list(G.resize(b"abc", 1, blocks=bad)))):
                    ctx.raises("refused", ValueError, fn, what=f"resize with {what} {bad}")

    ctx.run(body(), noise=rng.choice((0.0, 0.05)))


@scenario(quick=120, thorough=1500, required=("queue",))
def filling_queue(ctx):
    """A queue that grows while it is drained loses and repeats nothing."""
    rng = ctx.rng

    async def body():
        q, n = deque(), rng.randrange(1, 60)
        got, left = [], n

        async def feed():
            nonlocal left
            for i in range(n):
                q.append(i)
                left -= 1
                if rng.random() < 0.5:
                    await asyncio.sleep(0)

        async def drain():
            while left or q:
                if rng.random() < 0.7:
                    async for x in G.apopleft(q):
                        got.append(x)
                else:
                    for x in G.popleft(q):
                        got.append(x)
                await asyncio.sleep(0)

        await asyncio.gather(feed(), drain())
        ctx.eq("queue", got, list(range(n)), "drained while it filled", shape=n)

    ctx.run(body(), noise=rng.choice((0.0, 0.2)))


@scenario(quick=160, thorough=2000, required=("file", "file-tasks"))
def files(ctx):
    """Writing, appending and reading files in both forms."""
    rng = ctx.rng

    async def body():
        root = ctx.mkdir("files")
        model, trace = {}, []
        for _ in range(rng.randrange(5, 25)):
            name = rng.choice("ab")
            path = root / name if rng.random() < 0.5 else str(root / name)
            op, how = rng.choice(("write", "append", "read", "read")), rng.choice(both())
            x = rng.randbytes(cr.size(rng)) if rng.random() < 0.15 else data(rng)
            trace.append((how, op, name, len(x)))
            if op == "write":
                r = await call((IO, "write"), how, path, x)
                model[name] = x
            elif op == "append":
                r = await call((IO, "append"), how, path, x)
                model[name] = model.get(name, b"") + x
            elif name in model:
                whole = model[name]
                size = rng.choice((-1, None, 0, 1, len(whole), len(whole) + 1, max(0, len(whole) - 1), rng.randrange(len(whole) + 1)))
                got = await call((IO, "read"), how, path, *(() if size is None else (size,)))
                want = whole if size in (None, -1) else whole[:size]
                ctx.check("file", got == want, lambda: f"{how} read of {len(want)} bytes gave {show(got)} after {trace[-4:]}", shape=(how, "read", size in (None, -1), len(want) // 64))
            else:
                try:
                    await call((IO, "read"), how, path)
                    ctx.check("file", False, "a missing file was read")
                except FileNotFoundError:
                    pass
            for n, want in model.items():
                with open(root / n, "rb") as f:
                    got = f.read()
                ctx.check("file", got == want, lambda: f"file {n} holds {len(got)} bytes, expected {len(want)}, after {trace[-4:]}", shape=(op, how, len(want) // 256))

        async def one(i):
            want = b""
            for _ in range(4):
                x = rng.randbytes(rng.randrange(1, 3000))
                await IO.aappend(root / f"t{i}", x)
                want += x
                got = await IO.aread(root / f"t{i}")
                ctx.check("file-tasks", got == want, lambda: f"task {i} read {len(got)} bytes of {len(want)}", shape=len(want) // 256)

        await asyncio.gather(*(one(i) for i in range(5)))

    ctx.run(body(), noise=rng.choice((0.0, 0.1)))
