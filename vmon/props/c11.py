"""C11: tampered or misplaced database files are detected, never misread."""
from vmon import crypto as cr
from vmon.core import scenario, show
from vmon.dbs import Live, build, node_at, restore, same, snapshot, value


def mutate(rng, kind, data, other):
    b = bytearray(data)
    if kind == "flip":
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif kind == "head":
        b[rng.randrange(min(len(b), 64))] ^= 1 << rng.randrange(8)
    elif kind == "empty":
        return b""
    elif kind == "cut":
        return bytes(b[: rng.choice((1, 16, 32, 64, len(b) // 2, len(b) - 256, len(b) - 1, rng.randrange(1, len(b))))])
    elif kind == "behead":
        return bytes(b[rng.choice((1, 32, 256)):])
    elif kind == "append":
        return bytes(b) + rng.choice((b"\x00", b"\n", rng.randbytes(256), bytes(b)))
    elif kind == "zero":
        return bytes(len(b))
    elif kind == "noise":
        return rng.randbytes(len(b))
    elif kind == "text":
        return rng.choice((b"null", b"{}", b"[]", b'""', b"\x01\x02", b" " * 300))
    elif kind == "swap":
        return other
    elif kind == "splice":
        n = rng.choice((32, 56, 64, 100))
        return other[:n] + data[n:]
    return bytes(b)


KINDS = ("flip", "flip", "head", "empty", "cut", "behead", "append", "zero", "noise", "text", "swap", "splice")


async def attempts(ctx, live, tag, shape, why):
    """Every way of reading a tampered record must raise."""
    for name, args, kw in (
        ("query_tag", (tag,), {}),
        ("query_tag", (tag,), dict(silent=True)),
        ("query_tag", (tag,), dict(cache=True)),
        ("load_tags", (), dict(silent=True)),
        ("rollback_tag", (tag,), dict(cache=True)),
        ("pop_tag", (tag,), dict(silent=True)),
    ):
        try:
            got, err = await live.call(name, *args, **kw), None
        except Exception as e:
            got, err = None, e
        ctx.check("tampered-read", err is not None, lambda: f"{name}{kw} after {why} returned {show(got)}", shape=shape + (name, str(kw)))
        item = live.db[tag]
        ctx.check("tampered-read", item is None, lambda: f"item cached by {name}{kw} after {why}: {show(item)}")


async def untouched(ctx, live, content, skip, why):
    for label, tags in content.items():
        node = await node_at(live, label)
        for t, v in tags.items():
            if (label, t) in skip:
                continue
            try:
                got, ok = await node.call("query_tag", t), True
            except Exception as e:
                got, ok = e, False
            ctx.check("untouched-read", ok and same(got, v), lambda: f"untouched {label}{t} after {why}: {show(got)}, stored {show(v)}",
                      shape=(len(label), type(v).__name__, why.split(" ")[0]))


async def setup(ctx):
    rng, path = ctx.rng, ctx.mkdir("db")
    key, key2 = cr.rkey(rng), cr.rkey(rng)
    live, content = await build(rng, key, path, rng.random() < 0.5, tags=3)
    live2, content2 = await build(rng, key2, path, rng.random() < 0.5, depth=1, tags=2)
    files = {}
    for (lv, ct, who) in ((live, content, 0), (live2, content2, 1)):
        for label, tags in ct.items():
            node = await node_at(lv, label)
            for t in tags:
                files[(who, label, t)] = await node.call("filename", t)
    return path, key, key2, content, content2, files, snapshot(path)


@scenario(quick=48, thorough=700, required=("tampered-read", "untouched-read"))
def records(ctx):
    """Alters one record's file; it must not be readable, the others must."""
    rng = ctx.rng

    async def body():
        path, key, _, content, content2, files, snap = await setup(ctx)
        mine = [k for k in files if k[0] == 0]
        for i, kind in enumerate(KINDS):
            victim = rng.choice(mine)
            other = rng.choice([k for k in files if k != victim])
            data = snap[files[victim]][1]
            new = mutate(rng, kind, data, snap[files[other]][1])
            if new == data:
                continue
            (path / files[victim]).write_bytes(new)
            _, label, tag = victim
            why = f"{kind} {len(data)}->{len(new)} bytes"
            a = rng.random() < 0.5
            live = await Live.open(a, key, path)
            shape = (a, kind, len(label), len(data), other[:2] if kind in ("swap", "splice") else "")
            await untouched(ctx, live, content, {(label, tag)}, why)
            await attempts(ctx, await node_at(live, label), tag, shape, why)
            # opening with everything read in advance
            try:
                pre = await Live.open(a, key, path, preload=True)
                node = await node_at(pre, label)
                await node.call("query_tag", tag, silent=True)
                ok = False
            except Exception:
                ok = True
            ctx.check("tampered-read", ok, f"preloaded opening after {why} served the record", shape=shape + ("preload",))
            restore(path, snap)
        # two records' files exchanged
        x, y = rng.sample(mine, 2)
        (path / files[x]).write_bytes(snap[files[y]][1])
        (path / files[y]).write_bytes(snap[files[x]][1])
        live = await Live.open(rng.random() < 0.5, key, path)
        for _, label, tag in (x, y):
            await attempts(ctx, await node_at(live, label), tag, (live.a, "exchange", len(label)), f"exchange of {x[1:]} and {y[1:]}")
        await untouched(ctx, live, content, {x[1:], y[1:]}, "exchange")

    ctx.run(body())


@scenario(quick=32, thorough=400, required=("ledger", "untouched-read"))
def ledgers(ctx):
    """Alters a ledger; the database must not open as if it were genuine."""
    rng = ctx.rng

    async def body():
        path, key, key2, content, content2, files, snap = await setup(ctx)
        roots = sorted(set(snap) - set(files.values()))
        ctx.check("ledger", len(roots) == len(content) + len(content2), f"{len(roots)} ledgers for {len(content) + len(content2)} databases")
        for kind in KINDS:
            victim, other = rng.sample(roots, 2)
            if kind in ("swap", "splice") and rng.random() < 0.4:
                other = rng.choice(sorted(files.values()))
            data = snap[victim][1]
            new = mutate(rng, kind, data, snap[other][1])
            if new == data:
                continue
            (path / victim).write_bytes(new)
            fails = 0
            for k, ct in ((key, content), (key2, content2)):
                a = rng.random() < 0.5
                try:
                    live = await Live.open(a, k, path)
                    for label in ct:
                        await node_at(live, label)
                except Exception:
                    fails += 1
                    continue
                await untouched(ctx, live, ct, (), f"ledger-{kind}")
            ctx.check("ledger", fails == 1, f"{kind} of a ledger: {fails} of 2 databases refused to open, expected exactly 1",
                      shape=(kind, len(data), len(new)))
            restore(path, snap)

    ctx.run(body())


@scenario(quick=24, thorough=300, required=("wrong-key",))
def wrong_key(ctx):
    rng = ctx.rng

    async def body():
        path, key, key2, content, content2, files, snap = await setup(ctx)
        bad = [key[:-1] + bytes([key[-1] ^ 1]), key + b"\x00", cr.rkey(rng), bytes([key[0] ^ 128]) + key[1:]]
        if len(key) > 64:
            bad.append(key[:-1])
        for k in bad:
            a = rng.random() < 0.5
            try:
                live = await Live.open(a, k, path, preload=rng.random() < 0.5)
            except Exception:
                continue
            for label, tags in content.items():
                node = await node_at(live, label)
                for t, v in tags.items():
                    try:
                        got, err = await node.call("query_tag", t), None
                    except Exception as e:
                        got, err = None, e
                    ctx.check("wrong-key", err is not None, lambda: f"other key read {label}{t}: {show(got)}", shape=(a, len(k) - len(key), len(label)))
                    # even when the genuine file is moved where the other key looks
                    fn = await node.call("filename", t)
                    (path / fn).write_bytes(snap[files[(0, label, t)]][1])
                    try:
                        got, err = await node.call("query_tag", t), None
                    except Exception as e:
                        got, err = None, e
                    ctx.check("wrong-key", err is not None, lambda: f"other key read the moved file of {label}{t}: {show(got)}",
                              shape=(a, len(k) - len(key), len(label), "moved"))
            restore(path, snap)

    ctx.run(body())


@scenario(quick=24, thorough=300, required=("direct",))
def direct(ctx):
    """The database's own ciphers bind the file name, AAD and database."""
    rng = ctx.rng

    async def body():
        path, key = ctx.mkdir("db"), cr.rkey(rng)
        a = bool(ctx.index % 2)
        db = await Live.open(a, key, path)
        sub, sub2 = await db.sub("s"), await db.sub("t")
        other = await Live.open(a, cr.rkey(rng), path)
        for seal, unseal, mk in (("bytes_encrypt", "bytes_decrypt", lambda: rng.randbytes(rng.randrange(600))),
                                 ("json_encrypt", "json_decrypt", lambda: cr.json_value(rng)),
                                 ("make_token", "read_token", lambda: rng.randbytes(rng.randrange(200)))):
            for _ in range(3):
                v, fn, aad = mk(), rng.choice(("", "f", "ü")), rng.choice((b"", b"aad"))
                kw = dict(filename=fn, aad=aad)
                ct = await db.call(seal, v, **kw)
                got = await db.call(unseal, ct, **kw)
                ctx.check("direct", same(got, v), lambda: f"{seal} round trip: {show(got)} for {show(v)}", shape=(a, seal, show(v, 30)))
                for what, d, k2 in (("file name", db, dict(kw, filename=fn + "x")), ("aad", db, dict(kw, aad=aad + b"x")),
                                    ("key", other, kw), ("sub-database", sub, kw)):
                    try:
                        got, err = await d.call(unseal, ct, **k2), None
                    except Exception as e:
                        got, err = None, e
                    ctx.check("direct", err is not None, lambda: f"{unseal} with another {what} returned {show(got)}", shape=(a, seal, what))
                ct = await sub.call(seal, v, **kw)
                try:
                    got, err = await sub2.call(unseal, ct, **kw), None
                except Exception as e:
                    got, err = None, e
                ctx.check("direct", err is not None, lambda: f"sibling sub-database opened {show(got)}", shape=(a, seal, "sibling"))

    ctx.run(body())
