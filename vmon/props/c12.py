"""C12: databases are confidential at rest and isolated from each other."""
import base64

from vmon import crypto as cr, env
from vmon.core import scenario, show
from vmon.dbs import Live, Walk, snapshot


def forms(secret):
    """Encodings under which a secret would be recognised in a file."""
    b = secret.encode() if isinstance(secret, str) else secret
    out = {b, b.hex().encode(), b.hex().upper().encode(), b[::-1]}
    for i in range(3):  # any alignment
        out.add(base64.b64encode(b[i:])[: (len(b) - i) // 3 * 4])
        out.add(base64.urlsafe_b64encode(b[i:])[: (len(b) - i) // 3 * 4])
    out.add(b.decode("latin1").encode("utf-16-le"))
    return {f for f in out if len(f) >= 12}


def windows(data, n=16):
    return {bytes(data[i:i + n]) for i in range(0, len(data) - n + 1)}


@scenario(quick=48, thorough=500, required=("no-secret", "only-directory", "names-differ"))
def at_rest(ctx):
    """Nothing stored can be recognised in the names or contents of files."""
    rng = ctx.rng

    async def body():
        path, key = ctx.mkdir("db"), rng.randbytes(rng.choice((64, 64, 80, 200)))
        a = bool(ctx.index % 2)
        secrets = {"key": key[:24]}
        word = lambda p: p + "-" + "".join(rng.choice("abcdefghijklmnop") for _ in range(24))
        env.files.root, env.files.escapes, env.files.watch_escapes = str(path), [], True
        try:
            live = await Live.open(a, key, path)
            node = live
            for d in range(3):
                for i in range(3):
                    t, v = word("tag"), rng.choice((word("val").encode(), word("val"), [word("val"), {"k": word("val")}], rng.randbytes(40)))
                    secrets[f"tag{d}{i}"] = t
                    flat = v if isinstance(v, (str, bytes)) else v[0]
                    secrets[f"value{d}{i}"] = flat
                    await node.call("set_tag", t, v, cache=rng.random() < 0.6)
                if d < 2:
                    m = word("meta")
                    secrets[f"meta{d}"] = m
                    node = await node.sub(m)
            await live.call("save_database")
            await live.call("query_tag", secrets["tag00"])
            await live.call("pop_tag", secrets["tag01"])
            await live.call("save_database")
        finally:
            env.files.off()
        ctx.check("only-directory", not env.files.escapes, lambda: f"wrote outside the directory: {env.files.escapes[:5]}", shape=(a, len(env.files.escapes)))
        snap = snapshot(path)
        ctx.check("no-secret", len(snap) == 3 + 8, f"{len(snap)} files for 3 ledgers and 8 records")
        for what, s in secrets.items():
            for f in forms(s):
                for name, (_, data) in snap.items():
                    ok = f not in data and f.decode("latin1").lower() not in name.lower()
                    ctx.check("no-secret", ok, lambda: f"{what} {show(f)} appears in file {name}", shape=(a, what, len(f), len(data)))
        # the root salts stay inside the encrypted ledgers
        for name in snap:
            ctx.check("names-differ", "/" not in name and name.isascii() and len(name) >= 8, lambda: f"file name {name!r}", shape=(a, len(name)))

    ctx.run(body())


@scenario(quick=32, thorough=300, required=("fresh-file",))
def rewriting(ctx):
    """Rewriting the same value never gives the same bytes again."""
    rng = ctx.rng

    async def body():
        path, key = ctx.mkdir("db"), cr.rkey(rng)
        a = bool(ctx.index % 2)
        env.clock.freeze()
        live = await Live.open(a, key, path)
        sub = await live.sub("s")
        v = rng.choice((b"", rng.randbytes(300), "text", [1, 2]))
        seen = {}
        for i in range(8):
            how = rng.choice(("save_tag", "set", "save"))
            for node in (live, sub):
                if how == "set":
                    await node.call("set_tag", "t", v, cache=False)
                    await node.call("set_tag", "u", v, cache=False)
                else:
                    await node.call("set_tag", "t", v)
                    await node.call("set_tag", "u", v)
                    if how == "save_tag":
                        await node.call("save_tag", "t")
                        await node.call("save_tag", "u")
            await live.call("save_database")
            for name, (_, data) in snapshot(path).items():
                # the timestamp may be equal, nothing else
                for off in range(8, len(data) - 16 + 1, 16):
                    w = bytes(data[off:off + 16])
                    ctx.check("fresh-file", w not in seen or seen[w] == (name, i), lambda: f"bytes at {off} of {name} already written in {seen[w]}",
                              shape=(a, how, i, off // 64))
                    seen[w] = (name, i)

    try:
        ctx.run(body())
    finally:
        env.clock.reset()


@scenario(quick=32, thorough=300, required=("names-differ",))
def names(ctx):
    """File names of the same tags under other keys, parents or names."""
    rng = ctx.rng

    async def body():
        seen = {}
        base = cr.rkey(rng)
        keys = [base, base + b"\x00", bytes([base[0] ^ 1]) + base[1:], base[:-1] + bytes([base[-1] ^ 1]), cr.rkey(rng)]
        tags = ("", "a", "aa", "a\x00", "A", "0", "1", "a ", "a\n", "\u00fc", "u\u0308", "x" * 300, "x" * 301)
        for i, key in enumerate(keys):
            path = ctx.mkdir(f"db{i}" if ctx.index % 2 else "db")
            live = await Live.open(rng.random() < 0.5, key, path)
            nodes = [("", live), ("a", await live.sub("a")), ("b", await live.sub("b")), ("a/a", await (await live.sub("a")).sub("a")),
                     ("aa", await live.sub("aa"))]
            nodes += [(n, await live.sub(n)) for n in ("A", "a ", "a\n", "\u00fc", "u\u0308", "x" * 300, "x" * 301)]
            for lab, node in nodes:
                for t in tags:
                    await node.call("set_tag", t, t)
            await live.call("save_database")
            for lab, node in nodes:
                for t in tags:
                    fn = await node.call("filename", t)
                    ctx.check("names-differ", fn not in seen, lambda: f"key {i} node {lab!r} tag {t!r} is named as {seen[fn]}", shape=(i, lab, t))
                    seen[fn] = (i, lab, t)
                    ctx.check("names-differ", (path / fn).is_file(), lambda: f"no file {fn} for {lab!r} {t!r}")
            for f in path.iterdir():  # ledgers included
                if f.name not in seen:
                    seen[f.name] = (i, "ledger", "")
            ledgers = sum(1 for s in seen.values() if s[0] == i and s[1] == "ledger")
            ctx.check("names-differ", ledgers == len(nodes), lambda: f"{ledgers} ledgers for {len(nodes)} databases", shape=(i, "ledgers"))

    ctx.run(body())


@scenario(quick=40, thorough=600, required=("isolated",))
def neighbours(ctx):
    """Several databases with interleaved histories in one directory; each
    agrees with its own model and none touches another's files."""
    rng = ctx.rng

    async def body():
        path, base = ctx.mkdir("db"), cr.rkey(rng)
        keys = [base, base + b"\x00", bytes([base[0] ^ 1]) + base[1:], cr.rkey(rng)][: rng.choice((2, 3, 4))]
        walks = [Walk(ctx, k, path) for k in keys]
        owned = {i: set() for i in range(len(keys))}
        for w in walks:
            await w.open(rng.random() < 0.5)
        before = snapshot(path)
        for _ in range(rng.choice((20, 60))):
            i = rng.randrange(len(walks))
            await walks[i].step()
            after = snapshot(path)
            changed = {n for n in set(before) | set(after) if before.get(n) != after.get(n)}
            others = set().union(*(owned[j] for j in owned if j != i))
            ctx.check("isolated", not changed & others, lambda: f"database {i} changed files of another: {sorted(changed & others)[:3]}; {walks[i].what()}",
                      shape=(walks[i].trace[-1].split("(")[0], len(changed), len(keys)))
            owned[i] |= changed
            before = after
        for w in walks:
            await w.observe(everywhere=True)
            await w.live.call("save_database")
            w.model.save()
        for w in walks:
            await w.open(rng.random() < 0.5, rng.random() < 0.5)
            await w.observe(everywhere=True)

    ctx.run(body())
