"""C15: a profile opens only for exactly its own credentials."""
import asyncio
import random

import aiootp

from vmon import env
from vmon.core import scenario, show
from vmon.dbs import Live, same, snapshot, value

BASE = dict(username=b"user name", passphrase=b"correct horse battery", salt=b"", aad=b"", mb=1, cpu=1, cores=1)


async def profile(a, path, creds=(), preload=False, **kw):
    kw = dict(BASE, **kw)
    if a:
        return Live(await aiootp.AsyncDatabase.agenerate_profile(*creds, path=path, preload=preload, **kw), True)
    return Live(aiootp.Database.generate_profile(*creds, path=path, preload=preload, **kw), False)


def inputs(rng):
    return dict(
        username=rng.choice((b"user name", b"", b"\x00", rng.randbytes(20))),
        passphrase=rng.choice((b"correct horse battery", rng.randbytes(12), rng.randbytes(80))),
        salt=rng.choice((b"", b"salt", rng.randbytes(40))),
        aad=rng.choice((b"", b"aad", rng.randbytes(40))),
        creds=rng.choice(((), (b"",), (b"one",), (b"one", b"two"), (rng.randbytes(30), b"x"), (b"Mail", b"pin", b"pin"))),
    )


def variations(rng, kw):
    """Every single change of the inputs, including moved boundaries."""
    out = []
    c = kw["creds"]

    def add(what, **d):
        new = dict(kw, **d)
        if any(new[k] != kw.get(k, BASE.get(k)) for k in new) and all(new != o for _, o in out):
            out.append((what, new))

    tail = rng.choice((b"\x00", b" ", b"\n"))
    for k in ("username", "salt", "aad"):
        add(f"{k} extended", **{k: kw[k] + tail})
        add(f"{k} prefixed", **{k: tail + kw[k]})
        add(f"{k} other case", **{k: kw[k].swapcase()})
        if kw[k]:
            add(f"{k} shortened", **{k: kw[k][:-1]})
            add(f"{k} bit", **{k: bytes([kw[k][0] ^ 1]) + kw[k][1:]})
    add("passphrase extended", passphrase=kw["passphrase"] + tail)
    add("passphrase other case", passphrase=kw["passphrase"].swapcase())
    add("passphrase shortened", passphrase=kw["passphrase"][:-1] if len(kw["passphrase"]) > 12 else kw["passphrase"] + b"y")
    add("passphrase bit", passphrase=kw["passphrase"][:-1] + bytes([kw["passphrase"][-1] ^ 1]))
    add("credential added", creds=c + (b"",))
    add("credential added", creds=c + (b"x",))
    add("credential before", creds=(b"x",) + c)
    if c:
        add("credential removed", creds=c[:-1])
        add("credential repeated", creds=c + c[-1:])
        add("username exchanged with a credential", username=c[0], creds=(kw["username"],) + c[1:])
        add("credential changed", creds=c[:-1] + (c[-1] + b"\x00",))
        add("credential split", creds=c[:-1] + (c[-1][:1], c[-1][1:]))
    if len(c) > 1:
        add("credentials swapped", creds=c[::-1])
        add("credentials rotated", creds=c[1:] + c[:1])
        add("credentials joined", creds=(b"".join(c),))
    add("salt and aad exchanged", salt=kw["aad"], aad=kw["salt"])
    add("username moved to a credential", username=b"", creds=(kw["username"],) + c)
    add("aad moved into username", aad=b"", username=kw["aad"] + kw["username"])
    add("salt moved into aad", salt=b"", aad=kw["salt"] + kw["aad"])
    add("mb", mb=2)
    add("cpu", cpu=2)
    add("cores", cores=2)
    return out


async def empty(ctx, live, tags, what, shape):
    ctx.check("exposes-nothing", not live.db.tags and not live.db.metatags and not live.db, lambda: f"{what}: lists {live.db.tags} {live.db.metatags}", shape=shape)
    sub = await live.sub("sub")
    for node in (live, sub):
        for t in tags:
            try:
                got, err = await node.call("query_tag", t), None
            except LookupError as e:
                got, err = None, e
            ctx.check("exposes-nothing", err is not None, lambda: f"{what}: {t} reads {show(got)}", shape=shape + (t,))


@scenario(quick=32, thorough=250, required=("reopens", "exposes-nothing"))
def inputs_matter(ctx):
    """The same inputs reopen the profile, any other do not."""
    rng = ctx.rng

    async def body():
        path, kw = ctx.mkdir("db"), inputs(rng)
        a = rng.random() < 0.5
        mine = await profile(a, path, **kw)
        content = {f"t{i}": value(rng) for i in range(2)}
        for t, v in content.items():
            await mine.call("set_tag", t, v)
            await (await mine.sub("sub")).call("set_tag", t, v)
        await mine.call("save_database")
        todo = variations(rng, kw)
        if ctx.tier == "quick":
            rng.shuffle(todo)
            todo.sort(key=lambda v: "credential" not in v[0])  # the order of these matters
            todo = todo[:5] + todo[-4:]
        for what, other in todo:
            live = await profile(rng.random() < 0.5, path, preload=rng.random() < 0.5, **other)
            await empty(ctx, live, content, f"profile with {what}", (what,))
            if rng.random() < 0.3:  # the stranger's records do not disturb
                await live.call("set_tag", "t0", "intruder")
                await live.call("save_database")
        for b in (True, False):
            again = await profile(b, path, preload=rng.random() < 0.5, **kw)
            for node in (again, await again.sub("sub")):
                ctx.check("reopens", set(node.db.tags) == set(content), lambda: f"reopened profile lists {node.db.tags}", shape=(a, b))
                for t, v in content.items():
                    try:
                        got = await node.call("query_tag", t)
                    except LookupError as e:
                        got = e
                    ctx.check("reopens", same(got, v), lambda: f"reopened profile's {t} reads {show(got)}, stored {show(v)}", shape=(a, b, type(v).__name__))

    ctx.run(body())


@scenario(quick=16, thorough=100, required=("exposes-nothing",))
def lost_salts(ctx):
    """Without the stored salts the credentials open another database."""
    rng = ctx.rng

    async def body():
        path, kw = ctx.mkdir("db"), inputs(rng)
        before = {}
        await profile(False, path, **dict(kw, username=b"someone else"))
        before = snapshot(path)
        mine = await profile(rng.random() < 0.5, path, **kw)
        await mine.call("set_tag", "t", "secret")
        await mine.call("save_database")
        new = {n for n in snapshot(path) if n not in before}
        own = [n for n in new if "/" in n]
        ctx.check("exposes-nothing", len(own) == 1, f"a profile added {len(own)} salt files", shape="one salt")
        salts = [n for n in snapshot(path) if "_admin" in n] if ctx.index % 2 else own
        for n in salts:
            (path / n).chmod(0o600)
            (path / n).unlink()
        live = await profile(rng.random() < 0.5, path, preload=True, **kw)
        await empty(ctx, live, ("t",), "profile after losing its salt", (bool(ctx.index % 2),))
        # another device directory is another database, too
        live = await profile(rng.random() < 0.5, ctx.mkdir("db2"), preload=True, **kw)
        await empty(ctx, live, ("t",), "profile in another directory", ())

    ctx.run(body())


@scenario(quick=20, thorough=150, required=("same-database",))
def at_once(ctx):
    """Several tasks or threads create or open one profile at once."""
    rng = ctx.rng
    path, kw = ctx.mkdir("db"), inputs(rng)
    existing = ctx.index % 2
    kind = ("tasks", "threads")[ctx.index // 2 % 2]
    n = rng.choice((2, 3, 4))

    async def prepare():
        live = await profile(rng.random() < 0.5, path, **kw)
        await live.call("set_tag", "t", "stored before")
        await live.call("save_database")

    if existing:
        ctx.run(prepare())
    before = snapshot(path)
    if kind == "tasks":
        async def together():
            return await asyncio.gather(*(profile(True, path, **kw) for _ in range(n)), return_exceptions=True)
        lives = ctx.run(together(), noise=rng.choice((0.0, 0.2)))
    else:
        if rng.random() < 0.5:
            env.line_noise.on(random.Random(rng.random()), 0.1, only=("_paths", "profile_tokens", "_database"))
        try:
            out = ctx.threads([lambda i=i: asyncio.run(profile(i % 2 == 1, path, **kw)) for i in range(n)])
        finally:
            env.line_noise.off()
        lives = [r if err is None else err for r, err in out]
    # Whoever finds the files of another creator half written is turned away.
    refused = [e for e in lives if isinstance(e, BaseException)]
    lives = [r for r in lives if not isinstance(r, BaseException)]
    for e in refused:
        if existing or not lives or not isinstance(e, Exception):
            raise e
    after = snapshot(path)
    files = len([f for f in after if "/" not in f])
    ctx.check("same-database", files == (2 if existing else 1) and len(after) == files + 2,
              lambda: f"{n} {kind} opening one profile left {sorted(after)}", shape=(kind, existing, n))
    ctx.check("same-database", not existing or before == after, "opening an existing profile changed its files", shape=(kind, n))

    async def look():
        if existing:
            for live in lives:
                got = await live.call("query_tag", "t")
                ctx.check("same-database", got == "stored before", lambda: f"{kind}: {show(got)}", shape=(kind, n, "read"))
        writer = rng.choice(lives)
        await writer.call("set_tag", "later", [n])
        await writer.call("save_database")
        again = await profile(rng.random() < 0.5, path, **kw)
        try:
            got = await again.call("query_tag", "later")
        except LookupError as e:
            got = e
        ctx.check("same-database", same(got, [n]), lambda: f"{kind} existing={existing}: record of one of them reads {show(got)} when reopened", shape=(kind, existing, "write"))

    ctx.run(look())


@scenario(quick=8, thorough=40, required=("refused",))
def too_short(ctx):
    """Unusable passphrases and settings are refused, not weakened."""
    rng = ctx.rng

    async def body():
        path = ctx.mkdir("db")
        for what, kw in (("mb 0", dict(mb=0)), ("cpu 0", dict(cpu=0)), ("cores 0", dict(cores=0)), ("text passphrase", dict(passphrase="x" * 20)),
                         ("text username", dict(username="user")), ("text salt", dict(salt="salt")), ("text aad", dict(aad="aad"))):
            try:
                await profile(bool(ctx.index % 2), path, **kw)
                ok = False
            except Exception:
                ok = True
            ctx.check("refused", ok, f"{what} accepted", shape=(what, ctx.index % 2))

    ctx.run(body())
