"""C10: a database returns exactly what its history of operations stored."""
from vmon import crypto as cr
from vmon.core import scenario, show
from vmon.dbs import Live, Walk, same, value


async def history(ctx, steps):
    w = Walk(ctx, cr.rkey(ctx.rng), ctx.mkdir("db"))
    await w.open(ctx.rng.random() < 0.5)
    for _ in range(steps):
        await w.step()
    await w.observe(everywhere=True)
    # what was saved is what either kind of database finds afterwards
    for is_async in (True, False):
        await w.both("save()", lambda: w.live.call("save_database"), w.model.save, "operation", compare=False)
        await w.open(is_async, ctx.rng.random() < 0.5)
        await w.observe(everywhere=True)
    ctx.check("interchange", True, shape=len(w.trace))


@scenario(quick=240, thorough=4000, required=("operation", "query", "listing", "interchange"))
def histories(ctx):
    ctx.run(history(ctx, ctx.rng.choice((5, 15, 40))))


@scenario(quick=12, thorough=150, required=("interchange",))
def long_histories(ctx):
    ctx.run(history(ctx, 250))


@scenario(quick=16, thorough=150, required=("value",))
def values(ctx):
    """Every kind of value through every way of storing and every kind of
    reopening."""
    rng = ctx.rng

    async def body():
        key, path = cr.rkey(rng), ctx.mkdir("db")
        a = bool(ctx.index % 2)
        live = await Live.open(a, key, path)
        sub = await live.sub("sub")
        want = {}
        for i in range(40):
            v = value(rng)
            d = rng.choice((live, sub))
            t = f"t{i}"
            want[(d is sub, t)] = v
            r = rng.random()
            if r < 0.4:
                await d.call("set_tag", t, v)
            elif r < 0.7:
                await d.call("set_tag", t, v, cache=False)
            else:
                d.db[t] = v
        await live.call("save_database")
        for b in (True, False):
            for pre in (True, False):
                r = await Live.open(b, key, path, preload=pre)
                rs = await r.sub("sub")
                for (s, t), v in want.items():
                    got = await (rs if s else r).call("query_tag", t)
                    ctx.check("value", same(got, v), lambda: f"stored {show(v)} by {'async' if a else 'sync'}, read {show(got)} by "
                              f"{'async' if b else 'sync'} preload={pre}", shape=(a, b, pre, type(v).__name__, show(v, 40)))
                    if pre:
                        item = (rs if s else r).db[t]
                        ctx.check("value", same(item, v), lambda: f"preloaded item of {t}: {show(item)}, expected {show(v)}")

    ctx.run(body())


@scenario(quick=8, thorough=40, required=("reserved-name",))
def reserved_names(ctx):
    """A sub-database cannot take the place of a database attribute."""
    rng = ctx.rng

    async def body():
        a = bool(ctx.index % 2)
        live = await Live.open(a, cr.rkey(rng), ctx.mkdir("db"))
        await live.call("set_tag", "a", [1])
        for name in ("tags", "path", "_cache", "_manifest", "_root_kdf", "metatags", "IO", "_silent", "filenames",
                     ("a" if a else "") + "save_database", ("a" if a else "") + "query_tag"):
            try:
                await live.call("metatag", name)
                ok = False
            except Exception:
                ok = True
            ctx.check("reserved-name", ok and name not in live.db.metatags, f"metatag {name!r} replaced an attribute", shape=(a, name))
        ctx.check("reserved-name", same(await live.call("query_tag", "a"), [1]), "record lost after refused metatags")

    ctx.run(body())
