"""C17: one async database shared by many tasks is atomic per operation."""
import asyncio
import contextlib
import random

import aiootp

from vmon import crypto as cr
from vmon.core import scenario, show
from vmon.dbs import Live, Missing, same, value


class Own:
    """The records of one task: its own tags, as if it were alone."""

    def __init__(self, ctx, me, node, rng, whole):
        self.ctx, self.me, self.node, self.rng = ctx, me, node, rng
        self.tags = [f"{me}-{i}" for i in range(3)]
        self.cache, self.file = {}, {}
        self.whole = whole  # somebody saves the whole database meanwhile
        self.trace = []

    def expect(self, tag):
        """Values the tag may have: (list, may be missing)."""
        if tag in self.cache:
            return self.cache[tag]
        if tag in self.file:
            return self.file[tag]
        return Missing

    async def step(self):
        rng, tag, db = self.rng, self.rng.choice(self.tags), self.node
        op = rng.choice(("set", "set", "write", "query", "query", "item", "save", "drop", "pop", "rollback", "in"))
        if self.whole and op == "rollback":
            op = "query"  # what a rollback finds depends on the others' saves
        self.trace.append(f"{op}({tag})")
        what = lambda: f"task {self.me} {op}({tag}); its history: {' '.join(self.trace[-12:])}"
        shape = (op, self.whole, tag in self.cache, tag in self.file)
        if op in ("set", "write"):
            v = value(rng)
            await db.aset_tag(tag, v, cache=op == "set")
            if op == "set":
                self.cache[tag] = v
            else:
                self.cache.pop(tag, None)
                self.file[tag] = v
            return
        want = self.expect(tag)
        if op == "item":
            got = db[tag]
            self.ctx.check("own-view", same(got, self.cache.get(tag)), lambda: f"{what()}: item {show(got)}, expected {show(self.cache.get(tag))}", shape=shape)
        elif op == "in":
            self.ctx.check("own-view", (tag in db) == (want is not Missing) and (tag in db.tags) == (want is not Missing),
                           lambda: f"{what()}: membership {tag in db}", shape=shape)
        elif op in ("query", "pop"):
            try:
                got = await (db.aquery_tag(tag) if op == "query" else db.apop_tag(tag))
            except LookupError:
                got = Missing
            ok = got is Missing if want is Missing else same(got, want)
            self.ctx.check("own-view", ok, lambda: f"{what()}: {show(got)}, expected {show(want)}", shape=shape)
            if op == "pop":
                self.cache.pop(tag, None)
                self.file.pop(tag, None)
        elif op in ("save", "drop"):
            try:
                await db.asave_tag(tag, drop_cache=op == "drop")
                ok = tag in self.cache
            except LookupError:
                ok = tag not in self.cache
            self.ctx.check("own-view", ok, lambda: f"{what()}: saving a {'cached' if tag in self.cache else 'missing'} tag", shape=shape)
            if tag in self.cache:
                self.file[tag] = self.cache[tag]
                if op == "drop":
                    del self.cache[tag]
        else:
            await db.arollback_tag(tag)
            self.cache.pop(tag, None)

    async def live(self, steps):
        for _ in range(steps):
            await self.step()
            if self.rng.random() < 0.3:
                await asyncio.sleep(0)


async def shared(ctx, whole, names, n, steps):
    rng = ctx.rng
    path, key = ctx.mkdir("db"), cr.rkey(rng)
    db = await aiootp.AsyncDatabase(key, path=path)
    if rng.random() < 0.5:
        await db.asave_database()
    owns = []

    async def task(me):
        node = db
        for m in rng.choice(names):  # everybody asks for the sub-databases
            node = await node.ametatag(m)
        own = Own(ctx, me, node, random.Random(rng.random()), whole)
        owns.append((own, node))
        await own.live(steps)
        return own

    async def saver():
        for _ in range(rng.choice((1, 3))):
            await db.asave_database()
            await asyncio.sleep(0)

    jobs = [task(i) for i in range(n)] + [saver() for _ in range(rng.choice((1, 2)) if whole else 0)]
    rng.shuffle(jobs)
    results = await asyncio.gather(*jobs, return_exceptions=True)
    for r in results:
        if isinstance(r, BaseException):
            raise r
    await db.asave_database()
    for a in (True, False):
        again = await Live.open(a, key, path, preload=rng.random() < 0.5)

        async def look(own, node_path):
            node = again
            for m in node_path:
                node = await node.sub(m)
            for t in own.tags:
                want = own.expect(t)
                try:
                    got = await node.call("query_tag", t)
                except LookupError:
                    got = Missing
                ok = got is Missing if want is Missing else same(got, want)
                ctx.check("stored", ok, lambda: f"after saving, task {own.me}'s {t} reads {show(got)}, expected {show(want)}; its history: {' '.join(own.trace[-15:])}",
                          shape=(whole, want is Missing, len(node_path), n))

        for own, node in owns:
            await look(own, paths(db, node))


def paths(db, node):
    """Names leading from the root to the sub-database object in use."""
    todo = [((), db)]
    for p, d in todo:
        if d is node:
            return p
        todo += [(p + (m,), getattr(d, m)) for m in d.metatags]
    return ("<orphan>",)


ROOT = [()]
SUBS = [(), ("s",), ("s",), ("s", "t"), ("u",)]


@scenario(quick=60, thorough=900, required=("own-view", "stored"))
def own_tags(ctx):
    n = ctx.rng.choice((2, 5, 12))
    ctx.run(shared(ctx, False, ctx.rng.choice((ROOT, SUBS)), n, ctx.rng.choice((6, 15))), noise=ctx.rng.choice((0.0, 0.1, 0.4)))


@scenario(quick=60, thorough=900, required=("own-view", "stored"))
def with_savers(ctx):
    """Meanwhile other tasks save the whole database."""
    n = ctx.rng.choice((2, 5, 12))
    ctx.run(shared(ctx, True, ctx.rng.choice((ROOT, SUBS)), n, ctx.rng.choice((6, 15))), noise=ctx.rng.choice((0.0, 0.1, 0.4)))


@scenario(quick=60, thorough=900, required=("one-of-them", "stored"))
def one_tag(ctx):
    """Tasks racing on one tag see values that one of them stored."""
    rng = ctx.rng

    async def body():
        path, key = ctx.mkdir("db"), cr.rkey(rng)
        db = await aiootp.AsyncDatabase(key, path=path)
        first = ["first", cr.json_value(rng)]
        await db.aset_tag("t", first)
        await db.asave_database()
        if rng.random() < 0.5:
            db = await aiootp.AsyncDatabase(key, path=path)
        stored = [first]

        async def task(me, r):
            for i in range(6):
                x = r.random()
                if x < 0.4:
                    v = [f"{me}-{i}", cr.json_value(r)]
                    stored.append(v)
                    if r.random() < 0.5:
                        await db.aset_tag("t", v)
                    else:
                        with contextlib.suppress(LookupError):  # another one saved and dropped it
                            await db.aset_tag("t", v, cache=False)
                elif x < 0.5:
                    with contextlib.suppress(LookupError):
                        await db.asave_tag("t", drop_cache=r.random() < 0.5)
                elif x < 0.55:
                    await db.asave_database()
                else:
                    got = await db.aquery_tag("t", cache=r.random() < 0.5)
                    ctx.check("one-of-them", any(same(got, v) for v in stored), lambda: f"read {show(got)}, which no task stored", shape=(me, i))

        n = rng.choice((2, 4, 8))
        await asyncio.gather(*(task(k, random.Random(rng.random())) for k in range(n)))
        await db.asave_database()
        now = await db.aquery_tag("t")
        again = await aiootp.AsyncDatabase(key, path=path)
        got = await again.aquery_tag("t")
        ctx.check("stored", same(got, now) and any(same(got, v) for v in stored), lambda: f"saved {show(now)}, reopened {show(got)}", shape=(n,))

    ctx.run(body(), noise=rng.choice((0.0, 0.2, 0.5)))


@scenario(quick=40, thorough=400, required=("stored", "opened"))
def loading(ctx):
    """Many tasks open, load and read one saved database at once."""
    rng = ctx.rng

    async def body():
        path, key = ctx.mkdir("db"), cr.rkey(rng)
        db = await aiootp.AsyncDatabase(key, path=path)
        content = {}
        for m in ((), ("s",), ("s", "t"), ("u",)):
            node = db
            for x in m:
                node = await node.ametatag(x)
            for i in range(6):
                content[(m, f"t{i}")] = v = value(rng)
                await node.aset_tag(f"t{i}", v)
        await db.asave_database()
        shared = await aiootp.AsyncDatabase(key, path=path)

        async def task(r):
            d = shared if r.random() < 0.6 else await aiootp.AsyncDatabase(key, path=path, preload=r.random() < 0.5)
            if r.random() < 0.4:
                await d.aload_database(silent=True, preload=r.random() < 0.7)
            for (m, t), v in r.sample(sorted(content.items(), key=lambda kv: kv[0]), 8):
                node = d
                for x in m:
                    node = await node.ametatag(x)
                got = await node.aquery_tag(t, cache=r.random() < 0.5)
                ctx.check("opened", same(got, v), lambda: f"{m}{t} reads {show(got)}, stored {show(v)}", shape=(m, t, d is shared))
                if r.random() < 0.05:
                    await d.aclear_cache()

        await asyncio.gather(*(task(random.Random(rng.random())) for _ in range(rng.choice((3, 8)))))
        for (m, t), v in content.items():
            node = shared
            for x in m:
                node = await node.ametatag(x)
            got = await node.aquery_tag(t)
            ctx.check("stored", same(got, v), lambda: f"{m}{t} reads {show(got)} in the end, stored {show(v)}")

    ctx.run(body(), noise=rng.choice((0.0, 0.2)))
