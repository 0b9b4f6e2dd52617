"""C14: deleting removes everything of the database and nothing else."""
import aiootp

from vmon import crypto as cr, env
from vmon.core import scenario, show
from vmon.dbs import Live, build, node_at, same, snapshot, value

PROFILE = dict(mb=1, cpu=1, cores=1)


async def profile(is_async, path, user, phrase, **kw):
    kw = dict(PROFILE, **kw)
    if is_async:
        return Live(await aiootp.AsyncDatabase.agenerate_profile(username=user, passphrase=phrase, path=path, **kw), True)
    return Live(aiootp.Database.generate_profile(username=user, passphrase=phrase, path=path, **kw), False)


async def dead(ctx, live, tag, shape):
    """A deleted object answers nothing any more."""
    for name, args in (("query_tag", (tag,)), ("set_tag", (tag, 1)), ("save_database", ()), ("metatag", ("sub",)),
                       ("pop_tag", (tag,)), ("save_tag", (tag,)), ("load_tags", ())):
        try:
            got, err = await live.call(name, *args), None
        except Exception as e:
            got, err = None, e
        ctx.check("unusable", err is not None, lambda: f"{name} of a deleted database returned {show(got)}", shape=shape + (name,))


async def intact(ctx, live, content, skip, why):
    for label, tags in content.items():
        if any(label[: len(s)] == s for s in skip):
            continue
        node = await node_at(live, label)
        for t, v in tags.items():
            try:
                got, ok = await node.call("query_tag", t), True
            except Exception as e:
                got, ok = e, False
            ctx.check("others-kept", ok and same(got, v), lambda: f"{why}: {label}{t} reads {show(got)}, stored {show(v)}", shape=(why, len(label), type(v).__name__))


def strangers(rng, path):
    """Files of somebody else in the same directory."""
    for n in ("0", "1", "2", "notes.txt", "README", "a", "sub", "other", "tag--0", "_root", "secure.txt"):
        (path / n).write_bytes(rng.randbytes(20))
    return {n: (path / n).read_bytes() for n in ("0", "1", "2", "notes.txt", "README", "a", "sub", "other", "tag--0", "_root", "secure.txt")}


@scenario(quick=60, thorough=700, required=("all-removed", "others-kept", "unusable", "gone"))
def databases(ctx):
    rng = ctx.rng

    async def body():
        path = ctx.mkdir("db")
        a = bool(ctx.index % 2)
        foreign = strangers(rng, path)
        key2 = cr.rkey(rng)
        other, content2 = await build(rng, key2, path, rng.random() < 0.5, tags=2)
        before = snapshot(path)
        key = cr.rkey(rng)
        live, content = await build(rng, key, path, a, tags=3)
        state = rng.choice(("live", "fresh", "preloaded", "cleared", "unsaved"))
        if state in ("fresh", "preloaded"):
            live = await Live.open(a, key, path, preload=state == "preloaded")
        elif state == "cleared":
            await live.call("clear_cache")
        elif state == "unsaved":
            for label in content:
                node = await node_at(live, label)
                await node.call("set_tag", "late", value(rng))
                await node.call("set_tag", "later", value(rng), cache=False)
        subs = [await node_at(live, label) for label in content]
        env.files.root, env.files.escapes, env.files.watch_escapes = str(path), [], True
        try:
            await live.call("delete_database")
        finally:
            env.files.off()
        after = snapshot(path)
        left = {n for n in after if n not in before}
        ctx.check("all-removed", not left, lambda: f"{len(left)} files left after deletion ({state})", shape=(a, state, len(content)))
        lost = {n for n in before if after.get(n) != before[n]}
        ctx.check("others-kept", not lost, lambda: f"deletion ({state}) removed or changed {sorted(lost)[:4]}", shape=(a, state))
        ctx.check("others-kept", not env.files.escapes, lambda: f"deletion touched {env.files.escapes[:3]}")
        await intact(ctx, await Live.open(rng.random() < 0.5, key2, path), content2, (), "after deleting a neighbour")
        await intact(ctx, other, content2, (), "live neighbour")
        for node in subs[:3]:
            await dead(ctx, node, "tag--0", (a, state))
        again = await Live.open(rng.random() < 0.5, key, path, preload=True)
        ctx.check("gone", not again.db and not again.db.tags and not again.db.metatags, "reopened database is not empty", shape=(a, state))
        for label, tags in content.items():
            node = await node_at(again, label)
            for t in tags:
                await ctx.araises("gone", LookupError, node.call("query_tag", t), what=f"query of deleted {label}{t}", shape=(a, state, len(label)))

    ctx.run(body())


@scenario(quick=60, thorough=700, required=("all-removed", "others-kept", "unusable", "gone"))
def sub_databases(ctx):
    rng = ctx.rng

    async def body():
        path, key = ctx.mkdir("db"), cr.rkey(rng)
        a = bool(ctx.index % 2)
        live, content = await build(rng, key, path, a, tags=2, depth=rng.choice((1, 2)), names=("sub", "other", "third"))
        foreign = strangers(rng, path)
        if rng.random() < 0.4:
            live = await Live.open(a, key, path, preload=rng.random() < 0.5)
        labels = [x for x in content if x]
        victim = rng.choice(labels)
        own = set()
        for label, tags in content.items():
            if label[: len(victim)] == victim:
                node = await node_at(live, label)
                own |= {await node.call("filename", t) for t in tags}
        subs = [await node_at(live, x) for x in content if x[: len(victim)] == victim]
        before = snapshot(path)
        parent = await node_at(live, victim[:-1])
        await parent.call("delete_metatag", victim[-1])
        after = snapshot(path)
        removed = set(before) - set(after)
        n = sum(len(content[x]) + 1 for x in content if x[: len(victim)] == victim)
        ctx.check("all-removed", own <= removed and len(removed) == n, lambda: f"deleting {victim} removed {len(removed)} files, expected {n}", shape=(a, victim, n))
        lost = {x for x in before if x in after and after[x] != before[x]} | set(after) - set(before)
        ctx.check("others-kept", not lost, lambda: f"deleting {victim} changed {sorted(lost)[:4]}", shape=(a, victim))
        for name, data in foreign.items():
            ctx.check("others-kept", after.get(name, (0, None))[1] == data, lambda: f"deleting {victim} removed the unrelated file {name!r}", shape=(a, name))
        for node in subs:
            await dead(ctx, node, "x", (a, len(victim)))
        ctx.check("gone", victim[-1] not in parent.db.metatags, f"{victim} still listed")
        await intact(ctx, live, content, (victim,), "live, after deleting a sub-database")
        await live.call("save_database")
        again = await Live.open(rng.random() < 0.5, key, path, preload=rng.random() < 0.5)
        p2 = await node_at(again, victim[:-1])
        ctx.check("gone", victim[-1] not in p2.db.metatags, f"{victim} still listed when reopened", shape=(a, len(victim)))
        await intact(ctx, again, content, (victim,), "reopened, after deleting a sub-database")
        for label, tags in content.items():
            if label[: len(victim)] == victim:
                node = await node_at(again, label)
                for t in tags:
                    await ctx.araises("gone", LookupError, node.call("query_tag", t), what=f"query of deleted {label}{t}", shape=(a, len(label)))
        # the name can be used again and starts empty
        fresh = await node_at(again, victim)
        await fresh.call("set_tag", "new", [1])
        await again.call("save_database")
        third = await Live.open(rng.random() < 0.5, key, path)
        node = await node_at(third, victim)
        ctx.check("gone", node.db.tags == {"new"} and same(await node.call("query_tag", "new"), [1]), f"{victim} used again holds {node.db.tags}")

    ctx.run(body())


@scenario(quick=16, thorough=120, required=("all-removed", "others-kept", "gone"))
def profiles(ctx):
    """Deleting a profile also removes its own salt, and only that."""
    rng = ctx.rng

    async def body():
        path = ctx.mkdir("db")
        a = bool(ctx.index % 2)
        other = await profile(rng.random() < 0.5, path, b"other user", b"a long passphrase")
        await other.call("set_tag", "kept", b"value")
        await other.call("save_database")
        before = snapshot(path)
        mine = await profile(a, path, b"user", b"a long passphrase")
        await mine.call("set_tag", "tag", "x")
        sub = await mine.sub("sub")
        await sub.call("set_tag", "tag", "y")
        await mine.call("save_database")
        if rng.random() < 0.5:
            mine = await profile(a, path, b"user", b"a long passphrase")
        ctx.check("all-removed", len(snapshot(path)) == len(before) + 5, "a profile, a sub-database and two records should be five files")
        await mine.call("delete_database")
        after = snapshot(path)
        left = set(after) - set(before)
        ctx.check("all-removed", not left, lambda: f"left after deleting the profile: {sorted(left)[:4]}", shape=(a, "profile"))
        lost = {n for n in before if after.get(n) != before[n]}
        ctx.check("others-kept", not lost, lambda: f"deleting the profile changed {sorted(lost)[:4]}", shape=(a, "profile"))
        await dead(ctx, mine, "tag", (a, "profile"))
        o2 = await profile(rng.random() < 0.5, path, b"other user", b"a long passphrase")
        ctx.check("others-kept", same(await o2.call("query_tag", "kept"), b"value"), "other profile lost its record")
        again = await profile(rng.random() < 0.5, path, b"user", b"a long passphrase")
        await ctx.araises("gone", LookupError, again.call("query_tag", "tag"), what="deleted profile record", shape=(a, "profile"))
        ctx.check("gone", not again.db.tags and not again.db.metatags, "deleted profile lists records")

    ctx.run(body())
