"""Databases: uniform blocking/asynchronous access and an executable model."""
import copy
import itertools

import aiootp

from vmon import crypto as cr
from vmon.core import Stop, show


def same(a, b):
    """Equal values of equal types, all the way down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def value(rng):
    r = rng.random()
    if r < 0.3:
        return rng.randbytes(rng.choice((0, 1, 2, 31, 32, 200, 256, 257, rng.randrange(1500))))
    if r < 0.36:
        return rng.choice((b"\x01\x02", b"\x01\x02null", b"\x01", b"null", b'"x"', b"[]", b"\x01\x02\x01\x02"))
    return cr.json_value(rng)


TAGS = ("a", "b", "", "tag with space", "\u00fcn\u00ef\u2603", "../up", "0", "1", "x" * 300, "A")
METAS = ("sub", "other", "m\u00e9 ta", "0", "s2")
# names that a lossy treatment (folding, trimming, normalising, cutting) would confuse
CLOSE_TAGS = ("a", "A", "a ", " a", "a\n", "a\x00", "u\u0308", "\u00fc", "x" * 300, "x" * 301, "", "\ufeffa", "aa", "\u0430")
CLOSE_METAS = ("sub", "Sub", "SUB", "sub ", "me\u0301", "m\u00e9", "sub\n", "sub0")


class Live:
    """One open database object; `call` hides which kind it is."""

    def __init__(self, db, is_async):
        self.db, self.a = db, is_async

    @classmethod
    async def open(cls, is_async, key, path, **kw):
        if is_async:
            return cls(await aiootp.AsyncDatabase(key, path=path, **kw), True)
        return cls(aiootp.Database(key, path=path, **kw), False)

    async def call(self, name, *a, **kw):
        if self.a:
            return await getattr(self.db, "a" + name)(*a, **kw)
        return getattr(self.db, name)(*a, **kw)

    async def sub(self, name, **kw):
        return Live(await self.call("metatag", name, **kw), self.a)

    async def close(self):
        """Leaves through the context manager, which saves."""
        if self.a:
            async with self.db:
                pass
        else:
            with self.db:
                pass


_ids = itertools.count()


class Disk:
    """What the directory holds, by abstract identity."""

    def __init__(self):
        self.roots = {}  # id -> (salt, tags, metas)
        self.files = {}  # (id, salt, tag) -> value


class Missing(Exception):
    """The model says the operation reports a missing record."""


class Node:
    """Model of one live database object."""

    def __init__(self, disk, ident, preload=False):
        self.disk, self.id = disk, ident
        self.subs, self.cache = {}, {}
        self._manifest()
        self._load(preload)

    def _manifest(self):
        if self.id in self.disk.roots:
            self.salt, tags, metas = self.disk.roots[self.id]
            self.tags, self.metas = set(tags), list(metas)
        else:
            self.salt, self.tags, self.metas = next(_ids), set(), []

    def _load(self, preload):
        if preload:
            for t in list(self.tags):
                self.query(t, silent=True, cache=True)
        for m in list(self.metas):
            self.metatag(m, preload)

    def _f(self, tag):
        return (self.id, self.salt, tag)

    # -- operations
    def set(self, tag, val, cache=True):
        self.cache[tag] = val
        self.tags.add(tag)
        if not cache:
            self.save_tag(tag, drop=True)

    def query(self, tag, silent=False, cache=False):
        if tag in self.cache:
            return self.cache[tag]
        if self._f(tag) not in self.disk.files:
            if silent:
                return None
            raise Missing
        v = copy.deepcopy(self.disk.files[self._f(tag)])
        if cache:
            self.cache[tag] = v
        return v

    def pop(self, tag, silent=False):
        known = tag in self.tags or tag in self.cache or self._f(tag) in self.disk.files
        v = self.query(tag, silent=True)
        self.discard(tag)
        if not known and not silent:
            raise Missing
        return v

    def discard(self, tag):
        self.tags.discard(tag)
        self.cache.pop(tag, None)
        self.disk.files.pop(self._f(tag), None)

    def rollback(self, tag, cache=False):
        if self._f(tag) not in self.disk.files:
            self.tags.discard(tag)
        self.cache.pop(tag, None)
        if cache:
            self.query(tag, silent=True, cache=True)

    def clear(self, metatags=True):
        self.cache.clear()
        if metatags:
            for m in self.metas:
                self.subs[m].clear(True)

    def metatag(self, name, preload=False):
        if name not in self.subs:
            self.subs[name] = Node(self.disk, (self.id, self.salt, name), preload)
        if name not in self.metas:
            self.metas.append(name)
        return self.subs[name]

    def delete_metatag(self, name):
        if name not in self.metas:
            raise Missing
        self.metatag(name).delete()
        del self.subs[name]
        self.metas.remove(name)

    def delete(self):
        for m in list(self.metas):
            self.metatag(m).delete()
        for t in self.tags:
            self.disk.files.pop(self._f(t), None)
        self.disk.roots.pop(self.id, None)

    def save_tag(self, tag, drop=False):
        if tag not in self.cache:
            raise Missing
        self.disk.files[self._f(tag)] = copy.deepcopy(self.cache[tag])
        if drop:
            del self.cache[tag]

    def save(self):
        self.disk.roots[self.id] = (self.salt, set(self.tags), list(self.metas))
        for m in self.metas:
            self.subs[m].save()
        for t in self.cache:
            self.disk.files[self._f(t)] = copy.deepcopy(self.cache[t])

    def reload(self, preload):
        self._manifest()
        self._load(preload)


class Walk:
    """A random history applied to the database and to the model."""

    def __init__(self, ctx, key, path):
        self.ctx, self.rng = ctx, ctx.rng
        self.key, self.path = key, path
        self.disk = Disk()
        self.trace = []
        close = self.rng.random() < 0.35
        self.tags = tuple(self.rng.sample(CLOSE_TAGS, 9)) if close else TAGS
        self.metas = tuple(self.rng.sample(CLOSE_METAS, 5)) if close else METAS
        self.depth = self.rng.choice((0.45, 0.45, 0.75))

    def what(self):
        return "history: " + " ; ".join(self.trace[-60:])

    async def open(self, is_async, preload=False):
        self.trace.append(f"open({'async' if is_async else 'sync'},preload={preload})")
        self.live = await Live.open(is_async, self.key, self.path, preload=preload)
        self.model = Node(self.disk, "root", preload)

    async def pick(self):
        """A random node of the tree: (live, model, label)."""
        live, model, label = self.live, self.model, ""
        while model.metas and self.rng.random() < self.depth:
            m = self.rng.choice(sorted(model.metas))
            live, model, label = await live.sub(m), model.metatag(m), f"{label}/{m}"
        return live, model, label

    async def both(self, label, live_fn, model_fn, monitor, compare=True):
        """Runs the operation on both sides; outcomes must agree."""
        self.trace.append(label)
        try:
            want, missing = model_fn(), False
        except Missing:
            want, missing = None, True
        try:
            got, err = await live_fn(), None
        except LookupError as e:
            got, err = None, e
        ok = (err is not None) == missing and (not compare or missing or same(got, want))
        self.ctx.check(monitor, ok,
                       lambda: f"{label}: got {show(err or got)}, expected {'a lookup error' if missing else show(want)}; {self.what()}",
                       shape=(label.split("(")[0], missing, type(want).__name__, tuple(x.split("(")[0] for x in self.trace[-3:])))
        if not ok:
            raise Stop

    async def step(self):
        rng = self.rng
        live, model, lab = await self.pick()
        db = live.db
        tag = rng.choice(self.tags)
        op = rng.choices(
            ("set", "setitem", "query", "getitem", "pop", "delitem", "rollback", "clear", "metatag", "delmeta", "save_tag",
             "save", "load_tags", "load", "reload", "exit", "reopen"),
            (14, 4, 10, 3, 6, 2, 6, 3, 4, 1.2, 5, 5, 2, 2, 1.5, 1, 4))[0]
        if op == "set":
            v, cache = value(rng), rng.random() < 0.7
            await self.both(f"{lab}set({tag!r:.8},{show(v, 30)},cache={cache})", lambda: live.call("set_tag", tag, v, cache=cache),
                            lambda: model.set(tag, v, cache), "operation", compare=False)
        elif op == "setitem":
            v = value(rng)

            async def f():
                db[tag] = v
            await self.both(f"{lab}setitem({tag!r:.8},{show(v, 30)})", f, lambda: model.set(tag, v), "operation", compare=False)
        elif op == "query":
            silent, cache = rng.random() < 0.5, rng.random() < 0.4
            await self.both(f"{lab}query({tag!r:.8},silent={silent},cache={cache})",
                            lambda: live.call("query_tag", tag, silent=silent, cache=cache),
                            lambda: model.query(tag, silent, cache), "query")
        elif op == "getitem":
            async def f():
                return db[tag]
            await self.both(f"{lab}getitem({tag!r:.8})", f, lambda: model.cache.get(tag), "query")
        elif op == "pop":
            silent = rng.random() < 0.5
            await self.both(f"{lab}pop({tag!r:.8},silent={silent})", lambda: live.call("pop_tag", tag, silent=silent),
                            lambda: model.pop(tag, silent), "query")
        elif op == "delitem":
            async def f():
                del db[tag]
            await self.both(f"{lab}del({tag!r:.8})", f, lambda: model.discard(tag), "operation", compare=False)
        elif op == "rollback":
            cache = rng.random() < 0.5
            await self.both(f"{lab}rollback({tag!r:.8},cache={cache})", lambda: live.call("rollback_tag", tag, cache=cache),
                            lambda: model.rollback(tag, cache), "operation", compare=False)
        elif op == "clear":
            subs = rng.random() < 0.6
            await self.both(f"{lab}clear(metatags={subs})", lambda: live.call("clear_cache", metatags=subs),
                            lambda: model.clear(subs), "operation", compare=False)
        elif op == "metatag":
            m = rng.choice(self.metas)
            if lab.count("/") < 3:
                pre = rng.random() < 0.3
                await self.both(f"{lab}metatag({m!r},preload={pre})", lambda: live.call("metatag", m, preload=pre),
                                lambda: model.metatag(m, pre), "operation", compare=False)
        elif op == "delmeta":
            m = rng.choice(self.metas)
            await self.both(f"{lab}delete_metatag({m!r})", lambda: live.call("delete_metatag", m),
                            lambda: model.delete_metatag(m), "operation", compare=False)
        elif op == "save_tag":
            drop = rng.random() < 0.4
            await self.both(f"{lab}save_tag({tag!r:.8},drop={drop})", lambda: live.call("save_tag", tag, drop_cache=drop),
                            lambda: model.save_tag(tag, drop), "operation", compare=False)
        elif op == "save":
            await self.both(f"{lab}save()", lambda: live.call("save_database"), model.save, "operation", compare=False)
        elif op == "load_tags":
            await self.both(f"{lab}load_tags()", lambda: live.call("load_tags", silent=True),
                            lambda: [model.query(t, True, True) for t in list(model.tags)] and None, "operation", compare=False)
        elif op in ("load", "reload"):
            pre = rng.random() < 0.5
            if op == "reload" and model.id not in self.disk.roots:
                return
            await self.both(f"{lab}{op}(preload={pre})",
                            lambda: live.call("load_database", manifest=op == "reload", preload=pre, silent=True),
                            lambda: model.reload(pre) if op == "reload" else model._load(pre), "operation", compare=False)
        elif op == "exit":
            await self.both("exit()", self.live.close, self.model.save, "operation", compare=False)
        else:
            if rng.random() < 0.6:
                await self.both("save()", lambda: self.live.call("save_database"), self.model.save, "operation", compare=False)
            await self.open(rng.random() < 0.5, rng.random() < 0.4)
        if op in ("clear", "load", "reload", "delmeta", "reopen") and rng.random() < 0.3:
            await self.observe(everywhere=True)
        elif rng.random() < 0.5:
            await self.observe()

    async def observe(self, everywhere=False):
        """Everything visible without changing anything, against the model."""
        nodes = [await self.pick()]
        if everywhere:
            nodes = [(self.live, self.model, "")]
            for live, model, lab in nodes:
                for m in sorted(model.metas):
                    nodes.append((await live.sub(m), model.metatag(m), f"{lab}/{m}"))
        for live, model, lab in nodes:
            db, ctx = live.db, self.ctx
            got = (set(db.tags), len(db), bool(db), set(db.metatags), {t for t in self.tags if t in db})
            want = (set(model.tags), len(model.tags), bool(model.tags or model.metas), set(model.metas),
                    {t for t in self.tags if t in model.tags or t in model.cache})
            ok = got == want
            ctx.check("listing", ok, lambda: f"{lab} tags, len, bool, metatags, membership {show(got, 400)}, expected {show(want, 400)}; {self.what()}",
                      shape=(tuple(sorted(want[0])), tuple(sorted(want[3])), len(lab)))
            if not ok:
                raise Stop
            for t in self.tags if everywhere else self.rng.sample(self.tags, 2):
                await self.both(f"{lab}look({t!r:.8})", lambda: live.call("query_tag", t), lambda: model.query(t), "query")
                self.trace.pop()


# ------------------------------------------------------------------ files
def snapshot(path):
    """Every file below `path` -> (mode bits, content), whatever its mode."""
    out = {}
    for p in sorted(path.rglob("*")):
        if p.is_file():
            mode = p.stat().st_mode & 0o777
            if mode & 0o400:
                data = p.read_bytes()
            else:
                p.chmod(0o600)
                data = p.read_bytes()
                p.chmod(mode)
            out[str(p.relative_to(path))] = (mode, data)
    return out


def restore(path, snap):
    """Puts the directory back as it was when `snap` was taken."""
    for name in set(snapshot(path)) - set(snap):
        (path / name).unlink()
    for name, (mode, data) in snap.items():
        p = path / name
        p.parent.mkdir(parents=True, exist_ok=True)
        if p.exists():
            p.chmod(0o600)
        p.write_bytes(data)
        p.chmod(mode)


async def build(rng, key, path, is_async, depth=2, tags=4, names=("sub", "other")):
    """A saved tree of databases; {labels: {tag: value}} and the live root."""
    live = await Live.open(is_async, key, path)
    content = {}

    async def fill(node, label, d):
        content[label] = {}
        for i in range(tags):
            t = f"tag-{'.'.join(label)}-{i}"
            v = value(rng)
            content[label][t] = v
            await node.call("set_tag", t, v, cache=rng.random() < 0.7)
        if d:
            for n in names[: d]:
                await fill(await node.sub(n), label + (n,), d - 1)

    await fill(live, (), depth)
    await live.call("save_database")
    return live, content


async def node_at(live, label):
    for n in label:
        live = await live.sub(n)
    return live
