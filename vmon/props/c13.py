"""C13: crashes and I/O faults while saving never yield wrong data."""
import asyncio
import errno
import os
import resource
import signal

from vmon import crypto as cr, env
from vmon.core import scenario, show
from vmon.dbs import Live, build, node_at, restore, same, snapshot, value

MUTATING = ("write", "remove", "rename", "truncate", "chmod", "mkdir", "rmdir", "link", "symlink")
GONE = object()  # the record may legitimately be missing
OPS = ("save", "save", "save", "exit", "set", "save_tag", "drop_tag", "pop", "del", "delmeta", "delete")


class Fault:
    """The k-th mutating file operation fails, or is cut short after `limit`
    bytes; as an error, or as the end of the process."""

    def __init__(self, root, k, limit, crash, report=None):
        self.k, self.limit, self.crash, self.report = k, limit, crash, report
        self.n, self.path, self.kind = 0, None, None
        env.files.root, env.files.handler = str(root), self.handle
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)

    def handle(self, kind, path):
        if kind not in MUTATING:
            return
        self.n += 1
        if self.n != self.k:
            return
        self.path, self.kind = path, kind
        if self.report is not None:
            os.write(self.report, path.encode())
        if kind == "write" and self.limit is not None:
            if self.crash:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL) if self.main() else None
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, self.old[1]))
        elif self.crash:
            os._exit(77)
        else:
            raise OSError(errno.ENOSPC if kind == "write" else errno.EIO, "injected fault", path)

    @staticmethod
    def main():
        import threading
        return threading.current_thread() is threading.main_thread()

    def off(self):
        env.files.off()
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class Case:
    """A saved tree, changes waiting in the cache and one operation."""

    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        rng = ctx.rng
        self.path, self.key = ctx.mkdir("db"), cr.rkey(rng)
        self.a = rng.random() < 0.5
        self.op = rng.choice(OPS)
        ctx.run(self.make())

    async def make(self):
        rng = self.rng
        live, self.content = await build(rng, self.key, self.path, rng.random() < 0.5, depth=rng.choice((1, 2)), tags=3)
        self.records = {}
        for label, tags in self.content.items():
            node = await node_at(live, label)
            for t in list(tags) + ["new"]:
                self.records[await node.call("filename", t)] = (label, t)
        self.snap = snapshot(self.path)
        self.ledgers = set(self.snap) - set(self.records)
        labels = sorted(self.content)
        # waiting changes: some records get a new value, some are new
        self.changes = {}
        for label in labels:
            for t in list(self.content[label]) + ["new"]:
                if rng.random() < 0.5:
                    self.changes[(label, t)] = value(rng)
        self.label = rng.choice(labels)
        if self.op == "delmeta":
            self.label = rng.choice([x for x in labels if x])
        self.tag = rng.choice(sorted(self.content[self.label]))
        self.value = value(rng)

    async def open(self):
        live = await Live.open(self.a, self.key, self.path)
        for (label, t), v in self.changes.items():
            await (await node_at(live, label)).call("set_tag", t, v)
        return live

    async def act(self, live):
        node = await node_at(live, self.label)
        if self.op == "save":
            await live.call("save_database")
        elif self.op == "exit":
            await live.close()
        elif self.op == "set":
            await node.call("set_tag", self.tag, self.value, cache=False)
        elif self.op in ("save_tag", "drop_tag"):
            await node.call("set_tag", self.tag, self.value)
            await node.call("save_tag", self.tag, drop_cache=self.op == "drop_tag")
        elif self.op == "pop":
            await node.call("pop_tag", self.tag)
        elif self.op == "del":
            del node.db[self.tag]
        elif self.op == "delmeta":
            await (await node_at(live, self.label[:-1])).call("delete_metatag", self.label[-1])
        elif self.op == "delete":
            await live.call("delete_database")

    def allowed(self, label, t):
        """Values the record may read as once the operation was cut short."""
        out = [self.content[label][t]] if t in self.content[label] else [GONE]
        if (label, t) in self.changes:
            out.append(self.changes[(label, t)])
        if (label, t) == (self.label, self.tag) and self.op in ("set", "save_tag", "drop_tag"):
            out.append(self.value)
        if self.op in ("pop", "del") and (label, t) == (self.label, self.tag):
            out.append(GONE)
        if self.op == "delete" or self.op == "delmeta" and label[: len(self.label)] == self.label:
            out.append(GONE)
        return out

    def final(self):
        """What is stored once the operation and a save have succeeded."""
        out = {(x, t): v for x in self.content for t, v in self.content[x].items()}
        out.update(self.changes)
        if self.op in ("set", "save_tag", "drop_tag"):
            out[(self.label, self.tag)] = self.value
        elif self.op in ("pop", "del"):
            out.pop((self.label, self.tag), None)
        return out

    def judge(self, fault_path, why, shape):
        """After reopening: right values or explicit errors, nothing else."""
        ctx, after = self.ctx, snapshot(self.path)
        hit = os.path.basename(fault_path)

        async def look():
            a = self.rng.random() < 0.5
            kept_ledgers = all(after.get(n) == self.snap[n] for n in self.ledgers)
            whole_ledgers = not self.a and hit not in self.ledgers and hit in self.records
            try:
                live = await Live.open(a, self.key, self.path)
            except Exception as e:
                ctx.check("reopens", not (kept_ledgers or whole_ledgers), lambda: f"{why}: does not open ({e!r}) although no ledger was being written", shape=shape)
                return
            ctx.check("reopens", True, shape=shape + ("ok",))
            for fn, (label, t) in self.records.items():
                allowed = self.allowed(label, t)
                try:
                    got, err = await (await node_at(live, label)).call("query_tag", t), None
                except Exception as e:
                    got, err = None, e
                if err is None:
                    ctx.check("right-or-error", any(v is not GONE and same(got, v) for v in allowed),
                              lambda: f"{why}: {label}{t} reads {show(got)}, stored were {show([v for v in allowed if v is not GONE])}",
                              shape=shape + (fn == hit, len(allowed)))
                if GONE in allowed:
                    continue
                kept = kept_ledgers and after.get(fn) == self.snap.get(fn)
                whole = whole_ledgers and fn != hit
                if kept or whole:
                    ctx.check("others-keep", err is None, lambda: f"{why}: {label}{t} was not being written but fails with {err!r}",
                              shape=shape + (kept, whole))

        ctx.run(look())


LIMITS = (None, None, 0, 1, 40, 200)


def points(case, most):
    """Fault points until the operation completes without meeting one."""
    k = case.rng.choice((1, 1, 2, 3))
    for _ in range(most):
        yield k, case.rng.choice(LIMITS)
        k += case.rng.choice((1, 1, 1, 2, 3))


@scenario(quick=140, thorough=1500, required=("reopens", "right-or-error", "others-keep"))
def crashes(ctx):
    """The process ends at a file operation, or in the middle of a write."""
    case = Case(ctx)
    for k, limit in points(case, 6 if ctx.tier == "quick" else 14):
        restore(case.path, case.snap)
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 99
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)

                async def body():
                    live = await case.open()
                    Fault(case.path, k, limit, True, w)
                    await case.act(live)

                asyncio.run(body())
                code = 0
            except BaseException:
                code = 98
            finally:
                os._exit(code)
        os.close(w)
        fault = b""
        while chunk := os.read(r, 4096):
            fault += chunk
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if not fault:
            ctx.check("completed", status == 0, f"{case.op} without a fault ended with status {status}", shape=(case.op, case.a))
            break
        case.judge(fault.decode(), f"{case.op} by {'async' if case.a else 'sync'} crashed at file operation {k}, limit {limit}", (case.op, case.a, k, limit))


@scenario(quick=140, thorough=1500, required=("error-reported", "right-or-error", "still-held", "retry"))
def errors(ctx):
    """A file operation fails; the object goes on being used."""
    case = Case(ctx)
    for k, limit in points(case, 6 if ctx.tier == "quick" else 14):
        restore(case.path, case.snap)
        why = f"{case.op} by {'async' if case.a else 'sync'} failed at file operation {k}, limit {limit}"
        shape = (case.op, case.a, k, limit)
        out = {}

        async def body():
            live = await case.open()
            fault = Fault(case.path, k, limit, False)
            try:
                await case.act(live)
                err = None
            except Exception as e:
                err = e
            finally:
                rest = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
                await asyncio.gather(*rest, return_exceptions=True)
                fault.off()
            out["fault"] = fault.path
            if fault.path is None:
                if err:
                    raise err
                return
            ctx.check("error-reported", err is not None, lambda: f"{why} without telling the caller", shape=shape)
            if case.op in ("delmeta", "delete"):
                return
            # what was not saved is still there
            final = case.final()
            for (label, t), v in final.items():
                if (label, t) in case.changes or (label, t) == (case.label, case.tag):
                    try:
                        got, e2 = await (await node_at(live, label)).call("query_tag", t), None
                    except Exception as e:
                        got, e2 = None, e
                    ctx.check("still-held", e2 is None and same(got, v), lambda: f"{why}: {label}{t} now reads {show(e2 or got)}, was set to {show(v)}",
                              shape=shape + (type(v).__name__,))
            out["live"] = live

        try:
            ctx.run(body())
        finally:
            env.files.off()
        if out["fault"] is None:
            break
        case.judge(out["fault"], why, shape)
        if "live" not in out:
            continue

        async def again():
            live = out["live"]
            try:
                if case.op in ("pop", "del"):
                    node = await node_at(live, case.label)
                    await node.call("pop_tag", case.tag, silent=True)
                else:
                    await case.act(live)
                await live.call("save_database")
            except Exception as e:
                ctx.check("retry", False, f"{why}: retrying raised {e!r}")
                return
            fresh = await Live.open(case.rng.random() < 0.5, case.key, case.path, preload=case.rng.random() < 0.5)
            final = case.final()
            for label in case.content:
                node = await node_at(fresh, label)
                want = {t: v for (x, t), v in final.items() if x == label}
                ctx.check("retry", node.db.tags == set(want), lambda: f"{why}: after retrying {label} lists {node.db.tags}, expected {set(want)}", shape=shape)
                for t, v in want.items():
                    try:
                        got = await node.call("query_tag", t)
                    except Exception as e:
                        got = e
                    ctx.check("retry", same(got, v), lambda: f"{why}: after retrying {label}{t} reads {show(got)}, expected {show(v)}", shape=shape + (len(label),))

        ctx.run(again())


@scenario(quick=24, thorough=200, required=("read-error",))
def failing_reads(ctx):
    """A read that fails is reported, and changes nothing."""
    rng = ctx.rng
    case = Case(ctx)

    async def body():
        for _ in range(6):
            live = await Live.open(case.a, case.key, case.path)
            label = rng.choice(sorted(case.content))
            tag = rng.choice(sorted(case.content[label]))
            node = await node_at(live, label)

            def handle(kind, path):
                if kind == "read":
                    raise OSError(errno.EIO, "injected fault", path)

            before = snapshot(case.path)
            env.files.root = str(case.path)
            for name, args, kw in (("query_tag", (tag,), {}), ("query_tag", (tag,), dict(silent=True)), ("pop_tag", (tag,), dict(silent=True)),
                                   ("load_tags", (), dict(silent=True)), ("load_database", (), dict(manifest=True, silent=True))):
                env.files.handler = handle
                try:
                    got, err = await node.call(name, *args, **kw), None
                except Exception as e:
                    got, err = None, e
                finally:
                    rest = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
                    await asyncio.gather(*rest, return_exceptions=True)
                    env.files.off()
                ctx.check("read-error", err is not None, lambda: f"{name}{kw} returned {show(got)} although the file could not be read", shape=(case.a, name, str(kw)))
            ctx.check("read-error", snapshot(case.path) == before, "a failed read changed files", shape=case.a)
            got = await node.call("query_tag", tag)
            ctx.check("read-error", same(got, case.content[label][tag]), lambda: f"after failed reads: {show(got)}")

    try:
        ctx.run(body())
    finally:
        env.files.off()
