From 963b2423731d0cedaefa042c86b3299fdb4942c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:06 +0000
Subject: [PATCH 01/15] fix: keep testing the timestamp of a stream until it
 passes

Iterating over a decryption stream before any data was buffered raised
IndexError after the stream had been marked as started. Every later
iteration then skipped the time-to-live test and released expired
plaintext. The stream is now marked as started only after the test passed.
---
 aiootp/ciphers/decipher_streams.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..bb48ad8 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -183,13 +183,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            await self._config.clock.atest_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        await self._config.clock.atest_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     async def _aremove_inner_header(self, queue: deque[bytes]) -> None:
         """
@@ -471,13 +467,9 @@ class DecipherStream(CipherStreamProperties):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            self._config.clock.test_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        self._config.clock.test_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     def _remove_inner_header(self, queue: deque[bytes]) -> None:
         """
-- 
2.43.0


From 3cef033d7801de51c473b85575513153d33764bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:06 +0000
Subject: [PATCH 02/15] fix: count elapsed time units exactly

The division went through a float, which holds fewer digits than a
nanosecond reading. Nanosecond clocks were off by up to 16 ns, and clocks
of larger units could report the next unit before it had begun.
---
 aiootp/asynchs/clocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index f6fd9a9..90520fe 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -66,7 +66,7 @@ class TimeUnit:
         supplied `epoch`. The `epoch` is always measured in nanoseconds
         since the UNIX epoch of 0.
         """
-        return int((time_ns() - epoch) / unit.as_ns)
+        return int((time_ns() - epoch) // unit.as_ns)
 
 
 class Nanoseconds(TimeUnit):
-- 
2.43.0


From acf3a6c666319353663d3c1d6a96a522e4d7debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:19 +0000
Subject: [PATCH 03/15] fix: release a guard when its wait or exit is cancelled

A task cancelled while waiting for its turn stayed in the queue, and one
cancelled while leaving never released its turn. Every later context on
the same deques then waited forever.
---
 aiootp/asynchs/guards/concurrency_guard.py | 30 ++++++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/aiootp/asynchs/guards/concurrency_guard.py b/aiootp/asynchs/guards/concurrency_guard.py
index 8ae45b8..a7d0b35 100644
--- a/aiootp/asynchs/guards/concurrency_guard.py
+++ b/aiootp/asynchs/guards/concurrency_guard.py
@@ -316,6 +316,16 @@ class ConcurrencyGuard(FrozenTypedSlots):
         """
         return self._use_tracker.has_faulted()
 
+    def _abandon_wait(self, /) -> None:
+        """
+        Withdraws the instance from its deques when its wait for a turn
+        is interrupted, so the contexts queued behind it can still run.
+        """
+        self._use_tracker.enter_fault_state()
+        if self.policy.is_exclusive():
+            self.policy.notify_off(self)
+        self.queue.remove(self)
+
     async def __aenter__(self, /) -> t.Self:
         """
         Prevents entering the context by asynchronously sleeping until
@@ -331,7 +341,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            await asleep(self.probe_delay)
+            try:
+                await asleep(self.probe_delay)
+            except BaseException:
+                self._abandon_wait()
+                raise
 
         return self
 
@@ -349,7 +363,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            sleep(self.probe_delay)
+            try:
+                sleep(self.probe_delay)
+            except BaseException:
+                self._abandon_wait()
+                raise
 
         return self
 
@@ -370,9 +388,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
 
         Otherwise, closes the context silently.
         """
-        await asleep()
-        self.policy.notify_off(self)
-        self.policy.get_off_queue(self)
+        try:
+            await asleep()
+        finally:
+            self.policy.notify_off(self)
+            self.policy.get_off_queue(self)
         return exc_type is None
 
     def __exit__(
-- 
2.43.0


From 48e7976c7415bee03aef778bc1abb0d21cc67820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:19 +0000
Subject: [PATCH 04/15] fix: drop the reference of a managed guard that never
 entered

A guard whose entry was cancelled, or which was refused because it had
been used before, left its target registered in the manager for good.
---
 aiootp/asynchs/guards/manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..c2ad820 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -267,10 +267,10 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await asleep()
 
         manager, target = self._refs.manager, self._refs.target
-        await manager._ainitialize_guard(target, self)
         try:
+            await manager._ainitialize_guard(target, self)
             return await super().__aenter__()
-        except Exception as error:
+        except BaseException as error:
             await manager._acleanup_references(target)
             raise error
 
@@ -285,10 +285,10 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         guard's place in the order queue.
         """
         manager, target = self._refs.manager, self._refs.target
-        manager._initialize_guard(target, self)
         try:
+            manager._initialize_guard(target, self)
             return super().__enter__()
-        except Exception as error:
+        except BaseException as error:
             manager._cleanup_references(target)
             raise error
 
-- 
2.43.0


From a2fa2ed819e96eedbdf52adfdacf443dfcdeeae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:23 +0000
Subject: [PATCH 05/15] fix: report an emptied database file as corrupt instead
 of as no value

An empty file was taken for a missing one, so querying a tag whose file
had been truncated to nothing returned None without any error.
---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..c7fd0ac 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -549,7 +549,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = await self.abytes_decrypt(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..afe8276 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -515,7 +515,7 @@ class Database(DatabaseProperties):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = self._query_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
-- 
2.43.0


From 5ee35e066623c65d7b1713c68d93f92817377112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:58 +0000
Subject: [PATCH 06/15] fix: delete only the record files of a deleted database

The ledger also holds two bookkeeping entries, "0" and "1". They were
treated as file names, so unrelated files with those names were removed.
---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index c7fd0ac..9559e24 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -744,7 +744,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         for metatag in self.metatags:
             sub_db = await self.ametatag(metatag, preload=False)
             await sub_db.adelete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
         await self._adelete_profile_tokens()
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index afe8276..fb2bd21 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -692,7 +692,7 @@ class Database(DatabaseProperties):
         """
         for metatag in self.metatags:
             self.metatag(metatag, preload=False).delete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
         self._delete_profile_tokens()
-- 
2.43.0


From 4a9065fc559c9589e64a4fc6332c3c5fde8e5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:05 +0000
Subject: [PATCH 07/15] fix: keep an unsaved value when writing its file fails

Saving a tag with drop_cache, which setting a tag with cache=False also
does, dropped the cached value even if the write raised. The only copy
was lost, so the save could not be retried.
---
 aiootp/databases/async_database.py | 5 ++---
 aiootp/databases/sync_database.py  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 9559e24..721fc36 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -831,9 +831,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             await self._asave_file(filename, admin=admin)
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        finally:
-            if drop_cache and hasattr(self._cache, filename):
-                delattr(self._cache, filename)
+        if drop_cache and hasattr(self._cache, filename):
+            delattr(self._cache, filename)
         return self
 
     async def asave_database(self) -> t.Self:
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index fb2bd21..df34e78 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -770,9 +770,8 @@ class Database(DatabaseProperties):
             self._save_file(filename, admin=admin)
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        finally:
-            if drop_cache and hasattr(self._cache, filename):
-                delattr(self._cache, filename)
+        if drop_cache and hasattr(self._cache, filename):
+            delattr(self._cache, filename)
         return self
 
     def save_database(self) -> t.Self:
-- 
2.43.0


From 90c1248d03ed5f082cf2ec653a71393e962d89e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:42 +0000
Subject: [PATCH 08/15] fix: let only one reader at a time open and close a
 salt file

Readers did not exclude each other, yet each one makes the file readable
and unreadable again. One reader finishing locked the file under the
others, which then failed with PermissionError.
---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..c47cf12 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -191,7 +191,7 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
-    async with guards.monitor(target):
+    async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
             async with aiofiles.open(path, "rb") as salt_file:
@@ -210,7 +210,7 @@ def read_salt_file(path: Path) -> bytes:
     `path`.
     """
     target = filename_to_index_key(str(path.absolute()))
-    with guards.monitor(target):
+    with guards.guard(target):
         try:
             path = Path(path)
             path.chmod(0o600)
-- 
2.43.0


From 239ca639d729f42f23f1de21a52abbb74527b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:42 +0000
Subject: [PATCH 09/15] fix: wait for the guard without blocking when deleting
 a salt file

The coroutine waited with the blocking guard. If another task of the same
event loop held the guard, the loop stopped and neither could go on.
---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index c47cf12..b26bce6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From e2f8190149ff1259a316fabf45e7f98ceaad806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:08 +0000
Subject: [PATCH 10/15] fix: never replace a salt that another task created
 meanwhile

Creating a salt path tested for the file and then wrote it. Two creators
could both find it missing, and the second replaced the salt the first
had already handed out. The file is now created exclusively.
---
 aiootp/_paths.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index b26bce6..7f2ea2c 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -25,7 +25,7 @@ from secrets import token_bytes
 
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
-from ._exceptions import Issue
+from ._exceptions import Ignore, Issue
 from .asynchs import aos, wrap_in_executor, MultiConcurrencyGaurd
 from .generics import Domains, ahash_bytes, hash_bytes
 from .generics.transform import axi_mix, xi_mix
@@ -163,7 +163,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        async with aiofiles.open(path, "wb") as salt_file:
+        async with aiofiles.open(path, "xb") as salt_file:
             await salt_file.write(salt)
         await aos.chmod(path, 0o000)
 
@@ -180,7 +180,8 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        path.write_bytes(salt)
+        with path.open("xb") as salt_file:
+            salt_file.write(salt)
         path.chmod(0o000)
 
 
@@ -301,16 +302,19 @@ async def AsyncSecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or await aos.mkdir(secure_path)
+    with Ignore(FileExistsError):
+        secure_path.is_dir() or await aos.mkdir(secure_path)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or await aos.mkdir(admin_path)
+        with Ignore(FileExistsError):
+            admin_path.is_dir() or await aos.mkdir(admin_path)
         salt_path = await afind_salt_file(admin_path, key=key)
     else:
         salt_path = await afind_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or await amake_salt_file(salt_path)
+    with Ignore(FileExistsError):
+        salt_path.is_file() or await amake_salt_file(salt_path)
     return salt_path
 
 
@@ -330,16 +334,19 @@ def SecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or secure_path.mkdir()
+    with Ignore(FileExistsError):
+        secure_path.is_dir() or secure_path.mkdir()
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or admin_path.mkdir()
+        with Ignore(FileExistsError):
+            admin_path.is_dir() or admin_path.mkdir()
         salt_path = find_salt_file(admin_path, key=key)
     else:
         salt_path = find_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or make_salt_file(salt_path)
+    with Ignore(FileExistsError):
+        salt_path.is_file() or make_salt_file(salt_path)
     return salt_path
 
 
-- 
2.43.0


From cbca77e9c1fe6298b0b3454cabdb3b9ce167c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:24 +0000
Subject: [PATCH 11/15] fix: give tasks that ask for one sub-database at once
 the same object

Each task built its own object while awaiting, and the last one replaced
the others. Records set through a replaced object were never saved.
---
 aiootp/databases/async_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 721fc36..81641ff 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -694,7 +694,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
                 metatag=True,
                 silent=silent,
             )
-            setattr(self, tag, sub_database)
+            if not hasattr(self, tag):
+                setattr(self, tag, sub_database)
         if tag not in self.metatags:
             self._manifest[self._METATAGS_LEDGERNAME].append(tag)
         return getattr(self, tag)
-- 
2.43.0


From 9b1b9b00fffc4e35e22c14626ef6ac39f3114d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:46 +0000
Subject: [PATCH 12/15] fix: keep tasks from tearing each other's database
 files

Saving, reading and removing one file of an async database could overlap
between tasks. A save could then fail on a value another task had just
dropped, restore a file that had just been popped, or be read half
written. Each file is now handled by one task at a time.
---
 aiootp/databases/async_database.py | 36 +++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 81641ff..508e4f5 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -25,7 +25,7 @@ from aiootp._constants import DEFAULT_AAD, DEFAULT_TTL, MIN_KEY_BYTES
 from aiootp._constants import BYTES_FLAG, BYTES_FLAG_SIZE
 from aiootp._constants import FILENAME_HASH_BYTES, SHAKE_128_BLOCKSIZE
 from aiootp._exceptions import DatabaseIssue, Issue, Ignore
-from aiootp._paths import adelete_salt_file
+from aiootp._paths import adelete_salt_file, guards
 from aiootp.asynchs import AsyncInit, asleep, gather, aos
 from aiootp.commons import Namespace
 from aiootp.randoms import atoken_bytes
@@ -528,7 +528,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         """
         try:
             path = self.path / filename
-            return await self.IO.aread(path=path)
+            async with guards.guard(path):
+                return await self.IO.aread(path=path)
         except FileNotFoundError as error:
             if not silent:
                 raise DatabaseIssue.file_not_found(filename) from error
@@ -575,7 +576,9 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         Deletes a file in the database directory by `filename`.
         """
         try:
-            await aos.remove(self.path / filename)
+            path = self.path / filename
+            async with guards.guard(path):
+                await aos.remove(path)
         except FileNotFoundError as error:
             if not silent:
                 raise error from None
@@ -776,8 +779,9 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         contains all database filenames & other metadata used to
         organize databases.
         """
-        manifest = await self._aencrypt_manifest()
-        await self._asave_manifest(manifest)
+        async with guards.guard(self._root_path):
+            manifest = await self._aencrypt_manifest()
+            await self._asave_manifest(manifest)
 
     async def _asave_file(
         self,
@@ -789,19 +793,25 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         Writes the cached value for a user-specified `filename` to the
         user filesystem.
         """
-        value = getattr(self._cache, filename)
-        if value.__class__ is bytes:
-            value = BYTES_FLAG + value  # Assure not reloaded as JSON
-        else:
-            value = json.dumps(value).encode()
-        ciphertext = await self.abytes_encrypt(value, filename=filename)
-        await self._asave_ciphertext(filename, ciphertext)
+        async with guards.guard(self.path / filename):
+            value = getattr(self._cache, filename)
+            if value.__class__ is bytes:
+                value = BYTES_FLAG + value  # Assure not reloaded as JSON
+            else:
+                value = json.dumps(value).encode()
+            ciphertext = await self.abytes_encrypt(value, filename=filename)
+            await self._asave_ciphertext(filename, ciphertext)
 
     async def _asave_tags(self) -> None:
         """
         Writes the database's user-defined tags to disk.
         """
-        save = self._asave_file
+
+        async def save(filename: str) -> None:
+            # Values may be dropped by other tasks before their turn
+            with Ignore(AttributeError):
+                await self._asave_file(filename)
+
         filenames = self._cache
         saves = (save(filename) for filename in filenames)
         await gather(*saves)
-- 
2.43.0


From dcb8a11deffceae7f95746145a2e6acd93912504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:07 +0000
Subject: [PATCH 13/15] fix: refuse packed data with cut or oversized item
 lengths

A length field cut off by the end of the data was read as a smaller number,
so a truncated packing could unpack to altered items. A length of 2**63 or
more failed with OverflowError instead of the canonical encoding error.
---
 aiootp/generics/canon.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 0dd0904..81e682d 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -265,9 +265,13 @@ async def adecode_items(
     the number of bytes that were used to encode item lengths.
     """
     async for _ in arange(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
-        item = read(item_size)
-        if len(item) != item_size:
+        size_field = read(int_bytes)
+        item_size = int.from_bytes(size_field, BIG)
+        try:
+            item = read(item_size)
+        except OverflowError as error:
+            raise CanonicalIssue.item_length_mismatch() from error
+        if len(size_field) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
@@ -286,9 +290,13 @@ def decode_items(
     the number of bytes that were used to encode item lengths.
     """
     for _ in range(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
-        item = read(item_size)
-        if len(item) != item_size:
+        size_field = read(int_bytes)
+        item_size = int.from_bytes(size_field, BIG)
+        try:
+            item = read(item_size)
+        except OverflowError as error:
+            raise CanonicalIssue.item_length_mismatch() from error
+        if len(size_field) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
-- 
2.43.0


From a6c3fc987ecc6481e63c1cb19c3bc56b39ca96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:07 +0000
Subject: [PATCH 14/15] fix: refuse packed data that declares a blocksize of
 zero

It failed with ZeroDivisionError instead of the canonical encoding error.
---
 aiootp/generics/canon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 81e682d..36078c0 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -315,7 +315,7 @@ def test_canonical_padding(
         pad = items.popleft()
     except IndexError as error:
         raise CanonicalIssue.missing_metadata_items() from error
-    if total_size % blocksize:
+    if not blocksize or total_size % blocksize:
         raise CanonicalIssue.data_length_blocksize_mismatch()
     elif len(pad) != 1 or not set(pad).issuperset(read()):
         raise CanonicalIssue.invalid_padding()
-- 
2.43.0


From dcd3d6497997a9ad46495ee7305198ff907b7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:32 +0000
Subject: [PATCH 15/15] fix: keep threads from being given the same identifier

---
 aiootp/randoms/ids/raw_guid.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aiootp/randoms/ids/raw_guid.py b/aiootp/randoms/ids/raw_guid.py
index 6c261f7..86243a4 100644
--- a/aiootp/randoms/ids/raw_guid.py
+++ b/aiootp/randoms/ids/raw_guid.py
@@ -18,6 +18,8 @@ A type for creating unblinded unique bytes values.
 __all__ = ["RawGUID"]
 
 
+from threading import Lock
+
 from aiootp._typing import Typing as t
 from aiootp._constants import BIG
 from aiootp._exceptions import Issue
@@ -27,6 +29,9 @@ from aiootp.asynchs import asleep
 from .raw_guid_config import RawGUIDConfig, RawGUIDContainer
 
 
+_tick_lock = Lock()
+
+
 class RawGUID(FrozenInstance):
     """
     Creates a unique bytes value by combining a timestamp, random bytes,
@@ -107,12 +112,12 @@ class RawGUID(FrozenInstance):
         Creates an unblinded, raw GUID bytes value.
         """
         config = self.config
-        return (
-            config.clock.make_timestamp(size=config.TIMESTAMP_BYTES)
-            + config.prf(config.PRF_BYTES)
-            + self.node_id
-            + self._incremented_tick()
-        )
+        with _tick_lock:  # Threads can't be given the same tick
+            timestamp = config.clock.make_timestamp(
+                size=config.TIMESTAMP_BYTES
+            )
+            tick = self._incremented_tick()
+        return timestamp + config.prf(config.PRF_BYTES) + self.node_id + tick
 
     async def aread(self, guid: bytes) -> RawGUIDContainer:
         """
-- 
2.43.0

