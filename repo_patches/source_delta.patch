From 169fc42b503fbde6f5b659f114a7fc4765cae9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 01/34] fix: force full writes while a revision is distrusted

contains_distrusted compared revisions with a trust state.
---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..b282a9b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From ed3c103ba005dea1f20540c64b58a8747453ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 02/34] fix: ranges starting at the date of the oldest revision

The index 0.0 was taken for 'not a date', and a debug print polluted
the output of commands.
---
 src/backy/repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b282a9b..48ea657 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -454,9 +454,10 @@ class Repository(object):
             spec, list
         ), "can only index a single revision specifier"
         if isinstance(spec, str):
-            return self.index_by_date(spec) or self.history.index(
-                self.find(spec)
-            )
+            index = self.index_by_date(spec)
+            if index is None:
+                index = self.history.index(self.find(spec))
+            return index
         else:
             return self.history.index(spec)
 
@@ -478,7 +479,6 @@ class Repository(object):
                 0,
                 len(self.history),
             )
-            print(spec, L, r)
             assert 0 <= r - L <= 1, (
                 "can not index with date if multiple revision have the same "
                 "timestamp"
-- 
2.43.0


From a26fbe700b0be8c8ee581508bbe1e187dd08827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 03/34] fix: file source gc deleted the metadata of every
 revision

---
 src/backy/file/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..745dbdf 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -73,9 +73,9 @@ class FileSource(Source[FileRestoreArgs]):
 
     def gc(self):
         files = set(self.repository.path.glob("*.rev"))
+        self.repository.scan()
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            r.info_filename for r in self.repository.get_history()
         )
         for file in files - expected_files:
             file.unlink()
-- 
2.43.0


From fbd7069311abff0be8cd579f61184db5047d63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 04/34] fix: do not clean up revisions that were completed
 meanwhile

---
 src/backy/repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 48ea657..ff6bce9 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -295,6 +295,8 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # Revisions may have been completed since we looked at them last.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From 78170283712a2171c18063dada11cc68c8241af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 05/34] fix: gc must not purge chunks of revisions it has not
 seen

---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..ffce018 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -255,6 +255,8 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".purge", mode="exclusive")
     def gc(self) -> None:
         self.log.debug("purge")
+        # Revisions may have been completed before we got the lock.
+        self.repository.scan()
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
-- 
2.43.0


From e5b91502936c194203eb4bbcea2aa5df30323d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 06/34] fix: do not accept the output of failed rbd exports

---
 src/backy/rbd/rbd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index f53cee1..728a35b 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -148,7 +148,9 @@ class RBDClient(object):
             yield RBDDiffV1(proc.stdout)
         finally:
             proc.stdout.close()
-            proc.wait()
+            returncode = proc.wait()
+        if isinstance(returncode, int) and returncode:
+            raise subprocess.CalledProcessError(returncode, proc.args)
 
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
@@ -176,7 +178,9 @@ class RBDClient(object):
             yield proc.stdout
         finally:
             proc.stdout.close()
-            proc.wait()
+            returncode = proc.wait()
+        if isinstance(returncode, int) and returncode:
+            raise subprocess.CalledProcessError(returncode, proc.args)
 
 
 def unpack_from(fmt, f):
-- 
2.43.0


From 9b2547c5d14e50d3507cd8945bf2b9a410b3ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 07/34] fix: unmap the device if it cannot be opened

---
 src/backy/rbd/rbd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index 728a35b..3feb357 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -155,11 +155,10 @@ class RBDClient(object):
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
         mapped = self.map(image, readonly=True)
-        source = open(mapped["device"], "rb", buffering=CHUNK_SIZE)
         try:
-            yield source
+            with open(mapped["device"], "rb", buffering=CHUNK_SIZE) as source:
+                yield source
         finally:
-            source.close()
             self.unmap(mapped["device"])
 
     @contextlib.contextmanager
-- 
2.43.0


From 07fb2dc0bf4c28ad5df5e40bea3a18359776a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 08/34] fix: deleting problem reports

---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From c7a3aca1cec7853ca766a91b163a561e0e5b4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 09/34] fix: report failed and killed gc and verify workers

---
 src/backy/cli/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index f2f3408..ac74ecd 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -99,7 +99,7 @@ class Command(object):
                         r = await r
                     if not isinstance(r, int):
                         r = 0
-                    ret = max(ret, r)
+                    ret = max(ret, abs(r))  # killed workers: negative
             elif (
                 "repos" in params
                 and params["repos"].annotation == List[Repository]
@@ -280,7 +280,7 @@ class Command(object):
         # TODO support multiple repos
         ret = 0
         for r in self.source.repository.find_revisions(revision):
-            ret = max(ret, self.source.verify(r))
+            ret = max(ret, abs(self.source.verify(r)))
         return ret
 
     def rm(self, repo: Repository, revision: str) -> None:
@@ -311,7 +311,7 @@ class Command(object):
         )
         return int(not success)
 
-    def gc(self, repo: Repository, expire: bool, local: bool) -> None:
+    def gc(self, repo: Repository, expire: bool, local: bool) -> int:
         if expire and not local:
             assert False  # request pull from daemon
             # XXX needs to update from remote API peers first (pull)
@@ -320,7 +320,7 @@ class Command(object):
             repo.expire()
         if expire and not local:
             assert False  # request push from daemon
-        self.source.gc()
+        return self.source.gc()
 
     def reports_list(self, repo: Repository):
         for id in repo.report_ids:
-- 
2.43.0


From 5d782561bea439df34f332a83d2cd54a00f0040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 10/34] fix: tolerate revisions vanishing while scanning

---
 src/backy/repository.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index ff6bce9..203c30d 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -214,7 +214,11 @@ class Repository(object):
             if f.is_symlink():
                 # Ignore links that are used to create readable pointers
                 continue
-            r = Revision.load(f, self, self.log)
+            try:
+                r = Revision.load(f, self, self.log)
+            except FileNotFoundError:
+                # Removed by another process since we listed the directory.
+                continue
             if r.uuid not in self._by_uuid:
                 self._by_uuid[r.uuid] = r
                 self.history.append(r)
-- 
2.43.0


From 6d52e0ae26d35b90e513a30b43a626ecbfc2318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 11/34] fix: unexpected contents in Consul's snapshot area
 broke backups

---
 src/backy/rbd/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index ffce018..6f2b9ae 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -472,11 +472,12 @@ class CephRBD:
                         snapshot_key=key,
                     )
                     del consul.kv[key]
-                if s["vm"] != self.vm:
+                    continue
+                if not isinstance(s, dict) or s.get("vm") != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
                 # encapsulated here.
-                if s["snapshot"].startswith("backy-"):
+                if str(s.get("snapshot")).startswith("backy-"):
                     self.log.info(
                         "create-snapshot-removing-request",
                         vm=s["vm"],
-- 
2.43.0


From 6fc234e00ea72f86a08c0dc15b4af0f6d8a51367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 12/34] fix: flush data before marking a revision complete

---
 src/backy/rbd/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 6f2b9ae..5626c82 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -166,6 +166,8 @@ class RBDSource(Source[RBDRestoreArgs]):
             revision.remove()
         else:
             self.log.info("verification-ok", revision_uuid=revision.uuid)
+            # The data must be durable before we claim to be complete.
+            os.sync()
             revision.stats["duration"] = time.time() - start
             revision.write_info()
             revision.readonly()
-- 
2.43.0


From 5400a68c78daf64cfefc1e5b93c7de89ddbdba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 13/34] fix: flush file backups before marking them complete

---
 src/backy/file/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 745dbdf..c1e1a38 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -1,3 +1,4 @@
+import os
 import shutil
 import sys
 import time
@@ -63,6 +64,9 @@ class FileSource(Source[FileRestoreArgs]):
         assert not backup.exists()
         start = time.time()
         shutil.copy(self.filename, backup)
+        # The data must be durable before we claim to be complete.
+        with backup.open("rb") as f:
+            os.fsync(f)
         revision.stats["duration"] = time.time() - start
         revision.write_info()
         revision.readonly()
-- 
2.43.0


From 454523fbeceffe8462b98b7d4d9a034da32f1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 14/34] fix: rm and distrust must not act on outdated revisions

---
 src/backy/repository.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 203c30d..1d519eb 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -310,7 +310,7 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def rm(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._current(revs):
             r.remove()
 
     @locked(target=".backup", mode="exclusive")
@@ -353,11 +353,17 @@ class Repository(object):
 
     @locked(target=".backup", mode="exclusive")
     def distrust(self, revs: Iterable[Revision]) -> None:
-        for r in revs:
+        for r in self._current(revs):
             assert not r.server
             r.distrust()
             r.write_info()
 
+    def _current(self, revs: Iterable[Revision]) -> List[Revision]:
+        """The present state of revisions that were selected before we got
+        the lock, without those that were removed in the meantime."""
+        self.scan()
+        return [self._by_uuid[r.uuid] for r in revs if r.uuid in self._by_uuid]
+
     ######################
     # Looking up revisions
 
-- 
2.43.0


From be52b5e323ac3ffa60c44386b7cfd1c4ce08a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 15/34] fix: verify must not run while backups or metadata
 changes do

It deletes chunks, collects garbage and rewrites the metadata, so it
destroyed what a concurrent backup had just stored and undid concurrent
tag changes.
---
 src/backy/rbd/__init__.py | 4 ++++
 src/backy/repository.py   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 5626c82..e3f2852 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -190,9 +190,13 @@ class RBDSource(Source[RBDRestoreArgs]):
                 break
         return verified
 
+    @locked(target=".backup", mode="exclusive")
     @locked(target=".purge", mode="shared")
     @report_status
     def verify(self, revision: Revision):
+        # Revisions may have changed before we got the lock.
+        self.repository.scan()
+        revision = self.repository.find_by_uuid(revision.uuid)
         log = self.log.bind(revision_uuid=revision.uuid)
         log.info("verify-start")
         verified_chunks: Set[Hash] = set()
diff --git a/src/backy/repository.py b/src/backy/repository.py
index 1d519eb..b98548a 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -146,6 +146,8 @@ class Repository(object):
         def wrap(f):
             def locked_function(self, *args, skip_lock=False, **kw):
                 if skip_lock:
+                    if getattr(f, "is_locked", False):
+                        kw["skip_lock"] = True
                     return f(self, *args, **kw)
                 if repo_attr:
                     repo = getattr(self, repo_attr)
@@ -157,6 +159,7 @@ class Repository(object):
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
             )
+            locked_function.is_locked = True  # type: ignore
             return locked_function
 
         return wrap
-- 
2.43.0


From 0f973ee500487a08f1130b317add944b4825f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 16/34] fix: backups must not be based on outdated knowledge
 about revisions

---
 src/backy/rbd/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index e3f2852..1a506c0 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -130,6 +130,11 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".backup", mode="exclusive")
     @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision) -> bool:
+        # Revisions (and thus the possible parents) may have changed before
+        # we got the lock.
+        self.repository.scan()
+        revision = self.repository.find_by_uuid(revision.uuid)
+
         self.repository.path.joinpath("last").unlink(missing_ok=True)
         self.repository.path.joinpath("last.rev").unlink(missing_ok=True)
 
-- 
2.43.0


From c3a3c33ec060fe6f8d9619fac5585308208e77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 17/34] fix: hold the lock while pulling and pushing metadata

The lock was released before the coroutine had started.
---
 src/backy/daemon/scheduler.py |  2 ++
 src/backy/repository.py       | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..6ff2159 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -358,6 +358,7 @@ class Job(object):
 
     @locked(target=".backup", mode="exclusive")
     async def push_metadata(self) -> int:
+        self.repository.scan()
         grouped = defaultdict(list)
         for r in self.repository.clean_history:
             if r.pending_changes:
@@ -439,6 +440,7 @@ class Job(object):
                     r.remove(force=True)
             return False
 
+        self.repository.scan()
         self.log.info("pull-start")
         async with ClientManager(
             self.daemon.peers, self.taskid, self.log
diff --git a/src/backy/repository.py b/src/backy/repository.py
index b98548a..2fee359 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -156,6 +157,19 @@ class Repository(object):
                 with repo.lock(target, mode, f.__name__):
                     return f(self, *args, **kw)
 
+            async def locked_coroutine_function(
+                self, *args, skip_lock=False, **kw
+            ):
+                if skip_lock:
+                    return await f(self, *args, **kw)
+                repo = getattr(self, repo_attr) if repo_attr else self
+                with repo.lock(target, mode, f.__name__):
+                    return await f(self, *args, **kw)
+
+            if inspect.iscoroutinefunction(f):
+                # Calling it only creates the coroutine.
+                locked_function = locked_coroutine_function  # type: ignore
+
             locked_function.__name__ = "locked({}, {})".format(
                 f.__qualname__, target
             )
-- 
2.43.0


From c8acd4fe52d20045405e968a67bd4a520d2b236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 18/34] fix: peers not knowing a job must not hide its leader

---
 src/backy/daemon/scheduler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 6ff2159..b93457e 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -2,6 +2,7 @@ import asyncio
 import datetime
 import hashlib
 import random
+import re
 import subprocess
 from collections import defaultdict
 from datetime import timedelta
@@ -109,7 +110,10 @@ class Job(object):
         try:
             api = ClientManager(self.daemon.peers, self.taskid, self.log)
             statuses = await asyncio.gather(
-                *[api[server].fetch_status(f"^{self.name}$") for server in api],
+                *[
+                    api[server].fetch_status(f"^{re.escape(self.name)}$")
+                    for server in api
+                ],
                 return_exceptions=True,
             )
             leader = None
@@ -127,6 +131,9 @@ class Job(object):
                         exc_style="short",
                     )
                     continue
+                if not status:
+                    log.info("job-unknown")
+                    continue
                 num_remote_revs = status[0]["local_revs"]
                 log.info("duplicate-job", remote_revs=num_remote_revs)
                 if num_remote_revs > leader_revs:
@@ -164,7 +171,11 @@ class Job(object):
                     log.info("run-immediately-triggered")
                     return False
                 try:
-                    res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
+                    res = (
+                        await api[leader].fetch_status(
+                            f"^{re.escape(self.name)}$"
+                        )
+                    )[0]
                 except ClientError:
                     log.warning("leader-failed", exc_style="short")
                     return False
-- 
2.43.0


From 881dcfc5e35bfb6c305a1c260cab9a241e5cedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 19/34] fix: API missed reloads while it was being reconfigured

---
 src/backy/daemon/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 34ba879..c102009 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -247,9 +247,10 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
-                await api.reconfigure(
-                    self.api_tokens, self.api_addrs, self.api_port
-                )
+                config = self.api_tokens, self.api_addrs, self.api_port
+                await api.reconfigure(*config)
+                if config != (self.api_tokens, self.api_addrs, self.api_port):
+                    continue  # reloaded in the meantime
                 self.reload_api.clear()
                 await self.reload_api.wait()
         except Exception:
-- 
2.43.0


From 995bcc648a429c3109973bf407d6dd946c37a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 20/34] fix: unavailable API addresses must not end API
 reconfiguration

The API kept running with the old tokens and ignored later reloads.
---
 src/backy/daemon/api.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/backy/daemon/api.py b/src/backy/daemon/api.py
index f20afcd..6eaf842 100644
--- a/src/backy/daemon/api.py
+++ b/src/backy/daemon/api.py
@@ -83,10 +83,13 @@ class BackyAPI:
         for bind_addr in bind_addrs:
             if bind_addr in self.sites:
                 continue
-            self.sites[bind_addr] = site = TCPSite(
-                self.runner, bind_addr[0], bind_addr[1]
-            )
-            await site.start()
+            site = TCPSite(self.runner, bind_addr[0], bind_addr[1])
+            try:
+                await site.start()
+            except OSError:
+                self.log.exception("site-failed", site=site.name)
+                continue
+            self.sites[bind_addr] = site
             self.log.info("added-site", site=site.name)
         for bind_addr, site in list(self.sites.items()):
             if bind_addr in bind_addrs:
-- 
2.43.0


From 0833fce5050c922650a35a433d4862716f910def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 21/34] fix: requested purges were never carried out

The job had no source to run the collection with.
---
 src/backy/daemon/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index c102009..848134c 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -23,6 +23,7 @@ from backy.revision import filter_manual_tags
 from backy.schedule import Schedule
 from backy.utils import has_recent_changes, is_dir_no_symlink
 
+from ..source import AsyncCmdLineSource
 from .api import BackyAPI
 from .scheduler import Job
 
@@ -323,7 +324,9 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    await Job(self, candidate.name, self.log).run_gc()
+                    job = Job(self, candidate.name, self.log)
+                    job.source = AsyncCmdLineSource.load(job.path, job.log)
+                    await job.run_gc()
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0


From 7c70693fe3f70801c700ab6a1622c39602a5581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 22/34] fix: an unreadable repository must not end the job's
 loop forever

---
 src/backy/daemon/scheduler.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index b93457e..2a61eb9 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -216,11 +216,19 @@ class Job(object):
             self.repository.log = self.repository.log.bind(
                 job_name=self.name, sub_taskid=self.taskid
             )
-            self.repository.connect()
+            try:
+                self.repository.connect()
 
-            next_time, next_tags = self.schedule.next(
-                backy.utils.now(), self.spread, self.repository
-            )
+                next_time, next_tags = self.schedule.next(
+                    backy.utils.now(), self.spread, self.repository
+                )
+            except Exception:
+                # Do not let an unreadable repository end this loop. Trying
+                # to make a backup (of everything) either works or gets us
+                # the usual backoff.
+                self.log.exception("schedule-failed")
+                next_time = backy.utils.now()
+                next_tags = set(self.schedule.schedule)
 
             if self.errors:
                 # We're retrying - do not pay attention to the schedule but
-- 
2.43.0


From 47fb657bb4882e4a2dbfde85d0018ca0ec1ba811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 23/34] fix: apply changed schedules to the jobs using them

The stored configuration kept the old schedule and the job kept waiting
for its old time.
---
 src/backy/daemon/__init__.py  | 6 +++++-
 src/backy/daemon/scheduler.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 848134c..3b6dd3f 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -126,7 +126,11 @@ class BackyDaemon(object):
                 self.jobs[name] = Job(self, name, self.log)
                 self.log.debug("added-job", job_name=name)
             job = self.jobs[name]
-            if config != job.last_config:
+            if (
+                config != job.last_config
+                or self.schedules[config["schedule"]].config
+                != job.last_schedule
+            ):
                 self.log.info("changed-job", job_name=name)
                 job.stop()
                 job.configure(config)
diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 2a61eb9..71c40f0 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -41,6 +41,7 @@ class Job(object):
     path: Path
     logfile: Path
     last_config: Optional[dict] = None
+    last_schedule: Optional[dict] = None
     daemon: "BackyDaemon"
     run_immediately: asyncio.Event
     errors: int = 0
@@ -66,6 +67,7 @@ class Job(object):
         self.source = AsyncCmdLineSource(repository, config["source"], self.log)
         self.source.store()
         self.last_config = config
+        self.last_schedule = self.schedule.config
 
     @property
     def spread(self) -> int:
-- 
2.43.0


From 08b403b801e9df1cf286a84b41db954a703dcabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 24/34] fix: status counted outdated problem reports

---
 src/backy/daemon/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 3b6dd3f..7c3e474 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -348,6 +348,7 @@ class BackyDaemon(object):
             if filter_re and not filter_re.search(job.name):
                 continue
             job.repository.scan()
+            job.repository.scan_reports()
             manual_tags = set()
             unsynced_revs = 0
             history = job.repository.clean_history
-- 
2.43.0


From cdaab061b697e7807fc8eb840648830feeb4fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 25/34] fix: a peer that does not answer in time must not fail
 the whole run

---
 src/backy/daemon/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 71c40f0..a3e419d 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -425,7 +425,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -440,7 +440,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-purge-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-purge-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -490,7 +490,7 @@ class Job(object):
                 log.warning("pull-client-error", exc_style="short")
                 error = True
             remote_revs = []
-        except ClientConnectionError:
+        except (ClientConnectionError, asyncio.TimeoutError):
             log.warning("pull-connection-error", exc_style="short")
             return True
         except ClientError:
-- 
2.43.0


From 2a196acc5cb17317318ddbe380faf24f16347572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 26/34] fix: a purge that fails must not keep others from being
 carried out

A marked directory without a readable config ended every round.
---
 src/backy/daemon/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 7c3e474..9bf565b 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -328,9 +328,13 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    job = Job(self, candidate.name, self.log)
-                    job.source = AsyncCmdLineSource.load(job.path, job.log)
-                    await job.run_gc()
+                    try:
+                        job = Job(self, candidate.name, self.log)
+                        job.source = AsyncCmdLineSource.load(job.path, job.log)
+                        await job.run_gc()
+                    except Exception:
+                        # Do not keep the others from getting purged.
+                        self.log.exception("purge-pending", job=candidate.name)
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0


From a687090ba45ebc4ce14eebcf7679d13a468efc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 27/34] fix: a directory that cannot be scanned must not keep
 others from being removed

Everything found after it stayed forever.
---
 src/backy/daemon/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 9bf565b..7fac767 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -302,11 +302,15 @@ class BackyDaemon(object):
                         continue
                     self.log.debug("purge-candidate", candidate=candidate.path)
                     reference_time = time.time() - 3 * 31 * 24 * 60 * 60
-                    if not await has_recent_changes(
-                        candidate.path, reference_time
-                    ):
-                        self.log.info("purging", candidate=candidate.path)
-                        await aioshutil.rmtree(candidate)
+                    try:
+                        if not await has_recent_changes(
+                            candidate.path, reference_time
+                        ):
+                            self.log.info("purging", candidate=candidate.path)
+                            await aioshutil.rmtree(candidate)
+                    except Exception:
+                        # Do not keep the others from getting purged.
+                        self.log.exception("purge", candidate=candidate.path)
                 self.log.info("purge-finished")
             except Exception:
                 self.log.exception("purge")
-- 
2.43.0


From 452ff4d1aa19bd404d9328077ba2463cb91109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 28/34] fix: a failed backup must not cost the snapshot of the
 last valid revision

---
 src/backy/rbd/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 1a506c0..a623319 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -157,6 +157,9 @@ class RBDSource(Source[RBDRestoreArgs]):
                     verified = source.verify(
                         file, report=self.repository.add_report
                     )
+                if not verified:
+                    # Keep the snapshot of the most recent valid revision.
+                    revision.remove()
         except BackendException:
             self.log.exception("ceph-error-distrust-all")
             verified = False
@@ -502,6 +505,9 @@ class CephRBD:
         return "{}/{}".format(self.pool, self.image)
 
     def __exit__(self, exc_type=None, exc_val=None, exc_tb=None):
+        if exc_type is not None:
+            # Keep the snapshot of the most recent valid revision.
+            self.revision.remove()
         self._delete_old_snapshots()
 
     def get_parent(self) -> Optional[Revision]:
-- 
2.43.0


From e6793dd9b461949139bee705330e77cf20373700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:33 +0000
Subject: [PATCH 29/34] fix: remove stray snapshots whose names repeat the
 prefix

---
 src/backy/rbd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index a623319..d7901b2 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -584,7 +584,7 @@ class CephRBD:
             if not snapshot["name"].startswith("backy-"):
                 # Do not touch non-backy snapshots
                 continue
-            uuid = snapshot["name"].replace("backy-", "")
+            uuid = snapshot["name"][len("backy-") :]
             if uuid != keep_snapshot_revision:
                 time.sleep(3)  # avoid race condition while unmapping
                 self.log.info(
-- 
2.43.0


From 7d59e54de6dfdbb4858ce37ba3790d89a3ef57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:30 +0000
Subject: [PATCH 30/34] fix: a diff ending within a record of bogus length kept
 the backup busy forever

---
 src/backy/rbd/rbd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index 3feb357..8c18d15 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -271,6 +271,8 @@ class RBDDiffV1(object):
             while remaining:
                 read = min(4 * 1024**2, remaining)
                 chunk = self.f.read(read)
+                if not chunk:
+                    raise ValueError("Unexpected end of stream")
                 remaining = remaining - read
                 yield chunk
             self._streaming = False
-- 
2.43.0


From ec32cb2abc8f04c97cfde324615c25b2aa481df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 31/34] fix: tag changes were lost and revisions could vanish
 during a backup of a file

The file source now holds the backup lock and works with the stored
revision as the rbd source does.
---
 src/backy/file/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index c1e1a38..07da004 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -59,7 +59,17 @@ class FileSource(Source[FileRestoreArgs]):
     def _path_for_revision(self, revision: Revision) -> Path:
         return self.repository.path / revision.uuid
 
+    @Repository.locked(
+        target=".backup", mode="exclusive", repo_attr="repository"
+    )
     def backup(self, revision: Revision):
+        # The revision may have changed before we got the lock.
+        self.repository.scan()
+        try:
+            revision = self.repository.find_by_uuid(revision.uuid)
+        except IndexError:
+            pass  # not stored yet
+
         backup = self._path_for_revision(revision)
         assert not backup.exists()
         start = time.time()
-- 
2.43.0


From 669316709d8e0ab62cc5cbd853e456391cd1cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 32/34] fix: requests in Consul that are not text or JSON made
 every backup fail

---
 src/backy/rbd/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index d7901b2..f87bcc4 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -479,7 +479,7 @@ class CephRBD:
                     continue
                 try:
                     s = json.loads(s)
-                except json.decoder.JSONDecodeError:
+                except (TypeError, ValueError, RecursionError):
                     # Clean up garbage.
                     self.log.warning(
                         "create-snapshot-removing-garbage-request",
-- 
2.43.0


From 2e463cdad1b61e921419b51a0bce4a1013c70c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 33/34] fix: a snapshot appearing just when the local one is
 made failed the backup

---
 src/backy/rbd/__init__.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index f87bcc4..977e727 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -457,13 +457,17 @@ class CephRBD:
                 self.snapshot_timeout, interval=2, raise_on_timeout=True
             )
             while timeout.tick():
-                for snapshot in self.rbd.snap_ls(self._image_name):
-                    if snapshot["name"] == name:
-                        return
+                if self._has_snapshot(name):
+                    return
         except TimeOutError:
             # The VM might have been shut down. Try doing a regular Ceph
             # snapshot locally.
-            self.rbd.snap_create(self._image_name + "@" + name)
+            try:
+                self.rbd.snap_create(self._image_name + "@" + name)
+            except subprocess.CalledProcessError:
+                # It may have appeared in the last moment.
+                if not self._has_snapshot(name):
+                    raise
         except KeyboardInterrupt:
             raise
         finally:
@@ -500,6 +504,12 @@ class CephRBD:
                     )
                     del consul.kv[key]
 
+    def _has_snapshot(self, name: str) -> bool:
+        return any(
+            snapshot["name"] == name
+            for snapshot in self.rbd.snap_ls(self._image_name)
+        )
+
     @property
     def _image_name(self) -> str:
         return "{}/{}".format(self.pool, self.image)
-- 
2.43.0


From 137894badefeb6f7901a0bbb9c402e55bb3ed617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 34/34] fix: an empty stored source configuration could never
 be replaced

The comparison happened before the data was flushed, so it only ever matched
an empty file, which then kept the daemon from starting.
---
 src/backy/source.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/backy/source.py b/src/backy/source.py
index 07fd9b8..77ac013 100644
--- a/src/backy/source.py
+++ b/src/backy/source.py
@@ -1,7 +1,6 @@
 import argparse
 import asyncio
 import errno
-import filecmp
 import subprocess
 from abc import ABC, abstractmethod
 from argparse import ArgumentParser, _ActionsContainer
@@ -321,8 +320,6 @@ class CmdLineSource:
         with SafeFile(config, encoding="utf-8") as f:
             f.open_new("wb")
             yaml.safe_dump(self.to_config(), f)
-            if config.exists() and filecmp.cmp(config, f.name):
-                raise ValueError("not changed")
 
     def create_source(
         self, sourcetype: Optional[type[SourceType]] = None
-- 
2.43.0

