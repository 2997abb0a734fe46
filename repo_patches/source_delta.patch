From 1d762cb8891eed174f73ebe3a79d4d342fca28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 01/96] fix: SlidingLock lets two processes into the critical
 section

precedence by slot number is decided by looking for other processes' lock
blocks, which may not have been placed yet. gate entry with one block that is
created exclusively.
---
 dustgoggles/codex/implements.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..b776942 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -158,6 +158,7 @@ class SlidingLock:
     def __init__(self, name, debug=False):
         self.name = name
         self.lock = None
+        self.gate = None
         self.count = open_block(f"{self.name}_count", 5)
         self.number = 0
         self.floor = None
@@ -205,6 +206,15 @@ class SlidingLock:
                 # # # # #
                 self.wait()
                 return False
+        # precedence is only advisory: a process with a lower number may not
+        # have placed its lock yet. exclusive creation of the gate is atomic.
+        try:
+            self.gate = SharedMemory(
+                f"{self.name}_gate", size=1, create=True
+            )
+        except FileExistsError:
+            self.wait()
+            return False
         if getattr(self, "debug") is True:
             log(f"{here()},{self.number},taking precedence")
         return True
@@ -237,7 +247,7 @@ class SlidingLock:
             self.count.buf[:] = self.number.to_bytes(5, "little")
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},set floor to {self.number}")
-        for thing in ("lock", "marker"):
+        for thing in ("lock", "marker", "gate"):
             block = getattr(self, thing)
             if block is None:
                 continue
@@ -249,7 +259,7 @@ class SlidingLock:
         self.acquired = False
 
     def close(self):
-        for obj in self.lock, self.count, self.marker:
+        for obj in self.lock, self.count, self.marker, self.gate:
             try:
                 delete_block(obj.name)
             except (FileNotFoundError, TypeError, AttributeError):
-- 
2.43.0


From a6dcee47a2e834776e2f1be0014e21c6e540ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 02/96] fix: open_block fails when another process creates or
 deletes the block

---
 dustgoggles/codex/memutilz.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..5784f3d 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -1,5 +1,6 @@
 from multiprocessing.shared_memory import SharedMemory
 import sys
+import time
 
 
 def open_block(address, size, create=True, overwrite=False):
@@ -8,15 +9,24 @@ def open_block(address, size, create=True, overwrite=False):
     `create` is True, create a new block if none exists. if `overwrite` is
     True, also unlink/overwrite any existing block at that address.
     """
-    try:
-        return SharedMemory(address, size=size, create=create)
-    except FileExistsError:
-        if overwrite is False:
-            return SharedMemory(address)
-        old_block = SharedMemory(address)
-        old_block.unlink()
-        old_block.close()
-        return SharedMemory(address, True, size)
+    while True:
+        try:
+            return SharedMemory(address, size=size, create=create)
+        except FileExistsError:
+            pass
+        # other processes may delete the block, or not have sized it yet
+        try:
+            old_block = SharedMemory(address)
+            if overwrite is False:
+                return old_block
+            old_block.unlink()
+            old_block.close()
+        except FileNotFoundError:
+            continue
+        except ValueError as error:
+            if "cannot mmap an empty file" not in str(error):
+                raise
+            time.sleep(0)
 
 
 def fetch_block_bytes(address: str) -> bytes:
-- 
2.43.0


From b729cdafb7776fe6d46b3dcb8e710ea90a8bd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 03/96] fix: SlidingLock keeps its blocks when a wait is
 interrupted

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index b776942..c419e14 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -173,7 +173,7 @@ class SlidingLock:
         try:
             self._renumber()
             self.acquire()
-        except Exception as ex:
+        except BaseException as ex:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},crashing out: {ex}")
             self.release()
-- 
2.43.0


From e0736ab01a9303ff06768683164e9e6fbf649aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 04/96] fix: MetaTagIndex deletion waits for a lock it already
 holds

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c419e14..6755920 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -593,7 +593,7 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            found_at = super()._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 348b751970d4b63b77e0324b64a9a8b5931cea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 05/96] fix: delete_block ignores missing_ok

---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index 5784f3d..7aa3d01 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -59,7 +59,7 @@ def delete_block(address: str, missing_ok=False):
         block = SharedMemory(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From 04c799adde150cd43e82ff1de57423655248484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 06/96] fix: Notepad lookup of missing keys and of None values

a missing key raised FileNotFoundError, also from get() with a default; a
stored None raised KeyError.
---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 6755920..7987712 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -757,10 +757,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not apparently assigned")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From ff7320d2a004b68294c7b7469ef703dcf7c91653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 07/96] fix: Notepad indexes keys whose values could not be
 stored

---
 dustgoggles/codex/implements.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 7987712..f125601 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -771,9 +771,17 @@ class Notepad(AbstractNotepad):
     def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
+        address = self.address(key)
+        # this also refuses unusable addresses before they are indexed
+        is_new = not exists_block(address)
         try:
             self.index.add(key, meta, exists_ok=exists_ok)
-            self.memorize(value, self.address(key), exists_ok)
+            try:
+                self.memorize(value, address, exists_ok)
+            except Exception:
+                if is_new and not exists_block(address):
+                    self.index.remove(key)
+                raise
             if self.debug is True:
                 log(f"{here()},,set key={key} to {value}")
         except FileExistsError:
-- 
2.43.0


From 08d24972f6fd8eeac7c405a1ac402a8f1b166a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 08/96] fix: a key that cannot be indexed leaves a broken slot
 in TagIndex

---
 dustgoggles/codex/implements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index f125601..06e3188 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -429,8 +429,6 @@ class TagIndex(ShareableIndex):
                 return found_at
             raise FileExistsError
         self.update_length()
-        new_length_bytes = (self.length + 1).to_bytes(8, "little")
-        self.memory.buf[:] = new_length_bytes
         keybytes = str(key).encode()
         keyblock = open_block(
             self.key_address(self.length),
@@ -442,6 +440,8 @@ class TagIndex(ShareableIndex):
         position_bytes = self.length.to_bytes(8, "little")
         nameblock = open_block(self.hash_address(key), create=True, size=8)
         nameblock.buf[:] = position_bytes
+        new_length_bytes = (self.length + 1).to_bytes(8, "little")
+        self.memory.buf[:] = new_length_bytes
         if getattr(self, "debug") is True:
             log(f"{here()},,set {self.length} to {key}")
         return self.length
-- 
2.43.0


From 4b27097df6e5cccdcfe0bf2ab730644abe4087a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 09/96] fix: indexes are read while other processes change them

lists of keys, values and items, and lookups of metadata, were made without
taking the index's lock: they could hold unwritten keys, miss keys that were
never deleted, or fail.
---
 dustgoggles/codex/implements.py | 37 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 06e3188..8179eb0 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -399,9 +399,9 @@ class TagIndex(ShareableIndex):
             return self.update_length()
 
     def update(self):
-        self.cache = []
-        for ix, key in self._enumerate_keys():
-            self.cache.append(key)
+        self.update_length()  # fails here, before locking, if closed
+        with self.lock_class(self.name, self.debug):
+            self.cache = [key for _, key in self._enumerate_keys()]
         return self.cache
 
     def check(self, target) -> Optional[int]:
@@ -558,15 +558,17 @@ class MetaTagIndex(TagIndex):
             in zip((get_keys, get_values), (self._load_key, self._load_value))
         ]
         load = juxt(loaders)
-        self.update_length()
-        for ix in range(self.length):
-            key, val = load(ix)
-            output = [ix]
-            if get_keys is True:
-                output.append(key)
-            if get_values is True:
-                output.append(val)
-            yield tuple(output)
+        self.update_length()  # fails here, before locking, if closed
+        with self.lock_class(self.name, self.debug):
+            self.update_length()
+            for ix in range(self.length):
+                key, val = load(ix)
+                output = [ix]
+                if get_keys is True:
+                    output.append(key)
+                if get_values is True:
+                    output.append(val)
+                yield tuple(output)
 
     def keys(self):
         return [key for _, key in self._enumerate(True)]
@@ -585,11 +587,12 @@ class MetaTagIndex(TagIndex):
             return writehead
 
     def __getitem__(self, key):
-        found_at = self.check(key)
-        if found_at is None:
-            raise KeyError(f"{key} not found in index.")
-        valblock = SharedMemory(self.val_address(found_at))
-        return valblock.buf.tobytes()
+        with self.lock_class(self.name, self.debug):
+            found_at = self.check(key)
+            if found_at is None:
+                raise KeyError(f"{key} not found in index.")
+            valblock = SharedMemory(self.val_address(found_at))
+            return valblock.buf.tobytes()
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-- 
2.43.0


From f4d271102ad5f2c363591d5bf8d45987c962d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 10/96] fix: closing an index leaves the blocks of its
 remaining keys

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 8179eb0..c615d51 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -494,6 +494,8 @@ class TagIndex(ShareableIndex):
             return self._delitem(target)
 
     def close(self):
+        for key in self.update():
+            self.remove(key)
         self.memory.unlink()
         self.memory.close()
         if exists_block(f"{self.name}_count"):
-- 
2.43.0


From 1722bc5121eddf8e8fb7b02012cb41a476cee704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 11/96] fix: GridPaper.clear raises AttributeError

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c615d51..b9c0778 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -944,7 +944,7 @@ class GridPaper(AbstractNotepad):
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
+        for key in self.update_index():
             del self[key]
 
     def __str__(self):
-- 
2.43.0


From 37f92a0956b25ef4fb5c5b72edfe473d6e1ee5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 12/96] fix: deleting keys with the reserved prefix deletes
 index blocks

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index b9c0778..b930c1f 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -799,8 +799,8 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
@@ -923,8 +923,8 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-- 
2.43.0


From 0d342c9d868e7addee67732ea27c70b8bdeccbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 13/96] fix: numpy mnemonic confuses exists_ok with creating a
 block

with exists_ok=False, new addresses were refused and existing ones were
overwritten. also store 0-d, empty, and larger replacement arrays.
---
 dustgoggles/codex/codecs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..6ae9495 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,11 +133,17 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        size = max(array.size * array.itemsize, 1)  # blocks can't be empty
+        if exists_ok is False:
+            block = SharedMemory(address, create=True, size=size)
+        else:
+            block = open_block(address, size)
+            if block.size < size:
+                block = open_block(address, size, overwrite=True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
             "dtype": array.dtype.str,
-- 
2.43.0


From 7e498434f52e59c2cae3e26aeae9819173930b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 14/96] fix: Sticky.stick fails if the new value has another
 size

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index b930c1f..46c437f 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1010,7 +1010,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From b8a802f2b5cc3f66317c35aa0f8112c79fa11c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 15/96] fix: deactivated resource tracker fails for other
 resource types

---
 dustgoggles/codex/memutilz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index 7aa3d01..c3f4547 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -94,14 +94,14 @@ def deactivate_shared_memory_resource_tracker():
     def fix_register(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.register(self, name, rtype)
+        return resource_tracker._resource_tracker.register(name, rtype)
     resource_tracker.register = fix_register
 
     # noinspection PyUnresolvedReferences
     def fix_unregister(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.unregister(self, name, rtype)
+        return resource_tracker._resource_tracker.unregister(name, rtype)
     resource_tracker.unregister = fix_unregister
 
     if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
-- 
2.43.0


From 1e2824bb5ff0f409437f7d1068ea3af74af1ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 16/96] fix: structured arrays lose their fields in shared
 memory

---
 dustgoggles/codex/codecs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 6ae9495..9ee70e1 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -144,9 +144,12 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
             array.shape, dtype=array.dtype, buffer=block.buf
         )
         shared_array[...] = array
+        dtype = array.dtype.str
+        if array.dtype.names is not None:
+            dtype = repr(np.lib.format.dtype_to_descr(array.dtype))
         metadata = {
             "name": block.name,
-            "dtype": array.dtype.str,
+            "dtype": dtype,
             "shape": array.shape,
             "size": array.size * array.itemsize
         }
@@ -161,8 +164,11 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         block = SharedMemory(name=metadata["name"])
         if fetch is False:
             return block
+        dtype = metadata["dtype"]
+        if dtype.startswith("["):
+            dtype = np.lib.format.descr_to_dtype(ast.literal_eval(dtype))
         array = np.ndarray(
-            metadata['shape'], dtype=metadata['dtype'], buffer=block.buf
+            metadata['shape'], dtype=dtype, buffer=block.buf
         )
         if copy is True:
             return array.copy(), None
-- 
2.43.0


From 107ac7007fe996f7fed545837e1a82081a33c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 17/96] fix: object arrays are stored in shared memory as
 pointers

---
 dustgoggles/codex/codecs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 9ee70e1..c7383af 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,6 +133,8 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
+        if array.dtype.hasobject:
+            raise TypeError("can't store arrays of Python objects")
         size = max(array.size * array.itemsize, 1)  # blocks can't be empty
         if exists_ok is False:
             block = SharedMemory(address, create=True, size=size)
-- 
2.43.0


From 51371dc512a3b4004c2a6e76787ca7923fb86049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 18/96] fix: dig_for searches depth-first, not breadth-first

---
 dustgoggles/structures.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..98e6a7c 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -229,18 +229,16 @@ def dig_for(mapping, predicate, mtypes):
     """
     return the first item, using a breadth-first search, matching ref
     """
-    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
-    if level_items:
-        return level_items
-    if not nests:
-        return None
-    dug, iternests = None, iter(nests)
-    while dug is None:
-        try:
-            dug = dig_for(next(iternests), predicate, mtypes)
-        except StopIteration:
-            return None
-    return dug
+    level = [mapping]
+    while level:
+        deeper = []
+        for nest in level:
+            items, nests = _evaluate_diglevel(nest, predicate, mtypes)
+            if items:
+                return items
+            deeper += nests
+        level = deeper
+    return None
 
 
 def dig_wrapper(mapping, ref, match, base_pred, element_ix, mtypes):
-- 
2.43.0


From decd8af5f387ccb6c84d508f00a22e78d4e2d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 19/96] fix: get_from raises TypeError if a key that is no
 string is missing

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 98e6a7c..39fc2c2 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -154,7 +154,7 @@ def get_from(collection, keys, default=None):
     for key in keys:
         try:
             level = getitemattr(level, key)
-        except AttributeError:
+        except (AttributeError, TypeError):
             return default
     return level
 
-- 
2.43.0


From d7a1a37ac1b044025fdc842a4532932e2d7d68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 20/96] fix: rmerge ignores mtypes below the first level

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 39fc2c2..4f95b27 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -304,7 +304,7 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]])
+            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
         else:
             output[kv[0]] = map2[kv[0]]
     return output
-- 
2.43.0


From 00e42edf5e105427ad08e4fa411e98c7b8fbf0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 21/96] fix: MaybePool stays in chunk mode for later maps

---
 dustgoggles/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 4f95b27..ba1fb69 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -374,13 +374,13 @@ class MaybePool:
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
             rec['kwargs'] = rec.get('kwargs', {})
-        if (as_chunks is False) or (self.pool is None):
+        self.chunked = not ((as_chunks is False) or (self.pool is None))
+        if self.chunked is False:
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
             }
         else:
-            self.chunked = True
             chunks = divide(self.threads, argrecs)
             self.results = {
                 f"chunk_{i}": self.apply(_chunkwrap, (func, chunk))
-- 
2.43.0


From d6ef22e8f01ffe3a722f244d735c3cac16be18fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 22/96] fix: one failing call loses the results of its whole
 chunk

---
 dustgoggles/structures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index ba1fb69..b020fc6 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -356,7 +356,7 @@ class MaybeResult:
 
 def _chunkwrap(func, argrecs):
     return {
-        rec['key']: func(*rec['args'], **rec['kwargs'])
+        rec['key']: MaybeResult(func, rec['args'], rec['kwargs']).value
         for rec in argrecs
     }
 
@@ -409,7 +409,11 @@ class MaybePool:
         for k, v in self.results.items():
             try:
                 if self.chunked is True:
-                    output |= v.get()
+                    chunk = v.get()
+                    output |= chunk
+                    excs = [r for r in chunk.values() if isinstance(r, Exception)]
+                    if raise_exc and excs:
+                        raise excs[0]
                 else:
                     output[k] = v.get()
             except KeyboardInterrupt:
-- 
2.43.0


From 751fbac464c801f296a0679d989dadc3ed63cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 23/96] fix: a log that cannot be serialized damages the dumped
 file

---
 dustgoggles/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index 4c4074b..c38420e 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -82,6 +82,8 @@ class Tracker(TrivialTracker):
         self.log["write_timestamp"] = dt.datetime.now().isoformat()
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
+        # serialize before opening: a failure must not damage the file
+        log = json.dumps(self.log, indent=2).encode('utf-8')
         mode = "rb+" if self.outpath.exists() else "wb"
         with self.outpath.open(mode) as stream:
             if mode == "rb+":
@@ -89,7 +91,7 @@ class Tracker(TrivialTracker):
                 stream.write(b",\n")
             else:
                 stream.write(b"[")
-            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))
+            stream.write(log)
             stream.write(b"]")
 
     _paused = False
-- 
2.43.0


From 907dbff25174179b27682a6cfaefc122ac7083ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 24/96] fix: replacing a step of a tracked Composition tracks
 it twice

---
 dustgoggles/composition.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 1bea027..10d691b 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -67,8 +67,10 @@ class Composition:
         """
         if name is None:
             name = len(self.steps) + 1
+        is_new = name not in self.steps.keys()
         self.steps[name] = step
-        self._add_track_send(name)
+        if is_new:
+            self._add_track_send(name)
 
     def _add_track_sends(self):
         for k in self.steps.keys():
@@ -79,7 +81,7 @@ class Composition:
             return
         self.add_send(
             step_name,
-            pipe=_track_factory(self.tracker, step_name, self.steps[step_name])
+            pipe=_track_factory(self, step_name)
         )
 
     def reindex(self):
@@ -288,9 +290,9 @@ class Composition:
         return self.execute(*args, **kwargs)
 
 
-def _track_factory(tracker, step, func):
+def _track_factory(composition, step):
 
     def track(_):
-        return tracker.track(func, step=step)
+        return composition.tracker.track(composition.steps[step], step=step)
 
     return track
-- 
2.43.0


From 4d44a7fa59613d94e7c57bf05fccbd211260754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 25/96] fix: Dynamic.from_function forgets the function's
 source and globals

---
 dustgoggles/dynamic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..7cddd32 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -175,17 +175,17 @@ class Dynamic:
         #  fancy getattr overrides
         dynamic = super().__new__(cls)
         try:
-            dynamic.source = getsource(func)
+            source = getsource(func)
         except TypeError:  # it's some kind of weirdo callable
             # noinspection PyUnresolvedReferences
             func = func.__call__
-            dynamic.source = getsource(func)
+            source = getsource(func)
         dynamic.code = func.__code__
         dynamic.func = func
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
-        dynamic.globals_ = func.__globals__
         dynamic.__init__(*init_args, **init_kwargs)
+        dynamic.source, dynamic.globals_ = source, func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 0a7d6a315dc449c6fecd37ab81c605a5bec5ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 26/96] fix: a Dynamic that was never loaded can't be unloaded

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 7cddd32..4e2251a 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -134,7 +134,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From f4322caf025d554705f333d815a2c6f69443c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 27/96] fix: a Dynamic that is already compiled can't be loaded

---
 dustgoggles/dynamic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 4e2251a..edbc0df 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -112,7 +112,8 @@ class Dynamic:
     def load(self, reload=False):
         if (reload is False) and (self.func is not None):
             raise AlreadyLoadedError("self.func already loaded")
-        self.compile_source(reload)
+        if (reload is True) or (self.code is None):
+            self.compile_source(reload)
         self.define(reload)
 
     def compile_source(self, recompile=True):
-- 
2.43.0


From 70d01e2840f91b03b52b58f68ba18a08adecd452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 28/96] fix: unequal duplicate columns are dropped

check_and_drop_duplicate_columns compared each column with itself.
---
 dustgoggles/pivot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 382d9cd..7a7ee86 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -50,9 +50,11 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     if len(extra_columns) == 0:
         return dataframe
     for column in extra_columns:
-        test_equality = dataframe.loc[:, column] == dataframe.loc[:, column]
-        if not test_equality.all(axis=None):
-            raise ValueError
+        columns = dataframe.loc[:, column]
+        for i in range(1, columns.shape[1]):
+            one, two = columns.iloc[:, 0], columns.iloc[:, i]
+            if not ((one == two) | (one.isna() & two.isna())).all():
+                raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
-- 
2.43.0


From 91b86682fd8bebe003efd26ae45c907da3f25ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 29/96] fix: empty integer arrays can't be downcast

---
 dustgoggles/pivot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 7a7ee86..be1e3eb 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -169,6 +169,8 @@ def _downcast_int_array(
     library: Literal["numpy", "pandas"],
     name: Optional[str] = None
 ):
+    if arr.size == 0:
+        return _maybeseries(arr, arr.dtype, library, name, 0, 0)
     amin, amax = arr.min(), arr.max()
     sign = 'u' if amin >= 0 else ''
     for depth in (8, 16, 32, 64):
-- 
2.43.0


From 56eed4a6de2364827b3b8ba24cf28464ba0b9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 30/96] fix: downcast returns a bare array for zeros with
 nonfinite values

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index be1e3eb..44bff25 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -213,7 +213,7 @@ def downcast(
     if arr_nzero.size == 0 and not has_nonfinite:
         return _maybeseries(arr, np.uint8, library, name, 0, 0)
     elif arr_nzero.size == 0 and use_nillable_int is False:
-        return arr.astype(np.float16)
+        return _maybeseries(arr, np.float16, library, name, 0, 0)
     elif arr_nzero.size == 0:
         return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
     amin, amax = arr_finite.min(), arr_finite.max()
-- 
2.43.0


From 372502ba1ab6a7beec8aef1d3dfc7f342e9b2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 31/96] fix: downcast fails for floats just out of an integer
 type's range

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 44bff25..9d1aaef 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -151,6 +151,9 @@ def check_in_dtype_bounds(
     amin: Union[int, float], amax: Union[int, float], dt: np.dtype
 ):
     info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)
+    if dt.kind in 'iu':
+        # python compares floats and large integers exactly; numpy rounds
+        amin, amax = itemize_numpy(amin), itemize_numpy(amax)
     try:
         return bool(amin >= info.min and amax <= info.max)
     except TypeError:  # just too big!
-- 
2.43.0


From 8264d190d79d6ecb595c190906edf21aaa44b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 32/96] fix: downcast to nillable integers fails

---
 dustgoggles/pivot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 9d1aaef..22e48fe 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -161,7 +161,10 @@ def check_in_dtype_bounds(
 
 
 def _maybeseries(arr, dtype, library, name, aerr, rerr):
-    arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
+    if isinstance(dtype, pd.api.extensions.ExtensionDtype):
+        arr = pd.array(np.where(np.isnan(arr), None, arr), dtype=dtype)
+    else:
+        arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
     if library == 'pandas':
         arr = pd.Series(arr, name=name)
     return {'recast': arr, 'aerr': aerr, 'rerr': rerr}
@@ -211,6 +214,8 @@ def downcast(
         # there's no meaningful way to recast in this case
         return _maybeseries(arr, arr.dtype, library, name, 0, 0)
     has_nonfinite = arr_finite.size < arr.size
+    # nillable integers can express missing values, but not infinities
+    use_nillable_int = use_nillable_int and not np.isinf(arr).any()
     nzero_mask = arr_finite != 0
     arr_nzero = arr_finite[nzero_mask]
     if arr_nzero.size == 0 and not has_nonfinite:
@@ -246,7 +251,7 @@ def downcast(
         if kind in ('uint', 'int') and has_nonfinite:
             # we've already checked to make sure we're returning this as pandas
             dtype = getattr(
-                pd, f"{kind[0].upper()}{kind[1:].capitalize}{number}Dtype"
+                pd, f"{kind.replace('u', 'U').replace('i', 'I')}{number}Dtype"
             )()
         return _maybeseries(arr, dtype, library, name, aerr, rerr)
     raise TypeError("Unusual error in recasting this array.")
-- 
2.43.0


From 15724966c4621f93c890f485bd6f46866cb5faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 33/96] fix: downcast_df misaligns dataframes that have another
 index

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 22e48fe..fc6756f 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -270,9 +270,9 @@ def downcast_df(
         if not is_numeric_dtype(col.dtype):
             cast_series.append(col if copy_all is False else col.copy())
             continue
-        cast_series.append(
-            downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
-        )
+        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
+        recast.index = col.index
+        cast_series.append(recast)
     if reassemble is True:
         return pd.concat(cast_series, axis=1)
     return cast_series
-- 
2.43.0


From 5cda3e6298b370c0eab7f681690e61ac3e8970c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 34/96] fix: extract_constants returns wrong constants or fails

a constant whose first value is missing became NaN; constants of rows were
those of the first constant row, by column; duplicate labels were marked
together; columns of lists and frames without rows or constants failed.
---
 dustgoggles/pivot.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index fc6756f..996832b 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -58,6 +58,15 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
+def _is_constant(series: pd.Series) -> bool:
+    if len(series) == 0:
+        return True
+    if series.dtype == object:
+        # cells may hold sequences, which pandas would compare elementwise
+        return all(value == series.iloc[0] for value in series)
+    return bool((series == series.iloc[0]).all())
+
+
 def extract_constants(
     df: pd.DataFrame,
     to_dict=True,
@@ -77,27 +86,16 @@ def extract_constants(
     """
     if how not in ("rows", "columns"):
         raise ValueError(f"unknown how {how}")
-    if how == "rows":
-        constant_indices = pd.Series(False, df.columns)
-    else:
-        constant_indices = pd.Series(False, df.index)
-    try:
-        method = "iterrows" if how == "columns" else "items"
-        for ix, series in getattr(df, method)():
-            series = series if dropna is False else series.dropna()
-            if (len(series) == 0) or (series == series.iloc[0]).all():
-                constant_indices.loc[ix] = True
-    except TypeError:
-        # TODO: still necessary?
-        if how == "columns":
-            raise NotImplementedError("nested fields not supported columnwise")
-        for c in df.columns:
-            if isinstance(df[c].iloc[0], list):
-                test_series = df[c].map(tuple)
-            else:
-                test_series = df[c]
-            if (test_series.iloc[0] == test_series).all():
-                constant_indices.loc[c] = True
+    constant_indices, constant_values = [], {}
+    method = "iterrows" if how == "columns" else "items"
+    for ix, series in getattr(df, method)():
+        series = series if dropna is False else series.dropna()
+        constant_indices.append(_is_constant(series))
+        if constant_indices[-1]:
+            constant_values[ix] = (
+                np.nan if len(series) == 0 else itemize_numpy(series.iloc[0])
+            )
+    constant_indices = np.array(constant_indices, dtype=bool)
     if how == "rows":
         constants = df.loc[:, constant_indices]
         variables = df.loc[:, ~constant_indices]
@@ -105,7 +103,7 @@ def extract_constants(
         constants = df.loc[constant_indices]
         variables = df.loc[~constant_indices]
     if to_dict:
-        constants = constants.iloc[0].to_dict()
+        constants = constant_values
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From 761a8a8e60c531543645bc14e528b4ee42fa4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 35/96] fix: read_between ignores columns; sort_chunked passes
 verbose as columns

---
 dustgoggles/mosaic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..0c3671f 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -116,7 +116,8 @@ def read_between(
             less_than, pac.greater_equal(less_than[field], bounds[0])
         )
         bound_groups.append(more_than)
-    return pa.concat_tables(bound_groups)
+    table = pa.concat_tables(bound_groups)
+    return table if columns is None else table.select(columns)
 
 
 def sort_chunked(
@@ -156,7 +157,7 @@ def sort_chunked(
     try:
         for window in windows:
             window_table = read_between(
-                sort_reader, sort_column, window, relevant_records, verbose
+                sort_reader, sort_column, window, relevant_records, verbose=verbose
             )
             if window_table is None:
                 continue
-- 
2.43.0


From 4da0a6aa6b1d22a0766b85dfed5450d2bbd92093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 36/96] fix: sort_chunked misorders or loses rows

descending sorts were only descending within each chunk; the rows with the
greatest value were lost if it was too large for adding 1 to change it;
n_chunks=1 failed, and other values made one chunk too few.
---
 dustgoggles/mosaic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 0c3671f..6f3f399 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -152,8 +152,12 @@ def sort_chunked(
     )
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
-    windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    windows = list(windowed(np.linspace(min_value, max_value, n_chunks + 1), 2))
+    # windows are half-open; the last one must hold the maximum
+    last = windows[-1][1]
+    windows[-1] = (windows[-1][0], max(last + 1, np.nextafter(last, np.inf)))
+    if direction == "descending":
+        windows.reverse()
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From 72abc4036864d2d59a215d98146e4aa2629afaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 37/96] fix: sort_chunked drops rows whose value is null or NaN

---
 dustgoggles/mosaic.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 6f3f399..4f51154 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -27,7 +27,7 @@ def parquet_metadata_records(parquet_fn):
     ):
         record = meta.row_group(group_ix).column(col_ix).to_dict()
         if "statistics" in record.keys():
-            record |= record.pop("statistics")
+            record |= record.pop("statistics") or {}
         records.append(record | {"row_group": group_ix, "col_ix": col_ix})
     return records
 
@@ -143,15 +143,17 @@ def sort_chunked(
     sort_reader = parquet.ParquetFile(input_file)
     meta_records = parquet_metadata_records(input_file)
     relevant_records = [
-        rec for rec in meta_records if rec["path_in_schema"] == sort_column
+        rec
+        for rec in meta_records
+        if rec["path_in_schema"] == sort_column and rec.get("min") is not None
     ]
     if schema is None:
         schema = sort_reader.read_row_group(0).schema
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
-    max_value = max([rec["max"] for rec in relevant_records])
-    min_value = min([rec["min"] for rec in relevant_records])
+    max_value = max([rec["max"] for rec in relevant_records], default=0)
+    min_value = min([rec["min"] for rec in relevant_records], default=0)
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks + 1), 2))
     # windows are half-open; the last one must hold the maximum
     last = windows[-1][1]
@@ -174,5 +176,15 @@ def sort_chunked(
                 window_table = inline_processor(window_table)
             sort_writer.write_table(window_table, **write_kwargs)
             del window_table
+        # rows with no sortable value are in no window; they go last
+        for group_ix in range(sort_reader.num_row_groups):
+            group = sort_reader.read_row_group(group_ix)
+            missing = pac.is_null(group[sort_column], nan_is_null=True)
+            group = group.filter(missing)
+            if len(group) == 0:
+                continue
+            if inline_processor is not None:
+                group = inline_processor(group)
+            sort_writer.write_table(group, **write_kwargs)
     finally:
         sort_writer.close()
-- 
2.43.0


From e9442c0698a2d8f27c2cbedf75849db87d0e30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 38/96] fix: bytes keys are indexed under another name than
 they are listed

---
 dustgoggles/codex/implements.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 46c437f..bde93c6 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -382,9 +382,7 @@ class TagIndex(ShareableIndex):
         self.length = None
 
     def hash_address(self, key):
-        if not isinstance(key, bytes):
-            key = str(key).encode()
-        namehash = HASHER(key).hexdigest()
+        namehash = HASHER(str(key).encode()).hexdigest()
         return f"{self.name}_name_{namehash}"
 
     def key_address(self, index_ix):
@@ -466,7 +464,7 @@ class TagIndex(ShareableIndex):
                 overwrite=True
             )
             moved_block.buf[:] = lastkey
-            nameblock = SharedMemory(self.hash_address(lastkey))
+            nameblock = SharedMemory(self.hash_address(lastkey.decode()))
             nameblock.buf[:] = found_at.to_bytes(8, "little")
             lastblock.unlink()
             lastblock.close()
-- 
2.43.0


From 8c2f2ccddc12ace4dfe18116cf74bc03fb96c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 39/96] fix: listing or closing an index that was closed
 elsewhere leaves a lock block

---
 dustgoggles/codex/implements.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index bde93c6..9b0a28d 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -397,7 +397,11 @@ class TagIndex(ShareableIndex):
             return self.update_length()
 
     def update(self):
-        self.update_length()  # fails here, before locking, if closed
+        # don't lock, and so create blocks for, an index that has been closed
+        self.update_length()
+        if self.length == 0:
+            self.cache = []
+            return self.cache
         with self.lock_class(self.name, self.debug):
             self.cache = [key for _, key in self._enumerate_keys()]
         return self.cache
@@ -558,7 +562,9 @@ class MetaTagIndex(TagIndex):
             in zip((get_keys, get_values), (self._load_key, self._load_value))
         ]
         load = juxt(loaders)
-        self.update_length()  # fails here, before locking, if closed
+        self.update_length()
+        if self.length == 0:
+            return
         with self.lock_class(self.name, self.debug):
             self.update_length()
             for ix in range(self.length):
-- 
2.43.0


From 81eea4acc27e92f6c8e51f3d5c7f4f8aebfe99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 40/96] fix: literal codec encodes strings without quotes

---
 dustgoggles/codex/codecs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index c7383af..33c2f67 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -40,7 +40,8 @@ def ast_codec_factory():
     Python literals than using JSON serialization, but is much slower.
     """
     def encode(value: Any) -> bytes:
-        return str(value).encode()
+        # str() of a string is not its literal
+        return (repr if isinstance(value, str) else str)(value).encode()
 
     def decode(blob: bytes) -> Any:
         return ast.literal_eval(blob.decode())
-- 
2.43.0


From f522f1af0cab296fd38228292349a5b3c45f81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 41/96] fix: MetaTagIndex keeps a new key whose metadata can't
 be stored

---
 dustgoggles/codex/implements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 9b0a28d..0ef352f 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -587,9 +587,15 @@ class MetaTagIndex(TagIndex):
 
     def add(self, key, value=None, exists_ok=True):
         with self.lock_class(self.name, self.debug):
+            is_new = self.check(key) is None
             writehead = super()._add(key, exists_ok)
             if value is not None:
-                self.memorize(value, self.val_address(writehead))
+                try:
+                    self.memorize(value, self.val_address(writehead))
+                except Exception:
+                    if is_new:
+                        super()._delitem(key)
+                    raise
             return writehead
 
     def __getitem__(self, key):
-- 
2.43.0


From fe6240387b982672e143c5ff02c20f534b531e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 42/96] fix: GridPaper leaves a block behind for a key its
 index refuses

---
 dustgoggles/codex/implements.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0ef352f..31b5dd4 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -900,6 +900,7 @@ class GridPaper(AbstractNotepad):
     ):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved namespace.")
+        is_new = not exists_block(self.address(key))
         try:
             metadata, block = self.memorize(
                 value, self.address(key), exists_ok, keep_open
@@ -911,7 +912,12 @@ class GridPaper(AbstractNotepad):
                 f"{key} already exists in this object's cache. pass "
                 f"exists_ok=True to overwrite it."
             )
-        self.index.add(key, metadata)
+        try:
+            self.index.add(key, metadata)
+        except Exception:
+            if is_new:
+                delete_block(self.address(key), True)
+            raise
 
     def _add_index_key(self, key):
         raise TypeError
-- 
2.43.0


From caf3002f332f3a98afbbd4e831315dde932da8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 43/96] fix: a Composition bypasses steps that merely hold a
 func

---
 dustgoggles/composition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 10d691b..86d6c9c 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -223,7 +223,9 @@ class Composition:
         else:
             args = keyfilter(lambda k: isinstance(k, int), insert)
             kwargs = keyfilter(lambda k: isinstance(k, str), insert)
-        if "func" in dir(step):
+        # other callables that hold a "func" (Dynamics, decorators, etc.) are
+        # not partials, and may do more than just call it
+        if {"func", "args", "keywords"}.issubset(dir(step)):
             return self._call_partial_step(state, step, args, kwargs)
         if len(args) == 0:
             return step(state, **kwargs)
-- 
2.43.0


From 760a6313fbbb84ab562b8d97b2b7af78e3b761b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 44/96] fix: inserts and sends can't be added to steps that
 were given none

---
 dustgoggles/composition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 86d6c9c..15a6ac8 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -156,9 +156,9 @@ class Composition:
         if (target is None) and (pipe is None):
             raise ValueError(
                 "Either pipe or target must be defined to create a send.")
-        if step_name not in self.sends.keys():
-            self.sends[step_name] = []
-        self.sends[step_name].append((pipe, target, pointer))
+        # sends given on init may be None or an immutable sequence
+        sends = list(self.sends.get(step_name) or ())
+        self.sends[step_name] = sends + [(pipe, target, pointer)]
 
     def add_insert(
         self,
@@ -174,7 +174,7 @@ class Composition:
         add inserts to nonexistent steps, but they will do nothing unless that
         step name is later assigned.
         """
-        if step_name not in self.inserts.keys():
+        if self.inserts.get(step_name) is None:
             self.inserts[step_name] = {}
         self.inserts[step_name][key] = value
 
-- 
2.43.0


From 6ffe5414001739222366f1674f9bcf0f923d1f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 45/96] fix: a Dynamic made from a nested function can't be
 loaded again

---
 dustgoggles/dynamic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index edbc0df..de921f2 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -1,5 +1,6 @@
 """utilities for dynamic function generation and code introspection"""
 from inspect import getsource, signature, Signature, getmodule
+from textwrap import dedent
 from types import FunctionType, CodeType, MethodType
 from typing import Optional, Callable, MutableSequence
 
@@ -185,7 +186,9 @@ class Dynamic:
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
         dynamic.__init__(*init_args, **init_kwargs)
-        dynamic.source, dynamic.globals_ = source, func.__globals__
+        # source of nested functions is indented
+        dynamic.source = dedent(source)
+        dynamic.globals_ = func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 75b3c8c9996880d78c6438cd69bbb171ab289027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 46/96] fix: unnest confuses values below empty-string keys
 with others

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index b020fc6..51c23a7 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -47,7 +47,7 @@ def _unnest(nested, mtypes, escape, levels):
     if not isinstance(nested, mtypes):
         return nested
     prefix = f"{escape}_{escape}".join(map(str, levels))
-    if len(prefix) > 0:
+    if len(levels) > 0:
         prefix = f"{escape}{prefix}{escape}_"
     long_records = []
     for level, maybe_mapping in nested.items():
-- 
2.43.0


From 95704f5d6b24a8d9609435d747d9b46ccf5ab439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 47/96] fix: digging for an item by equality raises TypeError

---
 dustgoggles/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 51c23a7..9d865b9 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -167,6 +167,8 @@ def constant_to_dig_predicate(putative_predicate, match="key", default=eq):
     elif match == "value":
         return valonly(partial(default, putative_predicate))
     elif match == "item":
+        if default is eq:  # which can only compare whole items
+            return lambda key, value: (key, value) == putative_predicate
         return partial(default, putative_predicate)
 
 
-- 
2.43.0


From 7adc2393dd706b16d5c0b43636f588af51c5ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 48/96] fix: downcast near-integral values to nillable integers

---
 dustgoggles/pivot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 996832b..92b816c 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -160,7 +160,10 @@ def check_in_dtype_bounds(
 
 def _maybeseries(arr, dtype, library, name, aerr, rerr):
     if isinstance(dtype, pd.api.extensions.ExtensionDtype):
-        arr = pd.array(np.where(np.isnan(arr), None, arr), dtype=dtype)
+        # pandas refuses to truncate, unlike the astype() the error came from
+        arr = pd.array(
+            np.where(np.isnan(arr), None, np.trunc(arr)), dtype=dtype
+        )
     else:
         arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
     if library == 'pandas':
-- 
2.43.0


From f597f8d8c58792aead8503277b25d84f1b8fa8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 49/96] fix: keep column level names in downcast_df

---
 dustgoggles/pivot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 92b816c..52dc331 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -275,7 +275,10 @@ def downcast_df(
         recast.index = col.index
         cast_series.append(recast)
     if reassemble is True:
-        return pd.concat(cast_series, axis=1)
+        reassembled = pd.concat(cast_series, axis=1)
+        # concat drops the names of column levels
+        reassembled.columns = df.columns
+        return reassembled
     return cast_series
     # cast_series, cast_records = [], []
     # for name, col in num.items():
-- 
2.43.0


From 26b4fb7c5427dd3b561894164eda5224539b0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 50/96] fix: downcast_df of a dataframe without columns

---
 dustgoggles/pivot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 52dc331..dd72584 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -275,6 +275,8 @@ def downcast_df(
         recast.index = col.index
         cast_series.append(recast)
     if reassemble is True:
+        if len(cast_series) == 0:
+            return df.copy()
         reassembled = pd.concat(cast_series, axis=1)
         # concat drops the names of column levels
         reassembled.columns = df.columns
-- 
2.43.0


From a0a8f056b99435738d6f2ce3ca338dd2a5d432ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 51/96] fix: missing nullable values are constant with anything

---
 dustgoggles/pivot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index dd72584..755d5a9 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -63,8 +63,10 @@ def _is_constant(series: pd.Series) -> bool:
         return True
     if series.dtype == object:
         # cells may hold sequences, which pandas would compare elementwise
-        return all(value == series.iloc[0] for value in series)
-    return bool((series == series.iloc[0]).all())
+        equal = [value == series.iloc[0] for value in series]
+        return all(value is not pd.NA and value for value in equal)
+    # comparisons with missing values of nullable types are themselves missing
+    return bool((series == series.iloc[0]).fillna(False).all())
 
 
 def extract_constants(
-- 
2.43.0


From 88c0dccda2984ba9179dec2dcc9a4f412df9cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 52/96] fix: columns that differ by a nullable missing value
 are dropped

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 755d5a9..bfaa84f 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -53,7 +53,8 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
         columns = dataframe.loc[:, column]
         for i in range(1, columns.shape[1]):
             one, two = columns.iloc[:, 0], columns.iloc[:, i]
-            if not ((one == two) | (one.isna() & two.isna())).all():
+            equal = (one == two).fillna(False)
+            if not (equal | (one.isna() & two.isna())).all():
                 raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
-- 
2.43.0


From f3b399d5f2bcdf3137d3f123c319e5da25e91230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 53/96] fix: split_on loses rows with a missing verdict

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index bfaa84f..2c365e9 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -115,6 +115,9 @@ def extract_constants(
 def split_on(
     df: pd.DataFrame, predicate: pd.Series
 ) -> [pd.DataFrame, pd.DataFrame]:
+    if isinstance(predicate, pd.Series):
+        # rows with a missing verdict don't match
+        predicate = predicate.fillna(False).astype(bool)
     return df.loc[predicate], df.loc[~predicate]
 
 
-- 
2.43.0


From 95ad9e4a8a39427a1ad7eb9ecdc38cd64dec4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 54/96] fix: dupe_df_block casts columns to a common type

---
 dustgoggles/pivot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 2c365e9..54913c3 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -33,10 +33,10 @@ def dupe_df_block(dataframe: pd.DataFrame, repeats: int):
     """
     create a new dataframe by duplicating "dataframe" "repeats" times
     """
-    return pd.DataFrame(
-        np.repeat(dataframe.values, repeats, axis=0),
-        columns=dataframe.columns,
-    )
+    # not via .values, which casts columns of different types to a common one
+    return dataframe.iloc[
+        np.repeat(np.arange(len(dataframe)), repeats)
+    ].reset_index(drop=True)
 
 
 # TODO, maybe: allow this to work with columns that have collections
-- 
2.43.0


From 82d328572cadd45f9c56a7200d146b80167409a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 55/96] fix: typed_columns returns other columns of the same
 name

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 54913c3..08733ed 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -143,7 +143,7 @@ def typed_columns(df, typenames):
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
     type_pattern = f"u?({'|'.join(typenames)})".lower()
-    return df[df.dtypes.loc[names.str.match(type_pattern)].index]
+    return df.loc[:, names.str.match(type_pattern).to_numpy(dtype=bool)]
 
 
 def numeric_columns(df):
-- 
2.43.0


From 0cfce178945660b91dab84f66636e57daa73d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 56/96] fix: typed_columns misjudges series

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 08733ed..878b42c 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -137,12 +137,12 @@ def typed_columns(df, typenames):
     """return columns of df of types that match patterns given in typenames."""
     if isinstance(typenames, str):
         typenames = (typenames,)
-    if isinstance(df.dtypes, np.dtype):
-        if re.match("|".join(typenames).lower(), df.dtypes.name.lower()):
+    type_pattern = f"u?({'|'.join(typenames)})".lower()
+    if isinstance(df, pd.Series):
+        if re.match(type_pattern, df.dtypes.name.lower()):
             return df
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
-    type_pattern = f"u?({'|'.join(typenames)})".lower()
     return df.loc[:, names.str.match(type_pattern).to_numpy(dtype=bool)]
 
 
-- 
2.43.0


From a94fc1862e3180ca5736c7b4229f3aa287666c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 57/96] fix: interval columns count as numeric

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 878b42c..3058dc0 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -148,7 +148,8 @@ def typed_columns(df, typenames):
 
 def numeric_columns(df):
     """return 'numeric" columns of df."""
-    return typed_columns(df, ("int", "float"))
+    # the widths, because "int" also matches "interval"
+    return typed_columns(df, (r"int\d", r"float\d"))
 
 
 def check_in_dtype_bounds(
-- 
2.43.0


From 6c94f6a4bcd752b2eb5f31bc972b99edacd58d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 58/96] fix: unpack_column changes its argument

---
 dustgoggles/pivot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 3058dc0..f1b3fef 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -342,9 +342,12 @@ def unpack(series: pd.Series):
 
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
-    unpacked = unpack(df[colname])
-    df.loc[unpacked.index, unpacked.columns] = unpacked
-    return df.drop(columns=colname)
+    # by position, in case index labels are repeated
+    unpacked = unpack(df[colname].reset_index(drop=True))
+    unpacked = unpacked.reindex(range(len(df))).set_axis(df.index)
+    df = df.drop(columns=colname)
+    df[unpacked.columns] = unpacked
+    return df
 
 
 def unique_to_records(df, cols):
-- 
2.43.0


From c1f0547d1d9a3d29b0373c60ed5e21cb111c07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 59/96] fix: unique_to_records loses the columns of empty
 dataframes

---
 dustgoggles/pivot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index f1b3fef..6eda219 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -356,8 +356,7 @@ def unique_to_records(df, cols):
         {col: value for col, value in zip(cols, values)}
         for values in unique_tuples
     ]
-    # noinspection PyTypeChecker
-    return pd.DataFrame.from_dict(records)
+    return pd.DataFrame(records, columns=cols)
 
 
 def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
-- 
2.43.0


From 682486c476869fce65b0a93d31e10e6d2014a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 60/96] fix: squeeze fails or doesn't aggregate for some names
 and indices

---
 dustgoggles/pivot.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 6eda219..3cb7dc7 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -372,14 +372,5 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-    df = pd.DataFrame(series).reset_index()
-    ixname = "index" if series.index.name is None else series.index.name
-    sname = 0 if series.name is None else series.name
-    squeezed = df.pivot_table(
-        values=series.name,
-        index=ixname,
-        aggfunc=aggfunc,
-    )[sname]
-    squeezed.index.name = series.index.name
-    squeezed.name = series.name
-    return squeezed
+    levels = list(range(series.index.nlevels))
+    return series.groupby(level=levels, dropna=False).agg(aggfunc)
-- 
2.43.0


From 2aef7f87bcd6d29315ced257141d700d4add2a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 61/96] fix: smash fails if columns are named like melt's

---
 dustgoggles/pivot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 3cb7dc7..b074ff4 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -324,12 +324,14 @@ def smash(df, by, values=None):
     by = listify(by)
     if values is not None:
         df = df.loc[df[by].isin(values).all(axis=1)]
-    df = df.melt(by)
+    # unlike melt's default names, these can't be those of other columns
+    variable, value = object(), object()
+    df = df.melt(by, var_name=variable, value_name=value)
     names = reduce(
         lambda x, y: x + "_" + y,
-        [v for _, v in df[by + ["variable"]].astype(str).items()],
+        [v for _, v in df[by + [variable]].astype(str).items()],
     )
-    return pd.Series(df["value"].to_numpy(), index=names)
+    return pd.Series(df[value].to_numpy(), index=names.rename(None))
 
 
 def unpack(series: pd.Series):
-- 
2.43.0


From ec606ea3ff0f989a6f91be03dbc519a38b991f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 62/96] fix: sort_chunked loses rows if values are infinite or
 very far apart

evenly spaced floats between the extremes are NaN or infinite then; they are
also too coarse for large integers and useless for times.
---
 dustgoggles/mosaic.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 4f51154..699c46e 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -97,11 +97,13 @@ def read_between(
 ):
     """
     managed read-between bounds operation, more efficient in some cases
-    than parquet.read_table with specified filters
+    than parquet.read_table with specified filters. an upper bound of None
+    is no bound.
     """
     bound_records = []
     for rec in meta_records:
-        if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
+        above = bounds[1] is not None and rec["min"] > bounds[1]
+        if not (above or (rec["max"] < bounds[0])):
             bound_records.append(rec)
     if verbose is True:
         print(len(bound_records), len(meta_records))
@@ -111,7 +113,9 @@ def read_between(
 
     for rec in bound_records:
         group = parquet_file.read_row_group(rec["row_group"])
-        less_than = pac.filter(group, pac.less(group[field], bounds[1]))
+        less_than = group
+        if bounds[1] is not None:
+            less_than = pac.filter(group, pac.less(group[field], bounds[1]))
         more_than = pac.filter(
             less_than, pac.greater_equal(less_than[field], bounds[0])
         )
@@ -154,10 +158,20 @@ def sort_chunked(
     )
     max_value = max([rec["max"] for rec in relevant_records], default=0)
     min_value = min([rec["min"] for rec in relevant_records], default=0)
-    windows = list(windowed(np.linspace(min_value, max_value, n_chunks + 1), 2))
-    # windows are half-open; the last one must hold the maximum
-    last = windows[-1][1]
-    windows[-1] = (windows[-1][0], max(last + 1, np.nextafter(last, np.inf)))
+    if isinstance(min_value, float):
+        # the range may be too great for a float, or not even finite
+        limit = np.finfo(float).max
+        low, high = max(min_value, -limit) / 2, min(max_value, limit) / 2
+        edges = list(np.linspace(low, high, n_chunks + 1) * 2)
+    else:
+        # floats are too coarse for large integers
+        edges = [
+            min_value + (max_value - min_value) * i // n_chunks
+            for i in range(n_chunks + 1)
+        ]
+    # windows are half-open; the first and last hold the extremes, come what may
+    edges[0], edges[-1] = min_value, None
+    windows = list(windowed(edges, 2))
     if direction == "descending":
         windows.reverse()
     try:
-- 
2.43.0


From 7d59cf91cfb0276d78565eeee26669c2c4b6b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 63/96] fix: sort_chunked loses rows of row groups without
 statistics

---
 dustgoggles/mosaic.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 699c46e..44ed4d5 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -146,11 +146,17 @@ def sort_chunked(
         open_kwargs["use_dictionary"] = use_dictionary
     sort_reader = parquet.ParquetFile(input_file)
     meta_records = parquet_metadata_records(input_file)
-    relevant_records = [
-        rec
-        for rec in meta_records
-        if rec["path_in_schema"] == sort_column and rec.get("min") is not None
-    ]
+    relevant_records = []
+    for rec in meta_records:
+        if rec["path_in_schema"] != sort_column:
+            continue
+        if rec.get("min") is None:
+            # no values to sort, or nobody wrote statistics
+            group = sort_reader.read_row_group(rec["row_group"])[sort_column]
+            missing = pac.is_null(group, nan_is_null=True)
+            rec |= pac.min_max(group.filter(pac.invert(missing))).as_py()
+        if rec["min"] is not None:
+            relevant_records.append(rec)
     if schema is None:
         schema = sort_reader.read_row_group(0).schema
     sort_writer = parquet.ParquetWriter(
-- 
2.43.0


From 96a678307e35ec145ce88251cbe1b9fbc9a3756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 64/96] fix: read_between fails for row groups without
 statistics

---
 dustgoggles/mosaic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 44ed4d5..1d56213 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -102,6 +102,10 @@ def read_between(
     """
     bound_records = []
     for rec in meta_records:
+        if rec.get("min") is None:
+            # without statistics, only the values can tell
+            bound_records.append(rec)
+            continue
         above = bounds[1] is not None and rec["min"] > bounds[1]
         if not (above or (rec["max"] < bounds[0])):
             bound_records.append(rec)
-- 
2.43.0


From 245de83624d108006864aeb7d12a09638d8fafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 65/96] fix: extended metadata fails if row groups are of one
 size

---
 dustgoggles/mosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 1d56213..84e410e 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -46,7 +46,7 @@ def _flatten_meta_df(meta_df, extended):
         col_stats = col_slice[
             ["num_values", "total_compressed_size", "total_uncompressed_size"]
         ].sum()
-        col_series.append(pd.concat([pd.Series(constants), col_stats]))
+        col_series.append(pd.Series(constants | col_stats.to_dict()))
     return pd.concat(col_series, axis=1).T
 
 
-- 
2.43.0


From 7dd57e600b633af37cc7437dbb6e0a7e6e062116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 66/96] fix: sort_chunked fails for files without row groups

---
 dustgoggles/mosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 84e410e..db7904a 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -162,7 +162,7 @@ def sort_chunked(
         if rec["min"] is not None:
             relevant_records.append(rec)
     if schema is None:
-        schema = sort_reader.read_row_group(0).schema
+        schema = sort_reader.schema_arrow
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
-- 
2.43.0


From 6681e66a4497f23e60c3fbfdda371a6909d8075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:42 +0000
Subject: [PATCH 67/96] fix: sort_chunked loses rows if no value is finite

---
 dustgoggles/mosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index db7904a..d6e0fa7 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -171,7 +171,7 @@ def sort_chunked(
     if isinstance(min_value, float):
         # the range may be too great for a float, or not even finite
         limit = np.finfo(float).max
-        low, high = max(min_value, -limit) / 2, min(max_value, limit) / 2
+        low, high = np.clip([min_value, max_value], -limit, limit) / 2
         edges = list(np.linspace(low, high, n_chunks + 1) * 2)
     else:
         # floats are too coarse for large integers
-- 
2.43.0


From 523db5b8116570e9dc30f23dd54825197fc72160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 68/96] fix: scraping text that looks like a set of lists
 raises TypeError

---
 dustgoggles/scrape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..6806827 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,7 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        except (ValueError, SyntaxError, TypeError):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From 5e3d30e5eb4aa3d45801914c429705c299e73ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 69/96] fix: scrape_from_file returns values its callers
 changed

---
 dustgoggles/scrape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 6806827..e47df9b 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -63,7 +63,7 @@ def scrape_subframe(label_text: str) -> tuple:
 cached_label_loader = cache(get_label_text)
 
 
-@cache
+# only the text is cached: results may be mutable
 def scrape_from_file(label, pattern):
     return make_scraper(cached_label_loader(label))(pattern)
 
-- 
2.43.0


From c749696d8f0d2ecde1d03c4ba129a3feea550d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 70/96] fix: scrape_subframe fails for numbers with leading
 zeros

---
 dustgoggles/scrape.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index e47df9b..8568a41 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -52,10 +52,9 @@ def scrape_subframe(label_text: str) -> tuple:
     total lines, total line samples
     if image is not subframed, should be (1, 1, 1200, 1648)
     """
-    return literal_eval(
-        ",".join(
-            re.findall(r"\d+", re.search(SUBFRAME_GROUP, label_text).group())
-        )
+    return tuple(
+        int(number) for number in
+        re.findall(r"\d+", re.search(SUBFRAME_GROUP, label_text).group())
     )
 
 
-- 
2.43.0


From ffb6e2adc64bc614a0eda0a96d8c94c360293020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 71/96] fix: a pulled Sticky no longer removes at exit what
 others stuck at its address since

---
 dustgoggles/codex/implements.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 31b5dd4..6bac569 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -982,6 +982,7 @@ class Sticky:
         self.address = str(address)
         self.encode, self.decode = pickle_codec_factory()
         self._cached_value = value
+        self.cleanup_on_exit = cleanup_on_exit
         if cleanup_on_exit is True:
             atexit.register(self.close)
 
@@ -1016,6 +1017,8 @@ class Sticky:
         return self._cached_value
 
     def close(self):
+        # what others put at this address later is not ours to clean up
+        atexit.unregister(self.close)
         block = SharedMemory(self.address)
         block.unlink()
         block.close()
@@ -1029,6 +1032,9 @@ class Sticky:
         block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
+        if self.cleanup_on_exit is True:
+            atexit.unregister(self.close)
+            atexit.register(self.close)
 
     def __str__(self):
         if self._cached_value is not None:
-- 
2.43.0


From 9ec4081cfe861b46d01e374d9ed6d06bc861b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 72/96] fix: rmerge no longer merges shared mappings twice at
 every level

---
 dustgoggles/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 9d865b9..f17c914 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -303,6 +303,8 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
     output = {}
     only_in_one = set(map1.keys()).symmetric_difference(map2.keys())
     for kv in chain(map1.items(), map2.items()):
+        if kv[0] in output:
+            continue  # merging again would double the work at every level
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-- 
2.43.0


From 641d2cb37b0f0ddf24e3ca19d58c6148de13873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 73/96] fix: Sticky.note without an address never takes one
 that is in use

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 6bac569..0f86594 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1001,6 +1001,8 @@ class Sticky:
         }
         if address is None:
             init_kwargs['address'] = f"{randint(100000, 999999)}"
+            while exists_block(init_kwargs['address']):
+                init_kwargs['address'] = f"{randint(100000, 999999)}"
         note = Sticky(**init_kwargs)
         note.stick(obj)
         return note
-- 
2.43.0


From 768c5f1c9ab7a0f6fb473f129c9242533bd046fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 74/96] fix: MaybePool.map leaves the caller's records alone

---
 dustgoggles/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index f17c914..3dfaeea 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -374,6 +374,8 @@ class MaybePool:
             self.pool = Pool(threads)
 
     def map(self, func, argrecs, as_chunks=False):
+        # the caller may use these, or one of them, again
+        argrecs = [dict(rec) for rec in argrecs]
         for i, rec in enumerate(argrecs):
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
-- 
2.43.0


From 4f4601fd99969116b0b9be42b79f7ccc80ca0fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 75/96] fix: scraping takes values too deep to be parsed as
 text

---
 dustgoggles/scrape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 8568a41..08dfdf4 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,9 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError, TypeError):
+        except (
+            ValueError, SyntaxError, TypeError, MemoryError, RecursionError
+        ):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From 62517f7ff7bf93663ba9a2399b9560ac3f338aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 76/96] fix: Notepad.dump no longer destroys its target when
 the key is absent

---
 dustgoggles/codex/implements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0f86594..a6b7b65 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -828,9 +828,10 @@ class Notepad(AbstractNotepad):
     def dump(self, key, fn=None, mode="wb"):
         if fn is None:
             fn = f"{self.prefix}_{key}".replace(".", "_")
+        raw = self.get_raw(key)
         with open(fn, mode) as file:
             # noinspection PyTypeChecker
-            file.write(self.get_raw(key))
+            file.write(raw)
 
     def close(self, dump=False):
         try:
-- 
2.43.0


From 66f73ee2c939ba3455d9d5ccbbc57766b38c7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 77/96] fix: digsource finds the source of Dynamics and what
 wraps them

---
 dustgoggles/dynamic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index de921f2..3c5fb4f 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -29,9 +29,13 @@ def digsource(obj: Callable):
     """
     if isinstance(obj, (FunctionType, MethodType)):
         return getsource(obj)
+    if isinstance(obj, Dynamic) and obj.source is not None:
+        # there is no file to look for it in
+        return obj.source
     if "func" in dir(obj):
         # noinspection PyUnresolvedReferences
-        return getsource(obj.func)
+        func = obj.func
+        return digsource(func) if "func" in dir(func) else getsource(func)
     raise TypeError(f"cannot get source for type {type(obj)}")
 
 
-- 
2.43.0


From 91a40faaff6432e3817ee50f8772f147f9824fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 78/96] fix: a dump that fails or dies midway no longer ruins
 the tracker's log file

---
 dustgoggles/tracker.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index c38420e..7f70a5d 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -1,7 +1,6 @@
 import datetime as dt
 import json
 from inspect import currentframe, getframeinfo
-from io import SEEK_END
 from itertools import count
 import os
 from pathlib import Path
@@ -84,15 +83,18 @@ class Tracker(TrivialTracker):
         self.log = {k: self.log[k] for k in key_order}
         # serialize before opening: a failure must not damage the file
         log = json.dumps(self.log, indent=2).encode('utf-8')
-        mode = "rb+" if self.outpath.exists() else "wb"
-        with self.outpath.open(mode) as stream:
-            if mode == "rb+":
-                stream.seek(-1, SEEK_END)
-                stream.write(b",\n")
-            else:
-                stream.write(b"[")
-            stream.write(log)
-            stream.write(b"]")
+        if self.outpath.exists():
+            log = self.outpath.read_bytes()[:-1] + b",\n" + log + b"]"
+        else:
+            log = b"[" + log + b"]"
+        # put the file in its place when it is complete: it is valid throughout
+        temporary = self.outpath.with_name(f"{self.outpath.name}.tmp")
+        try:
+            temporary.write_bytes(log)
+            os.replace(temporary, self.outpath)
+        except BaseException:
+            temporary.unlink(missing_ok=True)
+            raise
 
     _paused = False
     paused = property(_get_paused, _set_paused)
-- 
2.43.0


From cc02024935555f5eadd30aa8ffb43f8ea1fb2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 79/96] fix: views of a stored array can be stored under the
 same key

---
 dustgoggles/codex/codecs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 33c2f67..b9b58bb 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -136,6 +136,9 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         """
         if array.dtype.hasobject:
             raise TypeError("can't store arrays of Python objects")
+        if array.base is not None:
+            # a view of this very block would change as we write to it
+            array = array.copy()
         size = max(array.size * array.itemsize, 1)  # blocks can't be empty
         if exists_ok is False:
             block = SharedMemory(address, create=True, size=size)
-- 
2.43.0


From 05b479967ed6aaee48e572e7fcdadebbc44e3ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 80/96] fix: read_between ignores the records of other columns

---
 dustgoggles/mosaic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index d6e0fa7..4bb4ad5 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -101,7 +101,11 @@ def read_between(
     is no bound.
     """
     bound_records = []
+    parquet_file.schema_arrow.field(field)  # raises a KeyError if not there
     for rec in meta_records:
+        if rec.get("path_in_schema", field) != field:
+            # what other columns hold in this row group is no concern
+            continue
         if rec.get("min") is None:
             # without statistics, only the values can tell
             bound_records.append(rec)
-- 
2.43.0


From 14acc19cfd200bbf535758e3b4b92035db8b57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 81/96] fix: a Composition copies the mappings it is built from

Its methods (and sends into its steps) change its steps, sends and inserts.
Changing the caller's own mappings changed other Compositions built from them.
---
 dustgoggles/composition.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 15a6ac8..f9e514e 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -38,12 +38,16 @@ class Composition:
         self.tracker = tracker
         if steps is None:
             steps = [identity]
-        self.steps = enumerate_as_mapping(steps)
+        # copies, because methods of this object change them
+        self.steps = dict(enumerate_as_mapping(steps))
         self.tracker = tracker
         # sends and inserts could be defaultdicts, but in this case the
         # representation is ugly and the convenience is small.
-        self.sends = enumerate_as_mapping(sends)
-        self.inserts = enumerate_as_mapping(inserts)
+        self.sends = dict(enumerate_as_mapping(sends))
+        self.inserts = {
+            step_name: insert if insert is None else dict(insert)
+            for step_name, insert in enumerate_as_mapping(inserts).items()
+        }
         self.optional = optional
         if self.tracker is not None:
             self._add_track_sends()
-- 
2.43.0


From 2a607c479aafcd676784af442653c86f39af9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:35 +0000
Subject: [PATCH 82/96] fix: labels are cut off within a character

Reading the head of a longer file raised UnicodeDecodeError if the size
limit fell within a multi-byte character.
---
 dustgoggles/scrape.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 08dfdf4..d120c24 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -5,6 +5,7 @@ sophisticated parsing. probably also useful for other things. sometimes
 appropriate, sometimes not.
 """
 from ast import literal_eval
+from codecs import getincrementaldecoder
 from functools import cache
 from io import BytesIO
 import os
@@ -32,6 +33,13 @@ def make_scraper(label_text: str) -> Callable:
     return scrape
 
 
+def _decode_head(head: bytes, max_size: Optional[int]) -> str:
+    # if there may be more to the file, the last character may be incomplete
+    return getincrementaldecoder("utf-8")().decode(
+        head, final=len(head) != max_size
+    )
+
+
 def get_label_text(label: Union[Path, str], byte_size: int = 35592) -> str:
     """
     why not overload the label-getter? literally no reason
@@ -39,7 +47,7 @@ def get_label_text(label: Union[Path, str], byte_size: int = 35592) -> str:
     if isinstance(label, str):
         label = Path(label)
     with open(label, "rb") as file:
-        return file.read(byte_size).decode()
+        return _decode_head(file.read(byte_size), byte_size)
 
 
 # special-case block regex
@@ -97,7 +105,7 @@ def trim_label(fn, max_size = MAX_LABEL_SIZE, raise_for_failure=False):
             return head[:endmatch.span()[1]].decode()
     if raise_for_failure:
         raise ValueError("couldn't find a label ending")
-    return head.decode()
+    return _decode_head(head, max_size)
 
 
 cached_label_trimmer = cache(trim_label)
-- 
2.43.0


From cda1ad7b1b6c07aba5affb0743a46a445de4cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 83/96] fix: debugging a Notepad refuses text that can't be
 encoded

With debug=True, storing text with surrogates raised UnicodeEncodeError
after it was stored.
---
 dustgoggles/codex/implements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index a6b7b65..b8a853f 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -110,7 +110,10 @@ def here():
 
 
 def log(message):
-    with open("../holding/dumplog.csv", "a+") as file:
+    # not everything that can be stored can be encoded
+    with open(
+        "../holding/dumplog.csv", "a+", errors="backslashreplace"
+    ) as file:
         file.write(message + "\n")
 
 
-- 
2.43.0


From 5de148863a886ef18ba042a2f4969cc48aa0d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 84/96] fix: a lock used again counts waits of earlier uses

---
 dustgoggles/codex/implements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index b8a853f..51d5d05 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -173,6 +173,7 @@ class SlidingLock:
         self.debug = debug
 
     def __enter__(self):
+        self.spins = 0
         try:
             self._renumber()
             self.acquire()
-- 
2.43.0


From c526567d26aa6bfb4050055cc03bf8a70c60baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 85/96] fix: values that cannot be printed can be stored with
 debug on

---
 dustgoggles/codex/implements.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 51d5d05..63c18a5 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -117,6 +117,14 @@ def log(message):
         file.write(message + "\n")
 
 
+def printable(value):
+    """text for a value, even if it is unable to produce its own"""
+    try:
+        return str(value)
+    except Exception:
+        return object.__repr__(value)
+
+
 def printstack(stack):
     return ";".join(
         [
@@ -802,7 +810,7 @@ class Notepad(AbstractNotepad):
                     self.index.remove(key)
                 raise
             if self.debug is True:
-                log(f"{here()},,set key={key} to {value}")
+                log(f"{here()},,set key={key} to {printable(value)}")
         except FileExistsError:
             raise KeyError(
                 f"{key} already exists in this object's cache. pass "
-- 
2.43.0


From 50617bce56018d86f3e95bcb61024e7406aa8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 86/96] fix: a GridPaper can't give the block of a key

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 63c18a5..926bc24 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -895,6 +895,8 @@ class GridPaper(AbstractNotepad):
 
     def __getitem__(self, key, fetch=True, copy=True):
         try:
+            if fetch is False:
+                return self.remember(self.index[key], fetch)
             result, block = self.remember(self.index[key], fetch, copy)
             if copy is False:
                 self._open_blocks.append(block)
-- 
2.43.0


From a63cf10393d74ea64fa4dbdc598b85d3e6560832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 87/96] fix: deleting an array can destroy another one

---
 dustgoggles/codex/implements.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 926bc24..5dcd6b7 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -959,12 +959,16 @@ class GridPaper(AbstractNotepad):
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-            for block in self._open_blocks:
-                if block.name == key:
-                    block.close()
-                    block.unlink()
         except FileNotFoundError:
             raise KeyError(f"{key} not apparently assigned")
+        # blocks that arrays are still using have to stay open
+        for block in tuple(self._open_blocks):
+            if block.name == self.address(key):
+                try:
+                    block.close()
+                except BufferError:
+                    continue
+                self._open_blocks.remove(block)
 
     def close(self, dump=False):
         for key in self.update_index():
-- 
2.43.0


From 0154b2a15e8ae0f036131a944f5ad24dd49c4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 88/96] fix: rows are read twice if a nested column's path is a
 column's name

---
 dustgoggles/mosaic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 4bb4ad5..37684c9 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -119,8 +119,9 @@ def read_between(
         return
     bound_groups = []
 
-    for rec in bound_records:
-        group = parquet_file.read_row_group(rec["row_group"])
+    # a flat and a nested column can share a path
+    for row_group in sorted({rec["row_group"] for rec in bound_records}):
+        group = parquet_file.read_row_group(row_group)
         less_than = group
         if bounds[1] is not None:
             less_than = pac.filter(group, pac.less(group[field], bounds[1]))
-- 
2.43.0


From 0638ceb29bd80bba52c179648619885fd5914b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:51 +0000
Subject: [PATCH 89/96] fix: naming the columns of a downcast dataframe names
 the original's

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index b074ff4..a5911df 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -286,7 +286,7 @@ def downcast_df(
             return df.copy()
         reassembled = pd.concat(cast_series, axis=1)
         # concat drops the names of column levels
-        reassembled.columns = df.columns
+        reassembled.columns = df.columns.copy()
         return reassembled
     return cast_series
     # cast_series, cast_records = [], []
-- 
2.43.0


From 8cd30b8a23f80da2928b44dbc4e042977d1956cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:11 +0000
Subject: [PATCH 90/96] fix: squeeze fails for all but numpy's own types

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index a5911df..b2eed43 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -370,7 +370,7 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
     is not.
     """
     if aggfunc is None:
-        if series.dtype.char == "?":
+        if series.dtype.kind == "b":
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-- 
2.43.0


From d8c0832a5d62ab4b5b32127b97284970fc2c213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:13 +0000
Subject: [PATCH 91/96] fix: extract_constants takes large integers for equal
 that aren't

---
 dustgoggles/pivot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index b2eed43..d4d3f0f 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -90,8 +90,9 @@ def extract_constants(
     if how not in ("rows", "columns"):
         raise ValueError(f"unknown how {how}")
     constant_indices, constant_values = [], {}
-    method = "iterrows" if how == "columns" else "items"
-    for ix, series in getattr(df, method)():
+    # rows of objects, because a dtype common to all columns may be too coarse
+    items = df.astype(object).iterrows() if how == "columns" else df.items()
+    for ix, series in items:
         series = series if dropna is False else series.dropna()
         constant_indices.append(_is_constant(series))
         if constant_indices[-1]:
-- 
2.43.0


From 4a6f4cdfde75b4a49dddec10e2f3f92eefa17caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:55 +0000
Subject: [PATCH 92/96] fix: combinations of categories are taken for rows that
 aren't there

---
 dustgoggles/pivot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index d4d3f0f..d8bed65 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -315,9 +315,14 @@ def downcast_df(
     # return df
 
 
+def _unique_rows(df, columns):
+    counts = df[list(columns)].value_counts()
+    # combinations of categories are counted even if there are none
+    return counts[counts > 0].index.to_list()
+
+
 def junction(df1, df2, columns, set_method="difference"):
-    keys1 = df1[list(columns)].value_counts().index.to_list()
-    keys2 = df2[list(columns)].value_counts().index.to_list()
+    keys1, keys2 = (_unique_rows(df, columns) for df in (df1, df2))
     return getattr(set(keys1), set_method)(set(keys2))
 
 
@@ -354,7 +359,7 @@ def unpack_column(df: pd.DataFrame, colname):
 
 
 def unique_to_records(df, cols):
-    unique_tuples = df[cols].value_counts().index.to_list()
+    unique_tuples = _unique_rows(df, cols)
     records = [
         {col: value for col, value in zip(cols, values)}
         for values in unique_tuples
-- 
2.43.0


From c8293505ffff3358a30190b21ecca837933b777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 93/96] fix: disjoint loses the items of iterators

---
 dustgoggles/func.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/func.py b/dustgoggles/func.py
index 7aed0f7..b441a9d 100644
--- a/dustgoggles/func.py
+++ b/dustgoggles/func.py
@@ -72,6 +72,8 @@ def intersection(*iterables: Iterable) -> set:
 
 
 def disjoint(*sets: Iterable) -> list[list]:
+    # some can be iterated over only once
+    sets = [tuple(each) for each in sets]
     shared = intersection(*sets)
     return [
         [file for file in this_set if file not in shared] for this_set in sets
-- 
2.43.0


From deef7ce446709a8fcafc521ac1f5d263560741b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 94/96] fix: rows are lost by sorting timestamps in nanoseconds

---
 dustgoggles/mosaic.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 37684c9..335dbc5 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -1,3 +1,4 @@
+from datetime import datetime
 from itertools import product
 
 from cytoolz import keyfilter
@@ -91,6 +92,14 @@ def meta_column_df(parquet_fn, extended=False):
     return metadata.T
 
 
+def _as_bound(value, column):
+    if not (pa.types.is_timestamp(column.type) and isinstance(value, datetime)):
+        return value
+    # pyarrow would cut off nanoseconds, and compare only equal timezones
+    unit = "ns" if column.type.unit == "ns" else "us"
+    return pa.scalar(value, pa.timestamp(unit, column.type.tz))
+
+
 # noinspection PyUnresolvedReferences
 def read_between(
     parquet_file, field, bounds, meta_records, columns=None, verbose=True
@@ -124,9 +133,11 @@ def read_between(
         group = parquet_file.read_row_group(row_group)
         less_than = group
         if bounds[1] is not None:
-            less_than = pac.filter(group, pac.less(group[field], bounds[1]))
+            upper = _as_bound(bounds[1], group[field])
+            less_than = pac.filter(group, pac.less(group[field], upper))
+        lower = _as_bound(bounds[0], group[field])
         more_than = pac.filter(
-            less_than, pac.greater_equal(less_than[field], bounds[0])
+            less_than, pac.greater_equal(less_than[field], lower)
         )
         bound_groups.append(more_than)
     table = pa.concat_tables(bound_groups)
-- 
2.43.0


From 09297b89898a7e11e00e2d3e0096cc336185f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:22 +0000
Subject: [PATCH 95/96] fix: large unsigned integers can't be sorted

---
 dustgoggles/mosaic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 335dbc5..fa95ab2 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -93,6 +93,9 @@ def meta_column_df(parquet_fn, extended=False):
 
 
 def _as_bound(value, column):
+    if pa.types.is_uint64(column.type) and isinstance(value, int):
+        # pyarrow would try to make a signed integer of it
+        return pa.scalar(max(value, 0), column.type)
     if not (pa.types.is_timestamp(column.type) and isinstance(value, datetime)):
         return value
     # pyarrow would cut off nanoseconds, and compare only equal timezones
-- 
2.43.0


From a5afc0a73d9efe9f18547f0f6b54f2ef26968e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:24 +0000
Subject: [PATCH 96/96] fix: pools wait forever for exceptions that can't be
 unpickled

---
 dustgoggles/structures.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 3dfaeea..2bfb8bc 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -5,6 +5,7 @@ from functools import reduce, partial
 from itertools import chain
 from multiprocessing import Pool
 from operator import methodcaller, add, getitem, eq
+import pickle
 from typing import (
     Mapping,
     Collection,
@@ -358,9 +359,23 @@ class MaybeResult:
         return True
 
 
+def _call_remotely(func, args, kwargs):
+    try:
+        return func(*args, **kwargs)
+    except Exception as ex:
+        # a Pool waits forever for exceptions that can't be unpickled
+        try:
+            pickle.loads(pickle.dumps(ex))
+        except Exception:
+            raise RuntimeError(f"{type(ex)}: {ex}")
+        raise
+
+
 def _chunkwrap(func, argrecs):
     return {
-        rec['key']: MaybeResult(func, rec['args'], rec['kwargs']).value
+        rec['key']: MaybeResult(
+            _call_remotely, (func, rec['args'], rec['kwargs']), {}
+        ).value
         for rec in argrecs
     }
 
@@ -398,7 +413,7 @@ class MaybePool:
         kwargs = {} if kwargs is None else kwargs
         if self.pool is None:
             return MaybeResult(func, args, kwargs)
-        return self.pool.apply_async(func, args, kwargs)
+        return self.pool.apply_async(_call_remotely, (func, args, kwargs))
 
     def close(self):
         if self.pool is None:
-- 
2.43.0

