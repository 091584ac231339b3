From 313cfb2fb4068ad46437389294a765a88164858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 001/107] fix: cache the platform helper class so path types
 match

EatPath.__new__ made a new type for every instance on 3.12 and later so
type checks between paths of the same class always failed, which broke
e.g. moving a cached path to its remote.
---
 augpathlib/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..33ea5d3 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -934,8 +934,13 @@ class EatPath(EatHelper, AugmentedPath):
         def __new__(cls, *args, **kwargs):
             helper = ADSHelper if os.name == 'nt' else XattrHelper
             if helper not in cls.mro():
-                # FIXME do we need to cache these so the types match?
-                cls = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+                # cache the class so that the types of paths constructed
+                # from the same class match, look only in the __dict__ so
+                # that child classes do not get the class of their parent
+                if '_helper_class' not in cls.__dict__:
+                    cls._helper_class = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+
+                cls = cls._helper_class
 
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From a2dbfd5b63cda4a92d2a2825489ca97cf75da1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 002/107] fix: PathMeta.__getitem__ return the value

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..355ac88 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -140,7 +140,7 @@ class PathMeta:
 
     def __getitem__(self, key):
         try:
-            getattr(self, key)
+            return getattr(self, key)
         except AttributeError as e:
             raise KeyError(key)
 
-- 
2.43.0


From 1a7c8356664adca9d5d1492e7c36543be6862b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 003/107] fix: PathMeta.__reduce__ return a tuple so copy and
 pickle work

---
 augpathlib/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 355ac88..77cd3e9 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -4,6 +4,7 @@ Classes for storing and converting metadata associated with path like objects.
 import pickle
 import struct
 import pathlib
+import functools
 from datetime import datetime
 from dateutil import parser as dateparser
 from terminaltables3 import AsciiTable
@@ -148,7 +149,10 @@ class PathMeta:
         yield from (k for k in self.__dict__ if not k.startswith('_'))
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        # the arguments have to be a tuple and __init__ only takes keywords
+        kwargs = {k:v for k, v in self.items() if v is not None}
+        kwargs.update(getattr(self, '_PathMeta__kwargs', {}))
+        return functools.partial(self.__class__, **kwargs), tuple()
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
-- 
2.43.0


From 036ad62e3e8e1e019d24dcde7ec32256532a37ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 004/107] fix: PathMeta.__eq__ compare the values of created
 and updated

whether they were provided as a string or as a datetime is internal and
comparing it made metadata that was read back unequal to what was written
---
 augpathlib/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 77cd3e9..ede0a58 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -160,7 +160,9 @@ class PathMeta:
 
     def __eq__(self, other):
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
+             # use items because how created and updated are
+             # stored internally depends on how they were provided
+             for field, value in self.items():
                   if value != getattr(other, field):
                        return False
              else:
-- 
2.43.0


From c415afcd0666eac0913c3052eb041acca734582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 005/107] fix: symlink metadata reject values that do not read
 back as written

a | or ! was only rejected if it was alongside a / or a . and without
them was read back as a / or a ., user_id errors and checksum_cypher were
never unescaped, and the string # was read back as None
---
 augpathlib/meta.py | 65 ++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index ede0a58..9a333ff 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -314,26 +314,33 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return self.empty
 
         if field in ('errors',):
-            return self.subfieldsep.join(value)
+            value = self.subfieldsep.join(value)
 
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
+        if isinstance(value, str) and value == self.empty:
+            msg = f'would be read back as None {field}: {value!r}'
+            raise ValueError(msg)  # FIXME error type
+
+        if isinstance(value, str) and self.pathsep in value:
+            # even without a / in the value it would be read back as one
+            msg = f'Y U DO DIS >:| {field}: {value!r}'
+            raise ValueError(msg)  # FIXME error type
+
         if isinstance(value, str) and '/' in value:
-            if self.pathsep in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-            elif field == 'name':
+            if field == 'name':
                 msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
                 raise ValueError(msg)  # FIXME error type
 
             value = value.replace('/', self.pathsep)
 
-        if isinstance(value, str) and self.fieldsep in value:
-            if self.fieldsep_esc in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
+        if isinstance(value, str) and self.fieldsep_esc in value:
+            # even without a . in the value it would be read back as one
+            msg = f'Y U DO DIS >:| {field}: {value!r}'
+            raise ValueError(msg)  # FIXME error type
 
+        if isinstance(value, str) and self.fieldsep in value:
             value = value.replace(self.fieldsep, self.fieldsep_esc)
 
         return _str_encode(field, value)
@@ -343,6 +350,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return None
 
         if field == 'errors':
+            value = self.decode_str(field, value, version)
             return [_ for _ in value.split(self.subfieldsep) if _]
 
         elif field in ('created', 'updated'):
@@ -353,9 +361,6 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             #return value.encode()
             return bytes.fromhex(value)
 
-        elif field == 'checksum_cypher':
-            return value
-
         elif field == 'etag':
             checksum, strcount = value.rsplit('-', 1)
             count = int(strcount)
@@ -365,23 +370,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             try:
                 return int(value)
             except ValueError:  # FIXME :/ uid vs owner_id etc ...
-                return value
-
-        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
-            if self.pathsep in value:
-                if field == 'name':
-                    if version >= 5:
-                        msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
-                        raise ValueError(msg)  # FIXME error type
+                return self.decode_str(field, value, version)
 
-                    value = value.replace(self.pathsep, '.')
-                else:
-                    value = value.replace(self.pathsep, '/')
-
-            if version >= 5 and self.fieldsep_esc in value:
-                value = value.replace(self.fieldsep_esc, self.fieldsep)
-
-            return value
+        elif field in ('name', 'id', 'mode', 'old_id', 'parent_id', 'checksum_cypher'):
+            return self.decode_str(field, value, version)
 
         else:
             try:
@@ -392,6 +384,23 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
         return value
 
+    def decode_str(self, field, value, version):
+        """ undo the escaping of strings done in encode """
+        if self.pathsep in value:
+            if field == 'name':
+                if version >= 5:
+                    msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
+                    raise ValueError(msg)  # FIXME error type
+
+                value = value.replace(self.pathsep, '.')
+            else:
+                value = value.replace(self.pathsep, '/')
+
+        if version >= 5 and self.fieldsep_esc in value:
+            value = value.replace(self.fieldsep_esc, self.fieldsep)
+
+        return value
+
     def as_symlink(self, pathmeta, local_name=None):
         """ encode meta as a relative path to be appended as a child,
             not a sibbling, if local_name is not None it is prepended
-- 
2.43.0


From cd9bbb37f3d28ee82cf546bc3698023f6ca965df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 006/107] fix: symlink metadata keep a file_id of 0

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 9a333ff..f692461 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -305,7 +305,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
     def encode(self, field, value):
         if field == 'file_id':
-            if not value:
+            if not value and value != 0:
                 if value is not None:
                     log.critical(f'{value!r} for file_id empty but not None!')
                 value = None
-- 
2.43.0


From e7c958cb27baf1478b3d652ac23fe4c30828bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 007/107] fix: symlink metadata read the original unversioned
 format

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index f692461..b87dbb3 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -464,7 +464,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        vint = 0 if version == 'meta' else int(version[3:])
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From 23dfdaf1de937b790a5c9c13b4c80fb8476ac61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 008/107] fix: symlink metadata reject an empty id

---
 augpathlib/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b87dbb3..f9f3967 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -425,6 +425,9 @@ class _PathMetaAsSymlink(_PathMetaConverter):
         gen = (self.encode(field, multigetattr(pathmeta, field, None))
                for field in self.order_all)
 
+        if pathmeta.id == '':
+            raise ValueError('an empty id would produce an absolute path')
+
         id = self.encode('id', pathmeta.id)
 
         path_string = id + f'/.{self.write_version}.' + self.fieldsep.join(gen)
-- 
2.43.0


From 6a0a7fe7bf0adde34f3f9b3d86a16b51ddc040b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 009/107] fix: only blame a case insensitive file system if
 both cases exist

the lower case path was tested twice so a symlink with the wrong name in
any lower case folder raised FileNotFoundError and hit the breakpoint
---
 augpathlib/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index f9f3967..c09d6c4 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -451,8 +451,9 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
         if match_name and symlink_path.name != local_name:
             _l = symlink_path.as_posix().lower()
+            _u = symlink_path.as_posix().upper()
             l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
+            u = pathlib.Path(_u).parent
             if l.exists() and u.exists():
                 breakpoint()
                 # You've been hit by a case insenstivie file system!
-- 
2.43.0


From 77805961a3373471abc0742342d89b794bdac52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 010/107] fix: pretty diff show every field of both sides
 exactly once

---
 augpathlib/meta.py | 44 +++++++-------------------------------------
 1 file changed, 7 insertions(+), 37 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index c09d6c4..c8d643a 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -773,46 +773,16 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
             title = red.format(title)
 
         def merge(a, b):
-            keys = [k for k, _ in a]
-            okeys = [ok for ok, _ in b]
-            kind = [(k, okeys.index(k) - i, k)
-                    if k in okeys else
-                    (None, 0, k) for i, k in enumerate(keys)]
-            okind = [(ok, keys.index(ok) - i, ok)
-                     if ok in keys else
-                     (None, 0, ok) for i, ok in enumerate(okeys)]
-            long, short = ((kind, okind)
-                           if len(kind) > len(okind) else
-                           (okind, kind))
-            start_align = None
-            aligned = []
-            offset = 0
-            for i, (k, v, av) in enumerate(long):
-                i -= offset
-                if k is None and start_align is None:
-                    aligned.append(av)
-                    aligned.append(short[i + v][-1])
-                elif k is not None:
-                    if v <= 0:
-                        start_align = i
-                        aligned.append(av)
-                    else:
-                        for j in range(v):
-                            aligned.append(short[i + j][-1])
-                        offset += v
-                        aligned.append(av)
-
-                elif k is None:
-                    aligned.append(av)
-                # FIXME what to do if short has a key that long does not?
-
-            lkv = len(a[0])
-            lokv = len(b[0])
+            # the rows are already in field order so put each field on
+            # a single row that is shared by the sides that have it
             kv = {k:[k, v] for k, v in a}
             okv = {k:[k, v] for k, v in b}
+            extra = [k for k in (*kv, *okv) if k not in self.fields]
+            aligned = [k for k in (*self.fields, *sorted(set(extra)))
+                       if k in kv or k in okv]
             for k in aligned:
-                l = kv[k] if k in kv else ([''] * lkv)
-                r = okv[k] if k in okv else ([''] * lokv)
+                l = kv[k] if k in kv else ['', '']
+                r = okv[k] if k in okv else ['', '']
                 yield l + r
 
         h = [['Key', 'Value', 'Key Other', 'Value Other']]
-- 
2.43.0


From f3ded2911edf791c790a71b7dc8311f1190916ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 011/107] fix: content_different when there is no updated
 timestamp

---
 augpathlib/meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index c8d643a..9f47cf6 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -123,6 +123,9 @@ class PathMeta:
             return self.checksum != other.checksum
         else:
             return (self.size != other.size or
+                    # no evidence without both timestamps
+                    self.updated is not None and
+                    other.updated is not None and
                     self.updated < other.updated)
 
     def items(self):
-- 
2.43.0


From ce18ec021fbb85de115f76e055606558e824c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 012/107] fix: etag can be updated after a digest

an early digest consumed the partial chunk so that further updates
produced parts that did not match the chunks of the data
---
 augpathlib/utils.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..c118386 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -205,27 +205,17 @@ class etag:
         self._m = self.cypher()
         self._parts = []
         self._remainder = b''
-        self._last_chunksize = 0
 
     def update(self, bytes_):
         remainder, self._remainder = self._remainder, b''
         bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
         while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
             chunk = self._remainder
-            self._remainder = bio.read(chunksize)
+            self._remainder = bio.read(self.chunksize)
             if not self._remainder:
                 # the second time around at the end this will break the loop if the chunk
                 # is exactly equal to the chunk size
-                if len(chunk) < chunksize:
+                if len(chunk) < self.chunksize:
                     self._remainder = chunk
                     return
 
@@ -233,23 +223,20 @@ class etag:
                 self._m.update(chunk)  # empty remainder doesn't advance the function
                 digest = self._m.digest()
                 self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
+                self._parts.append(digest)
 
     def digest(self):
+        parts = list(self._parts)
         if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+            # in case someone calls an early digest the state must not
+            # change so that further updates continue the current chunk
+            m = self._m.copy()
+            m.update(self._remainder)
+            parts.append(m.digest())
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From 4c7dd14cd718161bcedb096ef4ed9fe4cb9d4801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 013/107] fix: pass the chunksize to etag when making metadata

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 33ea5d3..bffe969 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1290,7 +1290,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
-- 
2.43.0


From f47ee18f097f0a35780b8f4f21c7dd802e3284c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 014/107] fix: swap relative paths are relative to the working
 directory

---
 augpathlib/swap.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..7d8a636 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -14,6 +14,7 @@ def swap_not_implemented(self, target):
 if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
+    AT_FDCWD = -100  # from /usr/include/linux/fcntl.h
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
     libc = ctypes.CDLL(None)
     rnat2_syscall = libc.syscall
@@ -27,15 +28,12 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
-        old_path = os.fspath(self).encode()
-        new_path = os.fspath(target).encode()
+        # relative paths are relative to the current working directory
+        old_path = os.fsencode(self)
+        new_path = os.fsencode(target)
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
             raise OSError(value, 'renameat2 failed', self, None, target)
-- 
2.43.0


From 6f1743f0cb72ee10375cdfc815685e62546528ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 015/107] fix: swap_carefree put everything back if it fails

---
 augpathlib/core.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index bffe969..1f56c0e 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -552,10 +552,20 @@ class AugmentedPath(pathlib.Path):
             # rename target -> temp
             # rename self -> target
             # rename target -> self
-            target.rename(temp)
-            self.rename(target)
-            temp.rename(self)
-            temp_dir.rmdir()
+            try:
+                target.rename(temp)
+                try:
+                    self.rename(target)
+                    try:
+                        temp.rename(self)
+                    except BaseException:
+                        target.rename(self)
+                        raise
+                except BaseException:
+                    temp.rename(target)
+                    raise
+            finally:
+                temp_dir.rmdir()
 
     if sys.platform != 'linux':  # just look at us not using pathlib's infra ...
         _swap = swap.swap_not_implemented
-- 
2.43.0


From 3613c1045c62c53f1adc312485b8145c3b0eab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 016/107] fix: rmtree report errors from listing the folder

---
 augpathlib/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 1f56c0e..802dc3a 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -674,6 +674,7 @@ class AugmentedPath(pathlib.Path):
             elif self == pathlib.Path.cwd():
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
+        path = self
         try:
             if self.is_dir():
                 if self.is_symlink():
@@ -700,7 +701,6 @@ class AugmentedPath(pathlib.Path):
                 path = self
                 self.rmdir()
             else:
-                path = self
                 self.unlink()
 
         except exc.WillNotRemovePathError:
@@ -709,7 +709,7 @@ class AugmentedPath(pathlib.Path):
         except BaseException as e:
             if not ignore_errors:
                 if onerror is not None:
-                    ftype = 'rmdir' if path.is_dir() else 'unlink'
+                    ftype = 'rmdir' if os.path.isdir(path) else 'unlink'
                     func = getattr(path, ftype)
                     onerror(func, path, sys.exc_info())
                 else:
-- 
2.43.0


From e6528f8a86fae94065f6c5f8b8ea6b0ed25ef8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 017/107] fix: rmtree keep going after a link that cannot be
 removed

---
 augpathlib/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 802dc3a..25c9a1d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -692,7 +692,15 @@ class AugmentedPath(pathlib.Path):
                     if path.is_symlink():
                         # mimic shutil behavior and don't accidentally
                         # recurse through symlinks (keyword being curse)
-                        path.unlink()
+                        try:
+                            path.unlink()
+                        except OSError:
+                            # like any other file, continue with the rest
+                            if not ignore_errors:
+                                if onerror is None:
+                                    raise
+
+                                onerror(path.unlink, path, sys.exc_info())
                     else:
                         path.rmtree(ignore_errors=ignore_errors,
                                     onerror=onerror,
-- 
2.43.0


From b65883c561eb52003a32e2a9b1bb4859932e6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 018/107] fix: rmtree refuse dangerous paths however they are
 spelled

---
 augpathlib/core.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 25c9a1d..7438aca 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -666,12 +666,21 @@ class AugmentedPath(pathlib.Path):
 
         if not (DANGERZONE is True):  # prevent python type coersion
             # TODO test in a chroot
-            lenparts = len(self.parts)
-            if lenparts <= 2:
-                raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
-            elif lenparts <= 3 and 'home' in self.parts:
-                raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
-            elif self == pathlib.Path.cwd():
+            if self.name == '..':
+                actual = pathlib.Path(os.path.realpath(self))
+            else:
+                # self itself is never followed if it is a symlink
+                actual = pathlib.Path(os.path.realpath(self.parent.as_posix())) / self.name
+
+            for parts in (self.parts, actual.parts):
+                # .. and symlinks can be used to spell any path
+                lenparts = len(parts)
+                if lenparts <= 2:
+                    raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
+                elif lenparts <= 3 and 'home' in parts:
+                    raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
+
+            if actual == pathlib.Path.cwd():
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
         path = self
-- 
2.43.0


From 125695f7bc3e52269b995df5c86176e59ef607fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 019/107] fix: with path restore the working directory when
 entered again

---
 augpathlib/caches.py |  3 ++-
 augpathlib/core.py   | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..572fc72 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -37,8 +37,9 @@ class _CachePath(AugmentedPath):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
+            entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
             self.chdir()
+            self._entered(entered_from)
             return self
         else:
             super().__enter__(self)
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 7438aca..c7bed0f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -757,18 +757,26 @@ class AugmentedPath(pathlib.Path):
         else:
             log.warning('popd: directory stack empty')
 
+    def _entered(self, entered_from):
+        # the same path object can be entered more than once
+        if not hasattr(self, '_entered_from'):
+            self._entered_from = []
+
+        self._entered_from.append(entered_from)
+
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
+            entered_from = self.cwd()
             self.chdir()
+            self._entered(entered_from)
             return self
         else:
             super().__enter__()
 
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from'):
+        if hasattr(self, '_entered_from') and self._entered_from:
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            self._entered_from.pop().chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From f67903bffe6e190c62dea6b31f9e01f29c2f9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 020/107] fix: pushd and popd leave the stack alone when
 changing directory fails

---
 augpathlib/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index c7bed0f..46226a6 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -737,8 +737,9 @@ class AugmentedPath(pathlib.Path):
 
     def pushd(self):
         if self.is_dir():
-            AugmentedPath._stack.append(self.cwd())
+            here = self.cwd()
             self.chdir()
+            AugmentedPath._stack.append(here)
             print(*reversed(AugmentedPath._stack), self.cwd())
         else:
             raise NotADirectoryError(f'{self} is not a directory')
@@ -750,8 +751,9 @@ class AugmentedPath(pathlib.Path):
         # so we invert the N dex
         reversed_index = - (N + 1)
         if AugmentedPath._stack:
-            path = AugmentedPath._stack.pop(reversed_index)
+            path = AugmentedPath._stack[reversed_index]
             path.chdir()
+            AugmentedPath._stack.pop(reversed_index)
             print(*reversed(AugmentedPath._stack), AugmentedPath.cwd())
             return path
         else:
-- 
2.43.0


From 5855a495a03cabc10804a067cb6d3a1a3e6f7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 021/107] fix: write empty data

---
 augpathlib/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 46226a6..b2735bc 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1395,7 +1395,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1405,7 +1405,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1448,7 +1448,7 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
             f.write(chunk1)
             yield chunk1
-- 
2.43.0


From 1892304bb73c34921dee23f7ec0e25402a8b67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 022/107] fix: read ranges that are exactly one chunk

---
 augpathlib/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index b2735bc..a8e93dd 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1362,12 +1362,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.seek(start, 2 if start < 0 else 0)
                 if end is not None:
                     total = end - start
-                    if total < chunksize:
-                        nchunks = 0
-                        last_chunksize = total
-                    elif total > chunksize:
-                        nchunks, last_chunksize = divmod(total, chunksize)
-
+                    nchunks, last_chunksize = divmod(total, chunksize)
                     for _ in range(nchunks):  # FIXME boundscheck ...
                         yield f.read(chunksize)
 
-- 
2.43.0


From b19331e16f0b60a126afe38a91fefddb5b596176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 023/107] fix: copy_to do not destroy the data when source and
 target are the same file

---
 augpathlib/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a8e93dd..7af28bb 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1458,6 +1458,10 @@ class LocalPath(EatPath, AugmentedPath):
             target = self.__class__(target)
 
         if not target.exists() and not target.is_symlink() or force:
+            if target.exists() and self.exists() and self.samefile(target):
+                # opening target to write to it removes the data we want to copy
+                raise shutil.SameFileError(f'{self} and {target} are the same file')
+
             target.data = self.data
         else:
             raise exc.PathExistsError(f'{target}')
-- 
2.43.0


From 17634ac51d7aaa823a54f83373c46cb796316e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 024/107] fix: children only ignore the exact names

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 7af28bb..d98c1b2 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1491,7 +1491,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
-- 
2.43.0


From ffaabe555564de8fb8fc22b10add33df94155f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 025/107] fix: LocalPath.created return the value

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d98c1b2..ffb510e 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1229,7 +1229,7 @@ class LocalPath(EatPath, AugmentedPath):
 
     @property
     def created(self):
-        self.meta.created
+        return self.meta.created
 
     def _stat(self):
         """ sometimes python just doesn't have what it takes """
-- 
2.43.0


From 9d4fe8678320e7e7d8bfa39c9dce9f28571d4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 026/107] fix: LocalPath metadata caching must not mix requests
 with and without checksum

---
 augpathlib/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index ffb510e..3c0167b 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1278,9 +1278,13 @@ class LocalPath(EatPath, AugmentedPath):
             st = self._stat()
 
         # FIXME nanos vs millis ??
-        change_tuple = (fs_metadata_changed_time,
-                        fs_data_modified_time) = (st.st_ctime,
-                                                  st.st_mtime)
+        fs_metadata_changed_time, fs_data_modified_time = st.st_ctime, st.st_mtime
+
+        # what was asked for is included because metadata without a
+        # checksum cannot be used when the checksum is needed
+        change_tuple = (getattr(st, 'st_ctime_ns', st.st_ctime),
+                        getattr(st, 'st_mtime_ns', st.st_mtime),
+                        st.st_ino, st.st_size, checksum, chunksize)
 
         if hasattr(self, '_meta') and self._meta is not None:
             if self.__change_tuple == change_tuple:
-- 
2.43.0


From aded989e1f0ac7a115a2042a6aad8f2d9e776dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 027/107] fix: StatResult parse any file name

---
 augpathlib/core.py  | 7 +++++--
 augpathlib/utils.py | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 3c0167b..b963237 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1235,11 +1235,14 @@ class LocalPath(EatPath, AugmentedPath):
         """ sometimes python just doesn't have what it takes """
         # we can't define this or use error trapping in self.stat() directly
         # because it will bolox other things that need stat to fail correctly
-        cmd = ['stat', self.as_posix(), '-c', StatResult.stat_format]
+        cmd = ['stat', '-c', StatResult.stat_format, '--', self.as_posix()]
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
         out, errs = p.communicate()
         # local results retain the quotes where pexpect does not
-        out = out.strip(b'"').rstrip().rstrip(b'"')
+        out = out.rstrip().rstrip(b'"')
+        if out.startswith(b'"'):  # only ours, the name can have its own
+            out = out[1:]
+
         if not out and errs:
             p.returncode
             raise OSError
diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index c118386..7f4644f 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -165,11 +165,11 @@ class StatResult:
     # so probably better to check for gstat first  # also -f instead of -c
 
     def __init__(self, out):
-        out = out.decode()
+        out = os.fsdecode(out)
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        wat = out.rsplit('  ', 14)  # names can contain anything
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
-- 
2.43.0


From 12c6dd470041f0911d389f82f7f9605179bb8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 028/107] fix: StatResult nanoseconds count forward before 1970
 as well

---
 augpathlib/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7f4644f..fdf1a2e 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -179,21 +179,21 @@ class StatResult:
         def ns(hr):
             date, time, zone = hr.split(' ')
             time, ns = time.split('.')
-            return '.' + ns
+            return int(ns) * 1e-9
 
         self.st_ino = int(ino)
         self.st_blksize = int(hint)
         self.st_size = int(size)
         #self.st_birthtime
-        self.st_atime = float(access + ns(ha)) 
-        self.st_mtime = float(modified + ns(hm))
-        self.st_ctime = float(changed + ns(hc))
+        self.st_atime = int(access) + ns(ha) 
+        self.st_mtime = int(modified) + ns(hm)
+        self.st_ctime = int(changed) + ns(hc)
         self.st_gid = int(gid)
         self.st_uid = int(uid)
         self.st_mode = int.from_bytes(bytes.fromhex(raw_mode), 'big')
 
         if hb != '-' and birth != '0':
-            self.st_birthtime = float(birth + ns(hb))
+            self.st_birthtime = int(birth) + ns(hb)
 
 
 class etag:
-- 
2.43.0


From bcb095b097d8bd44e05bfc6fa62f9252f7753ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 029/107] fix: rmtree refuse to remove a parent of the working
 directory up front

---
 augpathlib/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index b963237..b39173b 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -680,7 +680,10 @@ class AugmentedPath(pathlib.Path):
                 elif lenparts <= 3 and 'home' in parts:
                     raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
 
-            if actual == pathlib.Path.cwd():
+            cwd = pathlib.Path.cwd()
+            if actual == cwd or actual in cwd.parents:
+                # if the working directory is below we would get stuck
+                # there after having removed some of the other contents
                 raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
 
         path = self
-- 
2.43.0


From a0446d3d538843deba283f790a6120836dca06c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 030/107] fix: with path only return to where it was entered
 from

---
 augpathlib/caches.py | 2 +-
 augpathlib/core.py   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 572fc72..632e2ba 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -42,7 +42,7 @@ class _CachePath(AugmentedPath):
             self._entered(entered_from)
             return self
         else:
-            super().__enter__(self)
+            super().__enter__()
 
     @classmethod
     def setup(cls, local_class, remote_class_factory):
diff --git a/augpathlib/core.py b/augpathlib/core.py
index b39173b..7ee1a31 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -777,11 +777,13 @@ class AugmentedPath(pathlib.Path):
             return self
         else:
             super().__enter__()
+            self._entered(None)
 
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from') and self._entered_from:
-            # if is_dir fails because of a change still try to return
-            self._entered_from.pop().chdir()
+        # if is_dir fails because of a change still try to return
+        entered_from = self._entered_from.pop()
+        if entered_from is not None:
+            entered_from.chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From a97702cc1a58234491c3cc63a95666a6c0960286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 031/107] fix: a link to a name that is too long is broken on
 all platforms

---
 augpathlib/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 7ee1a31..a8e3519 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -31,14 +31,11 @@ from augpathlib.utils import _bind_sysid_, AUG_XATTR_PREFIX
 
 SPARSE_KEY = (AUG_XATTR_PREFIX + '.sparse')
 
-_IGNORED_ERROS = (ENOENT, ENOTDIR, EBADF, ELOOP)
+_IGNORED_ERROS = (ENOENT, ENOTDIR, EBADF, ELOOP, errno.ENAMETOOLONG)
 _IGNORED_WINERRORS = (
     123,  # 'The filename, directory name, or volume label syntax is incorrect' -> 22 EINVAL
 )
 
-if sys.platform == 'darwin':
-    _IGNORED_ERROS += (errno.ENAMETOOLONG,)
-
 
 if os.name != 'nt':
     import xattr
-- 
2.43.0


From e280f88c5d4e04bf2ec946b2657b034c03b8c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 032/107] fix: paths that are not in a zip file behave as
 ordinary paths

---
 augpathlib/zip.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..8532891 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -121,8 +121,10 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
-                self.zip_relative_path.exists())
+        if self.zip_path is None:
+            return super().exists()
+        else:
+            return self.zip_relative_path.exists()
 
     @property
     def ZipInternalPath(self):
@@ -158,7 +160,7 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
+                if zipfile.is_zipfile(self):
                     self._c_zip_path = self
                     self.ZipInternalPath()
                 else:
@@ -173,7 +175,7 @@ class ZipHelper:
             for child in self.zip_relative_path.rchildren:
                 yield self.zip_path / child
         else:
-            yield from super().rchildren
+            yield from self.rglob('*')
 
     def open(self, *args, **kwargs):
         if self.zip_path is not None:
-- 
2.43.0


From 9b75c1e47aa0c548bf5d5e52ab389545513af04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 033/107] fix: zip data only close what it opened

---
 augpathlib/zip.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 8532891..7ec0190 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -101,16 +101,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
-
-                    yield data
-        finally:
-            self.close()
+        with self.open() as f:
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
+
+                yield data
 
 
 ZipInternalPath._bind_flavours()
-- 
2.43.0


From 10a05035e3f2be27eabbc0e94d07b5676b5120d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 034/107] fix: missing paths in a zip file are not folders and
 the top of an empty one exists

---
 augpathlib/zip.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 7ec0190..169ab84 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -23,7 +23,8 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         zipath._bind_flavours()
         paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
         parents = set(parent for path in paths for parent in path.parents)
-        zipath._paths = {p:p for p in parents | paths}
+        root = zipath()  # also when the zip file is empty
+        zipath._paths = {p:p for p in parents | paths | {root}}
         return zipath
 
     def __new__(cls, *args, info=None, **kwargs):
@@ -73,7 +74,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -83,7 +84,9 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if not self.exists():
+            raise FileNotFoundError(self)
+        elif not self.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
-- 
2.43.0


From e86a215bcae2fbcf55f56ac543c9b497ba552199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 035/107] fix: do not use the contents of a zip file that has
 been replaced

---
 augpathlib/zip.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 169ab84..1f6acb4 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -129,11 +129,16 @@ class ZipHelper:
     @property
     def ZipInternalPath(self):
         zp = self.zip_path
-        if zp is not None and zp not in self._zfc_cache:
-            zipath = ZipInternalPath._new(zp)
-            self._zfc_cache[zp] = zipath
+        if zp is None:
+            return None
 
-        return self._zfc_cache.get(zp, None)
+        # the file at zp can be replaced, and relative paths can move
+        st = zp.stat()
+        version = st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns
+        if zp not in self._zfc_cache or self._zfc_cache[zp][0] != version:
+            self._zfc_cache[zp] = version, ZipInternalPath._new(zp)
+
+        return self._zfc_cache[zp][1]
 
     @property
     def zip_relative_path(self):
-- 
2.43.0


From 85eddcfa484aba098207d313c57e20ca1ac48f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 036/107] fix: do not try to read a pipe to see if it is a zip
 file

---
 augpathlib/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 1f6acb4..7fd25fc 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -165,7 +165,7 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if zipfile.is_zipfile(self):
+                if self.is_file() and zipfile.is_zipfile(self):  # never block on a pipe
                     self._c_zip_path = self
                     self.ZipInternalPath()
                 else:
-- 
2.43.0


From 204193a6a7a9e6934f84b9df71d6974c0222705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 037/107] fix: indexed and diff against the index did not work

---
 augpathlib/repo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..b871055 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -237,6 +237,9 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
+        if isinstance(other, self._git.IndexFile):
+            other = other.INDEX  # git does not know about python objects
+
         list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
         if list_:
             return list_[0]
-- 
2.43.0


From daf11762d28c70a60a16462843bd48d76231ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 038/107] fix: history and changes of a path are not those of
 other paths it matches or links to

---
 augpathlib/repo.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index b871055..4aa6991 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -143,6 +143,20 @@ class RepoHelper:
 
     path_relative_repo = repo_relative_path
 
+    @property
+    def _pathspec(self):
+        """ a git pathspec that matches only this path (or what is below it)
+            even if there are special characters in the name """
+        rel = self.repo_relative_path
+        if not rel.parts:
+            return ':(top)'
+
+        wd = pathlib.Path(self.repo.working_dir)
+        # folders can be reached via symlinks but a symlink is itself
+        parent = (wd / rel).parent.resolve()
+        path = (parent / rel.name).relative_to(wd.resolve())
+        return ':(top,literal)' + path.as_posix()
+
     def _remote_helper(self):
         repo = self.repo
         remote = repo.remote()
@@ -203,7 +217,7 @@ class RepoHelper:
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self.expanduser().resolve().as_posix(),
+                                               paths=self._pathspec,
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -211,7 +225,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self.expanduser().resolve().as_posix(),
+            paths=self._pathspec,
             # TODO --follow
             max_count=max_count)
 
@@ -240,7 +254,7 @@ class RepoHelper:
         if isinstance(other, self._git.IndexFile):
             other = other.INDEX  # git does not know about python objects
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        list_ = this.diff(other=other, paths=self._pathspec, create_patch=create_patch)
         if list_:
             return list_[0]
 
-- 
2.43.0


From 40f11cf1dc49bf53cdda6b2cb4c9781cb5521979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 039/107] fix: show returns all the bytes including the final
 newline

---
 augpathlib/repo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 4aa6991..148ea27 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -364,8 +364,9 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
-            return decoded.encode('utf-8', 'surrogateescape')
+            return self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+                                      stdout_as_string=False,
+                                      strip_newline_in_stdout=False)
 
         return  # unfortunately traversing the tree is a pain for this
         def ref_to_object(ref_):
-- 
2.43.0


From 269640c1bbbb102ac16f7a095aa0812a4412fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 040/107] fix: init of a missing folder inside a repo is a
 RepoExistsError

---
 augpathlib/repo.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 148ea27..4a27186 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -76,13 +76,7 @@ class RepoHelper:
             repo = None
 
         if repo is not None:
-            if not self.exists():
-                msg = f'how!? {self!r} != {repo.working_dir}'
-                assert repo.working_dir == self.as_posix(), msg
-                log.warning(f'stale cache on deleted repo {self!r}')
-                self._repos.pop(self)
-            else:
-                raise exc.RepoExistsError(f'{repo}')
+            raise exc.RepoExistsError(f'{repo}')
 
         if remote is not None:
             if isinstance(remote, pathlib.Path):
-- 
2.43.0


From bcebd5fa7a8be58f2ed116883777aae40df050d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 041/107] fix: do not use the cached repo of a folder that has
 been removed and created again

---
 augpathlib/repo.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 4a27186..f0d8a65 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -86,21 +86,34 @@ class RepoHelper:
         else:
             repo = self._repo_class.init(self)
 
-        self._repos[self] = repo
+        self._cache_repo(self, repo)
         return repo
 
+    def _cache_repo(self, path, repo):
+        s = path.stat()
+        repo._working_dir_id = s.st_dev, s.st_ino
+        self._repos[path] = repo
+
     @property
     def repo(self):
         wd = self.working_dir
-        if wd in self._repos:
-            return self._repos[wd]
-        elif wd is not None:
-            repo = self._repo_class(wd.as_posix())
-            self._repos[wd] = repo
-            return repo
-        else:
+        if wd is None:
             raise exc.NotInRepoError(f'{self} is not in a git repository')
 
+        if wd in self._repos:
+            repo = self._repos[wd]
+            s = wd.stat()
+            if repo._working_dir_id == (s.st_dev, s.st_ino):
+                return repo
+
+            # the folder was removed and another one is there now, the
+            # git processes of the old repo still run in the old folder
+            self._repos.pop(wd).close()
+
+        repo = self._repo_class(wd.as_posix())
+        self._cache_repo(wd, repo)
+        return repo
+
     @property
     def working_dir(self):
         # TODO match git behavior here
-- 
2.43.0


From b55d9363d461fdb372a9a6762df097e5531c7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 042/107] fix: the repo of a path with .. in it is the one that
 contains it

---
 augpathlib/repo.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index f0d8a65..44aed80 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -120,6 +120,9 @@ class RepoHelper:
         # https://github.com/git/git/blob/master/setup.c#L903
         # https://github.com/git/git/blob/08da6496b61341ec45eac36afcc8f94242763468/setup.c#L584
         # https://github.com/git/git/blob/bc12974a897308fd3254cf0cc90319078fe45eea/setup.c#L300
+        if '..' in self.parts:
+            return self._without_dotdot().working_dir
+
         if (self / '.git').exists():
             if not self.is_absolute():
                 # avoid cases where RepoPath('.') gets put in the repos cache
@@ -136,15 +139,22 @@ class RepoHelper:
             else:
                 return self.parent.working_dir
 
+    def _without_dotdot(self):
+        """ the parent of a/../b is not the folder that contains it """
+        path = self.expanduser().absolute()
+        if path.name == '..':
+            return path.resolve()
+        else:
+            return path.parent.resolve() / path.name
+
     @property
     def repo_relative_path(self):
         """ working directory relative path """
         repo = self.repo
         if repo is not None:
-            if not self.is_absolute():
-                path = self.expanduser().absolute()
-            else:
-                path = self
+            path = self._without_dotdot() if '..' in self.parts else self
+            if not path.is_absolute():
+                path = path.expanduser().absolute()
 
             return path.relative_to(repo.working_dir)
 
-- 
2.43.0


From 737a48ea340c054b995aaf3bdfa717cf5b1dda4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 043/107] fix: committing a path keeps all other staged changes
 and stashes as they are

---
 augpathlib/repo.py | 72 +++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 44aed80..e890ac8 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -324,45 +324,39 @@ class RepoHelper:
         """ commit from index
             git commit -m {message} --date {date} -- {self}
         """
-        # TODO
-        # use a modified Index.write_tree create an in memory tree
-        # filtering out changed files that are not the current file
-        # during the call to mdb.stream_copy, though it seems like
-        # the internal call to write_tree_from_cache may be writing
-        # all changes and calculating the sha from that so it may
-        # make more sense to try to filter entries instead ...
-        # but that means a blob may still be sitting there and
-        # get incorporated? I may have to use the full list of entries
-        # but sneekily swap out the entries for other changed files for
-        # the unmodified entry for their object, will need to experiment
-
-
-        if self.repo.active_branch.is_valid(): # handle the empty repo case
-            # HAH take that complexity!
-            _mes = self.repo.git.stash('push')
-            try:
-                # FIXME concurrent modification?!
-                try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                except self._git.exc.GitCommandError:
-                    pass
-
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
-            finally:
-                try:
-                    self.repo.git.stash('pop')
-                except self._git.exc.GitCommandError:
-                    pass
-        else:
-            try:
-                self.repo.tree()
-                raise ValueError('we are not in the situation we though we were in')
-            except:
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
+        repo = self.repo
+        try:
+            # if this path is known to git what is in the working tree is used
+            repo.git.add('-u', '--', self._pathspec)
+        except self._git.exc.GitCommandError:
+            pass
+
+        # the new tree is the current one with only the entries for this
+        # path taken from the index, neither the index nor the working
+        # tree are changed for any other path
+        rel = pathlib.PurePosixPath(self.repo_relative_path.as_posix())
+
+        def is_this(path):
+            path = pathlib.PurePosixPath(path)
+            return path == rel or rel in path.parents
+
+        index = repo.index
+        this = {key: entry for key, entry in index.entries.items()
+                if is_this(entry.path)}
+        entries = {}
+        if repo.head.is_valid():  # handle the empty repo case
+            # if this replaces a file by a folder then the file is gone
+            gone = rel.parents if this else ()
+            for item in repo.head.commit.tree.traverse():
+                if (item.type != 'tree' and not is_this(item.path) and
+                    pathlib.PurePosixPath(item.path) not in gone):
+                    entries[item.path, 0] = self._git.index.IndexEntry.from_base(
+                        self._git.index.BaseIndexEntry(
+                            (item.mode, item.binsha, 0, item.path)))
+
+        entries.update(this)
+        index.entries = entries  # NOTE not written
+        return index.commit(message=message, author_date=date)
 
     def commit_from_working_tree(self, message, *, date=None):
         """ commit from working tree by automatically adding to index
-- 
2.43.0


From 5cced4d1c4fa183944c1189f974543da222464a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 044/107] fix: clone_path is where git clones to if there are
 dots or colons in the remote

---
 augpathlib/repo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index e890ac8..ca6492f 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -34,7 +34,15 @@ class RepoHelper:
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
+        # like git clone, only .git is removed from the last component
+        name = str(remote).rstrip('/')
+        if name.endswith('/.git'):
+            name = name[:-len('/.git')].rstrip('/')
+
+        name = name.rsplit('/', 1)[-1].rsplit(':', 1)[-1]
+        if name.endswith('.git'):
+            name = name[:-len('.git')]
+
         return self / name
 
     def clone_from(self, remote, *, depth=None):
-- 
2.43.0


From 5934b408bea0f832ac55818b96c2cd71f82ba419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 045/107] fix: links for remotes with ssh or user or port or
 dots in the name

---
 augpathlib/repo.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index ca6492f..ff05985 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -188,15 +188,17 @@ class RepoHelper:
         rnprefix = remote.name + '/'
         url_base = next(remote.urls)
         if url_base.startswith('git@'):
-            url_base = 'ssh://' + url_base
+            host, _, path = url_base.partition(':')
+            url_base = 'ssh://' + host + '/' + path.lstrip('/')
 
         pu = urlparse(url_base)
         netloc = pu.netloc
-        path = pu.path
-        if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
-            netloc = 'github.com'
-            path = '/' + group + path
+        path = pu.path.rstrip('/')
+        if path.endswith('.git'):
+            path = path[:-len('.git')]
+
+        if pu.hostname == 'github.com':  # without user or port
+            netloc = pu.hostname
 
         return repo, rnprefix, url_base, netloc, path
 
@@ -215,9 +217,9 @@ class RepoHelper:
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / infix / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / ref / self.repo_relative_path
             return prefix + rpath.as_posix()
         elif url_base.startswith('/') and self.__class__(url_base).exists():
             other_rp = self.__class__(url_base)
@@ -229,7 +231,7 @@ class RepoHelper:
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
+        p = pathlib.PurePosixPath(path)
         return f'https://api.github.com/repos{p}' + endpoint
 
     def remote_uri_human(self, ref=None):
-- 
2.43.0


From 7c4ad9e68621f3d075dae58e48ac57f0309175e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 046/107] fix: entering an invalid ref is an InvalidRefError

---
 augpathlib/repo_patch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..d17963d 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,5 @@
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
-- 
2.43.0


From d02916c3ed6233672ee5ff22bd90c00b6c67788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 047/107] fix: leaving a ref restores the branch and the stash
 that were there before

---
 augpathlib/repo_patch.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index d17963d..1aeb0a8 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -64,30 +64,39 @@ class _Reference(git.Reference):
         self.__stash = self.repo.git.stash('--all')  # always stash
         if self.__stash == 'No local changes to save':
             self.__stash = None
+        else:
+            self.__stash = self.repo.git.rev_parse('refs/stash')
 
         if self == self.__original_branch:
             return self
 
-        self.checkout()
-        return self
-
-    def __exit__(self, exc_type, exc_value, traceback):
-        _stash = self.repo.git.stash('--all')  # always stash on the way out as well
-        if _stash == 'No local changes to save':
-            stash = 'stash@{0}'
-        else:
-            stash = "stash@{1}"
+        try:
+            self.checkout()
+        except BaseException:
+            self.__restore()
+            raise
 
-        if self.__original_branch != self:
-            self.__original_branch.checkout()
+        return self
 
-        # TODO check to make sure no other stashes were pushed on top
+    def __restore(self):
         if self.__stash is not None:
-            self.repo.git.stash('pop', stash)
+            # other stashes may have been pushed on top
+            stashes = self.repo.git.stash('list', '--format=%H').split()
+            stash = f'stash@{{{stashes.index(self.__stash)}}}'
+            try:
+                self.repo.git.stash('pop', '--index', stash)
+            except git.exc.GitCommandError:
+                self.repo.git.stash('pop', stash)
 
         self.__stash = None
 
+    def __exit__(self, exc_type, exc_value, traceback):
+        self.repo.git.stash('--all')  # always stash on the way out as well
+        self.__original_branch.checkout()
+        self.__restore()
+
 
 # monkey patch git.Reference
 git.Reference.__enter__ = _Reference.__enter__
 git.Reference.__exit__ = _Reference.__exit__
+git.Reference._Reference__restore = _Reference._Reference__restore
-- 
2.43.0


From ed131d783d7f8a671d4ea5074d28f8b28854cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 048/107] fix: show from the index for names that look like an
 index stage

---
 augpathlib/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index ff05985..20966d0 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -385,7 +385,7 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            return self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix(),
+            return self.repo.git.show((ref or ':0') + ':' + self.repo_relative_path.as_posix(),
                                       stdout_as_string=False,
                                       strip_newline_in_stdout=False)
 
-- 
2.43.0


From be934c624346a6d4c75b5939abddcaa6e6367369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 049/107] fix: show of a missing file with special characters
 is an error

---
 augpathlib/repo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 20966d0..a3f3a30 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -386,6 +386,7 @@ class RepoHelper:
                 return f.read()
         else:
             return self.repo.git.show((ref or ':0') + ':' + self.repo_relative_path.as_posix(),
+                                      '--',  # never a pathspec
                                       stdout_as_string=False,
                                       strip_newline_in_stdout=False)
 
-- 
2.43.0


From aaca3dac3b6369ad06d278d06c0c897842742b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 050/107] fix: the top of a repo can be below the home folder

---
 augpathlib/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index a3f3a30..34d9fa3 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -143,7 +143,7 @@ class RepoHelper:
 
         else:
             if not self.is_absolute():
-                return self.expanduser().absolute().parent.working_dir
+                return self.expanduser().absolute().working_dir
             else:
                 return self.parent.working_dir
 
-- 
2.43.0


From afd8a85b784402685c8e488a0bab85a42d760ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 051/107] fix: next version of a local version no longer fails

---
 augpathlib/package.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..599d5d8 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -121,7 +121,13 @@ def cons_next(d, ver, next):
         d['release'] = tuple(release)
     elif next == 'local':
         d.update(ver._version._asdict())
-        d['local'] = vinc(ver.local),
+        local = ver._version.local
+        if local is None:
+            d['local'] = vinc(None),
+        elif isinstance(local[-1], str):
+            d['local'] = *local, vinc(None)
+        else:
+            d['local'] = vinc(local)
     elif next is None:
         # FIXME this fails if you want to bump the release to go from release to dev
         # e.g. 0.1.27 -> 0.1.27.dev0 which is not a valid transition
-- 
2.43.0


From b86fcde1001b5f5662f82778180110e567e1380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 052/107] fix: next minor and micro version of shorter releases

---
 augpathlib/package.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 599d5d8..13ab539 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -107,9 +107,12 @@ def cons_next(d, ver, next):
     elif next in ('release', 'major', 'minor', 'micro'):
         # FIXME this incorrect?
         release = d['release']
+        if next in ('minor', 'micro'):  # extend shorter versions
+            n = ('minor', 'micro').index(next) + 2
+            release = (*release, *[0 for _ in range(n - len(release))])
+
         if next == 'release':
             release = (*release[:-1], vinc(release[-1]))
-        # FIXME index error or extent shorter version to that?
         elif next == 'major':
             release = vinc(release[0]), *[0 for _ in release[1:]]
         elif next == 'minor':
-- 
2.43.0


From 6f6161c5ec3dfc057ef8ad04b35dd2f3115f36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 053/107] fix: fields without a value do not stay behind in
 stored metadata

---
 augpathlib/caches.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 632e2ba..09bf2b0 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -2,7 +2,7 @@ import sys
 import pathlib
 import warnings
 from augpathlib import exceptions as exc
-from augpathlib.meta import PathMeta
+from augpathlib.meta import PathMeta, _PathMetaAsXattrs
 from augpathlib.core import AugmentedPath, EatPath
 from augpathlib.utils import log, fs_safe_id
 from augpathlib.utils import default_cypher, cypher_lookup
@@ -1092,7 +1092,14 @@ class EatCache(EatPath, _CachePath):
             # where the checksum differs, the old version needs to be
             # trashed before any of this is written, otherwise the old
             # metadata is lost >_<
-            self.setxattrs(pathmeta.as_xattrs(self.xattr_prefix))
+            xattrs = pathmeta.as_xattrs(self.xattr_prefix)
+            self.setxattrs(xattrs)
+            prefix = self.xattr_prefix + '.' if self.xattr_prefix else ''
+            fields = {(prefix + f).encode() for f in _PathMetaAsXattrs.fields}
+            for key in self.xattrs():  # fields that have no value anymore
+                if key in fields and key not in xattrs:
+                    self.delxattr(key)
+
             if hasattr(self, '_meta'):  # prevent reading from in-memory store
                 delattr(self, '_meta')
 
-- 
2.43.0


From 963928871d6ce2cdb02ef68ddebca210ff8348b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 054/107] fix: path of a cached remote is relative to the
 anchor

---
 augpathlib/remotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..bc6f7f8 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -474,8 +474,9 @@ class RemotePath:
                     for c_parent in cache_parent.parents:
                         if c_parent is None:
                             continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
+                        elif c_parent.id == remote.id:
+                            # names are not enough, folders below
+                            # remote can have the same name
                             break
                         else:
                             parent_names.append(c_parent.name)
-- 
2.43.0


From 1bb9f36085f2d6992264e99c9272e61c3d60a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 055/107] fix: errors other than a missing attribute are raised
 as they are

---
 augpathlib/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a8e3519..2acb177 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -305,7 +305,7 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            if e.errno in (errno.ENODATA, getattr(errno, 'ENOATTR', None)):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
-- 
2.43.0


From 864ee7a8a68bb7953d7ee9bb03587ee759a1bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 056/107] fix: files that are not fetched are in a sparse
 folder too

---
 augpathlib/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 2acb177..294bf0d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -994,6 +994,9 @@ class EatPath(EatHelper, AugmentedPath):
             l = self
 
         if l != parent:
+            if self.is_broken_symlink():  # has no attributes of its own
+                return parent._sparse_root()
+
             try:
                 return self.getxattr(self._sparse_key) == b'1'
             except exc.NoStreamError:
-- 
2.43.0


From 5a091278f8a10e2d35e51b1ee55c1384b6132e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 057/107] fix: cache_init with parents makes the parents with
 their metadata

---
 augpathlib/remotes.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index bc6f7f8..ba438d3 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -289,19 +289,10 @@ class RemotePath:
             return NullCache()
 
     def cache_init(self, parents=False):
-        try:
-            return self._cache_anchor / self
-        except FileNotFoundError:
-            if parents:
-                #parent, *rest = self.parent.cache_init(parents=parents)
-                #return (self.cache_init(), parent, *rest)
-                parent = self.parent
-                parent_cache = parent.cache_init(parents=parents)
-                parent_cache.local.cache_init(parent.meta) # FIXME hrm we shouldn't have to do this
-                # and it isn't working anyway ... the xattrs don't seem to be getting set
-                return self.cache_init()
-            else:
-                raise
+        if parents:
+            self._cache_anchor.local.mkdir_cache(self)
+
+        return self._cache_anchor / self
 
     @property
     def _cache(self):
-- 
2.43.0


From 4c90ed8c10be2330eb746ad2b2dbfe86fb844cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 058/107] fix: mkdir_cache when the anchor is a property of the
 instances

---
 augpathlib/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 294bf0d..5461afe 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1120,10 +1120,14 @@ class LocalPath(EatPath, AugmentedPath):
 
         cc = self._cache_class
         rc = cc._remote_class
+        anchor = getattr(rc, '_cache_anchor', None)
+        if anchor is None:
+            anchor = cc.anchor
+
         for parent in reversed(tuple(remote.parents)):
             # remote as_path is always a PurePosixPath relative to the
             # anchor and does not include the anchor
-            local_path = cc.anchor.local / parent.as_path()
+            local_path = anchor.local / parent.as_path()
             if not local_path.exists():
                 local_path.mkdir()
                 rc(parent, cache=cc(local_path, remote=parent, meta=parent.meta))
-- 
2.43.0


From 6418fcdf637c5cf5f0f38a32626498d172c1d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 059/107] fix: bootstrap is not sparse when something else is

---
 augpathlib/caches.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 09bf2b0..402a922 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -431,6 +431,7 @@ class _CachePath(AugmentedPath):
                     sparse = True
                 else:
                     # if you pass the only mask so do your children
+                    sparse = False  # something else is sparse
                     log.info(f'Bootstrapping {meta.id} -> {self.local!r}')
 
                 only = tuple()
-- 
2.43.0


From 463a04e5b751e4b96fca26104e1fb51ad92ca326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 060/107] fix: a checksum uses the cypher that was asked for

---
 augpathlib/core.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5461afe..bc34524 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -832,23 +832,24 @@ class AugmentedPath(pathlib.Path):
                 else:
                     raise e
 
-    def checksum(self, cypher=default_cypher, extra_cyphers=tuple()):
+    def checksum(self, cypher=None, extra_cyphers=tuple()):
         """ checksum() always recomputes from the data
             meta.checksum is static for cache and remote IF it exists """
         # FIXME the cypher cannot be determined independent of a call to checksum
 
         if self.is_file():
-            if cypher != default_cypher:
-                pass  # FIXME this is SO DUMB (see commit message)
-            elif ((hasattr(self, '_cache_class') and
-                 hasattr(self._cache_class, 'cypher') and
-                 self._cache_class.cypher != cypher)):  # FIXME this could be static ...
+            if cypher is not None:
+                pass  # what was asked for
+            elif (hasattr(self, '_cache_class') and
+                  hasattr(self._cache_class, 'cypher')):  # FIXME this could be static ...
                 cypher = self._cache_class.cypher
 
-            elif (hasattr(self, 'cypher') and
-                  self.cypher != cypher):
+            elif hasattr(self, 'cypher'):
                 cypher = self.cypher
 
+            else:
+                cypher = default_cypher
+
             m = cypher()
             extra = [c() for c in extra_cyphers]
             for chunk in self.data:
-- 
2.43.0


From d0f41ec5fd8e3106c4cb9bc3e5e66bbd818dcd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 061/107] fix: a fetch that fails leaves the link and not a
 partial file

---
 augpathlib/caches.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 402a922..9ab9d6a 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -894,17 +894,27 @@ class _CachePath(AugmentedPath):
         size_not_ok = size_limit_mb is not None and meta.size is not None and meta.size.mb > size_limit_mb
 
         if size_ok or size_limit_mb is None:  # FIXME should we force fetch here by default if the file exists?
-            if self.is_broken_symlink():
-                # FIXME touch a temporary file and set the meta first!
-                self.unlink()
-                self.touch()
-                self._meta_setter(meta)
+            link = self.local.readlink(raw=True) if self.is_broken_symlink() else None
+            try:
+                if link is not None:
+                    # FIXME touch a temporary file and set the meta first!
+                    self.unlink()
+                    self.touch()
+                    self._meta_setter(meta)
+
+                log.info(f'Fetching remote via cache id {self.id} -> {self.local}')
+                existing_cache_cache = self.local_object_cache_path.exists()
+                self.local.data = self.data  # note that this should trigger storage to .ops/objects
+            except BaseException as e:
+                if link is not None:
+                    # without the data it must not look like it was fetched
+                    if self.exists():
+                        self.unlink()
+
+                    self.local.symlink_to(link)
+
+                raise e
 
-            # FIXME I'm 99% certain that our mysterious zero size files are happening here
-            # and the error is getting caught and silence somehow
-            log.info(f'Fetching remote via cache id {self.id} -> {self.local}')
-            existing_cache_cache = self.local_object_cache_path.exists()
-            self.local.data = self.data  # note that this should trigger storage to .ops/objects
             if self.local.size != meta.size:
                 m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
                 msg = (f'{self.local.size} != {meta.size} for {self.local}\n{m2}\n'
-- 
2.43.0


From 1ccf18d6dface59f32065b1d8a41051d30c3e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 062/107] fix: fetch when the size is not known

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 9ab9d6a..eb03a2f 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -915,7 +915,7 @@ class _CachePath(AugmentedPath):
 
                 raise e
 
-            if self.local.size != meta.size:
+            if meta.size is not None and self.local.size != meta.size:
                 m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
                 msg = (f'{self.local.size} != {meta.size} for {self.local}\n{m2}\n'
                        f'from previous fetch? {existing_cache_cache}')
-- 
2.43.0


From 0ca25ca87e912350c967f7018d55d3d92401e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 063/107] fix: validate_file records a checksum mismatch

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index eb03a2f..2736e8b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -617,7 +617,7 @@ class _CachePath(AugmentedPath):
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
                 nmeta = {k: v for k, v in meta.items()}
                 nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
-- 
2.43.0


From ff627fb6e063167103311b0111a96e6f3fcf01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 064/107] fix: missing parents of the target of a move have
 their metadata

---
 augpathlib/caches.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2736e8b..603aecc 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -952,6 +952,8 @@ class _CachePath(AugmentedPath):
             if not isinstance(self.anchor, self.__class__):
                 raise TypeError(f'mismatched anchor types {self!r} {self.anchor!r}')
 
+            # folders that are missing are made with their own metadata
+            self.anchor.local.mkdir_cache(remote)
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
         if target.absolute() == self.absolute():
-- 
2.43.0


From 7a5e43c1e9205f4204d9e6af048996075fc8cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 065/107] fix: move does not put metadata on or replace
 something else that is at the target

---
 augpathlib/caches.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 603aecc..7cb2006 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -954,6 +954,14 @@ class _CachePath(AugmentedPath):
 
             # folders that are missing are made with their own metadata
             self.anchor.local.mkdir_cache(remote)
+
+            # check before anything is written to the metadata of target
+            occupied = self.anchor.local.joinpath(
+                *remote._parts_relative_to(self.anchor.remote))
+            if occupied.exists_not_symlink() and (occupied.cache is None or
+                                                  occupied.cache.id != self.id):
+                raise exc.PathExistsError(f'Target {occupied} already exists!')
+
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
         if target.absolute() == self.absolute():
-- 
2.43.0


From 077110d1eb114fbf2a5e1ede7e8e7225d526522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 066/107] fix: move works for relative paths

---
 augpathlib/caches.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7cb2006..3ab47ee 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -968,7 +968,7 @@ class _CachePath(AugmentedPath):
             log.warning(f'trying to move a file onto itself {self.absolute()}')
             return target
 
-        common = self.local.commonpath(target).absolute()
+        common = self.local.absolute().commonpath(target.absolute())
         target_parent = target.parent.absolute()
         parent = self.local.parent.absolute()
 
@@ -977,8 +977,8 @@ class _CachePath(AugmentedPath):
         if target_parent != parent:
             _id = remote.id if remote else meta.id
             log.warning('A parent of current file has changed location!\n'
-                        f'{common}\n{self.local.relative_to(common)}\n'
-                        f'{target.relative_to(common)}\n{_id}')
+                        f'{common}\n{self.local.absolute().relative_to(common)}\n'
+                        f'{target.absolute().relative_to(common)}\n{_id}')
 
 
         if not target_parent.exists():
-- 
2.43.0


From da07756ef1d1b94470a4a242be01d31c96142b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 067/107] fix: move to a given target does not replace
 something else that is there

---
 augpathlib/caches.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 3ab47ee..e8edaa2 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -955,13 +955,17 @@ class _CachePath(AugmentedPath):
             # folders that are missing are made with their own metadata
             self.anchor.local.mkdir_cache(remote)
 
-            # check before anything is written to the metadata of target
-            occupied = self.anchor.local.joinpath(
+            where = self.anchor.local.joinpath(
                 *remote._parts_relative_to(self.anchor.remote))
-            if occupied.exists_not_symlink() and (occupied.cache is None or
-                                                  occupied.cache.id != self.id):
-                raise exc.PathExistsError(f'Target {occupied} already exists!')
+        else:
+            where = self.local_class(target)
+
+        # check before anything is written to the metadata of target
+        if where.exists_not_symlink() and (where.cache is None or
+                                           where.cache.id != self.id):
+            raise exc.PathExistsError(f'Target {where} already exists!')
 
+        if target is None:
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
         if target.absolute() == self.absolute():
-- 
2.43.0


From ea44144a3a222d07e2c3ef301debe8e17a0f3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 068/107] fix: move to a target that is another link is the
 documented error

---
 augpathlib/caches.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index e8edaa2..afef01b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1018,7 +1018,9 @@ class _CachePath(AugmentedPath):
                     # directory moves that are resolved during pull
                     log.warning(f'what is this!?\n{target}\n{self}')
             elif target.is_broken_symlink():
-                remote._cache = self  # restore the mapping for remote -> self
+                if remote is not None:
+                    remote._cache = self  # restore the mapping for remote -> self
+
                 raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
             else:
                 raise exc.PathExistsError(f'Target {target} already exists!')
-- 
2.43.0


From 3f03057615c80202eab19a38115f8946b0509925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 069/107] fix: crumple return where it moved to and do not
 replace what is in the trash

---
 augpathlib/caches.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index afef01b..d1c6c33 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -162,8 +162,16 @@ class _CachePath(AugmentedPath):
             self.rename(trashed)
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
-                log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
+                short = self._trashed_path_short
+                n = 0
+                while short.exists() or short.is_symlink():
+                    # names are not unique, do not replace something else
+                    n += 1
+                    short = self._trashed_path_short.with_name(f'{n}-{self.name}')
+
+                log.critical(f'Had to rename trash {trashed} -> {short}')
+                self.rename(short)
+                trashed = short
             else:
                 raise e
 
-- 
2.43.0


From 5dc8dd1be4d86f651404449068f074c348a96fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 070/107] fix: symlink metadata with another id when only one
 has an updated timestamp

---
 augpathlib/caches.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index d1c6c33..570a617 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1248,7 +1248,14 @@ class SymlinkCache(_CachePath):
                         log.warning ('no change since either has an updated value (wat)')
                         return #FIXME
 
-                    if meta.updated > pathmeta.updated:
+                    if pathmeta.updated is None:
+                        log.debug(msg.format('Meta has datetime other does not. Not updating.'))
+                        return
+                    elif meta.updated is None:
+                        msg = msg.format('Meta has no datetime other does.')
+                        log.debug(msg)
+                        raise exc.MetadataIdMismatchError(msg)
+                    elif meta.updated > pathmeta.updated:
                         log.debug(msg.format(meta_newer))
                         return  # this is the right thing to do for a sane filesystem
                     elif meta.updated < pathmeta.updated:
-- 
2.43.0


From ba14acfafd601703d8546e41339e16cd5c7a0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 071/107] fix: local changes are found using the cypher of the
 checksum

---
 augpathlib/caches.py | 7 ++++---
 augpathlib/core.py   | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 570a617..51b7fee 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -593,11 +593,11 @@ class _CachePath(AugmentedPath):
     def _sparse_include(self):
         raise NotImplementedError('implement in subclass')
 
-    def _instance_cypher(self):
+    def _instance_cypher(self, meta=None):
         # FIXME sigh this is NOT a good solution at all but fixing it
         # requires a complete rework of all checksum and cypher
         # related functions and methods which is not happening now
-        cypher_name = self.meta.checksum_cypher
+        cypher_name = (self.meta if meta is None else meta).checksum_cypher
         if cypher_name is None:
             return self.cypher
         else:
@@ -1457,7 +1457,8 @@ class PrimaryCache(CachePath):
         if must_fetch:
             try:
                 # FIXME performance, and pathmeta.checksum is None case
-                if self.local.content_different() and self.local.meta.checksum != pathmeta.checksum:
+                if (self.local.content_different() and
+                    self.local.checksum(self._instance_cypher(pathmeta)) != pathmeta.checksum):
                     raise exc.LocalChangesError(f'not fetching {self}')
 
             except exc.NoRemoteFileWithThatIdError as e:
diff --git a/augpathlib/core.py b/augpathlib/core.py
index bc34524..7a50fc9 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1532,7 +1532,10 @@ class LocalPath(EatPath, AugmentedPath):
 
     def content_different(self):
         cmeta = self.cache.meta
-        if cmeta.checksum:
+        if cmeta.checksum and cmeta.checksum_cypher and self.is_file():
+            # the cypher can be different for each file
+            return self.checksum(self.cache._instance_cypher(cmeta)) != cmeta.checksum
+        elif cmeta.checksum:
             return self.meta.content_different(cmeta)
         else:
             # TODO use the index for this
-- 
2.43.0


From 289efc67eeadc0ad53b4bc36dca7ec046eb4d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 072/107] fix: anchoring a second time does not change the
 existing anchor

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 51b7fee..7a4cc30 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -80,6 +80,10 @@ class _CachePath(AugmentedPath):
         # to construct a live CachePath by sideloading the remote id
         # which is OK for the path where local/remote binding has already
         # been completed
+        if hasattr(self._remote_class, '_cache_anchor'):
+            # check before the anchor that is already there is changed
+            raise ValueError(f'already anchored to {self._remote_class._cache_anchor}')
+
         if '_anchor' not in self.__class__.__dict__:
             self.__class__._abstract_class()._anchor = self
             self.local_data_dir_init()  # call every time for insurance
-- 
2.43.0


From 11dc5a44ab994bbc359dd796b44b74ff6c24b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 073/107] fix: anchoring to an existing cache anchors the cache
 class as well

---
 augpathlib/remotes.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index ba438d3..90227a6 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -94,6 +94,25 @@ class RemotePath:
         else:
             raise ValueError(f'already anchored to {cls._cache_anchor}')
 
+    @classmethod
+    def _anchorToExisting(cls, cache):
+        """ the cache class needs the anchor as well """
+        old = getattr(cache, '_anchor', None)
+        if old is not None and old == cache:
+            return cls.anchorToCache(cache)
+
+        try:
+            cache.anchorClassHere()
+        except BaseException as e:
+            if not hasattr(cls, '_cache_anchor'):
+                cache.weighAnchor()
+                if old is not None:
+                    cache._abstract_class()._anchor = old
+
+            raise e
+
+        return cls._cache_anchor
+
     @classmethod
     def anchorTo(cls, path, create=False):
         """ You already know the rock you want and
@@ -102,11 +121,11 @@ class RemotePath:
 
         if isinstance(path, caches.CachePath):
             # FIXME the non-existence problem rears its head again
-            return cls.anchorToCache(path)
+            return cls._anchorToExisting(path)
         elif isinstance(path, LocalPath):
             # FIXME the non-existence problem rears its head again
             if path.cache:
-                return cls.anchorToCache(path.cache)
+                return cls._anchorToExisting(path.cache)
             else:
                 root = cls.root if isinstance(cls.root, cls) else cls(cls.root)
                 if path.name != root.name:
@@ -148,14 +167,12 @@ class RemotePath:
 
         except exc.CacheExistsError as e:
             root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
-            return cls._cache_anchor
+            return cls._anchorToExisting(path.cache)
 
         except exc.DirectoryNotEmptyError as e:
             root, path = cls._get_local_root_path(parent_path)
             if path.cache:
-                cls._cache_anchor = path.cache
-                return cls._cache_anchor
+                return cls._anchorToExisting(path.cache)
             else:
                 raise e
 
-- 
2.43.0


From 670e6f3318ab1e64a64b7093279dab25aba22431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 074/107] fix: anchoring to a path with another name is the
 documented error

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 90227a6..e20d6c9 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -132,7 +132,7 @@ class RemotePath:
                     # unlike git you cannot clone to a folder with a different
                     # name (for now ... maybe can figure out how in the future)
                     raise ValueError('Path name and root name do not match.'
-                                     f'{path.name} != {cls.root.name}')
+                                     f'{path.name} != {root.name}')
 
                 if create:
                     return cls.dropAnchor(path.parent)  # existing folder dealt with in dropAnchor
-- 
2.43.0


From a55da740267af75b24f841d037a0a47294585462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 075/107] fix: the cache root of a relative path is the root
 and not the working directory

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 7a50fc9..4e6636a 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1185,7 +1185,8 @@ class LocalPath(EatPath, AugmentedPath):
         # try all the variants in case some symlinking weirdness is going on
         # TODO may want to detect and warn on that?
         root = self.__class__('/')
-        for variant in set((self, self.absolute(), self.resolve())):
+        # relative paths only have the parents up to the working directory
+        for variant in dict.fromkeys((self.absolute(), self.resolve())):
             for parent in chain((variant,), variant.parents):
                 try:
                     if parent.cache:
-- 
2.43.0


From 835a1cdd0647068946d9c84881c804842d63f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 076/107] fix: children of the root by a relative path leave
 out the ignored names

---
 augpathlib/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 4e6636a..eb60e05 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1503,7 +1503,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # the anchor itself can be relative and have an anchor
                 # so we test to see if there is an anchor first
                 self.cache.anchor and
-                self == self.cache.anchor.local):
+                self.resolve() == self.cache.anchor.local.resolve()):
                 cache_ignore = self._cache_class.cache_ignore
                 # implemented this way we can still use Path to navigate
                 # once we are inside local data dir, though all files there
@@ -1523,7 +1523,7 @@ class LocalPath(EatPath, AugmentedPath):
             # the anchor itself can be relative and have an anchor
             # so we test to see if there is an anchor first
             self.cache.anchor and
-            self == self.cache.anchor.local):
+            self.resolve() == self.cache.anchor.local.resolve()):
             for path in self.children:
                 yield path
                 yield from path.rchildren
-- 
2.43.0


From 528501211153caa9426af4c825f0ae68c68c16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 077/107] fix: quote paths in the commands that are run by
 SshRemote

---
 augpathlib/remotes.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index e20d6c9..64b9426 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,6 @@
 import os
 import sys
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -855,7 +856,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
+        cmd = ['ssh', self.host, f'cat {shlex.quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
         while True:
             data = p.stdout.read(4096)  # TODO hinting
@@ -870,6 +871,17 @@ class SshRemote(RemotePath, pathlib.PurePath):
     # def meta (make it easier to search for this)
     meta = LocalPath.meta  # magic
 
+    @staticmethod
+    def _quote(path):
+        if path.isprintable():
+            return shlex.quote(path)
+
+        # the session is interactive so control
+        # characters cannot be sent as they are
+        return "$'" + ''.join(
+            c if c.isprintable() and c not in "'\\" else
+            ''.join(f'\\{b:03o}' for b in os.fsencode(c)) for c in path) + "'"
+
     #def _ssh(self, remote_cmd):
     @classmethod
     def _ssh(cls, remote_cmd):
@@ -896,7 +908,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
+        # read from stdin since names can change what is printed
+        remote_cmd = (f'{self.cypher_command} < {self._quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
@@ -912,7 +925,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = f' {self._quote(path)}'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -980,7 +993,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
+            remote_cmd = (f"cd {self._quote(self.rpath)};"
                           f"{self._stat_cmd(path='')} {{.,}}*;"
                           "echo '----';"
                           f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
-- 
2.43.0


From f5ca67ca785b237bce0f3fa09e15ce9ff33c27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 078/107] fix: an empty file is a file for SshRemote as well

---
 augpathlib/remotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 64b9426..11128cc 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -982,7 +982,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def is_file(self):
         remote_cmd = self._stat_cmd(stat_format="%F")
         out = self._ssh(remote_cmd)
-        return out == b'regular file'
+        return out in (b'regular file', b'regular empty file')
 
     @property
     def children(self):
-- 
2.43.0


From 922a27de562045342bec2b97688142ee4923c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 079/107] fix: commands that do not fit on the line with the
 prompt are too long

---
 augpathlib/remotes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 11128cc..4f26366 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -886,7 +886,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
     @classmethod
     def _ssh(cls, remote_cmd):
         #print(remote_cmd)
-        if len(remote_cmd) > cls._cols:
+        # the prompt is on the same line as the command
+        if len('[PEXPECT]$ ') + len(remote_cmd.encode(cls.encoding)) >= cls._cols:
             raise exc.CommandTooLongError
         n_bytes = cls.session.sendline(remote_cmd)
         cls.session.prompt()
-- 
2.43.0


From a23c62dbc8cf7ec7c60a04a24f6a09466eaba330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 080/107] fix: access of SshRemote follows the class of the
 user

---
 augpathlib/remotes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 4f26366..a6585ed 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -833,10 +833,14 @@ class SshRemote(RemotePath, pathlib.PurePath):
         execute =  (x & st.st_mode)       & (mode == 'execute' or mode == os.X_OK) * x
         current = read + write + execute
 
+        # only the permissions of the first class that matches apply
         u, g, e = 0x40, 0x8, 0x1
-        return (u & current and st.st_uid == self._uid or
-                g & current and st.st_gid in self._gids or
-                e & current)
+        if st.st_uid == self._uid:
+            return bool(u & current)
+        elif st.st_gid in self._gids:
+            return bool(g & current)
+        else:
+            return bool(e & current)
 
     def open(self, mode='wt', buffering=-1, encoding=None,
              errors=None, newline=None):
-- 
2.43.0


From 0f37914be150d8b2bb4c57e290a1eb0b79a60e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 081/107] fix: SshRemote.checksum use the cypher that was asked
 for

---
 augpathlib/remotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index a6585ed..59b8cc1 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -912,9 +912,10 @@ class SshRemote(RemotePath, pathlib.PurePath):
         # whatever cypher we want, unlike in other cases
         return cypher_command_lookup[self._cache_class.cypher]
 
-    def checksum(self, cypher=None):  # FIXME cypher should not be ignored
+    def checksum(self, cypher=None):
+        command = self.cypher_command if cypher is None else cypher_command_lookup[cypher]
         # read from stdin since names can change what is printed
-        remote_cmd = (f'{self.cypher_command} < {self._quote(self.rpath)} | '
+        remote_cmd = (f'{command} < {self._quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
         hex_ = self._ssh(remote_cmd).decode(self.encoding)
-- 
2.43.0


From 08c3889537a25a48fbaf08d7fbf92b3a977cdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 082/107] fix: relative paths and joined paths of SshRemote are
 below the anchor

---
 augpathlib/remotes.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 59b8cc1..d8d53e0 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -721,6 +721,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if isinstance(thing_with_id, pathlib.PurePath):
             thing_with_id = thing_with_id.as_posix()
 
+        if sys.version_info >= (3, 12):
+            args = ()  # __new__ has already joined them
+
         super().__init__(thing_with_id, *args, cache=cache)
 
     @property
@@ -772,22 +775,13 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
         # TODO make sure that the common path is the anchor ...
 
-        if sys.version_info < (3, 12):
-            pass
-        else:
-            # FIXME HACK
-            if self.root == self.anchor.root and self._raw_paths == self.anchor._raw_paths:
-                # XXX already at the anchor
-                host, path = self.root.split(':', 1)
-                return path
-
-        host_path = (self.anchor / self).as_posix()
         if sys.version_info < (3, 12):
             # < 3.12 uses _parts which includes '/' explicitly
-            return host_path
+            return (self.anchor / self).as_posix()
         else:
-            host, path = host_path.split(':', 1)
-            return path
+            # do not use / on self because the root does not go away
+            return pathlib.PurePosixPath(*self.anchor._raw_paths,
+                                         *self._raw_paths).as_posix()
 
     if sys.version_info < (3, 12):
         def _parts_relative_to(self, remote, *args, cache_parent=None):
-- 
2.43.0


From 44513a8e79f04a3ab708334fdec6ab66dcf471b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 083/107] fix: an SshRemote that is not below the anchor is an
 error and not a breakpoint

---
 augpathlib/remotes.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index d8d53e0..8f4d943 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -801,13 +801,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
             # relative_to calls self.parent in 3.12 which causes all
             # sort of problems, so workaround using rpath
-            try:
-                return (pathlib.PurePath(self.rpath)
-                        .relative_to(pathlib.PurePath(remote.rpath))
-                        .parts)
-            except Exception as e:
-                breakpoint()
-                raise e
+            return (pathlib.PurePath(self.rpath)
+                    .relative_to(pathlib.PurePath(remote.rpath))
+                    .parts)
 
     def refresh(self):
         # TODO probably not the best idea ...
-- 
2.43.0


From cf91d3ca22096e6205c00565263fd1f1ad560717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 084/107] fix: a folder of SshRemote has no checksum

---
 augpathlib/remotes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 8f4d943..6e8d33b 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -903,6 +903,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):
+        if self.is_dir():
+            return  # as for local paths
+
         command = self.cypher_command if cypher is None else cypher_command_lookup[cypher]
         # read from stdin since names can change what is printed
         remote_cmd = (f'{command} < {self._quote(self.rpath)} | '
-- 
2.43.0


From c5f3674135977e9ad96b56a8c750ae437a2951e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 085/107] fix: mkdir_cache stop at the anchor of the remote

---
 augpathlib/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index eb60e05..33ed817 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -11,7 +11,7 @@ from time import sleep
 from errno import ELOOP, ENOENT, ENOTDIR, EBADF
 from datetime import datetime, timezone
 from functools import wraps
-from itertools import chain
+from itertools import chain, takewhile
 try:
     import magic  # from sys-apps/file consider python-magic ?
     _have_magic = True
@@ -1125,7 +1125,9 @@ class LocalPath(EatPath, AugmentedPath):
         if anchor is None:
             anchor = cc.anchor
 
-        for parent in reversed(tuple(remote.parents)):
+        # there can be more parents above the anchor
+        below = takewhile(lambda parent: parent != remote.anchor, remote.parents)
+        for parent in reversed(tuple(below)):
             # remote as_path is always a PurePosixPath relative to the
             # anchor and does not include the anchor
             local_path = anchor.local / parent.as_path()
-- 
2.43.0


From bde3292d1f8ad9f7e8634fb18430c34afd3bb0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 086/107] fix: a transfer of SshRemote that fails is an error
 and not the end of the data

---
 augpathlib/remotes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 6e8d33b..b98e37d 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -860,6 +860,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
             yield data
 
         p.communicate()
+        if p.returncode != 0:
+            raise subprocess.CalledProcessError(p.returncode, cmd)
 
     # reuse meta from local
     # def meta (make it easier to search for this)
-- 
2.43.0


From 4bd8b33bbb37668c30a8622c31b379bb0273742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 087/107] fix: a second bootstrap records changed metadata of
 known files

---
 augpathlib/caches.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7a4cc30..7e47005 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -534,7 +534,10 @@ class _CachePath(AugmentedPath):
                     file_is_different, nmeta = self._update_meta(cmeta, rmeta)
                     if file_is_different:
                         log.critical(f'WAT {_cache}')
-                    else:
+                    elif cmeta:  # there is none if a folder above was moved
+                        if nmeta != cmeta:
+                            _cache._meta_setter(nmeta)
+
                         yield _cache
                         # yield the old cache if it exists
                         # otherwise consumers of bootstrap will
-- 
2.43.0


From 3279cddcb29ec1ecc83b4c6d27cc1b22130f6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 088/107] fix: bootstrapping again with local folders that are
 not remote does not hang

---
 augpathlib/caches.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 7e47005..b0ee6a6 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -493,18 +493,21 @@ class _CachePath(AugmentedPath):
 
             rd = set(d.as_path() for d in remote_dirs)  # FIXME as_path => lots of network calls
             old_local = local_dirs - rd
+            done = set()
             while old_local:
-                thisl = sorted(old_local, key=lambda d: len(d.as_posix()))
-                for d in thisl:
-                    ad = self.anchor.local / d
-                    if ad.cache is None:
-                        log.critical(f'would you fix the nullability already? {d}')
-                        continue
+                # one at a time, what is below goes with a folder that is moved
+                d = min(old_local, key=lambda d: len(d.as_posix()))
+                done.add(d)
+                ad = self.anchor.local / d
+                if ad.cache is None:
+                    log.critical(f'would you fix the nullability already? {d}')
+                else:
                     new = ad.cache.refresh()
                     #log.info(f'{new}')
-                    local_dirs = set(ld for ld in local_dirs
-                                     if not ld.as_posix().startswith(d.as_posix()))
-                    old_local = local_dirs - rd
+                    local_dirs = set(p.relative_to(self.anchor)
+                                     for p in self.local.rchildren if p.is_dir())
+
+                old_local = local_dirs - rd - done
 
         if sparse:
             #if local_dirs:
-- 
2.43.0


From 8b2d4ccdb12aac299dfed425204ab48a329c6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 089/107] fix: bootstrapping again moves folders starting from
 the top of the remote

---
 augpathlib/caches.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b0ee6a6..3cb6110 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -491,12 +491,22 @@ class _CachePath(AugmentedPath):
             rcs = list(rcs)  # sigh
             remote_dirs = set(c for c in rcs if c.is_dir())
 
-            rd = set(d.as_path() for d in remote_dirs)  # FIXME as_path => lots of network calls
+            places = {d.id: d.as_path() for d in remote_dirs}  # FIXME as_path => lots of network calls
+            rd = set(places.values())
+
+            def order(d):
+                # start from the top of the remote so that nothing is moved into
+                # a folder that is not where it belongs, and what is no longer in
+                # a folder leaves before that folder is trashed
+                cache = (self.anchor.local / d).cache
+                place = None if cache is None else places.get(cache.id)
+                return place is None, len((d if place is None else place).parts), d.as_posix()
+
             old_local = local_dirs - rd
             done = set()
             while old_local:
                 # one at a time, what is below goes with a folder that is moved
-                d = min(old_local, key=lambda d: len(d.as_posix()))
+                d = min(old_local, key=order)
                 done.add(d)
                 ad = self.anchor.local / d
                 if ad.cache is None:
-- 
2.43.0


From 31f3604fa7f2194fe0dcd8b4115d11dc911df046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 090/107] fix: tags of packages whose names contain the name
 are not tags of a package

---
 augpathlib/package.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 13ab539..82c863d 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -284,7 +284,10 @@ class PackagePath(RepoPath):
         gj = self.github_json
         if gj:
             if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
+                # not just in, names of other packages can contain this one
+                prefix = self.arg_packagename + '-'
+                these = [r for r in gj if r['tag_name'].startswith(prefix) and
+                         r['tag_name'][len(prefix):][:1] in tuple('0123456789')]
             else:
                 these = [r for r in gj if r['tag_name'][0] in '0123456789']
 
@@ -323,7 +326,7 @@ class PackagePath(RepoPath):
         # match ... HRM
 
         if self.tag_prefix:
-            match_version = self.arg_packagename + '-*'
+            match_version = self.arg_packagename + '-[0-9]*'
         else:
             match_version = '[0-9]*'
 
-- 
2.43.0


From fb0ad89951aec02f8ce3325e957422f53b4c2a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 091/107] fix: all commits are new if there was no release yet

---
 augpathlib/package.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 82c863d..b179b76 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -396,9 +396,8 @@ class PackagePath(RepoPath):
             rfs = [self.folder]
 
         _tag = self.tag
-        tag = _tag if _tag else ''
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                f'{_tag}..HEAD' if _tag else 'HEAD',
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From 0d7193f92335febb9c9d8c1406289e7e37015c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 092/107] fix: mkdir_remote outside of a project is an error

---
 augpathlib/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 33ed817..0a8a0ef 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1163,7 +1163,6 @@ class LocalPath(EatPath, AugmentedPath):
                 if c:
                     parts = self.relative_path_from(parent).parts
                     for p in parts:
-                        print(self, parent, parts, p)
                         remote = parent.cache.remote._mkdir_child(p)
                         local = parent / p
                         local.mkdir(exist_ok=True)
@@ -1175,8 +1174,10 @@ class LocalPath(EatPath, AugmentedPath):
 
                     remote._cache = local.cache
                     return remote
+
+            raise exc.NotInProjectError(f'{self} is not in a project!')
         else:
-            raise FileNotFoundError('missing parent for {self} and parents=False')
+            raise FileNotFoundError(f'missing parent for {self} and parents=False')
 
     def find_cache_root(self, fail=False):
         """ find the local root of the cache tree, even if we start with skips """
-- 
2.43.0


From c6ec7bdc9e1414f65517ba6c6cc7217c5d2ffbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 093/107] fix: mkdir_remote with something local in the way
 does not make the remote

---
 augpathlib/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 0a8a0ef..6210dfe 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1145,6 +1145,10 @@ class LocalPath(EatPath, AugmentedPath):
             raise exc.RemotePathExistsError(self.remote)
 
         if self.parent.cache:
+            if self.is_symlink() or self.exists() and not self.is_dir():
+                # before there is a remote that nothing local can stand for
+                raise exc.PathExistsError(self)
+
             remote = self.parent.remote._mkdir_child(self.name)
             # FIXME see the note about my dumbness wrt paths
             # the whole remote appraoch nees a complete rework so that the remotes
@@ -1163,8 +1167,11 @@ class LocalPath(EatPath, AugmentedPath):
                 if c:
                     parts = self.relative_path_from(parent).parts
                     for p in parts:
-                        remote = parent.cache.remote._mkdir_child(p)
                         local = parent / p
+                        if local.is_symlink() or local.exists() and not local.is_dir():
+                            raise exc.PathExistsError(local)
+
+                        remote = parent.cache.remote._mkdir_child(p)
                         local.mkdir(exist_ok=True)
                         local.cache_init(remote.meta)
                         parent = local
-- 
2.43.0


From 5edf5ce2ec19784e9e0502155ae337b8b8cc1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 094/107] fix: links that are not metadata have no cache

---
 augpathlib/meta.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 9f47cf6..b219bf1 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -444,6 +444,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             e.g. that a link got switched to point to another name somehow """
         raw_symlink = symlink_path.readlink(raw=True)
         pure_symlink = pathlib.PurePosixPath(raw_symlink)
+        if not self._has_version(pure_symlink.name):
+            msg = f'not metadata {symlink_path} -> {raw_symlink}'
+            raise exc.NoCachedMetadataError(msg)
+
         local_name, *parts = pure_symlink.parts
         if len(parts) == 1:  # local_name was not prepended
             msg = f'match_name=True symlink did not have local_name prefix for {local_name}'
@@ -468,6 +472,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
         return self.from_parts(parts)
 
+    def _has_version(self, data):
+        empty, *fields = data.split(self.fieldsep)
+        return not empty and bool(fields) and fields[0] in self.versions
+
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-- 
2.43.0


From 408f0936e32d8b441a978130d40c2cd1d40bec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 095/107] fix: mimetype and encoding of relative paths, links
 and quoted suffixes

---
 augpathlib/core.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 6210dfe..86233db 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -789,13 +789,7 @@ class AugmentedPath(pathlib.Path):
         if self.is_dir():
             return 'inode/directory'  # matches _magic_mimetype
 
-        if not self.is_absolute():  # needed for safe as_uri
-            if self.is_broken_symlink():
-                self = self.absolute()
-            else:
-                self = self.resolve()
-
-        mime, encoding = mimetypes.guess_type(self.as_uri())
+        mime, encoding = self._guess_type()
         if mime:
             return mime
         elif hasattr(self, '_suffix_mimetypes') and self._suffix_mimetypes:
@@ -804,12 +798,15 @@ class AugmentedPath(pathlib.Path):
             if suffixes in self._suffix_mimetypes:
                 return self._suffix_mimetypes[suffixes]
 
+    def _guess_type(self):
+        # only the name matters, a relative path has no uri, what it
+        # resolves to has another name if it is a link, and suffixes
+        # such as .c++ are not found in a uri because they are quoted
+        return mimetypes.guess_type(f'/{self.name}')
+
     @property
     def encoding(self):
-        if not self.is_absolute():  # needed for safe as_uri
-            self = self.resolve()
-
-        mime, encoding = mimetypes.guess_type(self.as_uri())
+        mime, encoding = self._guess_type()
         if encoding:
             return encoding
 
-- 
2.43.0


From 492fc2eb653a701202d0824fe35c8e40974e0aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 096/107] fix: set up objects elsewhere by a relative path and
 again without trash

---
 augpathlib/caches.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 3cb6110..f67d7ce 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -215,21 +215,22 @@ class _CachePath(AugmentedPath):
             # them in ~/.cache or similar
             if lod.is_symlink():
                 msg = f'{lod} is already symlinked to {lod.readlink()}'
-                if lod.resolve() == symlink_objects_to.resolve():
-                    log.info(msg)
-                    return
+                if lod.resolve() != symlink_objects_to.resolve():
+                    raise NotADirectoryError(msg)
 
-                raise NotADirectoryError(msg)
-            elif lod.exists():
-                try:
-                    lod.rmdir()
-                except OSError as e:
-                    msg = ('local objects dir already exists did you mean '
-                           'to run with symlink_objects_to set?')
-                    log.error(msg)
-                    raise e
-
-            lod.symlink_to(symlink_objects_to)
+                log.info(msg)
+            else:
+                if lod.exists():
+                    try:
+                        lod.rmdir()
+                    except OSError as e:
+                        msg = ('local objects dir already exists did you mean '
+                               'to run with symlink_objects_to set?')
+                        log.error(msg)
+                        raise e
+
+                # relative paths are not relative to the data dir
+                lod.symlink_to(symlink_objects_to.absolute())
         else:
             lod.mkdir(exist_ok=exist_ok)
 
-- 
2.43.0


From 53f2f68c4cac430387b43ae7abd3574ad2701205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 097/107] fix: dedupe when it is not known when one was updated

---
 augpathlib/caches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index f67d7ce..b8bdc26 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -722,10 +722,11 @@ class _CachePath(AugmentedPath):
 
         su, ou = self.meta.updated, other.meta.updated
         lsu, lou = self.local.meta.updated, other.local.meta.updated
-        if su < ou:
+        # if it is not known when it was updated it is older
+        if su != ou and (su is None or ou is not None and su < ou):
             old, new = self, other
 
-        elif su > ou:
+        elif su != ou:
             new, old = self, other
 
         elif lsu is None and lou is None:
-- 
2.43.0


From b2828302df3c45e7dd684ad292d67ed62e54205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 098/107] fix: the name of an annotated tag or of none in
 particular

---
 augpathlib/repo_patch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index 1aeb0a8..8b8aee7 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -19,16 +19,20 @@ class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
             hexsha, *ref_name = self.head.commit.name_rev.split()
             if ref_name:
                 ref_name = ref_name[0]
+                if ref_name.endswith('^0'):
+                    # the commit of an annotated tag
+                    ref_name = ref_name[:-2]
+
                 if '/' in ref_name:
                     tags, tag_name = ref_name.split('/', 1)
-                    if tags == 'tags':
-                        return tag_name
-                    elif '~' in tag_name:
+                    if '~' in tag_name or '^' in tag_name:
                         # these refs are unstable because they count
                         # backward from the first named ref that
                         # occures after them in the tree, better to
                         # use the hexsha in those cases
                         return None
+                    elif tags == 'tags':
+                        return tag_name
                     else:
                         return ref_name
                 else:
-- 
2.43.0


From c3b0985255e54604211f5d4a928c07bf5b690c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 099/107] fix: exists and resolve take the arguments that
 pathlib takes

---
 augpathlib/core.py | 8 ++++----
 augpathlib/zip.py  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 86233db..0534ab0 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -419,12 +419,12 @@ class AugmentedPath(pathlib.Path):
             self._init()
             return self
 
-    def exists(self):
+    def exists(self, **kwargs):
         """ Turns out that python doesn't know how to stat symlinks that point
             to their own children, which is fine because that is what we do
             so a reasonable way to short circuit the issue """
         try:
-            return super().exists()
+            return super().exists(**kwargs)
         except OSError as e:
             #log.error(e)   # too noisy ... though it reaveals we call exists a lot
             if not _ignore_error(e):
@@ -468,9 +468,9 @@ class AugmentedPath(pathlib.Path):
     def exists_not_symlink(self):
         return self.exists() and not self.is_symlink()
 
-    def resolve(self):
+    def resolve(self, strict=False):
         try:
-            return super().resolve()
+            return super().resolve(strict=strict)
         except RuntimeError as e:
             msg = ('Unless this call to resolve was a mistake you should switch '
                    'to using readlink instead. Uncomment raise e to get a trace.\n'
diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index 7fd25fc..ba4ee92 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -120,9 +120,9 @@ class ZipHelper:
 
     _zfc_cache = {}
 
-    def exists(self):
+    def exists(self, **kwargs):
         if self.zip_path is None:
-            return super().exists()
+            return super().exists(**kwargs)
         else:
             return self.zip_relative_path.exists()
 
-- 
2.43.0


From c6460bc78a5cf2dca7cd700c68292b4aa41d28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 100/107] fix: the path of a remote whose cache is a relative
 path

---
 augpathlib/remotes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index b98e37d..45ae620 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -479,8 +479,10 @@ class RemotePath:
             parent_names.append(parent.name)
             # FIXME can this go stale? if so how?
             #log.debug(cache_parent)
-            if cache_parent is not None and parent.id == cache_parent.id:
-                    for c_parent in cache_parent.parents:
+            if (cache_parent is not None and parent.id == cache_parent.id and
+                '..' not in cache_parent.parts):
+                    # a relative path does not have all its parents
+                    for c_parent in cache_parent.absolute().parents:
                         if c_parent is None:
                             continue
                         elif c_parent.id == remote.id:
-- 
2.43.0


From 519b86cee3cd3e3b1c28f80bc8bb7c1f14f13a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 101/107] fix: move raises when the rename fails instead of
 returning the target

---
 augpathlib/caches.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index b8bdc26..eea38e3 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1,4 +1,5 @@
 import sys
+import errno
 import pathlib
 import warnings
 from augpathlib import exceptions as exc
@@ -1066,6 +1067,11 @@ class _CachePath(AugmentedPath):
                 log.exception(e)
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.rename(target)
+
+                if not (target.is_dir() and
+                        isinstance(e, OSError) and
+                        e.errno in (errno.ENOTEMPTY, errno.EEXIST, errno.EISDIR)):
+                    raise e
             finally:
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.unlink()
-- 
2.43.0


From 9279c3545355d74e5a65e3f0b6779f137b33899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 102/107] fix: SymlinkCache.meta puts the old link back when
 the new one can not be made

---
 augpathlib/caches.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index eea38e3..83ce078 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1256,6 +1256,7 @@ class SymlinkCache(_CachePath):
     def meta(self, pathmeta):
         if not self.exists():
             # if the path does not exist write even temporary to disk
+            trashed = None
             if self.is_symlink():
                 meta = self.meta
                 if meta == pathmeta:
@@ -1330,7 +1331,7 @@ class SymlinkCache(_CachePath):
                 # use primary_cache._trashed_path directly could fail
                 # if the trashed path has a non-existent parent
                 try:
-                    primary_cache.crumple()
+                    trashed = primary_cache.crumple()
                 except FileExistsError:
                     # a file by this name with this id has already been
                     # crumpled so we unlink here instead
@@ -1345,8 +1346,15 @@ class SymlinkCache(_CachePath):
             # we need to error if that happens
             #symlink = pathlib.PurePosixPath(self.local.name, pathmeta.as_symlink().as_posix().strip('/'))
             #symlink = pathlib.PurePosixPath(self.local.name) / pathmeta.as_symlink()
-            symlink = pathmeta.as_symlink(local_name=self.local.name)
-            self.local.symlink_to(symlink)
+            try:
+                symlink = pathmeta.as_symlink(local_name=self.local.name)
+                self.local.symlink_to(symlink)
+            except BaseException as e:
+                if trashed is not None:
+                    # put the old version back
+                    trashed.rename(self.local)
+
+                raise e
 
         else:
             raise exc.PathExistsError(f'Path exists {self}')
-- 
2.43.0


From 82cc9da2f00f64229666c7bf598b91e9c3b40815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 103/107] fix: restoring the metadata of a missing path from
 the backup does not recurse

---
 augpathlib/caches.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 83ce078..a1f671e 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1391,6 +1391,7 @@ class PrimaryCache(CachePath):
                 meta = cache.meta
                 if meta:
                     log.info(f'restoring from backup {meta}')
+                    self._id = meta.id  # getting the id while it is set would end up here again
                     self._meta_setter(meta)  # repopulate primary cache from backup
                     return meta
 
-- 
2.43.0


From 52f2c6fd2111a2caca465132c69d8e084603f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:03 +0000
Subject: [PATCH 104/107] fix: fetching a file whose file id is not known yet
 keeps to the size limit that was given

---
 augpathlib/caches.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index a1f671e..03fd2e9 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -883,9 +883,6 @@ class _CachePath(AugmentedPath):
         if self.meta is None:
             breakpoint()
 
-        limit = (size_limit_mb if
-                 not self.meta.size or (size_limit_mb > self.meta.size.mb)
-                 else self.meta.size.mb + 1)
         new = self.remote.refresh(update_cache=True,
                                   update_data=update_data,
                                   update_data_on_cache=(self.is_file() and self.exists()),
@@ -917,7 +914,7 @@ class _CachePath(AugmentedPath):
             msg = f'WAT: {self.as_posix()}'
             raise exc.NoCachedMetadataError(msg)
         elif meta.file_id is None:
-            self.refresh(update_data=True, force=True)
+            self.refresh(update_data=True, size_limit_mb=size_limit_mb, force=True)
             # the file name could be different so we have to return here
             return
 
-- 
2.43.0


From cbad0124070354d5f92b25c1702aad64d32f1a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:06 +0000
Subject: [PATCH 105/107] fix: open paths with another program when flavours
 are not bound

---
 augpathlib/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 0534ab0..8b77e93 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1685,6 +1685,13 @@ class XopenPosixHelper(XopenHelper):
                 sleep(.01)  # spin a bit more slowly
 
 
+if not need_flavour:
+    # flavours are not bound anymore so the helper has no other way in
+    _xopen_helper = XopenWindowsHelper if os.name == 'nt' else XopenPosixHelper
+    XopenHelper._command = _xopen_helper._command
+    XopenHelper.xopen = _xopen_helper.xopen
+
+
 class XopenPath(XopenHelper, AugmentedPath):
     pass
 
-- 
2.43.0


From 6c75423e87aa53e641e5a464b7176ca16dcd84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:02 +0000
Subject: [PATCH 106/107] fix: keep one machine id when several programs make
 it at once

---
 augpathlib/utils.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index fdf1a2e..6ece4d1 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -79,8 +79,23 @@ def sysidpath(ignore_options=False, path_class=Path):
                     return option
 
     uuid = uuid4()
-    with open(failover, 'wt') as f:
-        f.write(uuid.hex)
+    # write it elsewhere so that nobody else ever reads an incomplete one
+    temp = failover.with_name(f'{failover.name}.{uuid.hex}')
+    try:
+        with open(temp, 'wt') as f:
+            f.write(uuid.hex)
+
+        if ignore_options:
+            temp.replace(failover)
+        else:
+            os.link(temp, failover)
+    except FileExistsError:
+        if not failover.exists() or failover.stat().st_size == 0:
+            temp.replace(failover)
+        # otherwise someone else was faster and we have to use theirs
+    finally:
+        if temp.exists():
+            temp.unlink()
 
     return failover
 
-- 
2.43.0


From 290699c4408cf3fa9e5335b4ed1c688043dd2f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 107/107] fix: flag fetched content that does not match its
 etag

---
 augpathlib/caches.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 03fd2e9..4ef0120 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -637,6 +637,9 @@ class _CachePath(AugmentedPath):
                        f'\n{local_checksum}-{local_count}'
                        f'\n{cache_checksum}-{cache_count}\n)')
                 log.critical(msg)
+                nmeta = {k: v for k, v in meta.items()}
+                nmeta['errors'] += ('etag-mismatch',)
+                self._meta_setter(meta.__class__(**nmeta))
 
         elif meta.checksum:
             lc = self.local.checksum(cypher=self._instance_cypher())
@@ -966,6 +969,14 @@ class _CachePath(AugmentedPath):
                     self._meta_setter(meta.__class__(**nmeta))
                     #raise BaseException()
 
+            if (meta.etag and meta.chunksize and
+                'etag-mismatch' not in self.meta.errors and
+                self.local.etag(meta.chunksize) != meta.etag):
+                log.critical(f'etags do not match for {self!r}')
+                nmeta = {k: v for k, v in self.meta.items()}
+                nmeta['errors'] += ('etag-mismatch',)
+                self._meta_setter(self.meta.__class__(**nmeta))
+
         if size_not_ok:
             log.warning(f'File is over the size limit {meta.size.mb} > {size_limit_mb}')
 
-- 
2.43.0

