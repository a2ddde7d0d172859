From df7c346d35fda8638a851231573da04bf8d18c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 01/65] fix: rmtree guards see through .. and symlinked
 parents, error handling covers listing and symlink failures

---
 augpathlib/core.py | 51 ++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8c48831..815525d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -656,13 +656,33 @@ class AugmentedPath(pathlib.Path):
 
         if not (DANGERZONE is True):  # prevent python type coersion
             # TODO test in a chroot
-            lenparts = len(self.parts)
-            if lenparts <= 2:
-                raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
-            elif lenparts <= 3 and 'home' in self.parts:
-                raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
-            elif self == pathlib.Path.cwd():
-                raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
+            # also check the location that would actually be removed
+            # since .. and symlinked parents can spell a guarded path
+            # in many ways, the last component must not be followed
+            # because rmtree does not follow it either
+            head, tail = os.path.split(os.fspath(self))
+            if tail == '..':
+                head, tail = os.path.join(head, tail), ''
+
+            real = pathlib.Path(os.path.realpath(head), tail)
+            for path in (self, real):
+                lenparts = len(path.parts)
+                if lenparts <= 2:
+                    raise exc.WillNotRemovePathError(f'Will not remove top level paths. {self}')
+                elif lenparts <= 3 and 'home' in path.parts:
+                    raise exc.WillNotRemovePathError(f'Will not remove home directories. {self}')
+                elif path == pathlib.Path.cwd():
+                    raise exc.WillNotRemovePathError(f'Will not remove current working directory. {self}')
+
+        def on_failure(path):
+            # must be called from an except block
+            if not ignore_errors:
+                if onerror is not None:
+                    ftype = 'rmdir' if path.is_dir() and not path.is_symlink() else 'unlink'
+                    func = getattr(path, ftype)
+                    onerror(func, path, sys.exc_info())
+                else:
+                    raise
 
         try:
             if self.is_dir():
@@ -681,29 +701,24 @@ class AugmentedPath(pathlib.Path):
                     if path.is_symlink():
                         # mimic shutil behavior and don't accidentally
                         # recurse through symlinks (keyword being curse)
-                        path.unlink()
+                        try:
+                            path.unlink()
+                        except BaseException:
+                            on_failure(path)
                     else:
                         path.rmtree(ignore_errors=ignore_errors,
                                     onerror=onerror,
                                     DANGERZONE=DANGERZONE)
 
-                path = self
                 self.rmdir()
             else:
-                path = self
                 self.unlink()
 
         except exc.WillNotRemovePathError:
             raise
 
-        except BaseException as e:
-            if not ignore_errors:
-                if onerror is not None:
-                    ftype = 'rmdir' if path.is_dir() else 'unlink'
-                    func = getattr(path, ftype)
-                    onerror(func, path, sys.exc_info())
-                else:
-                    raise e
+        except BaseException:
+            on_failure(self)
 
     def chdir(self):
         os.chdir(self)
-- 
2.43.0


From 1268788bffd6ec268b6a15b11b46c4ff4bf0579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 02/65] fix: swap works for relative paths and reports the
 errno of renameat2

---
 augpathlib/swap.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/augpathlib/swap.py b/augpathlib/swap.py
index 5fe6fce..30a6bdb 100644
--- a/augpathlib/swap.py
+++ b/augpathlib/swap.py
@@ -15,7 +15,8 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
     # setup for calling renameat2
     SYS_renameat2 = 316  # from /usr/include/asm/unistd_64.h
     RENAME_EXCHANGE = (1 << 1)  # /usr/src/linux/include/uapi/linux/fs.h
-    libc = ctypes.CDLL(None)
+    AT_FDCWD = -100  # /usr/include/fcntl.h
+    libc = ctypes.CDLL(None, use_errno=True)
     rnat2_syscall = libc.syscall
     rnat2_syscall.restypes = ctypes.c_int       # returns an int
     rnat2_syscall.argtypes = (ctypes.c_int,     # syscall number
@@ -27,15 +28,14 @@ if sys.platform == 'linux':  # windows will error on ctypes.CDLL without this
 
     def swap_linux(self, target):
         """ use renameat2 to perform an atomic swap operation """
-        old_fd = os.open(self, 0)
-        new_fd = os.open(target, 0)
-        old_path = os.fspath(self).encode()
-        new_path = os.fspath(target).encode()
+        # relative paths have to be looked up from the cwd
+        old_path = os.fsencode(self)
+        new_path = os.fsencode(target)
         value = rnat2_syscall(SYS_renameat2,
-                              old_fd, old_path,
-                              new_fd, new_path,
+                              AT_FDCWD, old_path,
+                              AT_FDCWD, new_path,
                               RENAME_EXCHANGE)
-        os.close(old_fd)
-        os.close(new_fd)
         if value != 0:
-            raise OSError(value, 'renameat2 failed', self, None, target)
+            eno = ctypes.get_errno()
+            raise OSError(eno, f'renameat2 failed: {os.strerror(eno)}',
+                          self, None, target)
-- 
2.43.0


From 2176612b9c5131d9ccdb45e7fc6efe4d3a4c9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 03/65] fix: swap_carefree restores both paths when one of its
 renames fails

---
 augpathlib/core.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 815525d..17551c7 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -551,11 +551,24 @@ class AugmentedPath(pathlib.Path):
             temp = temp_dir / target.name
             # rename target -> temp
             # rename self -> target
-            # rename target -> self
-            target.rename(temp)
-            self.rename(target)
-            temp.rename(self)
-            temp_dir.rmdir()
+            # rename temp -> self
+            # undo whatever was done if any of the renames fails
+            try:
+                target.rename(temp)
+                try:
+                    self.rename(target)
+                except BaseException:
+                    temp.rename(target)
+                    raise
+
+                try:
+                    temp.rename(self)
+                except BaseException:
+                    target.rename(self)
+                    temp.rename(target)
+                    raise
+            finally:
+                temp_dir.rmdir()
 
     if sys.platform != 'linux':  # just look at us not using pathlib's infra ...
         _swap = swap.swap_not_implemented
-- 
2.43.0


From 9d04f534bbeb0c5c02ff23da31c518d357d9e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 04/65] fix: nested with on the same path object returns to the
 right directory, failed pushd leaves the stack alone

---
 augpathlib/caches.py |  8 ++++++--
 augpathlib/core.py   | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 2caee15..045ab4b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -37,11 +37,15 @@ class _CachePath(AugmentedPath):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.local.cwd()  # caches can't exist outside their anchor anymore
+            cwd = self.local.cwd()  # caches can't exist outside their anchor anymore
             self.chdir()
+            if not hasattr(self, '_entered_from'):
+                self._entered_from = []
+
+            self._entered_from.append(cwd)
             return self
         else:
-            super().__enter__(self)
+            return super().__enter__()
 
     @classmethod
     def setup(cls, local_class, remote_class_factory):
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 17551c7..07e4e6f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -738,8 +738,9 @@ class AugmentedPath(pathlib.Path):
 
     def pushd(self):
         if self.is_dir():
-            AugmentedPath._stack.append(self.cwd())
+            cwd = self.cwd()
             self.chdir()
+            AugmentedPath._stack.append(cwd)
             print(*reversed(AugmentedPath._stack), self.cwd())
         else:
             raise NotADirectoryError(f'{self} is not a directory')
@@ -760,16 +761,21 @@ class AugmentedPath(pathlib.Path):
 
     def __enter__(self):
         if self.is_dir():
-            self._entered_from = self.cwd()
+            cwd = self.cwd()
             self.chdir()
+            if not hasattr(self, '_entered_from'):
+                self._entered_from = []
+
+            # the same object can be entered more than once
+            self._entered_from.append(cwd)
             return self
         else:
-            super().__enter__()
+            return super().__enter__()
 
     def __exit__(self, t, v, tb):
-        if hasattr(self, '_entered_from'):
+        if getattr(self, '_entered_from', None):
             # if is_dir fails because of a change still try to return
-            self._entered_from.chdir()
+            self._entered_from.pop().chdir()
         else:
             super().__exit__(t, v, tb)
 
-- 
2.43.0


From 6e28244f45ba2d0bcda8a0551bf8d0e62d5b7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 05/65] fix: LocalPath copies empty files and does not truncate
 a file copied onto itself

---
 augpathlib/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 07e4e6f..5c5a9a5 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1387,7 +1387,7 @@ class LocalPath(EatPath, AugmentedPath):
         # SO. It turns out that open(thing, 'wb') has fundamentally different
         # semantics on posix and windows (wheeeeeeeeeee!) on posix it keeps
         # xattrs intact, on windows it erases them AAAAAAAAAAAAAAAAAAAAAAA
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'ab') as f:
             f.seek(0)
             f.truncate()
@@ -1397,7 +1397,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.write(chunk)
 
     def _write_chunks_posix(self, generator):
-        chunk1 = next(generator)  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file FIXME I think this might be causing the zero size files?
         with open(self, 'wb') as f:
             f.write(chunk1)
             for chunk in generator:
@@ -1440,7 +1440,7 @@ class LocalPath(EatPath, AugmentedPath):
         # FIXME if the generator can silently fail that is very very bad news ...
         # but how/why would they be silently failing ??!
         log.debug(f'writing to {self}')
-        chunk1 = next(generator)  # if an error occurs don't open the file
+        chunk1 = next(generator, b'')  # if an error occurs don't open the file
         with open(self, 'ab' if append else 'wb') as f:
             f.write(chunk1)
             yield chunk1
@@ -1455,6 +1455,10 @@ class LocalPath(EatPath, AugmentedPath):
             target = self.__class__(target)
 
         if not target.exists() and not target.is_symlink() or force:
+            if target.exists() and self.exists() and self.samefile(target):
+                # opening target for writing would truncate self
+                raise shutil.SameFileError(f'{self} and {target} are the same file')
+
             target.data = self.data
         else:
             raise exc.PathExistsError(f'{target}')
-- 
2.43.0


From 702b58cb3fec712eed501eb2b8de265618519543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 06/65] fix: data range as long as one chunk

---
 augpathlib/core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5c5a9a5..9e219e5 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1354,11 +1354,7 @@ class LocalPath(EatPath, AugmentedPath):
                 f.seek(start, 2 if start < 0 else 0)
                 if end is not None:
                     total = end - start
-                    if total < chunksize:
-                        nchunks = 0
-                        last_chunksize = total
-                    elif total > chunksize:
-                        nchunks, last_chunksize = divmod(total, chunksize)
+                    nchunks, last_chunksize = divmod(total, chunksize)
 
                     for _ in range(nchunks):  # FIXME boundscheck ...
                         yield f.read(chunksize)
-- 
2.43.0


From 520f943e89503d7ada39cced8d4215dd20ed8a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 07/65] fix: etag can be updated after an early digest

---
 augpathlib/utils.py | 60 +++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 7b1684f..107299b 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -201,55 +201,35 @@ class etag:
     cypher = hashlib.md5
 
     def __init__(self, chunksize):
+        if chunksize < 1:
+            raise ValueError(f'etag chunksize must be positive not {chunksize}')
+
         self.chunksize = chunksize
-        self._m = self.cypher()
+        self._m = self.cypher()  # state for the current incomplete part
+        self._m_size = 0  # number of bytes in the current incomplete part
         self._parts = []
-        self._remainder = b''
-        self._last_chunksize = 0
 
     def update(self, bytes_):
-        remainder, self._remainder = self._remainder, b''
-        bio = io.BytesIO(remainder + bytes_)  # inefficient for len(bytes_) << self.chunksize
-        while True:
-            if self._last_chunksize:
-                # in the event a restart is required only
-                # only read the number of bytes left for
-                # the current chunk to update self._m
-                chunksize = self.chunksize - self._last_chunksize
-                self._last_chunksize = 0
-            else:
-                chunksize = self.chunksize
-
-            chunk = self._remainder
-            self._remainder = bio.read(chunksize)
-            if not self._remainder:
-                # the second time around at the end this will break the loop if the chunk
-                # is exactly equal to the chunk size
-                if len(chunk) < chunksize:
-                    self._remainder = chunk
-                    return
-
-            if chunk:
-                self._m.update(chunk)  # empty remainder doesn't advance the function
-                digest = self._m.digest()
+        view = memoryview(bytes_)
+        while view:
+            head = view[:self.chunksize - self._m_size]
+            view = view[len(head):]
+            self._m.update(head)
+            self._m_size += len(head)
+            if self._m_size == self.chunksize:
+                self._parts.append(self._m.digest())
                 self._m = self.cypher()
-                if chunksize < self.chunksize:
-                    # we are in a restart and need to update the last part with the
-                    # digest for the full chunksize
-                    self._parts[-1] = digest
-                else:
-                    self._parts.append(digest)
+                self._m_size = 0
 
     def digest(self):
-        if self._remainder:
-            self._last_chunksize = len(self._remainder)  # in case someone calls an early digest
-            self._m.update(self._remainder)
-            self._parts.append(self._m.digest())  # do not overwrite self._m yet
-            self._remainder = b''  # this allows a stable call at the end
+        # do not modify any state so that digest can be called early
+        parts = list(self._parts)
+        if self._m_size:
+            parts.append(self._m.digest())
 
         m = self.cypher()
-        m.update(b''.join(self._parts))
-        return m.digest(), len(self._parts)
+        m.update(b''.join(parts))
+        return m.digest(), len(parts)
 
     def hexdigest(self):
         digest, count = self.digest()
-- 
2.43.0


From bc9456745485d462b504bfd0999d8c1ed9a53f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 08/65] fix: LocalPath.meta has the checksum even if
 meta_no_checksum was used first, etag chunksize, created

---
 augpathlib/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 9e219e5..972c385 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1221,7 +1221,7 @@ class LocalPath(EatPath, AugmentedPath):
 
     @property
     def created(self):
-        self.meta.created
+        return self.meta.created
 
     def _stat(self):
         """ sometimes python just doesn't have what it takes """
@@ -1270,9 +1270,12 @@ class LocalPath(EatPath, AugmentedPath):
             st = self._stat()
 
         # FIXME nanos vs millis ??
-        change_tuple = (fs_metadata_changed_time,
-                        fs_data_modified_time) = (st.st_ctime,
-                                                  st.st_mtime)
+        fs_metadata_changed_time, fs_data_modified_time = (st.st_ctime,
+                                                           st.st_mtime)
+        # what was asked for is part of the key, otherwise meta without
+        # a checksum is returned when one with a checksum is needed
+        change_tuple = (fs_metadata_changed_time, fs_data_modified_time,
+                        checksum, chunksize)
 
         if hasattr(self, '_meta') and self._meta is not None:
             if self.__change_tuple == change_tuple:
@@ -1319,7 +1322,7 @@ class LocalPath(EatPath, AugmentedPath):
                               updated=updated,
                               checksum=checksum,
                               checksum_cypher=checksum_cypher,
-                              etag=self.etag() if chunksize else None,
+                              etag=self.etag(chunksize) if chunksize else None,
                               chunksize=chunksize,
                               parent_id=self.parent_id,
                               id=self.id,
-- 
2.43.0


From 15b39359330fbb8e8acae0525a821638e885a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 09/65] fix: PathMeta equality is symmetric, meta[key] returns
 the value, copy and pickle work

---
 augpathlib/meta.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 99cc09a..caea51e 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -23,6 +23,10 @@ def isoformat(datetime_instance, timespec='auto'):
             .replace('+00:00', 'Z'))
 
 
+def _unreduce(cls, kwargs):
+    return cls(**kwargs)
+
+
 class PathMeta:
     """ Internal representation that every other format converts through. """
 
@@ -139,28 +143,36 @@ class PathMeta:
         yield from self
 
     def __getitem__(self, key):
-        try:
-            getattr(self, key)
-        except AttributeError as e:
-            raise KeyError(key)
+        for k, v in self.items():
+            if k == key:
+                return v
+
+        raise KeyError(key)
 
     def __iter__(self):
-        yield from (k for k in self.__dict__ if not k.startswith('_'))
+        yield from (k for k, v in self.items())
 
     def __reduce__(self):
-        return (self.__class__, {k:v for k, v in self.items() if v is not None})
+        kwargs = {k:v for k, v in self.items() if v is not None}
+        kwargs.update(self._unhandled)
+        return _unreduce, (self.__class__, kwargs)
 
     def __repr__(self):
         _dict = {k:v for k, v in self.items() if not k.startswith('_')}
         return f'{self.__class__.__name__}({_dict})'
 
+    @property
+    def _unhandled(self):
+        return getattr(self, '_PathMeta__kwargs', {})
+
     def __eq__(self, other):
+        # compare values not __dict__ because that changes
+        # when created and updated are parsed on first access
         if isinstance(other, PathMeta):
-             for field, value in self.__dict__.items():
-                  if value != getattr(other, field):
-                       return False
-             else:
-                  return True
+            return (dict(self.items()) == dict(other.items()) and
+                    self._unhandled == other._unhandled)
+
+        return NotImplemented
 
     def __bool__(self):
         for k, v in self.__dict__.items():
-- 
2.43.0


From 25537812c5d2c9ee46e62d1f79986dcd8588d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 10/65] fix: refuse errors that xattrs cannot give back

---
 augpathlib/meta.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index caea51e..a272347 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -846,6 +846,11 @@ class _EncodeByField:
         return value
 
     def _list(self, value):
+        for element in value:
+            if not element or ';' in element:
+                # would come back as something else when split
+                raise ValueError(f'{element!r} cannot be an element of a list')
+
         return ';'.join(value)
 
     def errors(self, value):
-- 
2.43.0


From 24712d784c38f010c148be748ef0d69f868300cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 11/65] fix: symlink metadata either comes back unchanged or is
 refused, the first version can be read

---
 augpathlib/meta.py | 75 ++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index a272347..e55f3d8 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -289,6 +289,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     write_version = 'mdv6'  # update this on new version
     order = versions[write_version]
     extras = 'size.hr',
+    fields_int = 'file_id', 'size', 'chunksize', 'multi', 'gid'
 
     def __init__(self):
         # register functionality on PathMeta
@@ -320,36 +321,63 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return self.empty
 
         if field in ('errors',):
-            return self.subfieldsep.join(value)
+            errors = [self._escape(field, e) for e in value]
+            for error in errors:
+                if not error or self.subfieldsep in error:
+                    raise ValueError(f'Y U DO DIS >:| {field}: {value!r}')
+
+            out = self.subfieldsep.join(errors)
+            if out == self.empty:
+                raise ValueError(f'Y U DO DIS >:| {field}: {value!r}')
+
+            return out
 
         if field == 'checksum':
             return value.hex()  # raw hex may contain field separators :/
 
-        if isinstance(value, str) and '/' in value:
-            if self.pathsep in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-            elif field == 'name':
-                msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
-                raise ValueError(msg)  # FIXME error type
+        if field in self.fields_int and isinstance(value, str):
+            int(value)  # must fail here because decode will fail
 
-            value = value.replace('/', self.pathsep)
+        if isinstance(value, str):
+            if field == 'id' and not value:
+                raise ValueError(f'Y U DO DIS >:| {field}: {value!r}')
 
-        if isinstance(value, str) and self.fieldsep in value:
-            if self.fieldsep_esc in value:
-                msg = f'Y U DO DIS >:| {field}: {value!r}'
-                raise ValueError(msg)  # FIXME error type
-
-            value = value.replace(self.fieldsep, self.fieldsep_esc)
+            value = self._escape(field, value)
+            if value == self.empty:
+                raise ValueError(f'Y U DO DIS >:| {field}: {value!r}')
 
         return _str_encode(field, value)
 
+    def _escape(self, field, value):
+        """ everything that is not refused here must come
+            back unchanged when it is decoded """
+        if self.pathsep in value or self.fieldsep_esc in value:
+            msg = f'Y U DO DIS >:| {field}: {value!r}'
+            raise ValueError(msg)  # FIXME error type
+
+        if '/' in value and field == 'name':
+            msg = f'WHY DO YOU HAVE A / IN A FILE NAME !!!! {value!r}'
+            raise ValueError(msg)  # FIXME error type
+
+        return (value
+                .replace('/', self.pathsep)
+                .replace(self.fieldsep, self.fieldsep_esc))
+
+    def _unescape(self, value, version):
+        if version >= 5:
+            return (value
+                    .replace(self.pathsep, '/')
+                    .replace(self.fieldsep_esc, self.fieldsep))
+
+        return value
+
     def decode(self, field, value, version):
         if value == self.empty:
             return None
 
         if field == 'errors':
-            return [_ for _ in value.split(self.subfieldsep) if _]
+            return [self._unescape(_, version)
+                    for _ in value.split(self.subfieldsep) if _]
 
         elif field in ('created', 'updated'):
             setattr(self, '_' + field, value)
@@ -360,7 +388,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return bytes.fromhex(value)
 
         elif field == 'checksum_cypher':
-            return value
+            return self._unescape(value, version)
 
         elif field == 'etag':
             checksum, strcount = value.rsplit('-', 1)
@@ -371,7 +399,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             try:
                 return int(value)
             except ValueError:  # FIXME :/ uid vs owner_id etc ...
-                return value
+                return self._unescape(value, version)
 
         elif field in ('name', 'id', 'mode', 'old_id', 'parent_id'):
             if self.pathsep in value:
@@ -390,13 +418,7 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             return value
 
         else:
-            try:
-                return int(value)
-            except ValueError as e:
-                breakpoint()
-                raise e
-
-        return value
+            return int(value)
 
     def as_symlink(self, pathmeta, local_name=None):
         """ encode meta as a relative path to be appended as a child,
@@ -461,7 +483,8 @@ class _PathMetaAsSymlink(_PathMetaConverter):
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-        vint = int(version[3:])
+        # the first version had no number
+        vint = 0 if version == 'meta' else int(version[3:])
         order = self.versions[version]
         kwargs = {field:self.decode(field, value, vint)
                   for field, value in zip(order, suffixes)}
-- 
2.43.0


From b747ccb190bc62fa049b96cb052e40b13e54ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 12/65] fix: as_pretty_diff lists every field of both metas,
 content_different works without updated

---
 augpathlib/meta.py | 48 +++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index e55f3d8..b2df38b 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -126,7 +126,9 @@ class PathMeta:
             return self.checksum != other.checksum
         else:
             return (self.size != other.size or
-                    self.updated < other.updated)
+                    (self.updated is not None and
+                     other.updated is not None and
+                     self.updated < other.updated))
 
     def items(self):
         out = [(k, v) for k, v in self.__dict__.items() if k[0] != '_']  # FIXME nonfields?
@@ -789,46 +791,18 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
             title = red.format(title)
 
         def merge(a, b):
+            # rows are sorted by fields so keep that order
             keys = [k for k, _ in a]
-            okeys = [ok for ok, _ in b]
-            kind = [(k, okeys.index(k) - i, k)
-                    if k in okeys else
-                    (None, 0, k) for i, k in enumerate(keys)]
-            okind = [(ok, keys.index(ok) - i, ok)
-                     if ok in keys else
-                     (None, 0, ok) for i, ok in enumerate(okeys)]
-            long, short = ((kind, okind)
-                           if len(kind) > len(okind) else
-                           (okind, kind))
-            start_align = None
-            aligned = []
-            offset = 0
-            for i, (k, v, av) in enumerate(long):
-                i -= offset
-                if k is None and start_align is None:
-                    aligned.append(av)
-                    aligned.append(short[i + v][-1])
-                elif k is not None:
-                    if v <= 0:
-                        start_align = i
-                        aligned.append(av)
-                    else:
-                        for j in range(v):
-                            aligned.append(short[i + j][-1])
-                        offset += v
-                        aligned.append(av)
-
-                elif k is None:
-                    aligned.append(av)
-                # FIXME what to do if short has a key that long does not?
-
-            lkv = len(a[0])
-            lokv = len(b[0])
+            okeys = [k for k, _ in b]
+            both = set(keys) | set(okeys)
+            aligned = [k for k in self.fields if k in both]
+            aligned += sorted(both.difference(aligned))
+
             kv = {k:[k, v] for k, v in a}
             okv = {k:[k, v] for k, v in b}
             for k in aligned:
-                l = kv[k] if k in kv else ([''] * lkv)
-                r = okv[k] if k in okv else ([''] * lokv)
+                l = kv[k] if k in kv else ['', '']
+                r = okv[k] if k in okv else ['', '']
                 yield l + r
 
         h = [['Key', 'Value', 'Key Other', 'Value Other']]
-- 
2.43.0


From 010dd18b878dca0508abf65ba5926120b5b725e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 13/65] fix: multi given as bool can be decoded

---
 augpathlib/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index b2df38b..44debdd 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -869,7 +869,7 @@ class _EncodeByField:
     def checksum(self, value): return value
     def etag(self, value): return f'{value[0].hex()}-{value[1]}'  # checksum-count  # TODO pack this?
     def chunksize(self, value): return str(value)
-    def multi(self, value): return str(value)
+    def multi(self, value): return str(int(value))  # could be bool
     def parent_id(self, value): return str(value)
     def file_id(self, value): return str(value)
     def gid(self, value): return str(value)
-- 
2.43.0


From ff9f70679f62e8f78dcb50b49fc4fa771a48ceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 14/65] fix: errors about the old content do not survive a
 change of content

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 045ab4b..0894f5b 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1389,7 +1389,8 @@ class PrimaryCache(CachePath):
                 if k == 'old_id':
                     continue
 
-                if vnew is None:
+                if vnew is None or k == 'errors' and not vnew:
+                    # errors of the old content say nothing about the new
                     log.debug(kwargs.pop(k))
 
         #old.updated == new.updated
-- 
2.43.0


From d6c11212432cefc16caeaae9d85cde9930dea888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 15/65] fix: symlink for another name raises
 CircularSymlinkNameError instead of entering the debugger

---
 augpathlib/meta.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 44debdd..2c4384d 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -468,11 +468,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             local_name = None
 
         if match_name and symlink_path.name != local_name:
-            _l = symlink_path.as_posix().lower()
-            l = pathlib.Path(_l).parent
-            u = pathlib.Path(_l).parent
-            if l.exists() and u.exists():
-                breakpoint()
+            _l = symlink_path.as_posix()
+            l = pathlib.Path(_l.lower()).parent
+            u = pathlib.Path(_l.upper()).parent
+            if l != u and l.exists() and u.exists() and l.samefile(u):
                 # You've been hit by a case insenstivie file system!
                 # path.exists() -> True but FileNotFoundError woo
                 raise FileNotFoundError(symlink_path)
-- 
2.43.0


From d646eb089e4273a9b7c95737a3c0c622c5625f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 16/65] fix: one helper class per path class so that caches
 with the same anchor have the same type and can be moved

---
 augpathlib/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 972c385..b210f5e 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -968,8 +968,11 @@ class EatPath(EatHelper, AugmentedPath):
         def __new__(cls, *args, **kwargs):
             helper = ADSHelper if os.name == 'nt' else XattrHelper
             if helper not in cls.mro():
-                # FIXME do we need to cache these so the types match?
-                cls = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+                # one helper class per class so that the types match
+                if '_helper_class' not in cls.__dict__:
+                    cls._helper_class = type(f'{cls.__name__}_{helper.__name__}', (cls, helper), {})
+
+                cls = cls._helper_class
 
             #breakpoint()
             return super().__new__(cls, *args, **kwargs)
-- 
2.43.0


From d6059e8cc3b942203aca6d8fa240f05906a4d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 17/65] fix: metadata fields that are gone are removed from the
 xattrs of a cache

---
 augpathlib/caches.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 0894f5b..fea0d09 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1095,7 +1095,15 @@ class EatCache(EatPath, _CachePath):
             # where the checksum differs, the old version needs to be
             # trashed before any of this is written, otherwise the old
             # metadata is lost >_<
-            self.setxattrs(pathmeta.as_xattrs(self.xattr_prefix))
+            new = pathmeta.as_xattrs(self.xattr_prefix)
+            prefix = f'{self.xattr_prefix}.' if self.xattr_prefix else ''
+            fields = set(f'{prefix}{field}'.encode() for field in pathmeta)
+            current = set(self.xattrs())
+            self.setxattrs(new)
+            for key in (fields & current) - set(new):
+                # fields that are gone must not be read back
+                self.delxattr(key)
+
             if hasattr(self, '_meta'):  # prevent reading from in-memory store
                 delattr(self, '_meta')
 
-- 
2.43.0


From 9490fac99da1ad13749df4efd10db91ef8fe32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 18/65] fix: merging metadata without an id does not invent an
 old id

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index fea0d09..5d5d6c5 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1367,7 +1367,7 @@ class PrimaryCache(CachePath):
         file_is_different = False
 
         kwargs = {k:v for k, v in old.items()}
-        if old.id != new.id:
+        if new.id is not None and old.id != new.id:
             kwargs['old_id'] = old.id
 
         for k, vnew in new.items():
-- 
2.43.0


From c0e67cbbc4d165f3f23fb71ec03d6dd55f9b4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 19/65] fix: as_pretty_diff works for paths that are not in the
 current directory

---
 augpathlib/meta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index 2c4384d..dce1f69 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -782,7 +782,11 @@ class _PathMetaAsPrettyDiff(_PathMetaAsPretty):
                        human=False):
         if title is None:
             if pathobject is not None:
-                title = pathobject.relative_to(pathobject.cwd()).as_posix()
+                try:
+                    title = pathobject.relative_to(pathobject.cwd()).as_posix()
+                except ValueError:
+                    # not in the current directory
+                    title = pathobject.as_posix()
             else:
                 title = ''
             
-- 
2.43.0


From 9e532c41d9f1769fc8dd7578a8678d999b2312ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 20/65] fix: remotes are hashable, repeated recursive bootstrap
 needs sets of them

---
 augpathlib/remotes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 7188f8c..1d2dcde 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -568,6 +568,10 @@ class RemotePath:
     def __ne__(self, other):
         return not self == other
 
+    def __hash__(self):
+        # defining __eq__ alone makes remotes unhashable
+        return hash(self.id)
+
     def __repr__(self):
         return f'{self.__class__.__name__}({self.id!r})'
 
-- 
2.43.0


From dcb6b4182b7005780cb8eacd04ddd811fec331de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 21/65] fix: moving into directories that do not exist locally
 yet creates them with their cached metadata

---
 augpathlib/caches.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5d5d6c5..02e8348 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -944,6 +944,18 @@ class _CachePath(AugmentedPath):
             if not isinstance(self.anchor, self.__class__):
                 raise TypeError(f'mismatched anchor types {self!r} {self.anchor!r}')
 
+            # directories on the way that do not exist yet need a cache of their own
+            missing = []
+            for remote_parent in remote.parents:
+                if (remote_parent.id == self.anchor.id or
+                    (self.anchor.local / remote_parent.as_path()).exists()):
+                    break
+
+                missing.append(remote_parent)
+
+            for remote_parent in reversed(missing):
+                self.anchor / remote_parent
+
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
         if target.absolute() == self.absolute():
-- 
2.43.0


From 22f55170c23fd3830fc407725850b37a111189df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 22/65] fix: a directory whose content is already at the new
 place does not stay behind with the same id

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 02e8348..f54de06 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1024,6 +1024,10 @@ class _CachePath(AugmentedPath):
                 log.exception(e)
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.rename(target)
+                elif self.is_dir() and target.is_dir() and not any(self.local.iterdir()):
+                    # everything is already at target, do not keep
+                    # a second directory with the same id
+                    self.rmdir()
             finally:
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.unlink()
-- 
2.43.0


From b0b123c858f3f6e470c3625206cfeb34b70b0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 23/65] fix: a failed fetch puts the placeholder back instead
 of leaving partial content

---
 augpathlib/caches.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index f54de06..5d53ec2 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -869,7 +869,25 @@ class _CachePath(AugmentedPath):
             trashed = self.crumple()
 
     def fetch(self, size_limit_mb=2):
-        """ bypass remote to fetch directly based on stored meta """
+        """ bypass remote to fetch directly based on stored meta
+            if that fails a placeholder is left as it was """
+        if not self.is_broken_symlink() or not self.meta or self.meta.file_id is None:
+            return self._fetch(size_limit_mb)
+
+        placeholder = self.local.readlink()
+        try:
+            return self._fetch(size_limit_mb)
+        except BaseException:
+            if not self.is_symlink():
+                # a placeholder is better than partial content
+                if self.exists():
+                    self.unlink()
+
+                self.local.symlink_to(placeholder)
+
+            raise
+
+    def _fetch(self, size_limit_mb=2):
         meta = self.meta
         if self.is_dir():
             msg = 'not going to fetch all data in a dir at the moment'
-- 
2.43.0


From 5cdaeefea177fc6e764bac3ddfa0a549d360bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 24/65] fix: crumple returns where the path went when its name
 was too long for the trash

---
 augpathlib/caches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5d53ec2..3d620fa 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -166,7 +166,8 @@ class _CachePath(AugmentedPath):
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
                 log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                self.rename(self._trashed_path_short)
+                trashed = self._trashed_path_short
+                self.rename(trashed)
             else:
                 raise e
 
-- 
2.43.0


From 7d8ae6dd2085488074a2788283a71242b142599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 25/65] fix: a placeholder that cannot be updated is left as it
 was

---
 augpathlib/caches.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 3d620fa..bd31250 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1232,6 +1232,7 @@ class SymlinkCache(_CachePath):
     def meta(self, pathmeta):
         if not self.exists():
             # if the path does not exist write even temporary to disk
+            trashed = None
             if self.is_symlink():
                 meta = self.meta
                 if meta == pathmeta:
@@ -1298,8 +1299,9 @@ class SymlinkCache(_CachePath):
                 # primary_cache and it will behave correctly trying to
                 # use primary_cache._trashed_path directly could fail
                 # if the trashed path has a non-existent parent
+                pathmeta.as_symlink(local_name=self.local.name)  # if it fails, it fails here
                 try:
-                    primary_cache.crumple()
+                    trashed = primary_cache.crumple()
                 except FileExistsError:
                     # a file by this name with this id has already been
                     # crumpled so we unlink here instead
@@ -1315,7 +1317,13 @@ class SymlinkCache(_CachePath):
             #symlink = pathlib.PurePosixPath(self.local.name, pathmeta.as_symlink().as_posix().strip('/'))
             #symlink = pathlib.PurePosixPath(self.local.name) / pathmeta.as_symlink()
             symlink = pathmeta.as_symlink(local_name=self.local.name)
-            self.local.symlink_to(symlink)
+            try:
+                self.local.symlink_to(symlink)
+            except BaseException:
+                if trashed is not None:
+                    trashed.rename(self)
+
+                raise
 
         else:
             raise exc.PathExistsError(f'Path exists {self}')
-- 
2.43.0


From 2d58d0ba28d19aaa27185d37091b6eeba150004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 26/65] fix: recursive bootstrap does not hang on local
 directories without metadata, does not follow links

---
 augpathlib/caches.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index bd31250..ffd9868 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -477,7 +477,8 @@ class _CachePath(AugmentedPath):
         file_index = {f.cache_id:f for f in local_files}  # FIXME WARNING can get big
         # FIXME have to compute file_index here because for some reason
         # computing local_dirs will remove folders entirely !??
-        local_dirs = set(p.relative_to(self.anchor) for p in local_paths if p.is_dir())
+        local_dirs = set(p.relative_to(self.anchor) for p in local_paths
+                         if p.is_dir() and not p.is_symlink())
         if local_dirs:
             rcs = list(rcs)  # sigh
             remote_dirs = set(c for c in rcs if c.is_dir())
@@ -490,6 +491,9 @@ class _CachePath(AugmentedPath):
                     ad = self.anchor.local / d
                     if ad.cache is None:
                         log.critical(f'would you fix the nullability already? {d}')
+                        # nothing on the remote, do not look at it again
+                        local_dirs.discard(d)
+                        old_local.discard(d)
                         continue
                     new = ad.cache.refresh()
                     #log.info(f'{new}')
-- 
2.43.0


From db60489856eeb15b36ca9a447695c41775c4e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 27/65] fix: a broken symlink that is not cached metadata has
 no metadata instead of failing to be parsed

---
 augpathlib/meta.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/augpathlib/meta.py b/augpathlib/meta.py
index dce1f69..558054b 100644
--- a/augpathlib/meta.py
+++ b/augpathlib/meta.py
@@ -459,6 +459,10 @@ class _PathMetaAsSymlink(_PathMetaConverter):
             e.g. that a link got switched to point to another name somehow """
         raw_symlink = symlink_path.readlink(raw=True)
         pure_symlink = pathlib.PurePosixPath(raw_symlink)
+        if not self._is_metadata(pure_symlink):
+            # a broken symlink that we did not create
+            raise exc.NoCachedMetadataError(symlink_path)
+
         local_name, *parts = pure_symlink.parts
         if len(parts) == 1:  # local_name was not prepended
             msg = f'match_name=True symlink did not have local_name prefix for {local_name}'
@@ -481,6 +485,12 @@ class _PathMetaAsSymlink(_PathMetaConverter):
 
         return self.from_parts(parts)
 
+    def _is_metadata(self, pure_symlink):
+        _, *version = pure_symlink.name.split(self.fieldsep)
+        return (len(pure_symlink.parts) > 1 and bool(version) and
+                (version[0] == 'meta' or
+                 version[0].startswith('mdv') and version[0][3:].isdecimal()))
+
     def from_parts(self, parts):
         data = parts[-1]
         _, version, *suffixes = data.split(self.fieldsep)
-- 
2.43.0


From 9fd4517c48fd379b2226680349e779625b1de6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 28/65] fix: move does not overwrite untracked files, other
 versions or the metadata of other objects, and does not hide failures

---
 augpathlib/caches.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index ffd9868..afb1cd3 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -956,6 +956,25 @@ class _CachePath(AugmentedPath):
         if size_not_ok:
             log.warning(f'File is over the size limit {meta.size.mb} > {size_limit_mb}')
 
+    def _check_move_target(self, local, remote):
+        """ do not put the metadata of self on something else """
+        if not local.exists() and not local.is_symlink():
+            return
+
+        msg = f'Target {local} already exists!'
+        cache = local.cache
+        if cache is None or local.is_symlink() and local.exists():
+            raise exc.PathExistsError(msg)
+
+        if local.exists():
+            if local.is_dir() != self.is_dir():
+                raise exc.PathExistsError(msg)
+
+            # a file in the way can be replaced if the remote says so
+            # because it goes to the trash
+            if cache.id != self.id and (remote is None or local.is_dir()):
+                raise exc.PathExistsError(msg)
+
     def move(self, *, remote=None, target=None, meta=None):
         """ instantiate a new cache and cleanup self because we are moving """
         # FIXME what to do if we have data
@@ -979,6 +998,7 @@ class _CachePath(AugmentedPath):
             for remote_parent in reversed(missing):
                 self.anchor / remote_parent
 
+            self._check_move_target(self.anchor.local / remote.as_path(), remote)
             target = self.anchor / remote  # FIXME why does this not try to instantiate the caches? or does it?
 
         if target.absolute() == self.absolute():
@@ -1006,6 +1026,7 @@ class _CachePath(AugmentedPath):
 
         do_cast = not isinstance(target, self.__class__)
         if do_cast:
+            self._check_move_target(self.local_class(target), remote)
             target = self.__class__(target, meta=meta)
 
         if target.exists() or target.is_broken_symlink():
@@ -1031,7 +1052,8 @@ class _CachePath(AugmentedPath):
                     # directory moves that are resolved during pull
                     log.warning(f'what is this!?\n{target}\n{self}')
             elif target.is_broken_symlink():
-                remote._cache = self  # restore the mapping for remote -> self
+                if remote is not None:
+                    remote._cache = self  # restore the mapping for remote -> self
                 raise exc.WhyDidntThisGetMovedBeforeError(f'\n{target}\n{self}')
             else:
                 raise exc.PathExistsError(f'Target {target} already exists!')
@@ -1041,6 +1063,10 @@ class _CachePath(AugmentedPath):
             try:
                 if target.is_broken_symlink():
                     target.rename(safe_unlink)
+                elif (target.is_file() and self.is_file() and
+                      target.local.checksum() != self.local.checksum()):
+                    # two versions of the same file, keep both
+                    target.crumple()
 
                 self.rename(target)  # if target is_dir then this will fail, which is ok
             except BaseException as e:
@@ -1051,6 +1077,8 @@ class _CachePath(AugmentedPath):
                     # everything is already at target, do not keep
                     # a second directory with the same id
                     self.rmdir()
+                elif not (self.is_dir() and target.is_dir()):
+                    raise e
             finally:
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.unlink()
-- 
2.43.0


From f10b8445bda8663103a9b13f2eb61f3a1f83ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 29/65] fix: mkdir_cache gets the anchor from an instance

---
 augpathlib/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index b210f5e..8976a55 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1110,10 +1110,12 @@ class LocalPath(EatPath, AugmentedPath):
 
         cc = self._cache_class
         rc = cc._remote_class
+        # the anchor is only known to instances
+        anchor = next(c for c in (p.cache for p in self.parents) if c).anchor
         for parent in reversed(tuple(remote.parents)):
             # remote as_path is always a PurePosixPath relative to the
             # anchor and does not include the anchor
-            local_path = cc.anchor.local / parent.as_path()
+            local_path = anchor.local / parent.as_path()
             if not local_path.exists():
                 local_path.mkdir()
                 rc(parent, cache=cc(local_path, remote=parent, meta=parent.meta))
-- 
2.43.0


From 8aa4ed2fd9b165b09b9d3fedb92aed6a94a957bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 30/65] fix: move raises when the rename failed, can be
 repeated when it was interrupted

---
 augpathlib/caches.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index afb1cd3..c0ad245 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -963,6 +963,10 @@ class _CachePath(AugmentedPath):
 
         msg = f'Target {local} already exists!'
         cache = local.cache
+        if ((cache is None or cache.id is None) and not local.is_symlink() and
+            local.is_dir() and self.is_dir() and not any(local.iterdir())):
+            return  # nothing to lose, a previous move may have been interrupted
+
         if cache is None or local.is_symlink() and local.exists():
             raise exc.PathExistsError(msg)
 
@@ -1073,11 +1077,12 @@ class _CachePath(AugmentedPath):
                 log.exception(e)
                 if safe_unlink.is_broken_symlink():
                     safe_unlink.rename(target)
+                    raise e
                 elif self.is_dir() and target.is_dir() and not any(self.local.iterdir()):
                     # everything is already at target, do not keep
                     # a second directory with the same id
                     self.rmdir()
-                elif not (self.is_dir() and target.is_dir()):
+                elif not (self.is_dir() and target.is_dir() and any(target.local.iterdir())):
                     raise e
             finally:
                 if safe_unlink.is_broken_symlink():
-- 
2.43.0


From cc0d30b44a1fbe5f72860d623df794bae4270204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 31/65] fix: a placeholder is kept when the updated time of one
 of two objects is not known

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index c0ad245..6792b4a 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1290,6 +1290,10 @@ class SymlinkCache(_CachePath):
                         log.warning ('no change since either has an updated value (wat)')
                         return #FIXME
 
+                    if meta.updated is None or pathmeta.updated is None:
+                        log.warning('cannot tell which one is newer. Not updating.')
+                        return
+
                     if meta.updated > pathmeta.updated:
                         log.debug(msg.format(meta_newer))
                         return  # this is the right thing to do for a sane filesystem
-- 
2.43.0


From 3a336c1075c453c8fd53870358288d9864560951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 32/65] fix: commit of a path takes it from the index and does
 not touch anything else, works on a detached head

---
 augpathlib/repo.py | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index c20f20f..819e028 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -303,32 +303,22 @@ class RepoHelper:
         # the unmodified entry for their object, will need to experiment
 
 
-        if self.repo.active_branch.is_valid(): # handle the empty repo case
-            # HAH take that complexity!
-            _mes = self.repo.git.stash('push')
-            try:
-                # FIXME concurrent modification?!
-                try:
-                    self.repo.git.checkout('stash@{0}', '--', self.as_posix())
-                except self._git.exc.GitCommandError:
-                    pass
-
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
-            finally:
-                try:
-                    self.repo.git.stash('pop')
-                except self._git.exc.GitCommandError:
-                    pass
-        else:
-            try:
-                self.repo.tree()
-                raise ValueError('we are not in the situation we though we were in')
-            except:
-                commit = self.repo.index.commit(message=message,
-                                                author_date=date)
-                return commit
+        repo = self.repo
+        path = self.repo_relative_path.as_posix()
+
+        def is_self(entry_path):
+            return path in ('.', entry_path) or entry_path.startswith(path + '/')
+
+        # everything else is as it is in HEAD, this is only done in
+        # memory so the index itself and the working tree do not change
+        index = repo.index
+        entries = {k: e for k, e in index.entries.items() if is_self(k[0])}
+        if repo.head.is_valid():  # handle the empty repo case
+            head = self._git.IndexFile.from_tree(repo, repo.head.commit)
+            entries.update({k: e for k, e in head.entries.items() if not is_self(k[0])})
+
+        index.entries = entries
+        return index.commit(message=message, author_date=date)
 
     def commit_from_working_tree(self, message, *, date=None):
         """ commit from working tree by automatically adding to index
-- 
2.43.0


From 755ca0d8e3ccaa345eb9c5602d64d2feb7f5fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 33/65] fix: with ref: restore exactly the state the block
 started with

---
 augpathlib/repo_patch.py | 56 ++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index f11d045..bcc16ec 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -1,4 +1,5 @@
 import git
+from augpathlib import exceptions as exc
 
 
 class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
@@ -59,32 +60,49 @@ class _Reference(git.Reference):
         if not self.is_valid():
             raise exc.InvalidRefError(f'Not a valid ref: {self.name}')
 
-        self.__original_branch = self.repo.active_branch
-        self.__stash = self.repo.git.stash('--all')  # always stash
-        if self.__stash == 'No local changes to save':
-            self.__stash = None
+        original_branch = self.repo.active_branch
+        checkout = self.checkout  # only heads have it, so fail before stashing
+        stash = self.repo.git.stash('--all')  # always stash
+        if stash == 'No local changes to save':
+            stash = None
+        else:
+            # the position changes if more is stashed
+            stash = self.repo.git.rev_parse('stash@{0}')
+
+        # the same reference can be entered more than once
+        if not hasattr(self, '_entered'):
+            self._entered = []
 
-        if self == self.__original_branch:
+        self._entered.append((original_branch, stash))
+        if self == original_branch:
             return self
 
-        self.checkout()
-        return self
+        try:
+            checkout()
+        except BaseException:
+            self._entered.pop()
+            _Reference._pop_stash(self, stash)
+            raise
 
-    def __exit__(self, exc_type, exc_value, traceback):
-        _stash = self.repo.git.stash('--all')  # always stash on the way out as well
-        if _stash == 'No local changes to save':
-            stash = 'stash@{0}'
-        else:
-            stash = "stash@{1}"
+        return self
 
-        if self.__original_branch != self:
-            self.__original_branch.checkout()
+    def _pop_stash(self, stash):
+        if stash is None:
+            return
 
-        # TODO check to make sure no other stashes were pushed on top
-        if self.__stash is not None:
-            self.repo.git.stash('pop', stash)
+        stashes = self.repo.git.stash('list', '--format=%H').split()
+        args = ('pop', f'stash@{{{stashes.index(stash)}}}') if stash in stashes else ('apply', stash)
+        try:
+            self.repo.git.stash(args[0], '--index', *args[1:])
+        except git.exc.GitCommandError:
+            # the index cannot be restored if the branch has changed
+            self.repo.git.stash(*args)
 
-        self.__stash = None
+    def __exit__(self, exc_type, exc_value, traceback):
+        self.repo.git.stash('--all')  # always stash on the way out as well
+        original_branch, stash = self._entered.pop()
+        original_branch.checkout()
+        _Reference._pop_stash(self, stash)
 
 
 # monkey patch git.Reference
-- 
2.43.0


From a0780cbde36b29626b37221394a5d496e3612826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 34/65] fix: show gives the exact bytes, comparing with the
 index works, names are not patterns

---
 augpathlib/repo.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 819e028..82bcfe6 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -199,11 +199,17 @@ class RepoHelper:
     def remote_uri_machine(self, ref=None):
         return self._remote_uri('https://raw.githubusercontent.com', ref=ref)
 
+    def _pathspec(self):
+        # names can have characters that are special in a pathspec
+        # and links inside the repo have a history of their own
+        path = self.expanduser().absolute()
+        return ':(literal)' + (path.parent.resolve() / path.name).as_posix()
+
     def latest_commit(self, rev=None):
         """ the latest commit for the current path NOT the latest commit for the repo """
         try:
             return next(self.repo.iter_commits(rev=rev,
-                                               paths=self.expanduser().resolve().as_posix(),
+                                               paths=self._pathspec(),
                                                max_count=1))
         except StopIteration as e:
             raise exc.NoCommitsForFile(self) from e
@@ -211,7 +217,7 @@ class RepoHelper:
     def commits(self, *, rev=None, max_count=None):
         yield from self.repo.iter_commits(
             rev=rev,
-            paths=self.expanduser().resolve().as_posix(),
+            paths=self._pathspec(),
             # TODO --follow
             max_count=max_count)
 
@@ -237,7 +243,9 @@ class RepoHelper:
         if not self.exists():
             raise FileNotFoundError(f'{self}')
 
-        list_ = this.diff(other=other, paths=self.repo_relative_path.as_posix(), create_patch=create_patch)
+        # diffing against the index is the default of diff, which does not take IndexFile
+        kwargs = {} if isinstance(other, self._git.IndexFile) else {'other': other}
+        list_ = this.diff(paths=self._pathspec(), create_patch=create_patch, **kwargs)
         if list_:
             return list_[0]
 
@@ -337,8 +345,9 @@ class RepoHelper:
             with open(self, 'rb') as f:
                 return f.read()
         else:
-            decoded = self.repo.git.show(ref + ':' + self.repo_relative_path.as_posix())
-            return decoded.encode('utf-8', 'surrogateescape')
+            return self.repo.git.show((ref or ':0') + ':' + self.repo_relative_path.as_posix(),
+                                      stdout_as_string=False,
+                                      strip_newline_in_stdout=False)
 
         return  # unfortunately traversing the tree is a pain for this
         def ref_to_object(ref_):
-- 
2.43.0


From 5dcf99419b8e94f78d687bf351b998317368faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 35/65] fix: getxattr of a missing path failed with
 AttributeError where ENOATTR does not exist

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8976a55..2787823 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -308,7 +308,8 @@ class XattrHelper(EatHelper):
         try:
             return xattr.get(self.as_posix(), key, namespace=namespace)
         except OSError as e:
-            if e.errno == errno.ENODATA or e.errno == errno.ENOATTR:
+            # ENOATTR does not exist on linux
+            if e.errno in (errno.ENODATA, getattr(errno, 'ENOATTR', errno.ENODATA)):
                 raise exc.NoStreamError((self, key)) from e
             else:
                 raise e
-- 
2.43.0


From 868521938a494eef5594808f2759e687f0ac3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 36/65] fix: is_sparse for relative paths, placeholders and
 caches without xattrs, only what is in sparse is sparse

---
 augpathlib/caches.py |  9 +++++++--
 augpathlib/core.py   | 15 ++++++---------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 6792b4a..5a6d871 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -379,14 +379,18 @@ class _CachePath(AugmentedPath):
                 delattr(self, '_is_sparse_root')
 
     def _sparse_root(self):  # TODO consider SparseHelper
-        return self != self.parent and (self / self._sparse_marker).exists()
+        l = self.local.absolute()
+        for p in (l, *l.parents):
+            if (p / self._sparse_marker).exists():
+                return True
 
     def is_sparse(self):
         return self._sparse_root() is not None
 
     def _clear_sparse(self):
         mark = self.local / self._sparse_marker
-        mark.unlink()
+        if mark.exists():
+            mark.unlink()
 
     def _mark_sparse(self):
         """ default implementation for marking folders as sparse
@@ -436,6 +440,7 @@ class _CachePath(AugmentedPath):
                 else:
                     # if you pass the only mask so do your children
                     log.info(f'Bootstrapping {meta.id} -> {self.local!r}')
+                    sparse = tuple()  # only what is in sparse is sparse
 
                 only = tuple()
 
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 2787823..a3e8040 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -979,18 +979,15 @@ class EatPath(EatHelper, AugmentedPath):
             return super().__new__(cls, *args, **kwargs)
 
     def _sparse_root(self):
-        if hasattr(self, 'local'):
-            # cache case
-            l = self.local
-            parent = l.parent
-        else:
-            parent = self.parent
-            l = self
-
+        # the cache case has a local, and the parents of a
+        # relative path do not stop at the working directory
+        l = (self.local if hasattr(self, 'local') else self).absolute()
+        parent = l.parent
         if l != parent:
             try:
                 return self.getxattr(self._sparse_key) == b'1'
-            except exc.NoStreamError:
+            except (exc.NoStreamError, FileNotFoundError):
+                # it is possible that this is a symlink cache
                 return parent._sparse_root()
 
     def is_sparse(self):
-- 
2.43.0


From 4b17deb7f8c322d790c46a00414f95afb11f816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 37/65] fix: the root of a project is found for relative paths,
 only internal names are hidden, links are not followed

---
 augpathlib/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index a3e8040..3f6c3a9 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1170,7 +1170,8 @@ class LocalPath(EatPath, AugmentedPath):
         # try all the variants in case some symlinking weirdness is going on
         # TODO may want to detect and warn on that?
         root = self.__class__('/')
-        for variant in set((self, self.absolute(), self.resolve())):
+        # the parents of relative paths stop at the working directory
+        for variant in (self.absolute(), self.resolve()):
             for parent in chain((variant,), variant.parents):
                 try:
                     if parent.cache:
@@ -1200,7 +1201,7 @@ class LocalPath(EatPath, AugmentedPath):
             else:
                 # FIXME is it safe to cache the results of finding the root??
                 root = self.find_cache_root(fail=True)
-                rel_path = self.relative_to(root)
+                rel_path = self.absolute().relative_to(root)
             return (rel_path.parts[0] in self._cache_class.cache_ignore or
                     # TODO more conditions
                     False)
@@ -1490,7 +1491,7 @@ class LocalPath(EatPath, AugmentedPath):
                 # once we are inside local data dir, though all files there
                 # are skip_cache -> True
                 for path in self.iterdir():
-                    if path.stem in cache_ignore:
+                    if path.name in cache_ignore:
                         continue
 
                     yield path
@@ -1507,7 +1508,8 @@ class LocalPath(EatPath, AugmentedPath):
             self == self.cache.anchor.local):
             for path in self.children:
                 yield path
-                yield from path.rchildren
+                if not path.is_symlink():  # rglob does not follow them either
+                    yield from path.rchildren
 
         else:
             yield from self.rglob('*')
-- 
2.43.0


From df3d0f655cac31d3ce5a51b5836c836c248b5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 38/65] fix: zip paths that are missing or not a zip, wrong
 errors for directories, stale or relative zip files

---
 augpathlib/zip.py | 50 +++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/augpathlib/zip.py b/augpathlib/zip.py
index a696be4..9569df6 100644
--- a/augpathlib/zip.py
+++ b/augpathlib/zip.py
@@ -21,9 +21,11 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
                     (ZipInternalPath,),
                     dict(zip_file=zipfile.ZipFile(zip_path)))
         zipath._bind_flavours()
-        paths = set(zipath(info=zi) for zi in zipath.zip_file.filelist)
+        # if there is more than one with the same name the last one counts
+        paths = {p:p for p in (zipath(info=zi) for zi in zipath.zip_file.filelist)}
         parents = set(parent for path in paths for parent in path.parents)
-        zipath._paths = {p:p for p in parents | paths}
+        parents.add(zipath('.'))  # the root is always there
+        zipath._paths = {**{p:p for p in parents}, **{p:p for p in paths.values()}}
         return zipath
 
     def __new__(cls, *args, info=None, **kwargs):
@@ -73,7 +75,7 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
         return self in self._paths
 
     def is_dir(self):
-        return not hasattr(self, '_zi') or self._zi.is_dir()
+        return self.exists() and (not hasattr(self, '_zi') or self._zi.is_dir())
 
     def __fspath__(self):
         if self.parent:
@@ -83,7 +85,9 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
             return super().__fspath__()
 
     def open(self, *args, **kwargs):
-        if not self.is_dir():
+        if not self.exists():
+            raise FileNotFoundError(self)
+        elif not self.is_dir():
             self.__fd = self.zip_file.open(self._zi, *args, **kwargs)
             # FIXME probably need a wrapped filed descriptor to clean up the
             # internal state of this class too?
@@ -101,16 +105,13 @@ class ZipInternalPath(AugmentedPath):  # should be a pure path, but need bind_fl
     @property
     def data(self):
         # TODO generic open
-        try:
-            with self.open() as f:
-                while True:
-                    data = f.read(self.chunksize)  # TODO hinting
-                    if not data:
-                        break
+        with self.open() as f:
+            while True:
+                data = f.read(self.chunksize)  # TODO hinting
+                if not data:
+                    break
 
-                    yield data
-        finally:
-            self.close()
+                yield data
 
 
 ZipInternalPath._bind_flavours()
@@ -121,17 +122,25 @@ class ZipHelper:
     _zfc_cache = {}
 
     def exists(self):
-        return (self.zip_path is None and super().exists() or
-                self.zip_relative_path.exists())
+        if self.zip_path is None:
+            return super().exists()
+        else:
+            return self.zip_relative_path.exists()
 
     @property
     def ZipInternalPath(self):
         zp = self.zip_path
-        if zp is not None and zp not in self._zfc_cache:
-            zipath = ZipInternalPath._new(zp)
-            self._zfc_cache[zp] = zipath
+        if zp is None:
+            return None
+
+        # the same path can be another file later or in another directory
+        key = zp.absolute()
+        st = key.stat()
+        stamp = st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns
+        if key not in self._zfc_cache or self._zfc_cache[key][0] != stamp:
+            self._zfc_cache[key] = stamp, ZipInternalPath._new(zp)
 
-        return self._zfc_cache.get(zp, None)
+        return self._zfc_cache[key][1]
 
     @property
     def zip_relative_path(self):
@@ -158,9 +167,8 @@ class ZipHelper:
                 self._c_zip_path = None
             else:
                 pzp = parent.zip_path  # zip files inside of zip files :/
-                if pzp is None and self.suffix == '.zip' or zipfile.is_zipfile(self):
+                if pzp is None and zipfile.is_zipfile(self):
                     self._c_zip_path = self
-                    self.ZipInternalPath()
                 else:
                     self._c_zip_path = pzp
 
-- 
2.43.0


From 069caa4fd11a64e6649225c668ce51323fdfc0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 39/65] fix: tags of other packages whose name starts the same
 are not releases, commits of packages that were never released

---
 augpathlib/package.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index 9d27fb2..a23d57e 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -275,7 +275,10 @@ class PackagePath(RepoPath):
         gj = self.github_json
         if gj:
             if self.tag_prefix:
-                these = [r for r in gj if self.arg_packagename in r['tag_name']]
+                # the names of other packages can contain the name of this one
+                lpn = len(self.arg_packagename) + 1
+                these = [r for r in gj if r['tag_name'].startswith(self.arg_packagename + '-')
+                         and r['tag_name'][lpn:lpn + 1] in tuple('0123456789')]
             else:
                 these = [r for r in gj if r['tag_name'][0] in '0123456789']
 
@@ -314,7 +317,7 @@ class PackagePath(RepoPath):
         # match ... HRM
 
         if self.tag_prefix:
-            match_version = self.arg_packagename + '-*'
+            match_version = self.arg_packagename + '-[0-9]*'
         else:
             match_version = '[0-9]*'
 
@@ -384,9 +387,8 @@ class PackagePath(RepoPath):
             rfs = [self.folder]
 
         _tag = self.tag
-        tag = _tag if _tag else ''
         log = self.repo.git.log("--format='%aI %an %h %s'",
-                                f'{tag}..HEAD',
+                                f'{_tag}..HEAD' if _tag else 'HEAD',
                                 '--', *rfs)
         entries = [_ for _ in [e[1:-1] for e in log.split('\n')] if _]
         return entries
-- 
2.43.0


From 7958fafb444c296f8ec47a64562ac55e935fc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 40/65] fix: stat of names with more than one space, quotes or
 leading dashes, times before the epoch

---
 augpathlib/core.py  |  7 +++++--
 augpathlib/utils.py | 10 +++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 3f6c3a9..b38793d 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1231,11 +1231,14 @@ class LocalPath(EatPath, AugmentedPath):
         """ sometimes python just doesn't have what it takes """
         # we can't define this or use error trapping in self.stat() directly
         # because it will bolox other things that need stat to fail correctly
-        cmd = ['stat', self.as_posix(), '-c', StatResult.stat_format]
+        # absolute since relative paths can look like options or stdin
+        cmd = ['stat', self.absolute().as_posix(), '-c', StatResult.stat_format]
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
         out, errs = p.communicate()
         # local results retain the quotes where pexpect does not
-        out = out.strip(b'"').rstrip().rstrip(b'"')
+        # but the name can start with one so strip only those from the format
+        out = out.rstrip()
+        out = out[1:-1] if out.startswith(b'"') and out.endswith(b'"') else out
         if not out and errs:
             p.returncode
             raise OSError
diff --git a/augpathlib/utils.py b/augpathlib/utils.py
index 107299b..3370ab3 100644
--- a/augpathlib/utils.py
+++ b/augpathlib/utils.py
@@ -165,11 +165,11 @@ class StatResult:
     # so probably better to check for gstat first  # also -f instead of -c
 
     def __init__(self, out):
-        out = out.decode()
+        out = os.fsdecode(out)
         #name, rest = out.rsplit("'", 1)
         #self.name = name.strip("'")
         #print(out)
-        wat = out.split('  ')
+        wat = out.rsplit('  ', 14)  # the name can have more than one space
         #print(wat)
         #print(len(wat))
         name, ino, hint, size, hb, birth, ha, access, hm, modified, hc, changed, gid, uid, raw_mode = wat
@@ -185,9 +185,9 @@ class StatResult:
         self.st_blksize = int(hint)
         self.st_size = int(size)
         #self.st_birthtime
-        self.st_atime = float(access + ns(ha)) 
-        self.st_mtime = float(modified + ns(hm))
-        self.st_ctime = float(changed + ns(hc))
+        self.st_atime = float(access) + float(ns(ha)) 
+        self.st_mtime = float(modified) + float(ns(hm))
+        self.st_ctime = float(changed) + float(ns(hc))
         self.st_gid = int(gid)
         self.st_uid = int(uid)
         self.st_mode = int.from_bytes(bytes.fromhex(raw_mode), 'big')
-- 
2.43.0


From 2540a1b7dc6351cf858a80c066af07297d3262f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 41/65] fix: ssh: names with special characters, long commands,
 errors, empty files, children of directories, parents of new caches

---
 augpathlib/remotes.py | 159 +++++++++++++++++++++++++++---------------
 1 file changed, 102 insertions(+), 57 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index 1d2dcde..bfc3265 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -1,5 +1,8 @@
 import os
 import sys
+import stat
+import errno
+import shlex
 import atexit
 import pathlib
 import warnings
@@ -289,19 +292,14 @@ class RemotePath:
             return NullCache()
 
     def cache_init(self, parents=False):
-        try:
-            return self._cache_anchor / self
-        except FileNotFoundError:
-            if parents:
-                #parent, *rest = self.parent.cache_init(parents=parents)
-                #return (self.cache_init(), parent, *rest)
-                parent = self.parent
-                parent_cache = parent.cache_init(parents=parents)
-                parent_cache.local.cache_init(parent.meta) # FIXME hrm we shouldn't have to do this
-                # and it isn't working anyway ... the xattrs don't seem to be getting set
-                return self.cache_init()
-            else:
-                raise
+        if parents:
+            parts = self._parts_relative_to(self._cache_anchor.remote)
+            if len(parts) > 1:
+                local_parent = self._cache_anchor.local.joinpath(*parts[:-1])
+                if not local_parent.cache:
+                    self.parent.cache_init(parents=parents)
+
+        return self._cache_anchor / self
 
     @property
     def _cache(self):
@@ -582,6 +580,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     _cache_class = None  # set when calling __new__
     encoding = 'utf-8'
+    _prompt = '[PEXPECT]$ '  # of pxssh, has the same length for all shells
 
     _meta = None  # override RemotePath dragnet
     _meta_maker = LocalPath._meta_maker
@@ -690,7 +689,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
             session = pxssh.pxssh(options=dict(IdentityAgent=os.environ.get('SSH_AUTH_SOCK')))
             session.login(host, ssh_config=LocalPath('~/.ssh/config').expanduser().as_posix())
             cls._rows = 200
-            cls._cols = 200
+            cls._cols = 1000
             session.setwinsize(cls._rows, cls._cols)  # prevent linewraps of long commands
             session.prompt()
             atexit.register(lambda:(session.sendeof(), session.close()))
@@ -805,9 +804,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
                 return (pathlib.PurePath(self.rpath)
                         .relative_to(pathlib.PurePath(remote.rpath))
                         .parts)
-            except Exception as e:
-                breakpoint()
-                raise e
+            except ValueError as e:
+                raise ValueError(f'{self} is not in {remote}') from e
 
     def refresh(self):
         # TODO probably not the best idea ...
@@ -818,7 +816,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             st = self.stat()
 
-        except (PermissionError, FileNotFoundError) as e:
+        except (PermissionError, FileNotFoundError, NotADirectoryError) as e:
             return False
 
         r, w, x = 0x124, 0x92, 0x49
@@ -828,9 +826,16 @@ class SshRemote(RemotePath, pathlib.PurePath):
         current = read + write + execute
 
         u, g, e = 0x40, 0x8, 0x1
-        return (u & current and st.st_uid == self._uid or
-                g & current and st.st_gid in self._gids or
-                e & current)
+        # only the first class that matches counts
+        if self._uid == 0:
+            return (mode not in ('execute', os.X_OK) or
+                    bool(execute) or stat.S_ISDIR(st.st_mode))
+        elif st.st_uid == self._uid:
+            return bool(u & current)
+        elif st.st_gid in self._gids:
+            return bool(g & current)
+        else:
+            return bool(e & current)
 
     def open(self, mode='wt', buffering=-1, encoding=None,
              errors=None, newline=None):
@@ -850,16 +855,21 @@ class SshRemote(RemotePath, pathlib.PurePath):
 
     @property
     def data(self):
-        cmd = ['ssh', self.host, f'cat {self.rpath!r}']
+        cmd = ['ssh', self.host, f'cat {self._quote(self.rpath)}']
         p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
-        while True:
-            data = p.stdout.read(4096)  # TODO hinting
-            if not data:
-                break
+        try:
+            while True:
+                data = p.stdout.read(4096)  # TODO hinting
+                if not data:
+                    break
 
-            yield data
+                yield data
+        finally:
+            p.stdout.close()
+            p.wait()
 
-        p.communicate()
+        if p.returncode != 0:
+            raise OSError(errno.EIO, f'reading failed with {p.returncode}', self.id)
 
     # reuse meta from local
     # def meta (make it easier to search for this)
@@ -869,16 +879,36 @@ class SshRemote(RemotePath, pathlib.PurePath):
     @classmethod
     def _ssh(cls, remote_cmd):
         #print(remote_cmd)
-        if len(remote_cmd) > cls._cols:
+        if len(cls._prompt) + len(remote_cmd) >= cls._cols:
+            # anything longer would be wrapped
             raise exc.CommandTooLongError
         n_bytes = cls.session.sendline(remote_cmd)
         cls.session.prompt()
         raw = cls.session.before
-        out = raw[n_bytes + 1:].strip()  # strip once here since we always will
+        out = raw[n_bytes + 1:].strip(b'\r\n')  # strip once here since we always will
         #print(raw)
         #print(out)
         return out
 
+    @staticmethod
+    def _quote(path):
+        """ quote path for the shell on the other side, which is interactive
+            so only printable ascii may be sent and echoed as is """
+        if path.isascii() and path.isprintable():
+            return shlex.quote(path)
+
+        return "$'" + ''.join(c if c.isascii() and c.isalnum() or c in '/._-' else
+                              ''.join(f'\\{b:03o}' for b in os.fsencode(c))
+                              for c in path) + "'"
+
+    @staticmethod
+    def _oserror(out):
+        """ the exception for the error messages of coreutils, None if out is not one """
+        text = out.rpartition(b': ')[-1].decode(errors='replace')
+        for code in errno.errorcode:
+            if text == os.strerror(code):
+                return OSError(code, out.decode(errors='replace'))
+
     @property
     def _remote_platform(self):
         remote_cmd = "uname -a | awk '{ print tolower($1) }'"
@@ -891,12 +921,20 @@ class SshRemote(RemotePath, pathlib.PurePath):
         return cypher_command_lookup[self._cache_class.cypher]
 
     def checksum(self, cypher=None):  # FIXME cypher should not be ignored
-        remote_cmd = (f'{self.cypher_command} {self.rpath} | '
+        # read from stdin because special characters in names change the output
+        remote_cmd = (f'{self.cypher_command} < {self._quote(self.rpath)} | '
                       'awk \'{ print $1 }\';')
 
-        hex_ = self._ssh(remote_cmd).decode(self.encoding)
-        log.debug(hex_)
-        return bytes.fromhex(hex_)
+        out = self._ssh(remote_cmd)
+        log.debug(out)
+        try:
+            return bytes.fromhex(out.decode(self.encoding))
+        except ValueError as e:
+            error = self._oserror(out)
+            if isinstance(error, IsADirectoryError):
+                return  # as for local paths
+
+            raise error or ValueError(out) from e
 
     def _stat_cmd(self, stat_format=StatResult.stat_format, path=None):
         # TODO use _stat_format_darwin for cases where gstat is missing
@@ -907,7 +945,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
         if path == '':
             _path = path
         else:
-            _path = f' "{path}"'
+            _path = f' {self._quote(path)}'
 
         return f'{cmd} -c {stat_format}{_path}'
 
@@ -917,11 +955,9 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             return StatResult(out)
         except ValueError as e:
-            if out.endswith(b'Permission denied'):
-                raise PermissionError(out.decode())
-
-            elif out.endswith(b'No such file or directory'):
-                raise FileNotFoundError(out.decode())
+            error = self._oserror(out)
+            if error is not None:
+                raise error
 
             else:
                 log.error(remote_cmd)
@@ -931,8 +967,8 @@ class SshRemote(RemotePath, pathlib.PurePath):
         try:
             st = self.stat()
             return bool(st)  # FIXME
-        except FileNotFoundError:  # FIXME there will be more types here ...
-            pass
+        except (FileNotFoundError, NotADirectoryError):  # FIXME there will be more types here ...
+            return False
 
     @property
     def __parent(self):  # no longer needed since we inherit from path directly
@@ -964,7 +1000,7 @@ class SshRemote(RemotePath, pathlib.PurePath):
     def is_file(self):
         remote_cmd = self._stat_cmd(stat_format="%F")
         out = self._ssh(remote_cmd)
-        return out == b'regular file'
+        return out in (b'regular file', b'regular empty file')
 
     @property
     def children(self):
@@ -975,20 +1011,29 @@ class SshRemote(RemotePath, pathlib.PurePath):
         #\"'%n' %o %s %W %X %Y %Z %g %u %f\"
         if self.is_dir():
             # no children if it is a file sadly
-            remote_cmd = (f"cd {self.rpath};"
-                          f"{self._stat_cmd(path='')} {{.,}}*;"
-                          "echo '----';"
-                          f"{self.cypher_command} {{.,}}*;"  # FIXME fails on directories destroying alignment
-                          'cd "${OLDPWD}"')
-
-            out = self._ssh(remote_cmd)
-            stats, checks = out.split(b'\r\n----\r\n')
-            #print(stats)
-            stats = {sr.name:sr for s in stats.split(b'\r\n')
-                     for sr in (StatResult(s),)}
-            checks = {fn:bytes.fromhex(cs) for l in checks.split(b'\r\n')
-                      if not b'Is a directory' in l
-                      for cs, fn in (l.decode(self.encoding).split('  ', 1),)}
+            def lines(cmd):
+                out = self._ssh(f'(cd {self._quote(self.rpath)} && {cmd})')
+                return out.split(b'\r\n') if out else []
+
+            def name(path):  # ./name
+                return os.fsdecode(path)[2:]
+
+            find = 'find {} . -mindepth 1 -maxdepth 1 {} -exec {} {{}} +'
+            stats = {}
+            for line in lines(find.format('', '', self._stat_cmd(path=''))):
+                sr = StatResult(line)
+                sr.name = name(sr.name)
+                stats[sr.name] = sr
+
+            checks = {}
+            for line in lines(find.format('-L', '-type f', self.cypher_command) +
+                              ' 2>/dev/null'):
+                cs, fn = line.split(b'  ', 1)
+                if cs.startswith(b'\\'):  # special characters in fn are escaped
+                    cs = cs[1:]
+                    fn = fn.replace(b'\\\\', b'\\')
+
+                checks[name(fn)] = bytes.fromhex(cs.decode())
 
             return stats, checks  # TODO
 
-- 
2.43.0


From 9e3f0b850e4d6afaef9862a2716cec78360f62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 42/65] fix: anchoring is refused before anything is written,
 is not left half done, and works for existing projects

---
 augpathlib/caches.py  | 20 +++++++++++++++++---
 augpathlib/core.py    |  3 +++
 augpathlib/remotes.py | 41 ++++++++++++++++++++++++++---------------
 3 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 5a6d871..eb09687 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -84,9 +84,23 @@ class _CachePath(AugmentedPath):
         # which is OK for the path where local/remote binding has already
         # been completed
         if '_anchor' not in self.__class__.__dict__:
-            self.__class__._abstract_class()._anchor = self
-            self.local_data_dir_init()  # call every time for insurance
-            self._remote_class.anchorToCache(self, init=remote_init)
+            self._remote_class._check_anchor(self.id)
+            acls = self.__class__._abstract_class()
+            previous = {k: v for k, v in acls.__dict__.items() if k == '_anchor'}
+            acls._anchor = self
+            try:
+                self._remote_class.anchorToCache(self, init=remote_init)
+                self.local_data_dir_init()  # call every time for insurance
+            except BaseException:
+                # do not leave it half anchored
+                if self._remote_class.__dict__.get('_cache_anchor') is self:
+                    self._remote_class.weighAnchor()
+
+                acls.weighAnchor()
+                for k, v in previous.items():
+                    setattr(acls, k, v)
+
+                raise
 
         else:
             raise ValueError(f'{self.__class__} already anchored to {self.__class__._anchor}')
diff --git a/augpathlib/core.py b/augpathlib/core.py
index b38793d..5f01e4c 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1090,6 +1090,9 @@ class LocalPath(EatPath, AugmentedPath):
         if not isinstance(id_or_meta, PathMeta):
             id_or_meta = PathMeta(id=id_or_meta)
 
+        if anchor:  # before there is a cache that cannot be used
+            self._cache_class._remote_class._check_anchor(id_or_meta.id)
+
         cache = self._cache_class(self, meta=id_or_meta)
         if anchor:
             cache.anchorClassHere()
diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index bfc3265..caf3786 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -85,18 +85,24 @@ class RemotePath:
                 if not hasattr(cls, '_api'):
                     cls.init(cache_anchor.id)
 
-            if hasattr(cls, 'root') and cls.root != cache_anchor.id:
-                if hasattr(cls, '_remote_root') and cls._remote_root == cache_anchor.id:
-                    pass
-                else:
-                    raise ValueError('root and anchor ids do not match! '
-                                     f'{cls.root} != {cache_anchor.id}')
+        cls._check_anchor(cache_anchor.id)
+        cls._cache_anchor = cache_anchor
+        return cls._cache_anchor
 
-            cls._cache_anchor = cache_anchor
-            return cls._cache_anchor
-        else:
+    @classmethod
+    def _check_anchor(cls, id):
+        """ raise an error if it is not possible to anchor to a cache with id """
+        if hasattr(cls, '_cache_anchor'):
             raise ValueError(f'already anchored to {cls._cache_anchor}')
 
+        root = getattr(cls, 'root', id)
+        if root != id and not isinstance(root, property):  # property if not bound by init yet
+            if hasattr(cls, '_remote_root') and cls._remote_root == id:
+                pass
+            else:
+                raise ValueError('root and anchor ids do not match! '
+                                 f'{root} != {id}')
+
     @classmethod
     def anchorTo(cls, path, create=False):
         """ You already know the rock you want and
@@ -105,18 +111,20 @@ class RemotePath:
 
         if isinstance(path, caches.CachePath):
             # FIXME the non-existence problem rears its head again
-            return cls.anchorToCache(path)
+            path.anchorClassHere()
+            return cls._cache_anchor
         elif isinstance(path, LocalPath):
             # FIXME the non-existence problem rears its head again
             if path.cache:
-                return cls.anchorToCache(path.cache)
+                path.cache.anchorClassHere()
+                return cls._cache_anchor
             else:
                 root = cls.root if isinstance(cls.root, cls) else cls(cls.root)
                 if path.name != root.name:
                     # unlike git you cannot clone to a folder with a different
                     # name (for now ... maybe can figure out how in the future)
                     raise ValueError('Path name and root name do not match.'
-                                     f'{path.name} != {cls.root.name}')
+                                     f'{path.name} != {root.name}')
 
                 if create:
                     return cls.dropAnchor(path.parent)  # existing folder dealt with in dropAnchor
@@ -151,13 +159,13 @@ class RemotePath:
 
         except exc.CacheExistsError as e:
             root, path = cls._get_local_root_path(parent_path)
-            cls._cache_anchor = path.cache
+            path.cache.anchorClassHere()
             return cls._cache_anchor
 
         except exc.DirectoryNotEmptyError as e:
             root, path = cls._get_local_root_path(parent_path)
             if path.cache:
-                cls._cache_anchor = path.cache
+                path.cache.anchorClassHere()
                 return cls._cache_anchor
             else:
                 raise e
@@ -185,7 +193,10 @@ class RemotePath:
                 else:
                     raise NotImplementedError(f'What\'s a {root}?!')
 
-            elif list(path.children):
+            elif not path.is_dir():
+                raise NotADirectoryError(f'not a directory {path}')
+
+            elif any(path.iterdir()):  # children needs the anchor if there is a cache
                 raise exc.DirectoryNotEmptyError(f'has children {path}')
 
             cls._cache_anchor = path.cache_init(root.id, anchor=True)
-- 
2.43.0


From e2a60c9dd2525530376ab787c6a3731548fa3719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 43/65] fix: clones are named like git does, uris of
 repositories on github with dots, other forms of the address, special
 characters in paths, detached heads

---
 augpathlib/repo.py | 48 ++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 82bcfe6..184dd4c 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -1,5 +1,7 @@
+import os
+import re
 import pathlib
-from urllib.parse import urlparse
+from urllib.parse import urlparse, quote
 from augpathlib import AugmentedPath
 from augpathlib import exceptions as exc
 from augpathlib.utils import log as _log
@@ -34,7 +36,12 @@ class RepoHelper:
             this makes it possible to check for various issues
             prior to calling init(remote)
         """
-        name = pathlib.PurePath(remote).stem
+        # the same name that git uses, cf. git_guess_dir_name
+        name = re.sub(r'(/+\.git)?/*$', '', str(remote).replace(os.sep, '/'))
+        name = re.split('[/:]', name)[-1]
+        if name.endswith('.git'):
+            name = name[:-len('.git')]
+
         return self / name
 
     def clone_from(self, remote, *, depth=None):
@@ -148,16 +155,18 @@ class RepoHelper:
         remote = repo.remote()
         rnprefix = remote.name + '/'
         url_base = next(remote.urls)
-        if url_base.startswith('git@'):
-            url_base = 'ssh://' + url_base
+        scp = re.match(r'([^/:]+):(?!//)/*(.*)$', url_base)
+        if scp is not None:  # [user@]host:path
+            url_base = 'ssh://' + '/'.join(scp.groups())
 
         pu = urlparse(url_base)
         netloc = pu.netloc
         path = pu.path
-        if netloc.startswith('git@github.com'):
-            _, group = netloc.split(':')
-            netloc = 'github.com'
-            path = '/' + group + path
+        if pu.hostname == 'github.com':
+            netloc = pu.hostname  # no user and no port
+            path = '/' + path.strip('/')
+            if path.endswith('.git'):
+                path = path[:-len('.git')]
 
         return repo, rnprefix, url_base, netloc, path
 
@@ -167,19 +176,20 @@ class RepoHelper:
 
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
 
+        if not ref or ref == 'HEAD':
+            ref = repo.head.commit.hexsha if repo.head.is_detached else repo.active_branch.name
+
         if netloc == 'github.com':
 
-            if not ref or ref == 'HEAD':
-                ref = repo.active_branch.name
-            elif (ref not in [r.name.replace(rnprefix, '') for r in repo.refs] and
-                  ref not in [c.hexsha for c in repo.iter_commits(ref, max_count=1)]):
+            if (ref not in [r.name.replace(rnprefix, '') for r in repo.refs] and
+                ref not in [c.hexsha for c in repo.iter_commits(ref, max_count=1)]):
                 log.warning(f'unknown ref {ref}')
 
             if infix is not None:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / infix / ref / self.repo_relative_path
+                rpath = pathlib.PurePosixPath(path) / infix / ref / self.repo_relative_path
             else:
-                rpath = pathlib.PurePosixPath(path).with_suffix('') / ref / self.repo_relative_path
-            return prefix + rpath.as_posix()
+                rpath = pathlib.PurePosixPath(path) / ref / self.repo_relative_path
+            return prefix + quote(os.fsencode(rpath.as_posix()))
         elif url_base.startswith('/') and self.__class__(url_base).exists():
             other_rp = self.__class__(url_base)
             other = other_rp / self.repo_relative_path
@@ -190,8 +200,12 @@ class RepoHelper:
     def remote_uri_api(self, endpoint=''):
         # technically this is for the whole repo
         repo, rnprefix, url_base, netloc, path = self._remote_helper()
-        p = pathlib.PurePosixPath(path).with_suffix('')
-        return f'https://api.github.com/repos{p}' + endpoint
+        if netloc == 'github.com':
+            return f'https://api.github.com/repos{path}' + endpoint
+        elif url_base.startswith('/') and self.__class__(url_base).exists():
+            return self.__class__(url_base).remote_uri_api(endpoint)
+        else:
+            raise NotImplementedError(url_base)
 
     def remote_uri_human(self, ref=None):
         return self._remote_uri('https://github.com', infix='blob', ref=ref)
-- 
2.43.0


From 05b5b55361a7db85ffa8ff3a01c23554fe77c4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 44/65] fix: the id of a cache is written last so that metadata
 cut short by a crash is not taken to be complete

---
 augpathlib/caches.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index eb09687..c2718fb 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1190,6 +1190,10 @@ class EatCache(EatPath, _CachePath):
             prefix = f'{self.xattr_prefix}.' if self.xattr_prefix else ''
             fields = set(f'{prefix}{field}'.encode() for field in pathmeta)
             current = set(self.xattrs())
+            id_key = f'{prefix}id'.encode()
+            if id_key in new:  # id goes last, with it the metadata counts as complete
+                new[id_key] = new.pop(id_key)
+
             self.setxattrs(new)
             for key in (fields & current) - set(new):
                 # fields that are gone must not be read back
-- 
2.43.0


From cec791ea40c7177317c3ddb946afe7942b4bcc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 45/65] fix: mimetype and encoding of a relative path are not
 those of what a link (or the metadata of a placeholder) leads to

---
 augpathlib/core.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5f01e4c..8277344 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -786,10 +786,7 @@ class AugmentedPath(pathlib.Path):
             return 'inode/directory'  # matches _magic_mimetype
 
         if not self.is_absolute():  # needed for safe as_uri
-            if self.is_broken_symlink():
-                self = self.absolute()
-            else:
-                self = self.resolve()
+            self = self.absolute()  # not resolve, a link has its own name
 
         mime, encoding = mimetypes.guess_type(self.as_uri())
         if mime:
@@ -803,7 +800,7 @@ class AugmentedPath(pathlib.Path):
     @property
     def encoding(self):
         if not self.is_absolute():  # needed for safe as_uri
-            self = self.resolve()
+            self = self.absolute()
 
         mime, encoding = mimetypes.guess_type(self.as_uri())
         if encoding:
-- 
2.43.0


From 35d3f183eefba86cea4762e4b4d2c3e58d5a351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 46/65] fix: xopen passes names that look like options or uris
 as paths

---
 augpathlib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 8277344..5485890 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1611,7 +1611,8 @@ class XopenPosixHelper(XopenHelper):
         if command is None or not isinstance(command, str):
             command = self._command
 
-        process = subprocess.Popen([command, self.as_posix()],
+        # absolute so that no name can be taken for an option or an uri
+        process = subprocess.Popen([command, self.absolute().as_posix()],
                                    stdout=subprocess.DEVNULL,
                                    stderr=subprocess.STDOUT)
 
-- 
2.43.0


From 5369cb242796053e7170a5edc65faf5550188659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 47/65] fix: XopenPath had no xopen as of python 3.12

---
 augpathlib/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 5485890..2fd6679 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1663,7 +1663,10 @@ class XopenPosixHelper(XopenHelper):
 
 
 class XopenPath(XopenHelper, AugmentedPath):
-    pass
+    if not need_flavour:  # there are no other classes that the helpers could be added to
+        _helper = XopenWindowsHelper if os.name == 'nt' else XopenPosixHelper
+        _command = _helper._command
+        xopen = _helper.xopen
 
 
 XopenPath._bind_flavours()
-- 
2.43.0


From 6e65563dc5af6dc174573730541024401ae527ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 48/65] fix: mkdir_remote checks what can be checked before it
 changes the remote, says when no parent is in a project

---
 augpathlib/core.py | 57 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 2fd6679..48e7579 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1127,39 +1127,40 @@ class LocalPath(EatPath, AugmentedPath):
             # self.cache will be None when this is called
             raise exc.RemotePathExistsError(self.remote)
 
-        if self.parent.cache:
-            remote = self.parent.remote._mkdir_child(self.name)
+        if self.cache:  # the remote no longer has it
+            raise exc.CacheExistsError(f'{self.cache}\n{self.cache.meta}')
+
+        # check everything that can be checked before the remote is changed
+        missing = [self]
+        # the parents of relative paths stop at the working directory
+        for parent in self.absolute().parents:
+            if parent.cache:
+                break
+
+            missing.append(parent)
+        else:
+            raise FileNotFoundError(f'no parent of {self} is in a project')
+
+        if len(missing) > 1 and not parents:
+            raise FileNotFoundError(f'missing parent for {self} and parents=False')
+
+        for path in (*missing, parent):
+            if not path.is_dir() and (path.exists() or path.is_symlink()):
+                raise exc.PathExistsError(path)
+
+        for local in reversed(missing):
+            remote = parent.remote._mkdir_child(local.name)
             # FIXME see the note about my dumbness wrt paths
             # the whole remote appraoch nees a complete rework so that the remotes
             # just act like paths rathern than forcing them to exist which causes all
             # sorts of awkwardness, including the RemoteMaybeExists issue
-            self.mkdir(exist_ok=True)
+            local.mkdir(exist_ok=True)
             if remote.cache is None:
-                self.cache_init(remote.meta)
-                remote._cache = self.cache
-
-            return remote
-
-        elif parents:
-            for parent in self.parents:
-                c = parent.cache
-                if c:
-                    parts = self.relative_path_from(parent).parts
-                    for p in parts:
-                        print(self, parent, parts, p)
-                        remote = parent.cache.remote._mkdir_child(p)
-                        local = parent / p
-                        local.mkdir(exist_ok=True)
-                        local.cache_init(remote.meta)
-                        parent = local
-                        #parent = remote.cache.local  # fails due to cache is None
-                        # FIXME will this work as expected ?! and just put the metadata on the
-                        # existing folder or will it barf? the answer is no, cache is missing
-
-                    remote._cache = local.cache
-                    return remote
-        else:
-            raise FileNotFoundError('missing parent for {self} and parents=False')
+                remote._cache = local.cache_init(remote.meta)
+
+            parent = local
+
+        return remote
 
     def find_cache_root(self, fail=False):
         """ find the local root of the cache tree, even if we start with skips """
-- 
2.43.0


From a1f5891daceb82b27c7be156c9620e557d73143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 49/65] fix: validate_file failed with AttributeError when
 checksums do not match

---
 augpathlib/caches.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index c2718fb..c7a2989 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -642,8 +642,9 @@ class _CachePath(AugmentedPath):
                 msg = f'Checksums do not match!\n(!=\n{lc.hex()}\n{cc.hex()}\n)'
                 log.critical(msg)  # haven't figured out how to comput the bf checksums yet
                 nmeta = {k: v for k, v in meta.items()}
-                nmeta['errors'] += ('checksum-mismatch',)
-                self.meta = meta.__class__(**nmeta)
+                if 'checksum-mismatch' not in meta.errors:
+                    nmeta['errors'] += ('checksum-mismatch',)
+                    self._meta_setter(meta.__class__(**nmeta))
                 #raise exc.ChecksumError(msg)
         elif meta.size is not None:
             log.warning(f'No checksum! Your data is at risk!\n'
@@ -715,7 +716,7 @@ class _CachePath(AugmentedPath):
     def dedupe(self, other, pretend=False):
         # FIXME blackfynn doesn't set update when a folder name changes ??!
         if self.id != other.id:
-            raise ValueError('Can only dedupe when ids match, {self.id} != {other.id}')
+            raise ValueError(f'Can only dedupe when ids match, {self.id} != {other.id}')
 
         su, ou = self.meta.updated, other.meta.updated
         lsu, lou = self.local.meta.updated, other.local.meta.updated
-- 
2.43.0


From 877f6dd80caf82254b9b7fcc2b8a2915406a4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 50/65] fix: files of unknown size could never be fetched

---
 augpathlib/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index c7a2989..a036ffc 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -950,7 +950,7 @@ class _CachePath(AugmentedPath):
             log.info(f'Fetching remote via cache id {self.id} -> {self.local}')
             existing_cache_cache = self.local_object_cache_path.exists()
             self.local.data = self.data  # note that this should trigger storage to .ops/objects
-            if self.local.size != meta.size:
+            if meta.size is not None and self.local.size != meta.size:
                 m2 = '.operations/objects/' + self.id.replace(':', '\\:')  # FIXME not abstracted
                 msg = (f'{self.local.size} != {meta.size} for {self.local}\n{m2}\n'
                        f'from previous fetch? {existing_cache_cache}')
-- 
2.43.0


From 539fb89e3b4d81004b2357c2ca315dfdde5049e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 51/65] fix: checksums of files are compared using the cypher
 in the metadata, not that of the cache class or the default

---
 augpathlib/caches.py |  7 ++++---
 augpathlib/core.py   | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index a036ffc..4ae0c95 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -611,11 +611,11 @@ class _CachePath(AugmentedPath):
     def _sparse_include(self):
         raise NotImplementedError('implement in subclass')
 
-    def _instance_cypher(self):
+    def _instance_cypher(self, meta=None):
         # FIXME sigh this is NOT a good solution at all but fixing it
         # requires a complete rework of all checksum and cypher
         # related functions and methods which is not happening now
-        cypher_name = self.meta.checksum_cypher
+        cypher_name = (self.meta if meta is None else meta).checksum_cypher
         if cypher_name is None:
             return self.cypher
         else:
@@ -1528,7 +1528,8 @@ class PrimaryCache(CachePath):
         if must_fetch:
             try:
                 # FIXME performance, and pathmeta.checksum is None case
-                if self.local.content_different() and self.local.meta.checksum != pathmeta.checksum:
+                if (self.local.content_different() and
+                    self.local.checksum(self._instance_cypher(pathmeta)) != pathmeta.checksum):
                     raise exc.LocalChangesError(f'not fetching {self}')
 
             except exc.NoRemoteFileWithThatIdError as e:
diff --git a/augpathlib/core.py b/augpathlib/core.py
index 48e7579..62755e0 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -825,22 +825,18 @@ class AugmentedPath(pathlib.Path):
                 else:
                     raise e
 
-    def checksum(self, cypher=default_cypher, extra_cyphers=tuple()):
+    def checksum(self, cypher=None, extra_cyphers=tuple()):
         """ checksum() always recomputes from the data
             meta.checksum is static for cache and remote IF it exists """
         # FIXME the cypher cannot be determined independent of a call to checksum
 
         if self.is_file():
-            if cypher != default_cypher:
-                pass  # FIXME this is SO DUMB (see commit message)
-            elif ((hasattr(self, '_cache_class') and
-                 hasattr(self._cache_class, 'cypher') and
-                 self._cache_class.cypher != cypher)):  # FIXME this could be static ...
-                cypher = self._cache_class.cypher
-
-            elif (hasattr(self, 'cypher') and
-                  self.cypher != cypher):
-                cypher = self.cypher
+            if cypher is not None:
+                pass  # what was asked for, even if it is the default
+            elif hasattr(self, '_cache_class') and hasattr(self._cache_class, 'cypher'):
+                cypher = self._cache_class.cypher  # FIXME this could be static ...
+            else:
+                cypher = getattr(self, 'cypher', default_cypher)
 
             m = cypher()
             extra = [c() for c in extra_cyphers]
@@ -1521,6 +1517,10 @@ class LocalPath(EatPath, AugmentedPath):
     def content_different(self):
         cmeta = self.cache.meta
         if cmeta.checksum:
+            if self.is_file():
+                # the cypher of the cached checksum may not be that of the cache class
+                return self.checksum(self.cache._instance_cypher(cmeta)) != cmeta.checksum
+
             return self.meta.content_different(cmeta)
         else:
             # TODO use the index for this
-- 
2.43.0


From 50137466a0144b4ddcab9672b25fa56ffd4c1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 52/65] fix: copy_to with copy_cache_meta refuses before it
 writes data when there is no metadata to copy or the target has some

---
 augpathlib/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 62755e0..2684d5f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1457,11 +1457,18 @@ class LocalPath(EatPath, AugmentedPath):
         if type(target) != type(self):
             target = self.__class__(target)
 
+        if copy_cache_meta and self.cache is None:
+            raise exc.NoCachedMetadataError(self)
+
         if not target.exists() and not target.is_symlink() or force:
             if target.exists() and self.exists() and self.samefile(target):
                 # opening target for writing would truncate self
                 raise shutil.SameFileError(f'{self} and {target} are the same file')
 
+            if copy_cache_meta and target.cache is not None:
+                # before there is new data that does not go with the old metadata
+                raise exc.CacheExistsError(f'{target.cache}\n{target.cache.meta}')
+
             target.data = self.data
         else:
             raise exc.PathExistsError(f'{target}')
-- 
2.43.0


From 98ba99ed4d0a94e327b2557bf16c6812ee0c0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 53/65] fix: copy_to with copy_cache_meta onto links wrote the
 data of what they point to and then failed

---
 augpathlib/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 2684d5f..54bdedb 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -1465,9 +1465,13 @@ class LocalPath(EatPath, AugmentedPath):
                 # opening target for writing would truncate self
                 raise shutil.SameFileError(f'{self} and {target} are the same file')
 
-            if copy_cache_meta and target.cache is not None:
+            if copy_cache_meta:
                 # before there is new data that does not go with the old metadata
-                raise exc.CacheExistsError(f'{target.cache}\n{target.cache.meta}')
+                if target.cache is not None:
+                    raise exc.CacheExistsError(f'{target.cache}\n{target.cache.meta}')
+
+                if target.is_symlink():  # cannot have metadata, what it points to would get the data
+                    raise exc.PathExistsError(f'{target}')
 
             target.data = self.data
         else:
-- 
2.43.0


From baf3d855790f4cc2deb6cf5ff655debf8f6fd856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 54/65] fix: currentRefName gave names like v1^0 and v1~1 for
 tags, and of branches that look like tags

---
 augpathlib/repo_patch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/augpathlib/repo_patch.py b/augpathlib/repo_patch.py
index bcc16ec..c5c89fc 100644
--- a/augpathlib/repo_patch.py
+++ b/augpathlib/repo_patch.py
@@ -21,14 +21,19 @@ class _Repo(git.Repo):  # FIXME should we subclass Repo for this or patch ??
                 ref_name = ref_name[0]
                 if '/' in ref_name:
                     tags, tag_name = ref_name.split('/', 1)
-                    if tags == 'tags':
-                        return tag_name
-                    elif '~' in tag_name:
+                    if tag_name.endswith('^0'):
+                        # the commit that an annotated tag is for
+                        tag_name = tag_name[:-2]
+
+                    if '~' in tag_name or '^' in tag_name:
                         # these refs are unstable because they count
                         # backward from the first named ref that
                         # occures after them in the tree, better to
                         # use the hexsha in those cases
                         return None
+                    elif tags == 'tags' and any(t.name == tag_name and t.commit == self.head.commit
+                                                for t in self.tags):
+                        return tag_name
                     else:
                         return ref_name
                 else:
-- 
2.43.0


From ddbfab9df89a99c42c2bad5365c6d809149fbc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 55/65] fix: objects of a project were linked to the wrong
 place when it is relative, trash was missing after an interruption

---
 augpathlib/caches.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 4ae0c95..66fe28c 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -210,6 +210,9 @@ class _CachePath(AugmentedPath):
 
         lod = self.local_objects_dir
         if symlink_objects_to is not None:
+            # the link is not in the working directory
+            symlink_objects_to = symlink_objects_to.absolute()
+
             # NOTE this interacts with anchorClassHere
             # we do want to always run this local_data_dir_init
             # to avoid hard to debug errors, which means that if
@@ -221,11 +224,10 @@ class _CachePath(AugmentedPath):
             # them in ~/.cache or similar
             if lod.is_symlink():
                 msg = f'{lod} is already symlinked to {lod.readlink()}'
-                if lod.resolve() == symlink_objects_to.resolve():
-                    log.info(msg)
-                    return
+                if lod.resolve() != symlink_objects_to.resolve():
+                    raise NotADirectoryError(msg)
 
-                raise NotADirectoryError(msg)
+                log.info(msg)
             elif lod.exists():
                 try:
                     lod.rmdir()
@@ -235,7 +237,8 @@ class _CachePath(AugmentedPath):
                     log.error(msg)
                     raise e
 
-            lod.symlink_to(symlink_objects_to)
+            if not lod.is_symlink():
+                lod.symlink_to(symlink_objects_to)
         else:
             lod.mkdir(exist_ok=exist_ok)
 
-- 
2.43.0


From 748d510a31b9f9fd49ae92ddb3e2f55758f4dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 56/65] fix: parts of a cached remote object leave out the
 anchor

---
 augpathlib/remotes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/augpathlib/remotes.py b/augpathlib/remotes.py
index caf3786..42bac4a 100644
--- a/augpathlib/remotes.py
+++ b/augpathlib/remotes.py
@@ -483,8 +483,7 @@ class RemotePath:
                     for c_parent in cache_parent.parents:
                         if c_parent is None:
                             continue
-                        elif c_parent.name == remote.name:  # FIXME trick to avoid calling id
-                            parent_names.append(c_parent.name)  # since be compare one earlier we add here
+                        elif c_parent.id == remote.id:
                             break
                         else:
                             parent_names.append(c_parent.name)
-- 
2.43.0


From 67b7dd42e4d37b13595cabb671fe254ccf187293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 57/65] fix: pushd of a cache

---
 augpathlib/caches.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 66fe28c..07bad37 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -47,6 +47,9 @@ class _CachePath(AugmentedPath):
         else:
             return super().__enter__()
 
+    def pushd(self):
+        self.local.pushd()  # caches can't exist outside their anchor anymore
+
     @classmethod
     def setup(cls, local_class, remote_class_factory):
         """ call this once to bind everything together """
-- 
2.43.0


From f0f26088ce51cb60eaacfc440a923db80030e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 58/65] fix: a cache can be refreshed without a size limit,
 like fetch

---
 augpathlib/caches.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index 07bad37..cc14bd7 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -885,9 +885,6 @@ class _CachePath(AugmentedPath):
         if self.meta is None:
             breakpoint()
 
-        limit = (size_limit_mb if
-                 not self.meta.size or (size_limit_mb > self.meta.size.mb)
-                 else self.meta.size.mb + 1)
         new = self.remote.refresh(update_cache=True,
                                   update_data=update_data,
                                   update_data_on_cache=(self.is_file() and self.exists()),
-- 
2.43.0


From 4026af6e23f232ed4f3e378746a4189e133f8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 59/65] fix: everything in __all__ can be imported

---
 augpathlib/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/augpathlib/__init__.py b/augpathlib/__init__.py
index ef5e6da..02612f9 100644
--- a/augpathlib/__init__.py
+++ b/augpathlib/__init__.py
@@ -44,7 +44,7 @@ __all__ = [
     'PathMeta',
 
     'AugmentedPath',
-    'XattrPath',
+    'EatPath',
     'RepoPath',
     'PackagePath',
     'XopenPath',
@@ -54,7 +54,7 @@ __all__ = [
     'PrimaryCache',
     'SqliteCache',
     'SymlinkCache',
-    'XattrCache',
+    'EatCache',
     'SshCache',
 
     'RemotePath',
-- 
2.43.0


From 767213fdc56459894bcc178ccb2b7622e53a1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:23 +0000
Subject: [PATCH 60/65] fix: adding a missing file to the index does not add
 files that match its name

---
 augpathlib/repo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 184dd4c..449d9ca 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -306,6 +306,10 @@ class RepoHelper:
         # because they are testing with strings
         # so we use repo_relative_path to avoid the broken
         # _to_relative_path in GitPython
+        if not self.exists() and not self.is_symlink():
+            # index.add takes the name of a missing file to be a pattern
+            raise FileNotFoundError(f'{self}')
+
         self.repo.index.add([self.repo_relative_path.as_posix()])
 
     def commit(self, message, *, date=None):
-- 
2.43.0


From b232e9f76a2ff39e3675b7311f3b29eb41f1da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 61/65] fix: popd to a directory that cannot be entered keeps
 it on the stack

---
 augpathlib/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index 54bdedb..d4c2736 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -753,8 +753,9 @@ class AugmentedPath(pathlib.Path):
         # so we invert the N dex
         reversed_index = - (N + 1)
         if AugmentedPath._stack:
-            path = AugmentedPath._stack.pop(reversed_index)
-            path.chdir()
+            path = AugmentedPath._stack[reversed_index]
+            path.chdir()  # if it fails the stack stays as it is
+            AugmentedPath._stack.pop(reversed_index)
             print(*reversed(AugmentedPath._stack), AugmentedPath.cwd())
             return path
         else:
-- 
2.43.0


From bbbf9c8e514df5e518147bab51787e86289c32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 62/65] fix: paths below files and placeholders, which are
 loops, can be asked whether they are sparse

---
 augpathlib/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/augpathlib/core.py b/augpathlib/core.py
index d4c2736..d18645f 100644
--- a/augpathlib/core.py
+++ b/augpathlib/core.py
@@ -980,8 +980,13 @@ class EatPath(EatHelper, AugmentedPath):
         if l != parent:
             try:
                 return self.getxattr(self._sparse_key) == b'1'
-            except (exc.NoStreamError, FileNotFoundError):
+            except exc.NoStreamError:
+                return parent._sparse_root()
+            except OSError as e:
                 # it is possible that this is a symlink cache
+                if not _ignore_error(e):
+                    raise
+
                 return parent._sparse_root()
 
     def is_sparse(self):
-- 
2.43.0


From 118113d6d98b0c954d2fa0b512898781db985c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:42 +0000
Subject: [PATCH 63/65] fix: what is already in the trash is not overwritten
 when another version, or another object whose identifier is too long, is
 moved there

---
 augpathlib/caches.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/augpathlib/caches.py b/augpathlib/caches.py
index cc14bd7..288f38f 100644
--- a/augpathlib/caches.py
+++ b/augpathlib/caches.py
@@ -1,4 +1,6 @@
+import os
 import sys
+import stat
 import pathlib
 import warnings
 from augpathlib import exceptions as exc
@@ -169,6 +171,28 @@ class _CachePath(AugmentedPath):
     def _trashed_path_short(self):
         return self.trash / self.name  # FIXME SIGH
 
+    def _crumple_to(self, trashed, replace_link=False):
+        """ move to trashed or to the first name after it that is free so
+            that what is already in the trash is never overwritten except,
+            if replace_link, for placeholders since those have no data """
+        replace_link = replace_link and (self.is_symlink() or not self.is_dir())
+        target = trashed
+        n = 0
+        while True:
+            try:
+                mode = os.lstat(target).st_mode
+            except FileNotFoundError:
+                break
+
+            if replace_link and stat.S_ISLNK(mode):
+                break
+
+            n += 1
+            target = trashed.with_name(f'{trashed.name}-{n}')
+
+        self.rename(target)
+        return target
+
     def crumple(self):  # FIXME change name to something more obvious ...
         trashed = self._trashed_path
         tp = trashed.parent
@@ -179,12 +203,11 @@ class _CachePath(AugmentedPath):
             tp.mkdir(parents=True)
 
         try:
-            self.rename(trashed)
+            trashed = self._crumple_to(trashed, replace_link=True)
         except OSError as e:
             if e.errno == 36:  # File name too long  # SIGH
                 log.critical(f'Had to rename trash {trashed} -> {self._trashed_path_short}')
-                trashed = self._trashed_path_short
-                self.rename(trashed)
+                trashed = self._crumple_to(self._trashed_path_short)
             else:
                 raise e
 
-- 
2.43.0


From 66e439a565453b66e1cb046d9013782023b453c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:48 +0000
Subject: [PATCH 64/65] fix: links that lead nowhere can be asked whether they
 were changed

---
 augpathlib/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/augpathlib/repo.py b/augpathlib/repo.py
index 449d9ca..4c93024 100644
--- a/augpathlib/repo.py
+++ b/augpathlib/repo.py
@@ -254,7 +254,7 @@ class RepoHelper:
 
     def _do_diff(self, this, other, *, create_patch=False):
         """ note that the order is inverted from self.diff """
-        if not self.exists():
+        if not self.exists() and not self.is_symlink():
             raise FileNotFoundError(f'{self}')
 
         # diffing against the index is the default of diff, which does not take IndexFile
-- 
2.43.0


From f1c473b1fe02d0d8c30637d95b959830a89c61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:36 +0000
Subject: [PATCH 65/65] fix: the modules and license files of a package belong
 to its release

---
 augpathlib/package.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/augpathlib/package.py b/augpathlib/package.py
index a23d57e..90b47bb 100644
--- a/augpathlib/package.py
+++ b/augpathlib/package.py
@@ -364,7 +364,8 @@ class PackagePath(RepoPath):
             self.manifest_maker = manifest_maker
             self.FileList = FileList
 
-        mm = self.manifest_maker(self.Distribution())
+        # the files of a release depend on packages, license files etc.
+        mm = self.manifest_maker(self.Distribution() if self._sk else self.setup_dist)
         mm.distribution.script_name = 'setup.py'  # FIXME check path on this one
         mm.manifest = 'MANIFEST.in'
         mm.filelist = self.FileList()
-- 
2.43.0

