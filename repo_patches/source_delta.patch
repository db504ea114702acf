From ad662f966c8aba01e6bf9baf39c1f8610dda9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 01/22] fix: do not extract archive members outside of the
 destination directory

---
 bead/ziparchive.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 9ccf20a..534d9df 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -65,6 +65,7 @@ class ZipArchive(Archive):
         yield self._has_well_formed_meta()
         yield self._bead_creation_time_is_in_the_past()
         yield self._extra_file() is None
+        yield self._escaping_file() is None
         yield self._file_with_different_content_id() is None
 
     def _has_well_formed_meta(self):
@@ -95,6 +96,12 @@ class ZipArchive(Archive):
                     # unexpected extra file!
                     return name
 
+    def _escaping_file(self):
+        for name in self.zipfile.namelist():
+            for prefix in (layouts.Archive.DATA + '/', layouts.Archive.CODE + '/'):
+                if name.startswith(prefix) and not is_inside(name[len(prefix):]):
+                    return name
+
     def _file_with_different_content_id(self):
         for name, hash in self.manifest.items():
             try:
@@ -182,7 +189,10 @@ class ZipArchive(Archive):
         for zip_path in self.zipfile.namelist():
             if not zip_path.startswith(zip_dir_prefix):
                 continue
-            fs_path = fs_dir / zip_path[zip_dir_prefix_len:]
+            relative_path = zip_path[zip_dir_prefix_len:]
+            if not is_inside(relative_path):
+                raise InvalidArchive(self.archive_filename)
+            fs_path = fs_dir / relative_path
             self.extract_file(zip_path, fs_path)
 
     def unpack_code_to(self, fs_dir):
@@ -195,6 +205,14 @@ class ZipArchive(Archive):
         workspace.meta = self.meta
 
 
+def is_inside(relative_path: str) -> bool:
+    '''
+    Does relative_path stay under the directory it will be joined to?
+    '''
+    path = tech.fs.Path(relative_path)
+    return not path.is_absolute() and '..' not in path.parts
+
+
 def bead_name_from_file_path(path):
     '''
     Parse bead name from a file path.
-- 
2.43.0


From 6e98b4812af7802c4e621018c213cc24e755c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 02/22] fix: refuse to create or save beads with names, that
 can not be read back

---
 bead/box.py           | 3 +++
 bead_cli/workspace.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/bead/box.py b/bead/box.py
index 7085d41..7b16e8a 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -23,6 +23,7 @@ from .box_query import QueryCondition
 from .box_rawfs import RawFilesystemResolver
 from .exceptions import BoxError
 from .exceptions import InvalidArchive
+from .meta import BeadName
 from .tech.timestamp import time_from_timestamp
 from .ziparchive import ZipArchive
 
@@ -446,6 +447,8 @@ class Box:
             raise BoxError(f'Box "{self.name}": directory {self.directory} does not exist')
         if not self.directory.is_dir():
             raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
+        if not BeadName.is_wellformed(workspace.name):
+            raise BoxError(f'Not a valid bead name: "{workspace.name}"')
         
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 98de29d..4eca448 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -5,6 +5,7 @@ from bead import layouts
 from bead import tech
 from bead.exceptions import BoxError
 from bead.exceptions import InvalidArchive
+from bead.meta import BeadName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -37,6 +38,7 @@ def assert_may_be_valid_name(name):
         and '/' not in name
         and '\\' not in name
         and ':' not in name
+        and BeadName.is_wellformed(name)
     )
     if not valid_syntax:
         die(f'Invalid name "{name}"')
-- 
2.43.0


From 0cfe3df952b8f5f161901fa33d529f78c88c52d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 03/22] fix: archive file names without a valid bead name are
 reported as invalid archives

---
 bead/ziparchive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 534d9df..26f34c5 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -30,7 +30,10 @@ class ZipArchive(Archive):
     def __init__(self, filename, box_name=''):
         self.archive_filename = filename
         self.box_name = box_name
-        self.name = bead_name_from_file_path(filename)
+        try:
+            self.name = bead_name_from_file_path(filename)
+        except ValueError as e:
+            raise InvalidArchive(filename) from e
         self._meta = self._load_meta()
         self._content_id = None
 
-- 
2.43.0


From 995a55978487c5eeb79f07c0eaba449ee3ba77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 04/22] fix: refuse to add inputs with names, that can not be
 read back

---
 bead_cli/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 199683f..c95f47d 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -1,9 +1,9 @@
-import os.path
 from typing import TYPE_CHECKING
 
 from bead.box import resolve
 from bead.box import search
 from bead.exceptions import InvalidArchive
+from bead.meta import InputName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -67,7 +67,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if os.path.dirname(input_nick):
+        if not InputName.is_wellformed(input_nick):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
-- 
2.43.0


From 13f6ff424c004313948dd0d865ec221873f27e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 05/22] fix: skip zip files, that are not beads, when scanning
 boxes without index

---
 bead/box_rawfs.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 6ccce4f..ec80e17 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -100,12 +100,16 @@ class RawFilesystemResolver:
     def _bead_from_archive(self, archive: Archive) -> Bead:
         """Create a Bead instance from Archive metadata."""
         bead = Bead()
-        bead.kind = archive.kind
-        bead.name = archive.name
-        bead.inputs = archive.inputs
-        bead.content_id = archive.content_id
-        bead.freeze_time_str = archive.freeze_time_str
-        bead.box_name = archive.box_name
+        try:
+            bead.kind = archive.kind
+            bead.name = archive.name
+            bead.inputs = archive.inputs
+            bead.content_id = archive.content_id
+            bead.freeze_time_str = archive.freeze_time_str
+            bead.box_name = archive.box_name
+            bead.freeze_time  # must be parseable
+        except Exception as e:
+            raise InvalidArchive(archive.location) from e
         return bead
 
     def get_file_path(self, name: str, content_id: str) -> Path:
@@ -120,9 +124,9 @@ class RawFilesystemResolver:
         for path in self._glob_bead_files(name):
             try:
                 archive = ZipArchive(path, box_name='')
-                if archive.name == name and archive.content_id == content_id:
+                bead = self._bead_from_archive(archive)
+                if bead.name == name and bead.content_id == content_id:
                     # Cache the successful lookup
-                    bead = self._bead_from_archive(archive)
                     self._cache_bead_and_path(bead, path)
                     return path
             except InvalidArchive:
-- 
2.43.0


From 73d9e8bfc33ea464e624627ecabdb53ed82deae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 06/22] fix: open box index when its path has characters
 special in URIs

---
 bead/box_index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b24c653..9c36a41 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -24,9 +24,14 @@ def create_update_connection(index_path: Path):
     return closing(conn)
 
 
+def read_only_uri(index_path: Path) -> str:
+    '''SQLite URI to open the database at index_path for reading.'''
+    return f'{index_path.absolute().as_uri()}?mode=ro'
+
+
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)
+    conn = sqlite3.connect(read_only_uri(index_path), uri=True)
     return closing(conn)
 
 
@@ -229,7 +234,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)):
+        with closing(sqlite3.connect(read_only_uri(index_path), uri=True)):
             pass
         return True
     except Exception:
-- 
2.43.0


From 883cfe1538512276b1553ab8a1c624b26a270d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 07/22] fix: find beads by name, when the name contains
 wildcard characters

---
 bead/box_rawfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index ec80e17..3edd0d8 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -1,3 +1,4 @@
+import glob
 from typing import Iterable
 from typing import Iterator
 
@@ -57,7 +58,7 @@ class RawFilesystemResolver:
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
         if bead_name:
-            pattern = bead_name + '_????????T????????????[-+]????.zip'
+            pattern = glob.escape(bead_name) + '_????????T????????????[-+]????.zip'
         else:
             pattern = '*.zip'
         return self.box_directory.glob(pattern)
-- 
2.43.0


From cdda369ad0eaf4bbbf50e936ea0778c60464d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 08/22] fix: do not leave a partial archive behind, when saving
 is interrupted

---
 bead/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index b661690..753f875 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -117,7 +117,7 @@ class Workspace(Bead):
         assert not zipfilename.exists()
         try:
             _ZipCreator().create(zipfilename, self, freeze_time, comment)
-        except (RuntimeError, Exception):
+        except BaseException:
             if zipfilename.exists():
                 zipfilename.unlink()
             raise
-- 
2.43.0


From 542e464e47434f7ac6063b79a39977773533a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 09/22] fix: archives with bead metadata missing from the
 manifest are not valid

---
 bead/ziparchive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 26f34c5..970f2e7 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -94,7 +94,8 @@ class ZipArchive(Archive):
         for name in self.zipfile.namelist():
             is_data = name.startswith(data_dir_prefix)
             is_code = name.startswith(code_dir_prefix)
-            if is_data or is_code:
+            is_bead_meta = name == layouts.Archive.BEAD_META
+            if is_data or is_code or is_bead_meta:
                 if name not in manifest:
                     # unexpected extra file!
                     return name
-- 
2.43.0


From 8aa01ef4c9a1c660f0fda5d3690801329a8940df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 10/22] fix: do not leave partially loaded input data behind,
 when loading fails

---
 bead/workspace.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 753f875..e0b7fa4 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -160,9 +160,15 @@ class Workspace(Bead):
                 input_nick,
                 archive.kind, archive.content_id, archive.freeze_time_str)
             destination_dir = input_dir / input_nick
-            archive.unpack_data_to(destination_dir)
-            for f in fs.all_subpaths(destination_dir):
-                fs.make_readonly(f)
+            try:
+                archive.unpack_data_to(destination_dir)
+                for f in fs.all_subpaths(destination_dir):
+                    fs.make_readonly(f)
+            except BaseException:
+                # partial data must not be mistaken for a loaded input
+                if destination_dir.exists():
+                    fs.rmtree(destination_dir)
+                raise
         finally:
             fs.make_readonly(input_dir)
 
-- 
2.43.0


From c6270ebc98df5d4a9cdeebacb1d3645477f2a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 11/22] fix: replace metadata files atomically, so failed
 writes do not destroy them

---
 bead/tech/persistence.py | 13 +++++++++++--
 bead_cli/environment.py  |  3 +--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 81e21a0..98b8190 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -4,6 +4,7 @@ Functions to persist python structures or load them.
 
 import io
 import json
+import os
 
 # json is used for serializing objects for persistence as it is
 # - in the standard library from >=2.6 (including 3.*)
@@ -55,5 +56,13 @@ def file_load(path):
 
 
 def file_dump(content, path):
-    with open(path, 'w') as f:
-        dump(content, f)
+    # the file at path is either the old or the new one, never something between
+    new_path = f'{path}.new'
+    try:
+        with open(new_path, 'w') as f:
+            dump(content, f)
+        os.replace(new_path, path)
+    except BaseException:
+        if os.path.exists(new_path):
+            os.remove(new_path)
+        raise
diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index 93e4262..cdfabd7 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -35,8 +35,7 @@ class Environment:
             self._content = persistence.load(f)
 
     def save(self):
-        with open(self.filename, 'w') as f:
-            persistence.dump(self._content, f)
+        persistence.file_dump(self._content, self.filename)
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0


From c0ae741299b762172d402ae9a12f535e168dd252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 12/22] fix: report when the bead given for updating an input
 is not known

---
 bead_cli/input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index c95f47d..c764bb3 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -172,7 +172,10 @@ class CmdUpdate(Command):
             # path or new bead by name - same as input add, edit
             if args.bead_offset:
                 die('--prev/--next is not supported when an input is replaced with another bead')
-            archive = resolve_bead(env, bead_ref_base, args.bead_time)
+            try:
+                archive = resolve_bead(env, bead_ref_base, args.bead_time)
+            except LookupError:
+                die(f'Not a known bead name: {bead_ref_base}')
         if archive:
             _update_input(workspace, input, archive)
         else:
-- 
2.43.0


From abbcd9c00b567ccc99005f5b7ecd1a1f8f5336f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 13/22] fix: do not lose microseconds of freeze times in the
 box index

---
 bead/box_index.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 9c36a41..aebfb61 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -4,6 +4,9 @@ SQLite-based index for bead storage and retrieval.
 
 import sqlite3
 from contextlib import closing
+from datetime import datetime
+from datetime import timedelta
+from datetime import timezone
 from pathlib import Path
 
 from .bead import Bead
@@ -12,6 +15,9 @@ from .exceptions import BoxIndexError
 from .meta import InputSpec
 from .ziparchive import ZipArchive
 
+UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+MICROSECOND = timedelta(microseconds=1)
+
 
 def create_update_connection(index_path: Path):
     '''Create database connection for updates and ensure schema exists.'''
@@ -130,12 +136,13 @@ def find_file_path(conn, name, content_id):
 
 def timestamp_to_unix_utc_microseconds(timestamp):
     """Convert timestamp to UTC unix microseconds for database storage."""
+    # integer arithmetic only - floats would lose some of the microseconds
     if hasattr(timestamp, 'timestamp'):
-        return int(timestamp.timestamp() * 1_000_000)
+        return (timestamp - UNIX_EPOCH) // MICROSECOND
     elif isinstance(timestamp, str):
         from .tech.timestamp import time_from_timestamp
         dt = time_from_timestamp(timestamp)
-        return int(dt.timestamp() * 1_000_000)
+        return (dt - UNIX_EPOCH) // MICROSECOND
     return timestamp
 
 
-- 
2.43.0


From 03d909029629a73199f977bbb5f1a368a09ef9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 14/22] fix: keep symlinked metadata files symlinked when
 replacing their content

---
 bead/tech/persistence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 98b8190..43485fe 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -57,6 +57,7 @@ def file_load(path):
 
 def file_dump(content, path):
     # the file at path is either the old or the new one, never something between
+    path = os.path.realpath(path)
     new_path = f'{path}.new'
     try:
         with open(new_path, 'w') as f:
-- 
2.43.0


From c39268e3704f903b7140a38acc6c00cc6e4aef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 15/22] fix: report archives with unreadable content or
 manifest as invalid archives

---
 bead/ziparchive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 970f2e7..8d16ff7 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -61,7 +61,12 @@ class ZipArchive(Archive):
             - has freezed name
             - has inputs (even if empty)
         '''
-        if not all(self._checks()):
+        try:
+            is_valid = all(self._checks())
+        except Exception as e:
+            # e.g. content is unreadable, there is no manifest
+            raise InvalidArchive(self.archive_filename) from e
+        if not is_valid:
             raise InvalidArchive
 
     def _checks(self):
-- 
2.43.0


From e542d6e792c6e287a8977c6496fdb7292bb47c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 16/22] fix: escape backslashes in quoted names of the
 generated graph

An input or bead name ending in a backslash escaped the closing quote, making
the whole DOT file invalid, and other backslashes were read as escapes.
---
 bead_cli/web/graphviz.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index b7016ca..8a02ee9 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -26,8 +26,13 @@ digraph {{
 """
 
 
+def escape_backslashes(text):
+    # a backslash is special inside quotes - at the end it would even escape the closing quote
+    return text.replace('\\', '\\\\')
+
+
 def node_cluster(bead):
-    id = bead.name.replace('"', '\\"')
+    id = escape_backslashes(bead.name).replace('"', '\\"')
     return f'"cluster_{id}"'
 
 
@@ -113,7 +118,7 @@ class Context:
         after_label = [dest]
         silent_helper_nodes = []
         color = bead_color(bead_src) if not is_auxiliary_edge else 'grey90'
-        label = html.escape(name)
+        label = escape_backslashes(html.escape(name))
 
         # add auxiliary nodes before label
         for _ in range(4):
-- 
2.43.0


From da0ba43a761b33bb09456e650b1ae16e0bdb019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 17/22] fix: hash what was stored when a file changes while it
 is being saved

---
 bead/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index e0b7fa4..dd6dbc7 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -221,9 +221,12 @@ class _ZipCreator:
     def add_file(self, path, zip_path: str):
         assert self.zipfile
         self.zipfile.write(path, zip_path)
+        # hash what was stored, the file might have been changed since then
         self.add_hash(
             zip_path,
-            securehash.file(open(path, 'rb'), os.path.getsize(path)))
+            securehash.file(
+                self.zipfile.open(zip_path),
+                self.zipfile.getinfo(zip_path).file_size))
 
     def add_path(self, path, zip_path):
         if os.path.isdir(path):
-- 
2.43.0


From f62cbb0c288abd1029c8596c836e732c2e0e35d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 18/22] fix: web: do not fail on beads that are in more than
 one box

---
 bead_cli/web/sketch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index b66f94a..3db665d 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -42,10 +42,12 @@ class Sketch:
     @classmethod
     def from_beads(cls, beads: Sequence[Dummy]):
         bead_index = Ref.index_for(beads)
+        # the same bead can be in more than one box
+        unique_beads = tuple(bead_index.values())
         edges = tuple(
             itertools.chain.from_iterable(
                 generate_input_edges(bead_index, bead)
-                for bead in beads))
+                for bead in unique_beads))
         return cls(tuple(bead_index.values()), edges)
 
     @classmethod
-- 
2.43.0


From 2dcb3f73b791d277f687a26f313a9ccbcb637bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 19/22] fix: web: pass on the graph after viewing a file

---
 bead_cli/web/commands.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index 4fd113b..df2f11e 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -192,6 +192,7 @@ class View(ProcessorWithFileName):
     def __call__(self, sketch):
         print(f"Viewing {self.file_name}")
         webbrowser.open(self.file_name.as_posix())
+        return sketch
 
 
 class Filter(SketchProcessor):
-- 
2.43.0


From f95ea7b523837f516617fc579cd3adf33e5e7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 20/22] fix: timestamp is one hour off in the hour before
 clocks are turned back

---
 bead/tech/timestamp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 72056a5..6e623a0 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -1,5 +1,6 @@
 from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from datetime import tzinfo
 import re
 import time as _time
@@ -195,7 +196,8 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return datetime.now(Local).strftime('%Y%m%dT%H%M%S%f%z')
+    # not now(Local), as that is one hour off when clocks are about to be turned back
+    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From 4e911b76e5c6c9f4e88eb4d59b656c825cba405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 21/22] fix: times relative to now are off by an hour when
 clocks were turned in between

---
 bead/tech/timestamp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 6e623a0..eedee55 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -230,7 +230,8 @@ def time_from_user(timeish):
         pass
     try:
         # fall back to interpreting it as a time-delta added to `now`
-        return datetime.now(Local) + parse_timedelta(timeish)
+        # (the time really passed, also when clocks were turned in between)
+        return datetime.now(timezone.utc).astimezone() + parse_timedelta(timeish)
     except ValueError:
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From de9bc84107bc4d29e6b77fb39aaa7526ae1ba965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 22/22] fix: show help in folders with a percent sign in their
 names

The help of arguments is a template for %-formatting; defaults which are
folders have to be escaped, or showing the help fails.
---
 bead_cli/cmdparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bead_cli/cmdparse.py b/bead_cli/cmdparse.py
index 84d4b34..fca5bde 100644
--- a/bead_cli/cmdparse.py
+++ b/bead_cli/cmdparse.py
@@ -134,9 +134,9 @@ class Parser:
         else:
             arg_kwargs = dict(kwargs)
             if 'default' in kwargs:
-                # extend help with default
-                arg_kwargs['help'] = (
-                    f"{kwargs.get('help', '')} (default: {kwargs['default']!s})")
+                # extend help with default (help is a %-format for argparse)
+                default = str(kwargs['default']).replace('%', '%%')
+                arg_kwargs['help'] = f"{kwargs.get('help', '')} (default: {default})"
             self.argparser.add_argument(*args, **arg_kwargs)
 
     def command(self, name: str, commandish: Command | type[Command], title: str) -> None:
-- 
2.43.0

