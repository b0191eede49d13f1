From b68072bb77de3c6daafae9de8977a684e48345e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 01/43] fix: save workspaces having files with times zip can
 not represent

Saving failed with 'ZIP does not support timestamps before 1980'.
---
 bead/workspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/workspace.py b/bead/workspace.py
index b661690..0a441b5 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -253,6 +253,8 @@ class _ZipCreator:
                 mode='w',
                 compression=compression,
                 allowZip64=True,
+                # file times are not restored: do not fail on those zip can not represent
+                strict_timestamps=False,
             ) as self.zipfile:
                 self.zipfile.comment = comment.encode('utf-8')
                 self.add_data(workspace)
-- 
2.43.0


From b23c09bc98e138d0bdab5b0c2a935523df81e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 02/43] fix: freeze time was wrong while clocks are being set
 back

During the first of the two repeated hours the UTC offset of the second one
was used, making time stamps that are one hour in the future.
---
 bead/tech/timestamp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 72056a5..5a3c395 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -1,5 +1,6 @@
 from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from datetime import tzinfo
 import re
 import time as _time
@@ -195,7 +196,9 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return datetime.now(Local).strftime('%Y%m%dT%H%M%S%f%z')
+    # local time must be derived from UTC: when the clocks are set back, the
+    # local time by itself does not tell which of the two offsets is in use
+    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From e94300ddcae81e4caa59fd0daa162f875c2f8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 03/43] fix: relative times were off when the UTC offset
 changed in between

-1H could mean anything from 0 to 2 hours ago around daylight saving changes.
---
 bead/tech/timestamp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 5a3c395..2edb8f3 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -231,7 +231,8 @@ def time_from_user(timeish):
         pass
     try:
         # fall back to interpreting it as a time-delta added to `now`
-        return datetime.now(Local) + parse_timedelta(timeish)
+        # arithmetic with local times would ignore changes of the UTC offset
+        return datetime.now(timezone.utc) + parse_timedelta(timeish)
     except ValueError:
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From 74e92e156246c4416cd118b6dc11aaed417c2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 04/43] fix: reject times that are malformed or out of range
 with ValueError

A trailing new line was accepted, an UTC offset of a day or more was accepted,
but failed on first use, and huge relative times raised OverflowError.
---
 bead/tech/timestamp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 2edb8f3..a67f4d9 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -98,7 +98,7 @@ _NAMED_REGEXPS = (
 def _compile_parser(template):
     for name, regexp in _NAMED_REGEXPS:
         template = template.replace(name, regexp)
-    match = re.compile(template + '$').match
+    match = re.compile(template + r'\Z').match
 
     def convert(timeish: str):
         parts = match(timeish)
@@ -113,7 +113,7 @@ def _compile_parser(template):
                 *
                 (v('tzhour', 0) * 60 + v('tzmin', 0)))
 
-            return datetime(
+            parsed = datetime(
                 v('year', 0),
                 v('month', 1),
                 v('day', 1),
@@ -122,6 +122,9 @@ def _compile_parser(template):
                 v('second', 0),
                 v('microsec', 0),
                 FixedOffset(tzoffset, 'TZ' + str(tzoffset)))
+            # raise ValueError for impossible offsets here, not when it is first used
+            parsed.utcoffset()
+            return parsed
     return convert
 
 
@@ -166,7 +169,7 @@ _TIME_UNITS = {
 }
 
 _DELTA = r'([+-]?\d+)([{units}])'.format(units='wdHMS')
-_DELTAS = '(?:{})*$'.format(_DELTA)
+_DELTAS = r'(?:{})*\Z'.format(_DELTA)
 
 
 def parse_timedelta(delta_str):
@@ -233,6 +236,6 @@ def time_from_user(timeish):
         # fall back to interpreting it as a time-delta added to `now`
         # arithmetic with local times would ignore changes of the UTC offset
         return datetime.now(timezone.utc) + parse_timedelta(timeish)
-    except ValueError:
+    except (ValueError, OverflowError):
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From 11ffbb36e68fb12682de773c657e2a8ee0d61217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 05/43] fix: index freeze times exactly

Converting to microseconds through floats was off by one for some times,
therefore indexed and not indexed boxes gave different search results.
---
 bead/box_index.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b24c653..c3c022c 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -4,14 +4,20 @@ SQLite-based index for bead storage and retrieval.
 
 import sqlite3
 from contextlib import closing
+from datetime import datetime
+from datetime import timedelta
+from datetime import timezone
 from pathlib import Path
 
 from .bead import Bead
 from .box_query import QueryCondition
 from .exceptions import BoxIndexError
 from .meta import InputSpec
+from .tech.timestamp import time_from_timestamp
 from .ziparchive import ZipArchive
 
+UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 
 def create_update_connection(index_path: Path):
     '''Create database connection for updates and ensure schema exists.'''
@@ -125,12 +131,11 @@ def find_file_path(conn, name, content_id):
 
 def timestamp_to_unix_utc_microseconds(timestamp):
     """Convert timestamp to UTC unix microseconds for database storage."""
-    if hasattr(timestamp, 'timestamp'):
-        return int(timestamp.timestamp() * 1_000_000)
-    elif isinstance(timestamp, str):
-        from .tech.timestamp import time_from_timestamp
-        dt = time_from_timestamp(timestamp)
-        return int(dt.timestamp() * 1_000_000)
+    if isinstance(timestamp, str):
+        timestamp = time_from_timestamp(timestamp)
+    if isinstance(timestamp, datetime):
+        # floats are not precise enough for all microseconds
+        return (timestamp - UNIX_EPOCH) // timedelta(microseconds=1)
     return timestamp
 
 
-- 
2.43.0


From 113a8394e202e4f090711c39d4b833ce7aa0e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 06/43] fix: index boxes in directories having #, ? or % in
 their path

These characters have a special meaning in URIs, so another - not existing -
index file was queried, and indexed boxes appeared to be empty.
---
 bead/box_index.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index c3c022c..a9e4686 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -2,12 +2,14 @@
 SQLite-based index for bead storage and retrieval.
 '''
 
+import os
 import sqlite3
 from contextlib import closing
 from datetime import datetime
 from datetime import timedelta
 from datetime import timezone
 from pathlib import Path
+from urllib.parse import quote
 
 from .bead import Bead
 from .box_query import QueryCondition
@@ -32,10 +34,15 @@ def create_update_connection(index_path: Path):
 
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)
+    conn = sqlite3.connect(read_only_uri(index_path), uri=True)
     return closing(conn)
 
 
+def read_only_uri(index_path: Path) -> str:
+    '''SQLite URI for opening index read-only.'''
+    return f'file:{quote(os.fsencode(index_path))}?mode=ro'
+
+
 def create_schema(conn):
     '''Create database schema if it doesn't exist.'''
     conn.execute('''
@@ -234,7 +241,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)):
+        with closing(sqlite3.connect(read_only_uri(index_path), uri=True)):
             pass
         return True
     except Exception:
-- 
2.43.0


From c38bb637d970742a768404028aa56268ab6ce534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 07/43] fix: web graph of beads that are stored in more than
 one boxes

The input links of such a bead were repeated, failing an assertion.
---
 bead_cli/web/sketch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index b66f94a..be0cd80 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -45,7 +45,8 @@ class Sketch:
         edges = tuple(
             itertools.chain.from_iterable(
                 generate_input_edges(bead_index, bead)
-                for bead in beads))
+                # the same bead can be in more than one boxes
+                for bead in tuple(bead_index.values())))
         return cls(tuple(bead_index.values()), edges)
 
     @classmethod
-- 
2.43.0


From f7c3f8cbcdc69c16b6b5a7e48a2fa859de83d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 08/43] fix: query beads and their inputs from the same version
 of the index

Beads without their inputs could be returned, when the index was updated by
another process between the queries.
---
 bead/box_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/box_index.py b/bead/box_index.py
index a9e4686..b7ad5e4 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -192,6 +192,8 @@ def query_beads(conn, conditions, box_name):
         sql += ' WHERE ' + ' AND '.join(where_parts)
     sql += ' ORDER BY freeze_time_unix'
     
+    # beads and their inputs must be from the same version of the index
+    conn.execute('BEGIN')
     cursor = conn.execute(sql, parameters)
     
     beads = []
-- 
2.43.0


From fabdcce321a332d1e4cf686a49a3440f30908fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 09/43] fix: index beads saved while the index of the box is
 being created

The index was not updated by save, if it did not exist when save was started,
so a box index running at the same time could miss the new bead.
---
 bead/box.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/box.py b/bead/box.py
index 7085d41..136cf10 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -450,7 +450,8 @@ class Box:
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
-        # Add to resolver
+        # Add to resolver - the index might have been created since
+        self.resolver = self._create_resolver()
         self.resolver.index_archive_file(zipfilename)
         
         return zipfilename
-- 
2.43.0


From 3ebda4d5e2d00cac58248ab740796c118df8d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 10/43] fix: do not remove the index file during reindex

Searches and other reindex commands running at the same time failed when they
found the index file missing.
---
 bead/box_index.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b7ad5e4..f585121 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -78,6 +78,17 @@ def create_schema(conn):
     conn.commit()
 
 
+def recreate_schema(conn):
+    '''Replace all content with an empty schema.'''
+    problems = [row[0] for row in conn.execute('PRAGMA quick_check')]
+    if problems != ['ok']:
+        raise sqlite3.DatabaseError(problems)
+    conn.execute('BEGIN IMMEDIATE')
+    conn.execute('DROP TABLE IF EXISTS inputs')
+    conn.execute('DROP TABLE IF EXISTS beads')
+    create_schema(conn)
+
+
 def get_indexed_files(conn):
     '''Get set of file paths already in index.'''
     cursor = conn.execute('SELECT file_path FROM beads')
@@ -273,8 +284,12 @@ class BoxIndex:
     
     def rebuild(self):
         '''Rebuild index from scratch by scanning all files.'''
-        if self.index_path.exists():
-            self.index_path.unlink()
+        try:
+            # other processes might be using the index: do not remove it while it is usable
+            with create_update_connection(self.index_path) as conn:
+                recreate_schema(conn)
+        except sqlite3.DatabaseError:
+            self.index_path.unlink(missing_ok=True)
         
         for zip_path in self.box_directory.glob('*.zip'):
             self.index_archive_file(zip_path)
-- 
2.43.0


From 38f36d729c73b2a1e70798c6d1b35acd0aab598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 11/43] fix: find beads by name without an index when the file
 name is unusual

Names having glob special characters were not (or wrongly) found, neither
were files having a short timestamp or none in their names.
---
 bead/box_rawfs.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 6ccce4f..e518bd1 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -7,6 +7,7 @@ from .bead import Bead
 from .box_query import QueryCondition
 from .exceptions import InvalidArchive
 from .ziparchive import ZipArchive
+from .ziparchive import bead_name_from_file_path
 
 Path = tech.fs.Path
 
@@ -38,6 +39,13 @@ def compile_conditions(conditions):
     return match
 
 
+def _is_bead_file_of(path: Path, bead_name: str) -> bool:
+    try:
+        return bead_name_from_file_path(path) == bead_name
+    except ValueError:
+        return False
+
+
 class RawFilesystemResolver:
     """
     Filesystem-based bead resolver with lazy caching.
@@ -56,11 +64,11 @@ class RawFilesystemResolver:
 
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
-        if bead_name:
-            pattern = bead_name + '_????????T????????????[-+]????.zip'
-        else:
-            pattern = '*.zip'
-        return self.box_directory.glob(pattern)
+        # names can contain glob special characters, and the timestamp in file names
+        # is not always a full one: names are to be compared only after parsing
+        for path in self.box_directory.glob('*.zip'):
+            if not bead_name or _is_bead_file_of(path, bead_name):
+                yield path
 
     def get_beads(self, conditions, box_name: str) -> list[Bead]:
         """Retrieve beads matching conditions by scanning filesystem."""
-- 
2.43.0


From cfa07f0a9abe93be21148d174d483a320c4d2603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 12/43] fix: refuse to create or save beads with names that can
 not be used

'__' is not allowed in bead names, thus the saved archive was unusable.
---
 bead/box.py           | 4 ++++
 bead_cli/workspace.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/bead/box.py b/bead/box.py
index 136cf10..a403a5f 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -23,6 +23,7 @@ from .box_query import QueryCondition
 from .box_rawfs import RawFilesystemResolver
 from .exceptions import BoxError
 from .exceptions import InvalidArchive
+from .meta import BeadName
 from .tech.timestamp import time_from_timestamp
 from .ziparchive import ZipArchive
 
@@ -447,6 +448,9 @@ class Box:
         if not self.directory.is_dir():
             raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
         
+        if not BeadName.is_wellformed(workspace.name):
+            raise BoxError(f'Invalid bead name "{workspace.name}"')
+
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 98de29d..4eca448 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -5,6 +5,7 @@ from bead import layouts
 from bead import tech
 from bead.exceptions import BoxError
 from bead.exceptions import InvalidArchive
+from bead.meta import BeadName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -37,6 +38,7 @@ def assert_may_be_valid_name(name):
         and '/' not in name
         and '\\' not in name
         and ':' not in name
+        and BeadName.is_wellformed(name)
     )
     if not valid_syntax:
         die(f'Invalid name "{name}"')
-- 
2.43.0


From 1344fcb5174b16d00346c787c69908fcad911679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 13/43] fix: refuse to add inputs with malformed names

They were recorded in the metadata of the workspace, which then could not be
read by any of the commands.
---
 bead_cli/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 199683f..06ad03e 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -4,6 +4,7 @@ from typing import TYPE_CHECKING
 from bead.box import resolve
 from bead.box import search
 from bead.exceptions import InvalidArchive
+from bead.meta import InputName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -67,7 +68,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if os.path.dirname(input_nick):
+        if os.path.dirname(input_nick) or not InputName.is_wellformed(input_nick):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
-- 
2.43.0


From 415964d068cdd6b0b7dfac5acbcfa9b9041a7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 14/43] fix: zip files with malformed names are not beads

Having a file with such a name in a box made all beads of the box unusable.
---
 bead/ziparchive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 9ccf20a..0cbd7ff 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -30,7 +30,10 @@ class ZipArchive(Archive):
     def __init__(self, filename, box_name=''):
         self.archive_filename = filename
         self.box_name = box_name
-        self.name = bead_name_from_file_path(filename)
+        try:
+            self.name = bead_name_from_file_path(filename)
+        except ValueError as e:
+            raise InvalidArchive(filename) from e
         self._meta = self._load_meta()
         self._content_id = None
 
-- 
2.43.0


From 0060bc5821bd212cc4f9eea23df2b90b3f730c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 15/43] fix: ignore all kinds of improper zip files in boxes

E.g. those having malformed metadata, or without a manifest.
They made all beads of the box unusable (without an index).
---
 bead/box_rawfs.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index e518bd1..e94842a 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -99,14 +99,19 @@ class RawFilesystemResolver:
                 # Cache the archive as we process it
                 bead = self._bead_from_archive(archive)
                 self._cache_bead_and_path(bead, path)
-            except InvalidArchive:
+            except Exception:
+                # not a (usable) bead, see _bead_from_archive
                 # TODO: log/report problem
                 pass
             else:
                 yield archive
 
     def _bead_from_archive(self, archive: Archive) -> Bead:
-        """Create a Bead instance from Archive metadata."""
+        """
+        Create a Bead instance from Archive metadata.
+
+        Anything can be raised when the archive is not a proper bead.
+        """
         bead = Bead()
         bead.kind = archive.kind
         bead.name = archive.name
@@ -114,6 +119,8 @@ class RawFilesystemResolver:
         bead.content_id = archive.content_id
         bead.freeze_time_str = archive.freeze_time_str
         bead.box_name = archive.box_name
+        if not (isinstance(bead.kind, str) and bead.freeze_time):
+            raise InvalidArchive(archive.location)
         return bead
 
     def get_file_path(self, name: str, content_id: str) -> Path:
@@ -128,13 +135,14 @@ class RawFilesystemResolver:
         for path in self._glob_bead_files(name):
             try:
                 archive = ZipArchive(path, box_name='')
-                if archive.name == name and archive.content_id == content_id:
-                    # Cache the successful lookup
-                    bead = self._bead_from_archive(archive)
-                    self._cache_bead_and_path(bead, path)
-                    return path
-            except InvalidArchive:
+                bead = self._bead_from_archive(archive)
+            except Exception:
+                # not a (usable) bead, see _bead_from_archive
                 continue
+            if bead.name == name and bead.content_id == content_id:
+                # Cache the successful lookup
+                self._cache_bead_and_path(bead, path)
+                return path
 
         raise LookupError(f"Bead not found: name='{name}', content_id='{content_id}'")
 
@@ -145,6 +153,6 @@ class RawFilesystemResolver:
             bead = self._bead_from_archive(archive)
             # Cache the new bead and its path
             self._cache_bead_and_path(bead, archive_path)
-        except InvalidArchive:
+        except Exception:
             # Skip invalid archives
             pass
-- 
2.43.0


From 689c0dba8c5ae87cb499bf34b0e00e8cd770e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 16/43] fix: report every kind of damage as an invalid archive

Depending on the place of the damage various exceptions could escape.
---
 bead/ziparchive.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 0cbd7ff..3af555d 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -61,8 +61,13 @@ class ZipArchive(Archive):
             - has freezed name
             - has inputs (even if empty)
         '''
-        if not all(self._checks()):
-            raise InvalidArchive
+        try:
+            valid = all(self._checks())
+        except Exception as e:
+            # can be anything: zlib.error, KeyError, UnicodeDecodeError, EOFError, ...
+            raise InvalidArchive(self.archive_filename) from e
+        if not valid:
+            raise InvalidArchive(self.archive_filename)
 
     def _checks(self):
         yield self._has_well_formed_meta()
-- 
2.43.0


From 4f9f160457bc63ec9b6d3351e47a78de1365a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 17/43] fix: report damaged or missing beads as errors in edit,
 input add & update

instead of failing with an unexpected exception.
---
 bead/ziparchive.py    | 11 +++++++----
 bead_cli/input.py     | 16 +++++++++++-----
 bead_cli/workspace.py |  2 ++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 3af555d..345ccea 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -126,10 +126,13 @@ class ZipArchive(Archive):
     def calculate_content_id(self):
         # there is currently only one meta version
         # and it must match the one defined in the workspace module
-        assert self._meta[meta.META_VERSION] == 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'
-        zipinfo = self.zipfile.getinfo(layouts.Archive.MANIFEST)
-        with self.zipfile.open(zipinfo) as f:
-            return securehash.file(f, zipinfo.file_size)
+        try:
+            assert self._meta[meta.META_VERSION] == 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'
+            zipinfo = self.zipfile.getinfo(layouts.Archive.MANIFEST)
+            with self.zipfile.open(zipinfo) as f:
+                return securehash.file(f, zipinfo.file_size)
+        except Exception as e:
+            raise InvalidArchive(self.archive_filename) from e
 
     @property
     def meta_version(self):
diff --git a/bead_cli/input.py b/bead_cli/input.py
index 06ad03e..70c1e5d 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -78,6 +78,8 @@ class CmdAdd(Command):
             bead = resolve_bead(env, bead_ref_base, args.bead_time)
         except LookupError:
             die(f'Not a known bead name: {bead_ref_base}')
+        except InvalidArchive:
+            die(f'Bead is damaged: {bead_ref_base}')
 
         _check_load_with_feedback(workspace, args.input_nick, bead)
 
@@ -169,15 +171,19 @@ class CmdUpdate(Command):
                 archive = resolve(boxes, bead)
             except LookupError:
                 die(f'Could not find bead for "{input.name}"')
+            except InvalidArchive:
+                die(f'Bead for "{input.name}" is damaged')
         else:
             # path or new bead by name - same as input add, edit
             if args.bead_offset:
                 die('--prev/--next is not supported when an input is replaced with another bead')
-            archive = resolve_bead(env, bead_ref_base, args.bead_time)
-        if archive:
-            _update_input(workspace, input, archive)
-        else:
-            die('Can not find matching bead')
+            try:
+                archive = resolve_bead(env, bead_ref_base, args.bead_time)
+            except LookupError:
+                die(f'Not a known bead name: {bead_ref_base}')
+            except InvalidArchive:
+                die(f'Bead is damaged: {bead_ref_base}')
+        _update_input(workspace, input, archive)
 
 
 def _update_input(workspace, input, archive):
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 4eca448..f14b9fc 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -146,6 +146,8 @@ class CmdEdit(Command):
             bead = resolve_bead(env, args.bead_ref_base, args.bead_time)
         except LookupError:
             die('Bead not found!')
+        except InvalidArchive:
+            die('Bead is damaged')
         try:
             verify_with_feedback(bead)
         except InvalidArchive:
-- 
2.43.0


From e4be3e58101a28c588a2f4d403333bdb471fc9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 18/43] fix: load and update the other inputs when the bead of
 one is damaged

For loading a copy from another box can also be used.
---
 bead_cli/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 70c1e5d..72f98c7 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -139,6 +139,8 @@ class CmdUpdate(Command):
                         + f' no other candidate found ({input.freeze_time})')
                 else:
                     warning(f'Could not find bead for "{input.name}"')
+            except (InvalidArchive, ValueError):
+                warning(f'Bead for "{input.name}" is damaged - not updating.')
             else:
                 _update_input(workspace, input, archive)
         print('All inputs are up to date.')
@@ -235,7 +237,7 @@ def _load(env, workspace, input):
                 bead = box.search().by_content_id(content_id).first()
                 archive = box.resolve(bead)
                 break
-            except LookupError:
+            except (LookupError, InvalidArchive, ValueError):
                 continue
         if archive is None:
             warning(f'Could not find bead for input "{input.name}" - not loaded!')
-- 
2.43.0


From d34315cda083168f43207af3671c957361f6ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 19/43] fix: refuse to unpack archives that would write to
 unexpected places

E.g. members like code/../../file, code/.bead-meta/bead, or an input named
../code
---
 bead/ziparchive.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 345ccea..8d4cbeb 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -60,6 +60,8 @@ class ZipArchive(Archive):
             - has freeze time
             - has freezed name
             - has inputs (even if empty)
+        - unpacking creates files only below the directory unpacked to, and
+          code is not mixed with the special directories of workspaces
         '''
         try:
             valid = all(self._checks())
@@ -71,7 +73,9 @@ class ZipArchive(Archive):
 
     def _checks(self):
         yield self._has_well_formed_meta()
+        yield self._has_usable_inputs()
         yield self._bead_creation_time_is_in_the_past()
+        yield self._file_with_unsafe_name() is None
         yield self._extra_file() is None
         yield self._file_with_different_content_id() is None
 
@@ -79,6 +83,24 @@ class ZipArchive(Archive):
         meta = self.meta
         return all(key in meta for key in META_KEYS)
 
+    def _has_usable_inputs(self):
+        # raises exception for the malformed ones
+        return all(input.freeze_time for input in self.inputs)
+
+    def _file_with_unsafe_name(self):
+        workspace_dirs = {
+            path.as_posix()
+            for path in (
+                layouts.Workspace.INPUT, layouts.Workspace.OUTPUT,
+                layouts.Workspace.TEMP, layouts.Workspace.META)}
+        for name in self.zipfile.namelist():
+            top, *path = name.split('/')
+            if top == layouts.Archive.CODE and path and path[0] in workspace_dirs:
+                return name
+            if top in (layouts.Archive.CODE, layouts.Archive.DATA):
+                if any(part in ('', os.curdir, os.pardir) for part in path):
+                    return name
+
     def _bead_creation_time_is_in_the_past(self):
         read_time = timestamp.time_from_timestamp
         now = read_time(timestamp.timestamp())
-- 
2.43.0


From 4305ffca77385f59c5a72f68ac90696281bffe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 20/43] fix: archives under their final name are always
 complete

Other processes could see and index half-written archives, and a crash left
them in the box.
---
 bead/workspace.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 0a441b5..a1b213e 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -115,11 +115,14 @@ class Workspace(Bead):
         '''
         zipfilename = fs.Path(zipfilename)
         assert not zipfilename.exists()
+        # incomplete archives must not be seen by others, or left behind on a crash
+        temp_filename = zipfilename.with_suffix('.tmp')
         try:
-            _ZipCreator().create(zipfilename, self, freeze_time, comment)
-        except (RuntimeError, Exception):
-            if zipfilename.exists():
-                zipfilename.unlink()
+            _ZipCreator().create(temp_filename, self, freeze_time, comment)
+            os.replace(temp_filename, zipfilename)
+        except BaseException:
+            if temp_filename.exists():
+                temp_filename.unlink()
             raise
 
     def has_input(self, input_nick):
-- 
2.43.0


From 72605829310b2d2681335a48b0d5d8d97f9c595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 21/43] fix: do not lose the box list or workspace metadata on
 a crash

Both files were truncated before being written.
---
 bead/tech/persistence.py | 18 ++++++++++++++++--
 bead/workspace.py        |  4 +---
 bead_cli/environment.py  |  3 +--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 81e21a0..8f341fa 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -4,6 +4,8 @@ Functions to persist python structures or load them.
 
 import io
 import json
+import os
+import shutil
 
 # json is used for serializing objects for persistence as it is
 # - in the standard library from >=2.6 (including 3.*)
@@ -55,5 +57,17 @@ def file_load(path):
 
 
 def file_dump(content, path):
-    with open(path, 'w') as f:
-        dump(content, f)
+    # write in full before replacing the original, so that even a crash
+    # or a full disk can not result in partial content
+    path = os.path.realpath(path)
+    temp_path = f'{path}.{os.getpid()}.tmp'
+    try:
+        with open(temp_path, 'w') as f:
+            dump(content, f)
+        if os.path.exists(path):
+            shutil.copymode(path, temp_path)
+        os.replace(temp_path, path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.unlink(temp_path)
+        raise
diff --git a/bead/workspace.py b/bead/workspace.py
index a1b213e..f4073ad 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -94,9 +94,7 @@ class Workspace(Bead):
         bead_meta = {
             meta.KIND: kind,
             meta.INPUTS: {}}
-        fs.write_file(
-            dir / layouts.Workspace.BEAD_META,
-            persistence.dumps(bead_meta))
+        self.meta = bead_meta
 
         assert self.is_valid
 
diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index 93e4262..cdfabd7 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -35,8 +35,7 @@ class Environment:
             self._content = persistence.load(f)
 
     def save(self):
-        with open(self.filename, 'w') as f:
-            persistence.dump(self._content, f)
+        persistence.file_dump(self._content, self.filename)
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0


From 94922bde26614af6a15bfe40aaf1f8685c99e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 22/43] fix: partially loaded or unloaded inputs were taken as
 loaded

When loading (or unloading) is interrupted, then the directory of the input
is either complete or does not exist at all.
---
 bead/tech/fs.py   |  5 +++++
 bead/workspace.py | 33 +++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index e0ecac6..92aa530 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -65,3 +65,8 @@ def rmtree(root: Path, *args, **kwargs):
         if not os.path.islink(path):
             make_writable(path)
     shutil.rmtree(root, *args, **kwargs)
+
+
+def rmtree_if_exists(root: Path):
+    if os.path.exists(root):
+        rmtree(root)
diff --git a/bead/workspace.py b/bead/workspace.py
index f4073ad..a49043b 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -21,6 +21,11 @@ fs = tech.fs
 META_VERSION = 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'
 
 
+# temporary directories under input, these are not valid input names
+_LOADING = '__loading__'
+_UNLOADING = '__unloading__'
+
+
 class Workspace(Bead):
 
     directory: fs.Path
@@ -156,14 +161,22 @@ class Workspace(Bead):
         '''
         input_dir = self.directory / layouts.Workspace.INPUT
         fs.make_writable(input_dir)
+        # loaded is the same as having the directory of the input: it must appear only
+        # when all the files are unpacked and metadata is describing them
+        temp_dir = input_dir / _LOADING
         try:
-            self.add_input(
-                input_nick,
-                archive.kind, archive.content_id, archive.freeze_time_str)
-            destination_dir = input_dir / input_nick
-            archive.unpack_data_to(destination_dir)
-            for f in fs.all_subpaths(destination_dir):
-                fs.make_readonly(f)
+            fs.rmtree_if_exists(temp_dir)
+            try:
+                archive.unpack_data_to(temp_dir)
+                for f in fs.all_subpaths(temp_dir):
+                    fs.make_readonly(f)
+                self.add_input(
+                    input_nick,
+                    archive.kind, archive.content_id, archive.freeze_time_str)
+                os.rename(temp_dir, input_dir / input_nick)
+            except BaseException:
+                fs.rmtree_if_exists(temp_dir)
+                raise
         finally:
             fs.make_readonly(input_dir)
 
@@ -174,8 +187,12 @@ class Workspace(Bead):
         assert self.has_input(input_nick)
         input_dir = self.directory / layouts.Workspace.INPUT
         fs.make_writable(input_dir)
+        temp_dir = input_dir / _UNLOADING
         try:
-            fs.rmtree(input_dir / input_nick)
+            fs.rmtree_if_exists(temp_dir)
+            # a partially removed input must not be seen as a loaded one
+            os.rename(input_dir / input_nick, temp_dir)
+            fs.rmtree(temp_dir)
         finally:
             fs.make_readonly(input_dir)
 
-- 
2.43.0


From 87ebaa4d09fa75f703345e24e0c9c2112801bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 23/43] fix: remove directories without read or search
 permission

Also do not change anything behind a symbolic link.
---
 bead/tech/fs.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index 92aa530..0c444e7 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -61,9 +61,16 @@ def all_subpaths(dir: Path, followlinks=False):
 
 
 def rmtree(root: Path, *args, **kwargs):
-    for path in all_subpaths(root, followlinks=False):
-        if not os.path.islink(path):
-            make_writable(path)
+    if os.path.isdir(root) and not os.path.islink(root):
+        # directories must be accessible to be able to see their content
+        os.chmod(root, os.stat(root)[stat.ST_MODE] | stat.S_IRWXU)
+        for dir, subdirs, files in os.walk(root, followlinks=False):
+            for name in subdirs + files:
+                path = os.path.join(dir, name)
+                if not os.path.islink(path):
+                    mode = os.stat(path)[stat.ST_MODE]
+                    access = stat.S_IRWXU if stat.S_ISDIR(mode) else stat.S_IWRITE
+                    os.chmod(path, mode | access)
     shutil.rmtree(root, *args, **kwargs)
 
 
-- 
2.43.0


From e38ba6764f99b28662a7a311087d9e92bb3b7363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 24/43] fix: web commands can follow view

They got no graph to work with.
---
 bead_cli/web/commands.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index 4fd113b..df2f11e 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -192,6 +192,7 @@ class View(ProcessorWithFileName):
     def __call__(self, sketch):
         print(f"Viewing {self.file_name}")
         webbrowser.open(self.file_name.as_posix())
+        return sketch
 
 
 class Filter(SketchProcessor):
-- 
2.43.0


From bd862774a933f968c168d98f4d535841e1270219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 25/43] fix: escape backslashes in DOT output

They can be in input names, and made the output malformed.
---
 bead_cli/web/graphviz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index b7016ca..2d086cc 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -27,7 +27,7 @@ digraph {{
 
 
 def node_cluster(bead):
-    id = bead.name.replace('"', '\\"')
+    id = bead.name.replace('\\', '\\\\').replace('"', '\\"')
     return f'"cluster_{id}"'
 
 
@@ -113,7 +113,7 @@ class Context:
         after_label = [dest]
         silent_helper_nodes = []
         color = bead_color(bead_src) if not is_auxiliary_edge else 'grey90'
-        label = html.escape(name)
+        label = html.escape(name).replace('\\', '\\\\')
 
         # add auxiliary nodes before label
         for _ in range(4):
-- 
2.43.0


From fd7a6925e09208ad990cf007ca271d81dcf9b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 26/43] fix: inaccessible box directories made all boxes
 unusable

---
 bead/box_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index f585121..6348301 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -246,8 +246,8 @@ def load_bead_inputs(conn, name, content_id):
 
 def index_path_exists(box_directory: Path) -> bool:
     """Check if SQLite index file exists in box directory."""
-    index_path = box_directory / '.index.sqlite'
-    return index_path.exists()
+    # Path.exists() raises PermissionError for inaccessible directories
+    return os.path.exists(box_directory / '.index.sqlite')
 
 
 def can_read_index(box_directory: Path) -> bool:
-- 
2.43.0


From 7cf9331eb9303d7730ef38395fb7a9b5dcdf5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 27/43] fix: record the resolved location for the automatically
 created box

The same as it is done for explicitly added ones, so that locations are unique.
---
 bead_cli/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index f14b9fc..ce183e2 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -100,7 +100,7 @@ class CmdSave(Command):
                 beadbox = tech.fs.Path(os.path.expanduser('~/BeadBox'))
                 info(f'Creating and using a new one with name `home` and location {beadbox}')
                 tech.fs.ensure_directory(beadbox)
-                env.add_box('home', beadbox)
+                env.add_box('home', beadbox.resolve())
                 env.save()
                 # continue with newly created box
                 boxes = env.get_boxes()
-- 
2.43.0


From 793aa74837ecc0e9b28a5ecd6b5085a8e783af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 28/43] fix: an archive without a content id is invalid

The damage was found only after the archive was successfully verified.
---
 bead/ziparchive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 8d4cbeb..655a965 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -78,6 +78,7 @@ class ZipArchive(Archive):
         yield self._file_with_unsafe_name() is None
         yield self._extra_file() is None
         yield self._file_with_different_content_id() is None
+        yield self._has_content_id()
 
     def _has_well_formed_meta(self):
         meta = self.meta
@@ -135,6 +136,10 @@ class ZipArchive(Archive):
             if hash != archived_hash:
                 return name
 
+    def _has_content_id(self):
+        # raises exception when it can not be determined
+        return bool(self.content_id)
+
     @property
     def manifest(self):
         return self.zip_load(layouts.Archive.MANIFEST)
-- 
2.43.0


From 0b82501bfeb827c2c8e23ebd484d148a241a1ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 29/43] fix: report damaged files given to input update as such

instead of failing with an unexpected exception.
---
 bead_cli/input.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 72f98c7..29551aa 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -189,7 +189,12 @@ class CmdUpdate(Command):
 
 
 def _update_input(workspace, input, archive):
-    if workspace.is_loaded(input.name) and input.content_id == archive.content_id:
+    try:
+        is_same_content = input.content_id == archive.content_id
+    except InvalidArchive:
+        warning(f'Bead for {input.name} is found but damaged - not loading.')
+        return
+    if workspace.is_loaded(input.name) and is_same_content:
         assert input.kind == archive.kind
         assert input.freeze_time == archive.freeze_time
         print(
-- 
2.43.0


From 7931e288c354b3d6958b5fbd01a9fd642cd823aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 30/43] fix: do not take an unreadable box list for an empty
 one

---
 bead_cli/environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index cdfabd7..a5527b0 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -23,8 +23,11 @@ class Environment:
     def __init__(self, filename: Path):
         self.filename = filename
         self._content = {}
-        if os.path.exists(self.filename):
+        try:
             self.load()
+        except FileNotFoundError:
+            # no boxes yet - any other error must not be taken for having no boxes
+            pass
 
     @classmethod
     def from_dir(cls, directory):
-- 
2.43.0


From e7fe843fd00f085f094f3c6e0e40b536f01e5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 31/43] fix: never load data into the leftovers of an
 interrupted load

---
 bead/tech/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index 0c444e7..a1a4717 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -75,5 +75,8 @@ def rmtree(root: Path, *args, **kwargs):
 
 
 def rmtree_if_exists(root: Path):
-    if os.path.exists(root):
+    # exists() is False also when it can not be determined
+    try:
         rmtree(root)
+    except FileNotFoundError:
+        pass
-- 
2.43.0


From f52450f2b2707481c10a38b90e5816314c8e4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 32/43] fix: do not leave parts of an input writable when a
 directory can not be read

---
 bead/tech/fs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index a1a4717..2ef7255 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -53,7 +53,11 @@ def make_writable(path: Path):
 
 
 def all_subpaths(dir: Path, followlinks=False):
-    for root, _dirs, files in os.walk(dir, followlinks=followlinks):
+    def fail(error):
+        raise error
+
+    # by default unreadable directories are silently skipped
+    for root, _dirs, files in os.walk(dir, onerror=fail, followlinks=followlinks):
         root = Path(root)
         yield root
         for file in files:
-- 
2.43.0


From 96c3472470ca3dcc113bf8e11e2060ece6a2848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 33/43] fix: reindex left the box without an index when it was
 corrupt and nothing could be indexed

---
 bead/box_index.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead/box_index.py b/bead/box_index.py
index 6348301..d2d9c4f 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -290,6 +290,7 @@ class BoxIndex:
                 recreate_schema(conn)
         except sqlite3.DatabaseError:
             self.index_path.unlink(missing_ok=True)
+            ensure_index(self.box_directory)
         
         for zip_path in self.box_directory.glob('*.zip'):
             self.index_archive_file(zip_path)
-- 
2.43.0


From f59af8ca8d2484eab348c1e2ef42cdb7a313fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 34/43] fix: do not resolve a bead to its damaged copy when
 there is a good one

---
 bead/box_rawfs.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index e94842a..d13b9f6 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -46,6 +46,14 @@ def _is_bead_file_of(path: Path, bead_name: str) -> bool:
         return False
 
 
+def _is_valid_archive(path: Path) -> bool:
+    try:
+        ZipArchive(path).validate()
+    except InvalidArchive:
+        return False
+    return True
+
+
 class RawFilesystemResolver:
     """
     Filesystem-based bead resolver with lazy caching.
@@ -54,13 +62,15 @@ class RawFilesystemResolver:
     def __init__(self, box_directory: Path):
         self.box_directory = Path(box_directory)
         self._bead_cache = {}  # (name, content_id) -> Bead
-        self._path_cache = {}  # (name, content_id) -> Path
+        self._path_cache = {}  # (name, content_id) -> list of Paths
 
     def _cache_bead_and_path(self, bead: Bead, path: Path) -> None:
         """Cache both bead and path for given bead."""
         key = (bead.name, bead.content_id)
         self._bead_cache[key] = bead
-        self._path_cache[key] = path
+        paths = self._path_cache.setdefault(key, [])
+        if path not in paths:
+            paths.append(path)
 
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
@@ -128,23 +138,20 @@ class RawFilesystemResolver:
         key = (name, content_id)
 
         # Check cache first
-        if key in self._path_cache:
-            return self._path_cache[key]
-
-        # Search filesystem and cache result
-        for path in self._glob_bead_files(name):
-            try:
-                archive = ZipArchive(path, box_name='')
-                bead = self._bead_from_archive(archive)
-            except Exception:
-                # not a (usable) bead, see _bead_from_archive
-                continue
-            if bead.name == name and bead.content_id == content_id:
-                # Cache the successful lookup
-                self._cache_bead_and_path(bead, path)
-                return path
+        if key not in self._path_cache:
+            # Search filesystem and cache result
+            for _ in self._archives_from(self._glob_bead_files(name), box_name=''):
+                pass
 
-        raise LookupError(f"Bead not found: name='{name}', content_id='{content_id}'")
+        paths = self._path_cache.get(key)
+        if not paths:
+            raise LookupError(f"Bead not found: name='{name}', content_id='{content_id}'")
+        if len(paths) > 1:
+            # some of the copies might be damaged
+            for path in paths:
+                if _is_valid_archive(path):
+                    return path
+        return paths[0]
 
     def index_archive_file(self, archive_path: Path) -> None:
         """Add archive file to resolver cache."""
-- 
2.43.0


From 88df204353f9c8e1e5cb91cb43d5b8ffd33236d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 35/43] fix: times with any character in place of the decimal
 point were accepted

---
 bead/tech/timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index a67f4d9..d8c7295 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -142,7 +142,7 @@ _ISO8601_PARSERS = [
         '{YEAR}-{MONTH}-{DAY}',
         '{YEAR}{MONTH}{DAY}T{HOUR}{MINUTE}{SECOND}{TIMEZONE}',
         '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}{TIMEZONE}',
-        '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}.{MICROSEC}{TIMEZONE}',
+        r'{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}\.{MICROSEC}{TIMEZONE}',
     )]
 
 
-- 
2.43.0


From 87eb4be1af3efe9e2edfb2fe484b448233a1cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 36/43] fix: a box below an inaccessible directory does not
 block searches

---
 bead/box_rawfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index d13b9f6..42dedb4 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -1,3 +1,4 @@
+import os
 from typing import Iterable
 from typing import Iterator
 
@@ -74,6 +75,9 @@ class RawFilesystemResolver:
 
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
+        # Path methods raise PermissionError when the box is below an inaccessible directory
+        if not os.path.isdir(self.box_directory):
+            return
         # names can contain glob special characters, and the timestamp in file names
         # is not always a full one: names are to be compared only after parsing
         for path in self.box_directory.glob('*.zip'):
-- 
2.43.0


From 793bfc23ba27e5133fac09a81f1fda9b43ea8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 37/43] fix: beads were damaged when files of the workspace
 changed while saving

The archived content and its hash were read separately.
---
 bead/workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index a49043b..5e820c0 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -233,9 +233,11 @@ class _ZipCreator:
     def add_file(self, path, zip_path: str):
         assert self.zipfile
         self.zipfile.write(path, zip_path)
+        # the file might have been changed since it was read
+        info = self.zipfile.getinfo(zip_path)
         self.add_hash(
             zip_path,
-            securehash.file(open(path, 'rb'), os.path.getsize(path)))
+            securehash.file(self.zipfile.open(info), info.file_size))
 
     def add_path(self, path, zip_path):
         if os.path.isdir(path):
-- 
2.43.0


From f476c359b01494b418b0418d586afcba1340a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 38/43] fix: named pipes and devices in boxes blocked every
 command

---
 bead/zipopener.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bead/zipopener.py b/bead/zipopener.py
index e4a324e..8fa15e5 100644
--- a/bead/zipopener.py
+++ b/bead/zipopener.py
@@ -10,6 +10,7 @@ run ~4% faster (5.14 -> 4.94 = 0.2s faster).
 """
 
 import atexit
+import os
 from typing import Dict
 from typing import Tuple
 from zipfile import BadZipFile
@@ -34,6 +35,9 @@ class OpenZipLRUCache:
         if filename not in self.open_zip_files:
             if len(self.open_zip_files) == self.max_size:
                 self.close(self.least_recently_used_filename)
+            if os.path.exists(filename) and not os.path.isfile(filename):
+                # opening a named pipe would block until somebody writes to it
+                raise BadZipFile(f'Not a regular file: {filename}')
             self.open_zip_files[filename] = ZipFile(filename)
 
         self.access(filename)
-- 
2.43.0


From fe8523a8fece83dd3c594257f0d000867589e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 39/43] fix: box index and reindex report failures instead of
 claiming success

Not being able to write the index, or to read the directory, was silently
ignored - the latter even removed all beads from the index.
---
 bead/box.py       |  7 ++++++-
 bead/box_index.py | 25 ++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/bead/box.py b/bead/box.py
index a403a5f..bfc3f34 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -22,6 +22,7 @@ from .box_index import index_path_exists, can_read_index, BoxIndex
 from .box_query import QueryCondition
 from .box_rawfs import RawFilesystemResolver
 from .exceptions import BoxError
+from .exceptions import BoxIndexError
 from .exceptions import InvalidArchive
 from .meta import BeadName
 from .tech.timestamp import time_from_timestamp
@@ -456,7 +457,11 @@ class Box:
         
         # Add to resolver - the index might have been created since
         self.resolver = self._create_resolver()
-        self.resolver.index_archive_file(zipfilename)
+        try:
+            self.resolver.index_archive_file(zipfilename)
+        except BoxIndexError:
+            # the bead is stored, and the index can be updated later
+            pass
         
         return zipfilename
 
diff --git a/bead/box_index.py b/bead/box_index.py
index d2d9c4f..0e15e72 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -261,6 +261,12 @@ def can_read_index(box_directory: Path) -> bool:
         return False
 
 
+def archive_paths(box_directory: Path) -> list[Path]:
+    """Potential archives in box directory."""
+    # Path.glob() finds nothing in directories that can not be read
+    return [box_directory / name for name in os.listdir(box_directory) if name.endswith('.zip')]
+
+
 def ensure_index(box_directory: Path) -> bool:
     """Ensure SQLite index exists, creating it if necessary."""
     try:
@@ -290,9 +296,10 @@ class BoxIndex:
                 recreate_schema(conn)
         except sqlite3.DatabaseError:
             self.index_path.unlink(missing_ok=True)
-            ensure_index(self.box_directory)
+            with create_update_connection(self.index_path):
+                pass
         
-        for zip_path in self.box_directory.glob('*.zip'):
+        for zip_path in archive_paths(self.box_directory):
             self.index_archive_file(zip_path)
     
     def sync(self):
@@ -303,7 +310,7 @@ class BoxIndex:
 
             # Get current files in directory
             current_files = set()
-            for archive_path in self.box_directory.glob('*.zip'):
+            for archive_path in archive_paths(self.box_directory):
                 relative_path = archive_path.relative_to(self.box_directory)
                 current_files.add(str(relative_path))
                 
@@ -316,8 +323,8 @@ class BoxIndex:
             for file_path in orphaned_files:
                 orphaned_archive_path = self.box_directory / file_path
                 self.unindex_archive_file(orphaned_archive_path)
-        except Exception:
-            pass
+        except Exception as e:
+            raise BoxIndexError(f"Failed to update index: {e}")
     
     def index_archive_file(self, archive_path: Path):
         '''Add single bead to index.'''
@@ -335,6 +342,12 @@ class BoxIndex:
                     insert_input_record(conn, archive.name, archive.content_id, input_spec)
                 
                 conn.commit()
+        except (sqlite3.DataError, sqlite3.IntegrityError, sqlite3.ProgrammingError):
+            # values in the archive can not be stored in the index
+            pass
+        except sqlite3.Error as e:
+            # not a problem of the archive: the index is damaged, read-only, disk is full, ...
+            raise BoxIndexError(f"Failed to update index: {e}")
         except Exception:
             pass
     
@@ -346,6 +359,8 @@ class BoxIndex:
             with create_update_connection(self.index_path) as conn:
                 delete_bead_record(conn, str(relative_path))
                 conn.commit()
+        except sqlite3.Error as e:
+            raise BoxIndexError(f"Failed to update index: {e}")
         except Exception:
             pass
     
-- 
2.43.0


From 46b33fb1281e9d36180de689613763a2e40435d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 40/43] fix: show characters unknown to the output encoding
 escaped instead of failing

With e.g. a Latin-1 terminal commands failed half way, or after all
work was done, when a name (or just the tick of `box index`) could not be
encoded.
---
 bead_cli/main.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bead_cli/main.py b/bead_cli/main.py
index 5b4f62a..021abd0 100644
--- a/bead_cli/main.py
+++ b/bead_cli/main.py
@@ -1,6 +1,7 @@
 # PYTHON_ARGCOMPLETE_OK
 from collections.abc import Sequence
 import importlib.metadata
+import io
 import os
 import subprocess
 import sys
@@ -138,7 +139,19 @@ def is_existing_cwd():
         return False
 
 
+def show_all_characters():
+    """
+    Show characters unknown to the encoding of the output as escape sequences.
+
+    The default is to fail: half way, or when all work is done.
+    """
+    for stream in (sys.stdout, sys.stderr):
+        if isinstance(stream, io.TextIOWrapper) and stream.errors == 'strict':
+            stream.reconfigure(errors='backslashreplace')
+
+
 def main(run=run):
+    show_all_characters()
     if not is_existing_cwd():
         print(
             'ERROR: Current working directory is non-functional.\n'
-- 
2.43.0


From 05a19210f282365362a24c26f1c61c551f306d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 41/43] fix: help must not fail in directories with % in their
 name

---
 bead_cli/cmdparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bead_cli/cmdparse.py b/bead_cli/cmdparse.py
index 84d4b34..28a3fca 100644
--- a/bead_cli/cmdparse.py
+++ b/bead_cli/cmdparse.py
@@ -134,9 +134,9 @@ class Parser:
         else:
             arg_kwargs = dict(kwargs)
             if 'default' in kwargs:
-                # extend help with default
-                arg_kwargs['help'] = (
-                    f"{kwargs.get('help', '')} (default: {kwargs['default']!s})")
+                # extend help with default - % would be a format specifier in it
+                default = str(kwargs['default']).replace('%', '%%')
+                arg_kwargs['help'] = f"{kwargs.get('help', '')} (default: {default})"
             self.argparser.add_argument(*args, **arg_kwargs)
 
     def command(self, name: str, commandish: Command | type[Command], title: str) -> None:
-- 
2.43.0


From 380e3f10cc7fd8b91d127c28642ec60a07b838d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 42/43] fix: refuse bead and input names that are not text

They were saved, but can not be indexed, so the beads were not found.
---
 bead/meta.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bead/meta.py b/bead/meta.py
index f36faf8..e84fbb0 100644
--- a/bead/meta.py
+++ b/bead/meta.py
@@ -54,9 +54,21 @@ class ValidatingStr(str):
         raise NotImplementedError
 
 
+def is_text(string: str) -> bool:
+    # file names that can not be decoded have surrogate characters
+    # - these can not be indexed, or stored as file name in archives
+    try:
+        string.encode('utf-8')
+    except UnicodeEncodeError:
+        return False
+    return True
+
+
 class BeadName(ValidatingStr):
     @classmethod
     def is_wellformed(cls, string: str) -> bool:
+        if not is_text(string):
+            return False
         # check, that string can be a path in current directory
         return string not in ('', '.', '..') and '/' not in string and '__' not in string
 
-- 
2.43.0


From f2b6e3ea7b933533d25a3574d2e00c0aa5db3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 43/43] fix: show characters unknown to the output encoding
 escaped in the C locale, too

---
 bead_cli/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead_cli/main.py b/bead_cli/main.py
index 021abd0..18b173e 100644
--- a/bead_cli/main.py
+++ b/bead_cli/main.py
@@ -1,4 +1,5 @@
 # PYTHON_ARGCOMPLETE_OK
+import codecs
 from collections.abc import Sequence
 import importlib.metadata
 import io
@@ -146,7 +147,10 @@ def show_all_characters():
     The default is to fail: half way, or when all work is done.
     """
     for stream in (sys.stdout, sys.stderr):
-        if isinstance(stream, io.TextIOWrapper) and stream.errors == 'strict':
+        # (surrogateescape, the default in the C locale, fails for all but undecodable characters)
+        if isinstance(stream, io.TextIOWrapper) and (
+                stream.errors == 'strict' or
+                stream.errors == 'surrogateescape' and codecs.lookup(stream.encoding).name != 'utf-8'):
             stream.reconfigure(errors='backslashreplace')
 
 
-- 
2.43.0

