From 8748da6131e2bbd36c495c036b9b11a998661d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 01/68] fix: replace files atomically in rewrite and add_rows

The temporary file was created in the default temporary directory, so that the final move degraded to
a copy when this directory is on a different device: a crash, full disk or concurrent reader then met
a partial file. It also leaked whenever reading, writing or the visitor raised.
---
 src/csvw/dsv.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0d050d2..afa062e 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -14,12 +14,12 @@ The original implementations were largely copied from
 import io
 import csv
 import codecs
-import shutil
 import typing
 import pathlib
 import tempfile
 import warnings
 import functools
+import contextlib
 import collections
 
 from . import utils
@@ -384,6 +384,23 @@ def iterrows(lines_or_file: LINES_OR_PATH,
 reader = iterrows
 
 
+@contextlib.contextmanager
+def _replacing(fname: pathlib.Path) -> typing.Generator[pathlib.Path, None, None]:
+    """
+    Context manager providing a temporary file, which replaces `fname` atomically upon success and is
+    removed upon failure. The temporary file is created in the directory of `fname`, because files
+    can be replaced atomically only within one file system.
+    """
+    with tempfile.NamedTemporaryFile(dir=str(fname.parent), delete=False) as fp:
+        tmp = pathlib.Path(fp.name)
+    try:
+        yield tmp
+        tmp.replace(fname)
+    except BaseException:
+        tmp.unlink()
+        raise
+
+
 def rewrite(fname: typing.Union[str, pathlib.Path],
             visitor: typing.Callable[[int, typing.List[str]], typing.Union[None, typing.List[str]]],
             **kw):
@@ -396,30 +413,22 @@ def rewrite(fname: typing.Union[str, pathlib.Path],
     """
     fname = utils.ensure_path(fname)
     assert fname.is_file()
-    with tempfile.NamedTemporaryFile(delete=False) as fp:
-        tmp = pathlib.Path(fp.name)
-
-    with UnicodeReader(fname, **kw) as reader_:
+    with _replacing(fname) as tmp, UnicodeReader(fname, **kw) as reader_:
         with UnicodeWriter(tmp, **kw) as writer:
             for i, row in enumerate(reader_):
                 row = visitor(i, row)
                 if row is not None:
                     writer.writerow(row)
-    shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
 
 
 def add_rows(fname: typing.Union[str, pathlib.Path], *rows: typing.List[str]):
-    with tempfile.NamedTemporaryFile(delete=False) as fp:
-        tmp = pathlib.Path(fp.name)
-
     fname = utils.ensure_path(fname)
-    with UnicodeWriter(tmp) as writer:
+    with _replacing(fname) as tmp, UnicodeWriter(tmp) as writer:
         if fname.exists():
             with UnicodeReader(fname) as reader_:
                 for row in reader_:
                     writer.writerow(row)
         writer.writerows(rows)
-    shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
 
 
 def filter_rows_as_dict(fname: typing.Union[str, pathlib.Path],
-- 
2.43.0


From d9aa95fa51aa427335f4fa7fa00d543fa97ff3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 02/68] fix: read time values independently of the current date

Values of datatype time carried the date of the day they were read, so values of the same table (or a
value and a minimum/maximum constraint) could not be compared if they were read on different days.
---
 src/csvw/datatypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ad17973..5db95eb 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -280,6 +280,12 @@ class boolean(anyAtomicType):
         return (true if v else false)[0]
 
 
+# Values of datatype `time` are mapped to `datetime.datetime` objects. To make these comparable, the
+# date must not depend on when a value was read. The choice of the date is arbitrary, see
+# https://www.w3.org/TR/xmlschema-2/#time
+TIME_REFERENCE_DATE = datetime.date(1972, 12, 31)
+
+
 def with_tz(v, func, args, kw):
     tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
     tz = tz_pattern.search(v)
@@ -324,7 +330,7 @@ class dateTime(anyAtomicType):
             # 6-digit number.
             comps['microsecond'] = comps['microsecond'][:6].ljust(6, '0')
         if cls == datetime.datetime and 'year' not in comps:
-            d = datetime.date.today()
+            d = TIME_REFERENCE_DATE
             for a in ['year', 'month', 'day']:
                 comps[a] = getattr(d, a)
         res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
@@ -419,7 +425,7 @@ class _time(dateTime):
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern and 'x' in pattern.lower():
-            return dateutil.parser.parse('{}T{}'.format(datetime.date.today().isoformat(), v))
+            return dateutil.parser.parse('{}T{}'.format(TIME_REFERENCE_DATE.isoformat(), v))
         assert regex is not None
         return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
 
-- 
2.43.0


From 76009ab500825107e8fa463ba6a972f6e091a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 03/68] fix: order the objects of a row deterministically in
 JSON output

rdflib serializes the subjects of a graph in set order, i.e. depending on PYTHONHASHSEED. Thus, rows
with aboutUrls in columns were converted to differently ordered - and in minimal mode to different -
JSON from process to process.
---
 src/csvw/jsonld.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 92daa46..d96a005 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -174,9 +174,13 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
         for prop, val in grouped.items():
             if prop != '@id':
                 g.add(Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triple())
-    res = g.serialize(format='json-ld')
+    # rdflib serializes subjects in arbitrary order, thus we order them by first appearance.
+    order = {str(s): i for i, s in reversed(list(enumerate(t.about for t in triples)))}
+    res = sorted(
+        json.loads(g.serialize(format='json-ld')),
+        key=lambda o: (order.get(o.get('@id'), len(order)), o.get('@id') or ''))
     # Frame and simplify the resulting objects, augment with list index:
-    res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
+    res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(res))]
     # Sort the objects making sure the one with the row's aboutUrl as @id comes first:
     res = [k[1] for k in sorted(
         res, key=lambda o: -1 if o[1].get('@id') == grouped.get('@id') else o[0])]
-- 
2.43.0


From 928cc2b5b70167677828398cf063e552b2c33476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 04/68] fix: decode data from zip archives and URLs like data
 from local files

Newlines in cells were translated, byte order marks kept and encoding names such as UTF-8-BOM not
recognized. In addition, the archive member - and thereby the archive - was left open, when an error
occurred or the iteration was abandoned.
---
 src/csvw/metadata.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4d485e2..bf2fbe3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -30,7 +30,8 @@ import uritemplate
 
 from . import utils
 from .datatypes import DATATYPES
-from .dsv import Dialect as BaseDialect, UnicodeReaderWithLineNumber, UnicodeWriter
+from .dsv import (
+    Dialect as BaseDialect, UnicodeReader, UnicodeReaderWithLineNumber, UnicodeWriter)
 from .frictionless import DataPackage
 from . import jsonld
 
@@ -223,6 +224,15 @@ def get_json(fname) -> typing.Union[list, dict]:
         return json.load(f, object_pairs_hook=collections.OrderedDict)
 
 
+def text_handle(fp: typing.IO[bytes], dialect: BaseDialect) -> io.TextIOWrapper:
+    """
+    Make data from a binary file accessible in the same way as `UnicodeReader` opens local files, i.e.
+    with the same encoding and without translating newlines.
+    """
+    return io.TextIOWrapper(
+        fp, encoding=UnicodeReader([], dialect=dialect).encoding, newline='')
+
+
 def log_or_raise(msg, log=None, level='warning', exception_cls=ValueError):
     if log:
         getattr(log, level)(msg)
@@ -1342,8 +1352,8 @@ class Table(TableLike):
 
         with contextlib.ExitStack() as stack:
             if is_url(fname):
-                handle = io.TextIOWrapper(
-                    io.BytesIO(requests.get(str(fname)).content), encoding=dialect.encoding)
+                handle = stack.enter_context(text_handle(
+                    io.BytesIO(requests.get(str(fname)).content), dialect))
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
@@ -1351,9 +1361,9 @@ class Table(TableLike):
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-                        handle = io.TextIOWrapper(
+                        handle = stack.enter_context(text_handle(
                             zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
-                            encoding=dialect.encoding)
+                            dialect))
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From e0da0c4e772d038ae0d236304e42e1115b7ee5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 05/68] fix: only read the archive member with the name of the
 data file

Any member the name of which ends with the name of the data file was accepted.
---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index bf2fbe3..c22f47c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1362,7 +1362,8 @@ class Table(TableLike):
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
                         handle = stack.enter_context(text_handle(
-                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
+                            zipf.open([n for n in zipf.namelist()
+                                       if n.split('/')[-1] == fpath.name][0]),
                             dialect))
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
-- 
2.43.0


From 658b1cfdf51aa78401bdef356d2c7290378faf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 06/68] fix: do not take HTTP error responses for content

The body of, e.g., a 404 or 500 page was parsed as CSV data, metadata or schema.
---
 src/csvw/metadata.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c22f47c..d71d887 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -216,10 +216,19 @@ def json_open(filename, mode='r', encoding='utf-8'):
     return io.open(filename, mode, encoding=encoding)
 
 
+def http_get(url: str) -> requests.Response:
+    """
+    Retrieve the resource at `url`, making sure an error page is not taken for its content.
+    """
+    res = requests.get(url)
+    res.raise_for_status()
+    return res
+
+
 def get_json(fname) -> typing.Union[list, dict]:
     fname = str(fname)
     if is_url(fname):
-        return requests.get(fname).json(object_pairs_hook=collections.OrderedDict)
+        return http_get(fname).json(object_pairs_hook=collections.OrderedDict)
     with json_open(fname) as f:
         return json.load(f, object_pairs_hook=collections.OrderedDict)
 
@@ -970,7 +979,7 @@ class Schema(Description):
         if isinstance(v, str):
             try:
                 # The schema is referenced with a URL
-                v = requests.get(v).json()
+                v = http_get(v).json()
             except:  # pragma: no cover # noqa: E722
                 return v
         if not isinstance(v, dict):
@@ -1353,7 +1362,7 @@ class Table(TableLike):
         with contextlib.ExitStack() as stack:
             if is_url(fname):
                 handle = stack.enter_context(text_handle(
-                    io.BytesIO(requests.get(str(fname)).content), dialect))
+                    io.BytesIO(http_get(str(fname)).content), dialect))
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
-- 
2.43.0


From 32da1691e4ee816f2ac4755545daafd86c696cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 07/68] fix: report failures to insert rows even if they do not
 recur

When inserting all rows of a table failed, the rows were inserted again one by one - to find the
culprit. If this succeeded, because the cause of the failure was transient (e.g. a locked database, a
full disk, an interrupt), the failure was ignored, although rows inserted by the failed statement were
then in the table twice and rows of other tables were possibly lost.
---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a03c62..07542a9 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -107,14 +107,14 @@ def insert(db: sqlite3.Connection,
             ','.join(['?' for _ in keys]))
         try:
             db.executemany(sql, rows)
-        except:  # noqa: E722 - this is purely for debugging.
+        except Exception:  # This is purely for debugging, the failure must be reported in any case.
             if not single:
                 for row in rows:
                     insert(db, translate, table, keys, row, single=True)
             else:
                 print(sql)
                 print(rows)
-                raise
+            raise
 
 
 def select(db: sqlite3.Connection, table: str) -> typing.Tuple[typing.List[str], typing.Sequence]:
-- 
2.43.0


From eb5ab13406f822077839b2154e4adfc53fd6d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 08/68] fix: assign values to database columns by name

The order of columns was taken from the first row of a table. Values of rows with a different order of
keys - such as rows following a short row, when the header of a CSV file is ordered differently than
the columns in the metadata - ended up in the wrong columns.
---
 src/csvw/db.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 07542a9..5a98e1d 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -536,12 +536,12 @@ FROM {2} {3} GROUP BY {0}""".format(
             for t in self.tables:
                 if t.name not in items:
                     continue
-                rows, keys = [], []
+                rows, keys = [], {}  # We use a dict as ordered set of keys.
                 cols = {c.name: c for c in t.columns}
-                for i, row in enumerate(items[t.name]):
+                for row in items[t.name]:
                     pk = row[t.primary_key[0]] \
                         if t.primary_key and len(t.primary_key) == 1 else None
-                    values = []
+                    values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
                             assert pk
@@ -569,11 +569,15 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = json.dumps(v)
                             else:
                                 v = col.convert(v) if v is not None else None
-                            if i == 0:
-                                keys.append(col.name)
-                            values.append(v)
-                    rows.append(tuple(values))
-                insert(db, self.translate, t.name, keys, *rows)
+                            values[col.name] = v
+                    keys.update(dict.fromkeys(values))
+                    rows.append(values)
+                insert(
+                    db,
+                    self.translate,
+                    t.name,
+                    list(keys),
+                    *[tuple(values.get(k) for k in keys) for values in rows])
 
             for atkey, rows in refs.items():
                 insert(db, self.translate, atkey[0], atkey[1:], *rows)
-- 
2.43.0


From 01f297bb9bee2ed55b523fe373b83754ac1ea497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 09/68] fix: read decimals from the database as the numbers
 that were written

0.1 was read as Decimal('0.1000000000000000055511151231257827021181583404541015625').
---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 5a98e1d..03f3cf4 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -61,7 +61,7 @@ TYPE_MAP = {
     'decimal': (
         'REAL',
         lambda s: s if s is None else float(s),
-        lambda s: s if s is None else decimal.Decimal(s)),
+        lambda s: s if s is None else decimal.Decimal(str(s))),
     'hexBinary': (
         'BLOB',
         identity,
-- 
2.43.0


From 26fc01d3c6ff36647915043d623b22aaa7d58f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 10/68] fix: read many-to-many relations with arbitrary keys

Keys containing whitespace were split when relations were read from an association table, and column
names containing a quote resulted in invalid SQL.
---
 src/csvw/db.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 03f3cf4..3b1f3a9 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -405,20 +405,19 @@ class Database(object):
 
     def select_many_to_many(self, db, table, context) -> dict:
         if context is not None:
-            context_sql = "WHERE context = '{0}'".format(context)
+            context_sql, params = 'WHERE context = ?', (context,)
         else:
-            context_sql = ''
+            context_sql, params = '', ()
         sql = """\
-SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
-FROM {2} {3} GROUP BY {0}""".format(
-                quoted(self.translate(table.name, table.columns[0].name)),
-                quoted(self.translate(table.name, table.columns[1].name)),
-                quoted(self.translate(table.name)),
-                context_sql)
-        cu = db.execute(sql)
-        return {
-            r[0]: [(k, v) if context is None else k
-                   for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
+SELECT {0}, {1}, COALESCE(context, '') FROM {2} {3} ORDER BY rowid""".format(
+            quoted(self.translate(table.name, table.columns[0].name)),
+            quoted(self.translate(table.name, table.columns[1].name)),
+            quoted(self.translate(table.name)),
+            context_sql)
+        res = collections.OrderedDict()
+        for pk, k, v in db.execute(sql, params).fetchall():
+            res.setdefault(pk, []).append((k, v) if context is None else k)
+        return res
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
         """
-- 
2.43.0


From c9fd5ec6660a90bf7b01d79e051728a9d198ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 11/68] fix: translate the names of many-to-many columns
 without values

Rows without values in such a column were read with an additional, untranslated key.
---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 3b1f3a9..c824211 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -484,7 +484,7 @@ SELECT {0}, {1}, COALESCE(context, '') FROM {2} {3} ORDER BY rowid""".format(
                             d[k] = convert[k][1](v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
                         if table.primary_key and len(table.primary_key) == 1 else None
-                    d.update({k: [] for k in table.many_to_many})
+                    d.update({self.translate(tname, k): [] for k in table.many_to_many})
                     d.update(refs.get(pk, {}))
                     res[self.translate(tname)].append(d)
         return res
-- 
2.43.0


From 91f5981d33d167438f65fbe9612e3123e10d1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 12/68] fix: support many-to-many relations between tables with
 non-string keys

The columns of association tables had always type TEXT. Thus, integer keys read from such a table did
not match the primary keys of the rows, i.e. the relations written to the database could not be read.
Likewise, keys of types which SQLite does not support could not be written at all, and the key 0 and
custom names for the context column were not supported.
---
 src/csvw/db.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index c824211..30170d7 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -123,6 +123,12 @@ def select(db: sqlite3.Connection, table: str) -> typing.Tuple[typing.List[str],
     return cols, list(cu.fetchall())
 
 
+def column_type(table: csvw.Table, name: str) -> typing.Optional[str]:
+    col = table.tableSchema.columndict.get(name)
+    datatype = col.inherit('datatype') if col else None
+    return datatype.base if datatype else None
+
+
 @attr.s
 class ColSpec:
     """
@@ -243,6 +249,8 @@ class TableSpec(object):
                         spec.primary_key[0],
                         fk.reference.resource.string,
                         fk.reference.columnReference[0],
+                        atype=column_type(table, spec.primary_key[0]),
+                        btype=column_type(table, fk.columnReference[0]),
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
@@ -263,7 +271,8 @@ class TableSpec(object):
         return spec
 
     @classmethod
-    def association_table(cls, atable, apk, btable, bpk) -> 'TableSpec':
+    def association_table(
+            cls, atable, apk, btable, bpk, atype=None, btype=None) -> 'TableSpec':
         """
         List-valued foreignKeys are supported as follows: For each pair of tables related through a
         list-valued foreign key, an association table is created. To make it possible to distinguish
@@ -271,8 +280,8 @@ class TableSpec(object):
         a column `context`, which stores the name of the foreign key column from which a row in the
         assocation table was created.
         """
-        afk = ColSpec('{0}_{1}'.format(atable, apk))
-        bfk = ColSpec('{0}_{1}'.format(btable, bpk))
+        afk = ColSpec('{0}_{1}'.format(atable, apk), csvw_type=atype)
+        bfk = ColSpec('{0}_{1}'.format(btable, bpk), csvw_type=btype)
         if afk.name == bfk.name:
             afk.name += '_1'
             bfk.name += '_2'
@@ -404,19 +413,23 @@ class Database(object):
         return self._connection
 
     def select_many_to_many(self, db, table, context) -> dict:
+        context_col = quoted(self.translate(table.name, 'context'))
         if context is not None:
-            context_sql, params = 'WHERE context = ?', (context,)
+            context_sql, params = 'WHERE {} = ?'.format(context_col), (context,)
         else:
             context_sql, params = '', ()
         sql = """\
-SELECT {0}, {1}, COALESCE(context, '') FROM {2} {3} ORDER BY rowid""".format(
+SELECT {0}, {1}, COALESCE({4}, '') FROM {2} {3} ORDER BY rowid""".format(
             quoted(self.translate(table.name, table.columns[0].name)),
             quoted(self.translate(table.name, table.columns[1].name)),
             quoted(self.translate(table.name)),
-            context_sql)
+            context_sql,
+            context_col)
         res = collections.OrderedDict()
+        read_pk, read_k = table.columns[0].read, table.columns[1].read
         for pk, k, v in db.execute(sql, params).fetchall():
-            res.setdefault(pk, []).append((k, v) if context is None else k)
+            k = read_k(k)
+            res.setdefault(read_pk(pk), []).append((k, v) if context is None else k)
         return res
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
@@ -543,14 +556,17 @@ SELECT {0}, {1}, COALESCE(context, '') FROM {2} {3} ORDER BY rowid""".format(
                     values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
-                            assert pk
+                            assert pk is not None
                             at = t.many_to_many[k]
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
                             # values of list-valued columns.
                             for vv in (v or []):
                                 fkey, context = self.association_table_context(t, k, vv)
-                                refs[atkey].append((pk, fkey, context))
+                                refs[atkey].append((
+                                    at.columns[0].convert(pk),
+                                    fkey if fkey is None else at.columns[1].convert(fkey),
+                                    context))
                         else:
                             if k not in cols:
                                 if _skip_extra:
-- 
2.43.0


From 05599acabcd0212508659576013b7e1b2f6962d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 13/68] fix: do not reject valid data with constraints in the
 database

Numbers of types stored as text (e.g. number, float, long) were compared as strings with minimum and
maximum, e.g. 10 was considered less than 9. Constraints on lists were checked against the serialized
list rather than its items, constraints on dateTime resulted in invalid SQL and length constraints were
checked against the base64 encoding of binary data.
---
 src/csvw/db.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 30170d7..a11cbb1 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -160,7 +160,8 @@ class ColSpec:
         :param translate: Callable to translate column names between CSVW metadata and DB schema.
         :return: A string suitable as argument of an SQL CHECK constraint.
         """
-        if not self.csvw:
+        if not self.csvw or self.separator:
+            # Constraints for list-valued columns apply to the items of the lists.
             return
         c, cname = self.csvw, translate(self.name)
         constraints = []
@@ -168,18 +169,21 @@ class ColSpec:
             func = {
                 'date': 'date',
                 'datetime': 'datetime',
+                'dateTime': 'datetime',
+                'dateTimeStamp': 'datetime',
             }.get(self.csvw_type)
+            left, right = '`{}`'.format(cname), '{}'
+            if func:
+                left, right = '{}({})'.format(func, left), func + "('{}')"
+            elif self.db_type == 'TEXT':
+                # Numbers are stored as text, but must not be compared as text.
+                left = 'CAST({} AS NUMERIC)'.format(left)
             if c.minimum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) >= {2}('{1}')".format(cname, c.minimum, func))
-                else:
-                    constraints.append('`{0}` >= {1}'.format(cname, c.minimum))
+                constraints.append(left + ' >= ' + right.format(c.minimum))
             if c.maximum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) <= {2}('{1}')".format(cname, c.maximum, func))
-                else:
-                    constraints.append('`{0}` <= {1}'.format(cname, c.maximum))
-        elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
+                constraints.append(left + ' <= ' + right.format(c.maximum))
+        elif self.csvw_type not in ['base64Binary', 'binary'] and \
+                any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
             if c.length:
                 constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
             if c.minLength:
-- 
2.43.0


From b77bcaa5a436b686bd71484d9a40fb2a5962bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 14/68] fix: do not change the value of numbers in scientific
 notation when formatting decimals

---
 src/csvw/datatypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 5db95eb..7d6df14 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -584,6 +584,10 @@ class decimal(anyAtomicType):
             return v
 
         fmt = '{}' if groupChar is None else '{:,}'
+        if isinstance(v, float):
+            v = _decimal.Decimal(repr(v))
+        if isinstance(v, _decimal.Decimal):  # Make sure scientific notation is not used.
+            fmt = '{:f}' if groupChar is None else '{:,f}'
         try:
             neg = v < 0
         except TypeError:
-- 
2.43.0


From 5587b0f21524fcd3219139788fee43b30a1728b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 15/68] fix: do not change the description of the columns when
 converting to JSON

---
 src/csvw/jsonld.py   | 4 ++--
 src/csvw/metadata.py | 3 ---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index d96a005..fd58dd0 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -72,12 +72,12 @@ class Triple:
         """
         _name = col.header if col else None
 
-        propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')
+        propertyUrl = (col or table).inherit('propertyUrl')
         if propertyUrl:
             prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)
 
         is_type = prop == 'rdf:type'
-        valueUrl = col.valueUrl if col else table.inherit('valueUrl')
+        valueUrl = (col or table).inherit('valueUrl')
         if valueUrl:
             val = table.expand(valueUrl, row, _row=rownum, _name=_name, qname=is_type)
         val = format_value(val, col)
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d71d887..becaf76 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1830,9 +1830,6 @@ class CSVW:
         res.update(jsonld.to_json(table.common_props))
 
         cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])
-        for col in cols.values():
-            col.propertyUrl = col.inherit('propertyUrl')
-            col.valueUrl = col.inherit('valueUrl')
 
         row = [
             self._row_to_json(table, cols, row, rownum, rowsourcenum)
-- 
2.43.0


From 47096f84a7beeca196626bc63a96ccbd708d0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 16/68] fix: write and read numbers with group and decimal
 characters consistently

---
 src/csvw/datatypes.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 7d6df14..20a8111 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -482,6 +482,13 @@ class yearMonthDuration(duration):
     name = 'yearMonthDuration'
 
 
+def replace_chars(s: str, repl: typing.Dict[str, str]) -> str:
+    """
+    Replace all characters simultaneously, e.g. to swap "." and "," as group and decimal character.
+    """
+    return re.sub('|'.join(re.escape(c) for c in repl), lambda m: repl[m.group()], s)
+
+
 @register
 class decimal(anyAtomicType):
     """
@@ -546,7 +553,7 @@ class decimal(anyAtomicType):
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
         if pattern and not NumberPattern(pattern).is_valid(
-                v.replace(groupChar or ',', ',').replace(decimalChar or '.', '.')):
+                replace_chars(v, {groupChar or ',': ',', decimalChar or '.': '.'})):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
@@ -577,11 +584,7 @@ class decimal(anyAtomicType):
 
         if pattern:
             v = babel.numbers.format_decimal(v, pattern, 'en')
-            if decimalChar:
-                v = v.replace('.', decimalChar)
-            if groupChar:
-                v = v.replace(',', groupChar)
-            return v
+            return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
         fmt = '{}' if groupChar is None else '{:,}'
         if isinstance(v, float):
@@ -603,13 +606,7 @@ class decimal(anyAtomicType):
                 '{}0.{}{}'.format(sign, zero_padding, digits))
 
         if groupChar or decimalChar:
-            def repl(m):
-                if m.group('c') == ',':
-                    return groupChar
-                if m.group('c') == '.':
-                    return decimalChar
-            r = '(?P<c>[{}])'.format(re.escape((decimalChar or '') + (groupChar or '')))
-            v = re.sub(r, repl, v)
+            v = replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
         return v
 
 
-- 
2.43.0


From d5d2695de61721732b92ca6c24e8a0ce939ea2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 17/68] fix: count leading zeros as digits when validating
 numbers with patterns

---
 src/csvw/datatypes.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 20a8111..07be1ac 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1244,21 +1244,8 @@ class NumberPattern:
         integral_part, _, decimal_part = s.partition('.')
         decimal_part, _, exponent = decimal_part.lower().partition('e')
         groups = integral_part.split(',')
-        significant, leadingzero, skip = [], False, True
-        for c in ''.join(groups):
-            if c in ['+', '-', '%',  # fixme: permil
-                     ]:
-                continue
-            if c == '0' and skip:
-                leadingzero = True
-                continue
-            if c != '0':
-                skip = False
-            significant.append(c)
-        if not significant and leadingzero:
-            significant = ['0']
         if self.min_digits_before_decimal_point and \
-                len(significant) < self.min_digits_before_decimal_point:
+                len(digits(integral_part)) < self.min_digits_before_decimal_point:
             return False
         if self.primary_grouping_size and groups:
             if len(digits(groups[-1])) > self.primary_grouping_size:
-- 
2.43.0


From a31ffd89bf3b8c844a5a6d41f2c8b4d652a340d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 18/68] fix: write negative time zone offsets with minutes
 correctly

---
 src/csvw/datatypes.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 07be1ac..c21eb80 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -301,6 +301,28 @@ def with_tz(v, func, args, kw):
     return res
 
 
+def format_with_tz(v, func, pattern, tz_marker):
+    """
+    Format a date or time using a babel function, except for the timezone, because babel gets negative
+    offsets wrong unless they are whole hours.
+    """
+    offset = v.utcoffset()
+    if not tz_marker or offset is None:
+        return func(v, tzinfo=v.tzinfo, format=pattern)
+    marker = tz_marker.strip()
+    hours, minutes = divmod(abs(offset) // datetime.timedelta(minutes=1), 60)
+    if marker.isupper() and not offset:
+        tz = 'Z'
+    else:
+        tz = '{}{:02}'.format('-' if offset < datetime.timedelta(0) else '+', hours)
+        if minutes or len(marker) > 1:
+            tz += '{}{:02}'.format(':' if len(marker) == 3 else '', minutes)
+    return '{}{}{}'.format(
+        func(v, tzinfo=v.tzinfo, format=pattern[:-len(tz_marker)]),
+        tz_marker[:-len(marker)],
+        tz)
+
+
 @register
 class dateTime(anyAtomicType):
     """
@@ -353,7 +375,7 @@ class dateTime(anyAtomicType):
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern:
-            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)
+            return format_with_tz(v, babel.dates.format_datetime, pattern, tz_marker)
         return v.isoformat()
 
 
@@ -431,7 +453,7 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)
+        return format_with_tz(v, babel.dates.format_time, pattern, tz_marker)
 
 
 @register
-- 
2.43.0


From bdd206e6bb5ff9c7e4a1ec221238f443fbe81d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 19/68] fix: do not drop default dialects of tables when saving
 metadata

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index becaf76..6451dd1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -513,9 +513,10 @@ class DescriptionBase:
         # is not the empty list. Thus, to allow setting it to empty, we must treat `null` as
         # special case here.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
+        # Similarly, an empty `dialect` of a table overrides the dialect of the table group.
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k == 'null' or (v not in ([], {}))))
+            if (k in ('null', 'dialect') or (v not in ([], {}))))
 
 
 def optional_int():
-- 
2.43.0


From 639406916858a04e066f1a6f528db5023c8b4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:03 +0000
Subject: [PATCH 20/68] fix: keep the columns of composite foreign keys paired
 in the database

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index a11cbb1..3b314be 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -258,9 +258,9 @@ class TableSpec(object):
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
-                        sorted(fk.columnReference),
+                        list(fk.columnReference),
                         fk.reference.resource.string,
-                        sorted(fk.reference.columnReference),
+                        list(fk.reference.columnReference),
                     ))
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
-- 
2.43.0


From 5badaf762304e4a5d179abc6241969b9be373d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 21/68] fix: reject null for required integer primary keys in
 the database

---
 src/csvw/db.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 3b314be..c35e62a 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -589,6 +589,11 @@ SELECT {0}, {1}, COALESCE({4}, '') FROM {2} {3} ORDER BY rowid""".format(
                             else:
                                 v = col.convert(v) if v is not None else None
                             values[col.name] = v
+                    for col in t.columns:
+                        # SQLite makes up values for missing integer primary keys.
+                        if col.required and values.get(col.name) is None:
+                            raise sqlite3.IntegrityError(
+                                'required column {0}.{1} is null'.format(t.name, col.name))
                     keys.update(dict.fromkeys(values))
                     rows.append(values)
                 insert(
-- 
2.43.0


From e7aa21b0d682659613f061b783caaedd2d265d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 22/68] fix: do not take broken metadata documents for CSV
 files

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6451dd1..548c26f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1675,6 +1675,9 @@ class CSVW:
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
             except json.decoder.JSONDecodeError:
+                if md_url or urlparse(str(url)).path.endswith('.json'):
+                    # Broken (e.g. truncated) metadata must not be taken for a CSV file.
+                    raise
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-- 
2.43.0


From 4789eff888d424b65737d067d80c93b836bb63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 23/68] fix: detect invalid data whatever warning filters are
 in place

---
 src/csvw/metadata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 548c26f..f35c5cb 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1668,6 +1668,8 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                # Make sure no problem is missed, whatever the warning filters in place.
+                warnings.simplefilter('always', UserWarning)
 
             no_header = False
             try:
@@ -1724,6 +1726,8 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            # Make sure no problem is missed, whatever the warning filters in place.
+            warnings.simplefilter('always', UserWarning)
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
                     pass
-- 
2.43.0


From 2355722605fdf5bf03019b12105aae712a7c1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 24/68] fix: validate and convert CSV files in encodings other
 than UTF-8

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f35c5cb..5d4e2ed 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1676,7 +1676,7 @@ class CSVW:
                 md = get_json(md_url or url)
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
-            except json.decoder.JSONDecodeError:
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError):
                 if md_url or urlparse(str(url)).path.endswith('.json'):
                     # Broken (e.g. truncated) metadata must not be taken for a CSV file.
                     raise
-- 
2.43.0


From 6e10a38594042e44d87cd03bc3d732c652d9fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 25/68] fix: evaluate the headers of the data when locating
 metadata for redirected URLs

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5d4e2ed..dfd456d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1762,7 +1762,7 @@ class CSVW:
         if url and is_url(url):
             # §5.2 Link Header
             # https://w3c.github.io/csvw/syntax/#link-header
-            res = requests.head(url)
+            res = requests.head(url, allow_redirects=True)
             no_header = bool(re.search(r'header\s*=\s*absent', res.headers.get('content-type', '')))
             desc = res.links.get('describedby')
             if desc and desc['type'] in [
-- 
2.43.0


From 47e4c38063e0fca6d5c81c3d7a1142ca6195a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 26/68] fix: skip JSON documents which are no metadata when
 locating metadata

---
 src/csvw/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index dfd456d..043a715 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1751,10 +1751,12 @@ class CSVW:
         `§5. Locating Metadata <https://w3c.github.io/csvw/syntax/#locating-metadata>`_
         """
         def describes(md, url):
-            for table in md.get('tables', [md]):
+            tables = md.get('tables', [md]) if isinstance(md, dict) else []
+            for table in tables if isinstance(tables, list) else []:
                 # FIXME: We check whether the metadata describes a CSV file just superficially,
                 # by comparing the last path components of the respective URLs.
-                if url.split('/')[-1] == table['url'].split('/')[-1]:
+                table_url = table.get('url') if isinstance(table, dict) else None
+                if isinstance(table_url, str) and url.split('/')[-1] == table_url.split('/')[-1]:
                     return True
             return False
 
-- 
2.43.0


From 88c70718b58612d4e8b9d415951ed7692e97dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 27/68] fix: ignore describedby links of other types when
 locating metadata

---
 src/csvw/metadata.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 043a715..75b26ea 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1766,10 +1766,13 @@ class CSVW:
             # https://w3c.github.io/csvw/syntax/#link-header
             res = requests.head(url, allow_redirects=True)
             no_header = bool(re.search(r'header\s*=\s*absent', res.headers.get('content-type', '')))
-            desc = res.links.get('describedby')
-            if desc and desc['type'] in [
-                    "application/csvm+json", "application/ld+json", "application/json"]:
-                md = get_json(Link(desc['url']).resolve(url))
+            # If there is more than one suitable link, the last one is to be used.
+            desc = [
+                link for link in requests.utils.parse_header_links(res.headers.get('link', ''))
+                if link.get('rel') == 'describedby' and link.get('type') in [
+                    "application/csvm+json", "application/ld+json", "application/json"]]
+            if desc:
+                md = get_json(Link(desc[-1]['url']).resolve(url))
                 if describes(md, url):
                     return md, no_header
                 else:
-- 
2.43.0


From 6f41239b4245453e27bbff6ae223635f0a1e7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 28/68] fix: recognise CSV files which are valid JSON values as
 well

---
 src/csvw/metadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 75b26ea..f3d492e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1672,15 +1672,19 @@ class CSVW:
                 warnings.simplefilter('always', UserWarning)
 
             no_header = False
+            overriding = md_url or urlparse(str(url)).path.endswith('.json')
             try:
                 md = get_json(md_url or url)
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
             except (json.decoder.JSONDecodeError, UnicodeDecodeError):
-                if md_url or urlparse(str(url)).path.endswith('.json'):
+                if overriding:
                     # Broken (e.g. truncated) metadata must not be taken for a CSV file.
                     raise
-                # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
+                md = None
+            if not overriding and not isinstance(md, (dict, list)):
+                # So we got a CSV file, no JSON object (but a line like `1` or `"a"` is both, CSV and
+                # JSON). Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
             self.no_metadata = set(md.keys()) == {'@context', 'url'}
-- 
2.43.0


From 6053a4538486f7020ad87e3c7a17c1636503fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 29/68] fix: do not resolve time zone names relative to the
 local time zone

---
 src/csvw/datatypes.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index c21eb80..1269fb3 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -22,6 +22,7 @@ import collections
 
 import isodate
 import rfc3986
+import dateutil.tz
 import dateutil.parser
 import babel.numbers
 import babel.dates
@@ -286,6 +287,22 @@ class boolean(anyAtomicType):
 TIME_REFERENCE_DATE = datetime.date(1972, 12, 31)
 
 
+def offset_to_tzinfo(name, offset):
+    """
+    Time zones are specified as offsets from UTC. Anything else (e.g. "EST") must be rejected, because
+    dateutil would only recognise the names of the local time zone.
+    """
+    if offset is None:
+        if name:
+            raise ValueError('invalid time zone: {}'.format(name))
+        return None
+    return dateutil.tz.tzoffset(None, offset) if offset else dateutil.tz.UTC
+
+
+def parse_with_offset(v):
+    return dateutil.parser.parse(v, tzinfos=offset_to_tzinfo)
+
+
 def with_tz(v, func, args, kw):
     tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
     tz = tz_pattern.search(v)
@@ -358,7 +375,7 @@ class dateTime(anyAtomicType):
         res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
         if tz_marker:
             # Let dateutils take care of parsing the timezone info:
-            res = res.replace(tzinfo=dateutil.parser.parse(v).tzinfo)
+            res = res.replace(tzinfo=parse_with_offset(v).tzinfo)
         return res
 
     @staticmethod
@@ -447,7 +464,7 @@ class _time(dateTime):
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern and 'x' in pattern.lower():
-            return dateutil.parser.parse('{}T{}'.format(TIME_REFERENCE_DATE.isoformat(), v))
+            return parse_with_offset('{}T{}'.format(TIME_REFERENCE_DATE.isoformat(), v))
         assert regex is not None
         return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
 
-- 
2.43.0


From aa22bc82146c7734fb90878a33672636b871af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 30/68] fix: format dates and times independently of the locale

---
 src/csvw/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 1269fb3..ec2e41a 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -325,7 +325,7 @@ def format_with_tz(v, func, pattern, tz_marker):
     """
     offset = v.utcoffset()
     if not tz_marker or offset is None:
-        return func(v, tzinfo=v.tzinfo, format=pattern)
+        return func(v, tzinfo=v.tzinfo, format=pattern, locale='en')
     marker = tz_marker.strip()
     hours, minutes = divmod(abs(offset) // datetime.timedelta(minutes=1), 60)
     if marker.isupper() and not offset:
@@ -335,7 +335,7 @@ def format_with_tz(v, func, pattern, tz_marker):
         if minutes or len(marker) > 1:
             tz += '{}{:02}'.format(':' if len(marker) == 3 else '', minutes)
     return '{}{}{}'.format(
-        func(v, tzinfo=v.tzinfo, format=pattern[:-len(tz_marker)]),
+        func(v, tzinfo=v.tzinfo, format=pattern[:-len(tz_marker)], locale='en'),
         tz_marker[:-len(marker)],
         tz)
 
-- 
2.43.0


From ca90abc357e76054700c7080c1da3aebb043f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 31/68] fix: write zipped tables whatever date the clock shows

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f3d492e..d0ac401 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1291,7 +1291,8 @@ class Table(TableLike):
             with zipfile.ZipFile(
                 str(fpath.parent.joinpath(fpath.name + '.zip')),
                 'w',
-                compression=zipfile.ZIP_DEFLATED
+                compression=zipfile.ZIP_DEFLATED,
+                strict_timestamps=False,  # The clock may be set to a date ZIP cannot represent.
             ) as zipf:
                 zipf.write(str(fpath), arcname=fpath.name)
             fpath.unlink()
-- 
2.43.0


From a575b60c450c14a0359cae66f634e436edf95902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 32/68] fix: drop the comments of an earlier iteration when a
 table has no rows any more

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d0ac401..0fb89c2 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1395,7 +1395,8 @@ class Table(TableLike):
                             if isinstance(res, str) and res.split('-')[0] not in [
                                     'und', (self.lang or 'und').split('-')[0]]:
                                 warnings.warn('Incompatible column titles')
-                except StopIteration:  # pragma: no cover
+                except StopIteration:
+                    self._comments = reader.comments
                     return
             else:
                 header = colnames
-- 
2.43.0


From 2d90d44ed05df369e1828b59cd36c948155c998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 33/68] fix: convert numbers and booleans in cells with their
 own aboutUrl to JSON

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index fd58dd0..f32871d 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -118,7 +118,7 @@ def to_json(obj, flatten_list=False):
     if isinstance(obj, dict):
         if '@value' in obj:
             obj = obj['@value']
-        if len(obj) == 1 and '@id' in obj:
+        elif len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
     if isinstance(obj, dict):
         return {
-- 
2.43.0


From 33ec38d4a115cedc7a5a1212159f352462b1eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 34/68] fix: format the items of list-valued cells when
 converting to JSON

---
 src/csvw/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index f32871d..32e3659 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -21,6 +21,8 @@ def format_value(value, col):
     """
     Format values as JSON-LD literals.
     """
+    if isinstance(value, list):
+        return [format_value(v, col) for v in value]
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
         if col and col.datatype.base == 'time':
-- 
2.43.0


From 5119248ded592280cd26631b38fee71d0bfadabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 35/68] fix: expand URI templates to str for local tables, too

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0fb89c2..84c748d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1172,7 +1172,7 @@ class TableLike(Description):
 
         """
         if tmpl is INVALID:
-            return self.url.resolve(self.base)
+            return str(self.url.resolve(self.base))
 
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
@@ -1193,7 +1193,7 @@ class TableLike(Description):
                     if res.startswith(url):
                         res = res.replace(url, prefix + ':')
                         break
-        return res
+        return str(res)
 
 
 @attr.s
-- 
2.43.0


From a24ee4579687b74e2b20e24120a2d853471c8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 36/68] fix: convert groups without a dialect to markdown

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index affbfdf..7c652f8 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -220,7 +220,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         res.append('\n' + header + '\n')
         res.append(properties(table.common_props))
         dialect = table.inherit('dialect')
-        if dialect.asdict():
+        if dialect and dialect.asdict():
             res.append('\n**CSV dialect**: `{}`\n'.format(json.dumps(dialect.asdict())))
         res.append('\n### Columns\n')
         res.append('Name/Property | Datatype | Description')
-- 
2.43.0


From 8e9116dac34b751f09694c48bc92bcd76c34ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 37/68] fix: close the file if a reader or writer cannot be set
 up

---
 src/csvw/dsv.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index afa062e..21fa6d8 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -13,6 +13,7 @@ The original implementations were largely copied from
 """
 import io
 import csv
+import sys
 import codecs
 import typing
 import pathlib
@@ -100,7 +101,12 @@ class UnicodeWriter:
         elif self.f is None:
             self.f = io.StringIO(newline='')
 
-        self.writer = csv.writer(self.f, **self.kw)
+        try:
+            self.writer = csv.writer(self.f, **self.kw)
+        except BaseException:
+            # The exit method isn't called when entering the context fails.
+            self.__exit__(*sys.exc_info())
+            raise
         return self
 
     def read(self) -> typing.Optional[bytes]:
@@ -206,7 +212,12 @@ class UnicodeReader:
             for line in self.f:
                 lines.append(line.decode(self.encoding) if isinstance(line, bytes) else line)
             self.f = lines
-        self.reader = csv.reader(self.f, **self.kw)
+        try:
+            self.reader = csv.reader(self.f, **self.kw)
+        except BaseException:
+            # The exit method isn't called when entering the context fails.
+            self.__exit__(*sys.exc_info())
+            raise
         self.lineno = -1
         return self
 
-- 
2.43.0


From 986a86a30b259641b3140aa3c71fe5163a1493b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 38/68] fix: do not write to the parent of a directory which
 does not exist

---
 src/csvw/metadata.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 84c748d..947879a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -225,6 +225,16 @@ def http_get(url: str) -> requests.Response:
     return res
 
 
+def existing_path(path: typing.Union[str, pathlib.Path]) -> pathlib.Path:
+    """
+    Links relative to a path which does not exist would be resolved relative to its parent directory,
+    see `Link.resolve`.
+    """
+    path = pathlib.Path(path)
+    path.stat()
+    return path
+
+
 def get_json(fname) -> typing.Union[list, dict]:
     fname = str(fname)
     if is_url(fname):
@@ -1263,7 +1273,7 @@ class Table(TableLike):
         dialect = self._get_dialect()
         non_virtual_cols = [c for c in self.tableSchema.columns if not c.virtual]
         if fname is DEFAULT:
-            fname = self.url.resolve(pathlib.Path(base) if base else self.base)
+            fname = self.url.resolve(existing_path(base) if base else self.base)
 
         rowcount = 0
         with UnicodeWriter(fname, dialect=dialect) as writer:
@@ -1550,7 +1560,7 @@ class TableGroup(TableLike):
         :param dest:
         :return:
         """
-        dest = pathlib.Path(dest)
+        dest = existing_path(dest)
         for table in self.tables:
             shutil.copy(str(table.url.resolve(self.base)), str(table.url.resolve(dest)))
         self._fname = dest / self._fname.name
-- 
2.43.0


From 070cbeae51704a9915f8a774566871d7afdc57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:52 +0000
Subject: [PATCH 39/68] fix: remove the temporary file, too, if closing it
 fails

---
 src/csvw/dsv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 21fa6d8..21ffcf9 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -402,9 +402,10 @@ def _replacing(fname: pathlib.Path) -> typing.Generator[pathlib.Path, None, None
     removed upon failure. The temporary file is created in the directory of `fname`, because files
     can be replaced atomically only within one file system.
     """
-    with tempfile.NamedTemporaryFile(dir=str(fname.parent), delete=False) as fp:
-        tmp = pathlib.Path(fp.name)
+    fp = tempfile.NamedTemporaryFile(dir=str(fname.parent), delete=False)
+    tmp = pathlib.Path(fp.name)
     try:
+        fp.close()
         yield tmp
         tmp.replace(fname)
     except BaseException:
-- 
2.43.0


From de2da7edd614bc7e63f8f0a31034507eff13e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 40/68] fix: minimal JSON of tables with rows without any
 values

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 947879a..13fb37e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1842,7 +1842,7 @@ class CSVW:
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
         if minimal:
             return list(
-                itertools.chain(*[[r['describes'][0] for r in t['row']] for t in res['tables']]))
+                itertools.chain(*[r['describes'][:1] for t in res['tables'] for r in t['row']]))
 
         return res
 
-- 
2.43.0


From 30e43eb4577894513a13924b8250c659735e96cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:01 +0000
Subject: [PATCH 41/68] fix: markdown for descriptions which are no strings and
 for number formats

---
 src/csvw/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 7c652f8..781dd8e 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -155,7 +155,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         res = []
         desc = props.pop('dc:description', None)
         if desc:
-            res.append(desc + '\n')
+            res.append(htmlify(desc) + '\n')
         img = props.pop('https://schema.org/image', None)
         if img:
             if isinstance(img, str):  # pragma: no cover
@@ -173,7 +173,9 @@ def metadata2markdown(tg, link_files=False) -> str:
         dt = '`{}`'.format(col.datatype.base if col.datatype else 'string')
         if col.datatype:
             if col.datatype.format:
-                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
+                if isinstance(col.datatype.format, dict):  # a number format
+                    dt += '<br>Format: `{}`'.format(json.dumps(col.datatype.format))
+                elif re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
                     dt += '<br>Valid choices:<br>'
                     dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
                 elif col.datatype.base == 'string':
@@ -184,7 +186,7 @@ def metadata2markdown(tg, link_files=False) -> str:
                 dt += '<br>&le; {}'.format(col.datatype.maximum)
         if col.separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
-        desc = col.common_props.get('dc:description', '').replace('\n', ' ')
+        desc = htmlify(col.common_props.get('dc:description', '')).replace('\n', ' ')
 
         if pk and col.name in pk:
             desc = (desc + '<br>') if desc else desc
-- 
2.43.0


From a9123f21838d96ff110a1d2804fa4e231b0657b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 42/68] fix: keep the offset of times with fractions of seconds
 when converting to JSON

---
 src/csvw/jsonld.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 32e3659..dc238f9 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -30,9 +30,8 @@ def format_value(value, col):
         if col and col.datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
-            stamp, _, milliseconds = res.partition('.')
-            return '{}.{}'.format(stamp, milliseconds.rstrip('0')) if milliseconds \
-                else stamp.replace('+00:00', 'Z')
+            res = re.sub(r'(\.[0-9]*?)0+(?![0-9])', r'\1', res)  # drop trailing zeros of fractions
+            return res.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
         return col.datatype.formatted(value)
-- 
2.43.0


From 4fa0cc53f2b87c9d7454399d4558fdd725440084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 43/68] fix: do not take Z for the local time zone if that is
 called UTC

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ec2e41a..6cd433b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -311,7 +311,7 @@ def with_tz(v, func, args, kw):
         tz = tz.groups()[0]
     res = func(v, *args, **kw)
     if tz:
-        dt = dateutil.parser.parse('{}{}'.format(datetime.datetime.now(), tz))
+        dt = parse_with_offset('{}T00:00:00{}'.format(TIME_REFERENCE_DATE.isoformat(), tz))
         res = datetime.datetime(
             res.year, res.month, res.day, res.hour, res.minute, res.second, res.microsecond,
             dt.tzinfo)
-- 
2.43.0


From f711ced398a858ed1aa0121ace7261d450472a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 44/68] fix: keep fractions of seconds and time zones of times
 without a format

---
 src/csvw/datatypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6cd433b..d7ef62b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -459,7 +459,11 @@ class _time(dateTime):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
-        return dt_format_and_regex(datatype.format or 'HH:mm:ss', no_date=True)
+        res = dt_format_and_regex(datatype.format or 'HH:mm:ss', no_date=True)
+        if not datatype.format:
+            res['pattern'] = None
+            res['regex'] = re.compile(res['regex'].pattern + r'(\.(?P<microsecond>[0-9]+))?')
+        return res
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -470,7 +474,9 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return format_with_tz(v, babel.dates.format_time, pattern, tz_marker)
+        if pattern:
+            return format_with_tz(v, babel.dates.format_time, pattern, tz_marker)
+        return (v.timetz() if isinstance(v, datetime.datetime) else v).isoformat()
 
 
 @register
-- 
2.43.0


From 9d8130bb4c8025416fd6cd764315f17d9fa9dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 45/68] fix: format row titles which are no strings when
 converting to JSON

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 13fb37e..0cb220f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1876,7 +1876,8 @@ class CSVW:
         res['rownum'] = rownum
         if table.tableSchema.rowTitles:
             res['titles'] = [
-                t for t in [row.get(name) for name in table.tableSchema.rowTitles] if t]
+                jsonld.format_value(row[name], cols.get(name))
+                for name in table.tableSchema.rowTitles if row.get(name)]
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
-- 
2.43.0


From a79f03f302bd8e48d291cecf06262e1ab56b103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 46/68] fix: keep the time zones of dates when writing them

---
 src/csvw/datatypes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index d7ef62b..e90ba39 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -415,22 +415,30 @@ class date(dateTime):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         try:
-            return dt_format_and_regex(datatype.format or 'yyyy-MM-dd')
+            res = dt_format_and_regex(datatype.format or 'yyyy-MM-dd')
         except ValueError:
             warnings.warn('Invalid date format')
             return dt_format_and_regex('yyyy-MM-dd')
+        if not datatype.format:
+            res['pattern'] = None
+        return res
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         return with_tz(
-            v.strip(), dateTime.to_python, [], dict(regex=regex, fmt=fmt, pattern=pattern))
+            v.strip(),
+            dateTime.to_python,
+            [],
+            dict(regex=regex, fmt=fmt, pattern=pattern or 'yyyy-MM-dd'))
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        from babel.dates import format_date
-        if pattern:
-            return format_date(v, format=pattern, locale='en')
-        return dateTime.to_string(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
+        aware = isinstance(v, datetime.datetime) and v.tzinfo
+        if not pattern:
+            pattern, tz_marker = ('yyyy-MM-ddXXX', 'XXX') if aware else ('yyyy-MM-dd', None)
+        if tz_marker and aware:
+            return format_with_tz(v, babel.dates.format_datetime, pattern, tz_marker)
+        return babel.dates.format_date(v, format=pattern, locale='en')
 
 
 @register
-- 
2.43.0


From 51cb2778ab5eb3a5ede51fc7915d633333b205bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:25 +0000
Subject: [PATCH 47/68] fix: keep all digits of long numbers

---
 src/csvw/datatypes.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index e90ba39..3690f2d 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -18,6 +18,7 @@ import binascii
 import datetime
 import warnings
 import itertools
+import contextlib
 import collections
 
 import isodate
@@ -542,6 +543,16 @@ def replace_chars(s: str, repl: typing.Dict[str, str]) -> str:
     return re.sub('|'.join(re.escape(c) for c in repl), lambda m: repl[m.group()], s)
 
 
+@contextlib.contextmanager
+def exact_arithmetic(digits: int):
+    """
+    Make sure no digits are lost, whatever the precision of the current decimal context.
+    """
+    with _decimal.localcontext() as ctx:
+        ctx.prec = max(ctx.prec, digits)
+        yield
+
+
 @register
 class decimal(anyAtomicType):
     """
@@ -626,9 +637,13 @@ class decimal(anyAtomicType):
             else:
                 factor = 1
         try:
-            return _decimal.Decimal(v) * factor
+            res = _decimal.Decimal(v)
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
+        if factor != 1:
+            with exact_arithmetic(len(v)):
+                res *= factor
+        return res
 
     @staticmethod
     def to_string(v, pattern=None, decimalChar=None, groupChar=None):
@@ -636,7 +651,8 @@ class decimal(anyAtomicType):
             return decimal._reverse_special['{}'.format(v)]
 
         if pattern:
-            v = babel.numbers.format_decimal(v, pattern, 'en')
+            with exact_arithmetic(len('{:f}'.format(_decimal.Decimal(str(v)))) + len(pattern)):
+                v = babel.numbers.format_decimal(v, pattern, 'en')
             return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
         fmt = '{}' if groupChar is None else '{:,}'
-- 
2.43.0


From f3138e05779f14a969c5da78ac51d63af27718cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 48/68] fix: enforce inclusive and exclusive bounds in
 databases

---
 src/csvw/db.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index c35e62a..db68828 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -165,7 +165,11 @@ class ColSpec:
             return
         c, cname = self.csvw, translate(self.name)
         constraints = []
-        if (c.minimum is not None) or (c.maximum is not None):
+        bounds = [(op, bound) for op, bound in [
+            ('>=', c.minimum), ('>=', c.minInclusive), ('>', c.minExclusive),
+            ('<=', c.maximum), ('<=', c.maxInclusive), ('<', c.maxExclusive),
+        ] if bound is not None]
+        if bounds:
             func = {
                 'date': 'date',
                 'datetime': 'datetime',
@@ -178,10 +182,8 @@ class ColSpec:
             elif self.db_type == 'TEXT':
                 # Numbers are stored as text, but must not be compared as text.
                 left = 'CAST({} AS NUMERIC)'.format(left)
-            if c.minimum is not None:
-                constraints.append(left + ' >= ' + right.format(c.minimum))
-            if c.maximum is not None:
-                constraints.append(left + ' <= ' + right.format(c.maximum))
+            for op, bound in bounds:
+                constraints.append('{} {} {}'.format(left, op, right.format(bound)))
         elif self.csvw_type not in ['base64Binary', 'binary'] and \
                 any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
             if c.length:
-- 
2.43.0


From dd59beb3d2cfe57e5434b0c81249bffbdba25a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 49/68] fix: do not create invalid SQL for bounds of durations

---
 src/csvw/db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index db68828..ec9b738 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -24,6 +24,7 @@ SQLite support has the following limitations:
 
 - regex constraints on strings (as specified via a :class:`csvw.Datatype`'s format attribute) are
   not enforced by the database.
+- neither are bounds (minimum, maximum, etc.) of durations.
 """
 import json
 import typing
@@ -169,7 +170,9 @@ class ColSpec:
             ('>=', c.minimum), ('>=', c.minInclusive), ('>', c.minExclusive),
             ('<=', c.maximum), ('<=', c.maxInclusive), ('<', c.maxExclusive),
         ] if bound is not None]
-        if bounds:
+        if issubclass(DATATYPES[self.csvw_type], DATATYPES['duration']):
+            pass  # SQLite cannot compare durations.
+        elif bounds:
             func = {
                 'date': 'date',
                 'datetime': 'datetime',
-- 
2.43.0


From 0dfe30c0068cc67b1dfc7d143da21e00595d830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 50/68] fix: notice missing columns which are required by
 inheritance

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0cb220f..a1f0a83 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1368,7 +1368,7 @@ class Table(TableLike):
                     virtualcols.append((col.header, col.valueUrl))
             else:
                 colnames.append(col.header)
-            if col.required:
+            if col.required or (not col.virtual and col.inherit('required')):
                 requiredcols.add(col.header)
 
         with contextlib.ExitStack() as stack:
@@ -1437,7 +1437,7 @@ class Table(TableLike):
                 raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
 
             for lineno, row in reader:
-                required = {h: j for j, h, c in header_cols if c and c.required}
+                required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
                 res = _Row()
                 error = False
                 if (not header_cols) and row:
-- 
2.43.0


From 2a0f8ecb6feaf1fc9ed4d71d8ef7def565fa56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 51/68] fix: support list-valued foreign keys with inherited
 separator

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index ec9b738..ea2a1ad 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -240,7 +240,7 @@ class TableSpec(object):
         :return: `TableSpec` instance.
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
-        list_valued = {c.header for c in table.tableSchema.columns if c.separator}
+        list_valued = {c.header for c in table.tableSchema.columns if c.inherit('separator')}
         for fk in table.tableSchema.foreignKeys:
             # We only support Foreign Key references between tables!
             if not fk.reference.schemaReference:
-- 
2.43.0


From 5f909710f5a73b7958147ee782392c5165b2f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:48 +0000
Subject: [PATCH 52/68] fix: take inherited datatypes and separators into
 account when converting to JSON

---
 src/csvw/jsonld.py   | 11 ++++++-----
 src/csvw/metadata.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index dc238f9..65a803f 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -23,26 +23,27 @@ def format_value(value, col):
     """
     if isinstance(value, list):
         return [format_value(v, col) for v in value]
+    datatype = col.inherit('datatype') if col else None
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
-        if col and col.datatype.base == 'time':
+        if datatype and datatype.base == 'time':
             res = res.split('T')[-1]
-        if col and col.datatype.base == 'date':
+        if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
             res = re.sub(r'(\.[0-9]*?)0+(?![0-9])', r'\1', res)  # drop trailing zeros of fractions
             return res.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, Duration):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, decimal.Decimal):
         value = float(value)
     if isinstance(value, URIReference):
         return value.unsplit()
     if isinstance(value, bytes):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, pathlib.Path):
         return str(value)
     if isinstance(value, float):
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a1f0a83..e19ab22 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1902,7 +1902,7 @@ class CSVW:
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
             if (null and v in null) or v == "" or (v is None) or \
-                    (col and col.separator and v == []):
+                    (col and col.inherit('separator') and v == []):
                 continue
 
             triples.append(jsonld.Triple.from_col(
-- 
2.43.0


From 3dba89d2e19bd2e51124edbd4e92921f12503c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 53/68] fix: do not accept dates and times followed by anything
 else

---
 src/csvw/datatypes.py | 62 +++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 3690f2d..ee312b3 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -304,19 +304,22 @@ def parse_with_offset(v):
     return dateutil.parser.parse(v, tzinfos=offset_to_tzinfo)
 
 
-def with_tz(v, func, args, kw):
-    tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
-    tz = tz_pattern.search(v)
-    if tz:
-        v = v[:tz.start()]
-        tz = tz.groups()[0]
-    res = func(v, *args, **kw)
-    if tz:
-        dt = parse_with_offset('{}T00:00:00{}'.format(TIME_REFERENCE_DATE.isoformat(), tz))
-        res = datetime.datetime(
-            res.year, res.month, res.day, res.hour, res.minute, res.second, res.microsecond,
-            dt.tzinfo)
-    return res
+TIME_ZONE = re.compile('( ?(?P<tz>Z|[+-]([01][0-9]|2[0-3])(:?[0-5][0-9])?))?')
+
+
+def match_with_tz(regex, v):
+    """
+    The whole value must match, except for a time zone at the end.
+
+    :return: A pair (match object, `tzinfo` or `None`).
+    """
+    match = regex and regex.match(v)
+    tz = match and TIME_ZONE.fullmatch(v[match.end():])
+    if not tz:
+        dateTime.value_error(v)
+    tz = tz.group('tz')
+    return match, parse_with_offset(
+        '{}T00:00:00{}'.format(TIME_REFERENCE_DATE.isoformat(), tz)).tzinfo if tz else None
 
 
 def format_with_tz(v, func, pattern, tz_marker):
@@ -355,12 +358,9 @@ class dateTime(anyAtomicType):
         return dt_format_and_regex(datatype.format)
 
     @staticmethod
-    def _parse(v, cls, regex, tz_marker=None):
-        v = v.strip()
-        try:
-            comps = regex.match(v).groupdict()
-        except AttributeError:  # pragma: no cover
-            dateTime.value_error(v)
+    def _parse(v, cls, regex):
+        match, tzinfo = match_with_tz(regex, v.strip())
+        comps = match.groupdict()
         if comps.get('extramicroseconds'):
             raise ValueError('Extra microseconds')
         if comps.get('microsecond'):
@@ -373,22 +373,16 @@ class dateTime(anyAtomicType):
             d = TIME_REFERENCE_DATE
             for a in ['year', 'month', 'day']:
                 comps[a] = getattr(d, a)
-        res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
-        if tz_marker:
-            # Let dateutils take care of parsing the timezone info:
-            res = res.replace(tzinfo=parse_with_offset(v).tzinfo)
-        return res
+        return cls(tzinfo=tzinfo, **{k: int(v) for k, v in comps.items() if v is not None})
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern and regex:
-            match = regex.match(v)
-            if not match:
-                raise ValueError('{} -- {} -- {}'.format(pattern, v, regex))  # pragma:
+            match_with_tz(regex, v.strip())
         try:
             return dateutil.parser.isoparse(v)
         except ValueError:
-            return dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
+            return dateTime._parse(v, datetime.datetime, regex)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -426,11 +420,8 @@ class date(dateTime):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return with_tz(
-            v.strip(),
-            dateTime.to_python,
-            [],
-            dict(regex=regex, fmt=fmt, pattern=pattern or 'yyyy-MM-dd'))
+        return dateTime._parse(
+            v, datetime.datetime, regex or dt_format_and_regex('yyyy-MM-dd')['regex'])
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -476,10 +467,7 @@ class _time(dateTime):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        if pattern and 'x' in pattern.lower():
-            return parse_with_offset('{}T{}'.format(TIME_REFERENCE_DATE.isoformat(), v))
-        assert regex is not None
-        return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
+        return dateTime._parse(v, datetime.datetime, regex)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-- 
2.43.0


From d63323c91a2d20b08c132afd3b50107d51947e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:57 +0000
Subject: [PATCH 54/68] fix: do not accept underscores and digits of other
 scripts in numbers

---
 src/csvw/datatypes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ee312b3..50cf68b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -531,6 +531,14 @@ def replace_chars(s: str, repl: typing.Dict[str, str]) -> str:
     return re.sub('|'.join(re.escape(c) for c in repl), lambda m: repl[m.group()], s)
 
 
+def check_digits(cls, v):
+    """
+    Python accepts "1_000" and digits of other scripts as numbers, XML Schema doesn't.
+    """
+    if isinstance(v, str) and ('_' in v or not v.isascii()):
+        cls.value_error(v)
+
+
 @contextlib.contextmanager
 def exact_arithmetic(digits: int):
     """
@@ -624,6 +632,7 @@ class decimal(anyAtomicType):
                     break
             else:
                 factor = 1
+            check_digits(decimal, v)
         try:
             res = _decimal.Decimal(v)
         except (TypeError, _decimal.InvalidOperation):
@@ -678,6 +687,8 @@ class integer(decimal):
     @classmethod
     def to_python(cls, v, **kw):
         res = decimal.to_python(v, **kw)
+        if not res.is_finite():
+            cls.value_error(v)
         numerator, denominator = res.as_integer_ratio()
         if denominator == 1:
             if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):
@@ -900,6 +911,7 @@ class _float(anyAtomicType):
             raise ValueError(
                 'Invalid value "{}" for number with pattern "{}"'.format(v, pattern))
 
+        check_digits(_float, v)
         try:
             return float(v)
         except (TypeError, ValueError):
-- 
2.43.0


From c5b75745bd98c2b701ab814ea994fe56618383c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 55/68] fix: check bounds of durations, and of dates and times
 with and without time zones

---
 src/csvw/datatypes.py | 49 +++++++++++++++++++++++++++++++++++++++++++
 src/csvw/metadata.py  | 43 +++++++++++++++++++------------------
 2 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 50cf68b..6d97df2 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -83,6 +83,16 @@ class anyAtomicType:
     def to_string(v: object, **kw) -> str:
         return '{}'.format(v)
 
+    @staticmethod
+    def compare(op: typing.Callable, a: object, b: object) -> typing.List[bool]:
+        """
+        Values of some datatypes are only partially ordered, i.e. the result of a comparison may
+        depend on how the values are interpreted.
+
+        :return: The results of the comparison for all relevant interpretations of the values.
+        """
+        return [op(a, b)]
+
 
 @register
 class string(anyAtomicType):
@@ -287,6 +297,14 @@ class boolean(anyAtomicType):
 # https://www.w3.org/TR/xmlschema-2/#time
 TIME_REFERENCE_DATE = datetime.date(1972, 12, 31)
 
+# Durations are compared by adding them to these, see https://www.w3.org/TR/xmlschema-2/#duration-order
+DURATION_REFERENCE_DATES = [
+    datetime.datetime(1696, 9, 1),
+    datetime.datetime(1697, 2, 1),
+    datetime.datetime(1903, 3, 1),
+    datetime.datetime(1903, 7, 1),
+]
+
 
 def offset_to_tzinfo(name, offset):
     """
@@ -353,6 +371,17 @@ class dateTime(anyAtomicType):
     minmax = True
     example = '2018-12-10T20:20:20'
 
+    @staticmethod
+    def compare(op, a, b):
+        if getattr(a, 'tzinfo', None) is None and getattr(b, 'tzinfo', None) is None:
+            return [op(a, b)]
+        # A value without time zone may be one in any time zone,
+        # see https://www.w3.org/TR/xmlschema-2/#dateTime-order
+        return [
+            op(*[v if v.tzinfo else v.replace(tzinfo=dateutil.tz.tzoffset(None, offset))
+                 for v in (a, b)])
+            for offset in (14 * 3600, -14 * 3600)]
+
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         return dt_format_and_regex(datatype.format)
@@ -491,6 +520,7 @@ class duration(anyAtomicType):
 
     """
     name = 'duration'
+    minmax = True
     example = 'P3Y6M4DT12H30M5S'
 
     @staticmethod
@@ -507,6 +537,18 @@ class duration(anyAtomicType):
     def to_string(v, format=None, **kw):
         return isodate.duration_isoformat(v)
 
+    @staticmethod
+    def compare(op, a, b):
+        # The length of years and months depends on when they begin,
+        # see https://www.w3.org/TR/xmlschema-2/#duration-order
+        try:
+            return [
+                op(*[v if isinstance(v, datetime.timedelta) else v.totimedelta(start=start)
+                     for v in (a, b)])
+                for start in DURATION_REFERENCE_DATES]
+        except OverflowError:
+            raise ValueError('duration out of range')
+
 
 @register
 class dayTimeDuration(duration):
@@ -593,6 +635,13 @@ class decimal(anyAtomicType):
     }
     _reverse_special = {v: k for k, v in _special.items()}
 
+    @staticmethod
+    def compare(op, a, b):
+        try:
+            return [op(a, b)]
+        except _decimal.InvalidOperation:  # NaN
+            return [False]
+
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e19ab22..6037b53 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -625,18 +625,22 @@ class Datatype(DescriptionBase):
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
-        if (self.minInclusive and self.minExclusive) or (self.maxInclusive and self.maxExclusive):
+        if any(getattr(self, x + 'Inclusive') is not None
+               and getattr(self, x + 'Exclusive') is not None for x in ('min', 'max')):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
-        if (self.minInclusive and self.maxExclusive and self.maxExclusive <= self.minInclusive) or \
-                (self.minInclusive and self.maxInclusive and self.maxInclusive < self.minInclusive):
-            raise ValueError('')
-
-        if (self.minExclusive and self.maxExclusive and self.maxExclusive <= self.minExclusive) or (
-                self.minExclusive and self.maxInclusive and self.maxInclusive <= self.minExclusive):
-            raise ValueError('')
+        for lower, upper, op in [
+            ('minInclusive', 'maxInclusive', operator.lt),
+            ('minInclusive', 'maxExclusive', operator.le),
+            ('minExclusive', 'maxInclusive', operator.le),
+            ('minExclusive', 'maxExclusive', operator.le),
+        ]:
+            lower, upper = getattr(self, lower), getattr(self, upper)
+            if lower is not None and upper is not None and \
+                    all(self.basetype.compare(op, upper, lower)):
+                raise ValueError('{} must be greater than {}'.format(upper, lower))
 
         if 'id' in self.at_props and any(
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
@@ -689,18 +693,17 @@ class Datatype(DescriptionBase):
         except TypeError:
             pass
         if self.basetype.minmax:
-            if self.minimum is not None and v < self.minimum:
-                raise ValueError('value must be >= {}'.format(self.minimum))
-            if self.minInclusive is not None and v < self.minInclusive:
-                raise ValueError('value must be >= {}'.format(self.minInclusive))
-            if self.minExclusive is not None and v <= self.minExclusive:
-                raise ValueError('value must be > {}'.format(self.minExclusive))
-            if self.maximum is not None and v > self.maximum:
-                raise ValueError('value must be <= {}'.format(self.maximum))
-            if self.maxInclusive is not None and v > self.maxInclusive:
-                raise ValueError('value must be <= {}'.format(self.maxInclusive))
-            if self.maxExclusive is not None and v >= self.maxExclusive:
-                raise ValueError('value must be < {}'.format(self.maxExclusive))
+            for attr_, op, symbol in [
+                ('minimum', operator.ge, '>='),
+                ('minInclusive', operator.ge, '>='),
+                ('minExclusive', operator.gt, '>'),
+                ('maximum', operator.le, '<='),
+                ('maxInclusive', operator.le, '<='),
+                ('maxExclusive', operator.lt, '<'),
+            ]:
+                bound = getattr(self, attr_)
+                if bound is not None and not all(self.basetype.compare(op, v, bound)):
+                    raise ValueError('value must be {} {}'.format(symbol, bound))
         return v
 
     def read(self, v):
-- 
2.43.0


From b0c7897a97c44b9cc90f8a07089c20fcbfeb1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 56/68] fix: store lists of dates, decimals, URIs etc. in
 databases

---
 src/csvw/db.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index ea2a1ad..08a95ed 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -154,6 +154,28 @@ class ColSpec:
         if self.separator and self.db_type != 'TEXT':
             self.db_type = 'TEXT'
 
+    @property
+    def items_are_json(self) -> bool:
+        """
+        Whether items of list-valued columns are objects which have an equivalent in JSON. The others
+        (dates, decimals, ...) must be converted to strings.
+        """
+        datatype = DATATYPES[self.csvw_type]
+        return datatype is DATATYPES['any'] or (
+            issubclass(datatype, tuple(DATATYPES[n] for n in ['string', 'boolean', 'integer', 'float']))
+            and not issubclass(datatype, DATATYPES['anyURI']))
+
+    def list_to_json(self, items: list) -> str:
+        if not self.items_are_json:
+            items = [v if v is None else DATATYPES[self.csvw_type].to_string(v) for v in items]
+        return json.dumps(items)
+
+    def json_to_list(self, s: str) -> list:
+        items = json.loads(s)
+        if not self.items_are_json:
+            items = [v if v is None else DATATYPES[self.csvw_type].to_python(v) for v in items]
+        return items
+
     def check(self, translate: ColumnTranslator) -> typing.Optional[str]:
         """
         We try to convert as many data constraints as possible into SQLite CHECK constraints.
@@ -482,7 +504,8 @@ SELECT {0}, {1}, COALESCE({4}, '') FROM {2} {3} ORDER BY rowid""".format(
                         if col.csvw_type == 'string':
                             seps[self.translate(tname, col.name)] = col.separator
                         else:
-                            seps[self.translate(tname, col.name)] = 'json'
+                            seps[self.translate(tname, col.name)] = None
+                            convert[self.translate(tname, col.name)][1] = col.json_to_list
 
                 # Retrieve the many-to-many relations:
                 for col, at in table.many_to_many.items():
@@ -498,8 +521,8 @@ SELECT {0}, {1}, COALESCE({4}, '') FROM {2} {3} ORDER BY rowid""".format(
                                 d[k] = None
                             elif not v:
                                 d[k] = []
-                            elif seps[k] == 'json':
-                                d[k] = json.loads(v)
+                            elif seps[k] is None:
+                                d[k] = convert[k][1](v)
                             else:
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
                         else:
@@ -590,7 +613,7 @@ SELECT {0}, {1}, COALESCE({4}, '') FROM {2} {3} ORDER BY rowid""".format(
                                     v = (col.separator or ';').join(
                                         col.convert(vv) or '' for vv in v)
                                 else:
-                                    v = json.dumps(v)
+                                    v = col.list_to_json(v)
                             else:
                                 v = col.convert(v) if v is not None else None
                             values[col.name] = v
-- 
2.43.0


From 023b45148c16b67f83449e2dcf9a979086f2eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:07 +0000
Subject: [PATCH 57/68] fix: support times in databases

---
 src/csvw/datatypes.py | 15 +++++++++------
 src/csvw/db.py        |  5 ++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6d97df2..15e98eb 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -488,15 +488,18 @@ class _time(dateTime):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
-        res = dt_format_and_regex(datatype.format or 'HH:mm:ss', no_date=True)
-        if not datatype.format:
-            res['pattern'] = None
-            res['regex'] = re.compile(res['regex'].pattern + r'(\.(?P<microsecond>[0-9]+))?')
-        return res
+        if datatype.format:
+            return dt_format_and_regex(datatype.format, no_date=True)
+        return {'regex': _time.regex()}
+
+    @staticmethod
+    def regex():
+        regex = dt_format_and_regex('HH:mm:ss', no_date=True)['regex']
+        return re.compile(regex.pattern + r'(\.(?P<microsecond>[0-9]+))?')
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return dateTime._parse(v, datetime.datetime, regex)
+        return dateTime._parse(v, datetime.datetime, regex or _time.regex())
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
diff --git a/src/csvw/db.py b/src/csvw/db.py
index 08a95ed..9ed01bd 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -38,7 +38,7 @@ import collections
 import attr
 
 import csvw
-from csvw.datatypes import DATATYPES
+from csvw.datatypes import DATATYPES, TIME_REFERENCE_DATE
 from csvw.metadata import TableGroup
 
 
@@ -200,8 +200,11 @@ class ColSpec:
                 'datetime': 'datetime',
                 'dateTime': 'datetime',
                 'dateTimeStamp': 'datetime',
+                'time': 'datetime',
             }.get(self.csvw_type)
             left, right = '`{}`'.format(cname), '{}'
+            if self.csvw_type == 'time':
+                left = "'{}T' || {}".format(TIME_REFERENCE_DATE.isoformat(), left)
             if func:
                 left, right = '{}({})'.format(func, left), func + "('{}')"
             elif self.db_type == 'TEXT':
-- 
2.43.0


From 83860d1960aea10f6e531beedf06265f433b03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 58/68] fix: take fractions of seconds into account when
 comparing with bounds in databases

---
 src/csvw/db.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 9ed01bd..b229674 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -197,10 +197,11 @@ class ColSpec:
         elif bounds:
             func = {
                 'date': 'date',
-                'datetime': 'datetime',
-                'dateTime': 'datetime',
-                'dateTimeStamp': 'datetime',
-                'time': 'datetime',
+                # (The function datetime drops fractions of seconds.)
+                'datetime': 'julianday',
+                'dateTime': 'julianday',
+                'dateTimeStamp': 'julianday',
+                'time': 'julianday',
             }.get(self.csvw_type)
             left, right = '`{}`'.format(cname), '{}'
             if self.csvw_type == 'time':
-- 
2.43.0


From 691e05deb32f73ec24cfc1be3cae6ed67f793536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:13 +0000
Subject: [PATCH 59/68] fix: do not reject infinite numbers in columns with
 bounds

---
 src/csvw/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index b229674..430cf91 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -210,7 +210,8 @@ class ColSpec:
                 left, right = '{}({})'.format(func, left), func + "('{}')"
             elif self.db_type == 'TEXT':
                 # Numbers are stored as text, but must not be compared as text.
-                left = 'CAST({} AS NUMERIC)'.format(left)
+                left = "CASE {0} WHEN 'inf' THEN 9e999 WHEN '-inf' THEN -9e999 " \
+                    "ELSE CAST({0} AS NUMERIC) END".format(left)
             for op, bound in bounds:
                 constraints.append('{} {} {}'.format(left, op, right.format(bound)))
         elif self.csvw_type not in ['base64Binary', 'binary'] and \
-- 
2.43.0


From d8ca98639352ea67e513d0368f5fcb18f6505d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 60/68] fix: do not accept a full stop as decimal separator if
 another one is specified

---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 15e98eb..a558933 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -677,6 +677,8 @@ class decimal(anyAtomicType):
             if groupChar:
                 v = v.replace(groupChar, '')
             if decimalChar and decimalChar != '.':
+                if '.' in v:
+                    decimal.value_error(v)
                 v = v.replace(decimalChar, '.')
             for c, factor in [('%', _decimal.Decimal('0.01')), ('‰', _decimal.Decimal('0.001'))]:
                 if c in v:
-- 
2.43.0


From b128d0c1f0fa4684dc66e88a6aaa89b16e150bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:46 +0000
Subject: [PATCH 61/68] fix: do not accept a trailing line break after a value
 matching a pattern

---
 src/csvw/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index a558933..0a43b0b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -107,10 +107,10 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `$` to
+            # We wrap a regex specified as `format` property into a group and add `\Z` to
             # make sure the whole string is matched when validating.
             try:
-                return {'regex': re.compile(r'({})$'.format(datatype.format))}
+                return {'regex': re.compile(r'({})\Z'.format(datatype.format))}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
-- 
2.43.0


From a3123e043ac8200aa99524bce67ecd6fd774b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:49 +0000
Subject: [PATCH 62/68] fix: match whole durations against the format

---
 src/csvw/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 0a43b0b..7e15e92 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -532,8 +532,8 @@ class duration(anyAtomicType):
 
     @staticmethod
     def to_python(v, format=None, **kw):
-        if format and not re.match(format, v):
-            raise ValueError
+        if format and not re.fullmatch(format, v):
+            duration.value_error(v)
         return isodate.parse_duration(v)
 
     @staticmethod
-- 
2.43.0


From eb9640d07ddb1486932cb6423320a5af52bace83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:43 +0000
Subject: [PATCH 63/68] fix: do not strip U+FEFF from the beginning of any line
 but the first when reading lines of bytes

---
 src/csvw/dsv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 21ffcf9..22235d1 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -209,8 +209,12 @@ class UnicodeReader:
             self._close = True
         elif not hasattr(self.f, 'read'):
             lines = []
+            encoding = self.encoding
             for line in self.f:
-                lines.append(line.decode(self.encoding) if isinstance(line, bytes) else line)
+                lines.append(line.decode(encoding) if isinstance(line, bytes) else line)
+                # Only the first line may start with a BOM.
+                if encoding == 'utf-8-sig':
+                    encoding = 'utf-8'
             self.f = lines
         try:
             self.reader = csv.reader(self.f, **self.kw)
-- 
2.43.0


From 27c1e38896eb5c8af07e845aa56fa6dcd0eda738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:46 +0000
Subject: [PATCH 64/68] fix: check values of datatype normalizedString against
 the format

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 7e15e92..6c74a23 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1016,7 +1016,7 @@ class normalizedString(string):
             for c in '\r\n\t':
                 v = v.replace(c, ' ')
             v = v.strip()
-        return string.to_python(v, '')
+        return string.to_python(v, regex=regex)
 
 
 @register
-- 
2.43.0


From a107ec2f6e6ff11585abb203e77805fefed4fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:36 +0000
Subject: [PATCH 65/68] fix: recognize a BOM also with encodings of dialects
 spelled UTF-8 or utf8

---
 src/csvw/dsv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 22235d1..c774246 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -178,7 +178,7 @@ class UnicodeReader:
         self.newline = kw.pop('lineterminator', None)
         self.dialect = dialect if isinstance(dialect, Dialect) else None
         if self.dialect:
-            self.encoding = self.dialect.python_encoding
+            self.encoding = normalize_encoding(self.dialect.python_encoding)
             self.kw = dialect.as_python_formatting_parameters()
             self.kw.update(kw)
         else:
-- 
2.43.0


From 4f058775c018a6a5fb8b5e63b38ad76be573b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:20 +0000
Subject: [PATCH 66/68] fix: accept bounds given as JSON numbers for datatypes
 with a number pattern

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6c74a23..b1c4786 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -664,7 +664,7 @@ class decimal(anyAtomicType):
             groupChar = ','
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
-        if pattern and not NumberPattern(pattern).is_valid(
+        if pattern and isinstance(v, str) and not NumberPattern(pattern).is_valid(
                 replace_chars(v, {groupChar or ',': ',', decimalChar or '.': '.'})):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
-- 
2.43.0


From 4dea3a98c61f80c93ab93fbb7b2ce521f7481024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 67/68] fix: expand value URLs of virtual columns in tables
 with a column named self

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6037b53..fd2fb35 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1486,7 +1486,7 @@ class Table(TableLike):
 
                 # Augment result with virtual columns:
                 for key, valueUrl in virtualcols:
-                    res[key] = valueUrl.expand(**res)
+                    res[key] = valueUrl.expand(res)
 
                 if not error:
                     if with_metadata:
-- 
2.43.0


From 03bcda4cb84d8c2dcd21e4bfe211adab9c0cfb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:38 +0000
Subject: [PATCH 68/68] fix: expand URI templates for tables with a column
 named self or var_dict

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fd2fb35..637ccc5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1196,9 +1196,9 @@ class TableLike(Description):
         else:
             res = Link(
                 tmpl.expand(
+                    {_k: _v for _k, _v in row.items() if isinstance(_k, str)},
                     _row=_row,
                     _name=_name,
-                    **{_k: _v for _k, _v in row.items() if isinstance(_k, str)}
                 )).resolve(self.url.resolve(self.base) if self.url else self.base)
         if not isinstance(res, pathlib.Path):
             if qname:
-- 
2.43.0

