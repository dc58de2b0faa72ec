From 10ecec3f89199ab08b6f5197029b9eb29f1169f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 01/32] fix: accept samples logged with their trailing padding
 fields

max_data_size was computed after the padding fields at the end had been
removed, so that such samples were dropped as corrupt data.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..4cf5bb2 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -753,7 +753,6 @@ class ULog(object):
             dtype_list = []
             for field in self.field_data:
                 numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
-                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
                 dtype_list.append((field.field_name, numpy_type))
             self.dtype = np.dtype(dtype_list).newbyteorder('<')
 
@@ -761,6 +760,9 @@ class ULog(object):
         def _parse_format(self, message_formats):
             self._parse_nested_type('', self.message_name, message_formats)
 
+            for field in self.field_data:
+                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
+
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-- 
2.43.0


From 47a8f28afbac03d57bdf08f6416b40ffc357c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 02/32] fix: use the bit index as type of default parameters

Only the first two bits mapped to their index, bit 2 and above were stored
under the value of the bit minus 1.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 4cf5bb2..a753a61 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -834,7 +834,7 @@ class ULog(object):
         while default_types: # iterate over each bit
             def_type = default_types & (~default_types+1)
             default_types ^= def_type
-            def_type -= 1
+            def_type = def_type.bit_length() - 1 # bit index
             if def_type not in self._default_parameters:
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
-- 
2.43.0


From 8d5f17fe7c749d7ec58b426f111fb6db917202c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 03/32] fix: write char samples above 127

char columns are np.int8, chr() raises ValueError for the negative values.
---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index a753a61..5e571bb 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -436,7 +436,7 @@ class ULog(object):
                     # For char type, convert np.int8 into single bytes() object
                     # so that struct.pack can handle it
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_data = int(field_data).to_bytes(1, 'little', signed=True)
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From cd80f72f881c47d1912598b73384be306b35943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 04/32] fix: write info messages with an array value of any
 type

Reading keeps the raw bytes of such values, but writing was limited to
uint8_t arrays (KeyError otherwise).
---
 pyulog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 5e571bb..e6af461 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -359,11 +359,11 @@ class ULog(object):
         if value_type.startswith('char['):
             value_bytes = bytes(value, 'utf-8')
             data.extend(value_bytes)
-        elif value_type.startswith('uint8_t['):
-            data.extend(value)
-        else:
+        elif value_type in self._UNPACK_TYPES:
             code = self._UNPACK_TYPES[value_type][0]
             data.extend(struct.pack('<' + code, value))
+        else: # array (or non-basic type), stored as raw bytes
+            data.extend(value)
 
         return data
 
-- 
2.43.0


From 9af8c24ae0ec5bb3747143602258bb24d9027fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 05/32] fix: load a log that is cut in the definitions section

A cut message header raised struct.error, and a cut message was parsed with
the bytes there are: seeking back by the full message size then led to an
exception or an endless loop.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index e6af461..381e41c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -900,10 +900,12 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
+            if len(data) < 3:
                 break
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
+            if len(data) < header.msg_size:
+                break # less data than expected. File is most likely cut
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
-- 
2.43.0


From 88aedd6458cdad2fdb6a19af6179353f966184e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 06/32] fix: skip a message that cannot be parsed and report
 the corruption

A malformed payload made the parser stop silently in the data section
(struct.error was taken for the end of the file) or raise an exception
(definitions, subscription of an unknown format). Handle it like the
IndexError case: set file_corruption and go on with the next message.
---
 pyulog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 381e41c..55cbe0e 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -962,7 +962,7 @@ class ULog(object):
                         # skipping the message
                         self._file_handle.seek(-2-header.msg_size, 1)
 
-            except IndexError:
+            except (IndexError, KeyError, struct.error):
                 if not self._file_corrupt:
                     print("File corruption detected while reading file definitions!")
                     self._file_corrupt = True
@@ -1122,7 +1122,7 @@ class ULog(object):
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
 
-                except IndexError:
+                except (IndexError, KeyError, struct.error):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From 8c87b94dd1da9061cfb61b6515789cf4a8dbc59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 07/32] fix: keep track of the file position after searching
 for sync

_find_sync moves the file position, but the parser went on with the old one
to decide where the appended data begins, and read that data twice.
---
 pyulog/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index 55cbe0e..fda30a5 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1121,6 +1121,7 @@ class ULog(object):
                             # seek back msg_size to look for sync sequence in payload
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
+                        curr_file_pos = self._file_handle.tell()
 
                 except (IndexError, KeyError, struct.error):
                     if not self._file_corrupt:
-- 
2.43.0


From 1ba01d8a47189c521b4662b621f85f87221f8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 08/32] fix: do not duplicate the content when loading from the
 database again

Calling load() a second time, e.g. to get the data series after a lazy load,
appended all messages to the ones that were there already.
---
 pyulog/db.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..a63c87b 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -220,6 +220,20 @@ class DatabaseULog(ULog):
         if not DatabaseULog.exists_in_db(self._db, self._pk):
             raise KeyError(f'No ULog in database with Id={self._pk}')
 
+        # load() can be called again on the same object
+        self._appended_offsets = []
+        self._dropouts = []
+        self._logged_messages = []
+        self._logged_messages_tagged = {}
+        self._message_formats = {}
+        self._msg_info_dict = {}
+        self._msg_info_dict_types = {}
+        self._msg_info_multiple_dict = {}
+        self._msg_info_multiple_dict_types = {}
+        self._initial_parameters = {}
+        self._default_parameters = {}
+        self._changed_parameters = []
+
         with self._db() as con:
             cur = con.cursor()
 
-- 
2.43.0


From bfcfa9042e9245bc5b2bf598769933ffe808476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 09/32] fix: create a DatabaseULog from an open file

Computing the hash left the file at its end, so that reading the log from
the same file object failed with "Header too short".
---
 pyulog/db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index a63c87b..af6a7fb 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -122,11 +122,13 @@ class DatabaseULog(ULog):
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
+            position = open_file.tell()
             while True:
                 block = open_file.read(4096)
                 file_hash.update(block)
                 if block == b'':
                     break
+            open_file.seek(position)
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From 08e6893300008395f6f59d8d45f44d09e85428b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 10/32] fix: allow write_ulog on a DatabaseULog created from a
 file

The data of such an object is never loaded lazily, but with the default of
the lazy argument writing was refused.
---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index af6a7fb..8add1de 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -173,7 +173,7 @@ class DatabaseULog(ULog):
 
         self._pk = primary_key
         self._db = db_handle
-        self._lazy_loaded = lazy
+        self._lazy_loaded = lazy and log_file is None
         if log_file is not None:
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
-- 
2.43.0


From 61a06f4cd9e52cb6bcf70b17b62b80ddd20dbcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 11/32] fix: do not keep the primary key of a log after a
 failed save

The rows are rolled back when save() fails, but the object still claimed to
be in the database with an Id that does not exist (or later belongs to
another log, which delete() would then remove).
---
 pyulog/db.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 8add1de..beed335 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -523,6 +523,17 @@ class DatabaseULog(ULog):
             self._pk = pk_from_hash
             raise KeyError(f'Hash {self._sha256sum} already in database with Id={pk_from_hash}')
 
+        try:
+            self._insert(append_json)
+        except BaseException:
+            # Nothing was stored: the transaction is rolled back
+            self._pk = None
+            raise
+
+    def _insert(self, append_json):
+        '''
+        Insert all rows of the log in a single transaction.
+        '''
         with self._db() as con:
             cur = con.cursor()
 
-- 
2.43.0


From 309f708f9194e0edc493182e181ff7b1e16ebf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 12/32] fix: save negative infinity with append_json

It was turned into "-null", which sqlite rejects as malformed JSON.
---
 pyulog/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index beed335..ff12263 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -597,7 +597,8 @@ class DatabaseULog(ULog):
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                         values_json = str(
                             dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        ).replace('nan', 'null').replace('-inf', 'null').replace(
+                            'inf', 'null').replace("'", '"')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From d7e3fe82b142d9b0c407123f0d0cd44d63498c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 13/32] fix: set user_version in the transaction of the
 migration

When interrupted between the COMMIT of a migration and the update of
user_version, the migration was applied again on the next run, which fails
for example with "duplicate column name".
---
 pyulog/migrate_db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..35418a0 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,10 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    # Set the version in the same transaction, so that an interruption cannot
+    # leave a migrated database with the old version.
+    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
+    migration_lines += f'PRAGMA user_version = {migration_id};\nCOMMIT;'
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From b02cb5b96e5d2ab72130e6e26f9dadc2d92ac2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 14/32] fix: migrate a database that contains logs from schema
 version 1

The pragma in the migration files is a no-op inside of their transaction, so
dropping the old tables failed with "FOREIGN KEY constraint failed".
---
 pyulog/migrate_db.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 35418a0..d28df83 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -120,6 +120,8 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # This has no effect inside of a transaction, i.e. in the migration files
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From eb50f175140e7c579570c02991f20ff710a31d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 15/32] fix: load NaN parameters from the database as NaN

sqlite stores NaN as NULL, which was returned as None: such a log could not
be written anymore.
---
 pyulog/db.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index ff12263..c7208ce 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -366,7 +366,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = value
+                self._msg_info_dict[key] = self._from_db_value(value)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -391,7 +391,8 @@ class DatabaseULog(ULog):
                         WHERE ListId = ?
                         ORDER BY SeriesIndex
                         ''', (list_id,))
-                    self._msg_info_multiple_dict[key].append([value for (value,) in cur.fetchall()])
+                    self._msg_info_multiple_dict[key].append(
+                        [self._from_db_value(value) for (value,) in cur.fetchall()])
 
             # initial_parameters
             cur.execute('''
@@ -400,7 +401,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, value in cur.fetchall():
-                self._initial_parameters[key] = value
+                self._initial_parameters[key] = self._from_db_value(value)
 
             # _default_parameters
             cur.execute('''
@@ -411,7 +412,7 @@ class DatabaseULog(ULog):
             for default_type, key, value in cur.fetchall():
                 if default_type not in self._default_parameters:
                     self._default_parameters[default_type] = {}
-                self._default_parameters[default_type][key] = value
+                self._default_parameters[default_type][key] = self._from_db_value(value)
 
             # changed_parameters
             cur.execute('''
@@ -420,11 +421,18 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for timestamp, key, value in cur.fetchall():
-                self._changed_parameters.append((timestamp, key, value))
+                self._changed_parameters.append((timestamp, key, self._from_db_value(value)))
 
             cur.close()
         self._lazy_loaded = lazy
 
+    @staticmethod
+    def _from_db_value(value):
+        '''
+        sqlite stores a NaN as NULL, which is not used for anything else here.
+        '''
+        return float('nan') if value is None else value
+
     def get_dataset(self, name, multi_instance=0, lazy=False, db_cursor=None, caching=True):
         '''
         Access a specific dataset and its data series from the database.
-- 
2.43.0


From cdf6c38191c88fb00cc935276e019e2f54f8166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 16/32] fix: accept time limits after the last sample in
 ulog2csv and extract_message

---
 pyulog/extract_message.py | 5 +++--
 pyulog/ulog2csv.py        | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..ae9fb79 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -38,10 +38,11 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
+    #(past the end if there is none)
+    time_s_i = np.append(data.data['timestamp'] >= time_s * 1e6, True).argmax() \
             if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
+    time_e_i = np.append(data.data['timestamp'] >= time_e * 1e6, True).argmax() \
             if time_e else len(data.data['timestamp'])
 
     # write the data
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..fe1a581 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -131,10 +131,11 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
+            #(past the end if there is none)
+            time_s_i = np.append(d.data['timestamp'] >= time_s * 1e6, True).argmax() \
                     if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
+            time_e_i = np.append(d.data['timestamp'] >= time_e * 1e6, True).argmax() \
                     if time_e else len(d.data['timestamp'])
 
             # write the data
-- 
2.43.0


From c830de521ccc6dc0fbf41b138d90944f3442d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 17/32] fix: write strings with non-ASCII characters to CSV

---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index fe1a581..5266495 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -54,13 +54,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = bytearray()
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s.append(int(character) & 0xff)
+    return ULog.parse_string(s)
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From d8f5fda43c857178e937d2e709298e3de14ca5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 18/32] fix: quote strings in CSV that contain the delimiter, a
 quote or a line break

---
 pyulog/ulog2csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index 5266495..29c6664 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -144,6 +144,8 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
                 for k in range(len(data_keys)):
                     if data_keys[k] in string_array_sizes: # string
                         s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
+                        if any(c in s for c in (delimiter, '"', '\n', '\r')): # needs quoting
+                            s = '"' + s.replace('"', '""') + '"'
                         csvfile.write(s)
                     else:
                         csvfile.write(str(d.data[data_keys[k]][i]))
-- 
2.43.0


From d779ef21d1f0ab967f0b5ad4799ec6b4237e1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 19/32] fix: show info multiple messages with a numeric value

---
 pyulog/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/info.py b/pyulog/info.py
index 129bc6f..4512ee5 100644
--- a/pyulog/info.py
+++ b/pyulog/info.py
@@ -97,7 +97,7 @@ def main():
                     print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
                 else:
                     print("# {} {}:".format(message, i))
-                    print(separator.join(m))
+                    print(separator.join(str(item) for item in m))
         else:
             print("message {} not found".format(message))
     else:
-- 
2.43.0


From b608a25e0735da4891cb80ed29f30a017dee18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 20/32] fix: show empty messages of PX4 logs

---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From 7c922d1d2e2e73af10784b83b1507654511fec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 21/32] fix: color flight modes beyond the color table in
 ulog2kml

---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index a3f8fcb..346cfd2 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -51,7 +51,7 @@ def _kml_default_colors(x):
                   simplekml.Color.lawngreen, simplekml.Color.indianred, simplekml.Color.hotpink,
                   simplekml.Color.bisque, simplekml.Color.cyan, simplekml.Color.darksalmon,
                   simplekml.Color.deepskyblue, simplekml.Color.lime, simplekml.Color.orchid]
-    return colors_arr[x]
+    return colors_arr[x % len(colors_arr)]
 
 
 
-- 
2.43.0


From 2185763be96be81e6cae138daedaf3801e110e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 22/32] fix: compare the version of rosbag2_py by number in
 ulog2ros2bag

---
 pyulog/ulog2ros2bag.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 08f3183..9d9abfa 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -285,12 +285,17 @@ def convert_ulog2ros2bag(
     )
 
 
+def rosbag2_py_version():
+    """Installed version of rosbag2_py as a tuple of numbers, e.g. (0, 25, 0)"""
+    return tuple(int(number) for number in re.findall(r"\d+", version("rosbag2_py"))[:3])
+
+
 def rosbag_topicmetadata_uses_id():
     """
     rosbag2_py PR #1538 adds a parameter to TopicMetadata.__init__() for a topic ID,
     breaking the interface. This attempts to add compability with both versions.
     """
-    return version("rosbag2_py") >= "0.25.0"
+    return rosbag2_py_version() >= (0, 25, 0)
 
 
 def rosbag_write_uses_seqnum():
@@ -299,7 +304,7 @@ def rosbag_write_uses_seqnum():
     topic sequence number, breaking the interface. This attempts to add compatibility
     with both versions.
     """
-    return version("rosbag2_py") >= "0.32.0"
+    return rosbag2_py_version() >= (0, 32, 0)
 
 
 def calc_msgtype(topic_name: str) -> str | None:
-- 
2.43.0


From 60687449733402e845b692d5f62f0eb063de0e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 23/32] fix: pitch at +-90 degrees is not NaN

---
 pyulog/px4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 71490cd..446ecd0 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -93,7 +93,8 @@ class PX4ULog(object):
             q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
             roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                               1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
-            pitch = np.arcsin(2.0 * (q[0] * q[2] - q[3] * q[1]))
+            # rounding can bring the sine slightly out of range at +-90 degrees
+            pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
             message_data.data['roll'+field_name_suffix] = roll
-- 
2.43.0


From b87140b4613174f49e79c9b2b1c8f5f47ac253e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 24/32] fix: read a log from the database in one transaction

---
 pyulog/db.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index c7208ce..3f7dc10 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -219,26 +219,12 @@ class DatabaseULog(ULog):
         Even if the log was originally saved with append_json=True, this
         function will always use the faster BLOB column for retrieval.
         '''
-        if not DatabaseULog.exists_in_db(self._db, self._pk):
-            raise KeyError(f'No ULog in database with Id={self._pk}')
-
-        # load() can be called again on the same object
-        self._appended_offsets = []
-        self._dropouts = []
-        self._logged_messages = []
-        self._logged_messages_tagged = {}
-        self._message_formats = {}
-        self._msg_info_dict = {}
-        self._msg_info_dict_types = {}
-        self._msg_info_multiple_dict = {}
-        self._msg_info_multiple_dict_types = {}
-        self._initial_parameters = {}
-        self._default_parameters = {}
-        self._changed_parameters = []
-
         with self._db() as con:
             cur = con.cursor()
 
+            # All queries have to see the same state of the database
+            cur.execute('BEGIN')
+
             # ULog metadata
             cur.execute('''
                 SELECT FileVersion,
@@ -253,6 +239,23 @@ class DatabaseULog(ULog):
                 WHERE Id = ?
                 ''', (self._pk,))
             ulog_result = cur.fetchone()
+            if ulog_result is None:
+                raise KeyError(f'No ULog in database with Id={self._pk}')
+
+            # load() can be called again on the same object
+            self._appended_offsets = []
+            self._dropouts = []
+            self._logged_messages = []
+            self._logged_messages_tagged = {}
+            self._message_formats = {}
+            self._msg_info_dict = {}
+            self._msg_info_dict_types = {}
+            self._msg_info_multiple_dict = {}
+            self._msg_info_multiple_dict_types = {}
+            self._initial_parameters = {}
+            self._default_parameters = {}
+            self._changed_parameters = []
+
             self._file_version = ulog_result[0]
             self._start_timestamp = ulog_result[1]
             self._last_timestamp = ulog_result[2]
@@ -469,6 +472,9 @@ class DatabaseULog(ULog):
             return existing_dataset
 
         with db_context:
+            if db_cursor is None:
+                # Both queries have to see the same state of the database
+                cur.execute('BEGIN')
             cur.execute('''
                 SELECT Id, TimestampIndex, MessageId
                 FROM ULogDataset
-- 
2.43.0


From ccaf1ac9f8bc996ec466e8caf43d2ae51afe2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 25/32] fix: do not migrate a database that was migrated in the
 meantime

---
 pyulog/migrate_db.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index d28df83..9f5ddba 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -89,7 +89,15 @@ def _read_migration_file(migration_id, sql_dir):
 
     # Set the version in the same transaction, so that an interruption cannot
     # leave a migrated database with the old version.
-    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
+    migration_lines = migration_lines.strip()[len('BEGIN;'):-len('COMMIT;')]
+    # Let the transaction fail if someone else has migrated the database since
+    # its version was read.
+    migration_lines = (
+        'BEGIN;\n'
+        f'CREATE TEMP TABLE pyulog_version (Version INT CHECK (Version = {migration_id - 1}));\n'
+        'INSERT INTO pyulog_version SELECT user_version FROM pragma_user_version;\n'
+        'DROP TABLE pyulog_version;'
+    ) + migration_lines
     migration_lines += f'PRAGMA user_version = {migration_id};\nCOMMIT;'
     return migration_filename, migration_lines
 
-- 
2.43.0


From 998ac152860aba8a1820c365312d650d3410a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 26/32] fix: a subscription of a format that contains itself is
 corrupt data, not an error

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index fda30a5..e2c4100 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1123,7 +1123,7 @@ class ULog(object):
                                 self._find_sync(header.msg_size)
                         curr_file_pos = self._file_handle.tell()
 
-                except (IndexError, KeyError, struct.error):
+                except (IndexError, KeyError, RecursionError, struct.error):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From 10167ecc50b653c5fcf89b0b822ecf73e680cee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 27/32] fix: ulog2ros2bag failed for characters that are not
 ASCII

---
 pyulog/ulog2ros2bag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 9d9abfa..b1684c7 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -362,6 +362,10 @@ def ros2ify_value(field_name: str, value, MsgType: object):
     if value_type == np.int8 and ros2_type.startswith("bool"):
         return bool(value)
 
+    # char is unsigned in ROS2
+    if value_type == np.int8 and ros2_type.startswith("uint8"):
+        return int(value) & 0xFF
+
     return value.item()
 
 
-- 
2.43.0


From 4aca721ae8fc1ece2d94ae5122ff132a3e107528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 28/32] fix: formats without fields were not read from the
 database

---
 pyulog/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 3f7dc10..6c3e590 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -347,7 +347,7 @@ class DatabaseULog(ULog):
                     field.FieldType,
                     field.ArraySize,
                     field.Name
-                FROM ULogMessageFormat msg JOIN ULogMessageFormatField field
+                FROM ULogMessageFormat msg LEFT JOIN ULogMessageFormatField field
                     ON field.MessageId = msg.Id
                 WHERE ULogId = ?
                 ''', (self._pk,))
@@ -359,7 +359,7 @@ class DatabaseULog(ULog):
                 else:
                     self._message_formats[msg_name] = DatabaseULog.DatabaseMessageFormat(
                         name=msg_name,
-                        fields=[field_data]
+                        fields=[field_data] if field_data[0] is not None else [] # no fields
                     )
 
             # msg_info_dict
-- 
2.43.0


From 4af2eebb6492254d6b3058564c15e64bb903ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 29/32] fix: compare the columns of a dataset by name

---
 pyulog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index e2c4100..2271f10 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -532,7 +532,8 @@ class ULog(object):
             # Compare data arrays
             arrays_equal = self.data.keys() == other.data.keys()
             if arrays_equal:
-                for l_array, r_array in zip(self.data.values(), other.data.values()):
+                for field_name, l_array in self.data.items():
+                    r_array = other.data[field_name]
                     arrays_equal = arrays_equal and np.array_equal(l_array, r_array, equal_nan=True)
 
             return (self.multi_id == other.multi_id and
-- 
2.43.0


From 6cd403fc62a2a20dec69aae2a5e347efa6c01692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 30/32] fix: migration files in a directory with braces in its
 name were not found

---
 pyulog/migrate_db.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 9f5ddba..c9aa3cd 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -74,8 +74,7 @@ def _read_migration_file(migration_id, sql_dir):
     Read the migration file with id "migration_id" in directory "sql_dir", and
     check that it handles transactions strictly.
     '''
-    migration_filename_format = os.path.join(sql_dir, 'pyulog.{migration_id}.sql')
-    migration_filename = migration_filename_format.format(migration_id=migration_id)
+    migration_filename = os.path.join(sql_dir, f'pyulog.{migration_id}.sql')
     if not os.path.exists(migration_filename):
         raise FileNotFoundError(f'Migration file {migration_filename} does not exist. '
                                 f'Stopped after migration {migration_id}.')
-- 
2.43.0


From 68541e5722e86c612ff45d65d7f216717436fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 31/32] fix: keep the subscriptions of a log for its appended
 data

Samples in an appended part that belong to a subscription in front of it
were dropped, and the log counted as corrupt.
---
 pyulog/core.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 2271f10..2ea2bd0 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -125,6 +125,7 @@ class ULog(object):
         self._subscriptions = {} # dict of key=msg_id, value=_MessageAddLogged
         self._filtered_message_ids = set() # _MessageAddLogged id's that are filtered
         self._missing_message_ids = set() # _MessageAddLogged id's that could not be found
+        self._inherited_message_ids = set() # _MessageAddLogged id's from before the appended data
         self._file_version = 0
         self._compat_flags = [0] * 8
         self._incompat_flags = [0] * 8
@@ -877,10 +878,19 @@ class ULog(object):
             for offset in self._appended_offsets:
                 self._read_file_data(message_name_filter_list, read_until=offset)
                 self._file_handle.seek(offset)
+                self._inherited_message_ids = set(self._subscriptions)
 
         # read the whole file, or the rest if data appended
         self._read_file_data(message_name_filter_list)
 
+        # convert into final representation
+        while self._subscriptions:
+            _, value = self._subscriptions.popitem()
+            self._add_dataset(value)
+        self._inherited_message_ids.clear()
+        # Sorting is necessary to be able to compare two ULogs correctly
+        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
+
         self._file_handle.close()
         del self._file_handle
 
@@ -1076,6 +1086,10 @@ class ULog(object):
                     elif header.msg_type == self.MSG_TYPE_ADD_LOGGED_MSG:
                         msg_add_logged = self._MessageAddLogged(data, header,
                                                                 self._message_formats)
+                        if msg_add_logged.msg_id in self._inherited_message_ids:
+                            # the appended data uses the id for something else
+                            self._inherited_message_ids.remove(msg_add_logged.msg_id)
+                            self._add_dataset(self._subscriptions.pop(msg_add_logged.msg_id))
                         if (message_name_filter_list is None or
                                 msg_add_logged.message_name in message_name_filter_list):
                             self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
@@ -1132,14 +1146,11 @@ class ULog(object):
         except struct.error:
             pass #we read past the end of the file
 
-        # convert into final representation
-        while self._subscriptions:
-            _, value = self._subscriptions.popitem()
-            if len(value.buffer) > 0: # only add if we have data
-                data_item = ULog.Data(value)
-                self._data_list.append(data_item)
-        # Sorting is necessary to be able to compare two ULogs correctly
-        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
+    def _add_dataset(self, subscription):
+        """ convert the collected data of a _MessageAddLogged object """
+        if len(subscription.buffer) > 0: # only add if we have data
+            data_item = ULog.Data(subscription)
+            self._data_list.append(data_item)
 
     def _check_packet_corruption(self, header):
         """
-- 
2.43.0


From b513cf0f84917b3382cb0b4d535ffe17f61a27b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:57 +0000
Subject: [PATCH 32/32] fix: give every data set an own message id when writing
 a log

Data appended to a log can use a message id again. All samples of both data
sets were then written with the same id, and one of them was lost.
---
 pyulog/core.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 2ea2bd0..cfb1666 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -391,11 +391,9 @@ class ULog(object):
             file.write(data)
 
     def _write_logged_message_subscriptions(self, file):
-        data_sets = sorted(self._data_list, key=lambda x: x.msg_id)
-
-        for data_set in data_sets:
+        for msg_id, data_set in self._data_sets_by_msg_id():
             data = bytearray()
-            data.extend(struct.pack('<BH', data_set.multi_id, data_set.msg_id))
+            data.extend(struct.pack('<BH', data_set.multi_id, msg_id))
             data.extend(bytes(data_set.name, 'utf-8'))
 
             header = struct.pack('<HB', len(data), self.MSG_TYPE_ADD_LOGGED_MSG)
@@ -417,15 +415,31 @@ class ULog(object):
         for _, buffer in items:
             file.write(buffer)
 
-    def _make_data_items(self):
+    def _data_sets_by_msg_id(self):
+        """ get the data sets ordered by message id, each with an id that no other one has
+        (appended data can use the ids of the data in front of it for other data sets) """
         data_sets = sorted(self._data_list, key=lambda x: x.msg_id)
+        used_ids = {data_set.msg_id for data_set in data_sets}
+        unique_ids = {}
+        next_id = 0
+        for data_set in data_sets:
+            msg_id = data_set.msg_id
+            if msg_id in unique_ids:
+                while next_id in used_ids:
+                    next_id += 1
+                msg_id = next_id
+                used_ids.add(msg_id)
+            unique_ids[msg_id] = data_set
+        return unique_ids.items()
+
+    def _make_data_items(self):
         data_items = []
 
-        for data_set in data_sets:
+        for unique_id, data_set in self._data_sets_by_msg_id():
             data_set_length = len(data_set.data[data_set.field_data[0].field_name])
             for i_sample in range(data_set_length):
                 timestamp = data_set.data['timestamp'][i_sample]
-                msg_id = struct.pack('<H', data_set.msg_id)
+                msg_id = struct.pack('<H', unique_id)
                 data = bytearray()
                 data.extend(msg_id)
                 for field in data_set.field_data:
-- 
2.43.0

