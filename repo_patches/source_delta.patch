From 0fd33dacc689395bd0924b39fdc328b3a3f5c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:40 +0000
Subject: [PATCH 01/46] fix: rebuild the catalogue with pandas.concat,
 DataFrame.append no longer exists

---
 src/dispersion/catalogue.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..291d687 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -143,17 +143,19 @@ class Catalogue(object):
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
                     if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
+                        df_new = pd.concat([df_new, dframe], sort=False,
+                                           ignore_index=True)
                     else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                        df_new = pd.concat([df_new, dframe],
+                                           ignore_index=True)
                 else:
                     dframe = df[df.Module == module]
                     if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
+                        df_new = pd.concat([df_new, dframe], sort=False,
+                                           ignore_index=True)
                     else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                        df_new = pd.concat([df_new, dframe],
+                                           ignore_index=True)
 
             else:
                 if rebuild == module:
-- 
2.43.0


From 5bdec637e9f70a1ab9e31bdd97910a1e6b50fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:10 +0000
Subject: [PATCH 02/46] fix: register_alias accepts a one-row selection again
 and refuses rows that do not exist

.at needs a scalar label: a selection raised InvalidIndexError, and a row
number outside the table silently appended an empty row.
---
 src/dispersion/catalogue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 291d687..21ee0c1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -228,9 +228,12 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if row_id.shape[0] != 1:
+                raise ValueError("row_id must select exactly one row, " +
+                                 "not {}".format(row_id.shape[0]))
+            index = row_id.index[0]
         elif isinstance(row_id, int):
-            index = row_id
+            index = self.database.index[row_id]
         if index is None:
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
-- 
2.43.0


From 44a8cd6b99d8a920b772c65fb567b4b07666388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:10 +0000
Subject: [PATCH 03/46] fix: get_material by alias looks up the row by
 position, not by index label

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 21ee0c1..165c222 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -251,7 +251,7 @@ class Catalogue(object):
         if isinstance(identifier, str):
             bool_array = self.database.Alias.values == identifier
             bool_list = bool_array.tolist()
-            row_index = self.database.index[bool_list]
+            row_index = np.flatnonzero(bool_list)
             if row_index.size == 0:
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
-- 
2.43.0


From e0f1661458c1d448826cfc35142bb2fd3f52618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:10 +0000
Subject: [PATCH 04/46] fix: a failed read of a yaml file is no longer
 swallowed and continued mid-file

---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..150a665 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -145,7 +145,7 @@ def read_yaml_file(file_path):
         else:
             try:
                 yaml_data = yaml.load(fpt, Loader=yaml.FullLoader)
-            except:
+            except AttributeError: # PyYAML < 5.1
                 yaml_data = yaml.safe_load(fpt)
     return yaml_data
 
@@ -177,7 +177,7 @@ def read_yaml_string(string_data):
     else:
         try:
             yaml_data = yaml.load(string_data, Loader=yaml.FullLoader)
-        except:
+        except AttributeError: # PyYAML < 5.1
             yaml_data = yaml.safe_load(string_data)
     return yaml_data
 
-- 
2.43.0


From e3fecd4c25ab92f30225ad1fef174905d223d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:10 +0000
Subject: [PATCH 05/46] fix: metadata of an earlier read no longer leaks into a
 later read of the same Reader

---
 src/dispersion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 150a665..c6737f9 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -374,7 +374,7 @@ class Reader():
 
         dataset = self._read_text_data()
         comment = self._read_text_comment()
-        file_dict = dict(self.default_file_dict)
+        file_dict = self._create_default_file_dict()
         file_dict['Datasets'][0] = dataset
         multi_line_comment = ""
         for line in comment:
@@ -426,7 +426,7 @@ class Reader():
         #dir_path = os.path.dirname(os.path.realpath(__file__))
         yaml_data = read_yaml_file(self.file_path)
 
-        file_dict = dict(self.default_file_dict)
+        file_dict = self._create_default_file_dict()
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
         mcomment = mcomment[:-1]
-- 
2.43.0


From c3be1bcfa881b39232deafd50736d85c36e14141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:10 +0000
Subject: [PATCH 06/46] fix: reading a yml file keeps the last character of the
 header comment

---
 src/dispersion/io.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index c6737f9..dbd1c30 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -429,7 +429,6 @@ class Reader():
         file_dict = self._create_default_file_dict()
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From 04ba1053e742d53db69bc428d4112a7a06cac8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:51 +0000
Subject: [PATCH 07/46] fix: a Writer can write again, after a failed attempt
 or with other options

write_file consumed its file_dict: the second call raised KeyError, and
popping two constant datasets by their old positions raised IndexError.
---
 src/dispersion/io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index dbd1c30..f9804c7 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -600,7 +600,7 @@ class Writer():
         """
         self.ignore_constant = ignore_constant
         self.use_rii_aliases = use_rii_aliases
-        meta_comment = self.file_dict['MetaData'].pop('MetaComment')
+        meta_comment = self.file_dict['MetaData']['MetaComment']
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
         if self.extension in txt_types:
@@ -678,8 +678,9 @@ class Writer():
             if ("constant" in dataset['DataType'] and
                     self.ignore_constant):
                 pop_dataset.append(ids)
-        for pop_id in pop_dataset:
-            self.file_dict['Datasets'].pop(pop_id)
+        datasets = [dataset for ids, dataset
+                    in enumerate(self.file_dict['Datasets'])
+                    if ids not in pop_dataset]
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
             #     no_brackets = re.sub(r'[\[\]]', '', string_array)
@@ -689,13 +690,15 @@ class Writer():
 
         yaml_dict = {}
         for key in self.file_dict['MetaData']:
+            if key == 'MetaComment':
+                continue
             if key in Writer.KEY_ALIASES:
                 md = self.file_dict['MetaData'][key]
                 yaml_dict[Writer.KEY_ALIASES[key]] = md
             else:
                 yaml_dict[key] = md
 
-        yaml_dict['DATA'] = self.file_dict['Datasets']
+        yaml_dict['DATA'] = datasets
 
 
         if self.use_rii_aliases:
-- 
2.43.0


From e64930b0ff83bd4a501c13ddd4419cc1f57f38c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 08/46] fix: saving the catalogue, configuration or a material
 replaces the file in one step

A failure, Ctrl-C or crash in the middle of a save left an empty or
truncated file in place of the previous one.
---
 src/dispersion/catalogue.py |  8 ++++--
 src/dispersion/io.py        | 55 +++++++++++++++++++++++++++++--------
 2 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 165c222..e491c89 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -27,7 +27,7 @@ PANDAS_MINOR_VERSION = int(split[1])
 from dispersion.material import Material
 from dispersion.spectrum import Spectrum
 from dispersion.config import get_config, validate_config
-from dispersion.io import read_yaml_file
+from dispersion.io import read_yaml_file, replace_file
 
 def rebuild_catalogue():
     valid_ans = False
@@ -213,8 +213,10 @@ class Catalogue(object):
     def save_to_file(self):
         """save the pandas dataframe to the root path of the catalogue
         file structure"""
-        self.database.to_csv(os.path.join(self.base_path, self.file_name),
-                             index=False, index_label='Index')
+        with replace_file(os.path.join(self.base_path,
+                                       self.file_name)) as temp_path:
+            self.database.to_csv(temp_path,
+                                 index=False, index_label='Index')
 
     def register_alias(self, row_id, alias):
         """create an alias for a material to easily access it from the
diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9804c7..b99a8f9 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -15,6 +15,8 @@ read_yaml_file
     convert a file with yaml format to dict
 read_yaml_string
     convert a string with yaml format to dict
+replace_file
+    replace the contents of a file in one step
 write_yaml_file
     write dict to a yaml format file
 print_yaml_string
@@ -35,8 +37,11 @@ import os
 import sys
 import codecs
 import re
+import shutil
 import tempfile
+import uuid
 from collections import OrderedDict
+from contextlib import contextmanager
 import numpy as np
 USE_RUAMEL = True
 try:
@@ -181,6 +186,29 @@ def read_yaml_string(string_data):
             yaml_data = yaml.safe_load(string_data)
     return yaml_data
 
+@contextmanager
+def replace_file(file_path):
+    """
+    context manager for replacing the contents of a file in one step
+
+    yields the path of a temporary file in the same directory. If the context
+    is left without an error the temporary file replaces file_path, otherwise
+    it is removed and file_path remains as it was.
+    """
+    file_path = os.path.realpath(file_path)
+    temp_path = "{}.{}.tmp".format(file_path, uuid.uuid4().hex[:8])
+    try:
+        yield temp_path
+        with open(temp_path, 'r+b') as fpt:
+            os.fsync(fpt.fileno())
+        if os.path.exists(file_path):
+            shutil.copymode(file_path, temp_path)
+        os.replace(temp_path, file_path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
 def write_yaml_file(file_path, dict_like):
     """write a dict_like object to a file using the given file path.
 
@@ -191,7 +219,8 @@ def write_yaml_file(file_path, dict_like):
     dict_like: dict or OrderedDict
         the data to be written to file
     """
-    with open(file_path, 'w', encoding='utf8') as fpt:
+    with replace_file(file_path) as temp_path, \
+         open(temp_path, 'w', encoding='utf8') as fpt:
         if USE_RUAMEL:
             yaml_obj = YAML()
             yaml_obj.indent(mapping=4, sequence=4, offset=2)
@@ -604,21 +633,23 @@ class Writer():
         #raise NotImplementedError("writing material files not yet implemented")
         txt_types = {'.txt', '.csv', '.nk'}
         if self.extension in txt_types:
-            self._write_text_file()
-            if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+            with replace_file(self.file_path) as temp_path:
+                self._write_text_file(temp_path)
+                if not meta_comment == "":
+                    prepend_text_to_file(temp_path, meta_comment)
         elif self.extension == '.yml':
-            self._write_yaml_file()
-            if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment,
-                                     extra_line=True)
+            with replace_file(self.file_path) as temp_path:
+                self._write_yaml_file(temp_path)
+                if not meta_comment == "":
+                    prepend_text_to_file(temp_path, meta_comment,
+                                         extra_line=True)
         else:
             raise ValueError("extension" +
                              "{} not supported".format(self.extension) +
                              ", supported extensions are (.yml|.csv|.txt)")
 
 
-    def _write_text_file(self):
+    def _write_text_file(self, file_path):
         """
         writer for .txt, .csv and .nk files
         """
@@ -655,13 +686,13 @@ class Writer():
             delimiter = ","
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
-        np.savetxt(self.file_path, data,
+        np.savetxt(file_path, data,
                    delimiter=delimiter,
                    header=header,
                    fmt="%.8f")
 
 
-    def _write_yaml_file(self):
+    def _write_yaml_file(self, file_path):
         """
         writer for .yml files
         """
@@ -739,4 +770,4 @@ class Writer():
                         yaml_spec[spec_key] = val
             yaml_dict['SPECS'] = yaml_spec
 
-        write_yaml_file(self.file_path, yaml_dict)
+        write_yaml_file(file_path, yaml_dict)
-- 
2.43.0


From 88c5e1ad568023815717be160a40213849c8d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 09/46] fix: written tables and model parameters keep all rows
 and digits

np.array2string abbreviates arrays of more than 1000 elements with '...',
which could not be read back, and rounds to 8 decimals.
---
 src/dispersion/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index b99a8f9..c16ab6d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -67,7 +67,8 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
+    string_array = np.array2string(np.asarray(table), threshold=sys.maxsize,
+                                   floatmode='unique')
     no_brackets = re.sub(r'[\[\]]', '', string_array)
     no_indent = re.sub(r'\n ', r"\n", no_brackets)
     no_indent = no_indent.rstrip().lstrip()
-- 
2.43.0


From 8699fa205aaa7dc5a5bee0f2b1cc3ce98e1101dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 10/46] fix: text files keep the precision of the data and are
 always written as utf-8

Eight fixed decimals destroyed tables given in metre, and the platform
encoding is not what the Reader expects.
---
 docs/source/file_format.rst | 8 ++++----
 src/dispersion/io.py        | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/docs/source/file_format.rst b/docs/source/file_format.rst
index 06fdb97..234b186 100644
--- a/docs/source/file_format.rst
+++ b/docs/source/file_format.rst
@@ -22,10 +22,10 @@ This is an example of the text file format,
   # UNIT: nanometer
   # DATATYPE: tabulated nk
   #
-  400.00000000	1.70000000	0.10000000
-  500.00000000	1.60000000	0.05000000
-  600.00000000	1.50000000	0.00000000
-  700.00000000	1.40000000	0.00000000
+  400	1.7	0.1
+  500	1.6	0.05
+  600	1.5	0
+  700	1.4	0
 
 - The optional metacomment comes at the beginning and can span multiple lines,
   each line must begin with # for .txt and .csv or ; for .nk files.
diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index c16ab6d..0876041 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -690,7 +690,8 @@ class Writer():
         np.savetxt(file_path, data,
                    delimiter=delimiter,
                    header=header,
-                   fmt="%.8f")
+                   fmt="%.15g",
+                   encoding='utf-8')
 
 
     def _write_yaml_file(self, file_path):
-- 
2.43.0


From dceb01d4029b00664fbee51874afa2a9ff8dd5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 11/46] fix: materials defined by a complex model (e.g. Drude)
 can be written to file

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..3d50fe5 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -856,7 +856,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
-- 
2.43.0


From f393d7acdc87b0a9de34f401378765f6b0450601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 12/46] fix: n and k tables of different length can be written
 to file

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 3d50fe5..0621a74 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -885,7 +885,7 @@ class Material():
             return datasets
 
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
-- 
2.43.0


From 9e7bbe76b77b2f68d85ef832e2ced4301afc4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 13/46] fix: tabulated permittivity written to a yml file can
 be read back

---
 src/dispersion/material.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 0621a74..864d03b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -489,6 +489,12 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_k':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
 
 
     def _spec_data_from_table(self, data):
-- 
2.43.0


From c89390418cb1076e5f8efe144f532a66ec106d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 14/46] fix: materials can be written to .nk files

---
 src/dispersion/io.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 0876041..c956095 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -244,7 +244,8 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False,
+                         comment_char='#'):
     """
     read information from a file and rewrite with text prepended
     """
@@ -253,8 +254,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + comment_char)
+        text = comment_char + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -637,7 +638,9 @@ class Writer():
             with replace_file(self.file_path) as temp_path:
                 self._write_text_file(temp_path)
                 if not meta_comment == "":
-                    prepend_text_to_file(temp_path, meta_comment)
+                    comment_char = ';' if self.extension == '.nk' else '#'
+                    prepend_text_to_file(temp_path, meta_comment,
+                                         comment_char=comment_char)
         elif self.extension == '.yml':
             with replace_file(self.file_path) as temp_path:
                 self._write_yaml_file(temp_path)
@@ -681,15 +684,20 @@ class Writer():
         #                               "supported for tabulated_nk and"+
         #                               "tabulted_n data.")
 
+        comments = "# "
         if self.extension == '.txt':
             delimiter = "\t"
         elif self.extension == '.csv':
             delimiter = ","
+        elif self.extension == '.nk':
+            delimiter = "\t"
+            comments = "; "
         data = multi_key(data_dict, {'data', 'Data'})
         data = _str_table_to_numeric(data)
         np.savetxt(file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   comments=comments,
                    fmt="%.15g",
                    encoding='utf-8')
 
-- 
2.43.0


From 02d5d1ec5e732d94e416c73ed2abd828f41aac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 15/46] fix: text files with a single data row can be read

---
 src/dispersion/io.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index c956095..17e46dd 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -357,24 +357,25 @@ class Reader():
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8')
+                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                                      ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt)
+                        data = np.loadtxt(fpt, ndmin=2)
             elif ext == '.csv':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      delimiter=',')
+                                      delimiter=',', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',')
+                        data = np.loadtxt(fpt,delimiter=',', ndmin=2)
             elif ext == '.nk':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      comments=';')
+                                      comments=';', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';')
+                        data = np.loadtxt(fpt, comments=';', ndmin=2)
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-- 
2.43.0


From 817243330e2c19471e586e7e1baf7c81df3c5e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 16/46] fix: table rows are never wrapped over two lines when
 written

---
 src/dispersion/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 17e46dd..3a72d51 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -68,7 +68,8 @@ def _numeric_to_string_table(table):
     returns a string representation of a numpy array
     """
     string_array = np.array2string(np.asarray(table), threshold=sys.maxsize,
-                                   floatmode='unique')
+                                   floatmode='unique',
+                                   max_line_width=sys.maxsize)
     no_brackets = re.sub(r'[\[\]]', '', string_array)
     no_indent = re.sub(r'\n ', r"\n", no_brackets)
     no_indent = no_indent.rstrip().lstrip()
-- 
2.43.0


From 9a017b416ee655c949b79e593822d860d6ac5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 17/46] fix: extrapolating and evaluating extrapolated data
 leaves the caller's spectrum alone

---
 src/dispersion/spectral_data.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..c3f944f 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,13 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
+        extended_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
         new_range = np.array(base_spectrum.values)
-        if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
+        if isinstance(extended_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
+            extrap_values = extended_values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,7 +153,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
+            extrap_val = extended_values
             new_range = self.validate_extrap_val(extrap_val, new_range)
 
         return Spectrum(new_range,
@@ -191,9 +191,9 @@ class Extrapolation(SpectralData):
             self.base_spectral_data.valid_range.contains(spectrum)
             return self.base_spectral_data.evaluate(spectrum)
         except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
+            values = spectrum.convert_to(self.spectrum_type, self.unit)
             self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+            return splev(values,self.extrapolation)
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From a4a56e3cc67f6ab2c32b9b25b689d6662c93220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 18/46] fix: building an effective medium leaves the caller's
 spectrum alone

---
 src/dispersion/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 864d03b..40265bb 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -19,6 +19,7 @@ Material
 """
 from __future__ import print_function
 import codecs
+import copy
 import numpy as np
 #from dispersion import _str_to_class
 import dispersion.spectral_data as spectral_data
@@ -922,7 +923,7 @@ class EffectiveMedium(Material):
         self.options = {'interp_oder':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
-        self.spectrum = spectrum
+        self.spectrum = copy.copy(spectrum)
         self.mat1 = material1
         self.mat2 = material2
         self.frac = filling_fraction
-- 
2.43.0


From 08687563f3a90abda0469bf2dc165dbfb2fa83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 19/46] fix: valid range of complex models is converted from
 the unit of the model

---
 src/dispersion/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 40265bb..2c3c04b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -695,8 +695,8 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            lower = np.min(self.data['complex'].valid_range.standard_rep)
+            upper = np.max(self.data['complex'].valid_range.standard_rep)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
         return spec.convert_to(self.defaults['spectrum_type'],
-- 
2.43.0


From b202da7b75694137def561b9db0e09c47c62496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 20/46] fix: spectral bounds in the catalogue are given in the
 unit the row states

---
 src/dispersion/catalogue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index e491c89..82adee5 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -417,7 +417,11 @@ class Catalogue(object):
             content_dict['Reference'] = mat.meta_data['Reference']
             content_dict['SpectrumType'] = "wavelength"
             content_dict['Unit'] = 'nanometer'
-            valid_range = mat.get_maximum_valid_range()
+            # the material uses the spectrum type and unit given in its file
+            valid_range = Spectrum(mat.get_maximum_valid_range(),
+                                   spectrum_type=mat.defaults['spectrum_type'],
+                                   unit=mat.defaults['unit'])
+            valid_range = valid_range.convert_to('wavelength', 'nanometer')
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
             content_dict['Path'] = os.path.normpath(filename)
-- 
2.43.0


From d7dc9d5706193f78c5a4883192c1df17f9eeb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 21/46] fix: a value outside a range given in cm raises
 ValueError, not KeyError

---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..3fe9346 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From b2a75ec3fcb29d649724cfbaa9c2e79d9c427905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 22/46] fix: conversion to cm no longer rounds wavelengths to
 100 nm

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 3fe9346..078970d 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From 5ea6ba60eb793cb2e41192f2541067fa51e6cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 23/46] fix: conversion to wavenumber inverts the conversion
 from wavenumber

Metres were divided by 100 instead of multiplied, and short wavelengths in
arrays were taken for zero and became infinite.
---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 078970d..d2faa99 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -24,8 +24,8 @@ def safe_inverse_array(values):
     and values of inf to 0
     '''
     inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    zero_ind = values == 0.0
+    inf_ind = values == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From db3957709d467b13ec7786b92c47d956e0fc24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 24/46] fix: the Tauc-Lorentz model can be evaluated at a
 single value

---
 src/dispersion/spectral_data.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index c3f944f..ede636a 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -643,12 +643,10 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
-        eps_imag = ones
-        E = energies[energies>=Eg]
-        eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
-                                   ((E**2-E0**2)**2+C**2*E**2))
-        eps_imag[energies<Eg] = 0.0
-        return eps_imag
+        E = energies
+        eps_imag = ones*( (1./E) *A*E0*C*(E-Eg)**2 /
+                          ((E**2-E0**2)**2+C**2*E**2))
+        return np.where(E >= Eg, eps_imag, 0.0)
 
     def _calc_eps_real(self, energies, A, E0, C, Eg, eps_inf):
         E = energies
-- 
2.43.0


From 94f53bf823f65a1fb0667d4ad7505320d7f0fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:15 +0000
Subject: [PATCH 25/46] fix: first use works without ~/.config and for several
 sessions at once

---
 src/dispersion/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..f23663d 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -82,8 +82,7 @@ def _get_user_config_dir():
         home_dir = os.environ["HOME"]
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
-    if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+    os.makedirs(config_dir, exist_ok=True)
     return config_dir
 
 def _get_package_dir():
-- 
2.43.0


From 2487545663333e25b8106cd988508664bae660b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 26/46] fix: get_config falls back to the defaults and
 write_config creates the file when there is none

Both raised ValueError without a configuration file, contrary to the
docstring and docs/source/configuration.rst.
---
 src/dispersion/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index f23663d..db00ad3 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -115,7 +115,10 @@ def write_config(config, dir_path=None):
     No check is made if the config is valid or complete.
     """
     if dir_path is None:
-        dir_path = _get_config_dir()
+        try:
+            dir_path = _get_config_dir()
+        except ValueError: # no configuration file yet
+            dir_path = _get_user_config_dir()
     file_path = os.path.join(dir_path, 'config.yaml')
     write_yaml_file(file_path, config)
 
@@ -145,7 +148,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From 8fb4da9bc334e5929bc01dcb5e1f6ff81ff89f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:35 +0000
Subject: [PATCH 27/46] fix: setup creates the root directory the user chose

---
 src/dispersion/scripts/setup_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/scripts/setup_dispersion.py b/src/dispersion/scripts/setup_dispersion.py
index 0e1832d..0ac8ba1 100644
--- a/src/dispersion/scripts/setup_dispersion.py
+++ b/src/dispersion/scripts/setup_dispersion.py
@@ -108,7 +108,7 @@ def install_modules(conf):
         if install:
             module_dir = os.path.join(conf['Path'], module)
             if not os.path.isdir(module_dir):
-                os.mkdir(module_dir)
+                os.makedirs(module_dir)
             success = install_funcs[module](module_dir)
             if success is False:
                 conf['Modules'][module] = success
-- 
2.43.0


From 6bed4296d7e43bfa95bf5ae236f3ce9fd4410f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:35 +0000
Subject: [PATCH 28/46] fix: tabulated_n_alpha is accepted by the Material
 constructor

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 2c3c04b..26e3a60 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -218,7 +218,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From f00de72ba9188888650b3173a3465f0d11a566f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:15 +0000
Subject: [PATCH 29/46] fix: the Retro model (formula 8) solves (n^2-1)/(n^2+2)
 = rhs for n

---
 src/dispersion/spectral_data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index ede636a..d4c6a64 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -531,10 +531,8 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        # (n^2-1)/(n^2+2) = rhs
+        ref_index = np.sqrt((1+2*rhs)/(1-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From e281b9635abc629814664beaddc05aefa2cf77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:15 +0000
Subject: [PATCH 30/46] fix: the Exotic model (formula 9) has no squared
 wavelength in the second term

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index d4c6a64..5e987ad 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -557,7 +557,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From f616ecd84563925f88181dfe7e42c9e116edf5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:36 +0000
Subject: [PATCH 31/46] fix: data and metadata of one read always come from the
 same version of the file

---
 src/dispersion/io.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 3a72d51..0f309be 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -35,13 +35,13 @@ Writer
 """
 import os
 import sys
-import codecs
 import re
 import shutil
 import tempfile
 import uuid
 from collections import OrderedDict
 from contextlib import contextmanager
+from io import StringIO
 import numpy as np
 USE_RUAMEL = True
 try:
@@ -352,43 +352,47 @@ class Reader():
                              "{} not supported".format(self.extension) +
                              ", supported extensions are (.yml|.csv|.txt)")
 
-    def _read_text_data(self):
+    def _read_text(self):
+        """
+        read the file once, so that data and comments always belong together
+        """
+        with open(self.file_path, 'r', encoding='utf-8') as fpt:
+            return fpt.read()
+
+    def _read_text_data(self, text):
         """read data stored in a .txt, .csv or .nk file."""
         fname, ext = os.path.splitext(self.file_path)
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                    data = np.loadtxt(StringIO(text), encoding='utf-8',
                                       ndmin=2)
                 except TypeError:
-                    with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, ndmin=2)
+                    data = np.loadtxt(StringIO(text), ndmin=2)
             elif ext == '.csv':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                    data = np.loadtxt(StringIO(text), encoding='utf-8',
                                       delimiter=',', ndmin=2)
                 except TypeError:
-                    with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',', ndmin=2)
+                    data = np.loadtxt(StringIO(text),delimiter=',', ndmin=2)
             elif ext == '.nk':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8',
+                    data = np.loadtxt(StringIO(text), encoding='utf-8',
                                       comments=';', ndmin=2)
                 except TypeError:
-                    with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';', ndmin=2)
+                    data = np.loadtxt(StringIO(text), comments=';', ndmin=2)
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
         data_dict['Data'] = data
         return data_dict
 
-    def _read_text_comment(self):
+    def _read_text_comment(self, text):
         '''
         returns text from contiguous lines in file beginning with #.
         '''
         comment = []
-        with codecs.open(self.file_path, 'r', 'utf-8') as fpt:
+        with StringIO(text) as fpt:
             for line in fpt:
                 if line[0] == "#" or line[0] == ';':
                     comment.append(line[1:].rstrip("\n\r"))
@@ -405,8 +409,9 @@ class Reader():
         structure.
         """
 
-        dataset = self._read_text_data()
-        comment = self._read_text_comment()
+        text = self._read_text()
+        dataset = self._read_text_data(text)
+        comment = self._read_text_comment(text)
         file_dict = self._create_default_file_dict()
         file_dict['Datasets'][0] = dataset
         multi_line_comment = ""
@@ -457,11 +462,12 @@ class Reader():
         '''
         #yaml_stream = open(self.file_path, 'r', encoding="utf-8")
         #dir_path = os.path.dirname(os.path.realpath(__file__))
-        yaml_data = read_yaml_file(self.file_path)
+        text = self._read_text()
+        yaml_data = read_yaml_string(text)
 
         file_dict = self._create_default_file_dict()
         file_dict = self._process_mat_dict(file_dict, yaml_data)
-        mcomment = "\n".join(self._read_text_comment())
+        mcomment = "\n".join(self._read_text_comment(text))
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From 961790256bbc5d82d49953a02afa271358072af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:07 +0000
Subject: [PATCH 32/46] fix: an alias is registered for one row also when index
 labels repeat

---
 src/dispersion/catalogue.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 82adee5..2d6765d 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -233,20 +233,25 @@ class Catalogue(object):
             if row_id.shape[0] != 1:
                 raise ValueError("row_id must select exactly one row, " +
                                  "not {}".format(row_id.shape[0]))
-            index = row_id.index[0]
+            index = np.flatnonzero(self.database.index == row_id.index[0])
+            if index.size != 1:
+                raise ValueError("row_id does not select exactly one row " +
+                                 "of the catalogue")
+            index = index[0]
         elif isinstance(row_id, int):
-            index = self.database.index[row_id]
+            index = range(self.database.shape[0])[row_id]
         if index is None:
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
         if alias in self.database.loc[:, 'Alias'].values:
-            if not self.database.at[index, 'Alias'] == alias:
+            if not self.database['Alias'].iloc[index] == alias:
                 raise ValueError("Alias {} ".format(alias) +
                                  "already in use. Failed to " +
                                  "add to catalogue.")
 
-        self.database.at[index, 'Alias'] = alias
+        column = self.database.columns.get_loc('Alias')
+        self.database.iloc[index, column] = alias
 
     def get_material(self, identifier):
         """get a material from the catalogue using its alias or row number"""
-- 
2.43.0


From 4042e5c55a32022043605470045d556730a172ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 33/46] fix: written text files no longer gain an empty header
 comment line

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 0f309be..22d0710 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -685,7 +685,7 @@ class Writer():
         unit = multi_key(data_dict, {'unit', 'Unit'})
         header += "UNIT: {}\n".format(unit)
         dtype = multi_key(data_dict, {'type', 'DataType'})
-        header += "DATATYPE: {}\n".format(dtype)
+        header += "DATATYPE: {}".format(dtype)
         # dtype = multi_key(data_dict,{'type','DataType'})
         # if dtype not in {'tabulated_nk', 'tabulated_n'}:
         #     raise NotImplementedError("writing data to text file only"+
-- 
2.43.0


From a890dfdf118e67796d0a818b9adc59656420eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:13 +0000
Subject: [PATCH 34/46] fix: default configuration for home directories with
 YAML special characters

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index db00ad3..b416266 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: "" # set below, the user directory may contain any character
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0


From 02383bedfd5b06b982f8c02955019e06d60266ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:04 +0000
Subject: [PATCH 35/46] fix: the ends of the valid range can be evaluated in
 every unit

---
 src/dispersion/spectral_data.py | 2 ++
 src/dispersion/spectrum.py      | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 5e987ad..3f9260b 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -220,6 +220,8 @@ class Interpolation(SpectralData):
 
         self.valid_range.contains(spectrum)
         values = spectrum.convert_to(self.spectrum_type, self.unit)
+        values = np.clip(values, np.min(self.valid_range.values),
+                         np.max(self.valid_range.values))
         return self.interpolation(values)
 
     def dict_repr(self):
diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index d2faa99..c21ecfd 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -177,6 +177,8 @@ class Spectrum(object):
                      '1/cm': '1/cm',
                      'a':u'Å'}
 
+    RANGE_TOLERANCE = 1e-8 # relative, covers the rounding of conversions
+
     def __init__(self, values, spectrum_type='wavelength', unit='m'):
         self.spectrum_type = spectrum_type.lower()
         if self.spectrum_type not in Spectrum.SPECTRUM_TYPES:
@@ -229,9 +231,10 @@ class Spectrum(object):
         self_min = np.min(self.values)
         self_max = np.max(self.values)
         out_of_range = None
-        if other_min < self_min:
+        # converting to another unit and back may change the last digits
+        if other_min < self_min*(1.0-Spectrum.RANGE_TOLERANCE):
             out_of_range = other_min
-        elif other_max > self_max:
+        elif other_max > self_max*(1.0+Spectrum.RANGE_TOLERANCE):
             out_of_range = other_max
         if out_of_range is not None:
             dsu = self.display_string(self.unit)  # display string unit
-- 
2.43.0


From 71855af66cb2a78f16a9fadd39784f0f2d08cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:55 +0000
Subject: [PATCH 36/46] fix: rows below a blank line of a YAML table are no
 longer dropped

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 22d0710..a00375e 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -88,7 +88,7 @@ def _str_table_to_numeric(table):
         numeric_table = []
         for row in table.split('\n'):
             if row.isspace() or row == "":
-                break
+                continue
             numeric_col = []
             for col in row.split():
                 numeric_col.append(float(col))
-- 
2.43.0


From eee0b6181444b9e7186c84234092dea1769216f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:57 +0000
Subject: [PATCH 37/46] fix: spectra given as integer arrays are converted like
 floating point ones

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index c21ecfd..52790b0 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,7 +23,7 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
+    inverse = np.array(values, dtype=float)
     zero_ind = values == 0.0
     inf_ind = values == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
-- 
2.43.0


From a5316e4cd83282b4a8bef02362e6d4ab43df768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:18 +0000
Subject: [PATCH 38/46] fix: converting a spectrum to metres no longer hands
 out its own array

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 52790b0..a1d8293 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -102,7 +102,7 @@ def wavelength_to_standard(unit, values):
 def to_wavelength(unit, values):
     """converts values from standard to wavelength representation"""
     if unit == 'm':
-        converted_values = values
+        converted_values = values*1. # not the array of the spectrum itself
     elif unit == 'cm':
         converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
-- 
2.43.0


From 0be00bf4e6b58a4dbd5a8b6947f056cb558a47cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:05 +0000
Subject: [PATCH 39/46] fix: a catalogue with a missing spectral bound can be
 opened again

---
 src/dispersion/catalogue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 2d6765d..46163c7 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -91,7 +91,9 @@ class Catalogue(object):
                  'K_Reference':np.double,
                  'Path':str,
                  'Module':str}
-    NA_VALUES = {'N_Reference':[""],
+    NA_VALUES = {'SpectrumLowerBound':[""],
+                 'SpectrumUpperBound':[""],
+                 'N_Reference':[""],
                  'K_Reference':[""]}
 
 
-- 
2.43.0


From 21573fb7ae5b9d2555cbfe552161037ea9971fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:38 +0000
Subject: [PATCH 40/46] fix: an extrapolation that fails for one part leaves
 the material unchanged

---
 src/dispersion/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 26e3a60..29b9da7 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -293,12 +293,14 @@ class Material():
         """
 
         if self.data['complex'] is None:
+            new_data = {}
             for data_name in ['real', 'imag']:
                 if isinstance(self.data[data_name], Constant):
                     continue
-                self.data[data_name] = Extrapolation(self.data[data_name],
-                                                     new_spectrum,
-                                                     spline_order=spline_order)
+                new_data[data_name] = Extrapolation(self.data[data_name],
+                                                    new_spectrum,
+                                                    spline_order=spline_order)
+            self.data.update(new_data) # both parts or, on an error, none
         else:
             raise NotImplementedError("extrapolation not implemented " +
                                       "for materials with real and imaginary "+
-- 
2.43.0


From 196abdf1e86c20915f319b4e706517b246091c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:44 +0000
Subject: [PATCH 41/46] fix: materials read from file can be compared with
 materials made in memory

---
 src/dispersion/material.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 29b9da7..562596e 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -434,6 +434,7 @@ class Material():
         self.meta_data['Name'] = file_dict['MetaData']['Name']
         self.meta_data['FullName'] = file_dict['MetaData']['FullName']
         self.meta_data['Author'] = file_dict['MetaData']['Author']
+        self.meta_data['Alias'] = ""
         self.meta_data['MetaComment'] = file_dict['MetaData']['MetaComment']
         self.meta_data['Specification'] = file_dict['MetaData']['Specification']
         datasets = file_dict['Datasets']
-- 
2.43.0


From b16822ecc4949b0d62cf5beb19c07ccc8e88df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:48 +0000
Subject: [PATCH 42/46] fix: a tabulated material is written as it evaluates
 when the caller reused its table

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 3f9260b..0c363a2 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -201,7 +201,7 @@ class Interpolation(SpectralData):
 
     def __init__(self, data, spectrum_type='wavelength',
                  unit='m', interp_order=1):
-        self.data = data
+        self.data = np.array(data) # the caller may reuse its table
         self.interp_order = interp_order
         min_range = np.min(data[:, 0])
         max_range = np.max(data[:, 0])
-- 
2.43.0


From 4eb8f0226609361d00a3974603e3e89097fbcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 43/46] fix: a material no longer changes when the caller
 reuses the arrays a model was made from

---
 src/dispersion/spectral_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 0c363a2..eb4fa8c 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -63,7 +63,8 @@ class SpectralData():
                  unit='nm'):
         self.spectrum_type = spectrum_type
         self.unit = unit
-        self.valid_range = Spectrum(valid_range,
+        # a copy, the caller may reuse its array
+        self.valid_range = Spectrum(np.array(valid_range),
                                     spectrum_type=spectrum_type,
                                     unit=unit)
 
@@ -241,7 +242,7 @@ class Model(SpectralData):
 
     def __init__(self, model_parameters, valid_range, spectrum_type='wavelength',
                  unit='m'):
-        self.model_parameters = model_parameters
+        self.model_parameters = np.array(model_parameters)
         super(Model, self).__init__(valid_range,
                                     spectrum_type=spectrum_type,
                                     unit=unit)
-- 
2.43.0


From cdd1adf3e1654917f90c61fc90569e31bf82e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:01 +0000
Subject: [PATCH 44/46] fix: a file name with a directory part is not a valid
 file name

checking it created an empty file outside of the temporary directory, e.g.
'../catalogue.csv' or an absolute path, which then was taken for the
catalogue and could not be opened.
---
 src/dispersion/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index a00375e..60705c6 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -270,6 +270,8 @@ def valid_file_name(filename):
     create a file with the filename in a temporary directory and delete the
     directory afterwards.
     """
+    if os.path.basename(filename) != filename: # outside of the directory
+        return False
     with tempfile.TemporaryDirectory() as temp_dir:
         file_path = os.path.join(temp_dir, filename)
         try:
-- 
2.43.0


From 4198be3f62589626251c218cec175b630016974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:58 +0000
Subject: [PATCH 45/46] fix: an open catalogue keeps its root directory when
 the working directory changes

with a relative root path a later save went to, and materials were read
from, whatever directory the process was in by then.
---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 46163c7..02735db 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -103,7 +103,7 @@ class Catalogue(object):
         validate_config(config)
         self.make_reference_spectrum(config)
         self.config = config
-        self.base_path = config['Path']
+        self.base_path = os.path.abspath(config['Path'])
         self.file_name = config['File']
         if rebuild == 'All':
             df = pd.DataFrame(columns=Catalogue.META_DATA.keys())
-- 
2.43.0


From 1f765b4753212350119bed942281fbb1dedda1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:58 +0000
Subject: [PATCH 46/46] fix: written tables followed the print options of the
 session

np.array2string honours the formatter set with np.set_printoptions, so that a
session with its own display format lost digits in every file it wrote.
---
 src/dispersion/io.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 60705c6..6b56adf 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -67,13 +67,9 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(np.asarray(table), threshold=sys.maxsize,
-                                   floatmode='unique',
-                                   max_line_width=sys.maxsize)
-    no_brackets = re.sub(r'[\[\]]', '', string_array)
-    no_indent = re.sub(r'\n ', r"\n", no_brackets)
-    no_indent = no_indent.rstrip().lstrip()
-    return no_indent
+    # not array2string, which follows the print options of the session
+    rows = np.atleast_2d(table).tolist()
+    return "\n".join(" ".join(repr(value) for value in row) for row in rows)
 
 def _str_table_to_numeric(table):
     '''
-- 
2.43.0

