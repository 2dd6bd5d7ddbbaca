From 56853d6e17bad336b89dbe4e175a1a064ebaef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 01/48] fix: keep 'mimetype' registered when writing the
 package fails

_tozip() took 'mimetype' out of the directory while writing, an error in
between made every later save fail with KeyError.
---
 ezodf/filemanager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 9545901..808ec17 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -139,17 +139,17 @@ class FileManager(object):
 
     def _tozip(self, zippo):
         # mimetype file should be the first & uncompressed file in zipfile
-        mimetype = self.directory.pop('mimetype')
+        mimetype = self.directory['mimetype']
         mimetype.zipinfo.compress_type = zipfile.ZIP_STORED
         zippo.writestr(mimetype.zipinfo, mimetype.tobytes())
         processed = [mimetype.filename]
 
         for file in self.directory.values():
+            if file is mimetype: # already written
+                continue
             zippo.writestr(file.zipinfo, file.tobytes())
             processed.append(file.filename)
 
-        # push mimetype back to directory
-        self.directory['mimetype'] = mimetype
         self._copy_zip_to(zippo, processed)
 
     def _copy_zip_to(self, newzip, ignore=[]):
-- 
2.43.0


From c3ac219ac63851afc806b3eaee6570ec3d5fa329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 02/48] fix: replace the stored document atomically when saving
 a package

The old document was removed or renamed before the new one got its name and
the new one was written without flushing it to disk, so a crash or an error
in between lost the document; temporary files stayed behind after errors and
could overwrite a file of the same name.
---
 ezodf/compatibility.py |  5 ++-
 ezodf/filemanager.py   | 99 +++++++++++++++++++++++++++---------------
 2 files changed, 67 insertions(+), 37 deletions(-)

diff --git a/ezodf/compatibility.py b/ezodf/compatibility.py
index 4b408ab..0b375be 100644
--- a/ezodf/compatibility.py
+++ b/ezodf/compatibility.py
@@ -7,10 +7,13 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import sys, zipfile
+import os, sys, zipfile
 
 PY3 = sys.version_info[0] > 2
 
+# atomic on POSIX, 'os.rename' does not replace existing files on Windows
+replace = getattr(os, 'replace', os.rename)
+
 if PY3:
     # distiguish StringIO
     from io import BytesIO as StringIO
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 808ec17..0a23af3 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import os
+import errno
 import zipfile
 import random
 from datetime import datetime
@@ -15,7 +16,7 @@ from datetime import datetime
 from .xmlns import etree, CN
 from .manifest import Manifest
 from .compatibility import tobytes, bytes2unicode, is_bytes, is_zipfile
-from .compatibility import is_stream, StringIO
+from .compatibility import is_stream, StringIO, replace
 
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
@@ -42,6 +43,61 @@ class FileObject(object):
     def filename(self):
         return self.zipinfo.filename
 
+def tmpfilename(basefile=None):
+    def randomname(count):
+        return ''.join(random.sample(FNCHARS, count))
+
+    folder = "" if basefile is None else os.path.dirname(basefile)
+    while True:
+        filename = os.path.abspath(os.path.join(folder, randomname(8)+'.tmp'))
+        if not os.path.exists(filename):
+            return filename
+
+def write_tmpfile(basefile, content):
+    """ Write `content` to a new file in the folder of `basefile` and return its name.
+    """
+    while True:
+        filename = tmpfilename(basefile)
+        try: # never use a file which somebody else created in the meantime
+            fd = os.open(filename, os.O_WRONLY | os.O_CREAT | os.O_EXCL | getattr(os, 'O_BINARY', 0), 0o666)
+        except OSError as e:
+            if e.errno != errno.EEXIST:
+                raise
+        else:
+            break
+    try:
+        with os.fdopen(fd, 'wb') as fp:
+            fp.write(content)
+            fp.flush()
+            os.fsync(fp.fileno())
+    except:
+        remove_tmpfile(filename)
+        raise
+    return filename
+
+def remove_tmpfile(filename):
+    try:
+        os.remove(filename)
+    except OSError:
+        pass
+
+def replace_content(filename, content):
+    """ Replace `filename` by a new file, which is complete and on disk before
+    it gets this name, so `filename` is either the old or the new file.
+    """
+    tmpname = write_tmpfile(filename, content)
+    try:
+        replace(tmpname, filename)
+    except:
+        remove_tmpfile(tmpname)
+        raise
+
+def backup_file(filename):
+    """ Existing file `filename` becomes the backup file, but also stays in place. """
+    with open(filename, 'rb') as fp:
+        content = fp.read()
+    replace_content(filename+'.bak', content)
+
 class FileManager(object):
     def __init__(self, zipname=None):
         self.directory = dict()
@@ -57,16 +113,6 @@ class FileManager(object):
     def _open_bytestream(self):
         return open(self.zipname, 'rb')
 
-    def tmpfilename(self, basefile=None):
-        def randomname(count):
-            return ''.join(random.sample(FNCHARS, count))
-
-        folder = "" if basefile is None else os.path.dirname(basefile)
-        while True:
-            filename = os.path.abspath(os.path.join(folder, randomname(8)+'.tmp'))
-            if not os.path.exists(filename):
-                return filename
-
     def register(self, name, element, media_type=""):
         self.directory[name] = FileObject(name, element, media_type)
         # 'mimetype' need not to be in the manifest.xml file, but it seems
@@ -77,35 +123,16 @@ class FileManager(object):
 
     def save(self, filename, backup=True):
         # always create a new zipfile
-        write_to_memory = False
+        package = self.tobytes()
         if is_stream(filename):
-            write_to_memory = True
-        if write_to_memory:
-            tmpfilename = filename
-        else:
-            tmpfilename = self.tmpfilename(filename)
-        zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
-        self._tozip(zippo)
-        zippo.close()
-
-        if write_to_memory:
+            filename.write(package)
             # job done
             return
 
-        if os.path.exists(filename):
-            if backup:
-                # existing document becomes the backup file
-                bakfilename = filename+'.bak'
-                # remove existing backupfile
-                if os.path.exists(bakfilename):
-                    os.remove(bakfilename)
-                os.rename(filename, bakfilename)
-            else:
-                # just remove the existing document
-                os.remove(filename)
-
-        # rename the new created document
-        os.rename(tmpfilename, filename)
+        if backup and os.path.exists(filename):
+            # existing document becomes the backup file
+            backup_file(filename)
+        replace_content(filename, package)
         self.zipname = filename
 
     def get_bytes(self, filename):
-- 
2.43.0


From fad520f905b9868722fa7f2901415942a8fad323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 03/48] fix: replace the file atomically when saving a document
 opened from a stream

---
 ezodf/bytestreammanager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index b951d71..47f5dea 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -9,7 +9,7 @@ __author__ = "mozman <mozman@gmx.at>"
 
 
 from .compatibility import is_stream, StringIO
-from .filemanager import FileManager
+from .filemanager import FileManager, replace_content
 
 
 class ByteStreamManager(FileManager):
@@ -24,8 +24,7 @@ class ByteStreamManager(FileManager):
         if is_stream(filename):
             filename.write(self.tobytes())
         else:
-            with open(filename, 'wb') as fp:
-                fp.write(self.tobytes())
+            replace_content(filename, self.tobytes())
 
     def has_zip(self):
         return self._zipfile_as_bytes is not None
-- 
2.43.0


From 7490ecc02474cb891cb633eea96728fc33aede06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 04/48] fix: replace the file atomically when saving a flat XML
 document

---
 ezodf/document.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 27552df..af5322c 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -11,7 +11,7 @@ import os
 from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
 from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
-from .filemanager import FileManager
+from .filemanager import FileManager, backup_file, replace_content
 from .bytestreammanager import ByteStreamManager
 from .meta import OfficeDocumentMeta
 from .styles import OfficeDocumentStyles
@@ -181,20 +181,10 @@ class FlatXMLDocument(_BaseDocument):
         return wrap(application_body)
 
     def _saving_routine(self):
+        content = self.tobytes()
         if os.path.exists(self.docname) and self.backup:
-            self._backupfile(self.docname)
-        self._writefile(self.docname)
-
-    def _backupfile(self, filename):
-        bakfilename = filename+'.bak'
-        # remove existing backupfile
-        if os.path.exists(bakfilename):
-            os.remove(bakfilename)
-        os.rename(filename, bakfilename)
-
-    def _writefile(self, filename):
-        with open(filename, 'wb') as fp:
-            fp.write(self.tobytes())
+            backup_file(self.docname)
+        replace_content(self.docname, content)
 
     def tobytes(self):
         return etree.tostring(self.xmlnode,
-- 
2.43.0


From 22ced9eaacf2f8580a846dac28a080183777b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 05/48] fix: read the package once when opening a document

Parts and carried members were read again from the path whenever needed, so
they could come from different files when the path was saved, moved or removed
in the meantime (members were silently dropped then), and a file which is not
a complete package was opened as blank document.
---
 ezodf/bytestreammanager.py |  8 +-------
 ezodf/filemanager.py       | 29 ++++++++++++++++++++---------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index 47f5dea..75261bc 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 
-from .compatibility import is_stream, StringIO
+from .compatibility import is_stream
 from .filemanager import FileManager, replace_content
 
 
@@ -25,9 +25,3 @@ class ByteStreamManager(FileManager):
             filename.write(self.tobytes())
         else:
             replace_content(filename, self.tobytes())
-
-    def has_zip(self):
-        return self._zipfile_as_bytes is not None
-
-    def _open_bytestream(self):
-        return StringIO(self._zipfile_as_bytes)
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 0a23af3..79cd32e 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -99,19 +99,34 @@ def backup_file(filename):
     replace_content(filename+'.bak', content)
 
 class FileManager(object):
+    _zipfile_as_bytes = None # the package as it was when it was opened
+
     def __init__(self, zipname=None):
         self.directory = dict()
         self.zipname = zipname
+        if zipname is not None:
+            with open(zipname, 'rb') as fp:
+                self._zipfile_as_bytes = fp.read()
+        self._check_zip()
         self.manifest = Manifest(self.get_bytes('META-INF/manifest.xml'))
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
     def has_zip(self):
-        if self.zipname is not None:
-            return is_zipfile(self.zipname)
-        return False
+        return self._zipfile_as_bytes is not None
 
     def _open_bytestream(self):
-        return open(self.zipname, 'rb')
+        return StringIO(self._zipfile_as_bytes)
+
+    def _check_zip(self):
+        """ Raises an exception if a member listed in the zip directory is not in place.
+        """
+        if self.has_zip():
+            bytestream = self._open_bytestream()
+            zipfile_ = zipfile.ZipFile(bytestream, 'r')
+            for zipinfo in zipfile_.filelist:
+                zipfile_.open(zipinfo).close()
+            zipfile_.close()
+            bytestream.close()
 
     def register(self, name, element, media_type=""):
         self.directory[name] = FileObject(name, element, media_type)
@@ -184,11 +199,7 @@ class FileManager(object):
         """
         if not self.has_zip():
             return # nothing to copy
-        try:
-            bytestream = self._open_bytestream()
-        except IOError:
-            return # nothing to copy
-
+        bytestream = self._open_bytestream()
         origzip = zipfile.ZipFile(bytestream)
         try:
             self._copy_from_zip_to_zip(origzip, newzip, ignore)
-- 
2.43.0


From de4d8f96b34f7d87852eadc77c5bb74927d7f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 06/48] fix: open flat XML documents and bytes as documented,
 report missing files

opendoc() guessed the type of everything which is not a zip file from its
extension and failed with KeyError for flat XML files, or returned a blank
document.
---
 ezodf/document.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index af5322c..8572913 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import os
+from zipfile import BadZipfile
 from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
 from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
@@ -37,22 +38,28 @@ def is_valid_stream(buffer):
 
 
 def opendoc(filename):
-    if is_stream(filename):
+    if is_stream(filename) or is_valid_stream(filename):
         fm = ByteStreamManager(filename)
-    elif filename is not None:
-        fm = FileManager(filename)
     else:
         try:
-            xmlnode = etree.parse(filename).getroot()
-            return FlatXMLDocument(filename=filename, xmlnode=xmlnode)
-        except etree.ParseError:
-            raise IOError("File '%s' is neither a zip-package nor a flat "
-                          "XML OpenDocumentFormat file." % filename)
+            fm = FileManager(filename)
+        except BadZipfile:
+            return _open_flat_xml(filename)
 
     mime_type = __detect_mime_type(fm)
     return PackagedDocument(filemanager=fm, mimetype=mime_type)
 
 
+def _open_flat_xml(filename):
+    try:
+        with open(filename, 'rb') as fp:
+            xmlnode = etree.parse(fp).getroot()
+    except etree.ParseError:
+        raise IOError("File '%s' is neither a zip-package nor a flat "
+                      "XML OpenDocumentFormat file." % filename)
+    return FlatXMLDocument(filename=filename, xmlnode=xmlnode)
+
+
 def __detect_mime_type(file_manager):
     mime_type = file_manager.get_text('mimetype')
     if mime_type is not None:
@@ -153,8 +160,9 @@ class FlatXMLDocument(_BaseDocument):
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
+            self.doctype = FILE_EXT_FOR_MIMETYPE.get(self.mimetype)
         else:
-            raise ValueError("Unexpected root tag: %s" % self.xmlnode.tag)
+            raise ValueError("Unexpected root tag: %s" % xmlnode.tag)
 
         if self.mimetype not in frozenset(MIMETYPES.values()):
             raise TypeError("Unsupported mimetype: %s" % self.mimetype)
-- 
2.43.0


From 21ba44abf5442d5a704b21d37ac17c5952b879e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 07/48] fix: read and write the metadata of flat XML documents

Flat XML documents have an office:meta element, but metadata was looked for
and stored in an invalid office:document-meta element.
---
 ezodf/document.py | 2 +-
 ezodf/meta.py     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 8572913..c84c078 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -172,7 +172,7 @@ class FlatXMLDocument(_BaseDocument):
 
 
     def _setup(self):
-        self.meta = OfficeDocumentMeta(subelement(self.xmlnode, CN('office:document-meta')))
+        self.meta = OfficeDocumentMeta(self.xmlnode)
         self.styles = wrap(subelement(self.xmlnode, CN('office:settings')))
         self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
         self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
diff --git a/ezodf/meta.py b/ezodf/meta.py
index 056deb4..db7a87f 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -34,7 +34,7 @@ class OfficeDocumentMeta(XMLMixin):
     def __init__(self, xmlnode=None):
         if xmlnode is None:
             self.xmlnode = etree.Element(self.TAG, nsmap=META_NSMAP)
-        elif xmlnode.tag == self.TAG:
+        elif xmlnode.tag in (self.TAG, CN('office:document')): # package or flat XML
             self.xmlnode = xmlnode
         else:
             raise ValueError("Unexpected root node: %s" % xmlnode.tag)
@@ -52,6 +52,7 @@ class OfficeDocumentMeta(XMLMixin):
         self.meta = self.xmlnode.find(CN('office:meta'))
         if self.meta is None: # this is a new document
             self.meta = subelement(self.xmlnode, CN('office:meta'))
+            self.xmlnode.insert(0, self.meta) # has to be the first element of flat XML
             self.xmlnode.set(CN('grddl:transformation'), "http://docs.oasis-open.org/office/1.2/xslt/odf2rdf.xsl")
             self['creation-date'] = datetime.now().isoformat()
             self.touch()
-- 
2.43.0


From 8557df54705d9030f9a19e586f2de8defaba6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 08/48] fix: store the required mimetype of new flat XML
 documents

---
 ezodf/document.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/document.py b/ezodf/document.py
index c84c078..0f100b7 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -157,6 +157,8 @@ class FlatXMLDocument(_BaseDocument):
 
         if xmlnode is None: # new document
             self.xmlnode = etree.Element(self.TAG, nsmap=ALL_NSMAP)
+            self.xmlnode.set(CN('office:mimetype'), self.mimetype)
+            self.xmlnode.set(CN('office:version'), '1.2')
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
-- 
2.43.0


From 25de011d9a0b433fdb150e4ec10ce8be53110ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 09/48] fix: count editing cycles when the stored counter is
 empty

---
 ezodf/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index db7a87f..0a28c84 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -83,7 +83,7 @@ class OfficeDocumentMeta(XMLMixin):
             count = self['editing-cycles']
             try:
                 count = int(count) + 1
-            except ValueError:
+            except (ValueError, TypeError): # no number or empty element
                 count = 1
         except KeyError:
             count = 1
-- 
2.43.0


From 233205a8130edfdf5f4894c355d1550accd1cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 10/48] fix: do not share the state of the whitespace encoder
 between threads

---
 ezodf/whitespaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 261d750..09b6be9 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -140,7 +140,8 @@ class _WhitespaceEncoder(object):
 WhitespaceEncoder = _WhitespaceEncoder()
 
 def encode_whitespaces(plaintext):
-    return WhitespaceEncoder.encode(plaintext)
+    # the encoder has state, do not share it between threads
+    return _WhitespaceEncoder().encode(plaintext)
 
 def decode_whitespaces(taglist):
     return WhitespaceEncoder.decode(taglist)
-- 
2.43.0


From 5189140f5362dbb0878f7e66114e222673aad498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 11/48] fix: deliver events to all listeners while listeners
 are added or removed

---
 ezodf/observer.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 4eb66d3..ee94760 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import threading
 try:
     from weakref import WeakSet
 except ImportError:
@@ -47,23 +48,35 @@ class Observer(object):
 
     def __init__(self):
         self._listeners = dict()
+        self._lock = threading.RLock() # for changing and copying of listener sets
 
     def subscribe(self, event, listener_object):
         event_handler_name = "on_%s_handler" % event
         if not hasattr(listener_object, event_handler_name):
             raise AttributeError("Listener object has no '%s' event handler." % event)
-        try:
-            event_listeners = self._listeners[event]
-        except KeyError:
-            event_listeners = WeakSet()
-            self._listeners[event] = event_listeners
-        event_listeners.add(listener_object)
+        with self._lock:
+            try:
+                event_listeners = self._listeners[event]
+            except KeyError:
+                event_listeners = WeakSet()
+                self._listeners[event] = event_listeners
+            event_listeners.add(listener_object)
 
     def unsubscribe(self, event, listener_object):
         # Unsubscribing for objects which will be destroyed is not neccessary,
         # just unsubscribe objects that should not receive further messages.
-        event_listeners = self._listeners[event]
-        event_listeners.remove(listener_object)
+        with self._lock:
+            event_listeners = self._listeners[event]
+            event_listeners.remove(listener_object)
+
+    def _copy_listeners(self, event):
+        # handlers and other threads may change the listener set while broadcasting
+        with self._lock:
+            while True:
+                try:
+                    return list(self._listeners[event])
+                except RuntimeError: # a listener was destroyed in another thread
+                    pass
 
     def broadcast(self, event, msg=None, root=None):
         """ Broadcast an 'event' and submit 'msg' to the listeners event handler.
@@ -92,13 +105,13 @@ class Observer(object):
                 handler(msg=msg)
 
         try:
-            event_listeners = self._listeners[event]
+            event_listeners = self._copy_listeners(event)
         except KeyError:
             # ok, because there is just no listener for this event
             # but mispelling of 'event' is an error trap
             return
 
-        send = send_to_root if root else send_to_all
+        send = send_to_root if root is not None else send_to_all
         for listener in event_listeners:
             send(listener)
 
-- 
2.43.0


From cb57901885e50b2a1eb1d74bb7a30a764b81298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 12/48] fix: store documents while the clock is before 1980 or
 after 2107

---
 ezodf/filemanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 79cd32e..f2e85dc 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -27,7 +27,9 @@ class FileObject(object):
         self.element = element
         self.media_type = media_type
         now = datetime.now().timetuple()
-        self.zipinfo = zipfile.ZipInfo(name, now[:6])
+        # limits of the date format in zip files
+        date_time = min(max(now[:6], (1980, 1, 1, 0, 0, 0)), (2107, 12, 31, 23, 59, 58))
+        self.zipinfo = zipfile.ZipInfo(name, date_time)
         self.zipinfo.compress_type = zipfile.ZIP_DEFLATED
 
     def tobytes(self):
-- 
2.43.0


From 5bde558b02350296b031981e3272258cb65359bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 13/48] fix: drop the currency of a cell when its value is
 replaced

---
 ezodf/cells.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a8766d4..3916896 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -141,6 +141,7 @@ class Cell(GenericWrapper):
 
     def _clear_old_value(self):
         self._clear_value_attribute(self.value_type)
+        self.xmlnode.attrib.pop(CN('office:currency'), None)
         self._clear_content()
 
     def _clear_content(self):
-- 
2.43.0


From be3c466e687c1f9da7ad63f67e9d130dee02eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 14/48] fix: set and remove cell spans where span attributes
 are missing

---
 ezodf/cells.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 3916896..7f0a633 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -209,8 +209,9 @@ class Cell(GenericWrapper):
             self._set_span_attributes(rows, cols)
 
     def _del_span_attributes(self):
-        del self.xmlnode.attrib[CN('table:number-rows-spanned')]
-        del self.xmlnode.attrib[CN('table:number-columns-spanned')]
+        # both attributes are optional
+        self.xmlnode.attrib.pop(CN('table:number-rows-spanned'), None)
+        self.xmlnode.attrib.pop(CN('table:number-columns-spanned'), None)
 
     def _set_span_attributes(self, rows, cols):
         self.xmlnode.set(CN('table:number-rows-spanned'), tostr(rows))
-- 
2.43.0


From 4111354763c115b9a080239093fb35c940c05f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 15/48] fix: check the arguments before changing rows and
 columns of a table

---
 ezodf/table.py              |  1 +
 ezodf/tablerowcontroller.py | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 19e10fe..a5005c5 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -87,6 +87,7 @@ class Table(GenericWrapper):
         return self._cellmatrix.ncols()
 
     def reset(self, size=(10, 10)):
+        self._cellmatrix.validate_size(size)
         preserve_name = self.name
         super(Table, self).clear()
 
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 6b1749d..35dbe46 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -64,16 +64,18 @@ class TableRowController(TableCellAccessor):
     def __init__(self, xmlnode):
         super(TableRowController, self).__init__(xmlnode)
 
-    def reset(self, size):
-        def validate_parameter(nrows, ncols):
-            if nrows < 1:
-                raise ValueError('nrows has to be >= 1.')
-            if ncols < 1:
-                raise ValueError('ncols has to be >= 1.')
+    @staticmethod
+    def validate_size(size):
+        nrows, ncols = size
+        if nrows < 1:
+            raise ValueError('nrows has to be >= 1.')
+        if ncols < 1:
+            raise ValueError('ncols has to be >= 1.')
 
+    def reset(self, size):
+        self.validate_size(size)
         self._remove_existing_rows()
         nrows, ncols = size
-        validate_parameter(nrows, ncols)
         self.xmlnode.extend( (self._build_new_row(ncols) for _ in range(nrows)) )
         self.update()
 
@@ -121,6 +123,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('invalid count')
         if index < 0:
             index += self.nrows()
+        if index < 0 or index + count > self.nrows():
+            raise IndexError('row index out of range')
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
@@ -138,6 +142,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('count < 1')
         if index < 0:
             index += self.ncols()
+        if index < 0 or index >= self.ncols():
+            raise IndexError('column index out of range')
 
         for row in self._rows:
             for _ in range(count):
@@ -148,6 +154,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('invalid count')
         if index < 0:
             index += self.ncols()
+        if index < 0 or index + count > self.ncols():
+            raise IndexError('column index out of range')
 
         for row in self._rows:
             for _ in range(count):
-- 
2.43.0


From 8baf22db98b5e02b44bef63cd7d76139b76e1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 16/48] fix: write boolean values of variables as they are read

---
 ezodf/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 3c28709..2c942ea 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -179,6 +179,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
@@ -236,6 +237,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
-- 
2.43.0


From 40fb722721b4bd24ee0587871e81231a3a9c1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 17/48] fix: set user fields to zero and to empty strings

---
 ezodf/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 2c942ea..4c0ea45 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -147,10 +147,10 @@ class UserField(Variable):  # {{{1
             self.type = 'boolean'
             self.set_bool_attr(CN('office:boolean-value'), v)
         elif vtype == int or vtype == float:
-            self.set_attr(CN('office:value'), v)
+            self.xmlnode.set(CN('office:value'), tostr(v))
             self.type = 'float'
         else:
-            self.set_attr(CN('office:string-value'), v)
+            self.xmlnode.set(CN('office:string-value'), tostr(v))
             self.type = 'string'
 
 
-- 
2.43.0


From 73eb0099b578e98b060755391fe77c78bf50c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 18/48] fix: find the occurrences of user fields

---
 ezodf/variables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 4c0ea45..bb92540 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -50,6 +50,7 @@ class UserFields(Variables):  # {{{1
 
 
 class Variable(GenericWrapper):  # {{{1
+    INSTANCE = 'variable'
 
     def __init__(self, xmlnode=None):  # {{{2
         """docstring for __init__"""
@@ -59,15 +60,15 @@ class Variable(GenericWrapper):  # {{{1
     @property
     def instances(self):  # {{{2
         vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-set'),
+                                                      (CN('text:%s-set' % self.INSTANCE),
                                                        CN('text:name'),
                                                        self.name))
         vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-get'),
+                                                      (CN('text:%s-get' % self.INSTANCE),
                                                        CN('text:name'),
                                                        self.name))
         vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-input'),
+                                                      (CN('text:%s-input' % self.INSTANCE),
                                                        CN('text:name'),
                                                        self.name))
         return itermap(wrap, vs + vg + vi)
@@ -119,6 +120,7 @@ class SimpleVariable(Variable):  # {{{1
 @register_class
 class UserField(Variable):  # {{{1
     TAG = CN('text:user-field-decl')
+    INSTANCE = 'user-field'
 
     @property
     def value(self):  # {{{2
-- 
2.43.0


From d8cdf671780b893d8243589fd487b4d6c80d9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 19/48] fix: insert and index sheets and pages by their
 position among each other

---
 ezodf/pagecontainer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index e4701ca..c597b36 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -84,8 +84,16 @@ class AbstractPageContainer(object):
         return (child.get(self._nametag) for child in self._xmlchildren())
 
     def index(self, child):
-        return self.xmlnode.index(child.xmlnode)
+        return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
-        self.xmlnode.insert(int(index), child.xmlnode)
+        # the body contains also other elements
+        children = self._xmlchildren()
+        following = children[int(index):]
+        if following:
+            following[0].addprevious(child.xmlnode)
+        elif children:
+            children[-1].addnext(child.xmlnode)
+        else:
+            self.xmlnode.append(child.xmlnode)
         return child
-- 
2.43.0


From 11920c30693a183b64754c1e7c7db841fb249b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 20/48] fix: report packages with a damaged zip directory when
 opening them

---
 ezodf/filemanager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index f2e85dc..ad3ac4c 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -127,6 +127,10 @@ class FileManager(object):
             zipfile_ = zipfile.ZipFile(bytestream, 'r')
             for zipinfo in zipfile_.filelist:
                 zipfile_.open(zipinfo).close()
+            # a damaged entry can swallow the entries behind it
+            count = zipfile._EndRecData(bytestream)[zipfile._ECD_ENTRIES_TOTAL]
+            if len(zipfile_.filelist) != count:
+                raise zipfile.BadZipfile("Zip directory lists %d of %d members" % (len(zipfile_.filelist), count))
             zipfile_.close()
             bytestream.close()
 
-- 
2.43.0


From 8dcfc27c5c1bf4855ec6c56ee5ab722ea3d45e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 21/48] fix: let all objects of one table share its cell
 references

---
 ezodf/table.py     | 9 +++++++--
 ezodf/wrapcache.py | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index a5005c5..f196777 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -29,8 +29,13 @@ class Table(GenericWrapper):
 
     def __init__(self, name='NEWTABLE', size=(10, 10), xmlnode=None):
         def init_attributes_by_xmlnode():
-            self._cellmatrix = TableRowController(self.xmlnode)
-            self._columns_info = TableColumnController(self.xmlnode)
+            table = wrapcache.find(self.xmlnode)
+            if table is not None: # all objects of one table share its cell references
+                self._cellmatrix = table._cellmatrix
+                self._columns_info = table._columns_info
+            else:
+                self._cellmatrix = TableRowController(self.xmlnode)
+                self._columns_info = TableColumnController(self.xmlnode)
             self._cell_span_controller = CellSpanController(self._cellmatrix)
 
         def set_new_table_metrics():
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index a54361d..eb2aa73 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -22,6 +22,10 @@ class _WrapCache(object):
         self.add(wrapped_object)
         return wrapped_object
 
+    def find(self, element):
+        """ Get the wrapped object of 'element' or None. """
+        return self._cache.get(id(element))
+
     def add(self, wrapped_object):
         self._cache[id(wrapped_object.xmlnode)] = wrapped_object
 
@@ -34,5 +38,6 @@ class _WrapCache(object):
 _wrapcache = _WrapCache()
 wrap = _wrapcache.wrap
 clear = _wrapcache.clear
+find = _wrapcache.find
 add = _wrapcache.add
 remove = _wrapcache.remove
-- 
2.43.0


From 5b0f2da682e4bcad36bbc98da7a397e36e3699e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 22/48] fix: do not tear a cell out of its row when it is set
 at another position

---
 ezodf/tablerowcontroller.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 35dbe46..f47b4b1 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -7,6 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import copy
+
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
@@ -41,6 +43,11 @@ class TableCellAccessor(object):
 
     def set_cell(self, pos, element):
         row, col = self._adjust_negative_indices(pos)
+        if element is self._rows[row][col]:
+            return
+        if element.getparent() is not None:
+            # moving a cell would leave a gap at its old place
+            element = copy.deepcopy(element)
         self._rows[row][col] = element
 
     def _adjust_negative_indices(self, pos):
-- 
2.43.0


From 07409001c2496d7fc98282d864618f5c28ee8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 23/48] fix: keep the text behind a removed or replaced element

---
 ezodf/base.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 61f9bc1..09b9024 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -13,6 +13,18 @@ from .compatibility import itermap, tostr
 def safelen(text):
     return len(text) if text else 0
 
+def detach_tail(xmlnode):
+    """ The text behind `xmlnode` is content of its parent, leave it there. """
+    tail = xmlnode.tail
+    if tail:
+        previous = xmlnode.getprevious()
+        if previous is not None:
+            previous.tail = (previous.tail or "") + tail
+        else:
+            parent = xmlnode.getparent()
+            parent.text = (parent.text or "") + tail
+        xmlnode.tail = None
+
 @register_class
 class GenericWrapper(object):
     TAG = 'GenericWrapper'
@@ -85,12 +97,11 @@ class GenericWrapper(object):
 
     def set_child(self, index, element):
         """ Set (replace) the child at position `index` by element. """
-        found = self.xmlnode[int(index)]
-        self.xmlnode.replace(found, element.xmlnode)
+        self._replace_xmlnode(self.xmlnode[int(index)], element.xmlnode)
 
     def del_child(self, index):
         """ Delete child at position `index`. """
-        del self.xmlnode[int(index)]
+        self._remove_xmlnode(self.xmlnode[int(index)])
 
     def findall(self, tag):
         """ Find all subelements by xml-tag (in Clark Notation). """
@@ -142,10 +153,22 @@ class GenericWrapper(object):
 
     def remove(self, child):
         """ Remove `child` object from node. """
-        self.xmlnode.remove(child.xmlnode)
+        self._remove_xmlnode(child.xmlnode)
 
     def replace(self, child, newchild):
-        self.xmlnode.replace(child.xmlnode, newchild.xmlnode)
+        self._replace_xmlnode(child.xmlnode, newchild.xmlnode)
+
+    def _remove_xmlnode(self, xmlnode):
+        self.xmlnode.index(xmlnode) # raises ValueError if it is not a child
+        detach_tail(xmlnode)
+        self.xmlnode.remove(xmlnode)
+
+    def _replace_xmlnode(self, xmlnode, newnode):
+        self.xmlnode.index(xmlnode) # raises ValueError if it is not a child
+        if newnode is not xmlnode:
+            tail, xmlnode.tail = xmlnode.tail, None
+            self.xmlnode.replace(xmlnode, newnode)
+            newnode.tail = tail
 
     def clear(self):
         """ Remove all content from node. """
-- 
2.43.0


From 7e65751e5bb4f5bb2b59b052ba3cffa31a0e7797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 24/48] fix: find the occurrences of variables with quotes in
 their names

---
 ezodf/variables.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index bb92540..5a16949 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -59,18 +59,11 @@ class Variable(GenericWrapper):  # {{{1
 
     @property
     def instances(self):  # {{{2
-        vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:%s-set' % self.INSTANCE),
-                                                       CN('text:name'),
-                                                       self.name))
-        vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:%s-get' % self.INSTANCE),
-                                                       CN('text:name'),
-                                                       self.name))
-        vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:%s-input' % self.INSTANCE),
-                                                       CN('text:name'),
-                                                       self.name))
+        root = self.get_xmlroot()
+        vs, vg, vi = [
+            [e for e in root.findall(".//" + CN('text:%s-%s' % (self.INSTANCE, how)))
+             if e.get(CN('text:name')) == self.name]
+            for how in ('set', 'get', 'input')]
         return itermap(wrap, vs + vg + vi)
 
     @property
-- 
2.43.0


From 281d3dd5772721c2139700307ccde7d333b4ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 25/48] fix: store every member once, even if the opened
 package lists it twice

---
 ezodf/filemanager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index ad3ac4c..16affc9 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -216,6 +216,8 @@ class FileManager(object):
     @staticmethod
     def _copy_from_zip_to_zip(fromzip, tozip, ignore):
         for zipinfo in fromzip.filelist:
+            if fromzip.getinfo(zipinfo.filename) is not zipinfo:
+                continue # superseded by a later member of the same name
             if zipinfo.filename not in ignore:
                 tozip.writestr(zipinfo, fromzip.read(zipinfo.filename))
 
-- 
2.43.0


From e8575c8b0a7e96908503e3d51e15573c59b79bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 26/48] fix: report empty XML parts instead of opening them as
 blank

---
 ezodf/filemanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 16affc9..bf34703 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -180,7 +180,7 @@ class FileManager(object):
 
     def get_xml_element(self, filename):
         filecontent = self.get_bytes(filename)
-        if filecontent:
+        if filecontent is not None:
             return etree.XML(filecontent)
         else:
             return None
-- 
2.43.0


From f83aedd8d6a2b69c59133c81ef95293b4701a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 27/48] fix: iterate over document statistics only, not over
 other attributes

---
 ezodf/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 0a28c84..8bf6c3d 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -237,7 +237,9 @@ class Statistic(object):
         """
         prefix = len(META_NS) + 2
         for key, value in self.stats.items():
-            yield (key[prefix:-6], int(value))
+            name = key[prefix:-6]
+            if key == Statistic.NS % name and name in Statistic.TYPES:
+                yield (name, int(value))
 
     def update(self, d):
         """ Set statistics from dict `d`. """
-- 
2.43.0


From 2370f26d75074494e8d620a2d3f099e8ef1e0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 28/48] fix: provide a column for every cell of the rows of an
 opened table

---
 ezodf/table.py                 |  1 +
 ezodf/tablecolumncontroller.py | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/ezodf/table.py b/ezodf/table.py
index f196777..41415ed 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -36,6 +36,7 @@ class Table(GenericWrapper):
             else:
                 self._cellmatrix = TableRowController(self.xmlnode)
                 self._columns_info = TableColumnController(self.xmlnode)
+                self._columns_info.align(self._cellmatrix.ncols())
             self._cell_span_controller = CellSpanController(self._cellmatrix)
 
         def set_new_table_metrics():
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index e273d43..00b9a76 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -72,6 +72,18 @@ class TableColumnController(object):
         self._expand_repeated_content()
         self.update()
 
+    def align(self, ncols):
+        """ Provide a column for each of the `ncols` cells of the table rows. """
+        missing = ncols - len(self)
+        if missing > 0 and len(self) == 0:
+            insert_position = PreludeTagBlock(self.xmlnode, TABLE_PRELUDE).insert_position_after()
+            self.xmlnode.insert(insert_position, new_empty_column())
+            self.update()
+            missing -= 1
+        for _ in range(missing):
+            self._columns[-1].addnext(copy.deepcopy(self._columns[-1]))
+        self.update()
+
     def update(self):
         self._columns = self.xmlnode.findall('.//'+CN('table:table-column'))
 
-- 
2.43.0


From 3d0bc20a3d240d01c2eb6e103d1aba7bd82eabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 29/48] fix: read and set variables whose occurrences carry a
 value attribute

---
 ezodf/variables.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 5a16949..fb43e6a 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -149,6 +149,27 @@ class UserField(Variable):  # {{{1
             self.type = 'string'
 
 
+VALUE_ATTRIBS = {
+    'float': CN('office:value'),
+    'percentage': CN('office:value'),
+    'currency': CN('office:value'),
+    'date': CN('office:date-value'),
+    'time': CN('office:time-value'),
+    'boolean': CN('office:boolean-value'),
+    'string': CN('office:string-value'),
+}
+
+
+def update_value_attribs(instance):
+    """Replaces the value attribute, if there is one, by the new value"""
+    attrib = instance.xmlnode.attrib
+    old = [a for a in set(VALUE_ATTRIBS.values()) if a in attrib]
+    for a in old:
+        del attrib[a]
+    if old:
+        attrib[VALUE_ATTRIBS[instance.type]] = instance.text
+
+
 class SimpleVariableInstance(GenericWrapper):  # {{{1
 
     def __init__(self, xmlnode=None):  # {{{2
@@ -161,9 +182,9 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         if self.type == 'string':
             return self.text
         elif self.type == 'boolean':
-            return self.text == 'true'
+            return self.get_attr(CN('office:boolean-value'), self.text) == 'true'
         elif self.type == 'float':
-            return float(self.text)
+            return float(self.get_attr(CN('office:value'), self.text))
         else:
             return self.text
 
@@ -180,6 +201,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
             self.type = 'float'
         else:
             self.type = 'string'
+        update_value_attribs(self)
 
     @property
     def type(self):  # {{{2
@@ -219,9 +241,9 @@ class UserFieldInstance(GenericWrapper):  # {{{1
         if self.type == 'string':
             return self.text
         elif self.type == 'boolean':
-            return self.text == 'true'
+            return self.get_attr(CN('office:boolean-value'), self.text) == 'true'
         elif self.type == 'float':
-            return float(self.text)
+            return float(self.get_attr(CN('office:value'), self.text))
         else:
             return self.text
 
@@ -238,6 +260,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
             self.type = 'float'
         else:
             self.type = 'string'
+        update_value_attribs(self)
 
     @property
     def type(self):  # {{{2
-- 
2.43.0


From a2144851390511c3610665c287f88d0bb88e8568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 30/48] fix: inject styles into flat XML documents

---
 ezodf/document.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/document.py b/ezodf/document.py
index 0f100b7..106daaa 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -183,6 +183,10 @@ class FlatXMLDocument(_BaseDocument):
         self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
         self.body = self.get_application_body(self.application_body_tag)
 
+    def inject_style(self, stylexmlstr, where="styles.xml"):
+        style = fake_element(stylexmlstr)
+        self.styles.xmlnode.append(style.xmlnode)
+
     def get_application_body(self, bodytag):
         # The office:body element is just frame element for the real document content:
         # office:text, office:spreadsheet, office:presentation, office:drawing
-- 
2.43.0


From 47735dcbd354eebc523fe23e00ee2b1e2b79d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 31/48] fix: find a style again after replacing it

---
 ezodf/styles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 53afcc1..b6617b1 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -53,7 +53,7 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value
+        self._cache[key] = value.xmlnode
 
     def _find(self, name):
         try:
-- 
2.43.0


From d64a37ac523c3122d382542bc22881c73a2ebba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 32/48] fix: leave tables inside cells alone when reading rows
 and columns

---
 ezodf/tablecolumncontroller.py |  8 ++++----
 ezodf/tableutils.py            | 10 +++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index 00b9a76..4419923 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -12,7 +12,7 @@ import copy
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
-from .tableutils import is_table, RepetitionAttribute
+from .tableutils import is_table, get_table_columns, RepetitionAttribute
 from .conf import config
 
 def new_empty_column():
@@ -85,7 +85,7 @@ class TableColumnController(object):
         self.update()
 
     def update(self):
-        self._columns = self.xmlnode.findall('.//'+CN('table:table-column'))
+        self._columns = get_table_columns(self.xmlnode)
 
     def reset(self, ncols):
         if ncols < 1:
@@ -108,7 +108,7 @@ class TableColumnController(object):
             strategy = expand_strategies[expand]
         except KeyError:
             raise TypeError("Unknown expand strategy: %s" % expand)
-        strategy.expand_columns(self.xmlnode.findall('.//'+CN('table:table-column')), maxcols)
+        strategy.expand_columns(get_table_columns(self.xmlnode), maxcols)
 
     def __len__(self):
         return len(self._columns)
@@ -132,7 +132,7 @@ class TableColumnController(object):
 
     def is_consistent(self):
         # just for testing
-        xmlcols = self.xmlnode.findall('.//'+CN('table:table-column'))
+        xmlcols = get_table_columns(self.xmlnode)
         if len(xmlcols) != len(self):
             return False
         for col1, col2 in zip(self._columns, xmlcols):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 26ef0d9..b44f4aa 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -62,8 +62,16 @@ def get_min_max_cell_count(xmltable):
     else:
         return (0, 0)
 
+def get_own_elements(xmltable, tag):
+    """ Get the `tag` elements of `xmltable`, but not of tables inside its cells. """
+    return [element for element in xmltable.iterdescendants(tag)
+            if next(element.iterancestors(xmltable.tag)) is xmltable]
+
 def get_table_rows(xmltable):
-    return xmltable.findall('.//'+CN('table:table-row'))
+    return get_own_elements(xmltable, CN('table:table-row'))
+
+def get_table_columns(xmltable):
+    return get_own_elements(xmltable, CN('table:table-column'))
 
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
-- 
2.43.0


From 628985d9b014a51e7d8f3255a0ddc4666fb2e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 33/48] fix: expand tables when no repetition at all is allowed

---
 ezodf/tablecolumncontroller.py | 2 +-
 ezodf/tablenormalizer.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index 4419923..15ed68e 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -55,7 +55,7 @@ class _ExpandAllLessMaxCount(_ExpandAll):
         if 1 < count < maxcols:
             del repeat.cols
             self.expand_element(count, xmlcolumn)
-        elif count >= maxcols:
+        elif count > 1:
             del repeat.cols # column just appears only one time
 
 expand_strategies = {
diff --git a/ezodf/tablenormalizer.py b/ezodf/tablenormalizer.py
index bcaca5e..992fdf8 100644
--- a/ezodf/tablenormalizer.py
+++ b/ezodf/tablenormalizer.py
@@ -94,7 +94,7 @@ class _ExpandAllLessMaxCount(_ExpandAll):
         if 1 < count < self.maxcols:
             del repeat.cols
             self.expand_element(xmlcell, count)
-        elif count >= self.maxcols:
+        elif count > 1:
             del repeat.cols # column just appears only one time
 
     def expand_row(self, xmlrow):
@@ -103,7 +103,7 @@ class _ExpandAllLessMaxCount(_ExpandAll):
         if 1 < count < self.maxrows:
             del repeat.rows
             self.expand_element(xmlrow, count)
-        elif count >= self.maxrows:
+        elif count > 1:
             del repeat.rows # row just appears only one time
 
 expand_strategies = {
-- 
2.43.0


From 1c28025a61d6b8f56a03145d41b12c287f7b8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 34/48] fix: keep column infos at their columns in tables with
 surplus columns

---
 ezodf/table.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 41415ed..840ceff 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -154,7 +154,15 @@ class Table(GenericWrapper):
     def column_info(self, index):
         if is_string(index):
             row, index = address_to_index(index)
-        return wrap(self._columns_info.get_table_column(index))
+        return wrap(self._columns_info.get_table_column(self._column_number(index)))
+
+    def _column_number(self, index):
+        # a table can have more column elements than cells per row
+        if index < 0:
+            index += self.ncols()
+            if index < 0:
+                raise IndexError('column index out of range')
+        return index
 
     def append_rows(self, count=1):
         self._cellmatrix.append_rows(count)
@@ -168,18 +176,24 @@ class Table(GenericWrapper):
         self._cellmatrix.delete_rows(index, count)
 
     def append_columns(self, count=1):
+        ncols = self.ncols()
         self._cellmatrix.append_columns(count)
-        self._columns_info.append(count)
+        if ncols < len(self._columns_info):
+            self._columns_info.insert(ncols, count)
+        else:
+            self._columns_info.append(count)
 
     def insert_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        column = self._column_number(index)
         self._cellmatrix.insert_columns(index, count)
-        self._columns_info.insert(index, count)
+        self._columns_info.insert(column, count)
 
     def delete_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        column = self._column_number(index)
         self._cellmatrix.delete_columns(index, count)
-        self._columns_info.delete(index, count)
+        self._columns_info.delete(column, count)
 
     def set_cell_span(self, pos, size):
         self._cell_span_controller.set_span(get_cell_index(pos), size)
-- 
2.43.0


From 73e3bad1b84b0a0ccb82701c309223a49ab935c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 35/48] fix: detect the document type by file name extension

---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 106daaa..552a099 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -71,7 +71,7 @@ def __detect_mime_type(file_manager):
     else:
         # use file ext name
         ext = os.path.splitext(file_manager.zipname)[1]
-        mime_type = MIMETYPES[ext]
+        mime_type = MIMETYPES[ext[1:]]
     return mime_type
 
 
-- 
2.43.0


From 31964ff68252469875650e0629760311bbc9e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 36/48] fix: create documents from templates without a mimetype
 member

---
 ezodf/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 552a099..e454d72 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -98,7 +98,7 @@ def _new_doc_from_template(filename, templatename):
             raise IOError('File does not exist or it is not a zipfile: %s' % tostr(buffer))
 
     fm = get_filemanager(templatename)
-    mimetype = fm.get_text('mimetype')
+    mimetype = __detect_mime_type(fm)
     if mimetype.endswith('-template'):
         mimetype = mimetype[:-9]
     try:
-- 
2.43.0


From 78946c12609673881d473f0694fd932987ed3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 37/48] fix: support master, web page and chart and image
 template documents

---
 ezodf/const.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ezodf/const.py b/ezodf/const.py
index 86b6fc4..b038f2c 100644
--- a/ezodf/const.py
+++ b/ezodf/const.py
@@ -195,8 +195,12 @@ MIMETYPE_NSMAP = {
     "application/vnd.oasis.opendocument.spreadsheet": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.spreadsheet-template": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.chart" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.chart-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.image" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.image-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.formula" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.text-master" : TEXT_NSMAP,
+    "application/vnd.oasis.opendocument.text-web" : TEXT_NSMAP,
 }
 
 MIMETYPE_BODYTAG_MAP = {
@@ -209,7 +213,11 @@ MIMETYPE_BODYTAG_MAP = {
     "application/vnd.oasis.opendocument.spreadsheet": "office:spreadsheet",
     "application/vnd.oasis.opendocument.spreadsheet-template": "office:spreadsheet",
     "application/vnd.oasis.opendocument.chart" : "office:chart",
+    "application/vnd.oasis.opendocument.chart-template" : "office:chart",
     "application/vnd.oasis.opendocument.image" : "office:image",
+    "application/vnd.oasis.opendocument.image-template" : "office:image",
+    "application/vnd.oasis.opendocument.text-master" : "office:text",
+    "application/vnd.oasis.opendocument.text-web" : "office:text",
 }
 
 DEFAULT_TABLE_EXPAND_STRATEGY = "all_less_maxcount"
-- 
2.43.0


From a2ce03885e19ef83c9965c562c91c0db4742ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 38/48] fix: find styles by their current name

---
 ezodf/styles.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index b6617b1..0283842 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -38,7 +38,6 @@ class Container(object):
     def __init__(self, xmlnode):
         assert xmlnode.tag == self.TAG
         self.xmlnode = xmlnode
-        self._cache = {}
 
     def __getitem__(self, key):
         style = self._find(key) # by style:name attribute
@@ -53,17 +52,13 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value.xmlnode
+        value.xmlnode.set(CN('style:name'), key)
 
     def _find(self, name):
-        try:
-            return self._cache[name]
-        except KeyError:
-            for style in self.xmlnode.iterchildren():
-                stylename = style.get(CN('style:name'))
-                if stylename == name:
-                    self._cache[name] = style
-                    return style
+        for style in self.xmlnode.iterchildren():
+            stylename = style.get(CN('style:name'))
+            if stylename == name:
+                return style
         return None
 
 @register_class
-- 
2.43.0


From 1b8de64b98120264d450fa33338efed7ca81dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 39/48] fix: set style attributes

---
 ezodf/styles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 0283842..662a2ea 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -92,6 +92,7 @@ class BaseStyle:
 
     def __setitem__(self, key, value):
         """ Set style attribute 'key' to 'value'. """
+        self.xmlnode.set(self.ATTRIBUTEMAP[key], value)
 
     def _properties(self, key, property_factory, new=True):
         """ Get or create a properties element. """
-- 
2.43.0


From 2b5966d916c54e2d93a9f4111ee291fcbd1dc5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 40/48] fix: look up page layouts without changing them

---
 ezodf/styles.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 662a2ea..c14dec2 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -142,10 +142,14 @@ class PageLayout(BaseStyle):
         'name': CN('style:name'),
         'page-usage': CN('style:page-usage'), # all | left | right | mirrored
     }
-    def __init__(self, xmlelement):
-        super(PageLayout, self).__init__(xmlelement)
-        self.header = self._properties(CN('style:header-style'), HeaderProperties)
-        self.footer = self._properties(CN('style:footer-style'), HeaderProperties)
+
+    @property
+    def header(self):
+        return self._properties(CN('style:header-style'), HeaderProperties)
+
+    @property
+    def footer(self):
+        return self._properties(CN('style:footer-style'), HeaderProperties)
 
 @register_class
 class FontFace(BaseStyle):
-- 
2.43.0


From e7aa3cac6e766ebc8c034ac2bc1f091b99dd3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 41/48] fix: undefined names in error messages

---
 ezodf/cellspancontroller.py | 1 +
 ezodf/styles.py             | 2 +-
 ezodf/tableutils.py         | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 1d1a7db..443534d 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import wrap
 from .tableutils import iter_cell_range, iter_cell_range_without_start_pos
 
diff --git a/ezodf/styles.py b/ezodf/styles.py
index c14dec2..ff8cc4e 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -23,7 +23,7 @@ class OfficeDocumentStyles(XMLMixin):
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
         else:
-            raise ValueError("Unexpected root node: %s" % content.tag)
+            raise ValueError("Unexpected root node: %s" % xmlnode.tag)
         self._setup()
 
     def _setup(self):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index b44f4aa..e61d056 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -53,7 +53,7 @@ def get_cell_index(reference):
     elif is_string(reference): # key => 'A1'
         return address_to_index(reference)
     else:
-        raise TypeError(tostr(type(key)))
+        raise TypeError(tostr(type(reference)))
 
 def get_min_max_cell_count(xmltable):
     count = [count_cells_in_row(xmlrow) for xmlrow in get_table_rows(xmltable)]
-- 
2.43.0


From 5e78cdb2f143789d711f0e3dbd216e2dad7b4363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 42/48] fix: documents with tables stay in memory for ever

---
 ezodf/pagecontainer.py | 16 +++++++++++++---
 ezodf/table.py         |  3 ++-
 ezodf/wrapcache.py     |  5 ++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index c597b36..ed203b4 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -15,12 +15,17 @@ class AbstractPageContainer(object):
         self._childtag = childtag
         self._nametag = nametag
         self.xmlnode = xmlbody
+        self._wrapped = dict() # wrapped children live as long as the document
+
+    def _wrap(self, child):
+        self._wrapped[child] = wrapped = wrapcache.wrap(child)
+        return wrapped
 
     def __len__(self):
         return len(self._xmlchildren())
 
     def __iter__(self):
-        return (wrapcache.wrap(child) for child in self._xmlchildren())
+        return (self._wrap(child) for child in self._xmlchildren())
 
     def _xmlchildren(self):
         return self.xmlnode.findall(self._childtag)
@@ -43,6 +48,8 @@ class AbstractPageContainer(object):
         else:
             raise TypeError('key has invalid type.')
         self.xmlnode.replace(oldchild.xmlnode, child.xmlnode)
+        self._wrapped.pop(oldchild.xmlnode, None)
+        self._wrap(child.xmlnode)
 
     def __delitem__(self, key):
         if isinstance(key, int):
@@ -52,6 +59,7 @@ class AbstractPageContainer(object):
         else:
             raise TypeError('key has invalid type.')
         self.xmlnode.remove(oldchild.xmlnode)
+        self._wrapped.pop(oldchild.xmlnode, None)
 
     def __iadd__(self, other):
         self.append(other)
@@ -66,16 +74,17 @@ class AbstractPageContainer(object):
     def _child_by_name(self, name):
         for child in self._xmlchildren():
             if name == child.get(self._nametag):
-                return wrapcache.wrap(child)
+                return self._wrap(child)
         raise KeyError("child '%s' not found." % name)
 
     def _child_by_index(self, index):
         sheets = list(self._xmlchildren())
-        return wrapcache.wrap(sheets[index])
+        return self._wrap(sheets[index])
 
     def append(self, child):
         if self._is_valid_child(child):
             self.xmlnode.append(child.xmlnode)
+            self._wrap(child.xmlnode)
             return child
         else:
             raise TypeError('Unable to append: %s' % tostr(child))
@@ -96,4 +105,5 @@ class AbstractPageContainer(object):
             children[-1].addnext(child.xmlnode)
         else:
             self.xmlnode.append(child.xmlnode)
+        self._wrap(child.xmlnode)
         return child
diff --git a/ezodf/table.py b/ezodf/table.py
index 840ceff..f79784e 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -33,10 +33,12 @@ class Table(GenericWrapper):
             if table is not None: # all objects of one table share its cell references
                 self._cellmatrix = table._cellmatrix
                 self._columns_info = table._columns_info
+                self._shared_table = table # keep it in the cache
             else:
                 self._cellmatrix = TableRowController(self.xmlnode)
                 self._columns_info = TableColumnController(self.xmlnode)
                 self._columns_info.align(self._cellmatrix.ncols())
+                wrapcache.add(self)
             self._cell_span_controller = CellSpanController(self._cellmatrix)
 
         def set_new_table_metrics():
@@ -48,7 +50,6 @@ class Table(GenericWrapper):
         init_attributes_by_xmlnode()
         if xmlnode is None:
             set_new_table_metrics()
-        wrapcache.add(self)
 
     def __getitem__(self, key):
         if isinstance(key, int):
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index eb2aa73..cbd58f2 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -7,11 +7,14 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from weakref import WeakValueDictionary
+
 from .xmlns import wrap as uncached_wrap
 
 class _WrapCache(object):
     # Should only used for big expensive objects like tables.
-    _cache = {}
+    # The cache does not keep objects (and their documents) alive.
+    _cache = WeakValueDictionary()
 
     def wrap(self, element):
         key = id(element)
-- 
2.43.0


From 72a9957f78338fb740250fd1a82750b73685c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 43/48] fix: moving or replacing by an element of another place
 takes or loses the text behind it

append(), insert() and replace() of an element, which already has a parent,
moved the text behind the element too, and replace() lost it.
---
 ezodf/base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 09b9024..7f48ac2 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -87,6 +87,8 @@ class GenericWrapper(object):
 
     def insert(self, index, child):
         """ Insert child at position `index`. """
+        if child.xmlnode.tail and child.xmlnode not in self.xmlnode[int(index):][:1]:
+            self._release_xmlnode(child.xmlnode)
         self.xmlnode.insert(int(index), child.xmlnode)
         return child # pass through
 
@@ -142,6 +144,7 @@ class GenericWrapper(object):
 
     def append(self, child):
         """ Append `child` as to node. """
+        self._release_xmlnode(child.xmlnode)
         self.xmlnode.append(child.xmlnode)
         return child # pass through
 
@@ -166,9 +169,19 @@ class GenericWrapper(object):
     def _replace_xmlnode(self, xmlnode, newnode):
         self.xmlnode.index(xmlnode) # raises ValueError if it is not a child
         if newnode is not xmlnode:
-            tail, xmlnode.tail = xmlnode.tail, None
+            self._release_xmlnode(newnode)
             self.xmlnode.replace(xmlnode, newnode)
-            newnode.tail = tail
+            tail, xmlnode.tail = xmlnode.tail, None
+            if tail:
+                newnode.tail = (newnode.tail or "") + tail
+
+    def _release_xmlnode(self, xmlnode):
+        """ `xmlnode` becomes a child, the text behind it stays where it was. """
+        if xmlnode.getparent() is None:
+            return
+        if xmlnode is self.xmlnode or xmlnode in self.xmlnode.iterancestors():
+            return # can't be a child, lxml raises ValueError
+        detach_tail(xmlnode)
 
     def clear(self):
         """ Remove all content from node. """
-- 
2.43.0


From 925ae64bdce38fe8f66b687c409797b5d6b2ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:57 +0000
Subject: [PATCH 44/48] fix: sheets and pages accept an insert of any other
 element

---
 ezodf/pagecontainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index ed203b4..fedcd73 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -96,6 +96,8 @@ class AbstractPageContainer(object):
         return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
+        if not self._is_valid_child(child):
+            raise TypeError('Unable to insert: %s' % tostr(child))
         # the body contains also other elements
         children = self._xmlchildren()
         following = children[int(index):]
-- 
2.43.0


From 967dd35e2d0fb462b30a181253f9b354f6b075c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 45/48] fix: parts missing in a document are added in the order
 of the schema

---
 ezodf/content.py  | 10 +++++-----
 ezodf/document.py | 14 +++++++-------
 ezodf/styles.py   | 10 +++++-----
 ezodf/xmlns.py    | 15 +++++++++++++++
 4 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/ezodf/content.py b/ezodf/content.py
index 17c9d31..6278d9b 100644
--- a/ezodf/content.py
+++ b/ezodf/content.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .const import MIMETYPE_NSMAP
-from .xmlns import XMLMixin, subelement, CN, etree, register_class, wrap
+from .xmlns import XMLMixin, subelement, ordered_subelements, CN, etree, register_class, wrap
 from .base import GenericWrapper
 
 from . import body # register body classes
@@ -29,10 +29,10 @@ class OfficeDocumentContent(XMLMixin):
     def _setup_references(self, mimetype):
         # these elements are common to all document types
         # The element office:scripts always exists but is always empty
-        self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
-        self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
-        self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
-        self.body = wrap(subelement(self.xmlnode, CN('office:body')))
+        tags = [CN('office:scripts'), CN('office:font-face-decls'),
+                CN('office:automatic-styles'), CN('office:body')]
+        self.scripts, self.fonts, self.automatic_styles, self.body = map(
+            wrap, ordered_subelements(self.xmlnode, tags))
 
     def get_application_body(self, bodytag):
         # The office:body element is just frame element for the real document content:
diff --git a/ezodf/document.py b/ezodf/document.py
index e454d72..912c02a 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -11,7 +11,7 @@ import os
 from zipfile import BadZipfile
 from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
-from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
+from .xmlns import subelement, ordered_subelements, CN, etree, wrap, ALL_NSMAP, fake_element
 from .filemanager import FileManager, backup_file, replace_content
 from .bytestreammanager import ByteStreamManager
 from .meta import OfficeDocumentMeta
@@ -175,12 +175,12 @@ class FlatXMLDocument(_BaseDocument):
 
     def _setup(self):
         self.meta = OfficeDocumentMeta(self.xmlnode)
-        self.styles = wrap(subelement(self.xmlnode, CN('office:settings')))
-        self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
-        self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:styles')))
-        self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
-        self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
+        tags = [CN('office:settings'), CN('office:scripts'), CN('office:font-face-decls'),
+                CN('office:styles'), CN('office:automatic-styles'),
+                CN('office:master-styles'), CN('office:body')]
+        elements = ordered_subelements(self.xmlnode, tags)
+        self.scripts, self.fonts, self.styles, self.automatic_styles, self.master_styles = map(
+            wrap, elements[1:6])
         self.body = self.get_application_body(self.application_body_tag)
 
     def inject_style(self, stylexmlstr, where="styles.xml"):
diff --git a/ezodf/styles.py b/ezodf/styles.py
index ff8cc4e..556acb1 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .const import STYLES_NSMAP
-from .xmlns import XMLMixin, subelement, etree, CN, register_class, wrap
+from .xmlns import XMLMixin, subelement, ordered_subelements, etree, CN, register_class, wrap
 from .base import GenericWrapper
 
 ## file 'styles.xml'
@@ -27,10 +27,10 @@ class OfficeDocumentStyles(XMLMixin):
         self._setup()
 
     def _setup(self):
-        self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
-        self.styles = wrap(subelement(self.xmlnode, CN('office:styles')))
-        self.automatic_styles = wrap(subelement(self.xmlnode, CN('office:automatic-styles')))
-        self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
+        tags = [CN('office:font-face-decls'), CN('office:styles'),
+                CN('office:automatic-styles'), CN('office:master-styles')]
+        self.fonts, self.styles, self.automatic_styles, self.master_styles = map(
+            wrap, ordered_subelements(self.xmlnode, tags))
 
 ## style container
 
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index a4af9f8..01eff3c 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -19,6 +19,21 @@ def subelement(parent, tag, new=True):
         element = etree.SubElement(parent, tag)
     return element
 
+def ordered_subelements(parent, tags):
+    """ Find/create a SubElement for each of `tags`, new elements are placed in
+    the order of `tags`.
+    """
+    elements = []
+    for index, tag in enumerate(tags):
+        element = parent.find(tag)
+        if element is None:
+            element = etree.SubElement(parent, tag)
+            followers = [child for child in parent if child.tag in tags[index+1:]]
+            if followers:
+                followers[0].addprevious(element)
+        elements.append(element)
+    return elements
+
 class _XMLNamespaces(object):
     def __init__(self, namespaces):
         self.prefix2uri = {}
-- 
2.43.0


From 3af8d37a7f7eeb9f8879358c9de3cbcee8d27033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 46/48] fix: iterating over document statistics fails for a
 value which is no number

---
 ezodf/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 8bf6c3d..d7e6fe6 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -236,10 +236,10 @@ class Statistic(object):
         :returns: (name, value) tulples
         """
         prefix = len(META_NS) + 2
-        for key, value in self.stats.items():
+        for key in self.stats.keys():
             name = key[prefix:-6]
             if key == Statistic.NS % name and name in Statistic.TYPES:
-                yield (name, int(value))
+                yield (name, self[name])
 
     def update(self, d):
         """ Set statistics from dict `d`. """
-- 
2.43.0


From 178eed812949ba9e9a20bc046091e4361b6e3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 47/48] fix: opening a flat document fails when a package
 replaces it meanwhile

---
 ezodf/document.py    | 12 +++++++-----
 ezodf/filemanager.py |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 912c02a..02af8f3 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -41,19 +41,21 @@ def opendoc(filename):
     if is_stream(filename) or is_valid_stream(filename):
         fm = ByteStreamManager(filename)
     else:
+        # read it just once, another program can replace the file meanwhile
+        with open(filename, 'rb') as fp:
+            content = fp.read()
         try:
-            fm = FileManager(filename)
+            fm = FileManager(filename, content)
         except BadZipfile:
-            return _open_flat_xml(filename)
+            return _open_flat_xml(filename, content)
 
     mime_type = __detect_mime_type(fm)
     return PackagedDocument(filemanager=fm, mimetype=mime_type)
 
 
-def _open_flat_xml(filename):
+def _open_flat_xml(filename, content):
     try:
-        with open(filename, 'rb') as fp:
-            xmlnode = etree.parse(fp).getroot()
+        xmlnode = etree.parse(StringIO(content)).getroot()
     except etree.ParseError:
         raise IOError("File '%s' is neither a zip-package nor a flat "
                       "XML OpenDocumentFormat file." % filename)
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index bf34703..3a52573 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -103,10 +103,12 @@ def backup_file(filename):
 class FileManager(object):
     _zipfile_as_bytes = None # the package as it was when it was opened
 
-    def __init__(self, zipname=None):
+    def __init__(self, zipname=None, content=None):
         self.directory = dict()
         self.zipname = zipname
-        if zipname is not None:
+        if content is not None:
+            self._zipfile_as_bytes = content
+        elif zipname is not None:
             with open(zipname, 'rb') as fp:
                 self._zipfile_as_bytes = fp.read()
         self._check_zip()
-- 
2.43.0


From 91060c671bac3826c789aca28e4fa643eeb1ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 48/48] fix: clearing a node removes the text behind it

---
 ezodf/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/base.py b/ezodf/base.py
index 7f48ac2..870f60e 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -185,7 +185,9 @@ class GenericWrapper(object):
 
     def clear(self):
         """ Remove all content from node. """
+        tail = self.xmlnode.tail # the text behind the node is not its content
         self.xmlnode.clear()
+        self.xmlnode.tail = tail
 
     ## production code
 
-- 
2.43.0

