From d4a3184b5a79bde32f67027c0049a18cd09cf6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 01/61] fix: a shared data file is locked by at most one
 process

The owner of a lock removes the lock file when it gives it up. A process that
had opened that file before the removal could then lock the orphaned inode
while a third process created and locked a new lock file. Check after flock()
that the locked file still carries the name. Also accept descriptor 0, which
open() returns when standard input is closed and which made the process lock
itself out forever, and never treat the modes without a lock as locked.
---
 include/tensor/sdf.h |  2 +-
 src/sdf/data_file.cc | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index dbc7f45..57b34d4 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -72,7 +72,7 @@ namespace sdf {
     const char *tag_to_name(size_t tag);
     void close();
     bool is_open() { return _open; }
-    bool is_locked() { return _lock; }
+    bool is_locked() { return _lock >= 0; }
     const std::string &actual_filename() { return _actual_filename; }
 
   };
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 9c6b34f..581efb7 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -57,7 +57,19 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  fd = -1;
 	}
-      if (fd > 0 || !wait)
+      if (fd >= 0)
+	{
+	  /* The previous owner removes the file when it gives up the lock: a
+	     lock on a file that no longer has this name excludes nobody. */
+	  struct stat ours, current;
+	  if (fstat(fd, &ours) < 0 || stat(lockName, &current) < 0 ||
+	      ours.st_dev != current.st_dev || ours.st_ino != current.st_ino)
+	    {
+	      close(fd);
+	      fd = -1;
+	    }
+	}
+      if (fd >= 0 || !wait)
 	return fd;
       sleep(1);
     } while (1);
@@ -81,7 +93,7 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
   _actual_filename(a_filename),
   _filename(_actual_filename),
   _lock_filename(_actual_filename + ".lck"),
-  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : 0),
+  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : -1),
   _open(true)
 {
   switch (flags) {
-- 
2.43.0


From 8a258e786be430f7d24af47da929fb9c57b293fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 02/61] fix: do not wait forever for a lock file that cannot be
 created

Opening a shared file in a missing or unwritable directory retried once per
second for ever instead of reporting the error.
---
 src/sdf/data_file.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 581efb7..813b498 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -27,6 +27,8 @@
 #include <tensor/config.h>
 #include <tensor/sdf.h>
 #include <errno.h>
+#include <stdlib.h>
+#include <string.h>
 
 namespace sdf {
 
@@ -47,7 +49,17 @@ static int get_lock(char const *lockName, bool wait)
     do {
       mode_t m = umask(0);
       int fd = open(lockName, O_RDWR|O_CREAT, 0666);
+      int error = errno;
       umask(m);
+      if (fd < 0 && wait &&
+          (error == ENOENT || error == ENOTDIR || error == EISDIR ||
+           error == EROFS || error == ENAMETOOLONG ||
+           (error == EACCES && access(lockName, F_OK) < 0))) {
+        /* Waiting does not help */
+        std::cerr << "Cannot create lock file " << lockName << ": "
+                  << strerror(error) << std::endl;
+        abort();
+      }
       if( fd >= 0 && flock( fd, LOCK_EX | LOCK_NB ) < 0 )
 	{
           if (errno == ENOTSUP) {
-- 
2.43.0


From 47299880ab537dd7675b56f87d54cb0910a6bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 03/61] fix: stop when a data file cannot be opened, written or
 closed

Only badbit was tested, and before the flush that performs the write. A failed
open sets failbit only, and an error in the last flush or in close() was never
looked at, so that sessions on a full or failing disk ended successfully with
their data lost.
---
 src/sdf/odata_file.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index a38e255..f03c110 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -21,19 +21,24 @@
 
 using namespace sdf;
 
+static void check_stream(std::ofstream &s)
+{
+  if (!s) {
+    std::cerr << "I/O error when writing to SDF stream";
+    abort();
+  }
+}
+
 #if !defined(aix)
 
 template <class number>
 void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 {
   s.write((char *)data, n * sizeof(number));
-  if (s.bad()) {
-    std::cerr << "I/O error when writing to SDF stream";
-    abort();
-  }
   // Horrible hack to ensure icc flushes our buffers and does not
   // cause buffer overflow.
   s.flush();
+  check_stream(s);
 }
 
 #else
@@ -44,11 +49,8 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.write((char *)data, n * sizeof(number));
-    if (s.bad()) {
-      std::cerr << "I/O error when writing to SDF stream";
-      abort();
-    }
     s.flush();
+    check_stream(s);
     return;
   }
 
@@ -81,11 +83,8 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
       n--;
     }
     s.write(buffer, now);
-    if (s.bad()) {
-      std::cerr << "I/O error when reading from stream " << s;
-      abort();
-    }
     s.flush();
+    check_stream(s);
   } while (n);
 }
 
@@ -100,6 +99,7 @@ OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
 {
   bool existed = file_exists(actual_filename());
   _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
+  check_stream(_stream);
   if (!existed) {
     write_header();
   }
@@ -116,6 +116,7 @@ OutDataFile::close()
   if (is_open()) {
     _stream.flush();
     _stream.close();
+    check_stream(_stream);
     DataFile::close();
   }
 }
-- 
2.43.0


From ffbad2b4d69cfb12b9bba57212413c9339a481cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 04/61] fix: write the header of a data file exactly when the
 file is empty

Whether to write the header was decided by testing access permissions, so that
a file whose creator died before its first write never got one, and a file
that may be written but not read got a second one in the middle. Likewise a
file that must be replaced was kept, and appended to, when it could not be
read or could not be removed.
---
 src/sdf/data_file.cc  | 7 +++++--
 src/sdf/odata_file.cc | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 813b498..01eaae1 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -110,7 +110,7 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
 {
   switch (flags) {
   case SDF_OVERWRITE:
-    if (file_exists(_actual_filename) && !delete_file(_actual_filename)) {
+    if (!delete_file(_actual_filename) && errno != ENOENT) {
       std::cerr << "Cannot overwrite file " << _actual_filename << std::endl;
       abort();
     }
@@ -119,7 +119,10 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
     break;
   case SDF_PARANOID:
     _actual_filename = _actual_filename + ".tmp";
-    delete_file(_actual_filename);
+    if (!delete_file(_actual_filename) && errno != ENOENT) {
+      std::cerr << "Cannot overwrite file " << _actual_filename << std::endl;
+      abort();
+    }
     break;
   default:
     std::cerr << "Unrecognized DataFile mode " <<  flags << std::endl;
diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index f03c110..8873245 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -97,10 +97,10 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
   DataFile(a_filename, flags)
 {
-  bool existed = file_exists(actual_filename());
   _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
   check_stream(_stream);
-  if (!existed) {
+  // A file that is new, or whose creator died before writing anything
+  if (_stream.rdbuf()->pubseekoff(0, std::ios_base::end) == std::streampos(0)) {
     write_header();
   }
 }
-- 
2.43.0


From f770f38052f8fbdc500f09c2ceea3224768a4e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 05/61] fix: rename_file() replaces the destination in one step

The destination was removed before the rename, and even before checking that
there is something to rename: a crash or an error in between lost both
versions. A destination without write permission was overwritten although the
caller forbade it.
---
 src/sdf/rename_file.cc | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/sdf/rename_file.cc b/src/sdf/rename_file.cc
index c937f53..8a9d6b2 100644
--- a/src/sdf/rename_file.cc
+++ b/src/sdf/rename_file.cc
@@ -18,27 +18,46 @@
 */
 
 #include <stdio.h>
+#if defined(_MSC_VER) || defined(__MINGW32__)
+# include <io.h>
+# define access _access
+# ifndef F_OK
+#  define F_OK 0
+# endif
+#else
+# include <unistd.h>
+#endif
 #include <tensor/sdf.h>
 
 namespace sdf {
 
+  static bool is_there(const std::string &filename)
+  {
+    return access(filename.c_str(), F_OK) == 0;
+  }
+
   bool rename_file(const std::string &orig, const std::string &dest, bool overwrite)
   {
-    if (file_exists(dest)) {
-      if (!overwrite || !delete_file(dest)) {
-	std::cerr << "Unable to move file to destination " << dest
-		  << " because destination cannot be deleted." << std::endl;
-	abort();
-      }
-    }
-    if (!file_exists(orig)) {
-      std::cerr << "In rename_file(), original file " << dest
+    if (!is_there(orig)) {
+      std::cerr << "In rename_file(), original file " << orig
 		<< " does not exist" << std::endl;
       abort();
     }
+    if (!overwrite && is_there(dest)) {
+      std::cerr << "Unable to move file to destination " << dest
+		<< " because destination cannot be deleted." << std::endl;
+      abort();
+    }
+#if defined(_MSC_VER) || defined(__MINGW32__)
+    // Here rename() does not replace an existing file.
+    if (is_there(dest) && !delete_file(dest)) {
+      std::cerr << "Unable to move file to destination " << dest
+		<< " because destination cannot be deleted." << std::endl;
+      abort();
+    }
+#endif
     return rename(orig.c_str(), dest.c_str()) == 0;
   }
 
 }
 
-
-- 
2.43.0


From 818af18133e8f92966f6fab5e23e3a857d2c4299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 06/61] fix: a paranoid session publishes its file only when it
 was closed

An exception that left the session, also from within the constructor or
dump(), renamed the half-written temporary file over the good one. A rename
that failed went unnoticed.
---
 include/tensor/sdf.h  |  1 +
 src/sdf/data_file.cc  | 17 ++++++++++++++---
 src/sdf/odata_file.cc | 20 ++++++++++++++++++--
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index 57b34d4..e025910 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -99,6 +99,7 @@ namespace sdf {
   private:
 
     std::ofstream _stream;
+    int _exceptions;
 
     void write_raw(const char *data, size_t n);
     void write_raw(const int *data, size_t n);
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 01eaae1..6bca08a 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -132,7 +132,15 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
 
 DataFile::~DataFile()
 {
-  close();
+  if (is_open()) {
+    if (_flags == SDF_PARANOID) {
+      // Not closed properly: the content may be incomplete.
+      _open = false;
+      delete_file(_actual_filename);
+    } else {
+      close();
+    }
+  }
 }
 
 void
@@ -147,8 +155,11 @@ DataFile::close()
       }
       break;
     case SDF_PARANOID:
-      if (file_exists(_actual_filename))
-        rename_file(_actual_filename, _filename);
+      if (!rename_file(_actual_filename, _filename)) {
+        std::cerr << "Cannot rename file " << _actual_filename << " to "
+                  << _filename << std::endl;
+        abort();
+      }
     }
   }
 }
diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index 8873245..ce592bb 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <exception>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -94,8 +95,17 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 // COMMON I/O ROUTINES
 //
 
+static int count_exceptions()
+{
+#if __cplusplus >= 201703L
+  return std::uncaught_exceptions();
+#else
+  return std::uncaught_exception();
+#endif
+}
+
 OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
-  DataFile(a_filename, flags)
+  DataFile(a_filename, flags), _exceptions(count_exceptions())
 {
   _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
   check_stream(_stream);
@@ -107,7 +117,13 @@ OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
 
 OutDataFile::~OutDataFile()
 {
-  close();
+  if (is_open() && _flags == SDF_PARANOID &&
+      count_exceptions() > _exceptions) {
+    // An exception interrupted the session: do not publish its file.
+    _stream.close();
+  } else {
+    close();
+  }
 }
 
 void
-- 
2.43.0


From c1dd9cdb54da773310f9fe7c1574c792a03ae413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 07/61] fix: stop when a data file cannot be opened or ends too
 early

Only badbit was tested, but read() at the end of a truncated file, and every
read from a file that could not be opened, set failbit: the loaded variables
were silently filled with uninitialised memory.
---
 src/sdf/idata_file.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index b3f02b7..6dfc688 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -21,15 +21,21 @@
 
 using namespace sdf;
 
+static void check_stream(std::ifstream &s)
+{
+  // An unopened file or too few data set the failbit, not the badbit
+  if (!s) {
+    std::cerr << "I/O error when reading from SDF stream";
+    abort();
+  }
+}
+
 #if !defined(aix)
 template <class number>
 void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 {
   s.read((char *)data, n * sizeof(number));
-  if (s.bad()) {
-    std::cerr << "I/O error when reading from SDF stream";
-    abort();
-  }
+  check_stream(s);
 }
 #else
 template <class number>
@@ -38,10 +44,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.read((char *)data, n * sizeof(number));
-    if (s.bad()) {
-      std::cerr << "I/O error when reading from SDF stream";
-      abort();
-    }
+    check_stream(s);
     return;
   }
 
@@ -52,10 +55,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   do {
     size_t now = min<size_t>(n*size, buffer_size);
     s.read(buffer, now);
-    if (s.bad()) {
-      std::cerr << "I/O error when reading from stream " << s;
-      abort();
-    }
+    check_stream(s);
     for (size_t i = 0; i < now; i+=size) {
       if (size == 4) {
 	*(alias++) = buffer[i+3];
-- 
2.43.0


From ee8b4fe7e33ce8b0cba17aeb81ac41187109a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 08/61] fix: a damaged data file is reported instead of read
 out of bounds

A name without terminator, a header shorter than six characters, an unknown
type code (in the error message itself) and an empty tensor where a number was
expected were read beyond their memory. Negative dimensions, or dimensions
whose product overflows, could yield a tensor with elements it does not have.
---
 include/tensor/sdf.h  |  1 +
 src/sdf/data_file.cc  |  3 ++-
 src/sdf/idata_file.cc | 33 +++++++++++++++++++++++++++------
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index e025910..83b2a34 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -152,6 +152,7 @@ namespace sdf {
     }
 
     template<class Vector> const Vector load_vector();
+    const Indices load_dimensions();
 
     tensor::index read_tag_code();
     std::string read_variable_name();
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 6bca08a..75d0b16 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -171,8 +171,9 @@ DataFile::tag_to_name(size_t tag)
 	"RTensor", "CTensor", "Real MPS", "Complex MPS"
     };
 
-    if (tag > 4 /* || tag < 0 */) {
+    if (tag > 3 /* || tag < 0 */) {
 	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename;
+	return "unknown";
     }
     return names[tag];
 }
diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 6dfc688..5e46611 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -17,6 +17,8 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
+#include <limits>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -146,7 +148,9 @@ InDataFile::read_variable_name()
 {
   char *buffer = new char[var_name_size];
   read_raw(buffer, var_name_size);
-  std::string output(buffer);
+  // A damaged file may lack the terminator
+  const char *end = std::find(buffer, buffer + var_name_size, '\0');
+  std::string output((const char *)buffer, end);
   delete[] buffer;
   return output;
 }
@@ -180,17 +184,33 @@ const Vector InDataFile::load_vector()
   return v;
 }
 
+const Indices InDataFile::load_dimensions()
+{
+  Indices dims = load_vector<Indices>();
+  tensor::index size = 1;
+  for (tensor::index i = 0; i < dims.size(); i++) {
+    tensor::index d = dims[i];
+    if (d < 0 || (d && size > std::numeric_limits<tensor::index>::max() / d)) {
+      std::cerr << "While reading file " << _filename
+		<< " found a tensor with wrong dimensions.";
+      abort();
+    }
+    size *= d;
+  }
+  return dims;
+}
+
 void
 InDataFile::load(RTensor *t, const std::string &name) {
   read_tag(name, TAG_RTENSOR);
-  Indices dims = load_vector<Indices>();
+  Indices dims = load_dimensions();
   *t = RTensor(dims, load_vector<RTensor>());
 }
 
 void
 InDataFile::load(CTensor *t, const std::string &name) {
   read_tag(name, TAG_CTENSOR);
-  Indices dims = load_vector<Indices>();
+  Indices dims = load_dimensions();
   *t = CTensor(dims, load_vector<CTensor>());
 }
 
@@ -223,7 +243,7 @@ InDataFile::load(double *value, const std::string &name)
 {
   RTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
@@ -236,7 +256,7 @@ InDataFile::load(cdouble *value, const std::string &name)
 {
   CTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
@@ -265,7 +285,8 @@ InDataFile::read_header()
 {
   std::string var_name = read_variable_name();
 
-  if (var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
+  if (var_name.size() < 6 ||
+      var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
     std::cerr << "Bogus SDF file" << std::endl
               << "Wrong header: '" << var_name << "'" << std::endl;
     abort();
-- 
2.43.0


From d744d67b01cd0655944561637356efb1e9f6a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 09/61] fix: isdir() is false for block devices and sockets

Their file type shares a bit with that of directories.
---
 src/sdf/isdir.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdf/isdir.cc b/src/sdf/isdir.cc
index b1b3b5e..9a1df82 100644
--- a/src/sdf/isdir.cc
+++ b/src/sdf/isdir.cc
@@ -28,7 +28,7 @@ namespace sdf {
     struct stat s[1];
     if (stat(filename.c_str(), s))
       return false;
-    return s->st_mode & S_IFDIR;
+    return (s->st_mode & S_IFMT) == S_IFDIR;
   }
 
 }
-- 
2.43.0


From 5892d15f7c29fbea0fdfab7c4057419a691c14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 10/61] fix: read the lines of a job file

parse_file() never read from its stream: every job file counted as empty, also
a missing one, and the program ran one job without variables. A number of
steps that is not positive is now a syntax error, as documented; it used to
trap in a division by zero.
---
 src/tools/jobs.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 72b86ff..9a8e014 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -59,7 +59,7 @@ Job::parse_line(const std::string &s)
   // where
   //  variable_name is any string
   //  min_value, max_value are real
-  //  n_steps is a non-negative integer, defaulting to 10
+  //  n_steps is a positive integer, defaulting to 10
   //  separator is any number of spaces, tabs, newlines, commas or semicolons
   if (data.size() == 0)
     return no_variable;
@@ -81,6 +81,10 @@ Job::parse_line(const std::string &s)
       return no_variable;
     } else {
       nsteps = atoi(data[3].c_str());
+      if (nsteps <= 0) {
+	std::cerr << "Wrong number of steps for variable " << data[0] << std::endl;
+	return no_variable;
+      }
     }
   }
   return Variable(data[0], min, max, nsteps);
@@ -89,16 +93,19 @@ Job::parse_line(const std::string &s)
 int
 Job::parse_file(std::istream &s, var_list &data)
 {
+  // Returns 0 or the number of the first line that is wrong or cannot be read.
   std::string buffer;
   int line;
-  for (line = 0; 1; line++) {
+  for (line = 1; std::getline(s, buffer); line++) {
+    if (split_string(buffer).size() == 0)
+      continue;
     const Variable v = parse_line(buffer);
     if (v.name().size() == 0)
       return line;
     else
       data.push_back(v);
-  } while(1);
-  return 0;
+  }
+  return s.eof()? 0 : line;
 }
 
 Job::Job(int argc, const char **argv) :
-- 
2.43.0


From 3eef03e24f6602d2919cb324184060461dc5cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 11/61] fix: jobs without --last-job or --this-job do not
 depend on stray memory

--first-job without --last-job left the last job, and --job-blocks without
--this-job the block number, uninitialised.
---
 src/tools/jobs.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 9a8e014..d1e0ab8 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -116,8 +116,8 @@ Job::Job(int argc, const char **argv) :
   bool last_job_found = false;
   bool job_blocks_found = false;
   bool this_job_found = false;
-  tensor::index blocks;
-  tensor::index current_job;
+  tensor::index blocks = 1;
+  tensor::index current_job = 0;
   int i;
   for (i = 0; i < argc; i++) {
     if (!strcmp(argv[i], "--job")) {
@@ -253,6 +253,8 @@ Job::Job(int argc, const char **argv) :
         std::cerr << "--last-job is smaller than --first-job" << std::endl;
         abort();
       }
+    } else {
+      last_job_ = number_of_jobs_ - 1;
     }
     current_job = first_job_;
   } else if (this_job_found) {
-- 
2.43.0


From be57bed255fa6f4d3f408e9dd63526d0438c15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 12/61] fix: copies of a shared_ptr share their object

The compiler-generated copy operations did not count the copies, so that
copying a dataset closed and deleted its file twice.
---
 include/tensor/refcount.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/tensor/refcount.h b/include/tensor/refcount.h
index 8341d39..86b950a 100644
--- a/include/tensor/refcount.h
+++ b/include/tensor/refcount.h
@@ -103,11 +103,27 @@ private:
   template<typename T>
   class shared_ptr {
   public:
-    shared_ptr(T *t) : _value(t), _ref(new int(1)) {}
-    ~shared_ptr() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
+    shared_ptr(T *t) : _ref(0), _value(t) {
+      try {
+        _ref = new int(1);
+      } catch (...) {
+        delete t;
+        throw;
+      }
+    }
+    shared_ptr(const shared_ptr<T> &p) : _ref(p._ref), _value(p._value) { ++(*_ref); }
+    shared_ptr<T> &operator=(const shared_ptr<T> &p) {
+      ++(*p._ref);
+      release();
+      _ref = p._ref;
+      _value = p._value;
+      return *this;
+    }
+    ~shared_ptr() { release(); }
     T* operator->() const { return _value; }
     T& operator*() const { return *_value; }
   private:
+    void release() { if (!--(*_ref)) { delete _ref; delete _value; } }
     int *_ref;
     T *_value;
   };
-- 
2.43.0


From 11841883b72e56a318c2b0ee2eda6c2ed4d8fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 13/61] fix: fall back to the clock when /dev/urandom yields
 too few bytes

The result of fread() was ignored and the generator seeded with uninitialised
memory.
---
 src/rand/rand.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index 49616fa..af02684 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -82,9 +82,12 @@ void rand_reseed() {
   } else {
     FILE *fp = fopen("/dev/urandom", "r");
     rand_uint seed[SEED_SIZE];
-    if (fp && (SEED_SIZE > 0)) {
-      fread(&seed, sizeof(rand_uint), SEED_SIZE, fp);
+    bool ok = false;
+    if (fp) {
+      ok = (SEED_SIZE > 0) && (fread(&seed, sizeof(rand_uint), SEED_SIZE, fp) == SEED_SIZE);
       fclose(fp);
+    }
+    if (ok) {
       init_by_array(seed, SEED_SIZE);
     } else {
       int seed = time(0);
-- 
2.43.0


From b66ee773c3ae2471c20e79532249a62285b9c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 14/61] fix: rand<long>(n) is never negative

The 64 random bits were taken as a signed number before the remainder.
---
 include/tensor/rand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index 2d77084..b756bf2 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -72,7 +72,7 @@ template<> inline int rand<int>(int lower, int upper) {
 
 template<> inline long rand<long>(long upper) {
   if (upper)
-    return (long)rand<unsigned long>() % upper;
+    return (long)(rand<unsigned long>() % (unsigned long)upper);
   return 0;
 }
 
-- 
2.43.0


From 8c206bc3ca4c98db0c902d51eb90396bfd54e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 15/61] fix: rename_file() without overwriting does not trust a
 failed check

---
 src/sdf/rename_file.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sdf/rename_file.cc b/src/sdf/rename_file.cc
index 8a9d6b2..e906ec0 100644
--- a/src/sdf/rename_file.cc
+++ b/src/sdf/rename_file.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <errno.h>
 #include <stdio.h>
 #if defined(_MSC_VER) || defined(__MINGW32__)
 # include <io.h>
@@ -33,7 +34,9 @@ namespace sdf {
 
   static bool is_there(const std::string &filename)
   {
-    return access(filename.c_str(), F_OK) == 0;
+    // Any other error does not tell, and a file must not be lost in doubt.
+    return access(filename.c_str(), F_OK) == 0 ||
+      (errno != ENOENT && errno != ENOTDIR);
   }
 
   bool rename_file(const std::string &orig, const std::string &dest, bool overwrite)
-- 
2.43.0


From 52c002baa4161f2d3659c7bdb8c8644866716df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 16/61] fix: an unused data set does not publish an empty
 record

---
 include/tensor/refcount.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/tensor/refcount.h b/include/tensor/refcount.h
index 86b950a..29a9d00 100644
--- a/include/tensor/refcount.h
+++ b/include/tensor/refcount.h
@@ -104,12 +104,10 @@ private:
   class shared_ptr {
   public:
     shared_ptr(T *t) : _ref(0), _value(t) {
-      try {
-        _ref = new int(1);
-      } catch (...) {
-        delete t;
-        throw;
-      }
+      // The object must see that it is deleted because of an exception.
+      Guard g(t);
+      _ref = new int(1);
+      g.object = 0;
     }
     shared_ptr(const shared_ptr<T> &p) : _ref(p._ref), _value(p._value) { ++(*_ref); }
     shared_ptr<T> &operator=(const shared_ptr<T> &p) {
@@ -123,6 +121,11 @@ private:
     T* operator->() const { return _value; }
     T& operator*() const { return *_value; }
   private:
+    struct Guard {
+      Guard(T *t) : object(t) {}
+      ~Guard() { delete object; }
+      T *object;
+    };
     void release() { if (!--(*_ref)) { delete _ref; delete _value; } }
     int *_ref;
     T *_value;
-- 
2.43.0


From 4eb0b9fe0d7f0ab39254b1bedb17e86683585afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 17/61] fix: job numbers beyond 2^31

---
 src/tools/jobs.cc         | 6 +++---
 src/tools/jobs_dataset.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index d1e0ab8..91a9070 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -140,7 +140,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
       }
-      current_job = atoi(argv[i]);
+      current_job = atol(argv[i]);
       this_job_found = true;
     } else if (!strcmp(argv[i], "--job-blocks")) {
       if (++i == argc) {
@@ -158,7 +158,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --first-job" << std::endl;
 	abort();
       }
-      first_job_ = atoi(argv[i]);
+      first_job_ = atol(argv[i]);
       first_job_found = true;
     } else if (!strcmp(argv[i], "--last-job")) {
       if (!first_job_found) {
@@ -169,7 +169,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --last-job" << std::endl;
 	abort();
       }
-      last_job_ = atoi(argv[i]);
+      last_job_ = atol(argv[i]);
       last_job_found = true;
     } else if (!strcmp(argv[i], "--variable")) {
       if (++i == argc) {
diff --git a/src/tools/jobs_dataset.cc b/src/tools/jobs_dataset.cc
index 1d2029e..4af1477 100644
--- a/src/tools/jobs_dataset.cc
+++ b/src/tools/jobs_dataset.cc
@@ -42,7 +42,7 @@ namespace jobs {
   }
 
   static std::string
-  dataset_name(const std::string &base, int jobid)
+  dataset_name(const std::string &base, tensor::index jobid)
   {
     return base + "/" + NumberToString(jobid);
   }
-- 
2.43.0


From d855db4a926222a10eee62c38df3192ca355e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 18/61] fix: a variable stays valid when resizing or copying
 runs out of memory

---
 include/tensor/detail/refcount.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/tensor/detail/refcount.hpp b/include/tensor/detail/refcount.hpp
index e427430..5dde3ca 100644
--- a/include/tensor/detail/refcount.hpp
+++ b/include/tensor/detail/refcount.hpp
@@ -47,9 +47,9 @@ public:
 
   /* Create a new reference object with the same data and only 1 ro reference. */
   pointer *clone() {
-    elt_t *output = new elt_t[size()];
-    std::copy(begin(), end(), output);
-    return new pointer(output, size());
+    pointer *output = new pointer(new elt_t[size()], size());
+    std::copy(begin(), end(), output->begin());
+    return output;
   }
 
   int reference() { return ++references_; }
@@ -93,9 +93,10 @@ inline RefPointer<cdouble>::RefPointer(size_t new_size) {
 template<>
 inline RefPointer<cdouble>::pointer *
 RefPointer<cdouble>::pointer::clone() {
-  cdouble *output = reinterpret_cast<cdouble*>(new double[2*size()]);
-  memcpy(output, begin(), sizeof(*output)*size());
-  return new pointer(output, size());
+  pointer *output =
+    new pointer(reinterpret_cast<cdouble*>(new double[2*size()]), size());
+  memcpy(output->begin(), begin(), sizeof(cdouble)*size());
+  return output;
 }
 
 template<class elt_t>
@@ -136,8 +137,9 @@ void RefPointer<elt_t>::appropriate() {
 
 template<class elt_t>
 void RefPointer<elt_t>::reallocate(size_t new_size) {
+  pointer *new_ref = new pointer(new elt_t[new_size], new_size);
   dereference();
-  ref_ = new pointer(new elt_t[new_size], new_size);
+  ref_ = new_ref;
 }
 
 template<class elt_t>
-- 
2.43.0


From c74f4006a31ac692835feff6638fb50b8abbb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 19/61] fix: ranges are released when creating a view runs out
 of memory

---
 include/tensor/detail/tensor_slice.hpp | 17 ++++-------
 include/tensor/indices.h               | 41 +++++++++++++++++---------
 src/tensor/tensor_view.hpp             | 22 +++++++-------
 src/views/range.cc                     | 26 ++++++++++------
 4 files changed, 60 insertions(+), 46 deletions(-)

diff --git a/include/tensor/detail/tensor_slice.hpp b/include/tensor/detail/tensor_slice.hpp
index e3a580a..0eae6e6 100644
--- a/include/tensor/detail/tensor_slice.hpp
+++ b/include/tensor/detail/tensor_slice.hpp
@@ -28,18 +28,15 @@ namespace tensor {
   class Tensor<elt_t>::view
   {
   public:
-    ~view() {
-      delete ranges_;
-    };
     operator Tensor<elt_t>() const;
 
   private:
     const Vector<elt_t> data_;
     Indices dims_;
-    Range *ranges_;
+    PRange ranges_;
 
     // Start from another tensor and a set of ranges
-    view(const Tensor<elt_t> &parent, Indices &dims, Range *ranges) :
+    view(const Tensor<elt_t> &parent, Indices &dims, PRange ranges) :
       data_(parent.data_), dims_(dims), ranges_(ranges)
     {}
 
@@ -57,10 +54,6 @@ namespace tensor {
   class Tensor<elt_t>::mutable_view
   {
   public:
-    ~mutable_view() {
-      delete ranges_;
-    };
-
     void operator=(const view &a_stripe);
     void operator=(const Tensor<elt_t> &a_tensor);
     void operator=(elt_t v);
@@ -68,10 +61,10 @@ namespace tensor {
   private:
     Vector<elt_t> &data_;
     Indices dims_;
-    Range *ranges_;
+    PRange ranges_;
 
     // Start from another tensor and a set of ranges
-    mutable_view(Tensor<elt_t> &parent, Indices &dims, Range *ranges) :
+    mutable_view(Tensor<elt_t> &parent, Indices &dims, PRange ranges) :
       data_(parent.data_), dims_(dims), ranges_(ranges)
     {}
 
@@ -84,7 +77,7 @@ namespace tensor {
     friend class Tensor<elt_t>;
   };
 
-  Range *product(Range *r1, Range *r2);
+  PRange product(PRange r1, PRange r2);
 
 } // namespace tensor
 
diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index ad93c73..3c490d1 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -105,7 +105,9 @@ namespace tensor {
   class Range {
   public:
     Range();
+    Range(const Range &r);
     virtual ~Range();
+    Range &operator=(const Range &r);
     virtual index pop();
     virtual void set_factor(index new_factor);
     virtual void set_limit(index new_limit);
@@ -118,6 +120,8 @@ namespace tensor {
     void set_offset(index new_base) { base_ = new_base; }
   private:
     index base_, limit_, factor_;
+    int references_;
+    friend class PRange;
   };
 
   class FullRange : public Range {
@@ -169,31 +173,40 @@ namespace tensor {
     index counter_;
   };
 
+  /** Reference to a Range, which lives as long as somebody refers to it. */
+  class PRange {
+  public:
+    PRange(Range *r) : ptr_(r) { ++ptr_->references_; }
+    PRange(const PRange &r) : ptr_(r.ptr_) { ++ptr_->references_; }
+    ~PRange() { release(); }
+    PRange &operator=(const PRange &r) {
+      ++r.ptr_->references_;
+      release();
+      ptr_ = r.ptr_;
+      return *this;
+    }
+    operator Range*() const { return ptr_; }
+    Range &operator*() const { return *ptr_; }
+    Range *operator->() const { return ptr_; }
+  private:
+    PRange();
+    void release() { if (!--ptr_->references_) delete ptr_; }
+    Range * ptr_;
+  };
+
   class ProductRange : public Range {
   public:
-    ProductRange(Range *r1, Range *r2);
-    ~ProductRange();
+    ProductRange(PRange r1, PRange r2);
     virtual index pop();
     virtual void set_factor(index new_factor);
     virtual void set_limit(index new_limit);
     virtual index size() const;
     virtual void reset();
   private:
-    Range *r1_, *r2_;
+    PRange r1_, r2_;
     index base_;
   };
 
-  class PRange {
-  public:
-    PRange(Range *r) : ptr_(r) {};
-    operator Range*() const { return ptr_; }
-    Range &operator*() { return *ptr_; }
-    Range *operator->() { return ptr_; }
-  private:
-    PRange();
-    Range * ptr_;
-  };
-
   /**Create a Range which only contains one index. \sa \ref sec_tensor_view*/
   inline PRange range(index ndx) { return new SingleRange(ndx); }
   /**Create a Range start:end (Matlab notation). \sa \ref sec_tensor_view*/
diff --git a/src/tensor/tensor_view.hpp b/src/tensor/tensor_view.hpp
index 09437cf..6143c2b 100644
--- a/src/tensor/tensor_view.hpp
+++ b/src/tensor/tensor_view.hpp
@@ -63,7 +63,7 @@ namespace tensor {
     r2->set_limit(dimension(1));
     dims.at(0) = r1->size();
     dims.at(1) = r2->size();
-    Range *r = product(r1, r2);
+    PRange r = product(r1, r2);
     return view(*this, dims, r);
   }
 
@@ -78,7 +78,7 @@ namespace tensor {
     dims.at(0) = r1->size();
     dims.at(1) = r2->size();
     dims.at(2) = r3->size();
-    Range *r = product(r1, product(r2, r3));
+    PRange r = product(r1, product(r2, r3));
     return view(*this, dims, r);
   }
 
@@ -95,7 +95,7 @@ namespace tensor {
     dims.at(1) = r2->size();
     dims.at(2) = r3->size();
     dims.at(3) = r4->size();
-    Range *r = product(r1, product(r2, product(r3, r4)));
+    PRange r = product(r1, product(r2, product(r3, r4)));
     return view(*this, dims, r);
   }
 
@@ -136,7 +136,7 @@ namespace tensor {
     dims.at(3) = r4->size();
     dims.at(4) = r5->size();
     dims.at(5) = r6->size();
-    Range *r = product(r1, product(r2, product(r3, product(r4, product(r5, r6)))));
+    PRange r = product(r1, product(r2, product(r3, product(r4, product(r5, r6)))));
     return view(*this, dims, r);
   }
 
@@ -164,7 +164,7 @@ namespace tensor {
     r2->set_limit(dimension(1));
     dims.at(0) = r1->size();
     dims.at(1) = r2->size();
-    Range *r = product(r1, r2);
+    PRange r = product(r1, r2);
     return mutable_view(*this, dims, r);
   }
 
@@ -179,7 +179,7 @@ namespace tensor {
     dims.at(0) = r1->size();
     dims.at(1) = r2->size();
     dims.at(2) = r3->size();
-    Range *r = product(r1, product(r2, r3));
+    PRange r = product(r1, product(r2, r3));
     return mutable_view(*this, dims, r);
   }
 
@@ -196,7 +196,7 @@ namespace tensor {
     dims.at(1) = r2->size();
     dims.at(2) = r3->size();
     dims.at(3) = r4->size();
-    Range *r = product(r1, product(r2, product(r3, r4)));
+    PRange r = product(r1, product(r2, product(r3, r4)));
     return mutable_view(*this, dims, r);
   }
 
@@ -215,7 +215,7 @@ namespace tensor {
     dims.at(2) = r3->size();
     dims.at(3) = r4->size();
     dims.at(4) = r5->size();
-    Range *r = product(r1, product(r2, product(r3, product(r4, r5))));
+    PRange r = product(r1, product(r2, product(r3, product(r4, r5))));
     return mutable_view(*this, dims, r);
   }
 
@@ -237,7 +237,7 @@ namespace tensor {
     dims.at(3) = r4->size();
     dims.at(4) = r5->size();
     dims.at(5) = r6->size();
-    Range *r = product(r1, product(r2, product(r3, product(r4, product(r5, r6)))));
+    PRange r = product(r1, product(r2, product(r3, product(r4, product(r5, r6)))));
     return mutable_view(*this, dims, r);
   }
 
@@ -251,8 +251,8 @@ namespace tensor {
   {
     //assert(verify_tensor_dimensions_match(dims_, t.dims_));
     assert(dims_.total_size() == t.dims_.total_size());
-    Range *r1 = ranges_;
-    Range *r2 = t.ranges_;
+    PRange r1 = ranges_;
+    PRange r2 = t.ranges_;
     r1->reset();
     r2->reset();
     for (index i, j;
diff --git a/src/views/range.cc b/src/views/range.cc
index c927d4e..ebfbb0b 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -24,10 +24,24 @@
 namespace tensor {
 
   Range::Range()
-    : base_(0), limit_(0), factor_(1)
+    : base_(0), limit_(0), factor_(1), references_(0)
   {
   }
 
+  Range::Range(const Range &r)
+    : base_(r.base_), limit_(r.limit_), factor_(r.factor_), references_(0)
+  {
+  }
+
+  Range &
+  Range::operator=(const Range &r)
+  {
+    base_ = r.base_;
+    limit_ = r.limit_;
+    factor_ = r.factor_;
+    return *this;
+  }
+
   Range::~Range()
   {
   }
@@ -258,17 +272,11 @@ namespace tensor {
   /************************************************************
    * TENSOR PRODUCT RANGE
    */
-  ProductRange::ProductRange(Range *r1, Range *r2) : r1_(r1), r2_(r2)
+  ProductRange::ProductRange(PRange r1, PRange r2) : r1_(r1), r2_(r2)
   {
     r2_->set_factor(r1_->get_factor() * r1_->get_limit());
   }
 
-  ProductRange::~ProductRange()
-  {
-    delete r1_;
-    delete r2_;
-  }
-
   index
   ProductRange::pop()
   {
@@ -311,7 +319,7 @@ namespace tensor {
     return r1_->size() * r2_->size();
   }
 
-  Range *product(Range *r1, Range *r2)
+  PRange product(PRange r1, PRange r2)
   {
     return new ProductRange(r1, r2);
   }
-- 
2.43.0


From a9249a6378e6661554364cc02b4386d7a4473b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 20/61] fix: the output of fold_into() and similar may be one
 of the operands

---
 src/tensor/tensor_fold.cc   | 5 +++--
 src/tensor/tensor_foldin.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tensor/tensor_fold.cc b/src/tensor/tensor_fold.cc
index c6e8ed6..000dbae 100644
--- a/src/tensor/tensor_fold.cc
+++ b/src/tensor/tensor_fold.cc
@@ -94,6 +94,7 @@ namespace tensor {
       rank = 1;
       new_dims.at(0) = 1;
     }
+    const Tensor<elt_t> a_data(a), b_data(b); // The output may be one of them
     output = Tensor<elt_t>(new_dims);
     if (output.size() == 0)
       return;
@@ -101,8 +102,8 @@ namespace tensor {
     elt_t *pC = output.begin();
     const elt_t zero = number_zero<elt_t>();
     const elt_t one = number_one<elt_t>();
-    const elt_t *pA = a.begin();
-    const elt_t *pB = b.begin();
+    const elt_t *pA = a_data.begin();
+    const elt_t *pB = b_data.begin();
     if (i_len == 1) {
       if (k_len == 1) {
         // C(j_len,m_len) = A(l_len,j_len)*B(l_len,m_len);
diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 0426e0b..d604e51 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -86,6 +86,7 @@ namespace tensor {
       rank = 1;
       new_dims.at(0) = 1;
     }
+    const Tensor<elt_t> a_data(a), b_data(b); // The output may be one of them
     output = Tensor<elt_t>(new_dims);
     if (output.size() == 0)
       return;
@@ -93,8 +94,8 @@ namespace tensor {
     elt_t *pC = output.begin();
     elt_t zero = number_zero<elt_t>();
     elt_t one = number_one<elt_t>();
-    const elt_t *pA = a.begin();
-    const elt_t *pB = b.begin();
+    const elt_t *pA = a_data.begin();
+    const elt_t *pB = b_data.begin();
     char op1 = 'N';
     char op2 = 'T';
     index il_len = i_len*l_len;
-- 
2.43.0


From d5074d374ccbc394092a63cc3ed67370b19909a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 21/61] fix: mean() along the last dimension does not write
 beyond its list of dimensions

---
 src/tensor/tensor_mean_ndx.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0e44f3f..745d50a 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -34,18 +34,18 @@ namespace {
     } else {
       ndx = normalize_index(ndx, rank);
       Indices dimensions(rank-1);
-      tensor::index left = 1, middle, right = 1;
+      tensor::index left = 1, middle = 0, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
 	tensor::index d = t.dimension(i);
-	dimensions.at(j++) = d;
+	if (i == ndx) {
+	  middle = d;
+	  continue;
+	}
 	if (i < ndx)
 	  left *= d;
-	else if (i > ndx)
+	else
 	  right *= d;
-	else {
-	  middle = d;
-	  j--;
-	}
+	dimensions.at(j++) = d;
       }
       Tensor aux = reshape(t, left, middle, right);
       Tensor output = Tensor::zeros(left, right);
-- 
2.43.0


From e75d90a71e629bb08e823b471857b9f51447f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 22/61] fix: product of a tensor and a sparse matrix accepts
 matching dimensions

---
 src/sparse/mmult_tensor_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mmult_tensor_sparse.h b/src/sparse/mmult_tensor_sparse.h
index eb8e7fc..f786dfc 100644
--- a/src/sparse/mmult_tensor_sparse.h
+++ b/src/sparse/mmult_tensor_sparse.h
@@ -63,7 +63,7 @@ do_mmult(const Tensor<elt_t> &m1, const Sparse<elt_t> &m2)
 	dims.at(k) = m1.dimension(k);
 	i_len *= dims[k];
     }
-    index j_len = m1.dimension(-1);
+    index j_len = m1.dimension(N-1);
     index l_len = dims.at(N-1) = m2.columns();
 
     if (j_len != m2.rows()) {
-- 
2.43.0


From ee69a259cbca6486a1cf9faf2a620cdef3fb64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 23/61] fix: kron2_sum() of sparse matrices uses identities of
 the right size

---
 src/sparse/sparse_kron_d.cc | 4 ++--
 src/sparse/sparse_kron_z.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/sparse_kron_d.cc b/src/sparse/sparse_kron_d.cc
index e441eaf..cc57171 100644
--- a/src/sparse/sparse_kron_d.cc
+++ b/src/sparse/sparse_kron_d.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<double> kron2_sum(const Sparse<double> &s2, const Sparse<double> &s1)
   {
-    return kron(s1, Sparse<double>::eye(s2.length())) +
-      kron(Sparse<double>::eye(s1.length()), s2);
+    return kron(s1, Sparse<double>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<double>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
diff --git a/src/sparse/sparse_kron_z.cc b/src/sparse/sparse_kron_z.cc
index 1523f9e..8e08a79 100644
--- a/src/sparse/sparse_kron_z.cc
+++ b/src/sparse/sparse_kron_z.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s2, const Sparse<cdouble> &s1)
   {
-    return kron(s1, Sparse<cdouble>::eye(s2.length())) +
-      kron(Sparse<cdouble>::eye(s1.length()), s2);
+    return kron(s1, Sparse<cdouble>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<cdouble>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From 414336bf991337708553ef2be790e2cf5735811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 24/61] fix: the operator of an iterative solver is released
 when it throws

---
 src/arpack/eigs_map_d.cc | 1 +
 src/arpack/eigs_map_z.cc | 1 +
 src/linalg/cgs.cc        | 2 +-
 src/linalg/eig_power.hpp | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 2019e6b..796071c 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -29,6 +29,7 @@ namespace linalg {
   do_eigs(const Map<RTensor>  *A, size_t n, int eig_type, size_t neig,
           RTensor *eigenvectors, bool *converged)
   {
+    const shared_ptr<const Map<RTensor> > owner(A);
     EigType t = (EigType)eig_type;
 
     if (neig > n || neig == 0) {
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index aa7a178..011d418 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -28,6 +28,7 @@ namespace linalg {
   do_eigs(const Map<CTensor>  *A, size_t n, int eig_type, size_t neig,
           CTensor *eigenvectors, bool *converged)
   {
+    const shared_ptr<const Map<CTensor> > owner(A);
     EigType t = (EigType)eig_type;
 
     if (neig > n || neig == 0) {
diff --git a/src/linalg/cgs.cc b/src/linalg/cgs.cc
index 8227f71..d710326 100644
--- a/src/linalg/cgs.cc
+++ b/src/linalg/cgs.cc
@@ -30,6 +30,7 @@ namespace linalg {
 	int maxiter, double tol)
   {
     typedef typename Tensor::elt_t number;
+    const tensor::shared_ptr<const Map> owner(A);
     if (maxiter == 0) {
       maxiter = b.rows();
     }
@@ -59,7 +60,6 @@ namespace linalg {
         rsold = rsnew;
       }
     }
-    delete A;
     return x;
   }
 
diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 224d965..a5303a7 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -30,6 +30,7 @@ namespace linalg {
   elt_t eig_power_loop(const Map<Tensor<elt_t> > *A, size_t dims, Tensor<elt_t> *vector,
                        size_t iter, double tol)
   {
+    const shared_ptr<const Map<Tensor<elt_t> > > owner(A);
     if (tol <= 0) {
       tol = 1e-11;
     }
@@ -63,7 +64,6 @@ namespace linalg {
         break;
       old_eig = eig;
     }
-    delete A;
     return eig;
   }
 
-- 
2.43.0


From 723a33ed2484e55da0046587400ee3bfa1d75084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 25/61] fix: eigs() of small problems returns right
 eigenvectors

---
 src/arpack/eigs_d.cc     | 2 +-
 src/arpack/eigs_map_d.cc | 2 +-
 src/arpack/eigs_map_z.cc | 2 +-
 src/arpack/eigs_z.cc     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpack/eigs_d.cc b/src/arpack/eigs_d.cc
index a9abd54..0d76025 100644
--- a/src/arpack/eigs_d.cc
+++ b/src/arpack/eigs_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 796071c..e478d02 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -50,7 +50,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index 011d418..9f187f0 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -49,7 +49,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_z.cc b/src/arpack/eigs_z.cc
index b53d49c..0d278e8 100644
--- a/src/arpack/eigs_z.cc
+++ b/src/arpack/eigs_z.cc
@@ -53,7 +53,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
-- 
2.43.0


From 067b1b9f7400375621efc075a8a6c9e713c2c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 26/61] fix: the vectors that eigs() hands to an operator may
 be kept

---
 src/arpack/arpack_t.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 83f6507..c006a1d 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -292,7 +292,11 @@ ELT_T *ARPACK::get_y_vector() {
 
 const Tensor<ELT_T> ARPACK::get_x()
 {
-  return Vector<ELT_T>(n, get_x_vector());
+  // The user may keep this tensor, so it cannot use ARPACK's work space
+  const ELT_T *x = get_x_vector();
+  Tensor<ELT_T> output(n);
+  std::copy(x, x + n, output.begin());
+  return output;
 }
 
 Tensor<ELT_T> ARPACK::get_y()
-- 
2.43.0


From 405df7f2b86efd9b1a2392d29921e36ee2545429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 27/61] fix: ARPACK work space is released when eigs() throws

---
 include/tensor/arpack_d.h | 13 +++++++------
 include/tensor/arpack_z.h | 13 +++++++------
 src/arpack/arpack_t.cc    | 40 +++++++++++++++------------------------
 3 files changed, 29 insertions(+), 37 deletions(-)

diff --git a/include/tensor/arpack_d.h b/include/tensor/arpack_d.h
index cf7298b..1ec3e11 100644
--- a/include/tensor/arpack_d.h
+++ b/include/tensor/arpack_d.h
@@ -20,6 +20,7 @@
 #ifndef TENSOR_ARPACK_D_H
 #define TENSOR_ARPACK_D_H
 
+#include <vector>
 #include <tensor/tensor_blas.h>
 #include <tensor/linalg.h>
 
@@ -78,7 +79,7 @@ class RArpack {
     const char* which;  // Specify which of the Ritz values of OP to compute.
     double  tol;        // Stopping criterion (relative accuracy of Ritz values).
     elt_t   sigma;      // Shift (for nonsymmetric problems).
-    elt_t   *resid;     // Initial residual vector.
+    std::vector<elt_t> resid;     // Initial residual vector.
 
     // a.2) Internal variables.
 
@@ -98,11 +99,11 @@ class RArpack {
     integer lrwork;     // Dimension of array rwork.
     integer iparam[12]; // RVector that handles original ARPACK parameters.
     integer ipntr[15];  // RVector that handles original ARPACK pointers.
-    double  *rwork;     // Original ARPACK internal vector.
-    elt_t   *workl;     // Original ARPACK internal vector.
-    elt_t   *workd;     // Original ARPACK internal vector.
-    elt_t   *workv;     // Original ARPACK internal vector.
-    elt_t   *V;         // Arnoldi basis / Schur vectors.
+    std::vector<double> rwork;     // Original ARPACK internal vector.
+    std::vector<elt_t> workl;     // Original ARPACK internal vector.
+    std::vector<elt_t> workd;     // Original ARPACK internal vector.
+    std::vector<elt_t> workv;     // Original ARPACK internal vector.
+    std::vector<elt_t> V;         // Arnoldi basis / Schur vectors.
 
     // a.3) Pure output variables.
 
diff --git a/include/tensor/arpack_z.h b/include/tensor/arpack_z.h
index 56310e9..06f7148 100644
--- a/include/tensor/arpack_z.h
+++ b/include/tensor/arpack_z.h
@@ -20,6 +20,7 @@
 #ifndef TENSOR_ARPACK_Z_H
 #define TENSOR_ARPACK_Z_H
 
+#include <vector>
 #include <tensor/tensor_blas.h>
 #include <tensor/linalg.h>
 
@@ -78,7 +79,7 @@ class CArpack {
     const char* which;  // Specify which of the Ritz values of OP to compute.
     double  tol;        // Stopping criterion (relative accuracy of Ritz values).
     elt_t   sigma;      // Shift (for nonsymmetric problems).
-    elt_t   *resid;     // Initial residual vector.
+    std::vector<elt_t> resid;     // Initial residual vector.
 
     // a.2) Internal variables.
 
@@ -98,11 +99,11 @@ class CArpack {
     integer lrwork;     // Dimension of array rwork.
     integer iparam[12]; // CVector that handles original ARPACK parameters.
     integer ipntr[15];  // CVector that handles original ARPACK pointers.
-    double  *rwork;     // Original ARPACK internal vector.
-    elt_t   *workl;     // Original ARPACK internal vector.
-    elt_t   *workd;     // Original ARPACK internal vector.
-    elt_t   *workv;     // Original ARPACK internal vector.
-    elt_t   *V;         // Arnoldi basis / Schur vectors.
+    std::vector<double> rwork;     // Original ARPACK internal vector.
+    std::vector<elt_t> workl;     // Original ARPACK internal vector.
+    std::vector<elt_t> workd;     // Original ARPACK internal vector.
+    std::vector<elt_t> workv;     // Original ARPACK internal vector.
+    std::vector<elt_t> V;         // Arnoldi basis / Schur vectors.
 
     // a.3) Pure output variables.
 
diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index c006a1d..12950ed 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -74,12 +74,12 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
 
   // By default, random vector
   info = 0;
-  resid = new ELT_T[n];
+  resid.resize(n);
 
   // Reserve space for the lanczos basis in which the eigenvectors are
   // approximated.
   ncv = std::min<blas::integer>(std::max<blas::integer>(2 * nev, 20), n);
-  V = new ELT_T[n * ncv];
+  V.resize(n * ncv);
 
   // Conservative estimate by Matlab
 
@@ -104,10 +104,10 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
   //
   lworkl = symmetric? ncv*(ncv + 8) : ncv*(3*ncv + 5);
   lworkv = ncv * 3;
-  workd = new ELT_T[n * 3];
-  workl = new ELT_T[lworkl];
-  workv = new ELT_T[lworkv];
-  rwork = new double[ncv];
+  workd.resize(n * 3);
+  workl.resize(lworkl);
+  workv.resize(lworkv);
+  rwork.resize(ncv);
   for (size_t i = 0; i < 15; i++)
     ipntr[i] = 0;
 
@@ -116,16 +116,6 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
 }
 
 ARPACK::~ARPACK() {
-
-  // Deleting working arrays
-  delete[] workd; workd = 0;
-  delete[] workl; workl = 0;
-  delete[] workv; workv = 0;
-  delete[] rwork; rwork = 0;
-  delete[] V; V = 0;
-
-  // Deleting input and output arrays
-  delete[] resid; resid = 0;
 }
 
 ARPACK::Status ARPACK::update() {
@@ -142,11 +132,11 @@ ARPACK::Status ARPACK::update() {
   }
 
 #ifdef COMPLEX
-  caupp(ido, bmat, n, which, nev, tol, resid, ncv, V, n, iparam, ipntr, workd,
-        workl, lworkl, rwork, info);
+  caupp(ido, bmat, n, which, nev, tol, &resid[0], ncv, &V[0], n, iparam, ipntr, &workd[0],
+        &workl[0], lworkl, &rwork[0], info);
 #else
-  saupp(ido, bmat, n, which, nev, tol, resid, ncv, V, n, iparam, ipntr, workd,
-        workl, lworkl, info);
+  saupp(ido, bmat, n, which, nev, tol, &resid[0], ncv, &V[0], n, iparam, ipntr, &workd[0],
+        &workl[0], lworkl, info);
 #endif
 
   if (ido == 99) {
@@ -203,11 +193,11 @@ Tensor<ELT_T> ARPACK::get_data(Tensor<ELT_T>::elt_t *z) {
   ELT_T sigma = number_zero<ELT_T>();
 
 #ifdef COMPLEX
-  ceupp(rvec, hwmny, d, z, ldz, sigma, workv, bmat, n, which, nev, tol,
-        resid, ncv, V, n, iparam, ipntr, workd, workl, lworkl, rwork, info);
+  ceupp(rvec, hwmny, d, z, ldz, sigma, &workv[0], bmat, n, which, nev, tol,
+        &resid[0], ncv, &V[0], n, iparam, ipntr, &workd[0], &workl[0], lworkl, &rwork[0], info);
 #else
   seupp(rvec, hwmny, d, z, ldz, sigma, bmat, n, which, nev, tol,
-        resid, ncv, V, n, iparam, ipntr, workd, workl, lworkl, info);
+        &resid[0], ncv, &V[0], n, iparam, ipntr, &workd[0], &workl[0], lworkl, info);
 #endif
   if (info != 0) {
     static const char *const messages[17] = {
@@ -232,7 +222,7 @@ Tensor<ELT_T> ARPACK::get_data(Tensor<ELT_T>::elt_t *z) {
               << "NEV=" << n << std::endl
               << "WHICH=" << which << std::endl
               << "BMAT=" << bmat << std::endl
-              << "LWORKL=" << workl << std::endl;
+              << "LWORKL=" << lworkl << std::endl;
     for (int i = 0; i < 12; i++)
       std::cerr << "IPARAM[" << i << "]=" << iparam[i] << std::endl;
     for (int i = 8; i < 11; i++)
@@ -248,7 +238,7 @@ void ARPACK::set_start_vector(const ELT_T *v) {
     abort();
   }
   info = 1;
-  memcpy(resid, v, n * sizeof(ELT_T));
+  memcpy(&resid[0], v, n * sizeof(ELT_T));
 }
 
 void ARPACK::set_random_start_vector() {
-- 
2.43.0


From 03a5a3a0fb73d3fe88c06c4a4922ea07a2675413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 28/61] fix: work space is released when a decomposition runs
 out of memory

---
 src/linalg/block_svd.hpp   | 10 ++--------
 src/linalg/find_blocks.hpp | 34 +++++++++++++++-------------------
 2 files changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index 1183b45..b94710b 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -37,7 +37,7 @@ namespace linalg {
     index minrc = std::min(rows, cols);
 
     index nblocks;
-    Indices *block_rows, *block_cols;
+    std::vector<Indices> block_rows, block_cols;
     if (!find_blocks<Tensor>(A, &nblocks, &block_rows, &block_cols)) {
       return svd(A, pU, pVT, economic);
     }
@@ -45,10 +45,7 @@ namespace linalg {
     if ((nblocks == 1) &&
 	(block_rows[0].size() >= rows/2) &&
 	(block_cols[0].size() >= cols/2)) {
-      RTensor s = svd(A, pU, pVT, economic);
-      delete[] block_rows;
-      delete[] block_cols;
-      return s;
+      return svd(A, pU, pVT, economic);
     }
 
     RTensor s(minrc);
@@ -92,9 +89,6 @@ namespace linalg {
 	++sndx;
       }
     }
-    delete[] block_rows;
-    delete[] block_cols;
-
     Indices ndx = sort_indices(s, true);
     s = s(range(ndx));
     if (pU)
diff --git a/src/linalg/find_blocks.hpp b/src/linalg/find_blocks.hpp
index ba89854..f295baf 100644
--- a/src/linalg/find_blocks.hpp
+++ b/src/linalg/find_blocks.hpp
@@ -18,6 +18,7 @@
 */
 
 #include <list>
+#include <vector>
 #include <algorithm>
 #include <tensor/flags.h>
 #include <tensor/tensor.h>
@@ -28,7 +29,7 @@ namespace linalg {
   using tensor::index;
 
   static void
-  replace_integer(index N, index v[], index old_value, index new_value)
+  replace_integer(index N, std::vector<index> &v, index old_value, index new_value)
   {
     for (index k = 0; k < N; k++) {
       if (v[k] == old_value) v[k] = new_value;
@@ -58,8 +59,8 @@ namespace linalg {
   */
   template<class Tensor>
   bool
-  find_blocks(const Tensor &A, index *pnblocks, Indices **pblock_rows, Indices **pblock_cols,
-	      double tol = 0.0)
+  find_blocks(const Tensor &A, index *pnblocks, std::vector<Indices> *pblock_rows,
+	      std::vector<Indices> *pblock_cols, double tol = 0.0)
   {
     index N = A.rows();
     index M = A.columns();
@@ -67,11 +68,11 @@ namespace linalg {
       return find_blocks(transpose(A), pnblocks, pblock_cols, pblock_rows);
 
     index &nblocks = *pnblocks;
-    Indices *&block_rows = *pblock_rows;
-    Indices *&block_cols = *pblock_cols;
+    std::vector<Indices> &block_rows = *pblock_rows;
+    std::vector<Indices> &block_cols = *pblock_cols;
 
-    index *row_block = new index[N];
-    index *col_block = new index[M];
+    std::vector<index> row_block(N);
+    std::vector<index> col_block(M);
     const index aux = 0;
     const index empty = ~aux;
 
@@ -114,16 +115,14 @@ namespace linalg {
                 << ", n_blocks=" << nblocks << std::endl;
     }
     if (nblocks == 1) {
-      block_rows = 0;
-      block_cols = 0;
-      delete[] row_block;
-      delete[] col_block;
+      block_rows.clear();
+      block_cols.clear();
       return false;
     }
 
-    index *buffer = new index[std::max<index>(N,M)];
-    block_cols = new Indices[nblocks];
-    block_rows = new Indices[nblocks];
+    std::vector<index> buffer(std::max<index>(N,M));
+    block_cols.assign(nblocks, Indices());
+    block_rows.assign(nblocks, Indices());
 
     for (index b = 0, col = 0; col < M; col++) {
       index block = col_block[col];
@@ -137,7 +136,7 @@ namespace linalg {
 	}
 	assert(block_ncols);
 	block_cols[b] = Indices(block_ncols);
-	memcpy(block_cols[b].begin(), buffer, sizeof(index)*block_ncols);
+	memcpy(block_cols[b].begin(), &buffer[0], sizeof(index)*block_ncols);
 
 	index block_nrows = 0;
 	for (index r = 0; r < N; r++){
@@ -147,13 +146,10 @@ namespace linalg {
 	}
 	assert(block_nrows);
 	block_rows[b] = Indices(block_nrows);
-	memcpy(block_rows[b].begin(), buffer, sizeof(index)*block_nrows);
+	memcpy(block_rows[b].begin(), &buffer[0], sizeof(index)*block_nrows);
 	b++;
       }
     }
-    delete[] buffer;
-    delete[] row_block;
-    delete[] col_block;
     return true;
   }
 
-- 
2.43.0


From 9964ca29ac199d8b4d51ec01a7177330cbf54e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:42 +0000
Subject: [PATCH 29/61] fix: failures of LAPACK are reported and work space is
 released in eig() and svd()

---
 include/tensor/tensor_lapack.h | 11 ++++++++++
 src/linalg/eig_d.cc            | 38 ++++++++++++++++------------------
 src/linalg/eig_sym_d.cc        |  2 ++
 src/linalg/eig_sym_z.cc        |  2 ++
 src/linalg/eig_z.cc            | 15 +++++++-------
 src/linalg/svd_d.cc            |  2 ++
 src/linalg/svd_z.cc            | 16 +++++++-------
 7 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/include/tensor/tensor_lapack.h b/include/tensor/tensor_lapack.h
index 5ec7eeb..f9cae76 100644
--- a/include/tensor/tensor_lapack.h
+++ b/include/tensor/tensor_lapack.h
@@ -20,6 +20,8 @@
 #ifndef TENSOR_TENSOR_LAPACK_H
 #define TENSOR_TENSOR_LAPACK_H
 
+#include <cstdlib>
+#include <iostream>
 #include <tensor/tensor_blas.h>
 
 namespace lapack {
@@ -86,6 +88,15 @@ extern "C" {
 }
 #endif
 
+  /** Stop the program when a routine from LAPACK could not compute its result. */
+  inline void check_info(const char *routine, integer info) {
+    if (info) {
+      std::cerr << "In " << routine << "()\nLAPACK could not compute the result, status "
+                << info << ".\n";
+      abort();
+    }
+  }
+
 }
 
 #endif // TENSOR_TENSOR_LAPACK_H
diff --git a/src/linalg/eig_d.cc b/src/linalg/eig_d.cc
index 109ecc8..810c2ee 100644
--- a/src/linalg/eig_d.cc
+++ b/src/linalg/eig_d.cc
@@ -55,7 +55,7 @@ namespace linalg {
     RTensor aux(A);
     double *a = tensor_pointer(aux);
     blas::integer n = A.rows();
-    RTensor *realL, *realR;
+    RTensor realL, realR;
 
     if ((size_t)n != A.columns()) {
       std::cerr << "Routine eig() can only compute eigenvalues of square matrices, and you\n"
@@ -64,19 +64,17 @@ namespace linalg {
     }
 
     if (L) {
-      realL = new RTensor(n,n);
-      vl = tensor_pointer(*realL);
+      realL = RTensor(n,n);
+      vl = tensor_pointer(realL);
       jobvl[0] = 'V';
     } else {
-      realL = NULL;
       vl = NULL;
     }
     if (R) {
-      realR = new RTensor(n, n);
-      vr = tensor_pointer(*realR);
+      realR = RTensor(n, n);
+      vr = tensor_pointer(realR);
       jobvr[0] = 'V';
     } else {
-      realR = NULL;
       vr = NULL;
     }
     ldvl = ldvr = n;
@@ -93,34 +91,36 @@ namespace linalg {
     double work0[1];
     F77NAME(dgeev)(jobvl, jobvr, &n, a, &lda, wr, wi, vl, &ldvl, vr, &ldvr, work0, &lwork,
 		   &info);
+    check_info("eig", info);
     lwork = (int)work0[0];
-    double *work = new double[lwork];
-    F77NAME(dgeev)(jobvl, jobvr, &n, a, &lda, wr, wi, vl, &ldvl, vr, &ldvr, work, &lwork,
+    RTensor work(lwork);
+    F77NAME(dgeev)(jobvl, jobvr, &n, a, &lda, wr, wi, vl, &ldvl, vr, &ldvr,
+                   tensor_pointer(work), &lwork,
 		   &info);
-    delete[] work;
 #endif
+    check_info("eig", info);
 
     CTensor output(to_complex(real));
-    if (L) *L = to_complex(*realL);
-    if (R) *R = to_complex(*realR);
+    if (L) *L = to_complex(realL);
+    if (R) *R = to_complex(realR);
     for (size_t i = 0; i < (size_t)n; i++) {
       if (imag[i] != 0) {
         // Complex eigenvalues and eigenvectors. The i-th elements have
         // the real part, the i+1-th, the imaginary.
         output.at(i) = tensor::to_complex(real[i],imag[i]);
         output.at(i+1) = tensor::to_complex(real[i],-imag[i]);
-        if (realL) {
+        if (L) {
           for (size_t j = 0; j < (size_t)n; j++) {
-            double re = (*realL)(j,i);
-            double im = (*realL)(j,i+1);
+            double re = realL(j,i);
+            double im = realL(j,i+1);
             (*L).at(j,i) = tensor::to_complex(re,im);
             (*L).at(j,i+1) = tensor::to_complex(re,-im);
           }
         }
-        if (realR) {
+        if (R) {
           for (size_t j = 0; j < (size_t)n; j++) {
-            double re = (*realR)(j,i);
-            double im = (*realR)(j,i+1);
+            double re = realR(j,i);
+            double im = realR(j,i+1);
             (*R).at(j,i) = tensor::to_complex(re,im);
             (*R).at(j,i+1) = tensor::to_complex(re,-im);
           }
@@ -128,8 +128,6 @@ namespace linalg {
         i++;
       }
     }
-    delete realL;
-    delete realR;
     return output;
   }
 
diff --git a/src/linalg/eig_sym_d.cc b/src/linalg/eig_sym_d.cc
index b203b35..772e3cb 100644
--- a/src/linalg/eig_sym_d.cc
+++ b/src/linalg/eig_sym_d.cc
@@ -68,12 +68,14 @@ namespace linalg {
     blas::integer lwork = -1;
     double work0[1];
     F77NAME(dsyev)(jobz, uplo, &n, a, &lda, w, work0, &lwork, info);
+    check_info("eig_sym", *info);
     lwork = (int)work0[0];
 
     RTensor work(lwork);
     F77NAME(dsyev)(jobz, uplo, &n, a, &lda, w, tensor_pointer(work),
                    &lwork, info);
 #endif
+    check_info("eig_sym", *info);
 
     if (V) *V = aux;
     return output;
diff --git a/src/linalg/eig_sym_z.cc b/src/linalg/eig_sym_z.cc
index 50811be..c95135f 100644
--- a/src/linalg/eig_sym_z.cc
+++ b/src/linalg/eig_sym_z.cc
@@ -72,12 +72,14 @@ namespace linalg {
     CTensor work(1);
     F77NAME(zheev)(jobz, uplo, &n, a, &lda, w, tensor_pointer(work),
                    &lwork, tensor_pointer(rwork), info);
+    check_info("eig_sym", *info);
     lwork = (int)tensor::real(work[0]);
 
     work = CTensor(lwork);
     F77NAME(zheev)(jobz, uplo, &n, a, &lda, w, tensor_pointer(work),
                    &lwork, tensor_pointer(rwork), info);
 #endif
+    check_info("eig_sym", *info);
 
     if (V) *V = aux;
     return output;
diff --git a/src/linalg/eig_z.cc b/src/linalg/eig_z.cc
index a193df3..5c19aa9 100644
--- a/src/linalg/eig_z.cc
+++ b/src/linalg/eig_z.cc
@@ -54,7 +54,6 @@ namespace linalg {
     char jobvr[2] = "N";
     blas::integer lda, ldvl, ldvr, lwork, info;
     cdouble *vl, *vr, *w;
-    double *rwork;
     CTensor aux(A);
     cdouble *a = tensor_pointer(aux);
     blas::integer n = A.rows();
@@ -89,17 +88,17 @@ namespace linalg {
 #else
     cdouble work0[1];
     lwork = -1;
-    rwork = new double[2*n];
+    RTensor rwork(2*n);
     F77NAME(zgeev)(jobvl, jobvr, &n, a, &lda, w, vl, &ldvl, vr, &ldvr, work0, &lwork,
-		   rwork, &info);
+		   tensor_pointer(rwork), &info);
+    check_info("eig", info);
     lwork = lapack::real(work0[0]);
 
-    cdouble *work = new cdouble[lwork];
-    F77NAME(zgeev)(jobvl, jobvr, &n, a, &lda, w, vl, &ldvl, vr, &ldvr, work, &lwork,
-		   rwork, &info);
-    delete[] rwork;
-    delete[] work;
+    CTensor work(lwork);
+    F77NAME(zgeev)(jobvl, jobvr, &n, a, &lda, w, vl, &ldvl, vr, &ldvr,
+		   tensor_pointer(work), &lwork, tensor_pointer(rwork), &info);
 #endif
+    check_info("eig", info);
     return output;
   }
 
diff --git a/src/linalg/svd_d.cc b/src/linalg/svd_d.cc
index 6d004c0..85c37ab 100644
--- a/src/linalg/svd_d.cc
+++ b/src/linalg/svd_d.cc
@@ -96,12 +96,14 @@ namespace linalg {
     work = &foo;
     F77NAME(dgesvd)(jobu, jobv, &m, &n, a, &lda, s, u, &ldu, v, &ldv,
 		    work, &lwork, &info);
+    check_info("svd", info);
     lwork = (int)work[0];
     work = new double[lwork];
     F77NAME(dgesvd)(jobu, jobv, &m, &n, a, &lda, s, u, &ldu, v, &ldv,
 		    work, &lwork, &info);
     delete[] work;
 #endif
+    check_info("svd", info);
     return output;
   }
 
diff --git a/src/linalg/svd_z.cc b/src/linalg/svd_z.cc
index fe8fa8e..e2dafaf 100644
--- a/src/linalg/svd_z.cc
+++ b/src/linalg/svd_z.cc
@@ -59,7 +59,7 @@ namespace linalg {
     blas::integer lwork, ldu, lda, ldv, info;
     RTensor output(k);
     cdouble *work, *u, *v, *a = tensor_pointer(A), foo;
-    double *rwork, *s = tensor_pointer(output);
+    double *s = tensor_pointer(output);
     char jobv[1], jobu[1];
     
     if (U) {
@@ -88,17 +88,17 @@ namespace linalg {
 #else
     lwork = -1;
     work = &foo;
-    rwork = (double *)&foo;
     F77NAME(zgesvd)(jobu, jobv, &m, &n, a, &m, s, u, &ldu, v, &ldv,
-		    work, &lwork, rwork, &info);
+		    work, &lwork, (double *)&foo, &info);
+    check_info("svd", info);
     lwork = lapack::real(work[0]);
-    work = new cdouble[lwork];
-    rwork = new double[5 * k];
+    CTensor workspace(lwork);
+    RTensor rwork(5 * k);
+    work = tensor_pointer(workspace);
     F77NAME(zgesvd)(jobu, jobv, &m, &n, a, &m, s, u, &ldu, v, &ldv,
-		    work, &lwork, rwork, &info);
-    delete[] work;
-    delete[] rwork;
+		    work, &lwork, tensor_pointer(rwork), &info);
 #endif
+    check_info("svd", info);
     return output;
   }
 
-- 
2.43.0


From 33c4276babbe57b5acf2b4c70f9f2004582918a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 30/61] fix: rand<float>() does not reach 1

---
 src/rand/rand.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index af02684..c117878 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cfloat>
 #include <cstdlib>
 #if defined(_MSC_VER) || defined(__MINGW32__)
 #include <windows.h>
@@ -116,7 +117,9 @@ template<> unsigned long rand<unsigned long>() { return genrand_int32(); }
 #endif
 
 template<> float rand<float>() {
-  return (float)genrand_res53();
+  // Rounding to single precision must not reach 1
+  float x = (float)genrand_res53();
+  return (x < 1.0f)? x : 1.0f - FLT_EPSILON/2;
 }
 
 template<> double rand<double>() {
-- 
2.43.0


From d81dcdd954ba399890b30f971dd157876ff6e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 31/61] fix: transforms in several threads do not share FFTW's
 planner

---
 src/fftw/fftw_common.cc | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/fftw/fftw_common.cc b/src/fftw/fftw_common.cc
index d614b22..659ec64 100644
--- a/src/fftw/fftw_common.cc
+++ b/src/fftw/fftw_common.cc
@@ -17,11 +17,25 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
  */
 
+#include <mutex>
 #include "fftw_common.hpp"
 
 
 namespace tensor {
 
+// Only fftw_execute() may run in several threads at once: the functions that
+// create and destroy plans share the state of FFTW's planner.
+static std::mutex planner_mutex;
+
+typedef std::lock_guard<std::mutex> planner_lock;
+
+static void
+execute_and_destroy(fftw_plan plan) {
+  fftw_execute(plan);
+  planner_lock lock(planner_mutex);
+  fftw_destroy_plan(plan);
+}
+
 // basic FFTW along all degrees of freedom
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int direction) {
@@ -29,17 +43,18 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int directio
   int d = dims.size();
 
   if (d == 1) {
+    planner_lock lock(planner_mutex);
     plan = fftw_plan_dft_1d(dims[0], pin, pout, direction, FFTW_ESTIMATE);
   } else {
     int dimensions[d];
     for (int i = 0; i < d; i++) {
       dimensions[d - i - 1] = dims[i];
     }
+    planner_lock lock(planner_mutex);
     plan = fftw_plan_dft(d, dimensions, pin, pout, direction, FFTW_ESTIMATE);
   }
     
-  fftw_execute(plan);
-  fftw_destroy_plan(plan);
+  execute_and_destroy(plan);
 }
 
 void
@@ -69,10 +84,13 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, i
   }
 
   // Now make a Guru plan and execute it.
-  fftw_plan plan = fftw_plan_guru_dft(1, &fft_dim, dims.size()-1, loop_dims,
+  fftw_plan plan;
+  {
+    planner_lock lock(planner_mutex);
+    plan = fftw_plan_guru_dft(1, &fft_dim, dims.size()-1, loop_dims,
           pin, pout, direction, FFTW_ESTIMATE);
-  fftw_execute(plan);
-  fftw_destroy_plan(plan);
+  }
+  execute_and_destroy(plan);
 }
 
 void
@@ -101,10 +119,13 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, const Booleans& convert, const In
   }
 
   // Now make a Guru plan and execute it.
-  fftw_plan plan = fftw_plan_guru_dft(fft_size, fft_dims, loop_size, loop_dims,
+  fftw_plan plan;
+  {
+    planner_lock lock(planner_mutex);
+    plan = fftw_plan_guru_dft(fft_size, fft_dims, loop_size, loop_dims,
           pin, pout, direction, FFTW_ESTIMATE);
-  fftw_execute(plan);
-  fftw_destroy_plan(plan);
+  }
+  execute_and_destroy(plan);
 }
 
 } // namespace tensor
\ No newline at end of file
-- 
2.43.0


From 8a508ec0c008c0a69970da8e2dbbac20a3c84daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 32/61] fix: threads creating files do not change each other's
 creation mask

---
 src/sdf/creation_mask.h   | 19 +++++++++++++++++++
 src/sdf/data_file.cc      | 15 +++++++++++----
 src/sdf/make_directory.cc |  2 ++
 src/sdf/odata_file.cc     |  6 +++++-
 4 files changed, 37 insertions(+), 5 deletions(-)
 create mode 100644 src/sdf/creation_mask.h

diff --git a/src/sdf/creation_mask.h b/src/sdf/creation_mask.h
new file mode 100644
index 0000000..7b889b8
--- /dev/null
+++ b/src/sdf/creation_mask.h
@@ -0,0 +1,19 @@
+// -*- mode: c++; fill-column: 80; c-basic-offset: 2; indent-tabs-mode: nil -*-
+
+#ifndef TENSOR_SDF_CREATION_MASK_H
+#define TENSOR_SDF_CREATION_MASK_H
+
+#include <mutex>
+
+namespace sdf {
+
+  // The file creation mask belongs to the whole process, and making a lock
+  // file changes it for a moment. No other thread may do the same or create
+  // something meanwhile: the mask would not be restored or not be honoured.
+  extern std::mutex creation_mask_mutex;
+
+  typedef std::lock_guard<std::mutex> creation_mask_lock;
+
+}
+
+#endif
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 75d0b16..6e54185 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -29,6 +29,7 @@
 #include <errno.h>
 #include <stdlib.h>
 #include <string.h>
+#include "creation_mask.h"
 
 namespace sdf {
 
@@ -39,6 +40,8 @@ const enum DataFile::endianness DataFile::endian = LITTLE_ENDIAN_FILE;
 #endif
 const unsigned int DataFile::var_name_size = 64;
 
+std::mutex creation_mask_mutex;
+
 /* Try to get lock. Return its file descriptor or -1 if failed.
  */
 static int get_lock(char const *lockName, bool wait)
@@ -47,10 +50,14 @@ static int get_lock(char const *lockName, bool wait)
   return 1;
 #else
     do {
-      mode_t m = umask(0);
-      int fd = open(lockName, O_RDWR|O_CREAT, 0666);
-      int error = errno;
-      umask(m);
+      int fd, error;
+      {
+        creation_mask_lock guard(creation_mask_mutex);
+        mode_t m = umask(0);
+        fd = open(lockName, O_RDWR|O_CREAT, 0666);
+        error = errno;
+        umask(m);
+      }
       if (fd < 0 && wait &&
           (error == ENOENT || error == ENOTDIR || error == EISDIR ||
            error == EROFS || error == ENAMETOOLONG ||
diff --git a/src/sdf/make_directory.cc b/src/sdf/make_directory.cc
index 87bdaf6..a861bb0 100644
--- a/src/sdf/make_directory.cc
+++ b/src/sdf/make_directory.cc
@@ -24,6 +24,7 @@
 # include <sys/stat.h>
 #endif
 #include <tensor/jobs.h>
+#include "creation_mask.h"
 
 namespace sdf {
 
@@ -31,6 +32,7 @@ namespace sdf {
   make_directory(const std::string &dirname, int mode)
   {
     std::cout << dirname << std::endl;
+    creation_mask_lock guard(creation_mask_mutex);
     return !mkdir(dirname.c_str(), mode);
   }
 
diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index ce592bb..d683e45 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -19,6 +19,7 @@
 
 #include <exception>
 #include <tensor/sdf.h>
+#include "creation_mask.h"
 
 using namespace sdf;
 
@@ -107,7 +108,10 @@ static int count_exceptions()
 OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
   DataFile(a_filename, flags), _exceptions(count_exceptions())
 {
-  _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
+  {
+    creation_mask_lock guard(creation_mask_mutex);
+    _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
+  }
   check_stream(_stream);
   // A file that is new, or whose creator died before writing anything
   if (_stream.rdbuf()->pubseekoff(0, std::ios_base::end) == std::streampos(0)) {
-- 
2.43.0


From 5b79c7f5ddc7ebb9c1f47c171a1acb8c408ddec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 33/61] fix: ARPACK restarts from vectors that depend on
 earlier eigenvalue computations

xGETV0 kept the state of its random number generator from one problem to the
next, so eigs() with the same operator and the same starting vector gave other
eigenvectors, or another number of iterations, depending on what the program
had computed before. Every problem now starts from the same seed.
---
 src/arpack-f2c/dgetv0.f.c | 6 ++++--
 src/arpack-f2c/zgetv0.f.c | 6 ++++--
 src/arpack-ng/dgetv0.f    | 6 ++++--
 src/arpack-ng/zgetv0.f    | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/arpack-f2c/dgetv0.f.c b/src/arpack-f2c/dgetv0.f.c
index 94ca41f..59a5dca 100644
--- a/src/arpack-f2c/dgetv0.f.c
+++ b/src/arpack-f2c/dgetv0.f.c
@@ -271,10 +271,12 @@ static doublereal c_b29 = -1.;
 
 /*     %-----------------------------------% */
 /*     | Initialize the seed of the LAPACK | */
-/*     | random number generator           | */
+/*     | random number generator, once for | */
+/*     | every problem: what a computation | */
+/*     | gives does not depend on others   | */
 /*     %-----------------------------------% */
 
-    if (inits) {
+    if (inits || (*ido == 0 && *itry == 1 && *j == 1)) {
 	iseed[0] = 1;
 	iseed[1] = 3;
 	iseed[2] = 5;
diff --git a/src/arpack-f2c/zgetv0.f.c b/src/arpack-f2c/zgetv0.f.c
index 2ec19c4..2448269 100644
--- a/src/arpack-f2c/zgetv0.f.c
+++ b/src/arpack-f2c/zgetv0.f.c
@@ -263,10 +263,12 @@ static integer c__1 = 1;
 
 /*     %-----------------------------------% */
 /*     | Initialize the seed of the LAPACK | */
-/*     | random number generator           | */
+/*     | random number generator, once for | */
+/*     | every problem: what a computation | */
+/*     | gives does not depend on others   | */
 /*     %-----------------------------------% */
 
-    if (inits) {
+    if (inits || (*ido == 0 && *itry == 1 && *j == 1)) {
 	iseed[0] = 1;
 	iseed[1] = 3;
 	iseed[2] = 5;
diff --git a/src/arpack-ng/dgetv0.f b/src/arpack-ng/dgetv0.f
index 7c0869e..fc632d6 100644
--- a/src/arpack-ng/dgetv0.f
+++ b/src/arpack-ng/dgetv0.f
@@ -196,10 +196,12 @@ c
 c
 c     %-----------------------------------%
 c     | Initialize the seed of the LAPACK |
-c     | random number generator           |
+c     | random number generator, once for |
+c     | every problem: what a computation |
+c     | gives does not depend on others   |
 c     %-----------------------------------%
 c
-      if (inits) then
+      if (inits .or. (ido.eq.0 .and. itry.eq.1 .and. j.eq.1)) then
           iseed(1) = 1
           iseed(2) = 3
           iseed(3) = 5
diff --git a/src/arpack-ng/zgetv0.f b/src/arpack-ng/zgetv0.f
index 1b38ca0..0974d85 100644
--- a/src/arpack-ng/zgetv0.f
+++ b/src/arpack-ng/zgetv0.f
@@ -193,10 +193,12 @@ c
 c
 c     %-----------------------------------%
 c     | Initialize the seed of the LAPACK |
-c     | random number generator           |
+c     | random number generator, once for |
+c     | every problem: what a computation |
+c     | gives does not depend on others   |
 c     %-----------------------------------%
 c
-      if (inits) then
+      if (inits .or. (ido.eq.0 .and. itry.eq.1 .and. j.eq.1)) then
           iseed(1) = 1
           iseed(2) = 3
           iseed(3) = 5
-- 
2.43.0


From 7173b115c96199a0587752ce6493883580091b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 34/61] fix: the Python reader reports files that end too early

What a short read had not filled was returned as data: uninitialised
memory. A file that consists of its header raised NameError.
---
 python/sdf.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 1e7a8a8..2c8ac19 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -57,7 +57,7 @@ class SDF:
         output = {}
         while self.f.readable():
             obj, name = self.load_record()
-            if len(name):
+            if name:
                 output[name] = obj
             else:
                 break
@@ -72,9 +72,8 @@ class SDF:
     def load_record(self):
         name, code = self.load_tag()
         obj = []
-        if code == -1:
-            name = '';
-            obj = [];
+        if code is None:
+            name = None
         elif code == 0:
             obj = self.load_tensor(False)
         elif code == 1:
@@ -89,7 +88,9 @@ class SDF:
 
     def load_mp(self, iscomplex):
         L = self.read_longs(1)[0]
-        [self.load_record()[0] for i in range(L)]
+        for i in range(L):
+            if self.load_record()[1] is None:
+                raise ValueError('SDF file ends too early')
         return []
 
     def load_tensor(self, iscomplex):
@@ -102,29 +103,39 @@ class SDF:
             data = self.read_doubles(L)
         return np.ndarray(shape=dims,buffer=data,dtype=data.dtype,order='F')
 
+    def read_into(self, output):
+        if self.f.readinto(output) != output.nbytes:
+            raise ValueError('SDF file ends too early')
+
     def read_longs(self, n):
         output = np.ndarray(shape=(n,),dtype=self.long_type)
-        self.f.readinto(output)
+        self.read_into(output)
         if self.interpret:
             output.byteswwap()
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
-        self.f.readinto(output)
+        self.read_into(output)
         if self.interpret:
             output.byteswwap()
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
-        self.f.readinto(output)
+        self.read_into(output)
         if self.interpret:
             output.byteswwap()
         return output
 
-    def load_tag(self):
+    def read_name(self):
         name = self.f.read(64)
+        if len(name) not in (0, 64):
+            raise ValueError('SDF file ends too early')
+        return name
+
+    def load_tag(self):
+        name = self.read_name()
         code = []
         if len(name):
             if name[0] == 115 and name[1] == 100 and name[2] == 102:
@@ -138,10 +149,11 @@ class SDF:
                     self.set_endian('little')
                 else:
                     self.set_endian('big')
-                name = self.f.read(64)
+                name = self.read_name()
+        if len(name):
             name, sep, rest = name.partition(b'\x00')
             name = str(name,'utf-8')
             code = self.read_longs(1)[0]
         else:
-            code = -1
+            code = None
         return name, code
-- 
2.43.0


From 33e5d9c5a5f3cb645643228d2a8f741bf97dfdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 35/61] fix: the Python reader reports damaged records

Dimensions that did not match the number of elements were accepted as
long as there were enough of them, negative lengths passed, and an
unknown type or byte order raised NameError or was ignored.
---
 python/sdf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 2c8ac19..8bbf1bd 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -1,3 +1,4 @@
+import math
 import sys
 import numpy as np
 import pathlib
@@ -83,11 +84,13 @@ class SDF:
         elif code == 3:
             obj = self.load_mp(True)
         else:
-            raise Error('Unknown SDF tag')
+            raise ValueError('Unknown SDF tag')
         return obj, name
 
     def load_mp(self, iscomplex):
         L = self.read_longs(1)[0]
+        if L < 0:
+            raise ValueError('Negative number of tensors in SDF file')
         for i in range(L):
             if self.load_record()[1] is None:
                 raise ValueError('SDF file ends too early')
@@ -97,6 +100,11 @@ class SDF:
         rank = self.read_longs(1)[0]
         dims = self.read_longs(rank)
         L = self.read_longs(1)[0]
+        if rank == 0:
+            # A tensor that was never given dimensions is empty
+            dims = [0]
+        if L != math.prod(int(d) for d in dims) or min(dims) < 0:
+            raise ValueError('Dimensions in SDF file do not match its data')
         if iscomplex:
             data = self.read_complex(L)
         else:
@@ -147,8 +155,10 @@ class SDF:
                     raise ValueError('Unsupported tag size in SDF file');
                 if name[5] == ord('1'):
                     self.set_endian('little')
-                else:
+                elif name[5] == ord('0'):
                     self.set_endian('big')
+                else:
+                    raise ValueError('Unsupported byte order in SDF file')
                 name = self.read_name()
         if len(name):
             name, sep, rest = name.partition(b'\x00')
-- 
2.43.0


From f822dfc51e895fab7b6cd74bba16fd13284b7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 36/61] fix: the Python reader does not stop at records without
 name

A record without a name ended the load and the ones after it were
lost. They are passed over now.
---
 python/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 8bbf1bd..fce0aa9 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -58,10 +58,10 @@ class SDF:
         output = {}
         while self.f.readable():
             obj, name = self.load_record()
-            if name:
-                output[name] = obj
-            else:
+            if name is None:
                 break
+            if len(name):
+                output[name] = obj
         self.f.close()
         f = []
         return output
-- 
2.43.0


From 046309cc06618637cd460223b823f719ea57413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 37/61] fix: the Python reader expects a header at the
 beginning only

A variable whose name begins with "sdf" was taken for another header.
---
 python/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/sdf.py b/python/sdf.py
index fce0aa9..474dc6e 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -55,6 +55,7 @@ class SDF:
 
     def load(self):
         self.f = self.filename.open('rb')
+        self.at_start = True
         output = {}
         while self.f.readable():
             obj, name = self.load_record()
@@ -146,7 +147,7 @@ class SDF:
         name = self.read_name()
         code = []
         if len(name):
-            if name[0] == 115 and name[1] == 100 and name[2] == 102:
+            if self.at_start and name[0] == 115 and name[1] == 100 and name[2] == 102:
                 if name[4] == ord('4'):
                     self.long_type = self.int32
                 elif name[4] == ord('8'):
@@ -160,6 +161,7 @@ class SDF:
                 else:
                     raise ValueError('Unsupported byte order in SDF file')
                 name = self.read_name()
+        self.at_start = False
         if len(name):
             name, sep, rest = name.partition(b'\x00')
             name = str(name,'utf-8')
-- 
2.43.0


From 79fead4e9e2ddab7f831c115d111f8b844e1a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 38/61] fix: the Python reader swaps the bytes of files from
 other machines

The method was misspelled.
---
 python/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 474dc6e..f9ed4a4 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -120,21 +120,21 @@ class SDF:
         output = np.ndarray(shape=(n,),dtype=self.long_type)
         self.read_into(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(inplace=True)
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
         self.read_into(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(inplace=True)
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
         self.read_into(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(inplace=True)
         return output
 
     def read_name(self):
-- 
2.43.0


From 93b408c28932a5828726aa1ad3d3c3741d13b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 39/61] fix: the Python reader takes only finished records from
 a data set

A worker that was killed leaves the file it was working on in the
directory, with an additional extension. It was loaded with the rest.
---
 python/sdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index f9ed4a4..cc85f9a 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -16,13 +16,18 @@ def load(filename,**kwargs):
     else:
         return sdf.load()
 
+def load_records(path):
+    # Sessions in progress, or killed, have temporary and lock files
+    return [load(f) for f in pathlib.Path(path).iterdir()
+            if f.suffix not in ('.tmp', '.lck')]
+
 def load_sorted_dataset(path,field):
-    set = [load(f) for f in pathlib.Path(path).iterdir()]
+    set = load_records(path)
     set.sort(key=lambda data: data[field][0])
     return combine_dataset(set)
 
 def load_dataset(path):
-    set = [load(f) for f in pathlib.Path(path).iterdir()]
+    set = load_records(path)
     return combine_dataset(set)
 
 def combine_dataset(set):
-- 
2.43.0


From b6caa23a26c80d3bcfb7bbcaca6510c452686dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 40/61] fix: numbers of job blocks beyond 2^31 were truncated

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 91a9070..5277479 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -147,7 +147,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --job-blocks" << std::endl;
 	abort();
       }
-      blocks = atoi(argv[i]);
+      blocks = atol(argv[i]);
       job_blocks_found = true;
     } else if (!strcmp(argv[i], "--first-job")) {
       if (this_job_found) {
-- 
2.43.0


From 3d9c7da87b0bac6a890644c9e9c9f557416db7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 41/61] fix: seeds given by static objects were overridden at
 the start

---
 src/rand/mt.h      |  2 ++
 src/rand/rand.cc   |  5 ++++-
 src/rand/rand32.cc | 13 ++++++++++---
 src/rand/rand64.cc | 17 ++++++++++++-----
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/rand/mt.h b/src/rand/mt.h
index 75e755d..531a965 100644
--- a/src/rand/mt.h
+++ b/src/rand/mt.h
@@ -36,6 +36,7 @@ namespace tensor {
 
 typedef uint32_t rand_uint;
 
+extern bool genrand_initialized();
 extern void init_genrand(uint32_t s);
 extern void init_by_array(uint32_t init_key[], int key_length);
 
@@ -53,6 +54,7 @@ extern int32_t genrand_int31(void);
 
 typedef uint64_t rand_uint;
 
+extern bool genrand_initialized();
 extern void init_genrand(uint64_t s);
 extern void init_by_array(uint64_t init_key[], int key_length);
 
diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index c117878..ccc18a2 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -34,7 +34,10 @@ namespace tensor {
 static bool
 initialize_mt()
 {
-  rand_reseed();
+  // Other static objects may have seeded the generator or drawn from it
+  // before this is run.
+  if (!genrand_initialized())
+    rand_reseed();
   return true;
 }
 
diff --git a/src/rand/rand32.cc b/src/rand/rand32.cc
index 0c27a78..8e276da 100644
--- a/src/rand/rand32.cc
+++ b/src/rand/rand32.cc
@@ -44,6 +44,7 @@
 
 #include <time.h>
 #include <stdio.h>
+#include <tensor/rand.h>
 #include "mt.h"
 
 namespace tensor {
@@ -58,6 +59,12 @@ namespace tensor {
 static uint32_t mt[N]; /* the array for the state vector  */
 static int mti=N+1; /* mti==N+1 means mt[N] is not initialized */
 
+/* has init_genrand() been called? */
+bool genrand_initialized()
+{
+  return mti != N+1;
+}
+
 /* initializes mt[N] with a seed */
 void init_genrand(uint32_t s)
 {
@@ -110,12 +117,12 @@ uint32_t genrand_int32(void)
   static uint32_t mag01[2]={0x0UL, MATRIX_A};
   /* mag01[x] = x * MATRIX_A  for x=0,1 */
 
+  if (mti == N+1)   /* if init_genrand() has not been called, */
+    rand_reseed();  /* the default seeding of the library is used */
+
   if (mti >= N) { /* generate N words at one time */
     int kk;
 
-    if (mti == N+1)   /* if init_genrand() has not been called, */
-      init_genrand(5489UL); /* a default initial seed is used */
-
     for (kk=0;kk<N-M;kk++) {
       y = (mt[kk]&UPPER_MASK)|(mt[kk+1]&LOWER_MASK);
       mt[kk] = mt[kk+M] ^ (y >> 1) ^ mag01[y & 0x1UL];
diff --git a/src/rand/rand64.cc b/src/rand/rand64.cc
index 2a11bf7..219cb67 100644
--- a/src/rand/rand64.cc
+++ b/src/rand/rand64.cc
@@ -55,6 +55,7 @@
 */
 
 #include <stdio.h>
+#include <tensor/rand.h>
 #include "mt.h"
 
 namespace tensor {
@@ -71,6 +72,12 @@ static uint64_t mt[NN];
 /* mti==NN+1 means mt[NN] is not initialized */
 static int mti=NN+1; 
 
+/* has init_genrand() been called? */
+bool genrand_initialized()
+{
+  return mti != NN+1;
+}
+
 /* initializes mt[NN] with a seed */
 void init_genrand(uint64_t seed)
 {
@@ -111,12 +118,12 @@ uint64_t genrand_int64(void)
   uint64_t x;
   static uint64_t mag01[2]={0ULL, MATRIX_A};
 
-  if (mti >= NN) { /* generate NN words at one time */
+  /* if init_genrand() has not been called, */
+  /* the default seeding of the library is used */
+  if (mti == NN+1)
+    rand_reseed();
 
-    /* if init_genrand() has not been called, */
-    /* a default initial seed is used     */
-    if (mti == NN+1) 
-      init_genrand(5489ULL); 
+  if (mti >= NN) { /* generate NN words at one time */
 
     int i;
     for (i=0;i<NN-MM;i++) {
-- 
2.43.0


From 3dda524c02c421dbf75e8bd642f0239564a19f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:59 +0000
Subject: [PATCH 42/61] fix: foldin() of two vectors wrote beyond its list of
 dimensions

---
 src/tensor/tensor_foldin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index d604e51..4bd8718 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -39,7 +39,7 @@ namespace tensor {
     const index rankb = b.rank();
     index ndx1 = normalize_index(_ndx1, ranka);
     index ndx2 = normalize_index(_ndx2, rankb);
-    Indices new_dims(ranka + rankb - 2);
+    Indices new_dims(std::max<index>(ranka + rankb - 2, 1));
     /*
      * Since we use row-major order, in which the first
      * index varies faster, we nest the loops beginning with the last index,
-- 
2.43.0


From 6dac38f9dabf6d5774cd4d718a8149aa3219700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 43/61] fix: squeeze() of tensors with one element or none lost
 the dimensions

---
 src/tensor/tensor_squeeze.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tensor/tensor_squeeze.cc b/src/tensor/tensor_squeeze.cc
index dad3232..cab3fe1 100644
--- a/src/tensor/tensor_squeeze.cc
+++ b/src/tensor/tensor_squeeze.cc
@@ -24,12 +24,13 @@ namespace tensor {
 
   const Indices squeeze_dimensions(const Indices &d)
   {
-    Indices output(d.size() - std::count(d.begin(), d.end(), 1));
-    Indices::const_iterator b = d.begin();
-    for (Indices::iterator a = output.begin(); a != output.end() && b != d.end(); b++) {
-      if (*b > 1)
-        *(a++) = *b;
+    const index ones = std::count(d.begin(), d.end(), 1);
+    if (ones && ones == d.size()) {
+      // A tensor with one element has at least one dimension
+      return Indices(igen << 1);
     }
+    Indices output(d.size() - ones);
+    std::remove_copy(d.begin(), d.end(), output.begin(), 1);
     return output;
   }
 
-- 
2.43.0


From b1d80020f85c925dd0392b945c88ee68b6cf1418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 44/61] fix: views with an empty range and a step had elements
 that nobody set

---
 src/views/range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index ebfbb0b..3528935 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -210,7 +210,7 @@ namespace tensor {
   index
   StepRange::size() const
   {
-    return (end_ - start_) / step_ + 1;
+    return (end_ < start_) ? 0 : ((end_ - start_) / step_ + 1);
   }
 
   void
-- 
2.43.0


From 4a011b61a1b4a076f16aa7f360468682eb2216d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:33 +0000
Subject: [PATCH 45/61] fix: views of tensors with empty dimensions divided by
 zero

---
 src/views/range.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index 3528935..6492134 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -272,9 +272,15 @@ namespace tensor {
   /************************************************************
    * TENSOR PRODUCT RANGE
    */
+  static inline index nonzero(index limit)
+  {
+    // An empty dimension leaves no indices, but factors are divided by
+    return limit? limit : 1;
+  }
+
   ProductRange::ProductRange(PRange r1, PRange r2) : r1_(r1), r2_(r2)
   {
-    r2_->set_factor(r1_->get_factor() * r1_->get_limit());
+    r2_->set_factor(r1_->get_factor() * nonzero(r1_->get_limit()));
   }
 
   index
@@ -304,7 +310,7 @@ namespace tensor {
   ProductRange::set_factor(index factor)
   {
     r1_->set_factor(factor);
-    r2_->set_factor(factor * r1_->get_limit());
+    r2_->set_factor(factor * nonzero(r1_->get_limit()));
   }
 
   void
-- 
2.43.0


From 5aedfa41857b8664b848ae4ea6fa0c8be0659483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:54 +0000
Subject: [PATCH 46/61] fix: the Fourier transforms of tensors without elements
 crashed

---
 src/fftw/fftw_common.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fftw/fftw_common.cc b/src/fftw/fftw_common.cc
index 659ec64..f076bf5 100644
--- a/src/fftw/fftw_common.cc
+++ b/src/fftw/fftw_common.cc
@@ -39,6 +39,10 @@ execute_and_destroy(fftw_plan plan) {
 // basic FFTW along all degrees of freedom
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int direction) {
+  // FFTW has no plans for tensors without elements.
+  if (dims.total_size() == 0)
+    return;
+
   fftw_plan plan;
   int d = dims.size();
 
@@ -59,6 +63,10 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, const Indices& dims, int directio
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, int direction) {
+  // FFTW has no plans for tensors without elements.
+  if (dims.total_size() == 0)
+    return;
+
   // Collect the dimensions for the transform
   fftw_iodim fft_dim;
   fftw_iodim loop_dims[dims.size()-1];
@@ -95,6 +103,10 @@ do_fftw(fftw_complex* pin, fftw_complex* pout, index dim, const Indices& dims, i
 
 void
 do_fftw(fftw_complex* pin, fftw_complex* pout, const Booleans& convert, const Indices& dims, int direction) {
+  // FFTW has no plans for tensors without elements.
+  if (dims.total_size() == 0)
+    return;
+
   // Collect the dimensions for the transform
   fftw_iodim fft_dims[dims.size()];
   fftw_iodim loop_dims[dims.size()];
-- 
2.43.0


From 42b17caff663f8c75098b332004a5596f8c01ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:54 +0000
Subject: [PATCH 47/61] fix: matrix_norminf() of matrices without columns read
 beyond their end

---
 src/tensor/matrix_norminf_d.cc | 6 +++---
 src/tensor/matrix_norminf_z.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/matrix_norminf_d.cc b/src/tensor/matrix_norminf_d.cc
index f280414..04d31ea 100644
--- a/src/tensor/matrix_norminf_d.cc
+++ b/src/tensor/matrix_norminf_d.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     RTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
diff --git a/src/tensor/matrix_norminf_z.cc b/src/tensor/matrix_norminf_z.cc
index 0499649..b1abd84 100644
--- a/src/tensor/matrix_norminf_z.cc
+++ b/src/tensor/matrix_norminf_z.cc
@@ -31,10 +31,10 @@ namespace tensor {
 
     double *aux = new double[r];
     CTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
+    for (size_t i = 0; i < r; i++) {
+      aux[i] = 0.0;
     }
-    for (size_t j = 1; j < c; j++) {
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
-- 
2.43.0


From fe54c1ae91abecb7eb14b0ea393b8959086228f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 48/61] fix: solve() of a system without equations divided by
 zero

---
 src/linalg/solve_d.cc | 4 ++++
 src/linalg/solve_z.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/linalg/solve_d.cc b/src/linalg/solve_d.cc
index a164dae..73422dc 100644
--- a/src/linalg/solve_d.cc
+++ b/src/linalg/solve_d.cc
@@ -61,6 +61,10 @@ namespace linalg {
     RTensor output(B);
     RTensor::elt_t *b = tensor_pointer(output);
 
+    // Without equations there is nothing left to do
+    if (n == 0)
+      return output;
+
     // Since B may be a tensor, we compute how many effective
     // right-hand-sides (nrhs) there are.
     nrhs = B.size() / ldb;
diff --git a/src/linalg/solve_z.cc b/src/linalg/solve_z.cc
index 0688578..35f90a7 100644
--- a/src/linalg/solve_z.cc
+++ b/src/linalg/solve_z.cc
@@ -55,6 +55,10 @@ namespace linalg {
     CTensor output(B);
     cdouble *b = tensor_pointer(output);
 
+    // Without equations there is nothing left to do
+    if (n == 0)
+      return output;
+
     // Since B may be a tensor, we compute how many effective
     // right-hand-sides (nrhs) there are.
     nrhs = B.size() / ldb;
-- 
2.43.0


From 260ed5c02b1910a5aee66cdcab648402278d3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:53 +0000
Subject: [PATCH 49/61] fix: take_diag() of two inner indices of a tensor took
 other elements

---
 src/tensor/tensor_take_diag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 4acd9a6..9feda7a 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -99,7 +99,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   tensor::Tensor<elt_t> output(new_dims);
   which = -which;
   if (a2b) {
-    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a3,a5,which);
+    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a4,a5,which);
   }
   return output;
 }
-- 
2.43.0


From d7eb21e2596322e3b8817b23292617b59a4de237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 50/61] fix: block_svd() of a matrix with rectangular blocks
 aborted

---
 src/linalg/block_svd.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index b94710b..85b3786 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -48,6 +48,14 @@ namespace linalg {
       return svd(A, pU, pVT, economic);
     }
 
+    if (!economic) {
+      // The complete decompositions of rectangular blocks do not fit together
+      for (index b = 0; b < nblocks; b++) {
+        if (block_rows[b].size() != block_cols[b].size())
+          return svd(A, pU, pVT, economic);
+      }
+    }
+
     RTensor s(minrc);
     s.fill_with_zeros();
     if (pU) {
-- 
2.43.0


From 7956b07503f99ca788a3c976098b0434bb864272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 51/61] fix: a number compared with a list or a tensor gave the
 answer of another comparison

---
 include/tensor/indices.h | 8 ++++----
 include/tensor/tensor.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index 3c490d1..43c4a33 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -85,10 +85,10 @@ namespace tensor {
   const Booleans operator!=(const Indices &a, index b);
 
   inline const Booleans operator==(index a, const Indices &b) { return b == a; }
-  inline const Booleans operator<(index a, const Indices &b) { return b >= a; }
-  inline const Booleans operator>(index a, const Indices &b) { return b <= a; }
-  inline const Booleans operator<=(index a, const Indices &b) { return b > a; }
-  inline const Booleans operator>=(index a, const Indices &b) {  return b < a; }
+  inline const Booleans operator<(index a, const Indices &b) { return b > a; }
+  inline const Booleans operator>(index a, const Indices &b) { return b < a; }
+  inline const Booleans operator<=(index a, const Indices &b) { return b >= a; }
+  inline const Booleans operator>=(index a, const Indices &b) {  return b <= a; }
   inline const Booleans operator!=(index a, const Indices &b) { return b != a; }
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/tensor/tensor.h b/include/tensor/tensor.h
index a9c33ab..bb6b604 100644
--- a/include/tensor/tensor.h
+++ b/include/tensor/tensor.h
@@ -449,10 +449,10 @@ namespace tensor {
   const Booleans operator!=(const RTensor &a, double b);
 
   inline const Booleans operator==(double a, const RTensor &b) { return b == a; }
-  inline const Booleans operator<(double a, const RTensor &b) { return b >= a; }
-  inline const Booleans operator>(double a, const RTensor &b) { return b <= a; }
-  inline const Booleans operator<=(double a, const RTensor &b) { return b > a; }
-  inline const Booleans operator>=(double a, const RTensor &b) {  return b < a; }
+  inline const Booleans operator<(double a, const RTensor &b) { return b > a; }
+  inline const Booleans operator>(double a, const RTensor &b) { return b < a; }
+  inline const Booleans operator<=(double a, const RTensor &b) { return b >= a; }
+  inline const Booleans operator>=(double a, const RTensor &b) {  return b <= a; }
   inline const Booleans operator!=(double a, const RTensor &b) { return b != a; }
 
   const RTensor operator+(const RTensor &a, const RTensor &b);
-- 
2.43.0


From 41e5a7e559428cfd11101377f1cdff49df8da3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:38 +0000
Subject: [PATCH 52/61] fix: solve_with_svd() of a matrix without nonzero
 singular values aborted

---
 src/linalg/solve_with_svd_d.cc | 8 ++++++++
 src/linalg/solve_with_svd_z.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d71afe6..7b3d3af 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cassert>
 #include <cfloat>
 #include <tensor/tensor.h>
 #include <tensor/linalg.h>
@@ -48,6 +49,13 @@ namespace linalg {
 	VT = VT(range(0,i-1), range());
       }
     }
+    if (s.size() == 0) {
+      // Nothing is left: the pseudoinverse of zero is zero
+      assert(B.rows() == A.rows());
+      Indices dims = B.dimensions();
+      dims.at(0) = A.columns();
+      return RTensor::zeros(dims);
+    }
     RTensor X = foldc(U, 0, B, 0);
     scale_inplace(X, 0, 1.0/s);
     return foldc(VT, 0, X, 0);
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 79b6a68..3478657 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cassert>
 #include <cfloat>
 #include <tensor/tensor.h>
 #include <tensor/linalg.h>
@@ -48,6 +49,13 @@ namespace linalg {
 	VT = VT(range(0,i-1), range());
       }
     }
+    if (s.size() == 0) {
+      // Nothing is left: the pseudoinverse of zero is zero
+      assert(B.rows() == A.rows());
+      Indices dims = B.dimensions();
+      dims.at(0) = A.columns();
+      return CTensor::zeros(dims);
+    }
     CTensor X = foldc(U, 0, B, 0);
     scale_inplace(X, 0, 1.0/s);
     return foldc(VT, 0, X, 0);
-- 
2.43.0


From 7bdf4939669afc0115079cf10678119e421bd5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:28 +0000
Subject: [PATCH 53/61] fix: the comparisons of a CTensor with a complex number
 were declared but not defined

---
 src/compare/ctensor_cdouble_e.cc  | 2 +-
 src/compare/ctensor_cdouble_ne.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compare/ctensor_cdouble_e.cc b/src/compare/ctensor_cdouble_e.cc
index 1dcdcb8..d6a1c5e 100644
--- a/src/compare/ctensor_cdouble_e.cc
+++ b/src/compare/ctensor_cdouble_e.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator==(const CTensor &a, double b)
+  const Booleans operator==(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
diff --git a/src/compare/ctensor_cdouble_ne.cc b/src/compare/ctensor_cdouble_ne.cc
index 8503fdc..5273f2f 100644
--- a/src/compare/ctensor_cdouble_ne.cc
+++ b/src/compare/ctensor_cdouble_ne.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator!=(const CTensor &a, double b)
+  const Booleans operator!=(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
-- 
2.43.0


From 99acc249570473fc0f1ef230f80fe0ac3c2a988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 54/61] fix: a sparse matrix made from coordinates lost its
 last row without explicit sizes, and repeated positions

---
 include/tensor/detail/sparse_base.hpp | 31 ++++++++++++++-------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d3f6389..fbeb4ab 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -74,6 +74,9 @@ namespace tensor {
         return col < other.col;
       return 0;
     }
+    bool operator==(const sparse_triplet &other) const {
+      return row == other.row && col == other.col;
+    }
   };
 
   template<typename elt_t>
@@ -89,7 +92,7 @@ namespace tensor {
                         index nrows, index ncols) :
     dims_(2), row_start_(), column_(), data_()
   {
-    index i, j, last_row, last_col, l = rows.size();
+    index i, last_row, l = rows.size();
     assert(cols.size() == l);
     assert(data.size() == l);
 
@@ -101,13 +104,17 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      nrows = std::max(nrows, r);
-      ncols = std::max(ncols, c);
+      nrows = std::max(nrows, r + 1);
+      ncols = std::max(ncols, c + 1);
       if (data[i] != number_zero<elt_t>()) {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
     }
     std::sort(sorted_data.begin(), sorted_data.end());
+    /* Only one element for each position
+     */
+    sorted_data.erase(std::unique(sorted_data.begin(), sorted_data.end()),
+                      sorted_data.end());
     dims_.at(0) = nrows;
     dims_.at(1) = ncols;
     row_start_ = Indices(nrows+1);
@@ -117,22 +124,16 @@ namespace tensor {
     /* Fill in the Sparse structure.
      */
     std::fill(row_start_.begin(), row_start_.end(), 0);
-    for (last_col = 0, last_row = -1, j = i = 0; i < l; i++) {
+    for (last_row = -1, i = 0; i < l; i++) {
       const sparse_triplet<elt_t> &d = sorted_data[i];
-      if (d.row == last_row) {
-        if (d.col == last_col)
-          continue;
-      } else {
-        while(last_row < d.row) {
-          row_start_.at(++last_row) = j;
-        }
+      while (last_row < d.row) {
+        row_start_.at(++last_row) = i;
       }
-      column_.at(j) = d.col;
-      data_.at(j) = d.value;
-      j++;
+      column_.at(i) = d.col;
+      data_.at(i) = d.value;
     }
     while (last_row < nrows) {
-      row_start_.at(++last_row) = j;
+      row_start_.at(++last_row) = l;
     }
   }
 
-- 
2.43.0


From 96c11caa72a39ea3b59544e885bb881de1d6a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 55/61] fix: ranges accepted an index equal to the dimension in
 a list of indices, and negative indices

The elements came from outside of the tensor, or from other rows.
---
 src/views/range.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index 6492134..10a49d8 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -153,7 +153,7 @@ namespace tensor {
   void
   SingleRange::set_limit(index limit)
   {
-    assert(limit > ndx_);
+    assert(ndx_ >= 0 && limit > ndx_);
     Range::set_limit(limit);
   }
 
@@ -204,6 +204,7 @@ namespace tensor {
   StepRange::set_limit(index limit)
   {
     assert(limit > end_);
+    assert(start_ >= 0 || end_ < start_);
     Range::set_limit(limit);
   }
 
@@ -251,7 +252,7 @@ namespace tensor {
   {
 #ifndef NDEBUG
     for (Indices::const_iterator it = indices_.begin(); it != indices_.end(); it++) {
-      assert(*it <= limit);
+      assert(*it >= 0 && *it < limit);
     }
 #endif
     Range::set_limit(limit);
-- 
2.43.0


From 9c835f63bb8782f41598be4b846ba64d45d8e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:59 +0000
Subject: [PATCH 56/61] fix: the power method returned the conjugate of complex
 eigenvalues

---
 src/linalg/eig_power.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index a5303a7..468c3e0 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -53,7 +53,7 @@ namespace linalg {
     //
     for (size_t i = 0; i <= iter; i++) {
       Tensor<elt_t> v_new = (*A)(v);
-      eig = scprod(v, v_new);
+      eig = scprod(v_new, v);
       double err = norm0(v_new - eig * v);
       v = (v_new /= norm2(v_new));
       // Stop if the vector is sufficiently close to an eigenstate
-- 
2.43.0


From e8be93269e71f5b7d7b0bbe635d627b737e8a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 57/61] fix: numbers that are no integers or too large were
 loaded as other integers

---
 src/sdf/idata_file.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 5e46611..f44ca66 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -269,6 +269,13 @@ InDataFile::load(size_t *v, const std::string &name)
 {
   double aux;
   load(&aux, name);
+  // The limit rounds to the first number that is too large
+  if (!(aux >= 0 && aux < (double)std::numeric_limits<size_t>::max() &&
+        aux == (double)(size_t)aux)) {
+    std::cerr << "While reading file " << _filename << " found " << aux
+	      << " while a nonnegative integer was expected.";
+    abort();
+  }
   *v = (size_t)aux;
 }
 
@@ -277,6 +284,12 @@ InDataFile::load(int *v, const std::string &name)
 {
   double aux;
   load(&aux, name);
+  if (!(aux >= std::numeric_limits<int>::min() &&
+        aux <= std::numeric_limits<int>::max() && aux == (int)aux)) {
+    std::cerr << "While reading file " << _filename << " found " << aux
+	      << " while an integer was expected.";
+    abort();
+  }
   *v = (int)aux;
 }
 
-- 
2.43.0


From fd09ccfb93b71f7998c0962f9140daa00cccab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 58/61] fix: malformed numbers in job descriptions and options
 were read as other numbers

---
 src/tools/jobs.cc | 62 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 5277479..fb6df5b 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -17,6 +17,8 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <errno.h>
+#include <stdlib.h>
 #include <tensor/jobs.h>
 #include <fstream>
 
@@ -48,6 +50,44 @@ split_string(const std::string &s)
   return output;
 }
 
+// True if nothing but separators follows a number that ends at 'end'.
+static bool
+number_ends(const std::string &s, const char *end)
+{
+  const char *begin = s.c_str();
+  return (end != begin) &&
+    s.find_first_not_of(" \t\r\n", end - begin) == std::string::npos;
+}
+
+static bool
+parse_real(const std::string &s, double *value)
+{
+  char *end;
+  *value = strtod(s.c_str(), &end);
+  return number_ends(s, end);
+}
+
+static bool
+parse_integer(const std::string &s, tensor::index *value)
+{
+  char *end;
+  errno = 0;
+  *value = strtol(s.c_str(), &end, 10);
+  return (errno == 0) && number_ends(s, end);
+}
+
+static tensor::index
+integer_argument(const char *option, const char *argument)
+{
+  tensor::index value;
+  if (!parse_integer(argument, &value)) {
+    std::cerr << "The argument to " << option << " is not an integer: "
+	      << argument << std::endl;
+    abort();
+  }
+  return value;
+}
+
 const Job::Variable Job::no_variable;
 
 const Job::Variable
@@ -67,21 +107,27 @@ Job::parse_line(const std::string &s)
     std::cerr << "Missing minimum value for variable " << data[0] << std::endl;
     return no_variable;
   }
-  double max, min = atof(data[1].c_str());
+  double max, min;
+  if (!parse_real(data[1], &min)) {
+    std::cerr << "Wrong minimum value for variable " << data[0] << std::endl;
+    return no_variable;
+  }
   tensor::index nsteps;
   if (data.size() == 2) {
     max = min;
     nsteps = 1;
   } else {
-    max = atof(data[2].c_str());
+    if (!parse_real(data[2], &max)) {
+      std::cerr << "Wrong maximum value for variable " << data[0] << std::endl;
+      return no_variable;
+    }
     if (data.size() == 3) {
       nsteps = 10;
     } else if (data.size() > 4) {
       std::cerr << "Too many arguments for variable " << data[0] << std::endl;
       return no_variable;
     } else {
-      nsteps = atoi(data[3].c_str());
-      if (nsteps <= 0) {
+      if (!parse_integer(data[3], &nsteps) || nsteps <= 0) {
 	std::cerr << "Wrong number of steps for variable " << data[0] << std::endl;
 	return no_variable;
       }
@@ -140,14 +186,14 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
       }
-      current_job = atol(argv[i]);
+      current_job = integer_argument(argv[i-1], argv[i]);
       this_job_found = true;
     } else if (!strcmp(argv[i], "--job-blocks")) {
       if (++i == argc) {
 	std::cerr << "Missing argument to --job-blocks" << std::endl;
 	abort();
       }
-      blocks = atol(argv[i]);
+      blocks = integer_argument(argv[i-1], argv[i]);
       job_blocks_found = true;
     } else if (!strcmp(argv[i], "--first-job")) {
       if (this_job_found) {
@@ -158,7 +204,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --first-job" << std::endl;
 	abort();
       }
-      first_job_ = atol(argv[i]);
+      first_job_ = integer_argument(argv[i-1], argv[i]);
       first_job_found = true;
     } else if (!strcmp(argv[i], "--last-job")) {
       if (!first_job_found) {
@@ -169,7 +215,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --last-job" << std::endl;
 	abort();
       }
-      last_job_ = atol(argv[i]);
+      last_job_ = integer_argument(argv[i-1], argv[i]);
       last_job_found = true;
     } else if (!strcmp(argv[i], "--variable")) {
       if (++i == argc) {
-- 
2.43.0


From a9e0ccf9a24bfbbce1569ea5e31c90ac4a42c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 59/61] fix: block_svd() read flags that did not exist yet when
 called by a static object

---
 src/tools/flags.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/flags.cc b/src/tools/flags.cc
index df09757..a260d78 100644
--- a/src/tools/flags.cc
+++ b/src/tools/flags.cc
@@ -33,7 +33,8 @@ namespace tensor {
 
   double Flags::get(unsigned int code) const
   {
-    return _values[code];  
+    // The static objects of other files may ask before the flags exist
+    return code < _values.size() ? _values[code] : 0.0;
   }
 
   class Flags &Flags::set(unsigned int code, double value)
-- 
2.43.0


From 29eef536261630f0b5279e7823575e50f2cc8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 60/61] fix: symbolic links to a shared file gave each process
 a lock of its own

The lock file is named after the file. Two processes that opened one file
with different names, one of them a symbolic link, held different locks and
wrote at the same time, so that records were torn or lost. The name of the
lock is now that of the file at which the links end.
---
 src/sdf/data_file.cc | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 6e54185..2846392 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -107,11 +107,34 @@ static void giveup_lock(int fd, char const *lockName)
 #endif
 }
 
+/* The name of the lock that protects a file. All symbolic links that lead to
+   the file must give the same lock.
+ */
+static std::string lock_name(std::string name)
+{
+#if !defined(_MSC_VER) && !defined(__MINGW32__)
+    for (int depth = 0; depth < 40; depth++) {
+      char target[4096];
+      ssize_t size = readlink(name.c_str(), target, sizeof(target));
+      if (size <= 0 || size == (ssize_t)sizeof(target))
+        break;
+      if (target[0] == '/') {
+        name.clear();
+      } else {
+        // The target is relative to the directory of the link
+        name.erase(name.rfind('/') + 1);
+      }
+      name.append(target, size);
+    }
+#endif
+    return name + ".lck";
+}
+
 DataFile::DataFile(const std::string &a_filename, int flags) :
   _flags(flags),
   _actual_filename(a_filename),
   _filename(_actual_filename),
-  _lock_filename(_actual_filename + ".lck"),
+  _lock_filename(lock_name(_actual_filename)),
   _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : -1),
   _open(true)
 {
-- 
2.43.0


From 9581e3acc175f72ce673395a6cd9462ea08c3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 61/61] fix: loading a file again with the same Python object
 used the layout of the previous file

A file without header takes the default layout, but after a file with 64-bit
integers or the other byte order SDF.load() kept that one.
---
 python/sdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/sdf.py b/python/sdf.py
index cc85f9a..fb70e3f 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -61,6 +61,9 @@ class SDF:
     def load(self):
         self.f = self.filename.open('rb')
         self.at_start = True
+        # The file may have another layout than the one loaded before
+        self.long_type = self.int32
+        self.set_endian(sys.byteorder)
         output = {}
         while self.f.readable():
             obj, name = self.load_record()
-- 
2.43.0

