From 0e51aa52825efa970ede228d4f4adc7a14e78ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 01/40] fix: compare the data of both operands in
 TracePoint::operator==

---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index f0365d4..0906469 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -428,7 +428,7 @@ public:
     inline bool operator==(const TracePoint & other) const {
         return m_counter == other.m_counter &&
                m_statement == other.m_statement &&
-               m_data == m_data;
+               m_data == other.m_data;
     }
 
     friend std::size_t hash_value(const TracePoint & tracePoint) {
-- 
2.43.0


From 96e3889105e6da60aa94245f32dbcb2cac6cce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 02/40] fix: predicate cache keys held references to dead query
 objects

---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index ef621e6..0ad0e34 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -505,8 +505,10 @@ public:
 class EvaluatePredicate
 {
 private:
-    const Predicate & m_predicate;
-    const FlyweightTraceVarInfos & m_variables;
+    // Held by value: these objects are keys of a cache
+    // which outlives the query they were created for.
+    const Predicate m_predicate;
+    const FlyweightTraceVarInfos m_variables;
     std::size_t m_hash;
 
     std::size_t computeHash() const {
-- 
2.43.0


From 45ca14a24d1995dd3a6969aa37c3cb7459c01c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 03/40] fix: do not share the auxiliary read buffer between
 threads

---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 0906469..75f92e3 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -291,7 +291,7 @@ private:
 
             case AUXILIARY:
                 {
-                    static uint64_t value;
+                    uint64_t value = 0;
                     BINARY_READ(is, &value, sizeof(value));
                     aux.push_back(value);
                     break;
-- 
2.43.0


From 329c601356e3f12ab8868430fe4aba0f52daeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 04/40] fix: detect end-of-file inside a field when it is read

---
 cffi-interface/trace-db/TracePoint.hpp | 3 ++-
 cffi-interface/trace-db/Utils.hpp      | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 75f92e3..6a3708d 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -262,7 +262,8 @@ private:
 
         while (1) {
             char c = (char) INVALID_TAG;
-            BINARY_READ(is, &c, sizeof(c));
+            CHECK_STREAM(is);
+            is.read(&c, sizeof(c));
             enum trace_entry_tag tag = (trace_entry_tag) c;
 
             if (!is.good() || tag == END_ENTRY) {
diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 4bdc924..5c366f2 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -17,7 +17,7 @@
 
 #include "TraceError.hpp"
 
-#define BINARY_READ(stream, ptr, size)                          \
+#define CHECK_STREAM(stream)                                    \
     do {                                                        \
         if (!stream.good()) {                                   \
             if (stream.eof()) {                                 \
@@ -27,7 +27,13 @@
                 throw TraceError("Trace stream in bad state."); \
             }                                                   \
         }                                                       \
+    } while (0)
+
+#define BINARY_READ(stream, ptr, size)                          \
+    do {                                                        \
+        CHECK_STREAM(stream);                                   \
         stream.read( (char*) ptr, size );                       \
+        CHECK_STREAM(stream);                                   \
     } while (0)
 
 #define BINARY_WRITE(stream, ptr, size)   \
-- 
2.43.0


From 9d49adb5c3ac6ac24885563bd405bd721364ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 05/40] fix: reject a name dictionary without a terminator

---
 cffi-interface/trace-db/Trace.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0337124..9603d59 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -13,6 +13,7 @@
 #include <iterator>
 #include <ostream>
 #include <map>
+#include <memory>
 #include <random>
 #include <string>
 #include <utility>
@@ -53,23 +54,24 @@ private:
         uint64_t n_chars = 0;
         uint32_t n_types = 0;
         uint64_t i = 0;
-        char *buf = NULL;
 
         /* Read dictionary of names */
         BINARY_READ(is, &n_chars, sizeof(n_chars));
         if (n_chars > 0) {
-            buf = new char[n_chars];
-            BINARY_READ(is, buf, n_chars);
+            std::unique_ptr<char[]> buf(new char[n_chars]);
+            BINARY_READ(is, buf.get(), n_chars);
+
+            if (buf[n_chars - 1] != 0) {
+                throw TraceError("Unterminated name dictionary.");
+            }
 
             do {
-                m_names.push_back(std::string(buf + i));
+                m_names.push_back(std::string(buf.get() + i));
                 while (buf[i] != 0) {
                     i++;
                 }
                 i++;
             } while (i < n_chars);
-
-            delete[] buf;
         }
 
         /* Read dictionary of types */
-- 
2.43.0


From 747d363813f3c4736aea7a7ede22ffb3f0f521c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 06/40] fix: reject types whose name is not in the name
 dictionary

---
 cffi-interface/trace-db/Trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 9603d59..682b896 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -79,7 +79,7 @@ private:
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-            TypeDescription type(is);
+            TypeDescription type(is, m_names);
             m_types.push_back(type);
         }
 
-- 
2.43.0


From 7ef302ddd9c4ceed6760cf3f663f982c7a97dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 07/40] fix: reject scalar variables which do not fit in a
 value

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 959f5c6..1d5d17f 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -149,11 +149,17 @@ private:
         case UNSIGNED:
         case FLOAT:
             {
+                if (m_size > sizeof(m_value)) {
+                    throw TraceError("Invalid size for variable.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
             }
             break;
         case POINTER:
             {
+                if (m_size > sizeof(m_value)) {
+                    throw TraceError("Invalid size for variable.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
                 m_buffer_size = map.computeBufferSize(m_value.u);
                 if (m_buffer_size != UINT64_MAX) {
-- 
2.43.0


From bdcaef8edcd27c8302ca1f31f3be152af94e9e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 08/40] fix: initialize the statement id of points read without
 one

---
 cffi-interface/trace-db/TracePoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 6a3708d..5a4b515 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -259,6 +259,7 @@ private:
         Aux aux;
 
         m_counter = counter;
+        m_statement = 0;
 
         while (1) {
             char c = (char) INVALID_TAG;
-- 
2.43.0


From f95b5c641170291aa064c77da9602706f425bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 09/40] fix: ignore the sentinel address when updating the
 memory map

---
 cffi-interface/trace-db/MemoryMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index e4a688a..d92a6c6 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -36,6 +36,10 @@ private:
     }
 
     void skipListRemove(uint64_t key) {
+        // This value is used as a sentinel and can't be used as a key
+        if (key == UINT64_MAX)
+            return;
+
         snode *update[SKIP_LIST_MAX_HEIGHT + 1];
         snode *current = &m_head;
 
@@ -62,6 +66,10 @@ private:
     }
 
     void skipListUpdate(uint64_t key, uint64_t value) {
+        // This value is used as a sentinel and can't be used as a key
+        if (key == UINT64_MAX)
+            return;
+
         snode *existing = skipListFind(key);
         if (existing && existing->key == key) {
             existing->value = value;
-- 
2.43.0


From 8316559f9581808d822bdf4278985661c0e9090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 10/40] fix: report a trace file which can not be opened

---
 cffi-interface/trace-db/Utils.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 5c366f2..84c7c8f 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -7,8 +7,10 @@
 #define __UTILS_HPP
 
 #include <fcntl.h>
+#include <sys/select.h>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
 #include <iostream>
 
@@ -60,6 +62,13 @@ inline boost::iostreams::stream_buffer
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
     int result;
 
+    /* A descriptor beyond FD_SETSIZE can not be passed to select(). */
+    if (fd < 0 || fd >= FD_SETSIZE) {
+        if (fd >= 0)
+            close(fd);
+        throw TraceError(std::string(filename) + " could not be opened.");
+    }
+
     /* Now use select() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-- 
2.43.0


From 04e353759cdc4cef002604306d94da3530157ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 11/40] fix: append auxiliary values in add_trace_points

---
 cffi-interface/trace-db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index b34b717..e732068 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -97,7 +97,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
         Aux aux;
 
         for (uint32_t j = 0; j < c_points[i].n_aux; j++) {
-            aux[j] = c_points[i].aux[j];
+            aux.push_back(c_points[i].aux[j]);
         }
 
         for (uint32_t j = 0; j < c_points[i].n_vars; j++) {
-- 
2.43.0


From eb9d3815e6a81b95aa1fb750d9369169ca77fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 12/40] fix: evaluate double variables as doubles in predicates

---
 cffi-interface/trace-db/QueryObjects.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 0ad0e34..11ec567 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -567,7 +567,9 @@ private:
                 else if (f == POINTER)
                     return PredicateValue(var.getValue().u);
                 else if (f == FLOAT)
-                    return PredicateValue(var.getValue().f);
+                    return var.getSize() == sizeof(double) ?
+                           PredicateValue(var.getValue().d) :
+                           PredicateValue(var.getValue().f);
                 else
                     return PredicateValue();
             }
-- 
2.43.0


From 684aa079c4131fa58c22110f3fa300e53a37f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 13/40] fix: generate one result per point in queries without
 free variables

---
 cffi-interface/trace-db/Trace.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 682b896..0eadda3 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -192,7 +192,8 @@ private:
 
         // Collect all combinations of bindings
         for (auto bindings : cartesian(matching_vars)) {
-            if (current.satisfiesPredicate(hard_predicate, bindings)) {
+            if (!variables.empty() &&
+                current.satisfiesPredicate(hard_predicate, bindings)) {
                 FlyweightTraceVarInfos vars;
 
                 vars.reserve(bindings.size());
-- 
2.43.0


From 60577760c79963db98b10d24fefbe59617bc4b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 14/40] fix: order blob variables by their own contents

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 1d5d17f..92f4192 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -365,11 +365,15 @@ public:
     }
 
     inline bool operator<(const TraceVarInfo & other) const {
-        if (m_format == BLOB and other.m_format == BLOB) {
+        if ((m_format == BLOB) != (other.m_format == BLOB)) {
+            return m_format < other.m_format;
+        }
+        else if (m_format == BLOB) {
             std::vector<char> data({(char*) m_value.ptr,
                                     (char*) m_value.ptr + m_size});
             std::vector<char> otherData({(char*) other.m_value.ptr,
-                                         (char*) other.m_value.ptr + m_size});
+                                         (char*) other.m_value.ptr +
+                                         other.m_size});
             return std::tie(data,
                             m_name_index,
                             m_type_index,
-- 
2.43.0


From 8e5b0dca5e9dcec4eff86938b737d11ace87ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 15/40] fix: print <= and >= predicates

---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 11ec567..82a8130 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -191,9 +191,15 @@ public:
             case LESS_THAN:
                 name = "<";
                 break;
+            case LESS_THAN_OR_EQUAL:
+                name = "<=";
+                break;
             case GREATER_THAN:
                 name = ">";
                 break;
+            case GREATER_THAN_OR_EQUAL:
+                name = ">=";
+                break;
             case EQUAL:
                 name = "=";
                 break;
-- 
2.43.0


From 88b656f3b86a2d474e67cfdb833878c49e5196ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 16/40] fix: write fixed-size blobs and short pointers as they
 are read

---
 cffi-interface/trace-db/Trace.hpp        |  2 +-
 cffi-interface/trace-db/TracePoint.hpp   | 16 +++++++++++++---
 cffi-interface/trace-db/TraceVarInfo.hpp | 18 +++++++++++++++---
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0eadda3..c4aa698 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -118,7 +118,7 @@ private:
         }
 
         for (auto & point : m_points) {
-            os << point;
+            point.write(os, m_types);
         }
 
         return os;
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 5a4b515..36b81f1 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -312,7 +312,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions * types) const {
         os.put(STATEMENT_ID);
         BINARY_WRITE(os, &m_statement, sizeof(m_statement));
 
@@ -323,7 +324,10 @@ private:
 
         for (auto & var : getVars()) {
             os.put(VARIABLE);
-            os << var;
+            if (types)
+                var.get().write(os, *types);
+            else
+                os << var;
         }
 
         for (auto & aux : getAux()) {
@@ -443,9 +447,15 @@ public:
         return seed;
     }
 
+    // Write the point to a trace with the given types.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os, &types);
+    }
+
     friend std::ostream & operator<<(std::ostream & os,
                                      const TracePoint & tracePoint) {
-        return tracePoint.write(os);
+        return tracePoint.write(os, NULL);
     }
 
     template<typename Archive>
diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 92f4192..9267174 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -190,7 +190,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         bool write_blob_size = true) const {
         BINARY_WRITE(os, &m_name_index, sizeof(m_name_index));
         BINARY_WRITE(os, &m_type_index, sizeof(m_type_index));
 
@@ -266,13 +267,15 @@ private:
         case POINTER:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &val, sizeof(val));
+                BINARY_WRITE(os, &val, m_size);
             }
             break;
         case BLOB:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &m_size, sizeof(m_size));
+                if (write_blob_size) {
+                    BINARY_WRITE(os, &m_size, sizeof(m_size));
+                }
                 BINARY_WRITE(os, val, m_size);
             }
             break;
@@ -476,6 +479,15 @@ public:
         return seed;
     }
 
+    // Write the variable to a trace with the given types.  Only the
+    // size of a variable-sized blob is recorded with the value.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os,
+                     m_type_index >= types.size() ||
+                     types[m_type_index].getSize() == 0);
+    }
+
     friend std::ostream & operator<<(std::ostream & os,
                                      const TraceVarInfo & traceVarInfo) {
         return traceVarInfo.write(os);
-- 
2.43.0


From 6024d8a3ce53c3c3cdc9b3fcebd71dcad41d06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 17/40] fix: drop cached points when a trace is deserialized

---
 cffi-interface/trace-db/Trace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index c4aa698..f10448b 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -395,6 +395,7 @@ public:
         ar & n_names;
         ar & n_types;
 
+        m_getpoints_cache.clear();
         m_points.resize(n_points);
         m_names.resize(n_names);
         m_types.resize(n_types);
-- 
2.43.0


From e2bd488d9f69d61a1dd977af37e5e43764405f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 18/40] fix: report blobs which can not be allocated

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 9267174..ff9a498 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -9,6 +9,7 @@
 #define __TRACE_VAR_INFO_HPP
 
 #include <istream>
+#include <new>
 #include <ostream>
 #include <string>
 #include <vector>
@@ -179,6 +180,9 @@ private:
                 }
 
                 m_value.ptr = malloc(m_size);
+                if (m_value.ptr == NULL && m_size > 0) {
+                    throw std::bad_alloc();
+                }
                 BINARY_READ(is, m_value.ptr, m_size);
                 break;
             }
-- 
2.43.0


From a6352106c540d3dd022c1e82cac03b75f7af043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 19/40] fix: reject type formats with the high bit set

The enumeration is promoted to int, so such formats compared as
negative and were accepted.
---
 cffi-interface/trace-db/TypeDescription.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TypeDescription.hpp b/cffi-interface/trace-db/TypeDescription.hpp
index c08b52b..16de8e3 100644
--- a/cffi-interface/trace-db/TypeDescription.hpp
+++ b/cffi-interface/trace-db/TypeDescription.hpp
@@ -55,7 +55,7 @@ private:
         BINARY_READ(is, &m_format, sizeof(m_format));
         BINARY_READ(is, &m_size, sizeof(m_size));
 
-        if (m_format >= INVALID_FORMAT) {
+        if ((uint32_t) m_format >= INVALID_FORMAT) {
             throw TraceError("Invalid type format.");
         }
 
-- 
2.43.0


From b8bd20bdf5cd5de98fc173743e1d6c2e0a02960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:40 +0000
Subject: [PATCH 20/40] fix: quotients which are exact compare as exact in
 predicates

The decimal type divides through an approximate reciprocal, so that
for example (= (/ 300 3) 100) did not hold.  The binary type rounds
correctly.
---
 cffi-interface/trace-db/QueryObjects.hpp | 36 ++++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 82a8130..cc22534 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -15,7 +15,7 @@
 
 #include <boost/functional/hash.hpp>
 #include <boost/multiprecision/cpp_int.hpp>
-#include <boost/multiprecision/cpp_dec_float.hpp>
+#include <boost/multiprecision/cpp_bin_float.hpp>
 
 #include "TraceVarInfo.hpp"
 
@@ -320,7 +320,7 @@ private:
     union PredicateValueData
     {
         boost::multiprecision::cpp_int* cpp_int;
-        boost::multiprecision::cpp_dec_float_50* cpp_float;
+        boost::multiprecision::cpp_bin_float_50* cpp_float;
 
         PredicateValueData() {
             memset(this, 0, sizeof(PredicateValueData));
@@ -330,7 +330,7 @@ private:
             cpp_int = val;
         }
 
-        PredicateValueData(boost::multiprecision::cpp_dec_float_50* val) {
+        PredicateValueData(boost::multiprecision::cpp_bin_float_50* val) {
             cpp_float = val;
         }
     };
@@ -352,7 +352,7 @@ private:
         else {
             return float_operation<ReturnType>(
                        other,
-                       Operation<boost::multiprecision::cpp_dec_float_50>());
+                       Operation<boost::multiprecision::cpp_bin_float_50>());
         }
     }
 
@@ -366,15 +366,15 @@ private:
     template<class ReturnType, class Operation>
     ReturnType float_operation(const PredicateValue & other,
                                const Operation & op) const {
-        boost::multiprecision::cpp_dec_float_50 lhs =
+        boost::multiprecision::cpp_bin_float_50 lhs =
             m_kind != CPP_FLOAT ?
             m_value.cpp_int->convert_to<
-                boost::multiprecision::cpp_dec_float_50>() :
+                boost::multiprecision::cpp_bin_float_50>() :
             *m_value.cpp_float;
-        boost::multiprecision::cpp_dec_float_50 rhs =
+        boost::multiprecision::cpp_bin_float_50 rhs =
             other.m_kind != CPP_FLOAT ?
             other.m_value.cpp_int->convert_to<
-                boost::multiprecision::cpp_dec_float_50>() :
+                boost::multiprecision::cpp_bin_float_50>() :
             *other.m_value.cpp_float;
 
         return ReturnType(op(lhs, rhs));
@@ -398,7 +398,7 @@ public:
         }
         else {
             m_value.cpp_float =
-                new boost::multiprecision::cpp_dec_float_50(
+                new boost::multiprecision::cpp_bin_float_50(
                     *other.m_value.cpp_float);
         }
     }
@@ -409,10 +409,10 @@ public:
         m_value(new boost::multiprecision::cpp_int(val))
     {}
 
-    explicit PredicateValue(const boost::multiprecision::cpp_dec_float_50 & val) :
+    explicit PredicateValue(const boost::multiprecision::cpp_bin_float_50 & val) :
         m_is_valid(true),
         m_kind(CPP_FLOAT),
-        m_value(new boost::multiprecision::cpp_dec_float_50(val))
+        m_value(new boost::multiprecision::cpp_bin_float_50(val))
     {}
 
     explicit PredicateValue(uint64_t val) :
@@ -430,13 +430,13 @@ public:
     explicit PredicateValue(double val) :
         m_is_valid(true),
         m_kind(CPP_FLOAT),
-        m_value(new boost::multiprecision::cpp_dec_float_50(val))
+        m_value(new boost::multiprecision::cpp_bin_float_50(val))
     {}
 
     explicit PredicateValue(float val) :
         m_is_valid(true),
         m_kind(CPP_FLOAT),
-        m_value(new boost::multiprecision::cpp_dec_float_50(val))
+        m_value(new boost::multiprecision::cpp_bin_float_50(val))
     {}
 
     ~PredicateValue() {
@@ -491,17 +491,17 @@ public:
             return PredicateValue();
         }
         else {
-            boost::multiprecision::cpp_dec_float_50 lhs =
+            boost::multiprecision::cpp_bin_float_50 lhs =
                 m_kind != CPP_FLOAT ?
                 m_value.cpp_int->convert_to<
-                    boost::multiprecision::cpp_dec_float_50>() :
+                    boost::multiprecision::cpp_bin_float_50>() :
                 *m_value.cpp_float;
-            boost::multiprecision::cpp_dec_float_50 rhs =
+            boost::multiprecision::cpp_bin_float_50 rhs =
                 other.m_kind != CPP_FLOAT ?
                 other.m_value.cpp_int->convert_to<
-                    boost::multiprecision::cpp_dec_float_50>() :
+                    boost::multiprecision::cpp_bin_float_50>() :
                 *other.m_value.cpp_float;
-            boost::multiprecision::cpp_dec_float_50 result(lhs/rhs);
+            boost::multiprecision::cpp_bin_float_50 result(lhs/rhs);
 
             return PredicateValue(result);
         }
-- 
2.43.0


From 8ff5bf4e1566d19b476dae237d17d9ce3d690350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:05 +0000
Subject: [PATCH 21/40] fix: close the parenthesis of predicates without
 operands when printing

---
 cffi-interface/trace-db/QueryObjects.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index cc22534..7e80098 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -227,6 +227,8 @@ public:
                 writePredicate(os, children[i], indent, i != 0);
                 os << ((i == children.size() - 1) ? ")" : "\n");
             }
+            if (children.empty())
+                os << ")";
         }
 
         if (indent == 0)
-- 
2.43.0


From ba3664d9d65246c9999e1b9f4620fa1c5e6c98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:57 +0000
Subject: [PATCH 22/40] fix: let the handshake of an instrumented program see a
 name written late

The setup code reads the handshake file in a loop until it gets a line.
The end-of-file indicator of the stream is sticky (C99, glibc since 2.28),
so once the program had looked at the file before the collector wrote
the name, it never saw the name and waited for ever.  Clear the indicator
before reading again.
---
 instrumentation/c-cpp.lisp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 1f29837..98c644b 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -318,7 +318,8 @@ void __attribute__((constructor(101))) __bi_setup() {
   if (handshake_file_path) {
     while (access(handshake_file_path, 0) != 0) { sleep(1); }
     handshake_file = fopen(handshake_file_path, \"r\");
-    do { sleep(1); } while (fgets(buffer, 1024, handshake_file) == NULL);
+    do { sleep(1); clearerr(handshake_file); }
+    while (fgets(buffer, 1024, handshake_file) == NULL);
     buffer[strcspn(buffer, \"\\n\")] = 0;
     fclose(handshake_file);
     unlink(handshake_file_path);
-- 
2.43.0


From 39f85cce6c6ea004edd78194d75fe1174cf5824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 23/40] fix: keep the metadata of added trace points with their
 trace

ADD-TRACE-POINTS appends the trace to the database but pushed the metadata
at the front of the list, so every trace got the metadata of another one.
---
 binary-trace-db.lisp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 9dc5e27..3def404 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -355,7 +355,8 @@ the results."
       (length trace)
       (create-foreign-array :string (coerce names 'vector))
       (length names))
-    (push metadata (trace-metadata db))))
+    (setf (trace-metadata db)
+          (append (trace-metadata db) (list metadata)))))
 
 (defmethod trace-types ((db binary-trace-db) (index integer))
   "Return the type names from the header of the trace at INDEX in DB."
-- 
2.43.0


From b98a8a98cf4c02711244a008284a696a3d30657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 24/40] fix: query-trace by file must not match points without
 a file

The mask left out the flag bit which says that a statement id has a file
id, so points without one were taken to be in file 0 (GET-TRACE tells them
apart).
---
 binary-trace-db.lisp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 3def404..ed35f91 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -570,11 +570,15 @@ the results."
                               (if pick (random (expt 2 32)) 0)
                               (if filter 1 0)
                               (if file-id
-                                  (ash (1- (ash 1 +trace-id-file-bits+))
-                                       +trace-id-statement-bits+)
+                                  (logior
+                                   (ash 1 63)
+                                   (ash (1- (ash 1 +trace-id-file-bits+))
+                                        +trace-id-statement-bits+))
                                   0)
                               (if file-id
-                                  (ash file-id +trace-id-statement-bits+)
+                                  (logior
+                                   (ash 1 63)
+                                   (ash file-id +trace-id-statement-bits+))
                                   0)
                               results-ptr
                               n-results-ptr)
-- 
2.43.0


From 80591c1d1769306a4665e70e9f587e6f8f9d9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 25/40] fix: pick a point whatever the random seed is

A seed of 0 means that no point is picked, so query-trace with PICK
returned the results of all points once in 2^32 calls.
---
 binary-trace-db.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index ed35f91..13cb89b 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -567,7 +567,7 @@ the results."
                               predicate-ptr
                               soft-predicate-array
                               (length soft-predicate-ptrs)
-                              (if pick (random (expt 2 32)) 0)
+                              (if pick (1+ (random (1- (expt 2 32)))) 0)
                               (if filter 1 0)
                               (if file-id
                                   (logior
-- 
2.43.0


From e8f0c1f472c503bb35a17437208bf9c841d3882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:42 +0000
Subject: [PATCH 26/40] fix: bindings which differ in case are not duplicates

EQUALP compares strings without regard to case, so with a filter query-trace
dropped the binding of a variable X as a duplicate of one of x.
---
 binary-trace-db.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 13cb89b..7cdb85f 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -597,7 +597,7 @@ the results."
                                                                 :uint64)
                                                        :filter filter)
                                  :key #'get-statement-and-bindings
-                                 :test #'equalp)
+                                 :test #'equal)
                                ;; No filter, results are deduplicated
                                ;; on the C-side of the query interface.
                                (convert-trace-points trace-ptr
-- 
2.43.0


From c7372feeb7f7c4981955fa239df0be146f389b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:01 +0000
Subject: [PATCH 27/40] fix: free the trace read by read-binary-trace

Its points have been converted by then; the foreign object was leaked.
---
 binary-trace-db.lisp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 7cdb85f..d59bfdd 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -209,9 +209,11 @@ the results."
   (load-libtrace-db)
   (let ((trace-ptr (c-read-trace file timeout max-trace-points)))
     (unless (null-pointer-p trace-ptr)
-      (convert-trace-points trace-ptr
-                            (c-get-points trace-ptr)
-                            (c-trace-size trace-ptr)))))
+      (prog1
+        (convert-trace-points trace-ptr
+                              (c-get-points trace-ptr)
+                              (c-trace-size trace-ptr))
+        (c-free-trace trace-ptr)))))
 
 
 ;;; Trace DB interface
-- 
2.43.0


From dea7cab1c3e6e9f2442a93b6b178f6eefb5d0230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:12 +0000
Subject: [PATCH 28/40] fix: bindings which differ in case are not duplicates
 (s-expressions)

EQUALP compares strings without regard to case, so query-trace dropped the
binding of a variable X as a duplicate of one of x.
---
 sexp-trace-db.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sexp-trace-db.lisp b/sexp-trace-db.lisp
index fce3178..207a659 100644
--- a/sexp-trace-db.lisp
+++ b/sexp-trace-db.lisp
@@ -174,7 +174,7 @@ KWARGS are passed on to the OPEN call."
             (remove-duplicate-statement-and-bindings (query-results)
               (remove-duplicates query-results
                                  :key #'get-statement-and-bindings
-                                 :test #'equalp)))
+                                 :test #'equal)))
     (when-let* ((trace (nth index (traces db))))
       (cons (cons :results
                   (if pick
-- 
2.43.0


From 9493a9647a60b52e22357f0d0645845d46d2de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:16 +0000
Subject: [PATCH 29/40] fix: let query-trace of the s-expression database
 observe FILE-ID

The documentation of query-trace restricts the search to trace points in
this file; the argument was ignored.
---
 sexp-trace-db.lisp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sexp-trace-db.lisp b/sexp-trace-db.lisp
index 207a659..a28e1ac 100644
--- a/sexp-trace-db.lisp
+++ b/sexp-trace-db.lisp
@@ -154,7 +154,7 @@ KWARGS are passed on to the OPEN call."
 (defmethod query-trace ((db sexp-trace-db) index var-names var-types
                          &key pick file-id predicate soft-predicates
                            (filter (constantly t)))
-  (declare (ignorable file-id var-names predicate))
+  (declare (ignorable var-names predicate))
   (assert (null soft-predicates)
           nil "SOFT-PREDICATES are not supported by SEXP-TRACE-DB")
   (labels ((satisfying-assignments-at-point (pt)
@@ -175,7 +175,8 @@ KWARGS are passed on to the OPEN call."
               (remove-duplicates query-results
                                  :key #'get-statement-and-bindings
                                  :test #'equal)))
-    (when-let* ((trace (nth index (traces db))))
+    (when-let* ((trace (cdr (assoc :trace
+                                   (get-trace db index :file-id file-id)))))
       (cons (cons :results
                   (if pick
                       (nest (remove-duplicate-statement-and-bindings)
-- 
2.43.0


From 8cf8b88867596300b0e5453d82d2f9766f5f2f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:37 +0000
Subject: [PATCH 30/40] fix: collect-traces signalled an error for every test
 case left over once num-traces traces were collected

---
 traceable.lisp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traceable.lisp b/traceable.lisp
index 4ed1a67..f6915f3 100644
--- a/traceable.lisp
+++ b/traceable.lisp
@@ -124,10 +124,12 @@ was already in place then leave it alone."
             (setf (traces obj) nil)
             (return-from collect-traces (traces obj))))
       (reset-traces obj)
-      (mapc (lambda (test-case)
-              (apply #'collect-test-case-traces obj test-case
-                     :num-traces (- num-traces (n-traces (traces obj)))
-                     args))
+      (mapc (lambda (test-case
+                     &aux (remaining (- num-traces (n-traces (traces obj)))))
+              (when (plusp remaining)
+                (apply #'collect-test-case-traces obj test-case
+                       :num-traces remaining
+                       args)))
             (test-cases test-suite)))
     (traces obj)))
 
-- 
2.43.0


From 7ca66a344942aab07ac2dd97290fddb762231a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:24 +0000
Subject: [PATCH 31/40] fix: collect-test-case-traces of a sexp-traceable left
 the test process behind when there was no trace

---
 traceable.lisp | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/traceable.lisp b/traceable.lisp
index f6915f3..acc757c 100644
--- a/traceable.lisp
+++ b/traceable.lisp
@@ -246,23 +246,24 @@ times.
                                 :output nil
                                 :error-output nil
                                 :wait nil)))
-          (restart-case
-              (unless (add-trace (traces obj)
-                                 pipe
-                                 *trace-open-timeout*
-                                 (list (cons :input
-                                             (cons (program-name test-case)
-                                                   (program-args test-case))))
-                                 :max-trace-points max-trace-points)
-                ;; This usually indicates a problem with the
-                ;; test script or the instrumentation
-                (error (make-condition 'trace-error
-                         :text (fmt "No traces collected for test case ~s ~s."
-                                    test-case
-                                    (cons (program-name test-case)
-                                          (program-args test-case)))
-                         :obj test-case
-                         :bin bin)))
-            (ignore-empty-trace ()
-              :report "Ignore empty trace"))
-          (finish-test proc))))))
+          (unwind-protect
+              (restart-case
+                  (unless (add-trace (traces obj)
+                                     pipe
+                                     *trace-open-timeout*
+                                     (list (cons :input
+                                                 (cons (program-name test-case)
+                                                       (program-args test-case))))
+                                     :max-trace-points max-trace-points)
+                    ;; This usually indicates a problem with the
+                    ;; test script or the instrumentation
+                    (error (make-condition 'trace-error
+                             :text (fmt "No traces collected for test case ~s ~s."
+                                        test-case
+                                        (cons (program-name test-case)
+                                              (program-args test-case)))
+                             :obj test-case
+                             :bin bin)))
+                (ignore-empty-trace ()
+                  :report "Ignore empty trace"))
+            (finish-test proc)))))))
-- 
2.43.0


From a2c57c55b324a68ed555c1e74032a848b5770414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:39 +0000
Subject: [PATCH 32/40] fix: trace statements whose text starts with an
 identifier like else_count

Only the keyword marks a misidentified if clause.
---
 instrumentation/c-cpp.lisp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 98c644b..4c3c139 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -666,8 +666,7 @@ traceable children."
                                   '("struct" "enum" "class" "namespace")
                                   :test #'equal)))))
            (misidentified-if-clause-p (ast)
-             (or (starts-with-subseq "else if" (source-text ast))
-                 (starts-with-subseq "else" (source-text ast)))))
+             (not (null (scan "^else\\b" (source-text ast))))))
     (or (misidentified-function-p parents)
         (misidentified-if-clause-p ast))))
 
-- 
2.43.0


From 92274e6765fee5a2eb584f2426cb513421aca423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:39 +0000
Subject: [PATCH 33/40] fix: do not take char ** and arrays of char arrays for
 C strings

---
 instrumentation/c-cpp.lisp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 4c3c139..8424608 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -929,7 +929,8 @@ Returns a list of strings containing C source code.")
            "Is TYPE a C string type?"
            (let ((name (base-typename type)))
              (and (string= name "char")
-                  (xor (array-type-p type) (pointer-type-p type)))))
+                  (length= 1 (declarator type))
+                  (or (array-type-p type) (pointer-type-p type)))))
          (cpp-string-type-p (type)
            "Is TYPE a C++ string type?"
            (let ((name (base-typename type)))
-- 
2.43.0


From 0a406c0d7c6ab71df98db9d324904c8105a2fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:39 +0000
Subject: [PATCH 34/40] fix: do not take the length of a null C string in an
 instrumented program

---
 instrumentation/c-cpp.lisp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 8424608..a0b2b2f 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -1009,8 +1009,8 @@ Returns a list of strings containing C source code.")
                   (cond
                     ;; C string
                     ((and print-strings (c-string-type-p type))
-                     (collect (fmt "~d, ~d, strlen(~a), ~a"
-                                   name-index type-index name name)
+                     (collect (fmt "~d, ~d, ~a ? strlen(~a) : 0, ~a"
+                                   name-index type-index name name name)
                        into blob-args))
 
                     ;; C++ string
-- 
2.43.0


From 3063ba27f171dda76ccd9bf016cc279537fb8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:13 +0000
Subject: [PATCH 35/40] fix: wrap a traced statement whose label is a hanging
 body

With a filter that leaves the label out, the label was not wrapped in a
compound statement, and only the first of the instrumentation statements
was part of the body: the traced statement always ran.
---
 instrumentation/c-cpp.lisp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index a0b2b2f..8587538 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -630,6 +630,9 @@ but which could be made traceable by wrapping with curly braces, return that.")
                    ((typep parent 'c/cpp-if-statement)
                     (or (eq ast (c/cpp-alternative parent))
                         (eq ast (c/cpp-consequence parent))))
+                   ((typep parent 'c/cpp-labeled-statement)
+                    (and (traceable-stmt-ast-type-p obj ast)
+                         (hanging-label-p (get-parent-asts* obj ast))))
                    (:otherwise nil)))
            (not (possibly-incomplete-ast-p obj ast)))))
 
@@ -652,9 +655,19 @@ traceable children."
   (let ((parents (get-parent-asts* obj ast)))
     (and (member (car parents) +traceable-parent-types+ :test #'typep)
          (some (of-type 'compound-ast) parents)
+         (not (hanging-label-p parents))
          (not (misidentified-ast-p ast parents))
          (not (possibly-incomplete-ast-p obj (car parents))))))
 
+(-> hanging-label-p (list) (values boolean &optional))
+(defun hanging-label-p (parents)
+  "Return non-NIL if the first of PARENTS is a label in a hanging body, which
+leaves room for a single statement."
+  (and (typep (car parents) 'c/cpp-labeled-statement)
+       (let ((holder (find-if-not (of-type 'c/cpp-labeled-statement) parents)))
+         (or (typep holder 'loop-ast)
+             (typep holder 'c/cpp-if-statement)))))
+
 (-> misidentified-ast-p (ast list) (values boolean &optional))
 (defun misidentified-ast-p (ast parents)
   "Return non-NIL if AST is misidentified by tree-sitter and not traceable."
-- 
2.43.0


From cd48cc05046825a9327c582ca652b17b863446f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:05 +0000
Subject: [PATCH 36/40] fix: quote the name of the environment variable given
 as :trace-env

---
 instrumentation/c-cpp.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 8587538..9bb498c 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -1095,7 +1095,7 @@ Returns a list of strings containing C source code.")
                ((eq file-name :stderr) "stderr")
                ((eq file-name :stdout) "stdout")
                (file-name (fmt "fopen(~s, \"w\")" (namestring file-name)))
-               ((stringp env-name) (fmt "fopen(getenv(~a), \"w\")" env-name))
+               ((stringp env-name) (fmt "fopen(getenv(~s), \"w\")" env-name))
                (t (fmt "fopen(buffer, \"w\")"))))
            (sort-names-alist (names-alist)
              (sort names-alist #'< :key #'cdr))
-- 
2.43.0


From 6dc928472fc7cad398c9c85936a8adde43dadb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:20 +0000
Subject: [PATCH 37/40] fix: keep apart names which differ in case in the
 dictionary of a project

---
 instrumentation/c-cpp.lisp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 9bb498c..978173e 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -550,9 +550,9 @@ Creates a C/CPP-INSTRUMENTER for OBJ and calls its instrument method.
                      :key #'cdr)))
 
 (defmethod instrument ((c/cpp-project c/cpp-project) &rest args
-    &aux (names (make-thread-safe-hash-table :test #'equalp))
-         (types (make-thread-safe-hash-table :test #'equalp))
-         (type-descriptions (make-thread-safe-hash-table :test #'equalp))
+    &aux (names (make-thread-safe-hash-table :test #'equal))
+         (types (make-thread-safe-hash-table :test #'equal))
+         (type-descriptions (make-thread-safe-hash-table :test #'equal))
          (files (instrumentation-files c/cpp-project))
          (num-threads (or (plist-get :num-threads args) 0)))
   "Instrument C/CPP-PROJECT to print AST index before each full statement.
-- 
2.43.0


From 078698b6f58447137715b68a19895b88d569f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:20 +0000
Subject: [PATCH 38/40] fix: two files instrumented in parallel could give
 different names or types the same index

The lookup in the dictionary and the insertion of a new entry were
separate steps.
---
 instrumentation/c-cpp.lisp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 978173e..7a9ce6c 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -985,9 +985,11 @@ Returns a list of strings containing C source code.")
                ;; Otherwise no instrumentation
                (t '(nil nil)))))
          (get-name-index (name)
-           (or (gethash name (names instrumenter))
-               (setf (gethash name (names instrumenter))
-                     (hash-table-count (names instrumenter)))))
+           ;; The dictionaries are shared by the threads instrumenting a project.
+           (synchronized ((names instrumenter))
+             (or (gethash name (names instrumenter))
+                 (setf (gethash name (names instrumenter))
+                       (hash-table-count (names instrumenter))))))
          (type-description-struct (c-type format size)
            (fmt "{~a, ~a, ~a}"
                 (get-name-index c-type)
@@ -997,13 +999,14 @@ Returns a list of strings containing C source code.")
            (let* ((c-type (type-trace-string type))
                   (type-id (cons (and print-strings (string-type-p type))
                                  c-type)))
-             (or (gethash type-id (types instrumenter))
-                 (progn
-                   ;; Adding new type: generate header string
-                   (setf (gethash type-id (type-descriptions instrumenter))
-                         (type-description-struct c-type format size))
-                   (setf (gethash type-id (types instrumenter))
-                         (hash-table-count (types instrumenter)))))))
+             (synchronized ((types instrumenter))
+               (or (gethash type-id (types instrumenter))
+                   (progn
+                     ;; Adding new type: generate header string
+                     (setf (gethash type-id (type-descriptions instrumenter))
+                           (type-description-struct c-type format size))
+                     (setf (gethash type-id (types instrumenter))
+                           (hash-table-count (types instrumenter))))))))
          (make-instrumentation-function-call (function-name function-args)
            (when function-args
              (nest (create-instrumentation-ast (language-ast-class software))
-- 
2.43.0


From 225b9d5e059511724b6d0434df4606479a44ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:01 +0000
Subject: [PATCH 39/40] fix: run an instrumented program whose trace file
 cannot be opened

The variable given as :trace-env need not be set, and the directory of the
trace file may be gone; writing the header then crashed the program.
---
 instrumentation/c-cpp.lisp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 7a9ce6c..f8f0b1f 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -326,6 +326,9 @@ void __attribute__((constructor(101))) __bi_setup() {
   }
 
   " +trace-instrument-log-variable-name+ " = ~a;
+  if (!" +trace-instrument-log-variable-name+ ") {
+    " +trace-instrument-log-variable-name+ " = fopen(\"/dev/null\", \"w\");
+  }
   " +instrument-log-lock-variable-name+ " = &__static_lock;
   ~a;
   ~a;
-- 
2.43.0


From 336dcf74c0365974bab1ae4605f9524d791bef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:25 +0000
Subject: [PATCH 40/40] fix: uninstrument the files of a project that only got
 the setup code

The file with main may be one of the other-files; its setup code stayed, and
instrumenting the project again defined __bi_setup twice.
---
 instrumentation/c-cpp.lisp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index f8f0b1f..9514380 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -608,6 +608,13 @@ Creates a C/CPP-INSTRUMENTER for OBJ and calls its instrument method.
 
   c/cpp-project)
 
+(defmethod uninstrument :after ((c/cpp-project c/cpp-project) &key num-threads)
+  "Remove the log setup code from the other-files with an entry point."
+  (declare (ignorable num-threads))
+  (iter (for obj in (mapcar #'cdr (other-files c/cpp-project)))
+        (when (contains-main-p obj)
+          (uninstrument obj))))
+
 
 ;;; Tracing functions
 (defgeneric enclosing-traceable-stmt (software ast)
-- 
2.43.0

