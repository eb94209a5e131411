From d0f02976910af7b9a7a6faadc08d70ce43531c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:57 +0000
Subject: [PATCH 01/55] fix: blueprint matset verify returned true when
 volume_fractions failed its check

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f801220..55962a5 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6260,6 +6260,12 @@ mesh::matset::verify(const Node &matset,
             res &= vfs_res;
             log::validation(vfs_info, vfs_res);
         }
+        else
+        {
+            // 'volume_fractions' has a supported type, but failed its check
+            // (for example: an object without any children)
+            res &= vfs_res &= false;
+        }
     }
 
     if(!mat_map_is_optional && !matset.has_child("material_map"))
-- 
2.43.0


From e45483457b2323e47acbbb50776489320d3b3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:57 +0000
Subject: [PATCH 02/55] fix: mlarray verify never recorded validity on its info
 node

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index 3f31c7d..208613e 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -434,6 +434,8 @@ bool verify(const conduit::Node &n,
         res = false;
     }
 
+    log::validation(info,res);
+
     return res;
 }
 
-- 
2.43.0


From ab2018c36f0b2fc9be4e996410141d9e770a5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:57 +0000
Subject: [PATCH 03/55] fix: blueprint verify of an unknown nested protocol
 recorded no validity

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 5 +++++
 src/libs/blueprint/conduit_blueprint_mpi.cpp  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 55962a5..d3937e1 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -1926,6 +1926,11 @@ mesh::verify(const std::string &protocol,
     {
         res = nestset::index::verify(n,info);
     }
+    else
+    {
+        // not a known nested protocol
+        log::validation(info,false);
+    }
 
     return res;
 }
diff --git a/src/libs/blueprint/conduit_blueprint_mpi.cpp b/src/libs/blueprint/conduit_blueprint_mpi.cpp
index 18ee6c7..eb5a122 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi.cpp
@@ -19,6 +19,7 @@
 //-----------------------------------------------------------------------------
 #include "conduit_blueprint.hpp"
 #include "conduit_blueprint_mpi.hpp"
+#include "conduit_log.hpp"
 
 
 //-----------------------------------------------------------------------------
@@ -88,6 +89,11 @@ verify(const std::string &protocol,
     {
         res = conduit::blueprint::mpi::mesh::verify(n,info,comm);
     }
+    else
+    {
+        // not a known protocol
+        conduit::utils::log::validation(info,false);
+    }
 
     return res;
 }
-- 
2.43.0


From ff1af1c5db70267498a3b6dba3a17319799d6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:44 +0000
Subject: [PATCH 04/55] fix: Node::diff with relaxed integers compared only the
 first element

Integer arrays of different widths were compared by their first element only,
so differing lengths or values after the first went unreported.
---
 src/libs/conduit/conduit_node.cpp | 58 ++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d166625..8efe9d0 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17830,6 +17830,48 @@ Node::find_first_data_ptr() const
     return res;
 }
 
+//---------------------------------------------------------------------------//
+// compares the elements of two integer leaves with different types.
+// if `compatible` is set, `b` may have more elements than `a`.
+static bool
+relaxed_integer_diff(const Node &a, const Node &b, bool compatible)
+{
+    const index_t a_nelems = a.dtype().number_of_elements();
+    const index_t b_nelems = b.dtype().number_of_elements();
+
+    if(compatible ? a_nelems > b_nelems : a_nelems != b_nelems)
+    {
+        return true;
+    }
+
+    if(a.dtype().is_unsigned_integer() && b.dtype().is_unsigned_integer())
+    {
+        const uint64_accessor a_vals = a.as_uint64_accessor();
+        const uint64_accessor b_vals = b.as_uint64_accessor();
+        for(index_t i = 0; i < a_nelems; i++)
+        {
+            if(a_vals[i] != b_vals[i])
+            {
+                return true;
+            }
+        }
+    }
+    else
+    {
+        const int64_accessor a_vals = a.as_int64_accessor();
+        const int64_accessor b_vals = b.as_int64_accessor();
+        for(index_t i = 0; i < a_nelems; i++)
+        {
+            if(a_vals[i] != b_vals[i])
+            {
+                return true;
+            }
+        }
+    }
+
+    return false;
+}
+
 //---------------------------------------------------------------------------//
 bool
 Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) const
@@ -17846,12 +17888,8 @@ Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) cons
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = relaxed_integer_diff(*this, n, false);
             else
                 res = true;
         }
@@ -18034,12 +18072,8 @@ Node::diff_compatible(const Node &n, Node &info, const float64 epsilon,
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = relaxed_integer_diff(*this, n, true);
             else
                 res = true;
         }
-- 
2.43.0


From 200986268089e3d1a4968128a1f571851e20d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 05/55] fix: diff reported no difference between nan and a
 number

---
 src/libs/conduit/conduit_data_array.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index ababf48..e539997 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -248,6 +248,9 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // nan vs number yields a nan difference, which
+                // compares false above
+                res |= ((*this)[i] != (*this)[i]) != (array[i] != array[i]);
             }
             else
             {
@@ -423,6 +426,9 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // nan vs number yields a nan difference, which
+                // compares false above
+                res |= ((*this)[i] != (*this)[i]) != (array[i] != array[i]);
             }
             else
             {
-- 
2.43.0


From ba1e9c2dcc442fc103004227dd634690b8bf9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:06 +0000
Subject: [PATCH 06/55] fix: adjset verify accepted windows whose dims/ratio
 disagree in dimension with origin

The expected number of children was passed as the allow_empty argument.
---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index d3937e1..0ac04a7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6792,10 +6792,10 @@ mesh::adjset::verify(const Node &adjset,
                         index_t window_dim = wndw["origin"].number_of_children();
                         window_res &= !wndw.has_child("dims") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "dims", false, window_dim);
+                                wndw_info, "dims", false, false, window_dim);
                         window_res &= !wndw.has_child("ratio") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "ratio", false, window_dim);
+                                wndw_info, "ratio", false, false, window_dim);
                     }
 
                     log::validation(wndw_info,window_res);
-- 
2.43.0


From bb4c6d8e790b4f77a7641e25885210277ba463fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:43 +0000
Subject: [PATCH 07/55] fix: adjset verify recorded a group with a failed
 window as valid

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 0ac04a7..4994916 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6803,7 +6803,7 @@ mesh::adjset::verify(const Node &adjset,
                 }
 
                 log::validation(chld_info["windows"],windows_res);
-                res &= windows_res;
+                group_res &= windows_res;
 
                 if(chld.has_child("orientation"))
                 {
-- 
2.43.0


From 528a529a10ac97833339fd8cd48f09eefcd00897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:56 +0000
Subject: [PATCH 08/55] fix: setting a node from an array copies the source's
 number of elements

A node that already holds a longer array of the same type is reused by init();
copying the destination's element count read past the end of the source.
---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 8efe9d0..65e3166 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -937,7 +937,7 @@ Node::set_int8_array(const int8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -959,7 +959,7 @@ Node::set_int16_array(const int16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -981,7 +981,7 @@ Node::set_int32_array(const int32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1003,7 +1003,7 @@ Node::set_int64_array(const int64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1029,7 +1029,7 @@ Node::set_uint8_array(const uint8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1051,7 +1051,7 @@ Node::set_uint16_array(const uint16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1073,7 +1073,7 @@ Node::set_uint32_array(const uint32_array  &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1095,7 +1095,7 @@ Node::set_uint64_array(const uint64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1120,7 +1120,7 @@ Node::set_float32_array(const float32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1142,7 +1142,7 @@ Node::set_float64_array(const float64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1168,7 +1168,7 @@ Node::set(const char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1188,7 +1188,7 @@ Node::set(const signed_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1204,7 +1204,7 @@ Node::set(const unsigned_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1224,7 +1224,7 @@ Node::set(const short_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1239,7 +1239,7 @@ Node::set(const unsigned_short_array&data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1259,7 +1259,7 @@ Node::set(const int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1274,7 +1274,7 @@ Node::set(const unsigned_int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1294,7 +1294,7 @@ Node::set(const long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1309,7 +1309,7 @@ Node::set(const unsigned_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1329,7 +1329,7 @@ Node::set(const long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1344,7 +1344,7 @@ Node::set(const unsigned_long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1364,7 +1364,7 @@ Node::set(const float_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1384,7 +1384,7 @@ Node::set(const double_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
-- 
2.43.0


From 4134d7f8269156d2c22c783e6ceb3935a9f79bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:44 +0000
Subject: [PATCH 09/55] fix: setting a node from a vector or initializer list
 honours the destination stride

init() keeps a compatible strided destination; a flat memcpy then wrote the
elements contiguously, leaving the node with the wrong values.
---
 src/libs/conduit/conduit_node.cpp | 414 ++++++++++++++++++++----------
 1 file changed, 276 insertions(+), 138 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 65e3166..b946256 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1495,9 +1495,12 @@ void
 Node::set_int8_vector(const std::vector<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int8),              // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(int8));             // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1512,9 +1515,12 @@ void
 Node::set_int16_vector(const std::vector<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int16),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(int16));            // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1529,9 +1535,12 @@ void
 Node::set_int32_vector(const std::vector<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int32),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(int32));            // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1546,9 +1555,12 @@ void
 Node::set_int64_vector(const std::vector<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int64),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(int64));            // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1567,9 +1579,12 @@ void
 Node::set_uint8_vector(const std::vector<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint8),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(uint8));            // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1584,9 +1599,12 @@ void
 Node::set_uint16_vector(const std::vector<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint16),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(uint16));           // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1601,9 +1619,12 @@ void
 Node::set_uint32_vector(const std::vector<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint32),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(uint32));           // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1618,9 +1639,12 @@ void
 Node::set_uint64_vector(const std::vector<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint64),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(uint64));           // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1639,9 +1663,12 @@ void
 Node::set_float32_vector(const std::vector<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(float32),           // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(float32));          // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1657,9 +1684,12 @@ void
 Node::set_float64_vector(const std::vector<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(float64),           // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(float64));          // src stride per ele
 }
 
 //---------------------------------------------------------------------------//
@@ -1679,9 +1709,12 @@ void
 Node::set(const std::vector<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(char),              // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(char));             // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1691,9 +1724,12 @@ void
 Node::set(const std::vector<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(signed char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(signed char),       // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(signed char));      // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1701,9 +1737,12 @@ void
 Node::set(const std::vector<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned char),     // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(unsigned char));    // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use char check
@@ -1716,9 +1755,12 @@ void
 Node::set(const std::vector<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(short),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(short));            // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1726,9 +1768,12 @@ void
 Node::set(const std::vector<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned short),    // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(unsigned short));   // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use short check
@@ -1741,9 +1786,12 @@ void
 Node::set(const std::vector<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int),               // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(int));              // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1751,9 +1799,12 @@ void
 Node::set(const std::vector<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned int),      // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(unsigned int));     // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use int check
@@ -1766,9 +1817,12 @@ void
 Node::set(const std::vector<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(long),              // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(long));             // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1776,9 +1830,12 @@ void
 Node::set(const std::vector<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned long),     // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(unsigned long));    // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use long check
@@ -1791,9 +1848,12 @@ void
 Node::set(const std::vector<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(long long),         // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(long long));        // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1801,9 +1861,12 @@ void
 Node::set(const std::vector<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned long long), // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(unsigned long long)); // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use long long check
@@ -1816,9 +1879,12 @@ void
 Node::set(const std::vector<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(float),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(float));            // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -1831,9 +1897,12 @@ void
 Node::set(const std::vector<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(double)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(double),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            &data[0],                  // src
+            sizeof(double));           // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
@@ -1869,9 +1938,12 @@ void
 Node::set_int8_initializer_list(const std::initializer_list<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int8),              // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(int8));             // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1888,9 +1960,12 @@ void
 Node::set_int16_initializer_list(const std::initializer_list<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int16),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(int16));            // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1907,9 +1982,12 @@ void
 Node::set_int32_initializer_list(const std::initializer_list<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int32),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(int32));            // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1927,9 +2005,12 @@ void
 Node::set_int64_initializer_list(const std::initializer_list<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int64),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(int64));            // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1951,9 +2032,12 @@ void
 Node::set_uint8_initializer_list(const std::initializer_list<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint8),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(uint8));            // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1970,9 +2054,12 @@ void
 Node::set_uint16_initializer_list(const std::initializer_list<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint16),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(uint16));           // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -1989,9 +2076,12 @@ void
 Node::set_uint32_initializer_list(const std::initializer_list<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint32),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(uint32));           // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2008,9 +2098,12 @@ void
 Node::set_uint64_initializer_list(const std::initializer_list<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(uint64),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(uint64));           // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2032,9 +2125,12 @@ void
 Node::set_float32_initializer_list(const std::initializer_list<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(float32),           // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(float32));          // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2051,9 +2147,12 @@ void
 Node::set_float64_initializer_list(const std::initializer_list<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(float64),           // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(float64));          // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2072,9 +2171,12 @@ void
 Node::set(const std::initializer_list<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(char),              // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(char));             // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2084,9 +2186,12 @@ void
 Node::set(const std::initializer_list<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(signed char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(signed char),       // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(signed char));      // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2094,9 +2199,12 @@ void
 Node::set(const std::initializer_list<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned char),     // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(unsigned char));    // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2110,9 +2218,12 @@ void
 Node::set(const std::initializer_list<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(short),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(short));            // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2120,9 +2231,12 @@ void
 Node::set(const std::initializer_list<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned short),    // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(unsigned short));   // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2136,9 +2250,12 @@ void
 Node::set(const std::initializer_list<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(int),               // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(int));              // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2146,9 +2263,12 @@ void
 Node::set(const std::initializer_list<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned int),      // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(unsigned int));     // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2162,9 +2282,12 @@ void
 Node::set(const std::initializer_list<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(long),              // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(long));             // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2172,9 +2295,12 @@ void
 Node::set(const std::initializer_list<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned long),     // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(unsigned long));    // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2188,9 +2314,12 @@ void
 Node::set(const std::initializer_list<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(long long),         // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(long long));        // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2198,9 +2327,12 @@ void
 Node::set(const std::initializer_list<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(unsigned long long), // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(unsigned long long)); // src stride per ele
 }
 
 //-----------------------------------------------------------------------------
@@ -2214,9 +2346,12 @@ void
 Node::set(const std::initializer_list<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(float),             // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(float));            // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -2229,9 +2364,12 @@ void
 Node::set(const std::initializer_list<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(double) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),               // num eles to copy
+            sizeof(double),            // bytes per element
+            (size_t)dtype().stride(),  // dest stride per ele
+            data.begin(),              // src
+            sizeof(double));           // src stride per ele
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
-- 
2.43.0


From a7b5e891f38cab6c38f38ec8f7bd551b6ac8a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 10/55] fix: Fortran datatype queries are declared with the
 width of conduit_index_t

kind(F_CONDUIT_INDEX_ID) is the kind of a default integer literal (4 bytes), so
64-bit results were truncated and element_index read an argument half undefined.
---
 src/libs/conduit/fortran/conduit_fortran.F90 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libs/conduit/fortran/conduit_fortran.F90 b/src/libs/conduit/fortran/conduit_fortran.F90
index db1411a..864fd0f 100644
--- a/src/libs/conduit/fortran/conduit_fortran.F90
+++ b/src/libs/conduit/fortran/conduit_fortran.F90
@@ -1330,7 +1330,7 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         integer(kind(F_CONDUIT_INDEX_ID)) :: res
+         integer(C_SIZE_T) :: res
     end function conduit_datatype_id
     
     !--------------------------------------------------------------------------
@@ -1356,7 +1356,7 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         integer(kind(F_CONDUIT_INDEX_ID)) :: res
+         integer(C_SIZE_T) :: res
     end function conduit_datatype_number_of_elements
 
     !--------------------------------------------------------------------------
@@ -1365,7 +1365,7 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         integer(kind(F_CONDUIT_INDEX_ID)) :: res
+         integer(C_SIZE_T) :: res
     end function conduit_datatype_offset
     
     !--------------------------------------------------------------------------
@@ -1374,7 +1374,7 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         integer(kind(F_CONDUIT_INDEX_ID)) :: res
+         integer(C_SIZE_T) :: res
     end function conduit_datatype_stride
     
     !--------------------------------------------------------------------------
@@ -1383,7 +1383,7 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         integer(kind(F_CONDUIT_INDEX_ID)) :: res
+         integer(C_SIZE_T) :: res
     end function conduit_datatype_element_bytes
     
     !--------------------------------------------------------------------------
@@ -1392,7 +1392,7 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         integer(kind(F_CONDUIT_INDEX_ID)) :: res
+         integer(C_SIZE_T) :: res
     end function conduit_datatype_endianness
     
     !--------------------------------------------------------------------------
@@ -1401,8 +1401,8 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         integer(kind(F_CONDUIT_INDEX_ID)), value, intent(IN) :: idx
-         integer(kind(F_CONDUIT_INDEX_ID)) :: res
+         integer(C_SIZE_T), value, intent(IN) :: idx
+         integer(C_SIZE_T) :: res
     end function conduit_datatype_element_index
 
 
-- 
2.43.0


From 66702d60fe793adac445bdd2fec4e6a01d08282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:02 +0000
Subject: [PATCH 11/55] fix: Fortran conduit_datatype_name returns the C string
 pointer

The interface declared a single character for a char* result; the matching
destroy routine takes that pointer.
---
 src/libs/conduit/fortran/conduit_fortran.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/fortran/conduit_fortran.F90 b/src/libs/conduit/fortran/conduit_fortran.F90
index 864fd0f..45eea95 100644
--- a/src/libs/conduit/fortran/conduit_fortran.F90
+++ b/src/libs/conduit/fortran/conduit_fortran.F90
@@ -1339,7 +1339,7 @@ module conduit
          use iso_c_binding
          implicit none
          type(C_PTR), value, intent(IN) :: cdatatype
-         character(kind=C_CHAR) ::res 
+         type(C_PTR) :: res
     end function c_conduit_datatype_name
     
     !--------------------------------------------------------------------------
@@ -1347,7 +1347,7 @@ module conduit
              bind(C, name="conduit_datatype_name_destroy")
          use iso_c_binding
          implicit none
-         character(kind=C_CHAR), intent(IN) ::nameStr(*)
+         type(C_PTR), value, intent(IN) :: nameStr
     end subroutine c_conduit_datatype_name_destroy
 
     !--------------------------------------------------------------------------
-- 
2.43.0


From e25d1cb85b305a1e86c7a5e1107149ca6fb7ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:02 +0000
Subject: [PATCH 12/55] fix: serialize to memory advances by the compact size
 of each child

Leaves are written compactly into a buffer of total_bytes_compact() bytes,
but the offset advanced by the strided size, so data following a strided
leaf was written at the wrong place, past the end of the buffer.
---
 src/libs/conduit/conduit_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index b946256..190d9e9 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17751,7 +17751,8 @@ Node::serialize(uint8 *data,index_t curr_offset) const
         for(itr = m_children.begin(); itr < m_children.end(); ++itr)
         {
             (*itr)->serialize(&data[0],curr_offset);
-            curr_offset+=(*itr)->total_strided_bytes();
+            // leaves are written compactly
+            curr_offset+=(*itr)->total_bytes_compact();
         }
     }
     else
-- 
2.43.0


From 0d1e8c4924e51aafa1f1660c3e6597f304c1100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:02 +0000
Subject: [PATCH 13/55] fix: a data type with zero elements occupies zero bytes
 for any stride

strided_bytes() and spanned_bytes() returned a negative size for zero
elements with a stride larger than the element, which corrupted the sizes
and offsets computed for everything that contains such a leaf.
---
 src/libs/conduit/conduit_data_type.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_data_type.cpp b/src/libs/conduit/conduit_data_type.cpp
index af6a717..2a1f2fc 100644
--- a/src/libs/conduit/conduit_data_type.cpp
+++ b/src/libs/conduit/conduit_data_type.cpp
@@ -640,6 +640,11 @@ DataType::set(conduit::index_t dtype_id,
 conduit::index_t
 DataType::strided_bytes() const
 {
+    // zero elements occupy no memory, whatever their stride
+    if(m_num_ele < 1)
+    {
+        return 0;
+    }
     // this is the memory extent excluding the offset
     return m_stride * (m_num_ele -1) + m_ele_bytes;
 }
@@ -656,7 +661,7 @@ DataType::bytes_compact() const
 conduit::index_t
 DataType::spanned_bytes() const
 {
-    return m_offset + m_stride * (m_num_ele -1) + m_ele_bytes;
+    return m_offset + strided_bytes();
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 3f494cc1c8cf7211ebc4d26e2ba33b314a7a3154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:41 +0000
Subject: [PATCH 14/55] fix: contiguous_with(address) no longer ignores the
 address after an empty child

The end pointer started as NULL; an empty first child left it NULL and the
next leaf was then accepted at any address.
---
 src/libs/conduit/conduit_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 190d9e9..8878d2b 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17825,7 +17825,9 @@ Node::contiguous_with(void *address) const
         return false;
     }
 
-    uint8 *end_addy= NULL;
+    // nodes without data leave the end pointer where it is, so it must
+    // start at the address to compare with.
+    uint8 *end_addy= (uint8*)address;
 
     return contiguous_with((uint8*)address,end_addy);
 }
-- 
2.43.0


From 3610eb03a68aa488eb9bf8fc72f0cb27550650f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 15/55] fix: Node::swap exchanges two children of the same
 parent

The position of the second child was looked up after the first slot of the
parent schema had been overwritten, so that the lookup found the first slot
again: both slots ended up wrong.
---
 src/libs/conduit/conduit_node.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 8878d2b..311d244 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8855,40 +8855,47 @@ Node::swap(Node &n_b)
     Schema *schema_a = m_schema;
     Schema *schema_b = n_b.m_schema;
 
+    // find both positions before we change either one: the nodes may
+    // be children of the same parent
+    index_t a_idx = -1;
+    index_t b_idx = -1;
+
     // check if node a has a parent Node
     if(this->parent() != NULL)
     {
         // find index in parent schema
-        Schema *a_parent_schema = schema_a->parent();
-        index_t idx = a_parent_schema->child_index(schema_a);
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        a_idx = schema_a->parent()->child_index(schema_a);
+        if(a_idx < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in this Node's parent.");
         }
-
-        a_parent_schema->children()[idx] = schema_b;
     }
 
     // check if node b has a parent Node
     if(n_b.parent() != NULL)
     {
         // find index in parent schema
-        Schema *b_parent_schema = schema_b->parent();
-        index_t idx = b_parent_schema->child_index(schema_b);
-
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        b_idx = schema_b->parent()->child_index(schema_b);
+        if(b_idx < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in passed Node's parent.");
 
         }
+    }
 
-        b_parent_schema->children()[idx] = schema_a;
+    // as we swap, we need to make sure the parent schemas are updated
+    if(a_idx >= 0)
+    {
+        schema_a->parent()->children()[a_idx] = schema_b;
+    }
+
+    if(b_idx >= 0)
+    {
+        schema_b->parent()->children()[b_idx] = schema_a;
     }
 
     // swap-o-rama
-- 
2.43.0


From f4ea8e8066985060ec5110282101625b71b90beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 16/55] fix: Node::swap and Node::move update the parent of the
 children

The exchanged children kept pointing to the node they came from, which may
not even exist any more after a move.
---
 src/libs/conduit/conduit_node.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 311d244..a53418b 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8920,6 +8920,16 @@ Node::swap(Node &n_b)
     // this should be an efficient O(1)
     std::swap(m_children,n_b.m_children);
 
+    // the children now belong to the other node
+    for(size_t i=0; i < m_children.size(); i++)
+    {
+        m_children[i]->m_parent = this;
+    }
+
+    for(size_t i=0; i < n_b.m_children.size(); i++)
+    {
+        n_b.m_children[i]->m_parent = &n_b;
+    }
 }
 
 
-- 
2.43.0


From 25580c55519f24cd5dfe984597b61ce61f4d9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 17/55] fix: Node::add_child on a list drops the nodes of the
 list entries

The schema turned into an object and deleted the schemas of the entries,
while their nodes stayed in m_children.
---
 src/libs/conduit/conduit_node.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index a53418b..c9b7fbc 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14423,6 +14423,13 @@ Node::add_child(const std::string &name)
         return child(name);
     }
 
+    // the schema drops the entries of a list when it becomes an object,
+    // their nodes must go as well
+    if(!dtype().is_object())
+    {
+        init(DataType::object());
+    }
+
     Schema &child_schema = m_schema->add_child(name);
     Schema *child_ptr = &child_schema;
     Node *child_node = new Node();
-- 
2.43.0


From 8cbf94543cbd01ef8227a31b0e270d576b648ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 18/55] fix: Node::list_of_external on a list drops the old
 entries from the schema

release() deletes the child nodes only, and init_list() keeps the schema of a
node that is a list already.
---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c9b7fbc..61100af 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14909,7 +14909,7 @@ Node::list_of_external(void *data,
                        const Schema &schema,
                        index_t num_entries)
 {
-    release();
+    reset();
     init_list();
 
     Schema s_compact;
-- 
2.43.0


From ea736f745f7b1270f03dc006c596157acf5c9e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 19/55] fix: Node::remove checks the index before it deletes
 the child

The range check of Schema::remove came after the child node at the invalid
index had been deleted.
---
 src/libs/conduit/conduit_node.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 61100af..f662839 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14808,6 +14808,13 @@ Node::append()
 void
 Node::remove(index_t idx)
 {
+    if(idx < 0 || (size_t)idx >= m_children.size())
+    {
+        CONDUIT_ERROR("Cannot remove child " << idx << " from Node("
+                      << this->path() << "), which has "
+                      << m_children.size() << " children");
+    }
+
     // note: we must remove the child pointer before the
     // schema. b/c the child pointer uses the schema
     // to cleanup
-- 
2.43.0


From c8eb1b248d1638b23957960e442a0f4f5080c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 20/55] fix: Node::fetch_existing with an empty path is an
 error

An empty path, as left over by "/", culls to itself: the function called
itself without end.
---
 src/libs/conduit/conduit_node.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index f662839..901d79f 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14475,6 +14475,13 @@ Node::child(const std::string &name)
 const Node&
 Node::fetch_existing(const std::string &path) const
 {
+    // fetch_existing w/ empty path is an error, there is no child to name
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing with an empty path from Node("
+                      << this->path() << ")");
+    }
+
     // const fetch_existing w/ path requires object role
     if(!dtype().is_object())
     {
@@ -14524,6 +14531,13 @@ Node::fetch_existing(const std::string &path) const
 Node&
 Node::fetch_existing(const std::string &path)
 {
+    // fetch_existing w/ empty path is an error, there is no child to name
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing with an empty path from Node("
+                      << this->path() << ")");
+    }
+
     // fetch_existing w/ path requires object role
     if(!dtype().is_object())
     {
-- 
2.43.0


From dfd3e0db993e3b62756bd9071408fd853f3410f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 21/55] fix: Node::set_node of a node to itself keeps the node

reset() dropped the very children that were to be copied.
---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 901d79f..0145810 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -468,6 +468,12 @@ Node::mmap(const std::string &stream_path,
 void
 Node::set_node(const Node &node)
 {
+    // nothing to do, and reset() would drop what we want to copy
+    if(this == &node)
+    {
+        return;
+    }
+
     if(node.dtype().id() == DataType::OBJECT_ID)
     {
         reset();
-- 
2.43.0


From 8f6dabbe23ec38980a9974dcb4a0bcb42a087747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 22/55] fix: Schema::set of an object or list id sets up the
 hierarchy

Schema(DataType::OBJECT_ID) and Schema(DataType::LIST_ID) had no place for
children: the first access dereferenced NULL.
---
 src/libs/conduit/conduit_schema.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index e7c7bfe..33f7cbf 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -151,8 +151,20 @@ void
 Schema::set(index_t dtype_id)
 {
     reset();
-    m_dtype.reset();
-    m_dtype.set_id(dtype_id);
+
+    if(dtype_id == DataType::OBJECT_ID)
+    {
+        init_object();
+    }
+    else if(dtype_id == DataType::LIST_ID)
+    {
+        init_list();
+    }
+    else
+    {
+        m_dtype.reset();
+        m_dtype.set_id(dtype_id);
+    }
 }
 
 
-- 
2.43.0


From a450566f22ad89a08a13c218c9dc5195dd622ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 23/55] fix: Schema::fetch_existing follows ".."

".." was looked up as the name of a child first, which is an error, so that
the handling of the parent was never reached.
---
 src/libs/conduit/conduit_schema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 33f7cbf..fe07533 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -929,8 +929,6 @@ Schema::fetch_existing(const std::string &path)
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
 
-    size_t idx = (size_t) child_index(p_curr);
-    
     // check for parent
     if(p_curr == "..")
     {
@@ -943,6 +941,8 @@ Schema::fetch_existing(const std::string &path)
             return m_parent->fetch_existing(p_next);
         }
     }
+
+    size_t idx = (size_t) child_index(p_curr);
     
     if(p_next.empty())
     {
-- 
2.43.0


From 0959f339fa0a549f52efc05aa9e80a15d16d1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:55 +0000
Subject: [PATCH 24/55] fix: Node::compact_to gives the children the allocator
 of the destination

The children of the destination got the allocator of the source, while the
destination itself keeps and uses its own.
---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 0145810..e364de7 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8642,7 +8642,7 @@ Node::compact_to(Node &n_dest) const
     uint8 *n_dest_data = (uint8*)n_dest.m_data;
     compact_to(n_dest_data,0);
     // need node structure
-    walk_schema(&n_dest,n_dest.m_schema,n_dest_data,m_allocator_id);
+    walk_schema(&n_dest,n_dest.m_schema,n_dest_data,n_dest.m_allocator_id);
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From d51e394530a0b25345d639562558302afe708876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:01 +0000
Subject: [PATCH 25/55] fix: Schema::child checks the index

An index outside the children read past the end of the vector. Node::child
reports such an index as an error.
---
 src/libs/conduit/conduit_schema.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index fe07533..64fe2ef 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -778,6 +778,11 @@ Schema::number_of_children() const
 Schema &
 Schema::child(index_t idx)
 {
+    if( ((size_t) idx) >= children().size())
+    {
+        CONDUIT_ERROR("<Schema::child> Invalid child index: " << idx <<
+                      " (number of children: " << children().size() << ")");
+    }
     return *children()[(size_t)idx];
 }
 
@@ -785,6 +790,11 @@ Schema::child(index_t idx)
 const Schema &
 Schema::child(index_t idx) const
 {
+    if( ((size_t) idx) >= children().size())
+    {
+        CONDUIT_ERROR("<Schema::child> Invalid child index: " << idx <<
+                      " (number of children: " << children().size() << ")");
+    }
     return *children()[(size_t)idx];
 }
 
-- 
2.43.0


From 9e2b4d3839594d2e3e9ecd36f91f8d2b7c51b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:20 +0000
Subject: [PATCH 26/55] fix: Node::release frees the buffer of a node with an
 empty dtype

A node holds a buffer while its dtype is still empty when Node::load fails to
open the file, or after set() with an empty schema: the buffer leaked.
---
 src/libs/conduit/conduit_node.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index e364de7..c43c02a 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17506,17 +17506,11 @@ Node::release()
     // clean up any allocated or mmaped buffers
     if(m_alloced && m_data)
     {
-        ///
-        /// TODO: why do we need to check for empty here?
-        ///
-        if(dtype().id() != DataType::EMPTY_ID)
-        {
-            // clean up our storage
-            utils::conduit_free(m_data, m_allocator_id);
-            m_data = NULL;
-            m_data_size = 0;
-            m_alloced   = false;
-        }
+        // clean up our storage
+        utils::conduit_free(m_data, m_allocator_id);
+        m_data = NULL;
+        m_data_size = 0;
+        m_alloced   = false;
     }
     else if(m_mmaped && m_mmap)
     {
-- 
2.43.0


From b1ff06e5b82c74a54de38d8cb4b911a942dd7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:20 +0000
Subject: [PATCH 27/55] fix: Node::mmap maps and unmaps files larger than 2 GB
 completely

The size was kept as an int.
---
 src/libs/conduit/conduit_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c43c02a..dc58491 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17281,7 +17281,7 @@ class Node::MMap
 
   private:
       void      *m_data;
-      int        m_data_size;
+      index_t    m_data_size;
 
 #if !defined(CONDUIT_PLATFORM_WINDOWS)
       // memory-map file descriptor
@@ -17377,7 +17377,7 @@ Node::MMap::open(const std::string &path,
                            FILE_MAP_ALL_ACCESS,
                            0, 0, 0);
 
-    m_data_size = (int)data_size;
+    m_data_size = data_size;
 
     if (m_data == NULL)
     {
-- 
2.43.0


From 6f719b0e4e617556cdc3f8209048988d54aca724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:20 +0000
Subject: [PATCH 28/55] fix: Node::mmap releases the mapping object and the
 file if it fails

A failed mapping leaked the MMap object and left the file open.
---
 src/libs/conduit/conduit_node.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index dc58491..3d24f95 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17347,7 +17347,13 @@ Node::MMap::open(const std::string &path,
                     m_mmap_fd, 0);
 
     if (m_data == MAP_FAILED)
+    {
+        // nothing is mapped, so there is nothing for close() to undo
+        m_data = NULL;
+        ::close(m_mmap_fd);
+        m_mmap_fd = -1;
         CONDUIT_ERROR("<Node::mmap> mmap data = MAP_FAILED" << path);
+    }
 #else
     m_file_hnd = CreateFile(path.c_str(),
                             (GENERIC_READ | GENERIC_WRITE),
@@ -17483,11 +17489,12 @@ void
 Node::mmap(const std::string &stream_path, index_t data_size)
 {
     m_mmap = new MMap();
+    // mark as owned first, so that it is released if open fails
+    m_alloced = false;
+    m_mmaped  = true;
     m_mmap->open(stream_path,data_size);
     m_data = m_mmap->data_ptr();
     m_data_size = data_size;
-    m_alloced = false;
-    m_mmaped  = true;
 }
 
 
-- 
2.43.0


From d46fe94081c619f034401510e286222ccae947a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:36 +0000
Subject: [PATCH 29/55] fix: relay mpi *_using_schema sends the compact schema
 of the data

A compact, contiguous node whose data starts at an offset was sent with that
offset in its schema, but with its bytes compacted: the receiver read past the
message (send_using_schema, communicate_using_schema, broadcast_using_schema).
---
 src/libs/relay/conduit_relay_mpi.cpp | 29 ++++++++++------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 330381a..b2f618d 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -531,15 +531,9 @@ send_using_schema(const Node &node, int dest, int tag, MPI_Comm comm)
 {     
     Schema s_data_compact;
     
-    // schema will only be valid if compact and contig
-    if( node.is_compact() && node.is_contiguous())
-    {
-        s_data_compact = node.schema();
-    }
-    else
-    {
-        node.schema().compact_to(s_data_compact);
-    }
+    // the schema sent describes the compacted data: even the schema of a
+    // compact node can have offsets
+    node.schema().compact_to(s_data_compact);
     
     std::string snd_schema_json = s_data_compact.to_json();
         
@@ -1834,7 +1828,10 @@ broadcast_using_schema(Node &node,
            node.is_compact() && 
            node.is_contiguous())
         {
-            bcast_buffers["schema"] = node.schema().to_json();
+            // even the schema of a compact node can have offsets
+            Schema s_compact;
+            node.schema().compact_to(s_compact);
+            bcast_buffers["schema"] = s_compact.to_json();
         }
         else
         {
@@ -2093,15 +2090,9 @@ communicate_using_schema::execute_internal()
         {
             Schema s_data_compact;
             const Node &node = *operations[i].node[0];
-            // schema will only be valid if compact and contig
-            if( node.is_compact() && node.is_contiguous())
-            {
-                s_data_compact = node.schema();
-            }
-            else
-            {
-                node.schema().compact_to(s_data_compact);
-            }
+            // the schema sent describes the compacted data: even the schema
+            // of a compact node can have offsets
+            node.schema().compact_to(s_data_compact);
     
             std::string snd_schema_json = s_data_compact.to_json();
         
-- 
2.43.0


From 939846058f06f961f5df25bec3dacd06b7709bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:36 +0000
Subject: [PATCH 30/55] fix: relay mpi reduce and all_reduce send the elements
 of nodes with an offset

They sent the memory at the start of the buffer instead.
---
 src/libs/relay/conduit_relay_mpi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index b2f618d..4d7bdac 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -838,7 +838,7 @@ reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -917,7 +917,7 @@ all_reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
-- 
2.43.0


From 927dcafe4d5b9d6a67e2f0150d7cafd68b03fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:36 +0000
Subject: [PATCH 31/55] fix: relay mpi gather sends contiguous nodes from where
 their data starts

data_ptr() is NULL for an object with contiguous external children, and not
the address of the first element for a node with an offset.
---
 src/libs/relay/conduit_relay_mpi.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 4d7bdac..8c17414 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1356,7 +1356,6 @@ gather(Node &send_node,
     if(snd_ptr != NULL && 
        send_node.is_compact() )
     {
-        snd_ptr  = send_node.data_ptr();
         snd_size = send_node.total_bytes_compact();
     }
     else
-- 
2.43.0


From b803f6da8b206e9264ecabea3163733b127aeb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:36 +0000
Subject: [PATCH 32/55] fix: relay mpi broadcast_using_schema receives as many
 bytes as root sends

A receiving leaf that holds more elements than the one sent took part in the
broadcast with its own size.
---
 src/libs/relay/conduit_relay_mpi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 8c17414..3ed6c98 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1897,7 +1897,8 @@ broadcast_using_schema(Node &node,
         {
             
             bcast_data_ptr  = node.contiguous_data_ptr();
-            bcast_data_size = static_cast<int>(node.total_bytes_compact());
+            // node can hold more elements than root sends
+            bcast_data_size = static_cast<int>(bcast_schema.total_bytes_compact());
             
             if( bcast_data_ptr == NULL ||
                 ! node.is_compact() )
-- 
2.43.0


From 52a21785cb07dd79a9784a32f1073f816aae990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:36 +0000
Subject: [PATCH 33/55] fix: relay mpi recv_using_schema checks the result of
 MPI_Recv

It parsed the buffer as a message even if the receive failed.
---
 src/libs/relay/conduit_relay_mpi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 3ed6c98..782c618 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -598,6 +598,8 @@ recv_using_schema(Node &node, int src, int tag, MPI_Comm comm)
                          comm,
                          &status);
 
+    CONDUIT_CHECK_MPI_ERROR(mpi_error);
+
     uint8 *n_buff_ptr = (uint8*)n_buffer.data_ptr();
 
     Node n_msg;
@@ -648,6 +650,8 @@ recv_using_schema(Node &node, MPI_Comm comm)
                          comm,
                          &status);
 
+    CONDUIT_CHECK_MPI_ERROR(mpi_error);
+
     uint8 *n_buff_ptr = (uint8*)n_buffer.data_ptr();
 
     Node n_msg;
-- 
2.43.0


From 2d5730780301ec13ff24b4b3017d216a728f1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:30 +0000
Subject: [PATCH 34/55] fix: mpi partition: all ranks agree whether the domains
 have ids

---
 .../blueprint/conduit_blueprint_mpi_mesh_partition.cpp   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index f911b27..561b68e 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -99,8 +99,13 @@ ParallelPartitioner::get_global_domids(const conduit::Node& n_mesh)
         }
     }
 
+    // All ranks (also those without domains) take the same branch below, so
+    // the ids are only used if no rank has a domain without one.
+    int have_domids_all = have_domids ? 1 : 0;
+    MPI_Allreduce(MPI_IN_PLACE, &have_domids_all, 1, MPI_INT, MPI_MIN, comm);
+
     int64 prob_ndoms = 0;
-    if (!have_domids)
+    if (have_domids_all == 0)
     {
         // We had to generate local domain IDs in the range [0, ndoms)
         // Offset these for global IDs
@@ -117,7 +122,7 @@ ParallelPartitioner::get_global_domids(const conduit::Node& n_mesh)
         }
         for (size_t idom = 0; idom < doms.size(); idom++)
         {
-            domids[idom] += offset;
+            domids[idom] = static_cast<index_t>(idom) + offset;
         }
         prob_ndoms = std::accumulate(ndoms_all.begin(), ndoms_all.end(), 0);
     }
-- 
2.43.0


From b63810f6bb0fe4da993469b2d296f0cfaa163a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:58 +0000
Subject: [PATCH 35/55] fix: mpi partition_map_back: ranks without
 repartitioned domains take part in the exchange of vertex ids

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp   | 8 ++++++++
 src/libs/blueprint/conduit_blueprint_mesh_partition.hpp   | 6 ++++++
 .../blueprint/conduit_blueprint_mpi_mesh_partition.cpp    | 7 +++++++
 .../blueprint/conduit_blueprint_mpi_mesh_partition.hpp    | 2 ++
 4 files changed, 23 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2ea3ddf..110b8ec 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -4660,6 +4660,12 @@ void Partitioner::synchronize_gvids(const std::vector<std::vector<index_t>>& /*r
     // implemented only in parallel case
 }
 
+//-------------------------------------------------------------------------
+bool Partitioner::any_rank(bool value) const
+{
+    return value;
+}
+
 
 //-----------------------------------------------------------------------------
 // -- begin conduit::blueprint::mesh::coordset --
@@ -10106,6 +10112,8 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             }
         }
     }
+    // a rank without repartitioned domains takes part in the communication too
+    has_vert_fields = any_rank(has_vert_fields);
 
     // Get a field prefix. Some of the mapping fields used here may have
     // used a field_prefix when they were generated.
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index 97aceb3..31666ad 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -734,6 +734,12 @@ protected:
         const std::vector<std::vector<index_t>>& remap_to_local_doms,
         std::map<index_t, std::vector<index_t>>& orig_dom_gvids);
 
+    /**
+     @brief Return whether a condition holds on any rank.
+     @note Reimplemented in parallel
+     */
+    virtual bool any_rank(bool value) const;
+
     /**
      @brief Return the name of the field that contains original vertex ids.
 
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 561b68e..7adab5e 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -942,6 +942,13 @@ ParallelPartitioner::communicate_mapback(std::unordered_map<index_t, Node>& pack
         packed_fields.erase(domid);
     }
 }
+bool
+ParallelPartitioner::any_rank(bool value) const
+{
+    int res = value ? 1 : 0;
+    MPI_Allreduce(MPI_IN_PLACE, &res, 1, MPI_INT, MPI_MAX, comm);
+    return res != 0;
+}
 
 void
 ParallelPartitioner::synchronize_gvids(
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
index 791c7b4..78bbd12 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
@@ -122,6 +122,8 @@ protected:
     virtual void synchronize_gvids(const std::vector<std::vector<index_t>>& remap_to_local_doms,
                                    std::map<index_t, std::vector<index_t>>& orig_dom_gvids) override;
 
+    virtual bool any_rank(bool value) const override;
+
 private:
     /**
      @brief Creates an MPI structure datatype so we can Allgatherv 3 things
-- 
2.43.0


From c295e03965e8c9ff01acbae6667c0bdbd95a18c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:00 +0000
Subject: [PATCH 36/55] fix: mpi silo overlink save: ranks without domains take
 part in the save

---
 src/libs/relay/conduit_relay_io_silo.cpp | 30 +++++++++++++-----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_silo.cpp b/src/libs/relay/conduit_relay_io_silo.cpp
index adf06e2..80a5dd4 100644
--- a/src/libs/relay/conduit_relay_io_silo.cpp
+++ b/src/libs/relay/conduit_relay_io_silo.cpp
@@ -6088,11 +6088,12 @@ void CONDUIT_RELAY_API write_mesh(const Node &mesh,
         // we are only going to write out one multimesh, with the name "MMESH"
         // the topo we will choose is the one named opts_ovl_topo_name, or, if that does
         // not exist, it is the first topo we can find.
-        const Node &dom = multi_dom.child(0);
-
-        if (dom.has_child("topologies"))
+        // note: a rank may have no domains, or no topologies, while others do
+        int num_topos = 0;
+        if (local_num_domains > 0 && multi_dom.child(0).has_child("topologies"))
         {
-            const Node &dom_topos = dom["topologies"];
+            const Node &dom_topos = multi_dom.child(0)["topologies"];
+            num_topos = (int)dom_topos.number_of_children();
             if (!dom_topos.has_child(opts_ovl_topo_name))
             {
                 if (par_rank == 0)
@@ -6100,7 +6101,7 @@ void CONDUIT_RELAY_API write_mesh(const Node &mesh,
                     CONDUIT_INFO("Silo save: Overlink: topo name not provided or not found.");
                 }
 
-                if (dom_topos.number_of_children() > 0)
+                if (num_topos > 0)
                 {
                     opts_ovl_topo_name = dom_topos.children().next().name();
                     if (par_rank == 0)
@@ -6108,18 +6109,19 @@ void CONDUIT_RELAY_API write_mesh(const Node &mesh,
                         CONDUIT_INFO("Silo save: Overlink: topo name defaulting to " + opts_ovl_topo_name);
                     }
                 }
-                else
-                {
-                    if (par_rank == 0)
-                    {
-                        CONDUIT_WARN("Silo save: Overlink: No topologies to save. Doing nothing.");
-                    }
-                    return;
-                }
             }
             // else we are good, the provided mesh name is valid
         }
-        else
+
+#ifdef CONDUIT_RELAY_IO_MPI_ENABLED
+        n_local = num_topos;
+        relay::mpi::sum_all_reduce(n_local,
+                                   n_reduced,
+                                   mpi_comm);
+        num_topos = n_reduced.as_int();
+#endif
+
+        if (num_topos == 0)
         {
             if (par_rank == 0)
             {
-- 
2.43.0


From baa277e6b944d77ee35cc09ebb3fe0ecebd9d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:08 +0000
Subject: [PATCH 37/55] fix: hdf5 write overran an array when the dataset has
 several dimensions

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 40c0a8e..3e552c3 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -999,7 +999,7 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
             // we will check the 1d-properties of the hdf5 dataspace
             hssize_t h5_test_num_ele = H5Sget_simple_extent_npoints(h5_test_dspace);
 
-            hsize_t dataset_max_dims[1];
+            hsize_t dataset_max_dims[H5S_MAX_RANK] = {0};
             H5Sget_simple_extent_dims(h5_test_dspace, NULL, dataset_max_dims);
 
             // string case is special, check it first
@@ -1671,7 +1671,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
     // get dimensions of dset
     hid_t dataspace = H5Dget_space(hdf5_dset_id);
     hsize_t dataset_dim = H5Sget_simple_extent_npoints(dataspace);
-    hsize_t dataset_max_dims[1];
+    hsize_t dataset_max_dims[H5S_MAX_RANK] = {0};
     H5Sget_simple_extent_dims(dataspace, NULL, dataset_max_dims);
 
     // if the layout is fixed and no offset/stride is supplied,
-- 
2.43.0


From 80e8a79627c0e6cf2d09c5c498a6232af7bff24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:08 +0000
Subject: [PATCH 38/55] fix: hdf5 write with an offset left the parent group
 open

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 3e552c3..52c8ae7 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1776,7 +1776,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             // close the old dataset to prevent the old identifier from
             // interfering
             H5Oclose(hdf5_dset_id);
-            H5Dclose(hdf5_dset_parent_id);
+            H5Oclose(hdf5_dset_parent_id);
 
             hdf5_dset_id = H5Oopen(hdf5_id,
                 hdf5_dset_path.c_str(), H5P_DEFAULT);
-- 
2.43.0


From 7f7b069ee45d4a8e1cc648b2473c6eb10d10afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:08 +0000
Subject: [PATCH 39/55] fix: hdf5 read into a node of the other byte order
 stored machine order values

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 52c8ae7..45d5de1 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2980,6 +2980,7 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                    << " the HDF5 dataset (" << nelems << ")");
             }
             else if(dest.dtype().is_compact() &&
+               dest.dtype().endianness_matches_machine() &&
                dest.dtype().compatible(dt) )
             {
                 // we can read directly from hdf5 dataset if compact
-- 
2.43.0


From ee7bf56e097b04d0da9d73429d4b818945b2e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:08 +0000
Subject: [PATCH 40/55] fix: hdf5_identifier_report of one file listed
 identifiers of others

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 45d5de1..6c1eee2 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -4215,7 +4215,7 @@ hdf5_identifier_report(hid_t hdf5_id, Node &out)
     {
         // get ids
         std::vector<hid_t> h5_obj_ids(h5_num_objs);
-        H5Fget_obj_ids(H5F_OBJ_ALL,
+        H5Fget_obj_ids(hdf5_id,
                        H5F_OBJ_ALL,
                        h5_num_objs,
                        h5_obj_ids.data());
-- 
2.43.0


From d5b500aa5e3937ba3cd2e1e491cf4d9e3cacf107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:25 +0000
Subject: [PATCH 41/55] fix: JSON strings with backslashes come back unchanged
 from conduit_json

---
 src/libs/conduit/conduit_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index feb5ef3..cac8b51 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -957,7 +957,8 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
         if(node.dtype().id() == DataType::CHAR8_STR_ID)
         {
             std::string sval(jvalue.GetString());
-            node.set(utils::unescape_special_chars(sval));
+            // the json parser already resolved any escape sequences
+            node.set(sval);
         }
         else
         {
-- 
2.43.0


From a84399f4a89f069056a416374212c38d5041abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:25 +0000
Subject: [PATCH 42/55] fix: names of children are escaped in JSON text

---
 src/libs/conduit/conduit_node.cpp   | 4 +++-
 src/libs/conduit/conduit_schema.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 3d24f95..4741109 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -13661,7 +13661,9 @@ Node::to_json_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< m_schema->object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(m_schema->object_order()[i])
+               << "\": ";
             m_children[i]->to_json_generic(os,
                                            detailed,
                                            address,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 64fe2ef..d8aeb6b 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -558,7 +558,9 @@ Schema::to_json_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(object_order()[i])
+               << "\": ";
             children()[i]->to_json_stream(os,indent,depth+1,pad,eoe);
             if(i < nchildren-1)
                 os << ",";
-- 
2.43.0


From c207b9f2b749f0938952c63ad0f7002ab727c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:25 +0000
Subject: [PATCH 43/55] fix: control characters and unknown escapes in
 escape_special_chars and unescape_special_chars

---
 src/libs/conduit/conduit_utils.cpp | 37 ++++++++++++++++++++++++++----
 src/libs/conduit/conduit_utils.hpp |  7 ++++--
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6601ae1..80b7d9d 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1167,7 +1167,18 @@ escape_special_chars(const std::string &input)
 
             default:
             {
-                res += val;
+                // other control characters can only be written as hex escapes
+                if( (val >= 0 && val < 32) || val == 127 )
+                {
+                    const char *hex_digits = "0123456789abcdef";
+                    res += "\\u00";
+                    res += hex_digits[val >> 4];
+                    res += hex_digits[val & 15];
+                }
+                else
+                {
+                    res += val;
+                }
             }
         }
     }
@@ -1242,11 +1253,29 @@ unescape_special_chars(const std::string &input)
                     i++;
                     break;
                 }
-                // \uFFFF & unknown escape strings
+                // hex escapes of ascii chars
+                case 'u':
+                {
+                    const std::string hex = input.substr(i+2,4);
+                    if( hex.size() == 4 &&
+                        hex.compare(0,2,"00") == 0 && hex[2] < '8' &&
+                        hex.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos)
+                    {
+                        res += (char)std::stoi(hex,NULL,16);
+                        // skip escape chars
+                        i+=5;
+                    }
+                    else
+                    {
+                        res += input[i];
+                    }
+                    break;
+                }
+                // unknown escape strings
                 default:
                 {
-                    // simply emit
-                    res += val;
+                    // simply emit, the char that follows is next
+                    res += input[i];
                     break;
                 }
             }
diff --git a/src/libs/conduit/conduit_utils.hpp b/src/libs/conduit/conduit_utils.hpp
index 03cdf96..4d645c4 100644
--- a/src/libs/conduit/conduit_utils.hpp
+++ b/src/libs/conduit/conduit_utils.hpp
@@ -476,8 +476,11 @@ namespace utils
 /// Special chars that are not escaped, but are unescaped:
 ///    / (forward slash)
 ///
-/// Special chars that are not escaped or unescaped:
-///    \u (for hex escapes: \uFFFF)
+/// Other ascii control characters are escaped and unescaped as hex escapes:
+///    \u00XX
+///
+/// Special chars that are not unescaped:
+///    \u (for hex escapes beyond ascii: \uFFFF)
 ///
 //-----------------------------------------------------------------------------
     std::string CONDUIT_API escape_special_chars(const std::string &input);
-- 
2.43.0


From 091e34564f0feab2f0b40941ba9c925cea02ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:25 +0000
Subject: [PATCH 44/55] fix: int8 and uint8 accessors write numbers, not
 characters

---
 src/libs/conduit/conduit_data_accessor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_data_accessor.cpp b/src/libs/conduit/conduit_data_accessor.cpp
index 24eec99..bef3723 100644
--- a/src/libs/conduit/conduit_data_accessor.cpp
+++ b/src/libs/conduit/conduit_data_accessor.cpp
@@ -468,7 +468,8 @@ DataAccessor<T>::to_json_stream(std::ostream &os) const
         }
         else
         {
-            os << element(idx);
+            // unary plus: show int8 and uint8 elements as numbers
+            os << +element(idx);
         }
 
         first=false;
@@ -579,7 +580,8 @@ DataAccessor<T>::to_summary_string_stream(std::ostream &os,
             }
             else
             {
-                os << element(idx);
+                // unary plus: show int8 and uint8 elements as numbers
+            os << +element(idx);
             }
 
             idx++;
-- 
2.43.0


From 4c4afc4d48afcaf941b2874cb52c46ad1bca63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:25 +0000
Subject: [PATCH 45/55] fix: a YAML leaf without number_of_elements has one
 element, one with zero has none

---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index cac8b51..6eaf3bd 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2579,7 +2579,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                 length = get_yaml_sequence_length(value_node);
             }
             // support explicit length 0 in a schema
-            else if (fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
+            else if (!fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
             {
                 length = 1;
             }
-- 
2.43.0


From f0a28c98509f68cd07268f5ebe456078839234fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:25 +0000
Subject: [PATCH 46/55] fix: json_sanitize recognises strings at the start of
 the text, ending in a backslash, and quotes in comments

---
 src/libs/conduit/conduit_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 80b7d9d..20562e9 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -959,19 +959,22 @@ json_sanitize(const std::string &json)
     bool        in_comment=false;
     bool        in_string=false;
     bool        in_id =false;
+    bool        in_escape=false;
     std::string cur_id = "";
 
     for(size_t i = 0; i < json.size(); ++i)
     {
         bool emit = true;
         // check for start & end of a string
-        if(json[i] == '\"' &&  ( i > 0 && ( json[i-1] != '\\' )))
+        if(json[i] == '\"' && !in_escape && !in_comment)
         {
             if(in_string)
                 in_string = false;
             else
                 in_string = true;
         }
+        // a backslash in a string escapes the next char
+        in_escape = in_string && !in_escape && json[i] == '\\';
 
         // handle two cases were we want to sanitize:
         // comments '//' to end of line & unquoted ids
-- 
2.43.0


From e011e5bc38c77ea691f0725990ca26b846ddb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:32 +0000
Subject: [PATCH 47/55] fix: relaxed integer diff missed unsigned values equal
 to a negative number modulo 2^64

---
 src/libs/conduit/conduit_node.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 4741109..9d90c45 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -18055,9 +18055,13 @@ relaxed_integer_diff(const Node &a, const Node &b, bool compatible)
     {
         const int64_accessor a_vals = a.as_int64_accessor();
         const int64_accessor b_vals = b.as_int64_accessor();
+        // signed vs unsigned: a value that is negative as int64 is out
+        // of range for the type of the other operand
+        const bool mixed = !(a.dtype().is_signed_integer() &&
+                             b.dtype().is_signed_integer());
         for(index_t i = 0; i < a_nelems; i++)
         {
-            if(a_vals[i] != b_vals[i])
+            if(a_vals[i] != b_vals[i] || (mixed && a_vals[i] < 0))
             {
                 return true;
             }
-- 
2.43.0


From 74a666efd83aabae5748e891f0ec3a24449ae6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:45 +0000
Subject: [PATCH 48/55] fix: shape tables lack the entries of the mixed shape,
 so that ShapeType("mixed") reads past their end

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
index df5ad0c..c972194 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
@@ -98,7 +98,7 @@ static const std::vector<std::string> TOPO_SHAPES = {"point", "line", "tri", "qu
 // "f" is for face
 // "c" is for cell
 static const std::vector<std::string> TOPO_SHAPE_IDS = {/*point*/ "p", /*line*/ "l", /*tri*/ "f", /*quad*/ "f", 
-    /*tet*/ "c", /*hex*/ "c", /*wedge*/ "c", /*pyramid*/ "c", /*polygonal*/ "f", /*polyhedral*/ "c"};
+    /*tet*/ "c", /*hex*/ "c", /*wedge*/ "c", /*pyramid*/ "c", /*polygonal*/ "f", /*polyhedral*/ "c", /*mixed*/ ""};
 
 // The dimensions for each element in TOPO_SHAPES
 static const std::vector<index_t> TOPO_SHAPE_DIMS = {/*point*/ 0, /*line*/ 1, /*tri*/ 2, /*quad*/ 2, 
@@ -164,7 +164,7 @@ static const std::vector<const index_t*> TOPO_SHAPE_EMBEDDINGS = {
     &TOPO_TRI_EMBEDDING[0][0], &TOPO_QUAD_EMBEDDING[0][0],
     &TOPO_TET_EMBEDDING[0][0], &TOPO_HEX_EMBEDDING[0][0],
     &TOPO_WEDGE_EMBEDDING[0][0], &TOPO_PYRAMID_EMBEDDING[0][0],
-    nullptr, nullptr};
+    /*polygonal*/ nullptr, /*polyhedral*/ nullptr, /*mixed*/ nullptr};
 
 //-----------------------------------------------------------------------------
 /// blueprint mesh utility structures
-- 
2.43.0


From 989dd1073e801290a83f216db5f915d5390f03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:45 +0000
Subject: [PATCH 49/55] fix: offsets of streamed elements advance by the number
 of sides instead of the number of points of the shape

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index cec1bed..1fa095b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2426,7 +2426,7 @@ topology::unstructured::generate_offsets(const Node &topo,
             {
                 if(shape == TOPO_SHAPES[j])
                 {
-                    stream_id_npts[stream_id] = TOPO_SHAPE_EMBED_COUNTS[j];
+                    stream_id_npts[stream_id] = TOPO_SHAPE_INDEX_COUNTS[j];
                     break;
                 }
             }
-- 
2.43.0


From 47d575268147698e7a79aa82180fffaf2c114145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:45 +0000
Subject: [PATCH 50/55] fix: offsets of streamed elements given by group
 offsets used the first group's offset for every group

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 1fa095b..8975e92 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2468,7 +2468,7 @@ topology::unstructured::generate_offsets(const Node &topo,
                             const_cast<void*>(n_stream_ids.element_ptr(j)), true);
                 const Node n_element_offsets_j(int_dtype,
                             const_cast<void*>(n_element_offsets.element_ptr(j)), true);
-                offset = n_element_offsets.to_index_t();
+                offset = n_element_offsets_j.to_index_t();
                 index_t next_offset = offset;
                 if(j == n_stream_ids.dtype().number_of_elements() - 1)
                 {
@@ -2477,7 +2477,7 @@ topology::unstructured::generate_offsets(const Node &topo,
                 else
                 {
                     const Node n_element_offsets_j1(int_dtype,
-                                const_cast<void*>(n_element_offsets.element_ptr(j)), true);
+                                const_cast<void*>(n_element_offsets.element_ptr(j + 1)), true);
                     next_offset = n_element_offsets_j1.to_index_t();
                 }
                 const auto sid = static_cast<index_t>(n_stream_ids_j.to_int64());
-- 
2.43.0


From 09b0a266b97132df0bf68f2e68e977c95c4754a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:00 +0000
Subject: [PATCH 51/55] fix: Schema::set of a schema to itself emptied it

---
 src/libs/conduit/conduit_schema.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index d8aeb6b..e8afab7 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -110,6 +110,12 @@ Schema::reset()
 void 
 Schema::set(const Schema &schema)
 {
+    // nothing to do, and reset() would drop what we want to copy
+    if(this == &schema)
+    {
+        return;
+    }
+
     reset();
     bool init_children = false;
     index_t dt_id = schema.m_dtype.id();
-- 
2.43.0


From 80edd6c68776b818c564d0938f121d0f636cd880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 52/55] fix: reading a JSON array with integers beyond int64
 aborted

---
 src/libs/conduit/conduit_generator.cpp | 34 ++++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 6eaf3bd..ab56e4b 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -483,14 +483,14 @@ Generator::Parser::JSON::json_to_numeric_dtype(const conduit_rapidjson::Value &j
     index_t res = DataType::EMPTY_ID; 
     if(jvalue.IsNumber())
     {
-        // TODO: We could have better logic for dealing with int vs uint
-        if(jvalue.IsUint64() || 
-           jvalue.IsInt64()  || 
-           jvalue.IsUint()   ||
-           jvalue.IsInt())
+        if(jvalue.IsInt64() || jvalue.IsInt())
         {
             res  = DataType::INT64_ID; // for int
         }
+        else if(jvalue.IsUint64() || jvalue.IsUint())
+        {
+            res  = DataType::UINT64_ID; // for ints beyond int64
+        }
         else if(jvalue.IsDouble())
         {
             res  = DataType::FLOAT64_ID; // for float
@@ -524,16 +524,26 @@ Generator::Parser::JSON::check_homogenous_json_array(const conduit_rapidjson::Va
 
     index_t val_type = json_to_numeric_dtype(jvalue[(conduit_rapidjson::SizeType)0]); 
     bool homogenous  = (val_type != DataType::EMPTY_ID);
+    bool all_uint64  = jvalue[(conduit_rapidjson::SizeType)0].IsUint64();
 
     for (conduit_rapidjson::SizeType i = 1; i < jvalue.Size() && homogenous; i++)
     {
         index_t curr_val_type = json_to_numeric_dtype(jvalue[i]);
-        if(val_type == DataType::INT64_ID  &&
+        all_uint64 = all_uint64 && jvalue[i].IsUint64();
+        if(val_type != DataType::FLOAT64_ID  &&
            curr_val_type ==  DataType::FLOAT64_ID)
         {
             // promote to a double (may be lossy in some cases)
             val_type = DataType::FLOAT64_ID;
         }
+        else if( (val_type == DataType::INT64_ID &&
+                  curr_val_type == DataType::UINT64_ID) ||
+                 (val_type == DataType::UINT64_ID &&
+                  curr_val_type == DataType::INT64_ID) )
+        {
+            // uint64 holds all values, unless one of them is negative
+            val_type = all_uint64 ? DataType::UINT64_ID : DataType::FLOAT64_ID;
+        }
         else if(curr_val_type == DataType::EMPTY_ID)
         {
             // non homogenous inline
@@ -1084,9 +1094,11 @@ Generator::Parser::JSON::parse_inline_value(const conduit_rapidjson::Value &jval
                         << "number of elements in JSON array is more"
                         << "than dtype can hold");
         
-        if(hval_type == DataType::INT64_ID)
+        if(hval_type == DataType::INT64_ID ||
+           hval_type == DataType::UINT64_ID)
         {
-            if(node.dtype().is_unsigned_integer())
+            if(node.dtype().is_unsigned_integer() ||
+               hval_type == DataType::UINT64_ID)
             {
                 parse_json_uint64_array(jvalue,node);
             }
@@ -1283,6 +1295,12 @@ Generator::Parser::JSON::walk_pure_json_schema(Node *node,
             int64_array vals = node->value();
             parse_json_int64_array(jvalue,vals);
         }
+        else if(hval_type == DataType::UINT64_ID)
+        {
+            node->set(DataType::uint64(jvalue.Size()));
+            uint64_array vals = node->value();
+            parse_json_uint64_array(jvalue,vals);
+        }
         else if(hval_type == DataType::FLOAT64_ID)
         {
             node->set(DataType::float64(jvalue.Size()));
-- 
2.43.0


From 8adbe755d1531446373078339bfd9a50e07c6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:41 +0000
Subject: [PATCH 53/55] fix: YAML integers beyond int64 were read as the
 largest int64

---
 src/libs/conduit/conduit_generator.cpp | 58 +++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index ab56e4b..abb3c6f 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -14,6 +14,7 @@
 // -- standard lib includes -- 
 //-----------------------------------------------------------------------------
 #include <stdio.h>
+#include <cerrno>
 #include <cstdlib>
 
 //-----------------------------------------------------------------------------
@@ -104,6 +105,8 @@ public:
     // checks if input c-string holds something that converts
     // to an integer
     static bool string_is_integer(const char *txt_value);
+    // the type that holds an integer: int64, else uint64, else float64
+    static index_t string_integer_dtype(const char *txt_value);
 
     // converts c-string to double
     static double string_to_double(const char *txt_value);
@@ -426,6 +429,28 @@ Generator::Parser::string_is_integer(const char *txt_value)
     return *val_end == 0;
 }
 
+//---------------------------------------------------------------------------//
+index_t
+Generator::Parser::string_integer_dtype(const char *txt_value)
+{
+    char *val_end = NULL;
+    errno = 0;
+    long int val = strtol(txt_value,&val_end,10);
+    if(errno != ERANGE)
+    {
+        return DataType::INT64_ID;
+    }
+
+    errno = 0;
+    strtoul(txt_value,&val_end,10);
+    if(val > 0 && errno != ERANGE)
+    {
+        return DataType::UINT64_ID;
+    }
+
+    return DataType::FLOAT64_ID;
+}
+
 //---------------------------------------------------------------------------//
 double 
 Generator::Parser::string_to_double(const char *txt_value)
@@ -1974,7 +1999,7 @@ Generator::Parser::YAML::yaml_leaf_to_numeric_dtype(const char *txt_value)
     index_t res = DataType::EMPTY_ID;
     if(string_is_integer(txt_value))
     {
-        res = DataType::INT64_ID;
+        res = string_integer_dtype(txt_value);
     }
     else if(string_is_double(txt_value))
     {
@@ -2126,7 +2151,8 @@ Generator::Parser::YAML::parse_inline_value(yaml_document_t *yaml_doc,
                         << "number of elements in YAML array is more"
                         << "than dtype can hold");
 
-        if (hval_type == DataType::INT64_ID)
+        if (hval_type == DataType::INT64_ID ||
+            hval_type == DataType::UINT64_ID)
         {
             if (node.dtype().is_unsigned_integer())
             {
@@ -2322,6 +2348,7 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
     index_t res = DataType::EMPTY_ID;
     seq_size = -1;
     bool ok = true;
+    bool any_negative = false;
     index_t cld_idx;
     for (cld_idx = 0; cld_idx < get_yaml_sequence_length(yaml_node); cld_idx ++)
     {
@@ -2335,7 +2362,9 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
         if (check_yaml_is_scalar_node(yaml_child))
         {
             // check for integers, then widen to floats
-            index_t child_dtype_id = yaml_leaf_to_numeric_dtype(get_yaml_string(yaml_child));
+            const char *child_txt  = get_yaml_string(yaml_child);
+            index_t child_dtype_id = yaml_leaf_to_numeric_dtype(child_txt);
+            any_negative = any_negative || *child_txt == '-';
             if (child_dtype_id == DataType::EMPTY_ID)
             {
                 ok = false;
@@ -2346,11 +2375,17 @@ Generator::Parser::YAML::check_homogenous_yaml_numeric_sequence(const Node &node
                 // good so far, promote to child's dtype
                 res = child_dtype_id;
             }
-            else if (res == DataType::INT64_ID && child_dtype_id == DataType::FLOAT64_ID)
+            else if (res != DataType::FLOAT64_ID && child_dtype_id == DataType::FLOAT64_ID)
             {
                 // promote to float64
                 res = DataType::FLOAT64_ID;
             }
+            else if ( (res == DataType::INT64_ID && child_dtype_id == DataType::UINT64_ID) ||
+                      (res == DataType::UINT64_ID && child_dtype_id == DataType::INT64_ID) )
+            {
+                // uint64 holds all values, unless one of them is negative
+                res = any_negative ? DataType::FLOAT64_ID : DataType::UINT64_ID;
+            }
         }
         else
         {
@@ -2455,11 +2490,16 @@ void
 Generator::Parser::YAML::parse_yaml_inline_leaf(const char *yaml_txt,
                                                 Node &node)
 {
-    if (string_is_integer(yaml_txt))
+    const index_t dtype_id = yaml_leaf_to_numeric_dtype(yaml_txt);
+    if (dtype_id == DataType::INT64_ID)
     {
         node.set(static_cast<int64>(string_to_long(yaml_txt)));
     }
-    else if (string_is_double(yaml_txt))
+    else if (dtype_id == DataType::UINT64_ID)
+    {
+        node.set(static_cast<uint64>(string_to_unsigned_long(yaml_txt)));
+    }
+    else if (dtype_id == DataType::FLOAT64_ID)
     {
         node.set(static_cast<float64>(string_to_double(yaml_txt)));
     }
@@ -3165,6 +3205,12 @@ Generator::Parser::YAML::walk_pure_yaml_schema(Node *node,
                 parse_yaml_array<int64>(yaml_doc, yaml_node, vals, seq_size);
             }
         }
+        else if(hval_type == DataType::UINT64_ID)
+        {
+            node->set(DataType::uint64(seq_size));
+            uint64_array vals = node->value();
+            parse_yaml_array<uint64>(yaml_doc, yaml_node, vals, seq_size);
+        }
         else if(hval_type == DataType::FLOAT64_ID)
         {
             node->set(DataType::float64(seq_size));
-- 
2.43.0


From 4f4a8fe6d042134b5e2ee58d7c8a54875c17b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:14 +0000
Subject: [PATCH 54/55] fix: Fortran methods as_int32 and as_int64 read the
 value as int

---
 src/libs/conduit/fortran/conduit_fortran_obj.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/fortran/conduit_fortran_obj.f90 b/src/libs/conduit/fortran/conduit_fortran_obj.f90
index e956499..d9e0aa5 100644
--- a/src/libs/conduit/fortran/conduit_fortran_obj.f90
+++ b/src/libs/conduit/fortran/conduit_fortran_obj.f90
@@ -103,7 +103,7 @@ module conduit_obj
         procedure :: set_path_int32_ptr => conduit_node_obj_set_path_int32_ptr
         procedure :: set_path_external_int32_ptr => conduit_node_obj_set_path_external_int32_ptr
 
-        procedure :: as_int32      => conduit_node_obj_as_int
+        procedure :: as_int32      => conduit_node_obj_as_int32
         procedure :: as_int32_ptr  => conduit_node_obj_as_int32_ptr
         !----------------------------------------------------------------------
         procedure :: fetch_path_as_int32 => conduit_node_obj_fetch_path_as_int32
@@ -125,7 +125,7 @@ module conduit_obj
         procedure :: set_path_int64_ptr => conduit_node_obj_set_path_int64_ptr
         procedure :: set_path_external_int64_ptr => conduit_node_obj_set_path_external_int64_ptr
 
-        procedure :: as_int64      => conduit_node_obj_as_int
+        procedure :: as_int64      => conduit_node_obj_as_int64
         procedure :: as_int64_ptr  => conduit_node_obj_as_int64_ptr
         !----------------------------------------------------------------------
         procedure :: fetch_path_as_int64 => conduit_node_obj_fetch_path_as_int64
-- 
2.43.0


From 541ded766a2a100f3dea0028f0d20bf53511204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:14 +0000
Subject: [PATCH 55/55] fix: O2MIterator looks each item up through indices

---
 .../conduit_blueprint_o2mrelation_iterator.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 3e9cc9f..6a53f59 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -426,13 +426,21 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
             offset = m_offsets_node->as_index_t_accessor()[one_index];
         }
 
-        index = offset;
-        if(m_indices_node)
+        // offsets and sizes refer to entries of indices, so each "many" item
+        // is looked up on its own (when we are before the first item there
+        // is no entry to look up)
+        if(m_indices_node && many_index > 0)
         {
-            index = m_indices_node->as_index_t_accessor()[offset];
+            index = m_indices_node->as_index_t_accessor()[offset + many_index - 1];
+        }
+        else if(m_indices_node)
+        {
+            index = m_indices_node->as_index_t_accessor()[offset] + (many_index - 1);
+        }
+        else
+        {
+            index = offset + (many_index - 1);
         }
-
-        index += (many_index - 1);
     }
     else if(itype == ONE)
     {
-- 
2.43.0

