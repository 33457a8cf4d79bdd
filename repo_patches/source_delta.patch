From 0bf9196b6c0772d60623d96fa8cd1fdfad7ac388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:24 +0000
Subject: [PATCH 01/90] fix: make the small object pool thread safe and throw
 on exhaustion

---
 platform/src/alloc.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/platform/src/alloc.cpp b/platform/src/alloc.cpp
index de84b02..ea76185 100644
--- a/platform/src/alloc.cpp
+++ b/platform/src/alloc.cpp
@@ -4,6 +4,7 @@
 
 #include "roughpy/platform/alloc.h"
 
+#include <mutex>
 #include <new>
 
 #include <boost/pool/singleton_pool.hpp>
@@ -96,6 +97,13 @@ boost::pool<MyAlignedAlloc>* get_pool() noexcept
     return &pool;
 }
 
+// boost::pool does no locking of its own
+std::mutex& get_pool_lock() noexcept
+{
+    static std::mutex lock;
+    return lock;
+}
+
 
 }
 
@@ -104,10 +112,15 @@ void* rpy::mem::small_object_alloc(size_t size)
 {
     static constexpr size_t max_alignment = alignof(std::max_align_t);
     // return get_pool()->allocate(size);
+    void* ptr;
     if (size > small_block_size) {
-        return aligned_alloc(max_alignment, size);
+        ptr = aligned_alloc(max_alignment, size);
+    } else {
+        std::lock_guard<std::mutex> access(get_pool_lock());
+        ptr = get_pool()->malloc();
     }
-    return get_pool()->malloc();
+    if (ptr == nullptr) { throw std::bad_alloc(); }
+    return ptr;
 }
 
 void rpy::mem::small_object_free(void* ptr, size_t size)
@@ -115,6 +128,7 @@ void rpy::mem::small_object_free(void* ptr, size_t size)
     if (size > small_block_size) {
         aligned_free(ptr, size);
     } else {
+        std::lock_guard<std::mutex> access(get_pool_lock());
         get_pool()->free(static_cast<char*>(ptr));
     }
 
-- 
2.43.0


From e0b403be63fa5446f209f26509dd208ea7130b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 02/90] fix: initialise the reference count of device objects

---
 platform/include/roughpy/platform/devices/device_object_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/include/roughpy/platform/devices/device_object_base.h b/platform/include/roughpy/platform/devices/device_object_base.h
index 92da423..e437736 100644
--- a/platform/include/roughpy/platform/devices/device_object_base.h
+++ b/platform/include/roughpy/platform/devices/device_object_base.h
@@ -78,7 +78,7 @@ class RefCountBase : public Interface
     );
 
     using atomic_t = std::atomic_size_t;
-    atomic_t m_ref_count;
+    atomic_t m_ref_count{0};
 
 public:
     using Interface::Interface;
-- 
2.43.0


From 49dee861aeae1b4096436b93e17f5df6b3c2c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 03/90] fix: a new host event starts as submitted, not with an
 indeterminate status

---
 platform/src/devices/host/host_event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/src/devices/host/host_event.h b/platform/src/devices/host/host_event.h
index cbb86eb..e9a8398 100644
--- a/platform/src/devices/host/host_event.h
+++ b/platform/src/devices/host/host_event.h
@@ -51,7 +51,7 @@ class CPUEvent : public dtl::RefCountBase<EventInterface>
 
     mutable std::mutex m_lock;
     std::condition_variable m_cv;
-    EventStatus m_status;
+    EventStatus m_status = EventStatus::Submitted;
 
 public:
     void wait() override;
-- 
2.43.0


From dd7e1e842f0b9da0089faba47c992937033fe290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/90] fix: report host memory exhaustion instead of handing
 out a null buffer

---
 platform/src/devices/host/host_device_impl.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/platform/src/devices/host/host_device_impl.cpp b/platform/src/devices/host/host_device_impl.cpp
index ceb2337..c0308b5 100644
--- a/platform/src/devices/host/host_device_impl.cpp
+++ b/platform/src/devices/host/host_device_impl.cpp
@@ -60,6 +60,7 @@
 #include "kernels/masked_unary.h"
 
 #include <algorithm>
+#include <new>
 
 using namespace rpy;
 using namespace rpy::devices;
@@ -206,10 +207,15 @@ Buffer CPUDeviceHandle::raw_alloc(dimn_t count, dimn_t alignment) const
 {
     if (alignment == 0) { alignment = alignof(std::max_align_t); }
 
-    return Buffer(new CPUBuffer(
-            mem::aligned_alloc(alignment, count),
-            count
-    ));
+    void* ptr = mem::aligned_alloc(alignment, count);
+    if (ptr == nullptr && count != 0) { throw std::bad_alloc(); }
+
+    try {
+        return Buffer(new CPUBuffer(ptr, count));
+    } catch (...) {
+        mem::aligned_free(ptr);
+        throw;
+    }
 }
 void CPUDeviceHandle::raw_free(void* pointer, dimn_t size) const
 {
-- 
2.43.0


From 4291d7733fa4837e49a40a39d92bb652f248f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 05/90] fix: give every caching stream its own cache id

---
 .../include/roughpy/streams/dyadic_caching_layer.h   |  4 +++-
 streams/src/dyadic_caching_layer.cpp                 | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/streams/include/roughpy/streams/dyadic_caching_layer.h b/streams/include/roughpy/streams/dyadic_caching_layer.h
index 7b4ba6a..8cb522d 100644
--- a/streams/include/roughpy/streams/dyadic_caching_layer.h
+++ b/streams/include/roughpy/streams/dyadic_caching_layer.h
@@ -63,7 +63,9 @@ class ROUGHPY_STREAMS_EXPORT DyadicCachingLayer : public StreamInterface
     mutable std::map<intervals::DyadicInterval, algebra::Lie> m_cache;
     mutable std::recursive_mutex m_compute_lock;
 
-    uuids::uuid m_cache_id;
+    uuids::uuid m_cache_id = make_cache_id();
+
+    static uuids::uuid make_cache_id();
 
 public:
     using StreamInterface::StreamInterface;
diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index a35b02b..29b984a 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -54,9 +54,13 @@
 using namespace rpy;
 using namespace rpy::streams;
 
+uuids::uuid DyadicCachingLayer::make_cache_id()
+{
+    return uuids::random_generator()();
+}
+
 DyadicCachingLayer::DyadicCachingLayer()
-    : StreamInterface(), m_cache(), m_compute_lock(),
-          m_cache_id(uuids::random_generator()())
+    : StreamInterface(), m_cache(), m_compute_lock()
 {
 //    auto path = get_config().stream_cache_dir() / to_string(m_cache_id);
 //    {
@@ -67,7 +71,8 @@ DyadicCachingLayer::DyadicCachingLayer()
 }
 
 DyadicCachingLayer::DyadicCachingLayer(DyadicCachingLayer&& other) noexcept
-    : StreamInterface(static_cast<StreamInterface&&>(other))
+    : StreamInterface(static_cast<StreamInterface&&>(other)),
+      m_cache_id(other.m_cache_id)
 {
     std::lock_guard<std::recursive_mutex> access(other.m_compute_lock);
     m_cache = std::move(other.m_cache);
@@ -79,6 +84,7 @@ DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
         std::lock_guard<std::recursive_mutex> this_access(m_compute_lock);
         std::lock_guard<std::recursive_mutex> that_access(other.m_compute_lock);
         m_cache = std::move(other.m_cache);
+        m_cache_id = other.m_cache_id;
         StreamInterface::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From d6100dcf571d369696114ba1f010edeeee3be63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 06/90] fix: load a Brownian stream's fields in the order they
 were saved

---
 streams/include/roughpy/streams/brownian_stream.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streams/include/roughpy/streams/brownian_stream.h b/streams/include/roughpy/streams/brownian_stream.h
index 3e306b4..bea5ec8 100644
--- a/streams/include/roughpy/streams/brownian_stream.h
+++ b/streams/include/roughpy/streams/brownian_stream.h
@@ -109,12 +109,13 @@ RPY_SERIAL_LOAD_FN_IMPL(BrownianStream)
     const auto* stype = md.data_scalar_type;
 //    set_metadata(std::move(md));
 
-    std::string generator;
-    RPY_SERIAL_SERIALIZE_VAL(generator);
-
+    // The order must match that used when saving
     std::vector<uint64_t> seed;
     RPY_SERIAL_SERIALIZE_VAL(seed);
 
+    std::string generator;
+    RPY_SERIAL_SERIALIZE_VAL(generator);
+
     std::string state;
     RPY_SERIAL_SERIALIZE_VAL(state);
 
-- 
2.43.0


From 6ceb225e299c46aaf0a7110f04eccb42bc6e88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 07/90] fix: release the GIL and translate errors in stream
 derivatives and simplify

---
 roughpy/src/streams/stream.cpp | 70 +++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 370bdaf..c43b25c 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -323,12 +323,18 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         const auto& perturbation
                 = py::handle(second_arg).cast<const algebra::Lie&>();
 
-        result = stream.signature_derivative(
-                interval,
-                perturbation,
-                resolution,
-                *ctx
-        );
+        try {
+            py::gil_scoped_release gil;
+            result = stream.signature_derivative(
+                    interval,
+                    perturbation,
+                    resolution,
+                    *ctx
+            );
+        } catch (std::exception& err) {
+            PyErr_SetString(PyExc_RuntimeError, err.what());
+            return nullptr;
+        }
 
     } else if (PyTuple_Check(arg) && PySequence_Length(arg) == 2) {
         py::handle py_interval;
@@ -347,12 +353,18 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         const auto& interval = py_interval.cast<const intervals::Interval&>();
         const auto& perturbation = py_perturbation.cast<const algebra::Lie&>();
 
-        result = stream.signature_derivative(
-                interval,
-                perturbation,
-                resolution,
-                *ctx
-        );
+        try {
+            py::gil_scoped_release gil;
+            result = stream.signature_derivative(
+                    interval,
+                    perturbation,
+                    resolution,
+                    *ctx
+            );
+        } catch (std::exception& err) {
+            PyErr_SetString(PyExc_RuntimeError, err.what());
+            return nullptr;
+        }
     } else if (static_cast<bool>(PySequence_Check(arg)) && PySequence_Length(arg) > 0) {
         streams::Stream::perturbation_list_t perturbations;
         const auto n_perturbations = PySequence_Length(arg);
@@ -391,7 +403,17 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
             );
         }
 
-        result = stream.signature_derivative(perturbations, resolution, *ctx);
+        try {
+            py::gil_scoped_release gil;
+            result = stream.signature_derivative(
+                    perturbations,
+                    resolution,
+                    *ctx
+            );
+        } catch (std::exception& err) {
+            PyErr_SetString(PyExc_RuntimeError, err.what());
+            return nullptr;
+        }
     } else {
         PyErr_SetString(
                 PyExc_ValueError,
@@ -434,6 +456,7 @@ simplify_stream(PyObject* self, PyObject* args, PyObject* kwargs)
 
     const auto& partition = py::cast<const intervals::Partition&>(py_partition);
 
+    auto ctx = md.default_context;
     if (py_context != nullptr) {
         auto pctx = reinterpret_cast<python::RPyContext*>(py_context)->p_ctx;
 
@@ -454,18 +477,21 @@ simplify_stream(PyObject* self, PyObject* args, PyObject* kwargs)
             return nullptr;
         }
 
-        return python::RPyStream_FromStream(
-                stream.simplify(partition, resolution, *pctx)
-        );
+        ctx = std::move(pctx);
+    } else if (depth != 0) {
+        ctx = md.default_context->get_alike(depth);
     }
-    if (depth != 0) {
-        auto ctx = md.default_context->get_alike(depth);
-        return python::RPyStream_FromStream(
-                stream.simplify(partition, resolution, *ctx)
-        );
+
+    Stream simplified;
+    try {
+        py::gil_scoped_release gil;
+        simplified = stream.simplify(partition, resolution, *ctx);
+    } catch (std::exception& err) {
+        PyErr_SetString(PyExc_RuntimeError, err.what());
+        return nullptr;
     }
 
-    return python::RPyStream_FromStream(stream.simplify(partition, resolution));
+    return python::RPyStream_FromStream(std::move(simplified));
 }
 
 static const char RESTRICT_DOC[] = R"rpydoc(Create a new :class:`Stream` with the same
-- 
2.43.0


From f968146e482879e676078f1ecd7db4affddf9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 08/90] fix: report errors while pickling a stream instead of
 terminating

---
 roughpy/src/streams/stream.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index c43b25c..18640f4 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -526,13 +526,20 @@ stream___getnewargs_ex__(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
     PyObject* data;
 
-    std::stringstream ss;
-    {
-        rpy::archives::BinaryOutputArchive oar(ss);
-        oar(reinterpret_cast<python::RPyStream*>(self)->m_data);
+    std::string s;
+    try {
+        py::gil_scoped_release gil;
+        std::stringstream ss;
+        {
+            rpy::archives::BinaryOutputArchive oar(ss);
+            oar(reinterpret_cast<python::RPyStream*>(self)->m_data);
+        }
+        s = ss.str();
+    } catch (std::exception& err) {
+        PyErr_SetString(PyExc_RuntimeError, err.what());
+        return nullptr;
     }
 
-    auto s = ss.str();
     data = PyByteArray_FromStringAndSize(
             s.data(),
             static_cast<Py_ssize_t>(s.size())
@@ -662,7 +669,7 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
 
         // Ensure that the stream object is initialised in the data slot.
         construct_inplace<streams::Stream>(&self->m_data);
-        {
+        try {
             std::string raw(
                     PyByteArray_AS_STRING(pybuff),
                     PyByteArray_GET_SIZE(pybuff)
@@ -670,6 +677,10 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
             std::stringstream ss(raw);
             rpy::archives::BinaryInputArchive iar(ss);
             iar(self->m_data);
+        } catch (std::exception& err) {
+            Py_DECREF(self);
+            PyErr_SetString(PyExc_RuntimeError, err.what());
+            return nullptr;
         }
 
         return reinterpret_cast<PyObject*>(self);
-- 
2.43.0


From 1c09731f4b755e41619b0286a52161a4dd7ac98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 09/90] fix: do not serve cached log signatures computed in
 another context

---
 streams/src/dyadic_caching_layer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index 29b984a..408f469 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -103,6 +103,14 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
     if (interval.power() == stream_resolution) {
         std::lock_guard<std::recursive_mutex> access(m_compute_lock);
 
+        // The cache only holds values computed in the default context.
+        const auto& default_ctx = *metadata().default_context;
+        if (ctx.width() != default_ctx.width()
+            || ctx.depth() != default_ctx.depth()
+            || ctx.ctype() != default_ctx.ctype()) {
+            return log_signature_impl(interval, ctx);
+        }
+
         auto& cached = m_cache[interval];
         if (!cached) { cached = log_signature_impl(interval, ctx); }
         // Currently, const borrowing is not permitted, so return a mutable
-- 
2.43.0


From 01e6ca04905e8fde385e93d2c892ad10d4f01d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 10/90] fix: destroy the stream held by a Python Stream object

---
 roughpy/src/streams/stream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 18640f4..b054659 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -638,9 +638,10 @@ static PyObject* RPyStream_repr(PyObject* self)
 }
 static PyObject* RPyStream_str(PyObject* self) { return RPyStream_repr(self); }
 
-static void RPyStream_finalize(PyObject* self)
+static void RPyStream_dealloc(PyObject* self)
 {
     reinterpret_cast<python::RPyStream*>(self)->m_data.~Stream();
+    Py_TYPE(self)->tp_free(self);
 }
 
 static PyObject*
@@ -698,7 +699,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         "roughpy.Stream",                         /* tp_name */
         sizeof(python::RPyStream),                /* tp_basicsize */
         0,                                        /* tp_itemsize */
-        nullptr,                                  /* tp_dealloc */
+        (destructor) RPyStream_dealloc,           /* tp_dealloc */
         0,                                        /* tp_vectorcall_offset */
         (getattrfunc) nullptr,                    /* tp_getattr */
         (setattrfunc) nullptr,                    /* tp_setattr */
@@ -741,7 +742,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         nullptr,                                  /* tp_weaklist */
         nullptr,                                  /* tp_del */
         0,                                        /* tp_version_tag */
-        (destructor) RPyStream_finalize,          /* tp_finalize */
+        nullptr,                                  /* tp_finalize */
         nullptr                                   /* tp_vectorcall */
 };
 }// extern "C"
-- 
2.43.0


From 28ca4dea6b9da8d5eb9f6bd37bdb2d105b110b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 11/90] fix: derive a new root's value from its children in
 dynamic streams

---
 .../src/dynamically_constructed_stream.cpp    | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index d55e045..fc38a5c 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -133,16 +133,33 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
 
         RPY_DBG_ASSERT(!dyadic_equals(neighbour, old_root->first));
 
-        auto it_neighbour = insert_node(
-            neighbour,
-            make_neighbour_root_increment(neighbour),
-            neighbour.power(),
-            old_root);
-        root = insert_node(new_root,
-                           make_new_root_increment(new_root),
-                           old_root->first.power(),
-                           old_root);
-        update_parent_accuracy(old_root);
+        const auto& md = metadata();
+        auto neighbour_value = make_neighbour_root_increment(neighbour);
+
+        // The value on the new root is determined by its two children.
+        auto root_value = old_root->first.aligned()
+                ? md.default_context->cbh(old_root->second.lie(),
+                                          neighbour_value,
+                                          md.cached_vector_type)
+                : md.default_context->cbh(neighbour_value,
+                                          old_root->second.lie(),
+                                          md.cached_vector_type);
+        const auto accuracy = std::min(old_root->second.accuracy(),
+                                       neighbour.power());
+
+        auto it_neighbour = insert_node(neighbour,
+                                        std::move(neighbour_value),
+                                        neighbour.power(),
+                                        old_root);
+        try {
+            root = insert_node(new_root,
+                               std::move(root_value),
+                               accuracy,
+                               old_root);
+        } catch (...) {
+            m_data_tree.erase(it_neighbour);
+            throw;
+        }
 
         RPY_DBG_ASSERT(old_root != it_neighbour);
         RPY_DBG_ASSERT(it_neighbour != root);
-- 
2.43.0


From 4ec865c5cefab34d4eb6e9ef439d911a60aeee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 12/90] fix: do not leave half of a split behind when a dynamic
 stream runs out of memory

---
 streams/src/dynamically_constructed_stream.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index fc38a5c..c980a5b 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -281,10 +281,16 @@ streams::DynamicallyConstructedStream::insert_children_and_refine(
 
     auto it_left
             = insert_node(left, std::move(new_vals.first), left.power(), leaf);
-    auto it_right = insert_node(right,
-                                std::move(new_vals.second),
-                                right.power(),
-                                it_left);
+    data_increment it_right;
+    try {
+        it_right = insert_node(right,
+                               std::move(new_vals.second),
+                               right.power(),
+                               it_left);
+    } catch (...) {
+        m_data_tree.erase(it_left);
+        throw;
+    }
 
     RPY_DBG_ASSERT(it_left != leaf && it_right != leaf);
 
-- 
2.43.0


From a23cf487085424010c1203c57b1e196c8e842a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 13/90] fix: Brownian increments have the variance of a
 Brownian path

---
 streams/src/brownian_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/src/brownian_stream.cpp b/streams/src/brownian_stream.cpp
index 7769afd..de50250 100644
--- a/streams/src/brownian_stream.cpp
+++ b/streams/src/brownian_stream.cpp
@@ -35,6 +35,8 @@
 
 #include <cereal/types/vector.hpp>
 
+#include <cmath>
+
 using namespace rpy;
 using namespace rpy::streams;
 
@@ -46,7 +48,7 @@ algebra::Lie BrownianStream::gaussian_increment(
     const auto& md = metadata();
     scalars::KeyScalarArray incr(p_generator->normal_random(
             scalars::Scalar(0.),
-            scalars::Scalar(length),
+            scalars::Scalar(std::sqrt(length)),
             md.width
     ));
     return ctx.construct_lie({std::move(incr), md.cached_vector_type});
@@ -69,7 +71,7 @@ pair<algebra::Lie, algebra::Lie> BrownianStream::compute_child_lie_increments(
     const auto mean
             = parent_value.smul(scalars::Scalar(md.data_scalar_type, 1, 2));
 
-    auto length = ldexp(0.5, left_di.power());
+    auto length = ldexp(0.5, -left_di.power());
 
     const auto perturbation = gaussian_increment(*md.default_context, length);
     return {mean.add(perturbation), mean.sub(perturbation)};
-- 
2.43.0


From f42e890b96dfd50da2d5bf253e187ad32a1480b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 14/90] fix: refine the whole of a dynamic stream's interval to
 the resolution asked for

---
 .../src/dynamically_constructed_stream.cpp    | 59 +++++--------------
 1 file changed, 16 insertions(+), 43 deletions(-)

diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index c980a5b..03f8fe7 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -48,50 +48,23 @@ void streams::DynamicallyConstructedStream::refine_accuracy(
     resolution_t desired) const
 {
     RPY_DBG_ASSERT(increment->first.power() < desired);
-    //
-    //    // get all the intervals in the tree "below" increment->first
-    //    auto range = m_data_tree.equal_range(increment->first);
-    //
-    //    // update all the leaves below until we reach the desired accuracy
-    //    while (range.first != range.second) {
-    //        if (range.first->second.accuracy() >= desired) {
-    //            // Do nothing, but advance until after this interval
-    //            DyadicInterval val(range.first->first);
-    //            ++val;
-    //
-    //            for (; range.first->first < val; ++range.first) {}
-    //        } else if (DataIncrement::is_leaf(range.first)) {
-    //            // If we're at depth and have a leaf, then
-    //            // divide and refine down.
-    //            DyadicInterval val(range.first->first);
-    //            val.shrink_interval_left();
-    //            range.first = insert_children_and_refine(range.first, val);
-    //        } else {
-    //            // If we're not a leaf, then continue down the tree until
-    //            // we reach a leaf.
-    //            ++range.first;
-    //        }
-    //    }
-    auto [leaf_above, end] = m_data_tree.equal_range(increment->first);
-
-    for (; leaf_above != end && leaf_above->first.power() < desired; ++leaf_above) {
-        if (!DataIncrement::is_leaf(leaf_above)) { continue; }
-
-        DyadicInterval refined_inc(increment->first);
-        DyadicInterval refined_end(increment->first);
-        refined_inc.shrink_interval_left(desired - increment->first.power());
-        ++refined_end;
-        refined_end.shrink_interval_left(desired - increment->first.power());
-
-        for (; refined_inc < refined_end; ++(++refined_inc)) {
-            while (leaf_above->first.contains_dyadic(refined_inc)
-                && !dyadic_equals(leaf_above->first, refined_inc)) {
-                leaf_above = insert_children_and_refine(leaf_above, refined_inc);
-            }
-
-            update_parents(leaf_above);
-        }
+    if (increment->second.accuracy() >= desired) { return; }
+
+    data_increment left;
+    if (DataIncrement::is_leaf(increment)) {
+        DyadicInterval left_di(increment->first);
+        left_di.shrink_interval_left();
+        left = insert_children_and_refine(increment, left_di);
+    } else {
+        // The left child immediately follows its parent in the tree.
+        left = std::next(increment);
     }
+
+    // Bringing both children up to the desired accuracy also updates the value
+    // and accuracy of this increment.
+    refine_accuracy(left, desired);
+    refine_accuracy(left->second.sibling(), desired);
+    update_parents(left);
 }
 
 DynamicallyConstructedStream::data_increment
-- 
2.43.0


From 657724b6ecb6885d1c2100ba6bc3bba60f7737bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 15/90] fix: let dynamic streams answer queries on both sides
 of zero

---
 .../streams/dynamically_constructed_stream.h  |  3 ++
 .../src/dynamically_constructed_stream.cpp    | 31 ++++++++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index c818977..88829fe 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -106,6 +106,9 @@ private:
 
     void refine_accuracy(data_increment increment, resolution_t desired) const;
 
+    RPY_NO_DISCARD
+    data_increment find_root(DyadicInterval di) const;
+
     RPY_NO_DISCARD
     data_increment expand_root_until_contains(data_increment root,
                                               DyadicInterval di) const;
diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index 03f8fe7..6085038 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -82,6 +82,27 @@ streams::DynamicallyConstructedStream::insert_node(
     return it;
 }
 
+typename DynamicallyConstructedStream::data_increment
+streams::DynamicallyConstructedStream::find_root(DyadicInterval di) const
+{
+    const auto end = m_data_tree.end();
+    if (m_data_tree.empty()) { return end; }
+
+    // No dyadic interval contains points on both sides of zero, so there is
+    // one tree for each side. The first lies before the second in the map.
+    const auto first_side = [](const DyadicInterval& interval) {
+        return interval.unit() * interval.multiplier() < 0;
+    };
+
+    auto root = m_data_tree.begin();
+    if (!first_side(di)) {
+        root = std::prev(end);
+        while (root->second.parent() != end) { root = root->second.parent(); }
+    }
+
+    return first_side(root->first) == first_side(di) ? root : end;
+}
+
 typename DynamicallyConstructedStream::data_increment
 streams::DynamicallyConstructedStream::expand_root_until_contains(
     data_increment root,
@@ -210,11 +231,11 @@ void streams::DynamicallyConstructedStream::update_parents(
     //        top = update_parent_accuracy(below);
     //    }
     const auto& md = metadata();
-    auto root = m_data_tree.begin();
+    const auto end = m_data_tree.end();
 
-    while (current != root) {
+    // Only a root has no parent.
+    while (current->second.parent() != end) {
         auto parent = current->second.parent();
-        RPY_DBG_ASSERT(parent != m_data_tree.end());
         auto sibling = current->second.sibling();
 
         auto accuracy_available = std::min(current->second.accuracy(),
@@ -300,9 +321,9 @@ algebra::Lie DynamicallyConstructedStream::log_signature(
         return found->second.lie();
     }
 
-    auto root = m_data_tree.begin();
+    auto root = find_root(interval);
     if (root == end) {
-        // The tree currently holds no data.
+        // The tree holds no data on this side of zero.
         root = insert_node(interval,
                            make_new_root_increment(interval),
                            interval.power(),
-- 
2.43.0


From b12a0a22e7f7808b83de5488a6ad0e8bc7a01709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 16/90] fix: keep a dynamic stream's tree consistent when the
 stream is moved

---
 .../roughpy/streams/dynamically_constructed_stream.h   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index 88829fe..a130b05 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -151,7 +151,15 @@ public:
     DynamicallyConstructedStream(DynamicallyConstructedStream&& other) noexcept
         : StreamInterface(static_cast<StreamInterface&&>(other)), m_lock(),
           m_data_tree(std::move(other.m_data_tree))
-    {}
+    {
+        // The end iterator does not move with the contents of the tree.
+        const auto old_end = other.m_data_tree.end();
+        const auto new_end = m_data_tree.end();
+        for (auto& [interval, increment] : m_data_tree) {
+            if (increment.parent() == old_end) { increment.parent(new_end); }
+            if (increment.sibling() == old_end) { increment.sibling(new_end); }
+        }
+    }
 
     algebra::Lie log_signature(const intervals::DyadicInterval& interval,
                                resolution_t resolution,
-- 
2.43.0


From 92bd6f139a81aef5d06e6d93994ee1a1c34ddbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 17/90] fix: let growing a dense vector report memory
 exhaustion

---
 vendored/libalgebra_lite/dense_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 7035518..08f4fc5 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -188,7 +188,7 @@ public:
     constexpr bool empty() const noexcept { return m_storage.empty(); }
 
     template <typename Index>
-    reference operator[](Index idx) noexcept
+    reference operator[](Index idx)
     {
         auto key = p_basis->key_to_index(idx);
         if (key >= m_storage.size()) { resize(key); }
-- 
2.43.0


From 4af719515cfb1530cc58df855193a12b072300c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 18/90] fix: answer dynamic stream queries in the context asked
 for

---
 streams/src/dynamically_constructed_stream.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index 6085038..ab194cd 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -386,8 +386,17 @@ DynamicallyConstructedStream::log_signature(const intervals::Interval& domain,
     std::vector<Lie> lies;
     lies.reserve(dyadic_dissection.size());
 
+    // The values in the tree all belong to the default context.
+    const auto& default_ctx = *md.default_context;
+    const bool needs_convert = ctx.depth() != default_ctx.depth()
+            || ctx.ctype() != default_ctx.ctype();
+
     for (const auto& itvl : dyadic_dissection) {
-        lies.push_back(log_signature(itvl, resolution, ctx));
+        auto value = log_signature(itvl, resolution, ctx);
+        if (needs_convert && value) {
+            value = ctx.convert(value, md.cached_vector_type);
+        }
+        lies.push_back(std::move(value));
     }
 
     return ctx.cbh(lies, md.cached_vector_type);
-- 
2.43.0


From becf72e391ffbaab35b64796dede42b16222658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 19/90] fix: truncate sparse data beyond a context's depth

---
 algebra/src/lite_context.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5ca211f..a8e784b 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -452,7 +452,10 @@ OutType LiteContext<Coefficients>::construct_impl(
 
     Slice<const scalar_type> raw_data;
 
-    const auto size = std::min(data.data.size(), basis->size(-1));
+    const auto max_size = basis->size(-1);
+    const auto size = data.data.has_keys()
+            ? data.data.size()
+            : std::min(data.data.size(), max_size);
     std::vector<scalar_type> tmp;
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
@@ -469,6 +472,8 @@ OutType LiteContext<Coefficients>::construct_impl(
         const auto* keys = data.data.keys();
 
         for (dimn_t i = 0; i < size; ++i) {
+            // Terms beyond the depth of this context are truncated
+            if (keys[i] >= max_size) { continue; }
             result[basis->index_to_key(keys[i])] = raw_data[i];
         }
 
-- 
2.43.0


From 464cae29399904b895d768f0b2f80e54c664bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 20/90] fix: let growing a sparse vector report memory
 exhaustion

---
 .../libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h | 2 ++
 vendored/libalgebra_lite/sparse_vector.h                       | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
index 7f77ab8..336bbd4 100644
--- a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
+++ b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
@@ -56,6 +56,8 @@ public:
         : m_data(std::move(arg))
     {}
 
+    ~SparseMutableRefScalarImpl() noexcept override {}
+
     using value_type = typename data_type::scalar_type;
     using rational_type = typename trait::rational_type;
 
diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 76c5b44..9fae779 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -90,7 +90,8 @@ public:
         if (m_it != m_vector.m_data.end()) { m_tmp = m_it->second; }
     }
 
-    ~sparse_mutable_reference()
+    // Storing the value can fail if there is no memory for a new element.
+    ~sparse_mutable_reference() noexcept(false)
     {
         if (m_tmp != scalar_type(0)) {
             if (m_it != m_vector.m_data.end()) {
-- 
2.43.0


From 5f1c0449a3d6cbf42c81b4c39faacc55775f7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 21/90] fix: do not mark a bracketing as known before it is
 computed

---
 vendored/libalgebra_lite/maps.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vendored/libalgebra_lite/maps.cpp b/vendored/libalgebra_lite/maps.cpp
index 9efbf3b..5ca05f9 100644
--- a/vendored/libalgebra_lite/maps.cpp
+++ b/vendored/libalgebra_lite/maps.cpp
@@ -62,16 +62,19 @@ typename dtl::maps_implementation::glie_ref dtl::maps_implementation::rbracketin
         return found.value;
     }
 
-    found.set = true;
+    // The item is only marked as set once its value is known, since computing
+    // the value might throw.
     if (p_tensor_basis->letter(tkey)) {
         found.value.emplace_back(lkey_type(1, tkey.index()), 1);
-        return found.value;
-    }
+    } else {
+        auto lhs = p_tensor_basis->lparent(tkey);
+        auto rhs = p_tensor_basis->rparent(tkey);
 
-    auto lhs = p_tensor_basis->lparent(tkey);
-    auto rhs = p_tensor_basis->rparent(tkey);
+        found.value = p_lie_mul->multiply_generic(*p_lie_basis, rbracketing(lhs), rbracketing(rhs));
+    }
+    found.set = true;
 
-    return found.value = p_lie_mul->multiply_generic(*p_lie_basis, rbracketing(lhs), rbracketing(rhs));
+    return found.value;
 }
 typename dtl::maps_implementation::gtensor_ref dtl::maps_implementation::expand(
         dtl::maps_implementation::lkey_type lkey) const
-- 
2.43.0


From 9fd30e7320e6360b5ac560f97353698f3d9bf5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 22/90] fix: guard the half shuffle product caches

---
 .../libalgebra_lite/algebra/half_shuffle_multiplier.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp b/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
index d448c40..45a9af4 100644
--- a/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
+++ b/vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp
@@ -5,6 +5,8 @@
 #include "libalgebra_lite/shuffle_tensor.h"
 #include "libalgebra_lite/free_tensor.h"
 
+#include <mutex>
+
 
 
 
@@ -89,6 +91,8 @@ left_half_shuffle_tensor_multiplier::operator()(
         return null;
     }
 
+    std::lock_guard<std::recursive_mutex> access(m_lock);
+
     parent_type parents{lhs, rhs};
     auto found = m_cache.find(parents);
     if (found != m_cache.end()) {
@@ -179,6 +183,8 @@ right_half_shuffle_tensor_multiplier::operator()(
         return null;
     }
 
+    std::lock_guard<std::recursive_mutex> access(m_lock);
+
     parent_type parents{lhs, rhs};
     auto found = m_cache.find(parents);
     if (found != m_cache.end()) {
-- 
2.43.0


From b2dd7348170a28d37346cd0689043a9141deb7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 23/90] fix: do not serve Lie products beyond a basis's depth
 from the shared cache

---
 vendored/libalgebra_lite/algebra/lie_multiplier.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vendored/libalgebra_lite/algebra/lie_multiplier.cpp b/vendored/libalgebra_lite/algebra/lie_multiplier.cpp
index dda1d35..a1628f2 100644
--- a/vendored/libalgebra_lite/algebra/lie_multiplier.cpp
+++ b/vendored/libalgebra_lite/algebra/lie_multiplier.cpp
@@ -54,6 +54,12 @@ lie_multiplier::reference lie_multiplier::operator()(
         return null;
     }
 
+    // The cache is shared by all bases of this width, so it might already hold
+    // products that are beyond the depth of this basis.
+    if (basis.degree(lhs) + basis.degree(rhs) > basis.depth()) {
+        return null;
+    }
+
     std::lock_guard<std::recursive_mutex> access(m_lock);
 
     parent_type parents {lhs, rhs};
-- 
2.43.0


From 8aa94a239f1270c4402d7e52de851d995193e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 24/90] fix: report memory exhaustion when assigning to a
 sparse element

---
 .../sparse_mutable_ref_scalar_trait.h                  |  2 ++
 vendored/libalgebra_lite/sparse_vector.h               | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
index 336bbd4..ec97c87 100644
--- a/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
+++ b/algebra/src/libalgebra_lite_internal/sparse_mutable_ref_scalar_trait.h
@@ -88,6 +88,7 @@ private:
         m_data
                 = f(static_cast<const value_type&>(m_data),
                     scalar_cast<value_type>(other));
+        m_data.ensure_stored();
     }
 
 public:
@@ -118,6 +119,7 @@ template <typename Vector>
 void SparseMutableRefScalarImpl<Vector>::set_value(const Scalar& value)
 {
     m_data = scalar_cast<typename trait::value_type>(value);
+    m_data.ensure_stored();
 }
 
 }// namespace dtl
diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 9fae779..73032f8 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -104,6 +104,16 @@ public:
         }
     }
 
+    // Make sure there is an element in the vector to hold a non-zero value, so
+    // that the destructor does not need to allocate.
+    void ensure_stored()
+    {
+        if (m_it == m_vector.m_data.end() && m_tmp != scalar_type(0)) {
+            m_vector.insert_new_value(m_key, m_tmp);
+            m_it = m_vector.m_data.find(m_key);
+        }
+    }
+
     operator const scalar_type&(
     ) const noexcept// NOLINT(google-explicit-constructor)
     {
-- 
2.43.0


From 03d2e1262cf9702892d80e5308e55a0b72d402cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 25/90] fix: release the storage of scalar arrays exactly once
 on assignment

Assigning to an owning ScalarArray or KeyScalarArray destroyed the members and
then assigned through them, relying on stores made by the destructor that the
compiler is free to drop; the old buffer was then released twice. A copy of a
borrowing array also kept the borrowing mode while holding a buffer.
---
 .../roughpy/scalars/key_scalar_array.h        |   2 +
 scalars/src/key_scalar_array.cpp              |  37 ++++---
 scalars/src/scalar_array.cpp                  | 103 +++++++-----------
 3 files changed, 62 insertions(+), 80 deletions(-)

diff --git a/scalars/include/roughpy/scalars/key_scalar_array.h b/scalars/include/roughpy/scalars/key_scalar_array.h
index e18cffc..f6e81dd 100644
--- a/scalars/include/roughpy/scalars/key_scalar_array.h
+++ b/scalars/include/roughpy/scalars/key_scalar_array.h
@@ -50,6 +50,8 @@ class ROUGHPY_SCALARS_EXPORT KeyScalarArray : public ScalarArray
     const key_type* p_keys = nullptr;
     bool m_owns_keys = false;
 
+    void release_keys() noexcept;
+
 public:
     KeyScalarArray() = default;
     ~KeyScalarArray();
diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index df4747b..c46f97d 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -34,6 +34,10 @@ using namespace rpy;
 using namespace rpy::scalars;
 
 KeyScalarArray::~KeyScalarArray()
+{
+    release_keys();
+}
+void KeyScalarArray::release_keys() noexcept
 {
     if (p_keys != nullptr && m_owns_keys) { delete[] p_keys; }
     p_keys = nullptr;
@@ -88,17 +92,21 @@ KeyScalarArray KeyScalarArray::copy_or_move() && {
 KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
-        ScalarArray::operator=(other);
+        const key_type* new_keys = other.p_keys;
         if (other.m_owns_keys) {
-            allocate_keys();
-            std::copy_n(other.p_keys, other.size(), keys());
-            m_owns_keys = true;
-        } else {
-            p_keys = other.p_keys;
-            m_owns_keys = false;
+            auto* copied = new key_type[other.size()]{};
+            std::copy_n(other.p_keys, other.size(), copied);
+            new_keys = copied;
         }
-
+        try {
+            ScalarArray::operator=(other);
+        } catch (...) {
+            if (other.m_owns_keys) { delete[] new_keys; }
+            throw;
+        }
+        release_keys();
+        p_keys = new_keys;
+        m_owns_keys = other.m_owns_keys;
     }
     return *this;
 }
@@ -106,29 +114,28 @@ KeyScalarArray& KeyScalarArray::operator=(const KeyScalarArray& other)
 KeyScalarArray& KeyScalarArray::operator=(const ScalarArray& other)
 {
     if (&other != this) {
-        this->~KeyScalarArray();
         ScalarArray::operator=(other);
+        release_keys();
     }
     return *this;
 }
 KeyScalarArray& KeyScalarArray::operator=(KeyScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
-
         ScalarArray::operator=(std::move(other));
+        release_keys();
         p_keys = other.p_keys;
-        other.p_keys = nullptr;
         m_owns_keys = other.m_owns_keys;
-
+        other.p_keys = nullptr;
+        other.m_owns_keys = false;
     }
     return *this;
 }
 KeyScalarArray& KeyScalarArray::operator=(ScalarArray&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarArray();
         ScalarArray::operator=(std::move(other));
+        release_keys();
     }
     return *this;
 }
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 737225b..729bde4 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -110,8 +110,13 @@ ScalarArray::ScalarArray(devices::TypeInfo info, dimn_t size)
 {
     RPY_CHECK(traits::is_fundamental(info));
     if (size != 0) {
-        owned_buffer
-                = devices::get_host_device()->raw_alloc(size*info.alignment, info.alignment);
+        construct_inplace(
+                &owned_buffer,
+                devices::get_host_device()
+                        ->raw_alloc(size * info.bytes, info.alignment)
+        );
+    } else {
+        construct_inplace(&owned_buffer);
     }
 }
 
@@ -163,57 +168,40 @@ ScalarArray::~ScalarArray()
 
 ScalarArray& ScalarArray::operator=(const ScalarArray& other)
 {
-    if (&other != this && !other.p_type_and_mode.is_null()) {
-        this->~ScalarArray();
-
-        if (p_type_and_mode.is_null()) {
-            p_type_and_mode = other.p_type_and_mode;
-        }
+    if (&other == this) { return *this; }
 
-        auto info = type_info();
-        if (p_type_and_mode.is_pointer()) {
-            auto device = p_type_and_mode->device();
-            owned_buffer = device->raw_alloc(
-                    other.size() * info.bytes,
-                    info.alignment
-            );
-            m_size = other.size();
-            p_type_and_mode->convert_copy(*this, other);
+    if (other.p_type_and_mode.is_null()) {
+        *this = ScalarArray();
+    } else {
+        /*
+         * Build the copy completely before giving up the current contents, so
+         * that a failure part way through leaves this array as it was.
+         */
+        ScalarArray copy;
+        const auto info = other.type_info();
+        if (other.p_type_and_mode.is_pointer()) {
+            const auto* type = other.p_type_and_mode.get_pointer();
+            copy = type->allocate(other.size());
+            type->convert_copy(copy, other);
         } else {
             RPY_CHECK(traits::is_fundamental(info));
-            auto device = devices::get_host_device();
-
-            m_size = other.size();
-            auto nbytes = m_size * info.bytes;
-            owned_buffer = device->raw_alloc(nbytes, info.alignment);
-
-            if (other.p_type_and_mode.is_pointer()) {
-                other.p_type_and_mode->convert_copy(*this, other);
-            } else {
-                auto other_type_info = other.type_info();
-                RPY_CHECK(traits::is_fundamental(other_type_info));
-                if (info == other_type_info) {
-                    std::memcpy(
-                            owned_buffer.ptr(),
-                            other.raw_pointer(0),
-                            nbytes
-                    );
-                } else {
-                    if (!dtl::scalar_convert_copy(
-                                owned_buffer.ptr(),
-                                info,
-                                other.raw_pointer(0),
-                                other_type_info,
-                                m_size
-                        )) {
-                        RPY_THROW(
-                                std::runtime_error,
-                                "unable to convert scalar array values"
-                        );
-                    }
-                }
+            const auto nbytes = other.size() * info.bytes;
+            copy = ScalarArray(
+                    info,
+                    devices::get_host_device()->raw_alloc(
+                            nbytes,
+                            info.alignment
+                    )
+            );
+            if (nbytes > 0) {
+                std::memcpy(
+                        copy.raw_mut_pointer(0),
+                        other.raw_pointer(0),
+                        nbytes
+                );
             }
         }
+        *this = std::move(copy);
     }
     return *this;
 }
@@ -222,19 +210,7 @@ ScalarArray& ScalarArray::operator=(ScalarArray&& other) noexcept
 {
     if (&other != this) {
         this->~ScalarArray();
-        p_type_and_mode = other.p_type_and_mode;
-        m_size = other.m_size;
-        switch (p_type_and_mode.get_enumeration()) {
-            case dtl::ScalarArrayStorageModel::BorrowMut:
-                mut_borrowed = other.mut_borrowed;
-                break;
-            case dtl::ScalarArrayStorageModel::BorrowConst:
-                const_borrowed = other.const_borrowed;
-                break;
-            case dtl::ScalarArrayStorageModel::Owned:
-                owned_buffer = std::move(other.owned_buffer);
-                break;
-        }
+        construct_inplace(this, std::move(other));
     }
     return *this;
 }
@@ -484,10 +460,7 @@ void ScalarArray::from_raw_bytes(
     if (tp_o) {
         *this = (*tp_o)->allocate(count);
     } else {
-        p_type_and_mode
-                = type_pointer(info, dtl::ScalarArrayStorageModel::Owned);
-        owned_buffer
-                = devices::get_host_device()->raw_alloc(count, info.alignment);
+        *this = ScalarArray(info, count);
     }
 
     dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
-- 
2.43.0


From 0358b263a4b23896292722085e46c18761ecc781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 26/90] fix: let naming a basis key report memory exhaustion

---
 algebra/include/roughpy/algebra/basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/include/roughpy/algebra/basis.h b/algebra/include/roughpy/algebra/basis.h
index 2853e07..1aac0be 100644
--- a/algebra/include/roughpy/algebra/basis.h
+++ b/algebra/include/roughpy/algebra/basis.h
@@ -197,7 +197,7 @@ public:
         return static_cast<bool>(p_impl);
     }
 
-    RPY_NO_DISCARD string key_to_string(const key_type& key) const noexcept
+    RPY_NO_DISCARD string key_to_string(const key_type& key) const
     {
         return instance().key_to_string(key);
     }
-- 
2.43.0


From e235b2b85cfdbdebb1b5ad1421634f56540ba1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 27/90] fix: assign through references to sparse elements

Assigning a Scalar to the reference for an element of a sparse vector followed
a null type pointer, so loading the archive of a sparse vector crashed.
---
 scalars/include/roughpy/scalars/scalar.h |  4 +++-
 scalars/src/scalar.cpp                   | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index ec15161..74219c0 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -213,6 +213,8 @@ class ROUGHPY_SCALARS_EXPORT Scalar
 
     void copy_from_opaque_pointer(devices::TypeInfo info, const void* src);
 
+    bool is_interface() const noexcept;
+
 protected:
     type_pointer packed_type() const noexcept
     {
@@ -406,7 +408,7 @@ public:
     }
 
     Scalar& operator=(const Scalar& other);
-    Scalar& operator=(Scalar&& other) noexcept;
+    Scalar& operator=(Scalar&& other);
 
     /**
      * @brief Perform a quick test to see if this is zero.
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 435a197..fb38750 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -296,6 +296,8 @@ Scalar& Scalar::operator=(const Scalar& other)
 //                        "is not allowed"
 //                    );
             }
+        } else if (is_interface()) {
+            interface_ptr->set_value(other);
         } else {
             dtl::scalar_convert_copy(
                 mut_pointer(),
@@ -307,11 +309,13 @@ Scalar& Scalar::operator=(const Scalar& other)
     return *this;
 }
 
-Scalar& Scalar::operator=(Scalar&& other) noexcept
+Scalar& Scalar::operator=(Scalar&& other)
 {
     if (&other != this) {
         if (p_type_and_content_type.is_null()) {
             construct_inplace(this, std::move(other));
+        } else if (is_interface()) {
+            interface_ptr->set_value(other);
         } else {
             dtl::scalar_convert_copy(mut_pointer(), type_info(), other);
         }
@@ -320,6 +324,16 @@ Scalar& Scalar::operator=(Scalar&& other) noexcept
     return *this;
 }
 
+bool Scalar::is_interface() const noexcept
+{
+    switch (p_type_and_content_type.get_enumeration()) {
+        case dtl::ScalarContentType::Interface:
+        case dtl::ScalarContentType::OwnedInterface:
+            return interface_ptr != nullptr;
+        default: return false;
+    }
+}
+
 bool Scalar::is_zero() const noexcept
 {
     if (fast_is_zero()) { return true; }
-- 
2.43.0


From e2e4b1ba8c27789b2375916cdff0550b3005c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 28/90] fix: split words at the first letter when taking both
 parents

---
 vendored/libalgebra_lite/tensor_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/tensor_basis.h b/vendored/libalgebra_lite/tensor_basis.h
index ca4d8e6..4491c85 100644
--- a/vendored/libalgebra_lite/tensor_basis.h
+++ b/vendored/libalgebra_lite/tensor_basis.h
@@ -61,7 +61,7 @@ public:
         auto tmp = arg.index();
         auto letter = tmp / m_powers[degree - 1];
         return {key_type(1, letter),
-                key_type(degree - 1, tmp - letter * m_width)};
+                key_type(degree - 1, tmp - letter * m_powers[degree - 1])};
     }
 
     std::string key_to_string(const key_type&) const;
-- 
2.43.0


From 01da84ed133cd12c80614f0e40b52e097c7077f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:21 +0000
Subject: [PATCH 29/90] fix: lock the tables cereal shares between archives

---
 platform/CMakeLists.txt | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/CMakeLists.txt b/platform/CMakeLists.txt
index bea244d..032a61a 100644
--- a/platform/CMakeLists.txt
+++ b/platform/CMakeLists.txt
@@ -99,6 +99,10 @@ set_library_version_properties(RoughPy_Platform)
 # TODO: This should be removed, it's not sensible
 target_compile_definitions(RoughPy_Platform PRIVATE "RPY_COMPILING_PLATFORM")
 
+# Streams are saved to and loaded from archives by several threads at once;
+# without this, the tables that cereal shares between archives are not locked.
+target_compile_definitions(RoughPy_Platform PUBLIC CEREAL_THREAD_SAFE=1)
+
 
 generate_export_header(RoughPy_Platform
         EXPORT_FILE_NAME roughpy/platform/roughpy_platform_export.h
-- 
2.43.0


From bdb850a19fd6442d9fec84e0d9eda1058b8ca4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:21 +0000
Subject: [PATCH 30/90] fix: release a device object once when it is
 overwritten by a null one

---
 .../roughpy/platform/devices/device_object_base.h    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/platform/include/roughpy/platform/devices/device_object_base.h b/platform/include/roughpy/platform/devices/device_object_base.h
index e437736..8cf9418 100644
--- a/platform/include/roughpy/platform/devices/device_object_base.h
+++ b/platform/include/roughpy/platform/devices/device_object_base.h
@@ -203,11 +203,10 @@ ObjectBase<Interface, Derived>&
 ObjectBase<Interface, Derived>::operator=(const ObjectBase& other)
 {
     if (&other != this) {
-        this->~ObjectBase();
-        if (other.p_impl) {
-            p_impl = other.p_impl;
-            p_impl->inc_ref();
-        }
+        Interface* old = p_impl;
+        p_impl = other.p_impl;
+        if (p_impl) { p_impl->inc_ref(); }
+        if (old && old->dec_ref() == 1) { delete old; }
     }
     return *this;
 }
@@ -216,9 +215,10 @@ ObjectBase<Interface, Derived>&
 ObjectBase<Interface, Derived>::operator=(ObjectBase&& other) noexcept
 {
     if (&other != this) {
-        this->~ObjectBase();
+        Interface* old = p_impl;
         p_impl = other.p_impl;
         other.p_impl = nullptr;
+        if (old && old->dec_ref() == 1) { delete old; }
     }
     return *this;
 }
-- 
2.43.0


From bb99db385368df727aa99d5aa3f533338c6bd920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:21 +0000
Subject: [PATCH 31/90] fix: do not enter a context that could not be made in
 the cache

---
 algebra/src/lite_context.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/algebra/src/lite_context.cpp b/algebra/src/lite_context.cpp
index caf7b94..c9d18f2 100644
--- a/algebra/src/lite_context.cpp
+++ b/algebra/src/lite_context.cpp
@@ -111,11 +111,16 @@ context_pointer LiteContextMaker::get_context(
         const preference_list& preferences
 ) const
 {
-    auto& found = s_lite_context_cache[std::make_tuple(width, depth, ctype)];
+    const auto key = std::make_tuple(width, depth, ctype);
+    auto found = s_lite_context_cache.find(key);
 
-    if (!found) { found = create_context(width, depth, ctype, preferences); }
+    if (found == s_lite_context_cache.end()) {
+        // Only a complete context may be entered in the cache.
+        auto ctx = create_context(width, depth, ctype, preferences);
+        found = s_lite_context_cache.emplace(key, std::move(ctx)).first;
+    }
 
-    return found;
+    return found->second;
 }
 optional<base_context_pointer>
 LiteContextMaker::get_base_context(deg_t width, deg_t depth) const
-- 
2.43.0


From 6b935231548ed76e8c3f8ca544090bd9b6b39387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:21 +0000
Subject: [PATCH 32/90] fix: give back the memory held by rational scalars and
 arrays

Values were constructed over ones already constructed, owned arrays never
destroyed their elements, and a failure while copying a value left its
allocation behind.
---
 scalars/include/roughpy/scalars/scalar.h      | 25 ++++---
 scalars/src/scalar.cpp                        |  5 +-
 scalars/src/scalar/casts.cpp                  |  9 ++-
 .../src/types/aprational/ap_rational_type.cpp | 12 ++-
 .../src/types/apratpoly/ap_rat_poly_type.cpp  | 12 ++-
 scalars/src/types/constructed_buffer.h        | 74 +++++++++++++++++++
 6 files changed, 112 insertions(+), 25 deletions(-)
 create mode 100644 scalars/src/types/constructed_buffer.h

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index 74219c0..faffdfd 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -248,17 +248,18 @@ public:
 
     template <typename T, typename = enable_if_t<dtl::can_be_scalar<T>::value>>
     explicit Scalar(const T& value)
-        : p_type_and_content_type(
-                  devices::type_info<remove_cv_t<T>>(),
-                  dtl::ScalarContentType::TrivialBytes
-          ),
-          integer_for_convenience(0)
+        : Scalar()
     {
+        p_type_and_content_type = type_pointer(
+                devices::type_info<remove_cv_t<T>>(),
+                dtl::ScalarContentType::TrivialBytes
+        );
         if constexpr (is_standard_layout_v<T> && is_trivially_copyable_v<T> && is_trivially_destructible_v<T> && sizeof(T) <= sizeof(void*)) {
             std::memcpy(trivial_bytes, &value, sizeof(T));
         } else {
             allocate_data();
-            construct_inplace(static_cast<T*>(opaque_pointer), value);
+            // The allocated value is already constructed
+            *static_cast<T*>(opaque_pointer) = value;
         }
         RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     }
@@ -291,17 +292,17 @@ public:
                     int>
             = 0>
     explicit Scalar(const ScalarType* type, T&& value)
-        : p_type_and_content_type(type, dtl::ScalarContentType::OwnedPointer),
-          integer_for_convenience(0)
+        : Scalar()
     {
+        p_type_and_content_type
+                = type_pointer(type, dtl::ScalarContentType::OwnedPointer);
         allocate_data();
         auto this_info = type_info();
         auto value_info = devices::type_info<remove_cvref_t<T>>();
         if (this_info == value_info) {
-            construct_inplace(
-                    static_cast<remove_cvref_t<T>*>(opaque_pointer),
-                    std::forward<T>(value)
-            );
+            // The allocated value is already constructed
+            *static_cast<remove_cvref_t<T>*>(opaque_pointer)
+                    = std::forward<T>(value);
         } else {
             dtl::scalar_convert_copy(
                     opaque_pointer,
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index fb38750..9771fc0 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -52,6 +52,8 @@ void Scalar::allocate_data()
         if (!tp_o) {
             RPY_THROW(std::runtime_error, "unable to allocate scalar");
         }
+        p_type_and_content_type
+            = type_pointer(*tp_o, p_type_and_content_type.get_enumeration());
     }
 
     RPY_DBG_ASSERT(p_type_and_content_type.is_pointer());
@@ -125,6 +127,7 @@ Scalar::Scalar(devices::TypeInfo info, const void* ptr)
       opaque_pointer(const_cast<void*>(ptr)) {}
 
 Scalar::Scalar(const ScalarType* type, int64_t num, int64_t denom)
+    : Scalar()
 {
     auto info = type->type_info();
     if (traits::is_arithmetic(info) && info.bytes <= sizeof(void*)) {
@@ -166,7 +169,7 @@ void Scalar::copy_from_opaque_pointer(devices::TypeInfo info, const void* src)
     }
 }
 
-Scalar::Scalar(const Scalar& other) : integer_for_convenience(0)
+Scalar::Scalar(const Scalar& other) : Scalar()
 {
     p_type_and_content_type = other.p_type_and_content_type;
     if (!other.fast_is_zero()) {
diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 1fd731b..962b191 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -198,14 +198,15 @@ assign_rational(T* dst, int64_t num, int64_t denom) noexcept
     return true;
 }
 
-inline bool assign_rational(rational_scalar_type* dst, int64_t num, int64_t denom) noexcept
+// The destinations of these types are already constructed, and own memory.
+inline bool assign_rational(rational_scalar_type* dst, int64_t num, int64_t denom)
 {
-    construct_inplace(dst, num, denom);
+    *dst = rational_scalar_type(num, denom);
     return true;
 }
-inline bool assign_rational(rational_poly_scalar* dst, int64_t num, int64_t denom) noexcept
+inline bool assign_rational(rational_poly_scalar* dst, int64_t num, int64_t denom)
 {
-    construct_inplace(dst, rational_scalar_type(num, denom));
+    *dst = rational_poly_scalar(rational_scalar_type(num, denom));
     return true;
 }
 
diff --git a/scalars/src/types/aprational/ap_rational_type.cpp b/scalars/src/types/aprational/ap_rational_type.cpp
index 357386c..2ab4eb6 100644
--- a/scalars/src/types/aprational/ap_rational_type.cpp
+++ b/scalars/src/types/aprational/ap_rational_type.cpp
@@ -8,6 +8,7 @@
 #include "roughpy/core/debug_assertion.h"               // for RPY_DBG_ASSERT
 
 #include "scalar_array.h"
+#include "../constructed_buffer.h"
 #include "scalar.h"
 
 using namespace rpy;
@@ -28,15 +29,18 @@ APRationalType::APRationalType()
 {}
 ScalarArray APRationalType::allocate(dimn_t count) const
 {
-    auto result = ScalarType::allocate(count);
-    std::uninitialized_default_construct_n(static_cast<rational_scalar_type*>(result.mut_pointer()), count);
-    return result;
+    return ScalarArray(
+            this,
+            devices::Buffer(new ConstructedBuffer<rational_scalar_type>(count))
+    );
 }
 void* APRationalType::allocate_single() const
 {
     guard_type access(m_lock);
-    auto [pos, inserted] = m_allocations.insert(new rational_scalar_type());
+    auto value = std::make_unique<rational_scalar_type>();
+    auto [pos, inserted] = m_allocations.insert(value.get());
     RPY_DBG_ASSERT(inserted);
+    value.release();
     return *pos;
 }
 void APRationalType::free_single(void* ptr) const
diff --git a/scalars/src/types/apratpoly/ap_rat_poly_type.cpp b/scalars/src/types/apratpoly/ap_rat_poly_type.cpp
index 5e24b8d..9e2f6c3 100644
--- a/scalars/src/types/apratpoly/ap_rat_poly_type.cpp
+++ b/scalars/src/types/apratpoly/ap_rat_poly_type.cpp
@@ -12,6 +12,7 @@
 #include <roughpy/platform/devices/host_device.h>
 
 #include "scalar_array.h"
+#include "../constructed_buffer.h"
 #include "scalar.h"
 #include "scalar_types.h"
 #include "random.h"
@@ -39,16 +40,19 @@ APRatPolyType::APRatPolyType()
 
 ScalarArray APRatPolyType::allocate(dimn_t count) const
 {
-    auto result = ScalarType::allocate(count);
-    std::uninitialized_default_construct_n(static_cast<rational_poly_scalar*>(result.mut_pointer()), count);
-    return result;
+    return ScalarArray(
+            this,
+            devices::Buffer(new ConstructedBuffer<rational_poly_scalar>(count))
+    );
 }
 
 void* APRatPolyType::allocate_single() const
 {
     guard_type access(m_lock);
-    auto [pos, inserted] = m_allocations.insert(new rational_poly_scalar());
+    auto value = std::make_unique<rational_poly_scalar>();
+    auto [pos, inserted] = m_allocations.insert(value.get());
     RPY_DBG_ASSERT(inserted);
+    value.release();
     return *pos;
 }
 
diff --git a/scalars/src/types/constructed_buffer.h b/scalars/src/types/constructed_buffer.h
new file mode 100644
index 0000000..c8ae636
--- /dev/null
+++ b/scalars/src/types/constructed_buffer.h
@@ -0,0 +1,74 @@
+#ifndef ROUGHPY_SCALARS_SRC_TYPES_CONSTRUCTED_BUFFER_H_
+#define ROUGHPY_SCALARS_SRC_TYPES_CONSTRUCTED_BUFFER_H_
+
+#include <roughpy/platform/devices/buffer.h>
+#include <roughpy/platform/devices/device_handle.h>
+#include <roughpy/platform/devices/event.h>
+#include <roughpy/platform/devices/host_device.h>
+#include <roughpy/platform/devices/queue.h>
+
+#include <memory>
+#include <utility>
+
+namespace rpy {
+namespace scalars {
+
+/**
+ * @brief A host buffer holding elements that have to be destroyed.
+ *
+ * The elements of a device buffer are plain bytes, so a buffer that holds
+ * objects which own memory themselves destroys them before it is released.
+ */
+template <typename T>
+class ConstructedBuffer
+    : public devices::dtl::RefCountBase<devices::BufferInterface>
+{
+    devices::Buffer m_data;
+    dimn_t m_count;
+
+public:
+    explicit ConstructedBuffer(dimn_t count)
+        : m_data(devices::get_host_device()
+                         ->raw_alloc(count * sizeof(T), alignof(T))),
+          m_count(count)
+    {
+        std::uninitialized_value_construct_n(
+                static_cast<T*>(m_data.ptr()),
+                m_count
+        );
+    }
+
+    ~ConstructedBuffer() override
+    {
+        std::destroy_n(static_cast<T*>(m_data.ptr()), m_count);
+    }
+
+    devices::DeviceType type() const noexcept override { return m_data.type(); }
+    devices::Device device() const noexcept override { return m_data.device(); }
+    devices::BufferMode mode() const override { return m_data.mode(); }
+    dimn_t size() const override { return m_data.size(); }
+    void* ptr() noexcept override { return m_data.ptr(); }
+    const void* ptr() const noexcept override
+    {
+        return std::as_const(m_data).ptr();
+    }
+
+    devices::Event to_device(
+            devices::Buffer& dst,
+            const devices::Device& device,
+            devices::Queue& queue
+    ) override
+    {
+        return m_data.get().to_device(dst, device, queue);
+    }
+
+    void* map(devices::BufferMode map_mode, dimn_t size, dimn_t offset) override
+    {
+        return m_data.get().map(map_mode, size, offset);
+    }
+};
+
+}// namespace scalars
+}// namespace rpy
+
+#endif// ROUGHPY_SCALARS_SRC_TYPES_CONSTRUCTED_BUFFER_H_
-- 
2.43.0


From 4afbd9e587d5dd68f91df932d12c1c88e2fc425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 33/90] fix: report memory exhaustion when converting scalars

---
 scalars/include/roughpy/scalars/scalar.h |  6 +++---
 scalars/src/scalar/casts.cpp             | 14 +++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index faffdfd..624ad5c 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -87,13 +87,13 @@ ROUGHPY_SCALARS_EXPORT bool scalar_convert_copy(
         void* dst,
         devices::TypeInfo dst_type,
         const Scalar& src
-) noexcept;
+);
 
 inline bool scalar_convert_copy(
         void* dst,
         PackedScalarTypePointer<ScalarContentType> ptype,
         const Scalar& src
-) noexcept
+)
 {
     return scalar_convert_copy(dst, ptype.get_type_info(), src);
 }
@@ -105,7 +105,7 @@ bool scalar_convert_copy(
         const void* src,
         devices::TypeInfo src_type,
         dimn_t count = 1
-) noexcept;
+);
 
 inline ScalarContentType content_type_of(devices::TypeInfo info) noexcept
 {
diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 962b191..38233be 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -73,10 +73,12 @@ static inline enable_if_t<
         is_constructible_v<D, const T&>
                 && !is_trivially_default_constructible_v<D>,
         bool>
-write_result(D* dst, const T* src, dimn_t count) noexcept
+write_result(D* dst, const T* src, dimn_t count)
 {
     try {
         for (dimn_t i = 0; i < count; ++i) { assign_result(dst[i], src[i]); }
+    } catch (const std::bad_alloc&) {
+        throw;
     } catch (...) {
         return false;
     }
@@ -118,12 +120,14 @@ static inline bool write_single_poly(D* dst, const rational_poly_scalar& value)
 
 template <typename D>
 static inline bool
-write_result(D* dst, const rational_poly_scalar* value, dimn_t count) noexcept
+write_result(D* dst, const rational_poly_scalar* value, dimn_t count)
 {
     try {
         for (dimn_t i = 0; i < count; ++i) {
             if (!write_single_poly(dst++, value[i])) { return false; }
         }
+    } catch (const std::bad_alloc&) {
+        throw;
     } catch (...) {
         return false;
     }
@@ -137,7 +141,7 @@ static inline bool convert_impl(
         const TypeInfo& info,
         const T* src,
         dimn_t count
-) noexcept
+)
 {
 #define X(TP) return write_result((TP*) dst, src, count)
     DO_FOR_EACH_X(info)
@@ -165,7 +169,7 @@ bool scalars::dtl::scalar_convert_copy(
         void* dst,
         devices::TypeInfo dst_type,
         const Scalar& src
-) noexcept
+)
 {
     auto src_info = src.type_info();
 #define X(TP) return convert_impl(dst, dst_type, (const TP*) src.pointer(), 1)
@@ -180,7 +184,7 @@ bool rpy::scalars::dtl::scalar_convert_copy(
         const void* src,
         devices::TypeInfo src_type,
         dimn_t count
-) noexcept
+)
 {
 #define X(TP) return convert_impl<TP>(dst, dst_type, (const TP*) src, count)
     DO_FOR_EACH_X(src_type)
-- 
2.43.0


From 0b458e25ba18055fb7a4aee5f2318163059df460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:55 +0000
Subject: [PATCH 34/90] fix: survive memory exhaustion in sparse products,
 brackets and the antipode

---
 vendored/libalgebra_lite/free_tensor.h   |  4 ++--
 vendored/libalgebra_lite/maps.cpp        |  5 ++++-
 vendored/libalgebra_lite/sparse_vector.h | 10 +++++++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8153b65..4b29cbc 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -670,8 +670,6 @@ public:
 #endif
         tile_size = tile_width * tile_width;
         if (tile_size > 0) {
-            tile = new scalar_type[tile_size]{};
-
             std::unordered_set<dimn_t> seen;
 
             for (dimn_t i = 0; i < tile_width; ++i) {
@@ -687,6 +685,8 @@ public:
                     }
                 }
             }
+
+            tile = new scalar_type[tile_size]{};
         } else {
             tile = nullptr;
         }
diff --git a/vendored/libalgebra_lite/maps.cpp b/vendored/libalgebra_lite/maps.cpp
index 5ca05f9..680ff5b 100644
--- a/vendored/libalgebra_lite/maps.cpp
+++ b/vendored/libalgebra_lite/maps.cpp
@@ -70,7 +70,10 @@ typename dtl::maps_implementation::glie_ref dtl::maps_implementation::rbracketin
         auto lhs = p_tensor_basis->lparent(tkey);
         auto rhs = p_tensor_basis->rparent(tkey);
 
-        found.value = p_lie_mul->multiply_generic(*p_lie_basis, rbracketing(lhs), rbracketing(rhs));
+        // Moving a small vector may allocate although it is declared not to
+        // throw, so the elements are copied.
+        const auto& product = p_lie_mul->multiply_generic(*p_lie_basis, rbracketing(lhs), rbracketing(rhs));
+        found.value.assign(product.begin(), product.end());
     }
     found.set = true;
 
diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 73032f8..1bdbed5 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -34,6 +34,7 @@
 
 #include "implementation_types.h"
 
+#include <exception>
 #include <iterator>
 #include <map>
 #include <type_traits>
@@ -71,6 +72,7 @@ class sparse_mutable_reference
     iterator_type m_it;
     typename Vector::key_type m_key;
     typename Vector::scalar_type m_tmp;
+    int m_exceptions = std::uncaught_exceptions();
 
     using Self = sparse_mutable_reference;
 
@@ -90,12 +92,14 @@ public:
         if (m_it != m_vector.m_data.end()) { m_tmp = m_it->second; }
     }
 
-    // Storing the value can fail if there is no memory for a new element.
+    // Storing the value can fail if there is no memory for a new element. If
+    // the operation on the reference failed there is no value to store.
     ~sparse_mutable_reference() noexcept(false)
     {
+        if (std::uncaught_exceptions() > m_exceptions) { return; }
         if (m_tmp != scalar_type(0)) {
             if (m_it != m_vector.m_data.end()) {
-                m_it->second = m_tmp;
+                m_it->second = std::move(m_tmp);
             } else {
                 m_vector.insert_new_value(m_key, m_tmp);
             }
@@ -394,7 +398,7 @@ public:
         return coefficient_ring::zero();
     }
 
-    reference operator[](const key_type& key) noexcept
+    reference operator[](const key_type& key)
     {
         return reference(*this, key);
     }
-- 
2.43.0


From 8e52a05d66ace456aff20b689bcf343ce9e7a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 35/90] fix: write rational and polynomial scalars so that they
 can be read back

---
 scalars/src/scalar/raw_bytes.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index 99a082d..c9288b4 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -44,11 +44,11 @@ void to_raw_bytes_impl_helper(std::vector<byte>& out,
     auto it = out.begin() + curr_size;
     *it = (helper.is_negative()) ? 1 : 0;
     ++it;
-    uint64_t limbs_size = helper.size();
-    it = std::copy_n(reinterpret_cast<const byte*>(&limbs_size),
-                     sizeof(uint8_t),
+    uint64_t limbs_bytes = helper.nbytes();
+    it = std::copy_n(reinterpret_cast<const byte*>(&limbs_bytes),
+                     sizeof(uint64_t),
                      it);
-    std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), limbs_size, it);
+    std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), limbs_bytes, it);
 }
 
 
@@ -58,7 +58,7 @@ void to_raw_bytes_impl(std::vector<byte>& out,
 {
     out.reserve(out.size() + count * sizeof(rational_scalar_type));
     for (dimn_t i = 0; i < count; ++i) {
-        const auto& backend = data->backend();
+        const auto& backend = data[i].backend();
 #if RPY_USING_GMP
         using helper_t = scalars::dtl::MPIntegerSerializationHelper<
             remove_pointer_t
@@ -162,15 +162,15 @@ dimn_t from_raw_bytes_impl(
 {
     auto advance = 1 + sizeof(uint64_t);
     const auto* src = bytes.data();
-    RPY_CHECK(bytes.size() > advance);
+    RPY_CHECK(bytes.size() >= advance);
 
     auto is_negative = static_cast<bool>(*(src++));
     uint64_t nbytes_large = 0;
     std::memcpy(&nbytes_large, src, sizeof(uint64_t));
     src += sizeof(uint64_t);
     auto nbytes = static_cast<dimn_t>(nbytes_large);
+    RPY_CHECK(bytes.size() - advance >= nbytes);
     advance += nbytes;
-    RPY_CHECK(bytes.size() > advance);
 
     dimn_t n_limbs = 0;
     if (nbytes > 0) {
@@ -242,12 +242,13 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
 {
     constexpr auto sizeof_idep = sizeof(typename indeterminate_type::packed_type) + sizeof(typename indeterminate_type::integral_type);
     constexpr auto sizeof_term = sizeof_idep + sizeof(lal::deg_t);
-    RPY_CHECK(bytes.size() > sizeof(uint64_t));
+    RPY_CHECK(bytes.size() >= sizeof(uint64_t));
     uint64_t size_large = 0;
     from_raw_bytes_impl(&size_large, 1, bytes);
     auto size = static_cast<dimn_t>(size_large);
 
-    RPY_CHECK(bytes.size() > size_large*sizeof_term + sizeof(uint64_t));
+    RPY_CHECK((bytes.size() - sizeof(uint64_t)) / sizeof_term >= size_large);
+    value = monomial();
     const auto* src = bytes.data() + sizeof(uint64_t);
 
     indeterminate_type tmp_idep(0, 0);
@@ -259,7 +260,7 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
         src += sizeof_term;
     }
 
-    return size + sizeof(uint64_t);
+    return size * sizeof_term + sizeof(uint64_t);
 }
 
 dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte> bytes)
-- 
2.43.0


From bb0bb1ccd9ed2e24ae1670655dcdfc5ce2033e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 36/90] fix: use a stream's cache file only if it is whole

---
 streams/src/dyadic_caching_layer.cpp | 45 +++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index 408f469..fd1e785 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -183,16 +183,24 @@ void DyadicCachingLayer::load_cache() const {
     std::lock_guard<std::recursive_mutex> access(m_compute_lock);
     auto path = get_config().stream_cache_dir() / to_string(m_cache_id);
 
-    if (!exists(path)) {
-        return;
-    }
-
 //    boost::interprocess::sharable_lock<boost::interprocess::file_lock> fs_access(m_file_lock);
 
-    std::ifstream file_stream(path);
-    archives::BinaryInputArchive iar(file_stream);
+    // Everything in the cache can be computed again, so a file that cannot be
+    // read, or that was not written completely, is not used.
+    decltype(m_cache) cache;
+    try {
+        if (!exists(path)) {
+            return;
+        }
+
+        std::ifstream file_stream(path, std::ios::binary);
+        archives::BinaryInputArchive iar(file_stream);
 
-    iar(m_cache);
+        iar(cache);
+    } catch (const std::exception&) {
+        return;
+    }
+    m_cache = std::move(cache);
 }
 
 void DyadicCachingLayer::dump_cache() const {
@@ -208,10 +216,25 @@ void DyadicCachingLayer::dump_cache() const {
 
 //    boost::interprocess::scoped_lock<boost::interprocess::file_lock> fs_access(m_file_lock);
 
-    std::ofstream file_stream(path);
-    archives::BinaryOutputArchive oar(file_stream);
-
-    oar(m_cache);
+    // The file is only given its name once it is complete, because other
+    // streams with the same cache might be reading or writing at the same time.
+    auto tmp_path = path;
+    tmp_path += "." + to_string(make_cache_id());
+    std::error_code ec;
+    try {
+        std::ofstream file_stream;
+        file_stream.exceptions(std::ios::failbit | std::ios::badbit);
+        file_stream.open(tmp_path, std::ios::binary);
+        archives::BinaryOutputArchive oar(file_stream);
+
+        oar(m_cache);
+        file_stream.close();
+
+        rename(tmp_path, path);
+    } catch (const std::exception&) {
+        // The stream can be used without its cache.
+        remove(tmp_path, ec);
+    }
 }
 
 
-- 
2.43.0


From 5112978f8c7fdc9acbda81707a529168e2cbcd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 37/90] fix: keep sparse elements apart in JSON and XML
 archives

---
 .../roughpy/algebra/algebra_base_impl.h       | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index 54f400e..1aabb8f 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -752,14 +752,13 @@ void AlgebraBase<Interface, Derived>::save(
             auto data = *this->dense_data();
             RPY_SERIAL_SERIALIZE_NVP("dense_data", data);
         } else {
-            auto sz = this->size();
-            RPY_SERIAL_SERIALIZE_SIZE(sz);
-
+            std::vector<std::pair<typename Interface::key_type, scalars::Scalar>>
+                    data;
+            data.reserve(this->size());
             for (auto&& item : *this) {
-                RPY_SERIAL_SERIALIZE_BARE(
-                        std::make_pair(item.key(), item.value())
-                );
+                data.emplace_back(item.key(), item.value());
             }
+            RPY_SERIAL_SERIALIZE_NVP("sparse_data", data);
         }
     }
 }
@@ -803,14 +802,11 @@ void AlgebraBase<Interface, Derived>::load(
                 dtl::try_create_new_empty(ctx, atype)
         );
 
-        serial::size_type size;
-        RPY_SERIAL_SERIALIZE_SIZE(size);
+        std::vector<std::pair<typename Interface::key_type, scalars::Scalar>>
+                data;
+        RPY_SERIAL_SERIALIZE_NVP("sparse_data", data);
 
-        for (serial::size_type i = 0; i < size; ++i) {
-            std::pair<typename Interface::key_type, scalars::Scalar> val;
-            RPY_SERIAL_SERIALIZE_BARE(val);
-            p_impl->get_mut(val.first) = val.second;
-        }
+        for (auto&& val : data) { p_impl->get_mut(val.first) = val.second; }
     }
 }
 
-- 
2.43.0


From 5cbe10891b1de11c7808563f776dd278276acadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 38/90] fix: lock random generators and report failures to save
 or restore their state

---
 .../src/random/standard_random_generator.h    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/scalars/src/random/standard_random_generator.h b/scalars/src/random/standard_random_generator.h
index c29a76a..17bdf0f 100644
--- a/scalars/src/random/standard_random_generator.h
+++ b/scalars/src/random/standard_random_generator.h
@@ -109,7 +109,10 @@ public:
 template <typename ScalarImpl, typename BitGenerator>
 string StandardRandomGenerator<ScalarImpl, BitGenerator>::get_state() const
 {
+    std::lock_guard<std::mutex> access(m_lock);
     std::stringstream ss;
+    // Streams hide the errors that happen in them unless told otherwise.
+    ss.exceptions(std::ios::badbit | std::ios::failbit);
     ss << m_generator;
     return ss.str();
 }
@@ -156,8 +159,11 @@ void StandardRandomGenerator<ScalarImpl, BitGenerator>::set_seed(
 {
     RPY_CHECK(seed_data.size() >= 1);
 
-    m_generator.seed(seed_data[0]);
-    m_seed = {seed_data[0]};
+    std::vector<uint64_t> seed{seed_data[0]};
+
+    std::lock_guard<std::mutex> access(m_lock);
+    m_generator.seed(seed[0]);
+    m_seed = std::move(seed);
 }
 
 template <typename ScalarImpl, typename BitGenerator>
@@ -168,13 +174,20 @@ void StandardRandomGenerator<ScalarImpl, BitGenerator>::set_state(
     // add a linebreak char to terminate the string to avoid a bug in the pcg
     // stream read function
     std::stringstream ss(string{state} + '\n');
-    ss >> m_generator;
+    BitGenerator generator;
+    ss.exceptions(std::ios::badbit);
+    ss >> generator;
+    RPY_CHECK(!ss.fail());
+
+    std::lock_guard<std::mutex> access(m_lock);
+    m_generator = generator;
 }
 
 template <typename ScalarImpl, typename BitGenerator>
 std::vector<uint64_t>
 StandardRandomGenerator<ScalarImpl, BitGenerator>::get_seed() const
 {
+    std::lock_guard<std::mutex> access(m_lock);
     return {m_seed[0]};
 }
 
@@ -208,6 +221,7 @@ StandardRandomGenerator<ScalarImpl, BitGenerator>::uniform_random_scalar(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         for (auto& dist : dists) {
             construct_inplace(out++, dist(m_generator));
@@ -233,6 +247,7 @@ StandardRandomGenerator<ScalarImpl, BitGenerator>::normal_random(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         construct_inplace(out++, dist(m_generator));
     }
-- 
2.43.0


From 1985e23bca72cbb56b935f5424304e0c5f9bf658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 39/90] fix: copy, move and assign arrays with keys and streams
 of them safely

---
 .../roughpy/scalars/key_scalar_array.h        |  4 ++--
 .../roughpy/scalars/key_scalar_stream.h       |  2 +-
 .../include/roughpy/scalars/scalar_stream.h   |  4 ++--
 scalars/src/key_scalar_array.cpp              | 19 +++++++++++-------
 scalars/src/key_scalar_stream.cpp             | 20 +++++++++----------
 scalars/src/scalar_array.cpp                  |  9 ++++++++-
 scalars/src/scalar_stream.cpp                 |  6 ++----
 7 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/scalars/include/roughpy/scalars/key_scalar_array.h b/scalars/include/roughpy/scalars/key_scalar_array.h
index f6e81dd..1ae2c19 100644
--- a/scalars/include/roughpy/scalars/key_scalar_array.h
+++ b/scalars/include/roughpy/scalars/key_scalar_array.h
@@ -62,8 +62,8 @@ public:
     explicit KeyScalarArray(ScalarArray&& sa) noexcept;
     KeyScalarArray(ScalarArray base, const key_type* keys);
 
-    explicit KeyScalarArray(const ScalarType* type) noexcept;
-    explicit KeyScalarArray(const ScalarType* type, dimn_t n) noexcept;
+    explicit KeyScalarArray(const ScalarType* type);
+    explicit KeyScalarArray(const ScalarType* type, dimn_t n);
     KeyScalarArray(
             const ScalarType* type,
             const void* begin,
diff --git a/scalars/include/roughpy/scalars/key_scalar_stream.h b/scalars/include/roughpy/scalars/key_scalar_stream.h
index b0f1154..a333bdb 100644
--- a/scalars/include/roughpy/scalars/key_scalar_stream.h
+++ b/scalars/include/roughpy/scalars/key_scalar_stream.h
@@ -47,7 +47,7 @@ public:
     KeyScalarStream& operator=(const KeyScalarStream&);
     KeyScalarStream& operator=(KeyScalarStream&&) noexcept;
 
-    RPY_NO_DISCARD KeyScalarArray operator[](dimn_t row) const noexcept;
+    RPY_NO_DISCARD KeyScalarArray operator[](dimn_t row) const;
 
     void reserve_size(dimn_t num_rows);
 
diff --git a/scalars/include/roughpy/scalars/scalar_stream.h b/scalars/include/roughpy/scalars/scalar_stream.h
index 3d8596c..d5d6dd4 100644
--- a/scalars/include/roughpy/scalars/scalar_stream.h
+++ b/scalars/include/roughpy/scalars/scalar_stream.h
@@ -68,9 +68,9 @@ public:
 
     RPY_NO_DISCARD dimn_t max_row_size() const noexcept;
 
-    RPY_NO_DISCARD ScalarArray operator[](dimn_t row) const noexcept;
+    RPY_NO_DISCARD ScalarArray operator[](dimn_t row) const;
     RPY_NO_DISCARD Scalar operator[](std::pair<dimn_t, dimn_t> index
-    ) const noexcept;
+    ) const;
 
     void set_ctype(const scalars::ScalarType* type) noexcept;
 
diff --git a/scalars/src/key_scalar_array.cpp b/scalars/src/key_scalar_array.cpp
index c46f97d..36e8243 100644
--- a/scalars/src/key_scalar_array.cpp
+++ b/scalars/src/key_scalar_array.cpp
@@ -51,6 +51,8 @@ KeyScalarArray::KeyScalarArray(const KeyScalarArray& other)
         m_owns_keys = true;
         allocate_keys();
         std::copy_n(other.p_keys, other.size(), const_cast<key_type*>(p_keys));
+    } else {
+        p_keys = other.p_keys;
     }
 }
 KeyScalarArray::KeyScalarArray(KeyScalarArray&& other) noexcept
@@ -65,10 +67,10 @@ KeyScalarArray::KeyScalarArray(ScalarArray&& sa) noexcept
 KeyScalarArray::KeyScalarArray(ScalarArray base, const key_type* keys)
     : ScalarArray(std::move(base)), p_keys(keys), m_owns_keys(false)
 {}
-KeyScalarArray::KeyScalarArray(const ScalarType* type) noexcept
+KeyScalarArray::KeyScalarArray(const ScalarType* type)
     : ScalarArray(type), m_owns_keys(false)
 {}
-KeyScalarArray::KeyScalarArray(const ScalarType* type, dimn_t n) noexcept
+KeyScalarArray::KeyScalarArray(const ScalarType* type, dimn_t n)
     : ScalarArray(type, n), m_owns_keys(false)
 {}
 KeyScalarArray::KeyScalarArray(
@@ -83,9 +85,12 @@ KeyScalarArray KeyScalarArray::copy_or_move() && {
         return std::move(*this);
     }
 
+    const auto* keys = p_keys;
     KeyScalarArray result(static_cast<ScalarArray&&>(*this).copy_or_clone());
-    result.allocate_keys();
-    std::copy_n(p_keys, size(), result.keys());
+    if (keys != nullptr) {
+        result.allocate_keys();
+        std::copy_n(keys, result.size(), result.keys());
+    }
 
     return result;
 }
@@ -153,15 +158,15 @@ void KeyScalarArray::allocate_scalars(idimn_t count) {
 }
 void KeyScalarArray::allocate_keys(idimn_t count) {
     if (count != 0) {
-        if (p_keys != nullptr) { delete[] p_keys; }
-
         if (count == -1) {
             count = static_cast<idimn_t>(size());
         }
 
         RPY_CHECK(count == static_cast<idimn_t>(size()));
 
-        p_keys = new key_type[count] {};
+        auto* new_keys = new key_type[count] {};
+        release_keys();
+        p_keys = new_keys;
         m_owns_keys = true;
     }
 
diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index 9f30a3f..d4a1967 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -52,7 +52,6 @@ KeyScalarStream::KeyScalarStream(KeyScalarStream&& other) noexcept
 KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<const ScalarStream&>(other));
         m_key_stream = other.m_key_stream;
     }
@@ -61,13 +60,12 @@ KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 KeyScalarStream& KeyScalarStream::operator=(KeyScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<ScalarStream&&>(other));
         m_key_stream = std::move(other.m_key_stream);
     }
     return *this;
 }
-KeyScalarArray KeyScalarStream::operator[](dimn_t row) const noexcept {
+KeyScalarArray KeyScalarStream::operator[](dimn_t row) const {
     RPY_CHECK(row < m_stream.size());
 
     return {
@@ -85,10 +83,10 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
-        if (m_key_stream.empty()) {
-            m_key_stream.resize(ScalarStream::row_count(), nullptr);
-        }
+    // Rows without keys before the first row that has keys are not recorded.
+    const auto num_rows = ScalarStream::row_count();
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
+        m_key_stream.resize(num_rows, nullptr);
         m_key_stream.push_back(key_ptr);
     }
     ScalarStream::push_back(scalar_data);
@@ -98,10 +96,10 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
-        if (m_key_stream.empty()) {
-            m_key_stream.resize(ScalarStream::row_count(), nullptr);
-        }
+    // Rows without keys before the first row that has keys are not recorded.
+    const auto num_rows = ScalarStream::row_count();
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
+        m_key_stream.resize(num_rows, nullptr);
         m_key_stream.push_back(key_ptr);
     }
     ScalarStream::push_back(std::move(scalar_data));
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 729bde4..d02d3fa 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -215,7 +215,14 @@ ScalarArray& ScalarArray::operator=(ScalarArray&& other) noexcept
     return *this;
 }
 
-ScalarArray ScalarArray::copy_or_clone() && { return ScalarArray(); }
+ScalarArray ScalarArray::copy_or_clone() &&
+{
+    if (is_owning()) { return std::move(*this); }
+
+    ScalarArray result;
+    result = *this;
+    return result;
+}
 
 optional<const ScalarType*> ScalarArray::type() const noexcept
 {
diff --git a/scalars/src/scalar_stream.cpp b/scalars/src/scalar_stream.cpp
index c35b7e9..3006265 100644
--- a/scalars/src/scalar_stream.cpp
+++ b/scalars/src/scalar_stream.cpp
@@ -77,7 +77,6 @@ ScalarStream::ScalarStream(ScalarArray base, std::vector<dimn_t> shape)
 ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = other.m_stream;
         p_type = other.p_type;
     }
@@ -86,7 +85,6 @@ ScalarStream& ScalarStream::operator=(const ScalarStream& other)
 ScalarStream& ScalarStream::operator=(ScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~ScalarStream();
         m_stream = std::move(other.m_stream);
         p_type = other.p_type;
     }
@@ -110,11 +108,11 @@ dimn_t ScalarStream::max_row_size() const noexcept
 
     return *std::max_element(tmp.begin(), tmp.end());
 }
-ScalarArray ScalarStream::operator[](dimn_t row) const noexcept {
+ScalarArray ScalarStream::operator[](dimn_t row) const {
     RPY_CHECK(row < m_stream.size());
     return m_stream[row];
 }
-Scalar ScalarStream::operator[](std::pair<dimn_t, dimn_t> index) const noexcept {
+Scalar ScalarStream::operator[](std::pair<dimn_t, dimn_t> index) const {
     RPY_CHECK(index.first < m_stream.size());
     return m_stream[index.first][index.second];
 }
-- 
2.43.0


From 554b1a65216a5c457acc2da4241a168b7cb83d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 40/90] fix: map whole and empty host buffers, and look up
 kernels without OpenCL

---
 platform/src/devices/buffer.cpp                | 3 +--
 platform/src/devices/host/host_buffer.cpp      | 2 +-
 platform/src/devices/host/host_device_impl.cpp | 6 ++++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/platform/src/devices/buffer.cpp b/platform/src/devices/buffer.cpp
index fafb11f..8eb550e 100644
--- a/platform/src/devices/buffer.cpp
+++ b/platform/src/devices/buffer.cpp
@@ -100,6 +100,5 @@ MemoryView Buffer::map(BufferMode map_mode, dimn_t size, dimn_t offset)
 }
 
 void Buffer::unmap(MemoryView& view) noexcept {
-    RPY_DBG_ASSERT(impl() != nullptr);
-    return impl()->unmap(view.raw_ptr());
+    if (impl() && view.raw_ptr() != nullptr) { impl()->unmap(view.raw_ptr()); }
 }
diff --git a/platform/src/devices/host/host_buffer.cpp b/platform/src/devices/host/host_buffer.cpp
index df6648a..3acf3ed 100644
--- a/platform/src/devices/host/host_buffer.cpp
+++ b/platform/src/devices/host/host_buffer.cpp
@@ -116,7 +116,7 @@ Event CPUBuffer::to_device(Buffer& dst, const Device& device, Queue& queue)
 }
 void* CPUBuffer::map(BufferMode map_mode, dimn_t size, dimn_t offset)
 {
-    if (offset + size >= raw_buffer.size) {
+    if (offset > raw_buffer.size || size > raw_buffer.size - offset) {
         RPY_THROW(
                 std::invalid_argument,
                 "the requested region would exceed "
diff --git a/platform/src/devices/host/host_device_impl.cpp b/platform/src/devices/host/host_device_impl.cpp
index c0308b5..9850385 100644
--- a/platform/src/devices/host/host_device_impl.cpp
+++ b/platform/src/devices/host/host_device_impl.cpp
@@ -240,8 +240,10 @@ optional<Kernel> CPUDeviceHandle::get_kernel(const string& name) const noexcept
     auto kernel = DeviceHandle::get_kernel(name);
     if (kernel) { return kernel; }
 
-    kernel = p_ocl_handle->get_kernel(name);
-    if (kernel) { return kernel; }
+    if (p_ocl_handle) {
+        kernel = p_ocl_handle->get_kernel(name);
+        if (kernel) { return kernel; }
+    }
 
     auto found = s_kernels.find(name);
     if (found != s_kernels.end()) { return {found->second}; }
-- 
2.43.0


From 462b3485afc1d78b92d8eeb002a5254d3bf18278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 41/90] fix: save and copy empty arrays, and read polynomials
 back from an archive

---
 scalars/src/scalar/raw_bytes.cpp |  1 +
 scalars/src/scalar_array.cpp     | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index c9288b4..ba88eec 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -211,6 +211,7 @@ void from_raw_bytes_impl(rational_scalar_type* dst,
         auto advance = from_raw_bytes_impl(num_helper, {src, remaining});
         src += advance;
         remaining -= advance;
+        offset += advance;
         advance = from_raw_bytes_impl(den_helper, {src, remaining});
         src += advance;
         remaining -= advance;
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index d02d3fa..99a0aaa 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -181,8 +181,8 @@ ScalarArray& ScalarArray::operator=(const ScalarArray& other)
         const auto info = other.type_info();
         if (other.p_type_and_mode.is_pointer()) {
             const auto* type = other.p_type_and_mode.get_pointer();
-            copy = type->allocate(other.size());
-            type->convert_copy(copy, other);
+            copy = ScalarArray(type, other.size());
+            if (!other.empty()) { type->convert_copy(copy, other); }
         } else {
             RPY_CHECK(traits::is_fundamental(info));
             const auto nbytes = other.size() * info.bytes;
@@ -281,6 +281,7 @@ const void* ScalarArray::pointer() const
         case dtl::ScalarArrayStorageModel::BorrowConst: return const_borrowed;
         case dtl::ScalarArrayStorageModel::BorrowMut: return mut_borrowed;
         case dtl::ScalarArrayStorageModel::Owned:
+            if (owned_buffer.is_null()) { return nullptr; }
             if (owned_buffer.device() == devices::get_host_device()
                 && owned_buffer.mode() != devices::BufferMode::Write) {
                 return owned_buffer.ptr();
@@ -304,6 +305,7 @@ void* ScalarArray::mut_pointer()
             );
         case dtl::ScalarArrayStorageModel::BorrowMut: return mut_borrowed;
         case dtl::ScalarArrayStorageModel::Owned:
+            if (owned_buffer.is_null()) { return nullptr; }
             if (owned_buffer.device() == devices::get_host_device()
                 && owned_buffer.mode() != devices::BufferMode::Read) {
                 return owned_buffer.ptr();
@@ -465,12 +467,14 @@ void ScalarArray::from_raw_bytes(
     RPY_CHECK(is_null());
     auto tp_o = scalar_type_of(info);
     if (tp_o) {
-        *this = (*tp_o)->allocate(count);
+        *this = ScalarArray(*tp_o, count);
     } else {
         *this = ScalarArray(info, count);
     }
 
-    dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
+    if (count > 0) {
+        dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
+    }
 }
 
 ScalarArray ScalarArray::borrow() const
-- 
2.43.0


From ead5cc3a09906bb867bdceede9cfd01378ec88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 42/90] fix: negate scalars rather than returning zero

---
 scalars/src/scalar/arithmetic.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d1f0478..0ba4487 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -54,7 +54,12 @@ using rpy::scalars::dtl::ScalarContentType;
 
 static inline void
 uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
-{}
+{
+#define X(T) *((T*) dst) = static_cast<T>(-*((const T*) ptr)); return
+    DO_FOR_EACH_X(info)
+#undef X
+    RPY_THROW(std::domain_error, "unsupported operation");
+}
 
 Scalar Scalar::operator-() const
 {
-- 
2.43.0


From 58a8772b51ff9183bd525ecebd359c7675f34655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 43/90] fix: arithmetic through references to sparse elements

---
 scalars/src/scalar/arithmetic.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 0ba4487..7ee25fd 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -207,6 +207,10 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
 
 Scalar& Scalar::operator+=(const Scalar& other)
 {
+    if (is_interface()) {
+        if (!other.fast_is_zero()) { interface_ptr->add_inplace(other); }
+        return *this;
+    }
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, AddInplace());
@@ -216,6 +220,10 @@ Scalar& Scalar::operator+=(const Scalar& other)
 
 Scalar& Scalar::operator-=(const Scalar& other)
 {
+    if (is_interface()) {
+        if (!other.fast_is_zero()) { interface_ptr->sub_inplace(other); }
+        return *this;
+    }
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, SubInplace());
@@ -225,6 +233,10 @@ Scalar& Scalar::operator-=(const Scalar& other)
 
 Scalar& Scalar::operator*=(const Scalar& other)
 {
+    if (is_interface()) {
+        interface_ptr->mul_inplace(other);
+        return *this;
+    }
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!fast_is_zero() && !other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, MulInplace());
@@ -283,6 +295,10 @@ Scalar& Scalar::operator/=(const Scalar& other)
     if (other.fast_is_zero()) {
         RPY_THROW(std::domain_error, "division by zero");
     }
+    if (is_interface()) {
+        interface_ptr->div_inplace(other);
+        return *this;
+    }
 
     /*
      * We need to check some additional things here.
-- 
2.43.0


From 27bedc9b422c6d18edb56bc456e2f9a740990f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 44/90] fix: read external data in the scalar type of the
 context asked for

---
 streams/src/external_data_stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streams/src/external_data_stream.cpp b/streams/src/external_data_stream.cpp
index f4db371..4a41acd 100644
--- a/streams/src/external_data_stream.cpp
+++ b/streams/src/external_data_stream.cpp
@@ -63,11 +63,12 @@ algebra::Lie streams::ExternalDataStream::log_signature_impl(
 
     tmp.data_stream.reserve_size(num_increments);
     const auto width = static_cast<dimn_t>(metadata().width);
-    const auto info = metadata().data_scalar_type->type_info();
+    const auto* ctype = ctx.ctype();
+    const auto info = ctype->type_info();
 
     const auto* buf_ptr = buffer.as_slice<const byte>().data();
     for (dimn_t i = 0; i < num_increments; ++i) {
-        tmp.data_stream.push_back(scalars::ScalarArray{info, buf_ptr, width});
+        tmp.data_stream.push_back(scalars::ScalarArray{ctype, buf_ptr, width});
         buf_ptr += width * info.bytes;
     }
 
-- 
2.43.0


From acdd8d2562ff85cb46290990266f288c67fab98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:31 +0000
Subject: [PATCH 45/90] fix: report errors reading sound files, and read them
 from one thread at a time

---
 .../sound_file_data_source.cpp                | 27 ++++++++++++-------
 .../sound_file_data_source.h                  |  4 +++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/streams/src/external_data_sources/sound_file_data_source.cpp b/streams/src/external_data_sources/sound_file_data_source.cpp
index 74e3ed0..76cf208 100644
--- a/streams/src/external_data_sources/sound_file_data_source.cpp
+++ b/streams/src/external_data_sources/sound_file_data_source.cpp
@@ -40,6 +40,8 @@
 
 #include <boost/url/parse.hpp>
 #include <cmath>
+#include <memory>
+#include <mutex>
 
 using namespace rpy;
 using namespace rpy::streams;
@@ -80,6 +82,9 @@ dimn_t SoundFileDataSource::query_impl(
 
     auto width = schema.width();
 
+    // The position in the file is shared by everybody who reads from it.
+    std::lock_guard<std::mutex> access(*p_lock);
+
     std::vector<T> working(width);
     std::vector<T> previous(m_handle.channels());
     std::vector<T> current(m_handle.channels());
@@ -95,17 +100,21 @@ dimn_t SoundFileDataSource::query_impl(
     // If we're at the beginning of time, skip the first reading
     if (frame_begin == 0) { ++frame_begin; }
 
-    auto seek_pos = m_handle.seek(frame_begin - 1, SEEK_SET);
-    m_handle.readf(previous.data(), 1);
-
     RPY_CHECK(
             frame_begin > 0 && frame_begin <= frame_end
             && frame_end <= m_handle.frames()
     );
 
     auto frame_count = frame_end - frame_begin;
+    if (frame_count == 0) { return 0; }
 
-    if (seek_pos == -1) { RPY_THROW(std::runtime_error, "invalid seek"); }
+    if (m_handle.seek(frame_begin - 1, SEEK_SET) == -1) {
+        RPY_THROW(std::runtime_error, "invalid seek");
+    }
+
+    if (m_handle.readf(previous.data(), 1) != 1) {
+        RPY_THROW(std::runtime_error, "could not read from sound file");
+    }
 
     result.allocate_scalars(frame_count * width);
 
@@ -126,7 +135,9 @@ dimn_t SoundFileDataSource::query_impl(
          *      5) Repeat.
          */
 
-        m_handle.readf(current.data(), 1);
+        if (m_handle.readf(current.data(), 1) != 1) {
+            RPY_THROW(std::runtime_error, "could not read from sound file");
+        }
         dimn_t i = 0;
         // I really wish C++ had enumerate iterators!
         for (const auto& [_, chan] : schema) {
@@ -257,7 +268,7 @@ SoundFileDataSourceFactory::get_constructor(const url& uri) const
         if (exists(path) && is_regular_file(path)) {
             auto* payload = new Payload{SndfileHandle(path.c_str())};
 
-            if (payload->handle.error() != 0) {
+            if (!payload->handle || payload->handle.error() != 0) {
                 delete payload;
                 return ctor;
             }
@@ -270,7 +281,7 @@ SoundFileDataSourceFactory::get_constructor(const url& uri) const
 }
 Stream SoundFileDataSourceFactory::construct_stream(void* payload) const
 {
-    auto* pl = reinterpret_cast<Payload*>(payload);
+    std::unique_ptr<Payload> pl(reinterpret_cast<Payload*>(payload));
 
     StreamMetadata meta{
             0,
@@ -369,8 +380,6 @@ Stream SoundFileDataSourceFactory::construct_stream(void* payload) const
             std::move(pl->schema)
     );
 
-    destroy_payload(payload);
-
     return Stream(std::move(inner));
 }
 
diff --git a/streams/src/external_data_sources/sound_file_data_source.h b/streams/src/external_data_sources/sound_file_data_source.h
index 833bd23..908be58 100644
--- a/streams/src/external_data_sources/sound_file_data_source.h
+++ b/streams/src/external_data_sources/sound_file_data_source.h
@@ -37,6 +37,9 @@
 
 #include <roughpy/platform/filesystem.h>
 
+#include <memory>
+#include <mutex>
+
 namespace rpy {
 namespace streams {
 
@@ -46,6 +49,7 @@ class SoundFileDataSource : public ExternalDataStreamSource
     param_t m_time_param_scaling = 1.0;
     fs::path m_path;
     SndfileHandle m_handle;
+    std::shared_ptr<std::mutex> p_lock = std::make_shared<std::mutex>();
 
     sf_count_t param_to_frame(param_t param);
 
-- 
2.43.0


From 79880ff163209ced1d5196b91ed3bb055b412d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:23 +0000
Subject: [PATCH 46/90] fix: construct scalars of allocated types from a type
 and a value

---
 scalars/include/roughpy/scalars/scalar.h | 5 ++---
 scalars/src/scalar.cpp                   | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index 624ad5c..3776f16 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -271,11 +271,10 @@ public:
                     && is_trivially_copyable_v<T>
                     && is_trivially_destructible_v<T>>>
     explicit Scalar(const ScalarType* type, T&& value)
-        : p_type_and_content_type(type, dtl::ScalarContentType::TrivialBytes),
-          integer_for_convenience(0)
+        : Scalar(type)
     {
         dtl::scalar_convert_copy(
-                trivial_bytes,
+                mut_pointer(),
                 type_info(),
                 &value,
                 devices::type_info<remove_cvref_t<T>>()
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 9771fc0..1dd5305 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -68,7 +68,7 @@ Scalar::Scalar(Scalar::type_pointer type) : integer_for_convenience(0)
     if (!type.is_null()) {
         dtl::ScalarContentType mode;
         if (type.is_pointer()) {
-            mode = dtl::content_type_of(type);
+            mode = dtl::content_type_of(type->type_info());
             p_type_and_content_type = type_pointer(type.get_pointer(), mode);
         } else {
             auto info = type.get_type_info();
@@ -82,7 +82,7 @@ Scalar::Scalar(Scalar::type_pointer type) : integer_for_convenience(0)
         }
 
         if (mode == dtl::ScalarContentType::OwnedPointer) {
-            opaque_pointer = type->allocate_single();
+            opaque_pointer = p_type_and_content_type->allocate_single();
         }
     }
 }
-- 
2.43.0


From b409d4d027c0a7e52b917cc628ced6e19527f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:23 +0000
Subject: [PATCH 47/90] fix: let empty arrays be written to

---
 scalars/src/scalar_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 99a0aaa..1cb5cf4 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -425,7 +425,7 @@ void ScalarArray::check_for_ptr_access(bool mut) const
     RPY_CHECK(!p_type_and_mode.is_pointer() || p_type_and_mode->is_cpu());
 
     RPY_CHECK(
-            !mut
+            !mut || m_size == 0
             || p_type_and_mode.get_enumeration()
                     != dtl::ScalarArrayStorageModel::BorrowConst
     );
-- 
2.43.0


From e110fc30cf528648cfb78c36bf45c5810aa01757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:23 +0000
Subject: [PATCH 48/90] fix: lock half precision random generators and report
 failures to save or restore their state

---
 .../bfloat16/bfloat16_random_generator.h      | 26 ++++++++++++++++---
 .../src/types/half/half_random_generator.h    | 26 ++++++++++++++++---
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/scalars/src/types/bfloat16/bfloat16_random_generator.h b/scalars/src/types/bfloat16/bfloat16_random_generator.h
index 5b0df36..43a5ca4 100644
--- a/scalars/src/types/bfloat16/bfloat16_random_generator.h
+++ b/scalars/src/types/bfloat16/bfloat16_random_generator.h
@@ -74,8 +74,11 @@ void StandardRandomGenerator<bfloat16, BitGenerator>::set_seed(
 {
     RPY_CHECK(seed_data.size() >= 1);
 
-    m_generator.seed(seed_data[0]);
-    m_seed = {seed_data[0]};
+    std::vector<seed_int_t> seed{seed_data[0]};
+
+    std::lock_guard<std::mutex> access(m_lock);
+    m_generator.seed(seed[0]);
+    m_seed = std::move(seed);
 }
 
 template <typename BitGenerator>
@@ -85,12 +88,22 @@ set_state(string_view state)
     // add a linebreak char to terminate the string to avoid a bug in the pcg
     // stream read function
     std::stringstream ss(string{state} + '\n');
-    ss >> m_generator;
+    BitGenerator generator;
+    ss.exceptions(std::ios::badbit);
+    ss >> generator;
+    RPY_CHECK(!ss.fail());
+
+    std::lock_guard<std::mutex> access(m_lock);
+    m_generator = generator;
 }
 
 template <typename BitGenerator>
 std::vector<seed_int_t> StandardRandomGenerator<bfloat16, BitGenerator>::
-get_seed() const { return {m_seed[0]}; }
+get_seed() const
+{
+    std::lock_guard<std::mutex> access(m_lock);
+    return {m_seed[0]};
+}
 
 template <typename BitGenerator>
 std::string StandardRandomGenerator<bfloat16, BitGenerator>::get_type() const
@@ -101,7 +114,10 @@ std::string StandardRandomGenerator<bfloat16, BitGenerator>::get_type() const
 template <typename BitGenerator>
 std::string StandardRandomGenerator<bfloat16, BitGenerator>::get_state() const
 {
+    std::lock_guard<std::mutex> access(m_lock);
     std::stringstream ss;
+    // Streams hide the errors that happen in them unless told otherwise.
+    ss.exceptions(std::ios::badbit | std::ios::failbit);
     ss << m_generator;
     return ss.str();
 }
@@ -133,6 +149,7 @@ ScalarArray StandardRandomGenerator<bfloat16, BitGenerator>::uniform_random_scal
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         for (auto& dist : dists) {
             construct_inplace(out++, scalar_type(dist(m_generator)));
@@ -156,6 +173,7 @@ ScalarArray StandardRandomGenerator<bfloat16, BitGenerator>::normal_random(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         construct_inplace(out++, scalar_type(dist(m_generator)));
     }
diff --git a/scalars/src/types/half/half_random_generator.h b/scalars/src/types/half/half_random_generator.h
index f6065ba..1f767c6 100644
--- a/scalars/src/types/half/half_random_generator.h
+++ b/scalars/src/types/half/half_random_generator.h
@@ -74,8 +74,11 @@ void StandardRandomGenerator<half, BitGenerator>::set_seed(
 {
     RPY_CHECK(seed_data.size() >= 1);
 
-    m_generator.seed(seed_data[0]);
-    m_seed = {seed_data[0]};
+    std::vector<seed_int_t> seed{seed_data[0]};
+
+    std::lock_guard<std::mutex> access(m_lock);
+    m_generator.seed(seed[0]);
+    m_seed = std::move(seed);
 }
 
 template <typename BitGenerator>
@@ -85,12 +88,22 @@ set_state(string_view state)
     // add a linebreak char to terminate the string to avoid a bug in the pcg
     // stream read function
     std::stringstream ss(string{state} + '\n');
-    ss >> m_generator;
+    BitGenerator generator;
+    ss.exceptions(std::ios::badbit);
+    ss >> generator;
+    RPY_CHECK(!ss.fail());
+
+    std::lock_guard<std::mutex> access(m_lock);
+    m_generator = generator;
 }
 
 template <typename BitGenerator>
 std::vector<seed_int_t> StandardRandomGenerator<half, BitGenerator>::
-get_seed() const { return {m_seed[0]}; }
+get_seed() const
+{
+    std::lock_guard<std::mutex> access(m_lock);
+    return {m_seed[0]};
+}
 
 template <typename BitGenerator>
 std::string StandardRandomGenerator<half, BitGenerator>::get_type() const
@@ -101,7 +114,10 @@ std::string StandardRandomGenerator<half, BitGenerator>::get_type() const
 template <typename BitGenerator>
 std::string StandardRandomGenerator<half, BitGenerator>::get_state() const
 {
+    std::lock_guard<std::mutex> access(m_lock);
     std::stringstream ss;
+    // Streams hide the errors that happen in them unless told otherwise.
+    ss.exceptions(std::ios::badbit | std::ios::failbit);
     ss << m_generator;
     return ss.str();
 }
@@ -133,6 +149,7 @@ ScalarArray StandardRandomGenerator<half, BitGenerator>::uniform_random_scalar(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         for (auto& dist : dists) {
             construct_inplace(out++, scalar_type(dist(m_generator)));
@@ -156,6 +173,7 @@ ScalarArray StandardRandomGenerator<half, BitGenerator>::normal_random(
 
     auto out_slice = result.as_mut_slice<scalar_type>();
     auto* out = out_slice.data();
+    std::lock_guard<std::mutex> access(m_lock);
     for (dimn_t i = 0; i < count; ++i) {
         construct_inplace(out++, scalar_type(dist(m_generator)));
     }
-- 
2.43.0


From 39eecfb820a8a0023b0e10650a0cee902f112368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:53 +0000
Subject: [PATCH 49/90] fix: keep trouble creating the cache directory from
 failing a save

---
 streams/src/dyadic_caching_layer.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index fd1e785..d70de73 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -181,7 +181,6 @@ DyadicCachingLayer::signature(const intervals::Interval& interval,
 
 void DyadicCachingLayer::load_cache() const {
     std::lock_guard<std::recursive_mutex> access(m_compute_lock);
-    auto path = get_config().stream_cache_dir() / to_string(m_cache_id);
 
 //    boost::interprocess::sharable_lock<boost::interprocess::file_lock> fs_access(m_file_lock);
 
@@ -189,6 +188,7 @@ void DyadicCachingLayer::load_cache() const {
     // read, or that was not written completely, is not used.
     decltype(m_cache) cache;
     try {
+        auto path = get_config().stream_cache_dir() / to_string(m_cache_id);
         if (!exists(path)) {
             return;
         }
@@ -207,21 +207,20 @@ void DyadicCachingLayer::dump_cache() const {
     std::lock_guard<std::recursive_mutex> access(m_compute_lock);
     if (m_cache.empty()) { return; }
 
-    auto path = get_config().stream_cache_dir();
-    if (!exists(path)) {
-        create_directories(path);
-    }
-    path /= to_string(m_cache_id);
-
-
 //    boost::interprocess::scoped_lock<boost::interprocess::file_lock> fs_access(m_file_lock);
 
     // The file is only given its name once it is complete, because other
     // streams with the same cache might be reading or writing at the same time.
-    auto tmp_path = path;
-    tmp_path += "." + to_string(make_cache_id());
-    std::error_code ec;
+    fs::path tmp_path;
     try {
+        auto path = get_config().stream_cache_dir();
+        if (!exists(path)) {
+            create_directories(path);
+        }
+        path /= to_string(m_cache_id);
+        tmp_path = path;
+        tmp_path += "." + to_string(make_cache_id());
+
         std::ofstream file_stream;
         file_stream.exceptions(std::ios::failbit | std::ios::badbit);
         file_stream.open(tmp_path, std::ios::binary);
@@ -233,6 +232,7 @@ void DyadicCachingLayer::dump_cache() const {
         rename(tmp_path, path);
     } catch (const std::exception&) {
         // The stream can be used without its cache.
+        std::error_code ec;
         remove(tmp_path, ec);
     }
 }
-- 
2.43.0


From 880a23866b90857d920ce8201efc3bb46d4c7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:23 +0000
Subject: [PATCH 50/90] fix: take the right share of a piece that a query
 covers in part

A piecewise abelian stream gave, for a piece that the query interval began
before or that contained it, a multiple computed as if the query began inside
the piece and reached its end, because a condition compared a value to itself.
---
 streams/src/piecewise_abelian_stream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streams/src/piecewise_abelian_stream.cpp b/streams/src/piecewise_abelian_stream.cpp
index 39ecf94..22eb4e4 100644
--- a/streams/src/piecewise_abelian_stream.cpp
+++ b/streams/src/piecewise_abelian_stream.cpp
@@ -173,7 +173,7 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
         } else if (pa >= a && pb <= b) {
             // [-----[p-----p)---)
             lies.push_back(piece.second);
-        } else if (pb <= pb) {
+        } else if (pa < a && pb <= b) {
             // [p---[---p)-----)
             lies.push_back(piece.second.smul(to_multiplier_upper(piece.first, a)
             ));
@@ -181,6 +181,11 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
             // [---[p----)----p)
             lies.push_back(piece.second.smul(to_multiplier_lower(piece.first, b)
             ));
+        } else {
+            // [p---[---)---p)
+            lies.push_back(piece.second.smul(
+                    scalars::Scalar((b - a) / (pb - pa))
+            ));
         }
     }
 
-- 
2.43.0


From ea8044e1d3949fe8a79378a92e33574cd978d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:45 +0000
Subject: [PATCH 51/90] fix: copy non-contiguous array arguments correctly

The offset of the output did not count the elements of the compressed
dimensions, arrays with zero strides were read as if they were contiguous, the
number of dimensions of a buffer was reported as its item size and Fortran
ordered buffers were taken to be in row-major order.
---
 roughpy/src/args/buffer_info.h    |  4 ++--
 roughpy/src/args/strided_copy.cpp | 30 +++++++++++++++++-------------
 roughpy/src/args/strided_copy.h   |  8 ++------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/roughpy/src/args/buffer_info.h b/roughpy/src/args/buffer_info.h
index 297b370..b459f97 100644
--- a/roughpy/src/args/buffer_info.h
+++ b/roughpy/src/args/buffer_info.h
@@ -39,7 +39,7 @@ public:
 
     RPY_NO_DISCARD bool is_contiguous() const noexcept
     {
-        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'A'));
+        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'C'));
     }
 
     RPY_NO_DISCARD idimn_t itemsize() const noexcept
@@ -50,7 +50,7 @@ public:
 
     RPY_NO_DISCARD idimn_t ndim() const noexcept
     {
-        return static_cast<idimn_t>(m_view.itemsize);
+        return static_cast<idimn_t>(m_view.ndim);
     }
 
     RPY_NO_DISCARD const Py_ssize_t* shape() const noexcept
diff --git a/roughpy/src/args/strided_copy.cpp b/roughpy/src/args/strided_copy.cpp
index 2adc5db..8ffa26b 100644
--- a/roughpy/src/args/strided_copy.cpp
+++ b/roughpy/src/args/strided_copy.cpp
@@ -38,6 +38,7 @@
 #include <roughpy/scalars/scalar_array.h>
 #include <roughpy/scalars/scalar_type.h>
 
+#include <algorithm>
 #include <cstring>
 #include <functional>
 #include <numeric>
@@ -128,7 +129,9 @@ void rpy::python::stride_copy(
         const idimn_t* strides
 )
 {
-    if (ndim == 0) { return; }
+    if (ndim == 0 || std::find(shape, shape + ndim, 0) != shape + ndim) {
+        return;
+    }
     const auto info = in.type_info();
 
     auto compressed_ndim
@@ -153,12 +156,20 @@ void rpy::python::stride_copy(
             return offset;
         };
 
-        auto dst_offset = [&shape, &uncompressed, &index]() {
-            dimn_t offset = index[uncompressed-1];
-            for (int32_t i = 1; i < uncompressed; ++i) {
-                offset += shape[i] * index[i-1];
+        auto compression_size = std::accumulate(
+                shape + uncompressed,
+                shape + ndim,
+                static_cast<idimn_t>(1),
+                std::multiplies<>()
+        );
+
+        // The output is contiguous in row-major order
+        auto dst_offset = [&shape, &uncompressed, &index, &compression_size]() {
+            idimn_t offset = 0;
+            for (int32_t i = 0; i < uncompressed; ++i) {
+                offset = offset * shape[i] + index[i];
             }
-            return offset;
+            return offset * compression_size;
         };
 
         auto advance_index = [&shape, &index]() {
@@ -172,13 +183,6 @@ void rpy::python::stride_copy(
             }
         };
 
-        auto compression_size = std::accumulate(
-                shape + uncompressed,
-                shape + ndim,
-                static_cast<idimn_t>(1),
-                std::multiplies<>()
-        );
-
         for (; index[0] < shape[0]; advance_index()) {
             auto offset = dst_offset();
             auto tmp_out = out[{offset, offset + compression_size}];
diff --git a/roughpy/src/args/strided_copy.h b/roughpy/src/args/strided_copy.h
index 0fb18c7..ce955f3 100644
--- a/roughpy/src/args/strided_copy.h
+++ b/roughpy/src/args/strided_copy.h
@@ -84,12 +84,8 @@ inline bool is_C_contiguous(
         optional<int32_t> itemsize
 ) noexcept
 {
-    if (strides.empty()) { return true; }
-
-    const size_t strides_sum = std::accumulate(strides.begin(), strides.end(), 0);
-    if (strides_sum == 0) {
-        return true;
-    }
+    // Absent strides mean that the data is compact in row-major order
+    if (strides.empty() || strides.data() == nullptr) { return true; }
 
     T compressed_size = (itemsize) ? *itemsize : 1;
     for (auto i = strides.size(); i > 0;) {
-- 
2.43.0


From 64ef8870930b0f8975ddba439d5ea4c380f88129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 52/90] fix: report exceptions from Python callbacks and
 allocation failures as what they are

---
 roughpy/src/roughpy_module.h   | 84 ++++++++++++++++++++++++++++++----
 roughpy/src/streams/stream.cpp | 78 ++++++++++++++++---------------
 2 files changed, 114 insertions(+), 48 deletions(-)

diff --git a/roughpy/src/roughpy_module.h b/roughpy/src/roughpy_module.h
index ada5e63..e58b463 100644
--- a/roughpy/src/roughpy_module.h
+++ b/roughpy/src/roughpy_module.h
@@ -34,6 +34,7 @@
 #define ROUGHPY_ROUGHPY_SRC_ROUGHPY_MODULE_H
 
 #include <stdexcept>
+#include <type_traits>
 
 #include <pybind11/functional.h>
 #include <pybind11/pybind11.h>
@@ -62,11 +63,6 @@ namespace py = pybind11;
 namespace rpy {
 namespace python {
 
-template <typename T>
-inline PyObject* cast_to_object(T&& arg) noexcept
-{
-    return py::cast(std::forward<T>(arg)).release().ptr();
-}
 
 inline py::object kwargs_pop(py::kwargs& kwargs, const char* name)
 {
@@ -82,6 +78,77 @@ enable_if_t<is_base_of_v<py::object, T>, T> steal_as(py::object& obj
 ) noexcept { return py::reinterpret_steal<T>(obj.release().ptr()); }
 
 
+/**
+ * Set the Python error indicator from the C++ exception that is currently being
+ * handled. Must be called from inside a catch block, with the GIL held. Errors
+ * that were raised by Python code are restored unchanged.
+ */
+inline void set_error_from_current_exception() noexcept
+{
+    try {
+        throw;
+    } catch (py::error_already_set& e) {
+        e.restore();
+    } catch (const py::builtin_exception& e) {
+        e.set_error();
+    } catch (const std::bad_alloc& e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+    } catch (const std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (...) {
+        PyErr_SetString(PyExc_RuntimeError, "an unexpected error occurred");
+    }
+}
+
+/**
+ * Convert a C++ value to a new reference to a Python object. On failure, the
+ * Python error indicator is set and the null pointer is returned.
+ */
+template <typename T>
+inline PyObject* cast_to_object(T&& arg) noexcept
+{
+    try {
+        return py::cast(std::forward<T>(arg)).release().ptr();
+    } catch (...) {
+        set_error_from_current_exception();
+        return nullptr;
+    }
+}
+
+/**
+ * Wrapper for functions that are called directly by the Python interpreter,
+ * through which C++ exceptions must not propagate. Exceptions are converted to
+ * Python errors and reported using the error value for the slot.
+ */
+template <auto Fn>
+struct guarded_call;
+
+template <typename R, typename... Args, R (*Fn)(Args...)>
+struct guarded_call<Fn> {
+    static R call(Args... args) noexcept
+    {
+        try {
+            return Fn(args...);
+        } catch (...) {
+            set_error_from_current_exception();
+            return static_cast<R>(error_value());
+        }
+    }
+
+private:
+    static constexpr auto error_value() noexcept
+    {
+        if constexpr (std::is_pointer_v<R>) {
+            return nullptr;
+        } else {
+            return -1;
+        }
+    }
+};
+
+template <auto Fn>
+inline constexpr auto guarded = &guarded_call<Fn>::call;
+
 /**
  * A helper method that executes a given callable and catches any exceptions
  * that might occur during its execution. The method ensures that exceptions
@@ -100,7 +167,6 @@ bool with_caught_exceptions(F&& fn) noexcept
     try {
         fn();
         completed_successfully = true;
-    // } catch (const py::error_already_set& e) { // Python exception
     } catch (const std::invalid_argument& e) {
         PyErr_SetString(PyExc_ValueError, e.what());
     } catch (const std::domain_error& e) {
@@ -111,10 +177,8 @@ bool with_caught_exceptions(F&& fn) noexcept
         PyErr_SetString(PyExc_IndexError, e.what());
     } catch (const std::bad_alloc& e) {
         PyErr_SetString(PyExc_MemoryError, e.what());
-    // } catch (const py::builtin_exception& e) {
-    //     e.set_error();
-    } catch (std::exception& e) {
-        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (...) {
+        set_error_from_current_exception();
     }
     return completed_successfully;
 }
diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index b054659..fd5b6f4 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -217,8 +217,8 @@ static PyObject* signature(PyObject* self, PyObject* args, PyObject* kwargs)
                 result = stream->m_data.signature(*sigargs.ctx);
             }
         }
-    } catch (std::exception& err) {
-        PyErr_SetString(PyExc_RuntimeError, err.what());
+    } catch (...) {
+        python::set_error_from_current_exception();
         return nullptr;
     }
 
@@ -263,8 +263,8 @@ static PyObject* log_signature(PyObject* self, PyObject* args, PyObject* kwargs)
                 result = stream->m_data.log_signature(*sigargs.ctx);
             }
         }
-    } catch (std::exception& err) {
-        PyErr_SetString(PyExc_RuntimeError, err.what());
+    } catch (...) {
+        python::set_error_from_current_exception();
         return nullptr;
     }
 
@@ -331,8 +331,8 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
                     resolution,
                     *ctx
             );
-        } catch (std::exception& err) {
-            PyErr_SetString(PyExc_RuntimeError, err.what());
+        } catch (...) {
+            python::set_error_from_current_exception();
             return nullptr;
         }
 
@@ -361,8 +361,8 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
                     resolution,
                     *ctx
             );
-        } catch (std::exception& err) {
-            PyErr_SetString(PyExc_RuntimeError, err.what());
+        } catch (...) {
+            python::set_error_from_current_exception();
             return nullptr;
         }
     } else if (static_cast<bool>(PySequence_Check(arg)) && PySequence_Length(arg) > 0) {
@@ -371,7 +371,11 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         perturbations.reserve(n_perturbations);
 
         for (Py_ssize_t i = 0; i < n_perturbations; ++i) {
-            PyObject* item = PySequence_ITEM(arg, i);
+            const auto py_item = py::reinterpret_steal<py::object>(
+                    PySequence_GetItem(arg, i)
+            );
+            if (!py_item) { return nullptr; }
+            PyObject* item = py_item.ptr();
 
             if (!static_cast<bool>(PySequence_Check(item))
                 || PySequence_Length(item) != 2) {
@@ -410,8 +414,8 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
                     resolution,
                     *ctx
             );
-        } catch (std::exception& err) {
-            PyErr_SetString(PyExc_RuntimeError, err.what());
+        } catch (...) {
+            python::set_error_from_current_exception();
             return nullptr;
         }
     } else {
@@ -486,8 +490,8 @@ simplify_stream(PyObject* self, PyObject* args, PyObject* kwargs)
     try {
         py::gil_scoped_release gil;
         simplified = stream.simplify(partition, resolution, *ctx);
-    } catch (std::exception& err) {
-        PyErr_SetString(PyExc_RuntimeError, err.what());
+    } catch (...) {
+        python::set_error_from_current_exception();
         return nullptr;
     }
 
@@ -524,8 +528,6 @@ static PyObject* restrict(PyObject* self, PyObject* args, PyObject* kwargs)
 static PyObject*
 stream___getnewargs_ex__(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
-    PyObject* data;
-
     std::string s;
     try {
         py::gil_scoped_release gil;
@@ -535,45 +537,44 @@ stream___getnewargs_ex__(PyObject* self, PyObject* RPY_UNUSED_VAR)
             oar(reinterpret_cast<python::RPyStream*>(self)->m_data);
         }
         s = ss.str();
-    } catch (std::exception& err) {
-        PyErr_SetString(PyExc_RuntimeError, err.what());
+    } catch (...) {
+        python::set_error_from_current_exception();
         return nullptr;
     }
 
-    data = PyByteArray_FromStringAndSize(
+    PyObject* data = PyByteArray_FromStringAndSize(
             s.data(),
             static_cast<Py_ssize_t>(s.size())
     );
+    if (data == nullptr) { return nullptr; }
 
-    PyObject* new_args = PyTuple_New(0);
-    PyObject* new_kwargs = Py_BuildValue("{sO}", "serialized_stream", data);
-
-    return Py_BuildValue("(OO)", new_args, new_kwargs);
+    // The references to the new objects are passed on to the result
+    return Py_BuildValue("(N{sN})", PyTuple_New(0), "serialized_stream", data);
 }
 
 static PyMethodDef RPyStream_members[] = {
         {           "signature",
-         (PyCFunction) &signature,
+         (PyCFunction) python::guarded<signature>,
          METH_VARARGS | METH_KEYWORDS,
          SIGNATURE_DOC                                      },
         {       "log_signature",
-         (PyCFunction) &log_signature,
+         (PyCFunction) python::guarded<log_signature>,
          METH_VARARGS | METH_KEYWORDS,
          LOGSIGNATURE_DOC                                   },
         {"signature_derivative",
-         (PyCFunction) &sig_deriv,
+         (PyCFunction) python::guarded<sig_deriv>,
          METH_VARARGS | METH_KEYWORDS,
          SIG_DERIV_DOC                                      },
         {            "simplify",
-         (PyCFunction) &simplify_stream,
+         (PyCFunction) python::guarded<simplify_stream>,
          METH_VARARGS | METH_KEYWORDS,
          SIMPLIFY_STREAM_DOC                                },
         {            "restrict",
-         (PyCFunction)& restrict,
+         (PyCFunction) python::guarded<restrict>,
          METH_VARARGS | METH_KEYWORDS,
          RESTRICT_DOC                                       },
         {   "__getnewargs_ex__",
-         (PyCFunction) stream___getnewargs_ex__,
+         (PyCFunction) python::guarded<stream___getnewargs_ex__>,
          METH_NOARGS, nullptr                               },
         {               nullptr,        nullptr,  0, nullptr}
 };
@@ -620,11 +621,11 @@ static PyObject* resolution_getter(PyObject* self)
 }
 
 static PyGetSetDef RPyStream_getset[] = {
-        {     "width",      (getter) width_getter, nullptr, "Alphabet size, dimension of the underlying space (deprecated, use :py:attr:`ctx` instead).", nullptr},
-        {     "dtype",      (getter) ctype_getter, nullptr, "Scalar type for the algebra (deprecated, use :py:attr:`ctx` instead). Can be a RoughPy data type (:py:attr:`rp.SPReal`, :py:attr:`rp.DPReal`, :py:attr:`rp.Rational`, :py:attr:`rp.PolyRational`), or a numpy dtype.", nullptr},
-        {       "ctx",        (getter) ctx_getter, nullptr, "Provide an algebra context in which to create the algebra.", nullptr},
-        {   "support",    (getter) support_getter, nullptr, ":class:`Interval` of parameter values on which the :class:`Stream` has meaning.", nullptr},
-        {"resolution", (getter) resolution_getter, nullptr, ":py:attr:`resolution` for the dyadic dissection of the domain, and the default resolution used in signature/log_signature calculations.", nullptr},
+        {     "width",      (getter) python::guarded<width_getter>, nullptr, "Alphabet size, dimension of the underlying space (deprecated, use :py:attr:`ctx` instead).", nullptr},
+        {     "dtype",      (getter) python::guarded<ctype_getter>, nullptr, "Scalar type for the algebra (deprecated, use :py:attr:`ctx` instead). Can be a RoughPy data type (:py:attr:`rp.SPReal`, :py:attr:`rp.DPReal`, :py:attr:`rp.Rational`, :py:attr:`rp.PolyRational`), or a numpy dtype.", nullptr},
+        {       "ctx",        (getter) python::guarded<ctx_getter>, nullptr, "Provide an algebra context in which to create the algebra.", nullptr},
+        {   "support",    (getter) python::guarded<support_getter>, nullptr, ":class:`Interval` of parameter values on which the :class:`Stream` has meaning.", nullptr},
+        {"resolution", (getter) python::guarded<resolution_getter>, nullptr, ":py:attr:`resolution` for the dyadic dissection of the domain, and the default resolution used in signature/log_signature calculations.", nullptr},
         {     nullptr,                    nullptr, nullptr, nullptr, nullptr}
 };
 
@@ -667,6 +668,7 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
     if (pybuff) {
         // The stream is being initialised with previously serialized data.
         self = reinterpret_cast<RPyStream*>(subtype->tp_alloc(subtype, 0));
+        if (self == nullptr) { return nullptr; }
 
         // Ensure that the stream object is initialised in the data slot.
         construct_inplace<streams::Stream>(&self->m_data);
@@ -678,9 +680,9 @@ RPyStream_new(PyTypeObject* subtype, PyObject* args, PyObject* kwargs)
             std::stringstream ss(raw);
             rpy::archives::BinaryInputArchive iar(ss);
             iar(self->m_data);
-        } catch (std::exception& err) {
+        } catch (...) {
             Py_DECREF(self);
-            PyErr_SetString(PyExc_RuntimeError, err.what());
+            python::set_error_from_current_exception();
             return nullptr;
         }
 
@@ -704,13 +706,13 @@ PyTypeObject rpy::python::RPyStream_Type = {
         (getattrfunc) nullptr,                    /* tp_getattr */
         (setattrfunc) nullptr,                    /* tp_setattr */
         nullptr,                                  /* tp_as_async */
-        (reprfunc) RPyStream_repr,                /* tp_repr */
+        (reprfunc) rpy::python::guarded<RPyStream_repr>,               /* tp_repr */
         nullptr,                                  /* tp_as_number */
         nullptr,                                  /* tp_as_sequence */
         nullptr,                                  /* tp_as_mapping */
         nullptr,                                  /* tp_hash */
         nullptr,                                  /* tp_call */
-        (reprfunc) RPyStream_str,                 /* tp_str */
+        (reprfunc) rpy::python::guarded<RPyStream_str>,                /* tp_str */
         nullptr,                                  /* tp_getattro */
         (setattrofunc) nullptr,                   /* tp_setattro */
         (PyBufferProcs*) nullptr,                 /* tp_as_buffer */
@@ -732,7 +734,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         0,                                        /* tp_dictoffset */
         (initproc) nullptr,                       /* tp_init */
         nullptr,                                  /* tp_alloc */
-        (newfunc) RPyStream_new,                  /* tp_new */
+        (newfunc) rpy::python::guarded<RPyStream_new>,                /* tp_new */
         nullptr,                                  /* tp_free */
         nullptr,                                  /* tp_is_gc */
         nullptr,                                  /* tp_bases */
-- 
2.43.0


From f34526b711141a193a97bfa0f8dd988dcddfdb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 53/90] fix: manage contexts' references and report errors in
 the context type

---
 roughpy/src/algebra/context.cpp | 83 ++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 26 deletions(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 9ba2bcc..0e15df6 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -135,12 +135,16 @@ RPyContext_cbh(PyObject* self, PyObject* args, PyObject* kwargs)
     }
 
     const auto num_lies = PySequence_Size(py_lies);
+    if (num_lies < 0) { return nullptr; }
     std::vector<Lie> lies;
     lies.reserve(num_lies);
 
     for (Py_ssize_t i = 0; i < num_lies; ++i) {
-        py::handle py_lie(PySequence_ITEM(py_lies, i));
-        lies.push_back(py_lie.cast<Lie&>().borrow_mut());
+        const auto py_lie = py::reinterpret_steal<py::object>(
+                PySequence_GetItem(py_lies, i)
+        );
+        if (!py_lie) { return nullptr; }
+        lies.push_back(py_lie.cast<const Lie&>());
     }
 
     if (lies.empty()) {
@@ -172,9 +176,9 @@ RPyContext_compute_signature(PyObject* self, PyObject* args, PyObject* kwargs)
                 kwargs,
                 "O|O!",
                 const_cast<char**>(kwords),
-                py_data.ptr(),
+                &py_data.ptr(),
                 py::type::of<VectorType>().ptr(),
-                py_vtype.ptr()
+                &py_vtype.ptr()
         )) {
         return nullptr;
     }
@@ -190,15 +194,11 @@ RPyContext_compute_signature(PyObject* self, PyObject* args, PyObject* kwargs)
     try {
         parsed_data = python::parse_data_argument(py_data, options);
         parsed_data.fill_ks_stream(request.data_stream);
-    } catch (std::exception& exc) {
-        PyErr_SetString(PyExc_RuntimeError, exc.what());
+    } catch (...) {
+        python::set_error_from_current_exception();
         return nullptr;
     }
 
-    if (parsed_data.size() == 0) {
-        auto result = ctx->zero_free_tensor(request.vector_type);
-    }
-
     request.vector_type = VectorType::Sparse;
     if (py_vtype) {
         request.vector_type = py_vtype.cast<VectorType>();
@@ -206,6 +206,11 @@ RPyContext_compute_signature(PyObject* self, PyObject* args, PyObject* kwargs)
         request.vector_type = VectorType::Dense;
     }
 
+    if (parsed_data.size() == 0) {
+        return python::cast_to_object(
+                ctx->zero_free_tensor(request.vector_type)
+        );
+    }
 
     return python::cast_to_object(ctx->signature(request));
 }
@@ -256,7 +261,11 @@ static PyObject* RPyContext_tensor_to_lie(PyObject * self, PyObject * arg)
     );
 }
 
-static PyObject* RPyContext_enter(PyObject* self) { return self; }
+static PyObject* RPyContext_enter(PyObject* self)
+{
+    Py_INCREF(self);
+    return self;
+}
 
 static PyObject* RPyContext_exit(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
@@ -293,7 +302,7 @@ RPyContext_zero_lie(PyObject* self, PyObject* args, PyObject* kwargs)
 
 #define ADD_METHOD(NAME, FLAGS)                                                \
     {                                                                          \
-        #NAME, (PyCFunction) & RPyContext_##NAME, (FLAGS), NAME##_DOC          \
+        #NAME, (PyCFunction) python::guarded<RPyContext_##NAME>, (FLAGS), NAME##_DOC          \
     }
 
 static PyMethodDef RPyContext_members[] = {
@@ -335,7 +344,7 @@ static PyObject* RPyContext_tensor_basis_getter(PyObject* self)
 
 #define ADD_GETSET(NAME, doc)                                                       \
     {                                                                          \
-        #NAME, (getter) &RPyContext_##NAME##_getter, nullptr, doc, nullptr \
+        #NAME, (getter) python::guarded<RPyContext_##NAME##_getter>, nullptr, doc, nullptr \
     }
 
 static PyGetSetDef RPyContext_getset[] = {
@@ -362,14 +371,31 @@ static PyObject* RPyContext_str(PyObject* self)
     return RPyContext_repr(self);
 }
 
-RPY_MAYBE_UNUSED static PyObject*
-RPyContext_new(PyObject* self, PyObject* args, PyObject* kwargs)
+static PyObject* RPyContext_new(
+        PyTypeObject* RPY_UNUSED_VAR type,
+        PyObject* RPY_UNUSED_VAR args,
+        PyObject* RPY_UNUSED_VAR kwargs
+)
 {
-    RPY_UNREACHABLE_RETURN(nullptr);
+    PyErr_SetString(
+            PyExc_TypeError,
+            "a Context must be obtained using get_context"
+    );
+    return nullptr;
+}
+
+static void RPyContext_dealloc(PyObject* self)
+{
+    reinterpret_cast<RPyContext*>(self)->p_ctx.~context_pointer();
+    Py_TYPE(self)->tp_free(self);
 }
 
 static PyObject* RPyContext_richcompare(PyObject* o1, PyObject* o2, int opid)
 {
+    if (Py_TYPE(o1) != &python::RPyContext_Type
+        || Py_TYPE(o2) != &python::RPyContext_Type) {
+        Py_RETURN_NOTIMPLEMENTED;
+    }
 
     switch (opid) {
         case Py_EQ:
@@ -384,7 +410,7 @@ static PyObject* RPyContext_richcompare(PyObject* o1, PyObject* o2, int opid)
         case Py_GE: break;
     }
 
-    return nullptr;
+    Py_RETURN_NOTIMPLEMENTED;
 }
 
 static const char* CONTEXT_DOC = R"rpydoc(
@@ -399,18 +425,18 @@ PyTypeObject rpy::python::RPyContext_Type = {
         "_roughpy.Context",                       /* tp_name */
         sizeof(python::RPyContext),               /* tp_basicsize */
         0,                                        /* tp_itemsize */
-        nullptr,                                  /* tp_dealloc */
+        RPyContext_dealloc,                       /* tp_dealloc */
         0,                                        /* tp_vectorcall_offset */
         (getattrfunc) nullptr,                    /* tp_getattr */
         (setattrfunc) nullptr,                    /* tp_setattr */
         nullptr,                                  /* tp_as_async */
-        (reprfunc) RPyContext_repr,               /* tp_repr */
+        (reprfunc) python::guarded<RPyContext_repr>,              /* tp_repr */
         nullptr,                                  /* tp_as_number */
         nullptr,                                  /* tp_as_sequence */
         nullptr,                                  /* tp_as_mapping */
         nullptr,                                  /* tp_hash */
         nullptr,                                  /* tp_call */
-        (reprfunc) RPyContext_str,                /* tp_str */
+        (reprfunc) python::guarded<RPyContext_str>,               /* tp_str */
         nullptr,                                  /* tp_getattro */
         (setattrofunc) nullptr,                   /* tp_setattro */
         (PyBufferProcs*) nullptr,                 /* tp_as_buffer */
@@ -418,7 +444,7 @@ PyTypeObject rpy::python::RPyContext_Type = {
         CONTEXT_DOC,                              /* tp_doc */
         nullptr,                                  /* tp_traverse */
         nullptr,                                  /* tp_clear */
-        RPyContext_richcompare,                   /* tp_richcompare */
+        python::guarded<RPyContext_richcompare>,  /* tp_richcompare */
         0,                                        /* tp_weaklistoffset */
         (getiterfunc) nullptr,                    /* tp_iter */
         nullptr,                                  /* tp_iternext */
@@ -432,7 +458,7 @@ PyTypeObject rpy::python::RPyContext_Type = {
         0,                                        /* tp_dictoffset */
         (initproc) nullptr,                       /* tp_init */
         nullptr,                                  /* tp_alloc */
-        PyType_GenericNew,                        /* tp_new */
+        RPyContext_new,                           /* tp_new */
 };
 }
 
@@ -474,11 +500,12 @@ PyObject* python::RPyContext_FromContext(algebra::context_pointer ctx)
     auto* new_ctx = reinterpret_cast<RPyContext*>(
             RPyContext_Type.tp_alloc(&RPyContext_Type, 0)
     );
-    new_ctx->p_ctx = std::move(ctx);
+    if (new_ctx == nullptr) { return nullptr; }
+    construct_inplace(&new_ctx->p_ctx, std::move(ctx));
     return reinterpret_cast<PyObject*>(new_ctx);
 }
 
-static py::handle py_get_context(
+static py::object py_get_context(
         deg_t width,
         deg_t depth,
         const py::object& ctype,
@@ -489,9 +516,13 @@ static py::handle py_get_context(
     RPY_CHECK_GT(depth, 0);
 
     // TODO: Make this accept extra arguments.
-    return python::RPyContext_FromContext(
-            get_context(width, depth, python::to_stype_ptr(ctype), {})
+    auto result = py::reinterpret_steal<py::object>(
+            python::RPyContext_FromContext(
+                    get_context(width, depth, python::to_stype_ptr(ctype), {})
+            )
     );
+    if (!result) { throw py::error_already_set(); }
+    return result;
 }
 
 void python::init_context(py::module_& m)
-- 
2.43.0


From e2f087dda30df0dff7b25540667a7488fbf5038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 54/90] fix: look basis keys up in the basis

---
 roughpy/src/algebra/basis.cpp   |  6 +++---
 roughpy/src/algebra/lie_key.cpp | 28 +++++++++++++++++-----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/roughpy/src/algebra/basis.cpp b/roughpy/src/algebra/basis.cpp
index dc3e301..b2ae633 100644
--- a/roughpy/src/algebra/basis.cpp
+++ b/roughpy/src/algebra/basis.cpp
@@ -71,8 +71,8 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
     );
     basis.def(
             "key_to_index",
-            [](const T& self, const python::PyLieKey& key) {
-                return self.key_to_index(0);
+            [](const T& self, const K& key) {
+                return self.key_to_index(static_cast<key_type>(key));
             },
             "key"_a,
             "Takes a :py:attr:`key` and returns an integer corresponding to the index."
@@ -80,7 +80,7 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
 
     basis.def(
             "parents",
-            [](const T& self, const K& key) { return self.parents(0); },
+            [](const T& self, const K& key) { return self.parents(static_cast<key_type>(key)); },
             "key"_a,
             "Splits off the first letter and returns the letter and the remainder of the word."
     );
diff --git a/roughpy/src/algebra/lie_key.cpp b/roughpy/src/algebra/lie_key.cpp
index 12a0a8e..97a72e3 100644
--- a/roughpy/src/algebra/lie_key.cpp
+++ b/roughpy/src/algebra/lie_key.cpp
@@ -476,22 +476,28 @@ python::parse_lie_key(const algebra::LieBasis& basis, const py::args& args, cons
 
 namespace {
 
-optional<key_type> to_internal_key_recurse(const algebra::LieBasis& basis, const python::PyLieLetter* base) noexcept
+optional<key_type> to_internal_key_recurse(const algebra::LieBasis& basis, const python::PyLieLetter* node);
+
+// The pair of nodes beginning at base
+optional<key_type> to_internal_key_pair(const algebra::LieBasis& basis, const python::PyLieLetter* base)
 {
-    if (!base->is_offset()) {
-        return static_cast<key_type>(*base);
-    }
+    auto left = to_internal_key_recurse(basis, base);
+    auto right = to_internal_key_recurse(basis, base + 1);
 
-    optional<key_type> result;
+    if (left && right) {
+        return basis.child(*left, *right);
+    }
 
-    auto left = to_internal_key_recurse(basis, base + static_cast<dimn_t>(*base));
-    auto right = to_internal_key_recurse(basis, ++base);
+    return {};
+}
 
-    if (left && right) {
-        result = basis.child(*left, *right);
+optional<key_type> to_internal_key_recurse(const algebra::LieBasis& basis, const python::PyLieLetter* node)
+{
+    if (!node->is_offset()) {
+        return basis.key_of_letter(static_cast<let_t>(*node));
     }
 
-    return result;
+    return to_internal_key_pair(basis, node + static_cast<dimn_t>(*node));
 }
 
 }
@@ -502,7 +508,7 @@ python::PyLieKey::operator key_type() const noexcept {
         return static_cast<key_type>(m_data[0]);
     }
 
-    auto combined = to_internal_key_recurse(m_basis, m_data.data());
+    auto combined = to_internal_key_pair(m_basis, m_data.data());
 
     if (combined) {
         return *combined;
-- 
2.43.0


From 86888e33add2446f6eea287fa65251648186193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:09 +0000
Subject: [PATCH 55/90] fix: array export dropped references before it had
 their replacements

---
 roughpy/src/args/numpy.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/roughpy/src/args/numpy.cpp b/roughpy/src/args/numpy.cpp
index b055b31..e0b9ddd 100644
--- a/roughpy/src/args/numpy.cpp
+++ b/roughpy/src/args/numpy.cpp
@@ -206,8 +206,9 @@ void write_type_as_py_object(PyObject** dst, Slice<const T> data)
     const auto type_o = scalars::scalar_type_of<T>();
     RPY_CHECK(type_o);
     for (dimn_t i = 0; i < data.size(); ++i) {
-        Py_XDECREF(dst[i]);
-        dst[i] = py::cast(scalars::Scalar(*type_o, data[i])).release().ptr();
+        auto* value
+                = py::cast(scalars::Scalar(*type_o, data[i])).release().ptr();
+        Py_XSETREF(dst[i], value);
     }
 }
 
@@ -217,10 +218,11 @@ void write_type_as_py_object(
 )
 {
     for (dimn_t i = 0; i < data.size(); ++i) {
-        Py_XDECREF(dst[i]);
-        dst[i] = PyPolynomial_FromPolynomial(
+        auto* value = PyPolynomial_FromPolynomial(
                 scalars::rational_poly_scalar(data[i])
         );
+        if (value == nullptr) { throw py::error_already_set(); }
+        Py_XSETREF(dst[i], value);
     }
 }
 
@@ -248,11 +250,6 @@ py::array python::dtl::dense_data_to_array(
                 data.size()
         );
     } else {
-        PyArray_FillWithScalar(
-                reinterpret_cast<PyArrayObject*>(result.ptr()),
-                Py_None
-        );
-
         auto** raw = static_cast<PyObject**>(result.mutable_data());
 
         switch (type_info.code) {
-- 
2.43.0


From e5b5dd3cc769f35a07f31e01681f0cbc0f449178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 56/90] fix: polynomial and monomial objects leaked and lost
 errors

---
 roughpy/src/scalars/r_py_polynomial.cpp | 161 +++++++++++++-----------
 1 file changed, 90 insertions(+), 71 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index b9f1be2..7f92c9c 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -81,8 +81,8 @@ extern "C" {
 static PyObject*
 monomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs);
 
-// finalize
-static void monomial_finalize(PyObject* self);
+// dealloc
+static void monomial_dealloc(PyObject* self);
 
 // Conversion
 static int monomial_bool(PyObject* self);
@@ -184,32 +184,32 @@ bool indeterminate_from_string(
 PyObject* PyMonomial_FromPyString(PyObject* py_string);
 
 static PyMethodDef RPyMonomial_methods[] = {
-        {      "degree",(PyCFunction) monomial_degree,METH_NOARGS, nullptr                                                       },
+        {      "degree",(PyCFunction) python::guarded<monomial_degree>,METH_NOARGS, nullptr                                                       },
         {"__getstate__",
-         (PyCFunction) monomial___getstate__,
+         (PyCFunction) python::guarded<monomial___getstate__>,
          METH_NOARGS, nullptr                                               },
         {"__setstate__",
-         (PyCFunction) monomial___setstate__,
+         (PyCFunction) python::guarded<monomial___setstate__>,
          METH_VARARGS, nullptr                                              },
         {       nullptr,                       nullptr,           0, nullptr}
 };
 
 static PyMappingMethods RPyMonomial_mapping{
-        monomial_len,
-        monomial_subscript,
-        monomial_ass_subscript};
+        python::guarded<monomial_len>,
+        python::guarded<monomial_subscript>,
+        python::guarded<monomial_ass_subscript>};
 
 static PyNumberMethods RPyMonomial_number{
-        (binaryfunc) monomial_add,              /* nb_add */
-        (binaryfunc) monomial_sub,              /* nb_subtract */
-        (binaryfunc) monomial_mul,              /* nb_multiply */
-        (binaryfunc) monomial_rem,              /* nb_remainder */
+        (binaryfunc) python::guarded<monomial_add>, /* nb_add */
+        (binaryfunc) python::guarded<monomial_sub>, /* nb_subtract */
+        (binaryfunc) python::guarded<monomial_mul>, /* nb_multiply */
+        (binaryfunc) python::guarded<monomial_rem>, /* nb_remainder */
         nullptr,                                /* nb_divmod */
-        (ternaryfunc) monomial_pow,             /* nb_power */
-        monomial_neg,                           /* nb_negative */
-        monomial_pos,                           /* nb_positive */
+        (ternaryfunc) python::guarded<monomial_pow>, /* nb_power */
+        python::guarded<monomial_neg>,          /* nb_negative */
+        python::guarded<monomial_pos>,          /* nb_positive */
         nullptr,                                /* nb_absolute */
-        (inquiry) monomial_bool,                /* nb_bool */
+        (inquiry) python::guarded<monomial_bool>, /* nb_bool */
         nullptr,                                /* nb_invert */
         nullptr,                                /* nb_lshift */
         nullptr,                                /* nb_rshift */
@@ -219,20 +219,20 @@ static PyNumberMethods RPyMonomial_number{
         nullptr,                                /* nb_int */
         nullptr,                                /* nb_reserved */
         nullptr,                                /* nb_float */
-        (binaryfunc) monomial_inplace_add,      /* nb_inplace_add */
-        (binaryfunc) monomial_inplace_sub,      /* nb_inplace_subtract */
-        (binaryfunc) monomial_inplace_mul,      /* nb_inplace_multiply */
-        (binaryfunc) monomial_inplace_rem,      /* nb_inplace_remainder */
-        (ternaryfunc) monomial_inplace_pow,     /* nb_inplace_power */
+        (binaryfunc) python::guarded<monomial_inplace_add>, /* nb_inplace_add */
+        (binaryfunc) python::guarded<monomial_inplace_sub>, /* nb_inplace_subtract */
+        (binaryfunc) python::guarded<monomial_inplace_mul>, /* nb_inplace_multiply */
+        (binaryfunc) python::guarded<monomial_inplace_rem>, /* nb_inplace_remainder */
+        (ternaryfunc) python::guarded<monomial_inplace_pow>, /* nb_inplace_power */
         nullptr,                                /* nb_inplace_lshift */
         nullptr,                                /* nb_inplace_rshift */
         nullptr,                                /* nb_inplace_and */
         nullptr,                                /* nb_inplace_xor */
         nullptr,                                /* nb_inplace_or */
-        (binaryfunc) monomial_floordiv,         /* nb_floor_divide */
-        (binaryfunc) monomial_div,              /* nb_true_divide */
-        (binaryfunc) monomial_inplace_floordiv, /* nb_inplace_floor_divide */
-        (binaryfunc) monomial_inplace_div,      /* nb_inplace_true_div */
+        (binaryfunc) python::guarded<monomial_floordiv>, /* nb_floor_divide */
+        (binaryfunc) python::guarded<monomial_div>, /* nb_true_divide */
+        (binaryfunc) python::guarded<monomial_inplace_floordiv>, /* nb_inplace_floor_divide */
+        (binaryfunc) python::guarded<monomial_inplace_div>, /* nb_inplace_true_div */
         nullptr,                                /* nb_index */
         nullptr,                                /* nb_matrix_multiply */
         nullptr                                 /* nb_inplace_matrix_multiply */
@@ -243,18 +243,18 @@ PyTypeObject RPyMonomial_Type = {
         "roughpy.Monomial",                  /* tp_name */
         sizeof(RPyMonomial),                 /* tp_basicsize */
         0,                                   /* tp_itemsize */
-        nullptr,                             /* tp_dealloc */
+        monomial_dealloc,                    /* tp_dealloc */
         0,                                   /* tp_vectorcall_offset */
         0,                                   /* tp_getattr */
         0,                                   /* tp_setattr */
         0,                                   /* tp_as_async */
-        (reprfunc) monomial_repr,            /* tp_repr */
+        (reprfunc) python::guarded<monomial_repr>, /* tp_repr */
         &RPyMonomial_number,                 /* tp_as_number */
         0,                                   /* tp_as_sequence */
         &RPyMonomial_mapping,                /* tp_as_mapping */
-        (hashfunc) monomial_hash,            /* tp_hash */
+        (hashfunc) python::guarded<monomial_hash>, /* tp_hash */
         0,                                   /* tp_call */
-        (reprfunc) monomial_str,             /* tp_str */
+        (reprfunc) python::guarded<monomial_str>, /* tp_str */
         0,                                   /* tp_getattro */
         0,                                   /* tp_setattro */
         0,                                   /* tp_as_buffer */
@@ -262,7 +262,7 @@ PyTypeObject RPyMonomial_Type = {
         PyDoc_STR("Polynomial scalar type"), /* tp_doc */
         0,                                   /* tp_traverse */
         0,                                   /* tp_clear */
-        (richcmpfunc) monomial_rich_compare, /* tp_richcompare */
+        (richcmpfunc) python::guarded<monomial_rich_compare>, /* tp_richcompare */
         0,                                   /* tp_weaklistoffset */
         0,                                   /* tp_iter */
         0,                                   /* tp_iternext */
@@ -276,7 +276,7 @@ PyTypeObject RPyMonomial_Type = {
         0,                                   /* tp_dictoffset */
         0,                                   /* tp_init */
         0,                                   /* tp_alloc */
-        (newfunc) monomial_new,              /* tp_new */
+        (newfunc) python::guarded<monomial_new>, /* tp_new */
         nullptr,                             /* tp_free */
         nullptr,                             /* tp_is_gc */
         nullptr,                             /* tp_bases */
@@ -286,7 +286,7 @@ PyTypeObject RPyMonomial_Type = {
         nullptr,                             /* tp_weaklist */
         nullptr,                             /* tp_del */
         0,                                   /* tp_version_tag */
-        monomial_finalize,                   /* tp_finalize */
+        nullptr,                             /* tp_finalize */
         nullptr                              /* tp_vectorcall */
 };
 
@@ -296,8 +296,8 @@ extern "C" {
 static PyObject*
 polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs);
 
-// finalize
-static void polynomial_finalize(PyObject* self);
+// dealloc
+static void polynomial_dealloc(PyObject* self);
 
 // Conversion
 static int polynomial_bool(PyObject* self);
@@ -386,21 +386,21 @@ static PyMethodDef RPyPolynomial_methods[] = {
 };
 
 static PyMappingMethods RPyPolynomial_mapping{
-        polynomial_len,
-        polynomial_subscript,
-        polynomial_ass_subscript};
+        python::guarded<polynomial_len>,
+        python::guarded<polynomial_subscript>,
+        python::guarded<polynomial_ass_subscript>};
 
 static PyNumberMethods RPyPolynomial_number{
-        (binaryfunc) polynomial_add,              /* nb_add */
-        (binaryfunc) polynomial_sub,              /* nb_subtract */
-        (binaryfunc) polynomial_mul,              /* nb_multiply */
-        (binaryfunc) polynomial_rem,              /* nb_remainder */
+        (binaryfunc) python::guarded<polynomial_add>, /* nb_add */
+        (binaryfunc) python::guarded<polynomial_sub>, /* nb_subtract */
+        (binaryfunc) python::guarded<polynomial_mul>, /* nb_multiply */
+        (binaryfunc) python::guarded<polynomial_rem>, /* nb_remainder */
         nullptr,                                  /* nb_divmod */
-        (ternaryfunc) polynomial_pow,             /* nb_power */
-        polynomial_neg,                           /* nb_negative */
-        polynomial_pos,                           /* nb_positive */
+        (ternaryfunc) python::guarded<polynomial_pow>, /* nb_power */
+        python::guarded<polynomial_neg>,          /* nb_negative */
+        python::guarded<polynomial_pos>,          /* nb_positive */
         nullptr,                                  /* nb_absolute */
-        polynomial_bool,                          /* nb_bool */
+        python::guarded<polynomial_bool>,         /* nb_bool */
         nullptr,                                  /* nb_invert */
         nullptr,                                  /* nb_lshift */
         nullptr,                                  /* nb_rshift */
@@ -410,20 +410,20 @@ static PyNumberMethods RPyPolynomial_number{
         nullptr,                                  /* nb_int */
         nullptr,                                  /* nb_reserved */
         nullptr,                                  /* nb_float */
-        (binaryfunc) polynomial_inplace_add,      /* nb_inplace_add */
-        (binaryfunc) polynomial_inplace_sub,      /* nb_inplace_subtract */
-        (binaryfunc) polynomial_inplace_mul,      /* nb_inplace_multiply */
-        (binaryfunc) polynomial_inplace_rem,      /* nb_inplace_remainder */
-        (ternaryfunc) polynomial_inplace_pow,     /* nb_inplace_power */
+        (binaryfunc) python::guarded<polynomial_inplace_add>, /* nb_inplace_add */
+        (binaryfunc) python::guarded<polynomial_inplace_sub>, /* nb_inplace_subtract */
+        (binaryfunc) python::guarded<polynomial_inplace_mul>, /* nb_inplace_multiply */
+        (binaryfunc) python::guarded<polynomial_inplace_rem>, /* nb_inplace_remainder */
+        (ternaryfunc) python::guarded<polynomial_inplace_pow>, /* nb_inplace_power */
         nullptr,                                  /* nb_inplace_lshift */
         nullptr,                                  /* nb_inplace_rshift */
         nullptr,                                  /* nb_inplace_and */
         nullptr,                                  /* nb_inplace_xor */
         nullptr,                                  /* nb_inplace_or */
-        (binaryfunc) polynomial_floordiv,         /* nb_floor_divide */
-        (binaryfunc) polynomial_div,              /* nb_true_divide */
-        (binaryfunc) polynomial_inplace_floordiv, /* nb_inplace_floor_divide */
-        (binaryfunc) polynomial_inplace_div,      /* nb_inplace_true_div */
+        (binaryfunc) python::guarded<polynomial_floordiv>, /* nb_floor_divide */
+        (binaryfunc) python::guarded<polynomial_div>, /* nb_true_divide */
+        (binaryfunc) python::guarded<polynomial_inplace_floordiv>, /* nb_inplace_floor_divide */
+        (binaryfunc) python::guarded<polynomial_inplace_div>, /* nb_inplace_true_div */
         nullptr,                                  /* nb_index */
         nullptr,                                  /* nb_matrix_multiply */
         nullptr /* nb_inplace_matrix_multiply */
@@ -434,18 +434,18 @@ PyTypeObject RPyPolynomial_Type = {
         "roughpy.Polynomial",                  /* tp_name */
         sizeof(RPyPolynomial),                 /* tp_basicsize */
         0,                                     /* tp_itemsize */
-        nullptr,                               /* tp_dealloc */
+        polynomial_dealloc,                    /* tp_dealloc */
         0,                                     /* tp_vectorcall_offset */
         0,                                     /* tp_getattr */
         0,                                     /* tp_setattr */
         0,                                     /* tp_as_async */
-        (reprfunc) polynomial_repr,            /* tp_repr */
+        (reprfunc) python::guarded<polynomial_repr>, /* tp_repr */
         &RPyPolynomial_number,                 /* tp_as_number */
         0,                                     /* tp_as_sequence */
         &RPyPolynomial_mapping,                /* tp_as_mapping */
         nullptr,                               /* tp_hash */
         0,                                     /* tp_call */
-        (reprfunc) polynomial_str,             /* tp_str */
+        (reprfunc) python::guarded<polynomial_str>, /* tp_str */
         0,                                     /* tp_getattro */
         0,                                     /* tp_setattro */
         0,                                     /* tp_as_buffer */
@@ -453,7 +453,7 @@ PyTypeObject RPyPolynomial_Type = {
         PyDoc_STR("Monomial basis element"),   /* tp_doc */
         0,                                     /* tp_traverse */
         0,                                     /* tp_clear */
-        (richcmpfunc) polynomial_rich_compare, /* tp_richcompare */
+        (richcmpfunc) python::guarded<polynomial_rich_compare>, /* tp_richcompare */
         0,                                     /* tp_weaklistoffset */
         0,                                     /* tp_iter */
         0,                                     /* tp_iternext */
@@ -467,7 +467,7 @@ PyTypeObject RPyPolynomial_Type = {
         0,                                     /* tp_dictoffset */
         0,                                     /* tp_init */
         0,                                     /* tp_alloc */
-        (newfunc) polynomial_new,              /* tp_new */
+        (newfunc) python::guarded<polynomial_new>, /* tp_new */
         nullptr,                               /* tp_free */
         nullptr,                               /* tp_is_gc */
         nullptr,                               /* tp_bases */
@@ -477,7 +477,7 @@ PyTypeObject RPyPolynomial_Type = {
         nullptr,                               /* tp_weaklist */
         nullptr,                               /* tp_del */
         0,                                     /* tp_version_tag */
-        polynomial_finalize,                   /* tp_finalize */
+        nullptr,                             /* tp_finalize */
         nullptr                                /* tp_vectorcall */
 };
 
@@ -539,10 +539,13 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             dict_def = arg;
         } else if (PySequence_Check(arg)) {
             auto size = PySequence_Size(arg);
-            PyObject* item;
 
             for (Py_ssize_t i = 0; i < size; ++i) {
-                item = PySequence_GetItem(arg, i);
+                const auto py_item = py::reinterpret_steal<py::object>(
+                        PySequence_GetItem(arg, i)
+                );
+                if (!py_item) { return false; }
+                auto* item = py_item.ptr();
 
                 if (PyUnicode_Check(item)) {
                     if (!indeterminate_from_string(item, indet)) {
@@ -610,20 +613,21 @@ PyObject* monomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
     // to build a new monomial object in the correct region of memory.
     construct_inplace(&p_obj->m_data);
 
+    // The object is released, including m_data, if the construction fails
+    auto obj = py::reinterpret_steal<py::object>(
+            reinterpret_cast<PyObject*>(p_obj)
+    );
+
     // Now parse the arguments and fill in the construction
-    if (!construct_new_monomial(p_obj, args, kwargs)) {
-        // Construction failed, make sure we deconstruct m_data
-        p_obj->m_data.~monomial();
-        Py_DECREF(p_obj);
-        p_obj = nullptr;
-    }
+    if (!construct_new_monomial(p_obj, args, kwargs)) { return nullptr; }
 
-    return reinterpret_cast<PyObject*>(p_obj);
+    return obj.release().ptr();
 }
-void monomial_finalize(PyObject* self)
+void monomial_dealloc(PyObject* self)
 {
     // Make sure the destructor is run
     reinterpret_cast<RPyMonomial*>(self)->m_data.~monomial();
+    Py_TYPE(self)->tp_free(self);
 }
 int monomial_bool(PyObject* self)
 {
@@ -768,6 +772,7 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_mon(self);
         const auto& rhs = cast_mon(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1233,7 +1238,11 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
 
     return PyPolynomial_FromPolynomial(std::move(result));
 }
-void polynomial_finalize(PyObject* self) { cast_poly(self).~polynomial(); }
+void polynomial_dealloc(PyObject* self)
+{
+    cast_poly(self).~polynomial();
+    Py_TYPE(self)->tp_free(self);
+}
 PyObject* polynomial_rich_compare(PyObject* self, PyObject* other, int cmp)
 {
     if (is_polynomial(self) && is_polynomial(other)) {
@@ -1361,6 +1370,7 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1369,12 +1379,14 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly *= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly *= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1549,6 +1561,7 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs += rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1557,12 +1570,14 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly += poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly += poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1592,6 +1607,7 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs -= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1600,12 +1616,14 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly -= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly -= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1644,6 +1662,7 @@ PyObject* polynomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         cast_poly(self) /= scalar;
+        Py_INCREF(self);
         return self;
     }
 
-- 
2.43.0


From 621912187ca5a54f7c3ed15a8d135fa60f73414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 57/90] fix: respect the strides of index buffers

---
 roughpy/src/streams/lie_increment_stream.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 09e880d..4b4b56a 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -39,6 +39,7 @@
 
 #include "args/kwargs_to_path_metadata.h"
 #include "args/parse_data_argument.h"
+#include "args/strided_copy.h"
 #include "scalars/scalar_type.h"
 #include "scalars/scalars.h"
 #include "schema_finalization.h"
@@ -67,7 +68,16 @@ void buffer_to_indices(
     scalars::ScalarArray dst(indices.data(), indices.size());
     scalars::ScalarArray src(py_buffer_to_type_info(info), info.ptr, info.size);
 
-    (*scalars::scalar_type_of<param_t>())->convert_copy(dst, src);
+    // The buffer need not be contiguous
+    const std::vector<idimn_t> shape(info.shape.begin(), info.shape.end());
+    const std::vector<idimn_t> strides(info.strides.begin(), info.strides.end());
+    stride_copy(
+            dst,
+            src,
+            static_cast<int32_t>(info.ndim),
+            shape.data(),
+            strides.data()
+    );
 }
 
 static py::object lie_increment_stream_from_increments(py::object data, py::kwargs kwargs)
-- 
2.43.0


From 2149823e45c66b23b34590a73bd91e80d6b14ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 58/90] fix: release the GIL while a tensor valued stream
 computes and manage its references

---
 roughpy/src/streams/tensor_valued_stream.cpp | 56 +++++++++++++++-----
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/roughpy/src/streams/tensor_valued_stream.cpp b/roughpy/src/streams/tensor_valued_stream.cpp
index 3e9224a..d9f71d9 100644
--- a/roughpy/src/streams/tensor_valued_stream.cpp
+++ b/roughpy/src/streams/tensor_valued_stream.cpp
@@ -99,14 +99,17 @@ static PyObject* stvs_new(PyTypeObject* subtype,
     });
 
     RPY_DBG_ASSERT(self->p_data || !success);
+    if (!success) { return nullptr; }
 
     return new_obj.release().ptr();
 }
 
-static void stvs_finalize(PyObject* self)
+static void stvs_dealloc(PyObject* self)
 {
-    auto& data = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
-    if (data) { data.reset(); }
+    // If construction failed then the pointer is still zeroed, which is the
+    // same as null.
+    using data_ptr = std::shared_ptr<const ValueStream<FreeTensor>>;
+    reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data.~data_ptr();
     Py_TYPE(self)->tp_free(self);
 }
 
@@ -120,7 +123,15 @@ static PyObject* stvs_query(PyObject* self, PyObject* py_domain)
         const auto& vs = reinterpret_cast<const RPySimpleTensorValuedStream*>(
             self)->p_data;
 
-        result = python::TensorValuedStream_FromPtr(vs->query(domain));
+        // Computing a value may need the locks of a stream that is being
+        // evaluated by another thread, which in turn may need the GIL to call
+        // a Python function.
+        std::shared_ptr<const ValueStream<FreeTensor>> queried; {
+            py::gil_scoped_release gil;
+            queried = vs->query(domain);
+        }
+
+        result = python::TensorValuedStream_FromPtr(std::move(queried));
     });
 
     RPY_DBG_ASSERT(result || !success);
@@ -134,7 +145,12 @@ static PyObject* stvs_initial_value(PyObject* self)
     py::object result;
     auto& stream = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
     auto success = python::with_caught_exceptions([&]() {
-        result = py::cast(stream->initial_value());
+        FreeTensor value; {
+            py::gil_scoped_release gil;
+            value = stream->initial_value();
+        }
+
+        result = py::cast(std::move(value));
     });
 
     RPY_DBG_ASSERT(result || !success);
@@ -148,7 +164,12 @@ static PyObject* stvs_terminal_value(PyObject* self)
     py::object result;
     auto& stream = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
     auto success = python::with_caught_exceptions([&]() {
-        result = py::cast(stream->terminal_value());
+        FreeTensor value; {
+            py::gil_scoped_release gil;
+            value = stream->terminal_value();
+        }
+
+        result = py::cast(std::move(value));
     });
 
     RPY_DBG_ASSERT(result || !success);
@@ -184,7 +205,13 @@ static PyObject* stvs_domain(PyObject* self)
     return result.release().ptr();
 }
 
-static PyObject* stvs_repr(PyObject* self) { return PyObject_Repr(self); }
+static PyObject* stvs_repr(PyObject* self)
+{
+    const auto& stream
+            = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
+    return PyUnicode_FromFormat("TensorValuedStream(width=%i)",
+                                static_cast<int>(stream->metadata().width));
+}
 
 static PyObject* stvs_signature(PyObject* self,
                                 PyObject* args,
@@ -331,14 +358,17 @@ static PyObject* stvs_from_values(PyObject* cls,
          * data vector. This will be sorted later.
          */
         for (Py_ssize_t i = 0; i < size; ++i) {
-            py::handle py_item(PySequence_ITEM(value_list.ptr(), i));
+            const auto py_item = py::reinterpret_steal<py::object>(
+                PySequence_GetItem(value_list.ptr(), i));
+            if (!py_item) { throw py::error_already_set(); }
 
             if (!py::isinstance<py::tuple>(py_item) || py::len(py_item) != 2) {
                 throw py::type_error("expected a tuple of length 2");
             }
 
-            py::handle py_param(PySequence_ITEM(py_item.ptr(), 0));
-            py::handle py_data(PySequence_ITEM(py_item.ptr(), 1));
+            // These references are borrowed from the tuple
+            py::handle py_param(PyTuple_GET_ITEM(py_item.ptr(), 0));
+            py::handle py_data(PyTuple_GET_ITEM(py_item.ptr(), 1));
 
             auto param = py::cast<param_t>(py_param);
 
@@ -497,7 +527,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         "roughpy.TensorValuedStream",// tp_name
         sizeof(RPySimpleTensorValuedStream),// tp_basicsize
         0,// tp_itemsize
-        nullptr,// tp_dealloc
+        stvs_dealloc,// tp_dealloc
         0,// tp_vectorcall_offset
         0,// tp_getattr
         0,// tp_setattr
@@ -512,7 +542,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_getattro
         0,// tp_setattro
         0,// tp_as_buffer
-        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_FINALIZE,
+        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE,
         // tp_flags
         "A Simple Tensor Valued stream",// tp_doc
         0,// tp_traverse
@@ -541,7 +571,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_weaklist
         0,// tp_del
         0,// tp_version_tag
-        stvs_finalize// tp_finalize
+        0// tp_finalize
 };
 
 void python::init_tensor_valued_stream(py::module_& m)
-- 
2.43.0


From 7948bfe26b3bbb74523d126e498afc0c38b396b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 59/90] fix: monomial product compared with a stale end
 iterator

---
 vendored/libalgebra_lite/basis/polynomial_basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/basis/polynomial_basis.cpp b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
index de81721..c0282a4 100644
--- a/vendored/libalgebra_lite/basis/polynomial_basis.cpp
+++ b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
@@ -34,10 +34,10 @@ std::ostream& operator<<(std::ostream& os, const monomial& arg)
 
 monomial& monomial::operator*=(const monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& item : rhs.m_data) {
         auto it = m_data.find(item.first);
-        if (it == lend) {
+        // Inserting moves the end of the map
+        if (it == m_data.end()) {
             m_data.insert(item);
         } else {
             it->second += item.second;
-- 
2.43.0


From 9839e3b3691a00366e7a92454012bf07f7a81c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 60/90] fix: reading a dense vector beyond its storage is zero

---
 vendored/libalgebra_lite/dense_vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 08f4fc5..98e42f7 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -198,7 +198,10 @@ public:
     template <typename Index>
     const_reference operator[](Index idx) const noexcept
     {
-        return m_storage[p_basis->key_to_index(idx)];
+        // The storage need not extend to the full dimension of the basis
+        const auto key = p_basis->key_to_index(idx);
+        if (key >= m_storage.size()) { return coefficient_ring::zero(); }
+        return m_storage[key];
     }
 
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
-- 
2.43.0


From 878ddd0734bca2a546035184610190c170a5b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:36 +0000
Subject: [PATCH 61/90] fix: leave a scalar alone when reading its archive
 fails

---
 scalars/src/scalar.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 1dd5305..d3353e8 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -497,26 +497,29 @@ std::vector<byte> Scalar::to_raw_bytes() const
 
 void Scalar::from_raw_bytes(devices::TypeInfo info, Slice <byte> bytes)
 {
-    // Make sure it is clear
-    this->~Scalar();
+    // Read into a new scalar, so this one is left alone if anything fails
+    Scalar tmp;
     auto tp_o = scalar_type_of(info);
     if (tp_o) {
-        p_type_and_content_type
+        tmp.p_type_and_content_type
             = type_pointer(*tp_o, dtl::ScalarContentType::TrivialBytes);
     } else {
-        p_type_and_content_type
+        tmp.p_type_and_content_type
             = type_pointer(info, dtl::ScalarContentType::TrivialBytes);
     }
 
     void* ptr = nullptr;
     if (traits::is_arithmetic(info) && info.bytes <= sizeof(void*)) {
-        ptr = trivial_bytes;
+        ptr = tmp.trivial_bytes;
     } else if (tp_o) {
-        allocate_data();
-        ptr = opaque_pointer;
+        tmp.allocate_data();
+        ptr = tmp.opaque_pointer;
     } else {
         RPY_THROW(std::runtime_error, "unable to allocate scalar");
     }
 
     dtl::from_raw_bytes(ptr, 1, bytes, info);
+
+    this->~Scalar();
+    construct_inplace(this, std::move(tmp));
 }
-- 
2.43.0


From 401511ea369a4b13421604e187b902bba11d7a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:36 +0000
Subject: [PATCH 62/90] fix: refuse rationals with a zero denominator in
 archives

---
 scalars/include/roughpy/scalars/serialization.h | 5 +++++
 scalars/src/scalar/raw_bytes.cpp                | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/scalars/include/roughpy/scalars/serialization.h b/scalars/include/roughpy/scalars/serialization.h
index 2d295bd..d059a50 100644
--- a/scalars/include/roughpy/scalars/serialization.h
+++ b/scalars/include/roughpy/scalars/serialization.h
@@ -249,6 +249,11 @@ void load_rational(Archive& archive, rational_scalar_type& value)
     RPY_SERIAL_SERIALIZE_NVP("numerator", helper_t(backend.num()));
     RPY_SERIAL_SERIALIZE_NVP("denominator", helper_t(backend.den()));
 #endif
+
+    if (denominator(value).is_zero()) {
+        value = rational_scalar_type();
+        RPY_THROW(std::runtime_error, "rational with zero denominator");
+    }
 }
 
 }// namespace dtl
diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index ba88eec..c085ad0 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -217,6 +217,14 @@ void from_raw_bytes_impl(rational_scalar_type* dst,
         remaining -= advance;
 
         offset += advance;
+
+        if (denominator(dst[i]).is_zero()) {
+            dst[i] = rational_scalar_type();
+            RPY_THROW(
+                    std::runtime_error,
+                    "rational with zero denominator in raw bytes"
+            );
+        }
     }
 
     if (final_offset != nullptr) { *final_offset = offset; }
-- 
2.43.0


From 2afe21a15c10b5d007364b5a8743294300ac8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:22 +0000
Subject: [PATCH 63/90] fix: refuse to delete items of monomials and
 polynomials instead of crashing

---
 roughpy/src/scalars/r_py_polynomial.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 7f92c9c..69a259a 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -682,6 +682,13 @@ PyObject* monomial_subscript(PyObject* self, PyObject* index)
 }
 int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
 {
+    if (arg == nullptr) {
+        PyErr_SetString(
+                PyExc_TypeError,
+                "deleting an indeterminate is not supported"
+        );
+        return -1;
+    }
     auto& mon = cast_mon(self);
     if (!PyUnicode_Check(index)) {
         PyErr_SetString(PyExc_TypeError, "index should be a string");
@@ -1287,6 +1294,10 @@ PyObject* polynomial_subscript(PyObject* self, PyObject* index)
 }
 int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
 {
+    if (arg == nullptr) {
+        PyErr_SetString(PyExc_TypeError, "deleting a term is not supported");
+        return -1;
+    }
     auto& poly = cast_poly(self);
     scalars::monomial monomial;
 
-- 
2.43.0


From fba0ce7798135f739d2ed49032ce3d54e19fa7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:22 +0000
Subject: [PATCH 64/90] fix: store the value given when a polynomial's
 coefficient is assigned

---
 roughpy/src/scalars/r_py_polynomial.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 69a259a..9a22a6f 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1315,24 +1315,22 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         }
 
         monomial = scalars::monomial(indet);
+    } else {
+        PyErr_SetString(
+                PyExc_TypeError,
+                "polynomial index must be monomial or str"
+        );
+        return -1;
     }
 
     rat_t newarg;
-    if (py_scalar_to_rat(newarg, arg)) {
+    if (!py_scalar_to_rat(newarg, arg)) {
         PyErr_SetString(PyExc_ValueError, "could not parse value");
         return -1;
     }
 
-    if (newarg != rat_t(0)) {
-        poly[monomial] = newarg;
-        return 0;
-    }
-
-    PyErr_SetString(
-            PyExc_TypeError,
-            "polynomial index must be monomial or str"
-    );
-    return -1;
+    poly[monomial] = newarg;
+    return 0;
 }
 PyObject* polynomial_mul(PyObject* self, PyObject* other)
 {
-- 
2.43.0


From 58583689222b5413397c75c4b47a8f7057a5ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:22 +0000
Subject: [PATCH 65/90] fix: pickle polynomials as polynomials, not as
 monomials

---
 roughpy/src/scalars/r_py_polynomial.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 9a22a6f..cc765e1 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -346,7 +346,7 @@ polynomial___getstate__(PyObject* self, PyObject* RPY_UNUSED_VAR)
     std::stringstream ss;
     {
         archives::PortableBinaryOutputArchive oa(ss);
-        oa(cast_mon(self));
+        oa(cast_poly(self));
     }
 
     string data(std::move(ss).str());
@@ -367,7 +367,7 @@ static PyObject* polynomial___setstate__(PyObject* self, PyObject* args)
     {
         std::istringstream ss(sdata);
         archives::PortableBinaryInputArchive ia(ss);
-        ia(cast_mon(self));
+        ia(cast_poly(self));
     }
 
     Py_RETURN_NONE;
@@ -375,12 +375,12 @@ static PyObject* polynomial___setstate__(PyObject* self, PyObject* args)
 }
 
 static PyMethodDef RPyPolynomial_methods[] = {
-        {      "degree",(PyCFunction) &polynomial_degree,METH_NOARGS, nullptr                                                          },
+        {      "degree",(PyCFunction) python::guarded<polynomial_degree>,METH_NOARGS, nullptr                                                          },
         {"__getstate__",
-         (PyCFunction) &polynomial___getstate__,
+         (PyCFunction) python::guarded<polynomial___getstate__>,
          METH_NOARGS, nullptr                                                  },
         {"__setstate__",
-         (PyCFunction) &polynomial___setstate__,
+         (PyCFunction) python::guarded<polynomial___setstate__>,
          METH_VARARGS, nullptr                                                 },
         {       nullptr,                          nullptr,           0, nullptr}
 };
-- 
2.43.0


From 19f02e36acdf954864f39f733b04b391e5bc92b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:18 +0000
Subject: [PATCH 66/90] fix: keep the whole type code when a scalar's type is
 packed

---
 scalars/include/roughpy/scalars/packed_scalar_type_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
index 7f167fb..cfc8375 100644
--- a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
+++ b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
@@ -92,7 +92,7 @@ public:
 
     constexpr PackedScalarTypePointer(type_info_t info, enumeration_type ty)
         : m_data((static_cast<integral_type>(bit_cast<uint32_t>(info))
-                  << MaxEnumBits)
+                  << NonPointerBits)
                  | ModeMask | (static_cast<integral_type>(ty) & EnumMask))
     {}
 
@@ -118,7 +118,7 @@ public:
     constexpr type_info_t get_type_info() const noexcept
     {
         return bit_cast<type_info_t>(
-                static_cast<uint32_t>((m_data & TypeInfoMask) >> MaxEnumBits)
+                static_cast<uint32_t>((m_data & TypeInfoMask) >> NonPointerBits)
         );
     }
 
-- 
2.43.0


From ef0ff7bf5a3b165bdc6d31109a803cdc68acce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:18 +0000
Subject: [PATCH 67/90] fix: report numbers that do not fit a rational instead
 of using their error value

---
 roughpy/src/scalars/r_py_polynomial.cpp | 61 ++++++++++++-------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index cc765e1..e457395 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -32,6 +32,8 @@
 
 #include "r_py_polynomial.h"
 
+#include <cmath>
+#include <limits>
 #include <sstream>
 
 #include "roughpy/core/check.h"                    // for throw_exception
@@ -712,37 +714,47 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
     return 0;
 }
 
-static inline bool py_scalar_to_rat(rat_t& result, PyObject* scalar) noexcept
+// Returns false, with no error set, if the object is not a scalar at all, and
+// throws if it is a scalar whose value cannot be represented.
+static inline bool py_scalar_to_rat(rat_t& result, PyObject* scalar)
 {
+    const auto to_integer = [](PyObject* obj) {
+        const auto value = PyLong_AsLongLong(obj);
+        if (value == -1 && PyErr_Occurred()) { throw py::error_already_set(); }
+        return value;
+    };
+
     if (PyLong_Check(scalar)) {
-        result = rat_t(PyLong_AsLongLong(scalar));
+        result = rat_t(to_integer(scalar));
         return true;
     }
     if (PyFloat_Check(scalar)) {
-        result = rat_t(PyFloat_AsDouble(scalar));
+        const auto value = PyFloat_AsDouble(scalar);
+        if (!std::isfinite(value)) {
+            throw py::value_error("expected a finite scalar");
+        }
+        result = rat_t(value);
         return true;
     }
 
+    py::object numr;
+    py::object denr;
     try {
         auto fraction = get_py_rational();
-        if (py::isinstance(scalar, fraction)) {
-            auto numr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "numerator")
-            );
-            auto denr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "denominator")
-            );
-
-            result = rat_t(numr, denr);
-            return true;
-        }
+        if (!py::isinstance(scalar, fraction)) { return false; }
+        const auto py_scalar = py::handle(scalar);
+        numr = py_scalar.attr("numerator");
+        denr = py_scalar.attr("denominator");
     } catch (py::error_already_set&) {
-        // If the error state is set, then clear it. This isn't really an
-        // error.
-        PyErr_Clear();
+        // This isn't really an error: the object is just not a scalar.
+        return false;
     }
 
-    return false;
+    const auto num = to_integer(numr.ptr());
+    const auto den = to_integer(denr.ptr());
+    if (den == 0) { throw py::value_error("expected a finite scalar"); }
+    result = rat_t(num, den);
+    return true;
 }
 
 PyObject* monomial_mul(PyObject* self, PyObject* other)
@@ -1178,10 +1190,8 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
          * Single argument can be a scalar, a monomial, or a dict.
          */
         auto* arg = PyTuple_GetItem(args, 0);
-        Py_INCREF(arg);
         if (PyDict_Check(arg)) {
             if (!fill_poly_from_dict(result, arg)) {
-                Py_DECREF(arg);
                 return nullptr;
             }
         } else if (is_monomial(arg)) {
@@ -1189,33 +1199,26 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
             try {
                 result = poly_t(monomial, rat_t(1));
             } catch (std::exception& exc) {
-                Py_DECREF(arg);
                 PyErr_SetString(PyExc_RuntimeError, exc.what());
                 return nullptr;
             }
         } else if (py_scalar_to_rat(scalar, arg)) {
             result = poly_t(std::move(scalar));
         } else {
-            Py_DECREF(arg);
             PyErr_SetString(
                     PyExc_ValueError,
                     "expected scalar, monomial, or dict"
             );
             return nullptr;
         }
-        Py_DECREF(arg);
     } else if (nargs == 2) {
         /*
          * Two arguments means monomial/scalar pair.
          */
         auto* monomial = PyTuple_GetItem(args, 0);
-        Py_INCREF(monomial);
         auto* py_scalar = PyTuple_GetItem(args, 1);
-        Py_INCREF(py_scalar);
 
         if (!is_monomial(monomial)) {
-            Py_DECREF(monomial);
-            Py_DECREF(py_scalar);
             PyErr_SetString(
                     PyExc_TypeError,
                     "expected a monomial as the first argument"
@@ -1226,16 +1229,12 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
         const auto& mon = cast_mon(monomial);
         rat_t scal;
         if (!py_scalar_to_rat(scal, py_scalar)) {
-            Py_DECREF(monomial);
-            Py_DECREF(py_scalar);
             PyErr_SetString(
                     PyExc_TypeError,
                     "expected a scalar as the second argument"
             );
             return nullptr;
         }
-        Py_DECREF(monomial);
-        Py_DECREF(py_scalar);
 
         if (scal != 0) { result = poly_t(mon, scal); }
     } else {
-- 
2.43.0


From a2d61781c9172d599a4e6d5f3ee6faddbe7c30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:46 +0000
Subject: [PATCH 68/90] fix: refuse powers and indeterminates that cannot be
 read

---
 roughpy/src/scalars/r_py_polynomial.cpp | 38 ++++++++++++++++++-------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index e457395..68d2f3e 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -495,6 +495,19 @@ void python::init_monomial(py::module_& m)
     m.add_object("PolynomialScalar", (PyObject*) &RPyPolynomial_Type);
 }
 
+// Reads a power, which must fit in a deg_t. Throws if it does not.
+static inline deg_t py_int_to_power(PyObject* obj)
+{
+    const auto value = PyLong_AsLong(obj);
+    if (value == -1 && PyErr_Occurred()) { throw py::error_already_set(); }
+    if (value < std::numeric_limits<deg_t>::min()
+        || value > std::numeric_limits<deg_t>::max()) {
+        PyErr_SetString(PyExc_OverflowError, "power is too large");
+        throw py::error_already_set();
+    }
+    return static_cast<deg_t>(value);
+}
+
 static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
 {
     auto* first = PyTuple_GetItem(item, 0);
@@ -508,9 +521,7 @@ static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
     scalars::indeterminate_type indet(0, 0);
 
     if (!indeterminate_from_string(first, indet)) { return false; }
-    auto pow = PyLong_AsLong(second);
-
-    monomial *= scalars::monomial(indet, static_cast<deg_t>(pow));
+    monomial *= scalars::monomial(indet, py_int_to_power(second));
     return true;
 }
 
@@ -600,8 +611,7 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             );
             return false;
         }
-        auto pow = PyLong_AsLong(value);
-        p_obj->m_data *= scalars::monomial(letter, static_cast<deg_t>(pow));
+        p_obj->m_data *= scalars::monomial(letter, py_int_to_power(value));
     }
     return true;
 }
@@ -704,8 +714,9 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
     scalars::indeterminate_type letter(0, 0);
     if (!indeterminate_from_string(index, letter)) { return -1; }
 
+    const auto power = py_int_to_power(arg);
     try {
-        mon[letter] = static_cast<deg_t>(PyLong_AsLong(arg));
+        mon[letter] = power;
     } catch (std::exception& exc) {
         PyErr_SetString(PyExc_RuntimeError, "an unexpected error occurred");
         return -1;
@@ -812,7 +823,7 @@ PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
 {
     if (is_monomial(self) && PyLong_Check(other)) {
         const auto& lhs = cast_mon(self);
-        auto power = static_cast<deg_t>(PyLong_AsLong(other));
+        const auto power = py_int_to_power(other);
 
         if (power < 0) {
             PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
@@ -842,7 +853,7 @@ PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject*)
 {
     if (is_monomial(self) && PyLong_Check(other)) {
         auto& lhs = cast_mon(self);
-        auto power = static_cast<deg_t>(PyLong_AsLong(other));
+        const auto power = py_int_to_power(other);
 
         if (power < 0) {
             PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
@@ -1101,6 +1112,11 @@ bool indeterminate_from_string(
         scalars::indeterminate_type& out
 )
 {
+    if (!PyUnicode_Check(py_string)) {
+        PyErr_SetString(PyExc_TypeError, "expected a str");
+        return false;
+    }
+
     const auto size = PyUnicode_GET_LENGTH(py_string);
     if (size == 0) {
         PyErr_SetString(
@@ -1417,10 +1433,12 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
 }
 PyObject* polynomial_pow(PyObject* self, PyObject* other, PyObject*)
 {
+    if (!is_polynomial(self) || !PyLong_Check(other)) {
+        Py_RETURN_NOTIMPLEMENTED;
+    }
     const auto& poly = cast_poly(self);
-    if (!PyLong_Check(other)) { Py_RETURN_NOTIMPLEMENTED; }
 
-    long power = PyLong_AsLong(other);
+    const auto power = py_int_to_power(other);
     if (power < 0) {
         PyErr_SetString(
                 PyExc_ValueError,
-- 
2.43.0


From 8c967cdb60d5bf080163b66321a071b8e8d1eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:46 +0000
Subject: [PATCH 69/90] fix: raise monomials to powers, and divide them in
 place by the divisor

---
 roughpy/src/scalars/r_py_polynomial.cpp | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 68d2f3e..43d9a04 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -819,6 +819,22 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
 
     Py_RETURN_NOTIMPLEMENTED;
 }
+static scalars::monomial
+raise_to_power(const scalars::monomial& base, deg_t power)
+{
+    scalars::monomial result;
+    if (power == 0) { return result; }
+
+    for (const auto& comp : base) {
+        const auto exponent = static_cast<std::int64_t>(comp.second) * power;
+        if (exponent > std::numeric_limits<deg_t>::max()) {
+            PyErr_SetString(PyExc_OverflowError, "power is too large");
+            throw py::error_already_set();
+        }
+        result[comp.first] = static_cast<deg_t>(exponent);
+    }
+    return result;
+}
 PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
 {
     if (is_monomial(self) && PyLong_Check(other)) {
@@ -830,9 +846,7 @@ PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
-        auto* result = PyMonomial_FromMonomial(lhs);
-        auto& result_mon = cast_mon(result);
-        for (auto& comp : result_mon) { comp.second += power; }
+        return PyMonomial_FromMonomial(raise_to_power(lhs, power));
     }
 
     Py_RETURN_NOTIMPLEMENTED;
@@ -860,7 +874,9 @@ PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
-        for (auto& comp : lhs) { comp.second += power; }
+        lhs = raise_to_power(lhs, power);
+        Py_INCREF(self);
+        return self;
     }
 
     Py_RETURN_NOTIMPLEMENTED;
@@ -1051,7 +1067,7 @@ PyObject* monomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         rat_t divisor = rat_t(1) / scalar;
-        return PyPolynomial_FromPolynomial(poly_t(mon, scalar));
+        return PyPolynomial_FromPolynomial(poly_t(mon, divisor));
     }
 
     // We might want to support other types in the future
-- 
2.43.0


From a4cf39fc82b0cbc638959cff49e3cefbe6416aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:30 +0000
Subject: [PATCH 70/90] fix: let polynomial scalars be pickled and copied

---
 roughpy/src/scalars/r_py_polynomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 43d9a04..a5806f9 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -433,7 +433,7 @@ static PyNumberMethods RPyPolynomial_number{
 
 PyTypeObject RPyPolynomial_Type = {
         PyVarObject_HEAD_INIT(nullptr, 0)      //
-        "roughpy.Polynomial",                  /* tp_name */
+        "roughpy.PolynomialScalar",                /* tp_name */
         sizeof(RPyPolynomial),                 /* tp_basicsize */
         0,                                     /* tp_itemsize */
         polynomial_dealloc,                    /* tp_dealloc */
@@ -1269,7 +1269,7 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
         }
 
         if (scal != 0) { result = poly_t(mon, scal); }
-    } else {
+    } else if (nargs != 0) {
         PyErr_SetString(PyExc_ValueError, "execpted one or 2 arguments");
         return nullptr;
     }
-- 
2.43.0


From 07636a80d51c37ec2a9c465f271895fbed64e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:43 +0000
Subject: [PATCH 71/90] fix: refuse zero denominators in the header that reads
 rationals

---
 scalars/include/roughpy/scalars/scalar_serialization.h | 6 ++++++
 scalars/include/roughpy/scalars/serialization.h        | 5 -----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar_serialization.h b/scalars/include/roughpy/scalars/scalar_serialization.h
index a499374..49a02b0 100644
--- a/scalars/include/roughpy/scalars/scalar_serialization.h
+++ b/scalars/include/roughpy/scalars/scalar_serialization.h
@@ -28,6 +28,7 @@
 #ifndef ROUGHPY_SCALARS_SCALAR_SERIALIZATION_H_
 #define ROUGHPY_SCALARS_SCALAR_SERIALIZATION_H_
 
+#include <roughpy/core/check.h>
 #include <roughpy/core/helpers.hpp>
 #include <roughpy/platform/serialization.h>
 
@@ -259,6 +260,11 @@ void load_rational(Archive& archive, rational_scalar_type& value)
     RPY_SERIAL_SERIALIZE_NVP("numerator", helper_t(backend.num()));
     RPY_SERIAL_SERIALIZE_NVP("denominator", helper_t(backend.den()));
 #endif
+
+    if (denominator(value).is_zero()) {
+        value = rational_scalar_type();
+        RPY_THROW(std::runtime_error, "rational with zero denominator");
+    }
 }
 
 }// namespace dtl
diff --git a/scalars/include/roughpy/scalars/serialization.h b/scalars/include/roughpy/scalars/serialization.h
index d059a50..2d295bd 100644
--- a/scalars/include/roughpy/scalars/serialization.h
+++ b/scalars/include/roughpy/scalars/serialization.h
@@ -249,11 +249,6 @@ void load_rational(Archive& archive, rational_scalar_type& value)
     RPY_SERIAL_SERIALIZE_NVP("numerator", helper_t(backend.num()));
     RPY_SERIAL_SERIALIZE_NVP("denominator", helper_t(backend.den()));
 #endif
-
-    if (denominator(value).is_zero()) {
-        value = rational_scalar_type();
-        RPY_THROW(std::runtime_error, "rational with zero denominator");
-    }
 }
 
 }// namespace dtl
-- 
2.43.0


From 8f1cb91b87cd515121090cfda0c8994e0cd47442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:43 +0000
Subject: [PATCH 72/90] fix: read each monomial of a polynomial into an empty
 monomial

---
 scalars/include/roughpy/scalars/scalar_serialization.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar_serialization.h b/scalars/include/roughpy/scalars/scalar_serialization.h
index 49a02b0..632fe9e 100644
--- a/scalars/include/roughpy/scalars/scalar_serialization.h
+++ b/scalars/include/roughpy/scalars/scalar_serialization.h
@@ -319,14 +319,16 @@ RPY_SERIAL_EXT_LIB_LOAD_FN(::rpy::scalars::monomial)
     RPY_SERIAL_SERIALIZE_SIZE(static_cast<cereal::size_type&>(count));
 
     //    pair<indeterminate_type, deg_t> entry(indeterminate_type(0, 0), 0);
+    monomial result;
     indeterminate_type id(0, 0);
     deg_t degree;
     for (size_t i = 0; i < count; ++i) {
         //        RPY_SERIAL_SERIALIZE_BARE(entry);
         RPY_SERIAL_SERIALIZE_BARE(::cereal::make_map_item(id, degree));
 
-        value[id] = degree;
+        result[id] = degree;
     }
+    value = std::move(result);
 }
 
 // namespace cereal {
@@ -338,14 +340,16 @@ RPY_SERIAL_EXT_LIB_LOAD_FN(::rpy::scalars::rational_poly_scalar)
     cereal::size_type count;
     RPY_SERIAL_SERIALIZE_SIZE(count);
 
+    rational_poly_scalar result;
     monomial m;
     rational_scalar_type s;
 
     for (size_t i = 0; i < count; ++i) {
         RPY_SERIAL_SERIALIZE_BARE(m);
         rpy::scalars::dtl::load_rational(archive, s);
-        value[m] = s;
+        result[m] = s;
     }
+    value = std::move(result);
 }
 
 RPY_SERIAL_EXT_LIB_SAVE_FN(::rpy::scalars::rational_poly_scalar)
-- 
2.43.0


From 1f5d0518a3c43da8e20127a406c88677a427f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:42 +0000
Subject: [PATCH 73/90] fix: let the adjoint of a sparse tensor multiplication
 add its terms

---
 vendored/libalgebra_lite/free_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 4b29cbc..97a7abf 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -971,7 +971,7 @@ private:
             const auto& val = pr.value();
             result.inplace_binary_op(
                     shift_down(arg, pr.key()),
-                    [&val](const s_t& l, const s_t& r) { return l + val * r; }
+                    [&val](s_t& l, const s_t& r) { l += val * r; }
             );
         }
     }
-- 
2.43.0


From 3b8b14b7a273185120fc89efe40306109ff3d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:42 +0000
Subject: [PATCH 74/90] fix: read the right level of a dense tensor in the
 sparse multiplication adjoint

---
 vendored/libalgebra_lite/free_tensor.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 97a7abf..3146324 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -1000,7 +1000,9 @@ private:
                 auto suffix_degree = degree - prefix_degree;
                 auto* optr = result.as_mut_ptr()
                         + basis.start_of_degree(suffix_degree);
-                const auto* iptr = arg.as_ptr() + index * powers[suffix_degree];
+                const auto* iptr = arg.as_ptr()
+                        + basis.start_of_degree(degree)
+                        + index * powers[suffix_degree];
 
                 for (dimn_t i = 0; i < powers[suffix_degree]; ++i) {
                     optr[i] += value * iptr[i];
-- 
2.43.0


From ad4d9d056b4371ca099ba6075fc46de67d9baa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:42 +0000
Subject: [PATCH 75/90] fix: give the dense result of a multiplication adjoint
 its degree

---
 vendored/libalgebra_lite/free_tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 3146324..8f2e69b 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -988,7 +988,7 @@ private:
         const auto& powers = basis.powers();
 
         const auto arg_deg = arg.degree();
-        result.resize_exact(basis.size(arg_deg));
+        result.resize_exact(basis.size(arg_deg), arg_deg);
 
         for (auto&& pr : mul) {
             const auto key = pr.key();
@@ -1027,7 +1027,7 @@ private:
         const auto arg_deg = arg.degree();
         const auto param_deg = mul.degree();
         const auto target_deg = std::min(arg_deg, param_deg);
-        result.resize_exact(sizes[arg_deg]);
+        result.resize_exact(sizes[arg_deg], arg_deg);
 
         auto* optr = result.as_mut_ptr();
         const auto* aptr = arg.as_ptr();
-- 
2.43.0


From 62bb7f0f0ecfff35e8e4a026154304e9ff924a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:42 +0000
Subject: [PATCH 76/90] fix: keep the type of a scalar reference when adding
 another type to it

---
 scalars/src/scalar/type_promotion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/type_promotion.cpp b/scalars/src/scalar/type_promotion.cpp
index ef8c145..0158e05 100644
--- a/scalars/src/scalar/type_promotion.cpp
+++ b/scalars/src/scalar/type_promotion.cpp
@@ -173,8 +173,9 @@ devices::TypeInfo scalars::dtl::compute_dest_type(
         case ScalarContentType::OpaquePointer:
         case ScalarContentType::ConstOpaquePointer:
         case ScalarContentType::Interface:
-        case ScalarContentType::OwnedInterface: return dst_type;
+        case ScalarContentType::OwnedInterface:
+            return type_info_from(dst_type);
     }
 
-    RPY_UNREACHABLE_RETURN(dst_type);
+    RPY_UNREACHABLE_RETURN(type_info_from(dst_type));
 }
-- 
2.43.0


From b52dca5aeef5929489f8943cf0b29bc87a7106c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:38 +0000
Subject: [PATCH 77/90] fix: convert all the coefficients of a deeper tensor
 before truncating it

---
 algebra/src/lite_context.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index a8e784b..1530d2b 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -460,7 +460,7 @@ OutType LiteContext<Coefficients>::construct_impl(
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
         tmp.resize(data.data.size());
-        scalars::ScalarArray tmp_sa(this_type, tmp.data(), size);
+        scalars::ScalarArray tmp_sa(this_type, tmp.data(), tmp.size());
         this_type->convert_copy(tmp_sa, data.data);
         raw_data = tmp;
     } else {
-- 
2.43.0


From c9796c5a88215c33883f060d151a95239a3d4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:29 +0000
Subject: [PATCH 78/90] fix: let scalar arithmetic report a failed allocation

---
 scalars/src/scalar/arithmetic.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 7ee25fd..21ec19b 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -110,7 +110,7 @@ namespace {
 
 struct RPY_LOCAL AddInplace {
     template <typename T>
-    constexpr void operator()(T& lhs, const T& rhs) noexcept
+    constexpr void operator()(T& lhs, const T& rhs)
     {
         lhs += rhs;
     }
@@ -118,7 +118,7 @@ struct RPY_LOCAL AddInplace {
 
 struct RPY_LOCAL SubInplace {
     template <typename T>
-    constexpr void operator()(T& lhs, const T& rhs) noexcept
+    constexpr void operator()(T& lhs, const T& rhs)
     {
         lhs -= rhs;
     }
@@ -126,7 +126,7 @@ struct RPY_LOCAL SubInplace {
 
 struct RPY_LOCAL MulInplace {
     template <typename T>
-    constexpr void operator()(T& lhs, const T& rhs) noexcept
+    constexpr void operator()(T& lhs, const T& rhs)
     {
         lhs *= rhs;
     }
@@ -139,7 +139,7 @@ struct RPY_LOCAL DivInplace {
             && is_same_v<
                     decltype(std::declval<T&>() /= std::declval<const R&>()),
                     T&>>
-    operator()(T& lhs, const R& rhs) noexcept
+    operator()(T& lhs, const R& rhs)
     {
         lhs /= rhs;
     }
-- 
2.43.0


From 3ba98e816ad4a8e3170ae0fd4bf618a615d78912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:20 +0000
Subject: [PATCH 79/90] fix: wrap the result of a multiplication adjoint as
 what it is

---
 roughpy/src/algebra/free_multiply_funcs.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/roughpy/src/algebra/free_multiply_funcs.cpp b/roughpy/src/algebra/free_multiply_funcs.cpp
index f43ae4c..a38e8bd 100644
--- a/roughpy/src/algebra/free_multiply_funcs.cpp
+++ b/roughpy/src/algebra/free_multiply_funcs.cpp
@@ -182,11 +182,9 @@ py::object
 adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
 {
     algebra::ConstRawUnspecifiedAlgebraType mul_raw, arg_raw;
-    algebra::AlgebraType result_alg_type;
     algebra::context_pointer ctx;
     if (py::isinstance<algebra::FreeTensor>(multiplier)) {
         const auto& left_real = multiplier.cast<const algebra::FreeTensor&>();
-        result_alg_type = algebra::AlgebraType::FreeTensor;
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
@@ -198,7 +196,6 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
                                      "FreeTensor or ShuffleTensor");
         }
     } else if (py::isinstance<algebra::ShuffleTensor>(multiplier)) {
-        result_alg_type = algebra::AlgebraType::ShuffleTensor;
         const auto& left_real = multiplier.cast<const
                 algebra::ShuffleTensor&>();
         ctx = left_real.context();
@@ -220,7 +217,8 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
 
     auto result_ptr = ctx->adjoint_to_left_multiply_by(mul_raw, arg_raw);
 
-    switch (result_alg_type) {
+    // The result is of the same kind as the argument
+    switch (result_ptr->alg_type()) {
         case algebra::AlgebraType::FreeTensor:
             return py::cast(algebra::FreeTensor(std::move(result_ptr)));
         case algebra::AlgebraType::ShuffleTensor:
-- 
2.43.0


From 7fceadb8c736b6157afb225968c57350f2d80e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:55 +0000
Subject: [PATCH 80/90] fix: refuse operands of other contexts in the
 free-standing tensor products

---
 algebra/src/lite_context.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 1530d2b..dba7aa5 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -136,6 +136,23 @@ private:
             ConstRawUnspecifiedAlgebraType,
             ConstRawUnspecifiedAlgebraType>;
 
+    // The operations on unspecified algebras cast their operands to the types
+    // of this context, so objects of any other context have to be refused.
+    void check_operands(
+            ConstRawUnspecifiedAlgebraType left,
+            ConstRawUnspecifiedAlgebraType right
+    ) const
+    {
+        for (const auto* arg : {left, right}) {
+            if (arg == nullptr || arg->context() != this) {
+                RPY_THROW(
+                        std::invalid_argument,
+                        "the operands must belong to the same context"
+                );
+            }
+        }
+    }
+
     template <typename T>
     RPY_NO_UBSAN static const T&
     unspecified_cast(ConstRawUnspecifiedAlgebraType arg)
@@ -985,6 +1002,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::free_multiply(
         ConstRawUnspecifiedAlgebraType right
 ) const
 {
+    check_operands(left, right);
     return binary_invoker::eval(
             this,
             wrappers::FreeMultiply(),
@@ -998,6 +1016,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::shuffle_multiply(
         ConstRawUnspecifiedAlgebraType right
 ) const
 {
+    check_operands(left, right);
     return binary_invoker::eval(
             this,
             wrappers::ShuffleMultiply(),
@@ -1011,6 +1030,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::half_shuffle_multiply(
         ConstRawUnspecifiedAlgebraType right
 ) const
 {
+    check_operands(left, right);
     return binary_invoker::eval(
             this,
             wrappers::HalfShuffleMultiply(),
@@ -1024,6 +1044,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::adjoint_to_left_multiply_by(
         ConstRawUnspecifiedAlgebraType argument
 ) const
 {
+    check_operands(multiplier, argument);
     return binary_invoker::eval(
             this,
             wrappers::AdjointFreeMultiply(),
-- 
2.43.0


From 48e7cddc1ccf860473079761a5700495bd6225cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 81/90] fix: report scalar types that are not supported instead
 of ending the process

---
 roughpy/src/scalars/scalars.cpp | 8 ++++++--
 scalars/src/scalar.cpp          | 9 ++++++---
 scalars/src/scalar_type_of.cpp  | 5 ++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 5532c19..645cef0 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -303,13 +303,15 @@ dlpack_dtype_to_scalar_type(DLDataType dtype, DLDevice device)
         default: RPY_THROW(std::runtime_error, "unrecognised type code");
     }
 
-    return *scalars::scalar_type_of(
+    const auto result = scalars::scalar_type_of(
             {type,
              static_cast<uint8_t>(dtype.bits / CHAR_BIT),
              static_cast<uint8_t>(dtype.bits / CHAR_BIT),
              static_cast<uint8_t>(dtype.lanes)}
             // {static_cast<DeviceType>(device.device_type), device.device_id}
     );
+    RPY_CHECK(result);
+    return *result;
 }
 
 #undef DOCASE
@@ -741,9 +743,11 @@ scalars::KeyScalarArray python::py_to_buffer(
 
         // The only way type can still be null is if there are no elements.
         if (options.type != nullptr) {
+            const auto src_type = scalars::scalar_type_of(type_info);
+            RPY_CHECK(src_type);
             options.type->convert_copy(
                     result,
-                    {*scalars::scalar_type_of(type_info),
+                    {*src_type,
                      info.ptr,
                      static_cast<dimn_t>(info.size)}
             );
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index d3353e8..76ec04e 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -74,8 +74,9 @@ Scalar::Scalar(Scalar::type_pointer type) : integer_for_convenience(0)
             auto info = type.get_type_info();
             mode = dtl::content_type_of(info);
             if (mode == dtl::ScalarContentType::OwnedPointer) {
-                p_type_and_content_type
-                    = type_pointer(*scalar_type_of(info), mode);
+                const auto tp_o = scalar_type_of(info);
+                RPY_CHECK(tp_o);
+                p_type_and_content_type = type_pointer(*tp_o, mode);
             } else {
                 p_type_and_content_type = type_pointer(info, mode);
             }
@@ -103,7 +104,9 @@ Scalar::Scalar(devices::TypeInfo info)
 {
     auto mode = p_type_and_content_type.get_enumeration();
     if (mode == dtl::ScalarContentType::OwnedPointer) {
-        p_type_and_content_type = type_pointer(*scalar_type_of(info), mode);
+        const auto tp_o = scalar_type_of(info);
+        RPY_CHECK(tp_o);
+        p_type_and_content_type = type_pointer(*tp_o, mode);
         opaque_pointer = p_type_and_content_type->allocate_single();
     }
 }
diff --git a/scalars/src/scalar_type_of.cpp b/scalars/src/scalar_type_of.cpp
index 7254219..fe81c2e 100644
--- a/scalars/src/scalar_type_of.cpp
+++ b/scalars/src/scalar_type_of.cpp
@@ -5,8 +5,6 @@
 
 #include "scalars_fwd.h"
 
-#include <roughpy/core/check.h>        // for throw_exception, RPY_THROW
-
 #include "scalar_type.h"
 #include "scalar_types.h"
 
@@ -27,5 +25,6 @@ optional<const ScalarType*> rpy::scalars::scalar_type_of(devices::TypeInfo info)
     DO_FOR_EACH_X(info)
 #undef X
 
-    RPY_THROW(std::runtime_error, "unsupported scalar type");
+    // No scalar type is described by this information
+    return {};
 }
-- 
2.43.0


From b4dcd3c4e88e65a8529fee1718ca9d85cd91f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 82/90] fix: convert as many scalars as there are in the source

---
 scalars/src/scalar_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 80c8ab0..46e62f0 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -138,7 +138,7 @@ void ScalarType::convert_copy(
                 dst.type_info(),
                 src.pointer(),
                 src.type_info(),
-                dst.size()
+                src.size()
         )) {
         RPY_THROW(std::runtime_error, "convert copy failed");
     }
-- 
2.43.0


From b19f51fe85af65be870a155d404479a4e3328d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 83/90] fix: refuse to make rationals of values that are not
 finite

---
 scalars/src/scalar/casts.cpp      | 19 +++++++++++++++++--
 scalars/src/scalar/comparison.cpp | 15 +++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 38233be..e4e9dca 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -31,9 +31,13 @@
 
 #include "casts.h"
 #include "do_macro.h"
+#include <roughpy/core/check.h>
 #include <roughpy/core/construct_inplace.hpp>
 #include <roughpy/scalars/scalar_types.h>
 
+#include <cmath>
+#include <stdexcept>
+
 using namespace rpy;
 using namespace scalars;
 using devices::TypeInfo;
@@ -53,19 +57,28 @@ write_result(D* dst, const T* src, dimn_t count) noexcept
 template <typename D, typename T>
 static inline void assign_result(D& result, const T& arg)
 {
+    if constexpr (is_floating_point_v<T>) {
+        // D is a rational type, which has no representation of these values
+        if (!std::isfinite(arg)) {
+            RPY_THROW(
+                    std::domain_error,
+                    "a value that is not finite has no rational representation"
+            );
+        }
+    }
     result = static_cast<D>(arg);
 }
 
 template <typename D>
 static inline void assign_result(D& result, const half& arg)
 {
-    result = static_cast<D>(static_cast<float>(arg));
+    assign_result(result, static_cast<float>(arg));
 }
 
 template <typename D>
 static inline void assign_result(D& result, const bfloat16& arg)
 {
-    result = static_cast<D>(static_cast<float>(arg));
+    assign_result(result, static_cast<float>(arg));
 }
 
 template <typename D, typename T>
@@ -79,6 +92,8 @@ write_result(D* dst, const T* src, dimn_t count)
         for (dimn_t i = 0; i < count; ++i) { assign_result(dst[i], src[i]); }
     } catch (const std::bad_alloc&) {
         throw;
+    } catch (const std::domain_error&) {
+        throw;
     } catch (...) {
         return false;
     }
diff --git a/scalars/src/scalar/comparison.cpp b/scalars/src/scalar/comparison.cpp
index 802bc40..44eab07 100644
--- a/scalars/src/scalar/comparison.cpp
+++ b/scalars/src/scalar/comparison.cpp
@@ -34,6 +34,7 @@
 #include "do_macro.h"
 #include <roughpy/scalars/scalar_types.h>
 
+#include <cmath>
 #include <limits>
 
 using namespace rpy;
@@ -187,10 +188,24 @@ compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
     return compare_wrap_unequal(rhs, lhs);
 }
 
+template <typename L, typename R>
+constexpr enable_if_t<
+        !is_same_v<L, R> && is_floating_point_v<L>
+                && is_floating_point_v<R>,
+        bool>
+compare_wrap_unequal(const L& lhs, const R& rhs) noexcept
+{
+    return static_cast<R>(lhs) == rhs;
+}
+
 template <typename L>
 constexpr bool
 compare_wrap_unequal(const L& lhs, const rational_scalar_type& rhs) noexcept
 {
+    if constexpr (is_floating_point_v<L>) {
+        // These values have no rational representation
+        if (!std::isfinite(lhs)) { return false; }
+    }
     return rational_scalar_type(lhs) == rhs;
 }
 template <typename R>
-- 
2.43.0


From a313974301432cf9e5b67689756c8835466387b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 84/90] fix: divide scalars of different types as numbers

---
 scalars/src/scalar/arithmetic.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 21ec19b..7ac0110 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -329,10 +329,23 @@ Scalar& Scalar::operator/=(const Scalar& other)
         ));
     }
 
+    // The promotion might have changed the type
+    const auto result_info = type_info_from(p_type_and_content_type);
+    auto denom_info = rat_denom_info;
+
+    // The units of both of these types are the rational numbers
+    if ((result_info.code == devices::TypeCode::ArbitraryPrecisionRational
+         || result_info.code == devices::TypeCode::APRationalPolynomial)
+        && (traits::is_integral(denom_info)
+            || traits::is_floating_point(denom_info))) {
+        denom_info = devices::type_info<rational_scalar_type>();
+        rational_denom.change_type(denom_info);
+    }
+
     // Now we should be ready
-#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
+#define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), denom_info);\
     break
-    DO_FOR_EACH_X(num_info)
+    DO_FOR_EACH_X(result_info)
 #undef X
 
     return *this;
-- 
2.43.0


From 4de7b8f1452da370bdb6a67942c7135d880e1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 85/90] fix: subtraction and division of scalars in Python

---
 roughpy/src/scalars/scalars.cpp | 80 +++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 34 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 645cef0..938ba77 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -122,95 +122,107 @@ void python::init_scalars(pybind11::module_& m)
 
     klass.def("__add__", [](const Scalar& self, const Scalar& other) {
         return self + other;
-    });
+    }, py::is_operator());
     klass.def("__add__", [](const Scalar& self, scalar_t other) {
         return self + Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__add__", [](const Scalar& self, long long other) {
         return self + Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__radd__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) + self;
-    });
+    }, py::is_operator());
     klass.def("__radd__", [](const Scalar& self, long long other) {
         return Scalar(other) + self;
-    });
+    }, py::is_operator());
     klass.def("__iadd__", [](Scalar& self, const Scalar& other) {
         return self += other;
-    });
+    }, py::is_operator());
     klass.def("__iadd__", [](Scalar& self, scalar_t other) {
         return self += Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__iadd__", [](Scalar& self, long long other) {
         return self += Scalar(other);
-    });
+    }, py::is_operator());
 
+    klass.def("__sub__", [](const Scalar& self, const Scalar& other) {
+        return self - other;
+    }, py::is_operator());
     klass.def("__sub__", [](const Scalar& self, scalar_t other) {
         return self - Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__sub__", [](const Scalar& self, long long other) {
         return self - Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__rsub__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) - self;
-    });
+    }, py::is_operator());
     klass.def("__rsub__", [](const Scalar& self, long long other) {
         return Scalar(other) - self;
-    });
+    }, py::is_operator());
+    klass.def("__isub__", [](Scalar& self, const Scalar& other) {
+        return self -= other;
+    }, py::is_operator());
     klass.def("__isub__", [](Scalar& self, scalar_t other) {
         return self -= Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__isub__", [](Scalar& self, long long other) {
         return self -= Scalar(other);
-    });
+    }, py::is_operator());
 
     klass.def("__mul__", [](const Scalar& self, const Scalar& other) {
         return self * other;
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, scalar_t other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, long long other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__rmul__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) * self;
-    });
+    }, py::is_operator());
     klass.def("__rmul__", [](const Scalar& self, long long other) {
         return Scalar(other) * self;
-    });
+    }, py::is_operator());
     klass.def("__imul__", [](Scalar& self, const Scalar& other) {
         return self *= other;
-    });
+    }, py::is_operator());
     klass.def("__imul__", [](Scalar& self, scalar_t other) {
         return self *= Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__imul__", [](Scalar& self, long long other) {
         return self *= Scalar(other);
-    });
+    }, py::is_operator());
 
-    klass.def("__div__", [](const Scalar& self, scalar_t other) {
+    klass.def("__truediv__", [](const Scalar& self, const Scalar& other) {
+        return self / other;
+    }, py::is_operator());
+    klass.def("__truediv__", [](const Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
-    });
-    klass.def("__div__", [](const Scalar& self, long long other) {
+    }, py::is_operator());
+    klass.def("__truediv__", [](const Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
-    });
-    klass.def("__rdiv__", [](const Scalar& self, scalar_t other) {
+    }, py::is_operator());
+    klass.def("__rtruediv__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) / self;
-    });
-    klass.def("__rdiv__", [](const Scalar& self, long long other) {
+    }, py::is_operator());
+    klass.def("__rtruediv__", [](const Scalar& self, long long other) {
         return Scalar(other) / self;
-    });
-    klass.def("__idiv__", [](Scalar& self, scalar_t other) {
+    }, py::is_operator());
+    klass.def("__itruediv__", [](Scalar& self, const Scalar& other) {
+        return self /= other;
+    }, py::is_operator());
+    klass.def("__itruediv__", [](Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
-    });
-    klass.def("__idiv__", [](Scalar& self, long long other) {
+    }, py::is_operator());
+    klass.def("__itruediv__", [](Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
-    });
+    }, py::is_operator());
 
     klass.def("__eq__", [](const Scalar& lhs, const Scalar& rhs) {
         return lhs == rhs;
-- 
2.43.0


From 5d3d6d4570c6959e2835cb6e98e28a2d17b5ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 86/90] fix: divide tensors by scalars instead of multiplying

---
 roughpy/src/algebra/setup_algebra_type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index a8e3de5..afa7ad1 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -112,7 +112,7 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
     klass.def("__add__", &Alg::add, py::is_operator());
     klass.def("__sub__", &Alg::sub, py::is_operator());
     klass.def("__mul__", &Alg::smul, py::is_operator());
-    klass.def("__truediv__", &Alg::smul, py::is_operator());
+    klass.def("__truediv__", &Alg::sdiv, py::is_operator());
     klass.def("__mul__", &Alg::mul, py::is_operator());
     klass.def(
             "__rmul__",
-- 
2.43.0


From db43a296b61aa160769a608aca2a66cd54daff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 87/90] fix: hand out elements of vectors as values of their
 own

---
 roughpy/src/algebra/algebra_iterator.cpp | 7 ++++++-
 roughpy/src/algebra/free_tensor.cpp      | 4 ++--
 roughpy/src/algebra/lie.cpp              | 4 ++--
 roughpy/src/algebra/shuffle_tensor.cpp   | 4 ++--
 roughpy/src/scalars/scalars.h            | 4 ++++
 5 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/roughpy/src/algebra/algebra_iterator.cpp b/roughpy/src/algebra/algebra_iterator.cpp
index f553e5f..08ab3db 100644
--- a/roughpy/src/algebra/algebra_iterator.cpp
+++ b/roughpy/src/algebra/algebra_iterator.cpp
@@ -38,6 +38,8 @@
 #include <roughpy/algebra/shuffle_tensor.h>
 #include <roughpy/core/macros.h>
 
+#include "scalars/scalars.h"
+
 #include "lie_key.h"
 #include "tensor_key.h"
 
@@ -53,7 +55,10 @@ static void init_iterator(py::module_& m, const char* iter_name)
     klass.def("key", [](const AlgebraIteratorItem<Algebra>& item) {
         return KeyType(item.basis(), item.key());
     });
-    klass.def("value", &AlgebraIteratorItem<Algebra>::value);
+    // The value the item holds refers into the vector, which it can outlive
+    klass.def("value", [](const AlgebraIteratorItem<Algebra>& item) {
+        return python::owned_copy(item.value());
+    });
 }
 
 #define MAKE_ITERATOR_TYPE(ALG, KEY)                                           \
diff --git a/roughpy/src/algebra/free_tensor.cpp b/roughpy/src/algebra/free_tensor.cpp
index 3de0545..e489548 100644
--- a/roughpy/src/algebra/free_tensor.cpp
+++ b/roughpy/src/algebra/free_tensor.cpp
@@ -174,10 +174,10 @@ void python::init_free_tensor(py::module_& m)
     python::setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const FreeTensor& self, key_type key) {
-        return self[key];
+        return python::owned_copy(self[key]);
     });
     klass.def("__getitem__", [](const FreeTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             return python::owned_copy(self[static_cast<key_type>(tkey)]);
          });
 
     klass.def("exp", &FreeTensor::exp, "Computes the truncated exponential of a :class:`~FreeTensor` instance.");
diff --git a/roughpy/src/algebra/lie.cpp b/roughpy/src/algebra/lie.cpp
index eedb20e..152e6a2 100644
--- a/roughpy/src/algebra/lie.cpp
+++ b/roughpy/src/algebra/lie.cpp
@@ -166,10 +166,10 @@ void python::init_lie(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const Lie& self, key_type key) {
-        return self[key];
+        return python::owned_copy(self[key]);
     });
     klass.def("__getitem__", [](const Lie& self, const PyLieKey& lkey) {
-             return self[static_cast<key_type>(lkey)];
+             return python::owned_copy(self[static_cast<key_type>(lkey)]);
          });
 
     klass.def("__repr__", [](const Lie& self) {
diff --git a/roughpy/src/algebra/shuffle_tensor.cpp b/roughpy/src/algebra/shuffle_tensor.cpp
index c53a22b..da618ff 100644
--- a/roughpy/src/algebra/shuffle_tensor.cpp
+++ b/roughpy/src/algebra/shuffle_tensor.cpp
@@ -198,10 +198,10 @@ void rpy::python::init_shuffle_tensor(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const ShuffleTensor& self, key_type key) {
-        return self[key];
+        return python::owned_copy(self[key]);
     });
     klass.def("__getitem__", [](const ShuffleTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             return python::owned_copy(self[static_cast<key_type>(tkey)]);
          });
 
 
diff --git a/roughpy/src/scalars/scalars.h b/roughpy/src/scalars/scalars.h
index 633fba5..a2bac56 100644
--- a/roughpy/src/scalars/scalars.h
+++ b/roughpy/src/scalars/scalars.h
@@ -34,6 +34,7 @@
 #include <functional>
 
 #include <roughpy/scalars/key_scalar_array.h>
+#include <roughpy/scalars/scalar.h>
 #include <roughpy/scalars/scalar_type.h>
 
 #include "r_py_polynomial.h"
@@ -95,6 +96,9 @@ inline py::type get_py_decimal()
     );
 }
 
+/// A scalar that owns its value, and so does not depend on where it came from.
+inline scalars::Scalar owned_copy(const scalars::Scalar& arg) { return arg; }
+
 inline bool is_scalar(py::handle arg)
 {
     return (py::isinstance<py::int_>(arg) || py::isinstance<py::float_>(arg)
-- 
2.43.0


From dba04f78ab69b7347dc3ac71ec68a423f6137c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:18 +0000
Subject: [PATCH 88/90] fix: keep the keys of rows of keyed data

---
 roughpy/src/args/parse_data_argument.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index faec40b..da6cd26 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -707,7 +707,10 @@ void ParsedData::fill_ks_stream(scalars::KeyScalarStream& ks_stream)
             case LeafType::Dict:
             case LeafType::Lie:
             case LeafType::Sequence:
-                ks_stream.push_back(leaf.data.borrow());
+                ks_stream.push_back(
+                        leaf.data.borrow(),
+                        std::as_const(leaf.data).keys()
+                );
                 break;
         }
     }
-- 
2.43.0


From 13fa5bf0d0ed820e3de690c03cc5b96891284024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:18 +0000
Subject: [PATCH 89/90] fix: place the terms of Lie data by their position in
 the basis

---
 roughpy/src/args/parse_data_argument.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index da6cd26..4e5a599 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -276,7 +276,12 @@ void ConversionManager::handle_lie_leaf(LeafItem& leaf)
         }
     } else {
         allocate_leaf(new_leaf);
-        for (auto&& item : leaf_lie) { push(item.key(), item.value()); }
+        // The keys of data are positions in the order of the basis
+        const auto basis = leaf_lie.basis();
+        for (auto&& item : leaf_lie) {
+            push(static_cast<key_type>(basis.key_to_index(item.key())),
+                 item.value());
+        }
     }
 }
 
-- 
2.43.0


From 4e66fbd7d69572a8afb7adce77eab93d8a7eced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:18 +0000
Subject: [PATCH 90/90] fix: find the index column of increment data

---
 roughpy/src/streams/lie_increment_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 4b4b56a..4346cef 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -148,14 +148,14 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
             };
 
             for (dimn_t i = 0; i < num_increments; ++i) {
-                auto row = ks_stream[i];
+                const auto row = ks_stream[i];
 
                 if (row.has_keys()) {
 
                     const auto* begin = row.keys();
                     const auto* end = begin + row.size();
 
-                    auto found = std::find(begin, end, icol + 1);
+                    auto found = std::find(begin, end, icol);
 
                     if (found == end) {
                         RPY_THROW(
-- 
2.43.0

