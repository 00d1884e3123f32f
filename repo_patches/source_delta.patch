From ea43e753c91603a66c4ceeba155d931cab906591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 01/44] fix: publish the basix shim atomically and date it like
 its sources

The shim was linked in place, so the lock-free fast path of another process
could accept a library that was missing or half written (a concurrent rebuild,
a killed linker, a full disk), and sources edited while the compiler ran were
never picked up because the library was dated after them.
---
 python/qugar/dolfinx/_shim/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..1c7cd63 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -144,6 +144,9 @@ def ensure_built() -> tuple[Path, str]:
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
+        # Lock-free readers must never see a missing or partially written
+        # library: it is linked under a private name and published in one step.
+        tmp_lib = cache / f".{os.getpid()}.{_LIB_FILENAME}"
         prefix = Path(sys.prefix)
         cmd = [
             str(_find_cxx()),
@@ -156,7 +159,7 @@ def ensure_built() -> tuple[Path, str]:
             "-lbasix",
             f"-Wl,-rpath,{prefix / 'lib'}",
             "-o",
-            str(lib),
+            str(tmp_lib),
             str(SHIM_SRC),
         ]
         # Align the shim's macOS deployment target with what cffi will use
@@ -167,7 +170,15 @@ def ensure_built() -> tuple[Path, str]:
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+            cmd.insert(cmd.index("-o"), f"-Wl,-install_name,{lib}")
+        try:
+            subprocess.run(cmd, check=True)
+            # Dated like the sources it was built from, not like now: sources
+            # edited while the compiler ran must invalidate it.
+            os.utime(tmp_lib, (src_mtime, src_mtime))
+            os.replace(tmp_lib, lib)
+        finally:
+            tmp_lib.unlink(missing_ok=True)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From 111685ab4bac73fefdbf92fd0f67e51dabda14b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 02/44] fix: make the basix shim's element registry safe for
 concurrent kernels

---
 .../qugar/dolfinx/_shim/qugar_basix_shim.cpp  | 57 ++++++++++++++-----
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
index 0dc4b1f..f044f87 100644
--- a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
+++ b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
@@ -17,8 +17,10 @@
 
 #include <array>
 #include <cstddef>
+#include <deque>
 #include <exception>
 #include <map>
+#include <mutex>
 #include <span>
 #include <utility>
 #include <vector>
@@ -27,13 +29,21 @@ using namespace basix;
 
 namespace {
 // One registry per real type. Static => created once, lives for the process,
-// freed via qugar_shim_reset(). Handles are indices into these vectors.
-template<typename T> std::vector<FiniteElement<T>> &registry()
+// freed via qugar_shim_reset(). Handles are indices into these containers
+// (deques: an element stays where it is while others are being registered).
+template<typename T> std::deque<FiniteElement<T>> &registry()
 {
-  static std::vector<FiniteElement<T>> r;
+  static std::deque<FiniteElement<T>> r;
   return r;
 }
 
+// Guards both registries and both indices: kernels may run in several threads.
+std::mutex &registry_mutex()
+{
+  static std::mutex m;
+  return m;
+}
+
 // Dedup index: (family,cell,degree,lvariant,dvariant,discontinuous) -> handle.
 // The generated kernel calls register on every cell; dedup guarantees the
 // element is created exactly ONCE and later calls are a cheap map lookup.
@@ -48,10 +58,11 @@ template<typename T> std::map<ElementKey, int> &index()
 template<typename T> int register_impl(int family, int cell, int degree, int lvariant, int dvariant, int discontinuous)
 {
   const ElementKey key{ family, cell, degree, lvariant, dvariant, discontinuous };
-  if (auto it = index<T>().find(key); it != index<T>().end())
-    return it->second;// already created -> return cached handle
-
   try {
+    const std::lock_guard<std::mutex> lock(registry_mutex());
+    if (auto it = index<T>().find(key); it != index<T>().end())
+      return it->second;// already created -> return cached handle
+
     FiniteElement<T> el = create_element<T>(static_cast<element::family>(family),
       static_cast<cell::type>(cell),
       degree,
@@ -69,14 +80,31 @@ template<typename T> int register_impl(int family, int cell, int degree, int lva
   }
 }
 
+// The element behind a handle, or nullptr if there is none. It stays valid
+// until qugar_shim_reset().
+template<typename T> const FiniteElement<T> *find_element(int handle)
+{
+  const std::lock_guard<std::mutex> lock(registry_mutex());
+  auto &r = registry<T>();
+  if (handle < 0 || handle >= static_cast<int>(r.size()))
+    return nullptr;
+  return &r[handle];
+}
+
+template<typename T> int registry_size()
+{
+  const std::lock_guard<std::mutex> lock(registry_mutex());
+  return static_cast<int>(registry<T>().size());
+}
+
 template<typename T> int shape_impl(int handle, int nd, int npts, long *out4)
 {
   try {
-    auto &r = registry<T>();
-    if (handle < 0 || handle >= static_cast<int>(r.size()))
+    const FiniteElement<T> *el = find_element<T>(handle);
+    if (el == nullptr)
       return -3;
     std::array<std::size_t, 4> s =
-      r[handle].tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(npts));
+      el->tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(npts));
     for (int i = 0; i < 4; ++i)
       out4[i] = static_cast<long>(s[i]);
     return 0;
@@ -89,10 +117,10 @@ template<typename T>
 int tabulate_impl(int handle, int nd, const T *x, int npts, int gdim, T *basis, long basis_capacity)
 {
   try {
-    auto &r = registry<T>();
-    if (handle < 0 || handle >= static_cast<int>(r.size()))
+    const FiniteElement<T> *found = find_element<T>(handle);
+    if (found == nullptr)
       return -3;
-    const FiniteElement<T> &el = r[handle];
+    const FiniteElement<T> &el = *found;
     std::array<std::size_t, 4> s = el.tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(npts));
     const std::size_t need = s[0] * s[1] * s[2] * s[3];
     if (static_cast<long>(need) > basis_capacity)
@@ -168,14 +196,15 @@ float *qugar_get_scratch_f32(long n)
 // Introspection / teardown.
 int qugar_registry_size_f64()
 {
-  return (int)registry<double>().size();
+  return registry_size<double>();
 }
 int qugar_registry_size_f32()
 {
-  return (int)registry<float>().size();
+  return registry_size<float>();
 }
 void qugar_shim_reset()
 {
+  const std::lock_guard<std::mutex> lock(registry_mutex());
   registry<double>().clear();
   registry<float>().clear();
   index<double>().clear();
-- 
2.43.0


From 0602a8aa597293194b57d2b275cf0d4efea9fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 03/44] fix: keep no element in the shim's registry that has no
 handle

---
 python/qugar/dolfinx/_shim/qugar_basix_shim.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
index f044f87..eb41576 100644
--- a/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
+++ b/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp
@@ -71,7 +71,12 @@ template<typename T> int register_impl(int family, int cell, int degree, int lva
       static_cast<bool>(discontinuous));
     registry<T>().push_back(std::move(el));
     const int handle = static_cast<int>(registry<T>().size()) - 1;
-    index<T>()[key] = handle;
+    try {
+      index<T>()[key] = handle;
+    } catch (...) {
+      registry<T>().pop_back();// an element without a handle would be created again
+      throw;
+    }
     return handle;
   } catch (const std::exception &) {
     return -1;// basix rejected the parameters
-- 
2.43.0


From cd6330be354947c7681913c7494b1af98594538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 04/44] fix: restore the process state around a kernel
 compilation, whatever happens

The root logger's handlers stayed replaced when the compiler or the ready
file failed, and two threads compiling at once restored each other's
LDSHARED, handlers and standard output.
---
 python/qugar/dolfinx/jit.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..30ab5e6 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -31,6 +31,7 @@ import os
 import sys
 import sysconfig
 import tempfile
+import threading
 import time
 import typing
 from contextlib import contextmanager, redirect_stdout
@@ -64,6 +65,11 @@ from qugar.dolfinx.compiler import compile_ufl_objects
 from qugar.dolfinx.integral_data import IntegralData
 
 
+# ``LDSHARED``, the handlers of the root logger and ``sys.stdout`` belong to
+# the whole process: only one thread at a time may replace them.
+_process_state_lock = threading.Lock()
+
+
 @contextmanager
 def _deduped_ldshared():
     """Temporarily override ``LDSHARED`` with a deduplicated token stream.
@@ -170,12 +176,18 @@ def _compile_objects(
 
     t0 = time.time()
     f = io.StringIO()
-    # Temporarily set root logger handlers to string buffer only
-    # since CFFI logs into root logger
-    old_handlers = root_logger.handlers.copy()
-    root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    with _process_state_lock:
+        # Temporarily set root logger handlers to string buffer only
+        # since CFFI logs into root logger
+        old_handlers = root_logger.handlers.copy()
+        root_logger.handlers = [logging.StreamHandler(f)]
+        try:
+            with redirect_stdout(f), _deduped_ldshared():
+                ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+        finally:
+            # Copy back the original handlers (in case someone is logging
+            # into root logger and has custom handlers)
+            root_logger.handlers = old_handlers
     s = f.getvalue()
     if cffi_verbose:
         print(s)
@@ -189,10 +201,6 @@ def _compile_objects(
     fd.write(s)
     fd.close()
 
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
-
     return code_body, itg_data
 
 
-- 
2.43.0


From f2016c7d0dfcea1738711b1d0e267e72877e1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 05/44] fix: have the basix shim in place before loading a
 cached kernel

---
 python/qugar/dolfinx/jit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 30ab5e6..d4276c2 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -254,6 +254,9 @@ def compile_forms(
 
     if cache_dir is not None:
         cache_dir = Path(cache_dir)
+        # A cached kernel is linked against the shim too: its cache may have
+        # been cleaned since the kernel was compiled.
+        _ensure_shim_built()
         obj, mod = get_cached_module(module_name, form_names, cache_dir, timeout)
         if obj is not None:
             # Calling compile_ufl_objects, even if result is cached, to
-- 
2.43.0


From 215c751643d6efe6ec5e56264e6e2ab7fdff9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 06/44] fix: remove the ready file of a kernel compilation that
 failed

When writing it failed, the ready file stayed behind and every later
attempt to compile that kernel failed because it already existed.
---
 python/qugar/dolfinx/jit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index d4276c2..49dbf65 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -295,6 +295,12 @@ def compile_forms(
         )
 
     except Exception as e:
+        try:
+            # remove the ready file, in case writing it is what failed:
+            # the next attempt has to create it
+            os.remove(cache_dir.joinpath(module_name + ".c.cached"))
+        except OSError:
+            pass
         try:
             # remove c file so that it will not timeout next time
             c_filename = cache_dir.joinpath(module_name + ".c")
-- 
2.43.0


From c918062c943a0c3af7ed2c53cc9254887a60b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 07/44] fix: leave the caller's form untouched when compiling
 it for unfitted domains

The integrals over every exterior facet were given their new subdomain id
and metadata in place: the metadata stayed changed for ever, the form was
left with the subdomain id as subdomain data, and a failed compilation
left the modified integrals behind.
---
 python/qugar/dolfinx/forms.py | 53 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..76634f7 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -141,11 +141,14 @@ def _modify_everywhere_exterior_facet_integrals(form):
     case of unfitted meshes, exterior facets integral may need to be
     computed over non exterior facets.
 
+    The given form (its integrals and their metadata) is not modified.
+
     Args:
-        form: The dolfinx form object.
+        form: The UFL form.
 
     Returns:
-        The modified dolfinx form object.
+        A new form with the modified integrals, or the given one if it
+        has no integrals to be modified.
     """
 
     def _get_max_subdomain_id():
@@ -156,26 +159,25 @@ def _modify_everywhere_exterior_facet_integrals(form):
                     subdomain_id = max(subdomain_id, integral.subdomain_id())
         return subdomain_id + 1
 
-    old_integrals = list(form.integrals())
-
-    for i, integral in enumerate(form.integrals()):
-        if integral.integral_type() == "exterior_facet":
-            # Check if the integral is over the whole domain
-            if integral.subdomain_id() in ("everywhere", -1):
-                old_integrals[i] = integral.reconstruct(
-                    integral.integrand(),
-                    integral.integral_type(),
-                    integral.ufl_domain(),
-                    integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
-                )
+    new_integrals = []
+    new_subdomain_id = _get_max_subdomain_id()
+    modified = False
 
-                integral._subdomain_data = None
-                integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
+    for integral in form.integrals():
+        # Check if the integral is over the whole domain
+        if integral.integral_type() == "exterior_facet" and integral.subdomain_id() in (
+            "everywhere",
+            -1,
+        ):
+            metadata = dict(integral.metadata() or {})
+            metadata["ext_facet_everywhere"] = True
+            integral = integral.reconstruct(subdomain_id=new_subdomain_id, metadata=metadata)
+            integral._subdomain_data = None
+            new_subdomain_id += 1
+            modified = True
+        new_integrals.append(integral)
 
-    return form, tuple(old_integrals)
+    return ufl.Form(new_integrals) if modified else form
 
 
 def form_custom(
@@ -243,10 +245,10 @@ def form_custom(
         # must be modified: for unfitted meshes "everywhere" needs to
         # include the unfitted boundary, not just the mesh's external
         # facets. ``_modify_everywhere_exterior_facet_integrals``
-        # replaces the ``"everywhere"`` subdomain id with a fresh
-        # numerical one and tags the integral with a metadata flag so
-        # the unfitted facets can be attached later.
-        form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        # replaces (in a new form) the ``"everywhere"`` subdomain id with
+        # a fresh numerical one and tags the integral with a metadata flag
+        # so the unfitted facets can be attached later.
+        form = _modify_everywhere_exterior_facet_integrals(form)
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -334,9 +336,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From 325bec6088fefb9fcacb71090cc93c0208b37cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 08/44] fix: do not write the scalar type into the caller's
 form compiler options

A dictionary shared by two forms of different scalar types, compiled at
the same time, gave one of them a kernel for the other's type.
---
 python/qugar/dolfinx/forms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 76634f7..b0e5a43 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -231,9 +231,8 @@ def form_custom(
         scalar type, e.g. :func:`_cpp.fem.Form_float64`.
     """
 
-    if form_compiler_options is None:
-        form_compiler_options = dict()
-
+    # A copy: the caller's options are not to be modified.
+    form_compiler_options = dict(form_compiler_options or {})
     form_compiler_options["scalar_type"] = dtype
     ftype = form_cpp_class(dtype)
 
-- 
2.43.0


From 33c18ae73e22d6dccda65451d1f3c331fc389049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 09/44] fix: give everywhere exterior facet integrals an id
 that is really new

The ids inside tuples, and those that only the subdomain data lists, were
not considered: the new id could be one of them (the integral then visited
that subdomain's facets) or precede one of them (and then visited none).
---
 python/qugar/dolfinx/forms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index b0e5a43..7450ae7 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -133,7 +133,8 @@ def _modify_everywhere_exterior_facet_integrals(form):
 
     Finds exterior facet integrals defined on the whole boundary
     (subdomain_id is "everywhere" or -1) and assigns them a unique
-    integer ID greater than any existing exterior facet subdomain ID.
+    integer ID greater than any existing exterior facet subdomain ID
+    (either in the integrals or in their subdomain data).
     It also adds metadata to mark these integrals.
 
     This is necessary because by default DOLFINx defines exterior
@@ -155,8 +156,13 @@ def _modify_everywhere_exterior_facet_integrals(form):
         subdomain_id = -1
         for integral in form.integrals():
             if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
+                ids = integral.subdomain_id()
+                ids = list(ids) if isinstance(ids, tuple) else [ids]
+                if isinstance(integral.subdomain_data(), list):
+                    ids.extend(sid for sid, _ in integral.subdomain_data())
+                for sid in ids:
+                    if not isinstance(sid, str):
+                        subdomain_id = max(subdomain_id, int(sid))
         return subdomain_id + 1
 
     new_integrals = []
-- 
2.43.0


From 5c416f0e18e9245f0db61e77ccf5fda8f13fb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 10/44] fix: return the compiled forms of a list of forms

form_custom() of any iterable of forms returned an empty list.
---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 7450ae7..905271f 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -362,6 +362,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From 0a11bd9141f469b63e9c1864ee9b7961007bdd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 11/44] fix: update the coefficients of each form of a list
 with its own

Every form of a block problem was handed the coefficients of all of them.
---
 python/qugar/dolfinx/petsc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..02714d2 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,22 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, coeffs):
         if isinstance(form, CustomForm):
-            return form.update_coefficients(old_coeffs)
+            return form.update_coefficients(coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray],
+                        _update(sub_form, sub_coeffs),
                     ),
                     form,
+                    coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From da9bb8b80a3d50944df919418acb82256aa3b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 12/44] fix: introduce the boundary measure's normal factor
 once for tuples of ids

An integral over several unfitted boundary subdomains, ds((1, 2)), got the
norm of Nanson's formula squared.
---
 python/qugar/dolfinx/boundary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..6b1f2bd 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -212,6 +212,11 @@ class ds_bdry_unf(ufl.Measure):
 
         Integration properties are taken from this Measure object.
         """
+        if isinstance(self.subdomain_id(), tuple):
+            # The base class multiplies the integrand with one measure
+            # (of this class) per subdomain id: each of them introduces
+            # the complement.
+            return super().__rmul__(integrand)
         return super().__rmul__(integrand * self._measure_complement)
 
     def reconstruct(
-- 
2.43.0


From d37f2a85b05311fdd558f29a66a544559d87e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 13/44] fix: keep an unfitted domain's empty and cut facets
 apart, and cache them only when complete

---
 python/qugar/mesh/unfitted_domain.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..cce412c 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -229,7 +229,7 @@ class UnfittedDomain(UnfittedDomainABC):
 
         if self._exterior_cut_facets is None:
             # We include cut facets.
-            self._exterior_cut_facets = self._get_facets(
+            cut_facets = self._get_facets(
                 self._cpp_unf_domain_object.get_cut_facets,
                 facets_type="exterior",
             )
@@ -247,10 +247,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 unf_partial_facets = unf_facets.difference(unf_full_facets)
 
                 if not unf_partial_facets.empty:
-                    self._exterior_cut_facets = self._exterior_cut_facets.concatenate(
-                        unf_partial_facets
-                    )
-                    self._exterior_cut_facets.unique()
+                    cut_facets = cut_facets.concatenate(unf_partial_facets)
+                    cut_facets.unique()
+
+            self._exterior_cut_facets = cut_facets
 
         return self._exterior_cut_facets
 
@@ -324,7 +324,7 @@ class UnfittedDomain(UnfittedDomainABC):
 
         if self._exterior_full_facets is None:
             # Full facets for exterior facets.
-            self._exterior_full_facets = self._get_facets(
+            full_facets = self._get_facets(
                 self._cpp_unf_domain_object.get_full_facets,
                 facets_type="exterior",
             )
@@ -336,8 +336,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 facets_type=None,
             )
             if not unf_full_facets.empty:
-                self._exterior_full_facets = self._exterior_full_facets.concatenate(unf_full_facets)
-                self._exterior_full_facets.unique()
+                full_facets = full_facets.concatenate(unf_full_facets)
+                full_facets.unique()
+
+            self._exterior_full_facets = full_facets
 
         return self._exterior_full_facets
 
@@ -436,7 +438,7 @@ class UnfittedDomain(UnfittedDomainABC):
         """
 
         if self._interior_empty_facets is None:
-            self._interior_empty_facets = self._get_facets(
+            empty_facets = self._get_facets(
                 self._cpp_unf_domain_object.get_empty_facets,
                 facets_type="interior",
             )
@@ -456,10 +458,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
-                        unf_non_cut_facets
-                    )
-                    self._interior_cut_facets.unique()
+                    empty_facets = empty_facets.concatenate(unf_non_cut_facets)
+                    empty_facets.unique()
+
+            self._interior_empty_facets = empty_facets
 
         return self._interior_empty_facets
 
-- 
2.43.0


From 02cda9c3b739bcf57184e614bd26f2e5f051d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 14/44] fix: tag the empty facets with the empty tag

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From 2c67e06bb698c11002bc39c96c2c5a0bdf7f0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 15/44] fix: search in ranks that have no cells or nodes

---
 python/qugar/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index b3b43ac..a129f30 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -124,6 +124,9 @@ def _find_in_array(values_to_search: npt.NDArray, all_values: npt.NDArray) -> np
         it returns -1.
     """
 
+    if all_values.size == 0:
+        return np.full(np.shape(values_to_search), -1, dtype=np.int64)
+
     index = np.argsort(all_values)
     sorted_all_values = all_values[index]
 
-- 
2.43.0


From 416d0aabfc95ab9da7fa71283f767874fad59a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 16/44] fix: share the map of merged nodes with all the ranks

---
 python/qugar/mesh/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index a129f30..75144d9 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -388,6 +388,10 @@ class Mesh(dolfinx.mesh.Mesh):
             n_nodes_per_cell = cmap.dim
             conn = np.empty((0, n_nodes_per_cell), dtype=np.int64, order="C")
 
+        if merge_nodes:
+            # The nodes are merged in rank 0, but all the ranks need the map.
+            self._merged_nodes_map = comm.bcast(self._merged_nodes_map, root=0)
+
         if comm.size > 1:
             partitioner = dlf_cpp.mesh.create_cell_partitioner(ghost_mode)
         else:
-- 
2.43.0


From 38d19a3d5b22be315d514b817c48c4db271ef707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 17/44] fix: compare the number of active cells with the cells
 of the whole mesh in all the ranks

---
 python/qugar/mesh/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index 75144d9..44bf41b 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -362,7 +362,9 @@ class Mesh(dolfinx.mesh.Mesh):
         # TODO: to manage active cells for the case of
         # distributed meshes.
 
-        if active_cells is not None and active_cells.size == conn.shape[0]:
+        # The cells are created in rank 0 (see below).
+        n_cells = comm.bcast(conn.shape[0], root=0)
+        if active_cells is not None and active_cells.size == n_cells:
             active_cells = None
         self._original_active_cells = active_cells
 
-- 
2.43.0


From 09f9a7188f250e9fbf56df60502235e43e9e3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 18/44] fix: pass the ghost mode and the type of a Cartesian
 mesh as such

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..8bc2d00 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -606,4 +606,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From 03ce7f16842e63b8f2f0903f4dfe41619892beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 19/44] fix: get the facets of a tensor-product face with the
 local facet numbering of DOLFINx

---
 python/qugar/mesh/tp_mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 8bc2d00..fdb1306 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -432,10 +433,11 @@ class TensorProductMesh(Mesh):
         tdim = self.tdim
         self.topology.create_connectivity(tdim, tdim - 1)
         cell_to_facets = self.topology.connectivity(tdim, tdim - 1)
-        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
+        cell_to_facets = cell_to_facets.array.reshape(-1, 2 * tdim)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, dlf_face_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From 6ea60843b12771a976b28a112d8917c975f0ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 20/44] fix: get the tensor index of a single cell

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index fdb1306..89654bc 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -450,7 +450,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From 23c16c23ee1e6a7c4f6f36745af9b270ba54e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 21/44] fix: map cells to facets in ranks that have no cells

---
 python/qugar/mesh/mesh_facets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 44663a1..6fb1239 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -375,7 +375,9 @@ if qugar.utils.has_FEniCSx:
         topology.create_connectivity(tdim, tdim - 1)
         conn = topology.connectivity(tdim, tdim - 1)
 
-        return conn.array.reshape(conn.num_nodes, -1)
+        # The number of columns is made explicit for the case of having no cells.
+        n_facets_per_cell = conn.array.size // max(conn.num_nodes, 1)
+        return conn.array.reshape(conn.num_nodes, n_facets_per_cell)
 
     def create_facets_from_ids(
         mesh: dolfinx.mesh.Mesh,
-- 
2.43.0


From 32d9f30707abd856af0f786fde5395b9f3bd4bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 22/44] fix: query a mesh's facets with their local ids, and
 only those of the cells of the process

---
 python/qugar/mesh/mesh_facets.py | 58 +++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 6fb1239..cd76be4 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -455,6 +455,52 @@ if qugar.utils.has_FEniCSx:
         facet_ids = dolfinx.mesh.exterior_facet_indices(topology)
         return create_facets_from_ids(mesh, facet_ids, single_interior_facet=True)
 
+    def _get_local_facet_ids(
+        mesh: dolfinx.mesh.Mesh, single_interior_facet: bool
+    ) -> npt.NDArray[np.int32]:
+        """Gets the local ids of the facets of the current process.
+
+        Args:
+            mesh (dolfinx.mesh.Mesh): The mesh.
+            single_interior_facet (bool): If `True`, only the facets
+                owned by the process are considered (thus, every facet
+                of the mesh belongs to a single process). Otherwise, all
+                the facets of the process' cells are considered.
+
+        Returns:
+            npt.NDArray[np.int32]: Local ids of the facets.
+        """
+
+        topology = mesh.topology
+        topology.create_entities(topology.dim - 1)
+        imap = topology.index_map(topology.dim - 1)
+        n_facets = imap.size_local if single_interior_facet else imap.size_local + imap.num_ghosts
+        return np.arange(n_facets, dtype=np.int32)
+
+    def _create_local_facets(
+        mesh: dolfinx.mesh.Mesh,
+        facet_ids: npt.NDArray[np.int32],
+        single_interior_facet: bool,
+    ) -> MeshFacets:
+        """Creates a MeshFacets instance from facet ids, including only
+        cells owned by the current process.
+
+        Args:
+            mesh (dolfinx.mesh.Mesh): The mesh.
+            facet_ids (npt.NDArray[np.int32]): Array of local facet ids.
+            single_interior_facet (bool): If `True`, only one cell and
+                local facet is returned for each interior facet.
+
+        Returns:
+            MeshFacets: A MeshFacets instance with the specified facets.
+        """
+
+        facets = create_facets_from_ids(mesh, facet_ids, single_interior_facet)
+
+        topology = mesh.topology
+        owned = facets.cell_ids < topology.index_map(topology.dim).size_local
+        return MeshFacets(facets.cell_ids[owned], facets.local_facet_ids[owned])
+
     def create_interior_mesh_facets(
         mesh: dolfinx.mesh.Mesh, single_interior_facet: bool = False
     ) -> MeshFacets:
@@ -478,13 +524,11 @@ if qugar.utils.has_FEniCSx:
         topology = mesh.topology
         topology.create_connectivity(topology.dim - 1, topology.dim)
         ext_facets = dolfinx.mesh.exterior_facet_indices(topology)
-
-        imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = _get_local_facet_ids(mesh, single_interior_facet)
 
         int_facets = np.setdiff1d(all_facets, ext_facets, assume_unique=True)
 
-        return create_facets_from_ids(mesh, int_facets, single_interior_facet)
+        return _create_local_facets(mesh, int_facets, single_interior_facet)
 
     def create_all_mesh_facets(
         mesh: dolfinx.mesh.Mesh, single_interior_facet: bool = False
@@ -505,8 +549,6 @@ if qugar.utils.has_FEniCSx:
         Returns:
             MeshFacets: A MeshFacets instance with all facets.
         """
-        topology = mesh.topology
-        imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = _get_local_facet_ids(mesh, single_interior_facet)
 
-        return create_facets_from_ids(mesh, all_facets, single_interior_facet)
+        return _create_local_facets(mesh, all_facets, single_interior_facet)
-- 
2.43.0


From 88655b27d6e1bedfc4e103908a57eb1446cde987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 23/44] fix: take the subdomain data from the integrals that
 have it

---
 python/qugar/dolfinx/forms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 905271f..56e324a 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -264,8 +264,11 @@ def form_custom(
         assert isinstance(unf_domain, UnfittedDomainABC)
 
         # Check that subdomain data for each integral type is the same
-        for data in sd.get(domain).values():
-            assert all([d is data[0] for d in data if d is not None])
+        subdomain_data = {}
+        for itg_type, data in sd.get(domain).items():
+            # Integrals over the whole domain may have no data.
+            subdomain_data[itg_type] = next((d for d in data if d is not None), None)
+            assert all([d is subdomain_data[itg_type] for d in data if d is not None])
 
         msh = domain.ufl_cargo()
         if msh is None:
@@ -332,9 +335,9 @@ def form_custom(
         # types)
         subdomains = {
             _ufl_to_dolfinx_domain[key]: get_integration_domains(
-                _ufl_to_dolfinx_domain[key], subdomain_data[0], subdomain_ids[key]
+                _ufl_to_dolfinx_domain[key], data, subdomain_ids[key]
             )
-            for (key, subdomain_data) in sd.get(domain).items()
+            for (key, data) in subdomain_data.items()
         }
 
         for subdomain_id in everywhere_ext_facet_ids:
-- 
2.43.0


From 2c1a89a65923152d8dc0651f1fd91e053f29a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 24/44] fix: keep the coefficients of the two sides of an
 interior facet together, and its offset after them

---
 python/qugar/dolfinx/codegeneration.py      |  4 +-
 python/qugar/dolfinx/custom_coefficients.py | 62 +++++++++++++++++----
 2 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..e6f32bb 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # Interior facets have coefficients for the two sides.
+            width = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + width * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..780d72d 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,44 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _get_entities_coeffs(coeffs: FloatingArray, interior_facet: bool) -> FloatingArray:
+    """Gets a view of the given coefficients with a row per entity.
+
+    Note:
+        The coefficients of interior facets have two rows per entity
+        (one for each side).
+
+    Args:
+        coeffs (FloatingArray): Coefficients of all the entities.
+        interior_facet (bool): Whether the entities are interior facets.
+
+    Returns:
+        FloatingArray: View of the coefficients.
+    """
+    n_sides = 2 if interior_facet else 1
+    n_rows, n_cols = coeffs.shape
+    return coeffs.reshape(n_rows // n_sides, n_cols * n_sides)
+
+
+def _copy_coeffs(
+    new_coeffs: FloatingArray, old_coeffs: FloatingArray, interior_facet: bool
+) -> None:
+    """Copies the (standard) coefficients into the array of custom
+    coefficients.
+
+    The coefficients of an entity are stored consecutively, also those
+    of the two sides of an interior facet.
+
+    Args:
+        new_coeffs (FloatingArray): Custom coefficients.
+        old_coeffs (FloatingArray): `Standard` coefficients to be copied.
+        interior_facet (bool): Whether the entities are interior facets.
+    """
+    old = _get_entities_coeffs(old_coeffs, interior_facet)
+    new = _get_entities_coeffs(new_coeffs[: old_coeffs.shape[0]], interior_facet)
+    new[:, : old.shape[1]] = old
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -411,13 +449,9 @@ class _CustomCoeffsPackerIntegral:
         rel_offsets = self._offsets - first_col_pos[self._custom_entity_ids]
 
         # The offset for the full entities are set to -1.
-        all_rel_offsets = np.full(n_entities, -1, dtype=rel_offsets.dtype)
+        all_rel_offsets = np.full(n_tot_entities, -1, dtype=rel_offsets.dtype)
         # Then we set the offsets for the custom entities.
-        if interior_facet:
-            all_rel_offsets_ = all_rel_offsets.reshape(-1, 2)
-            all_rel_offsets_[self._custom_entity_ids, 0] = rel_offsets
-        else:
-            all_rel_offsets[self._custom_entity_ids] = rel_offsets
+        all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
         all_rel_offsets[self._get_empty_entities_ids()] = 0
 
@@ -446,7 +480,15 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+        # The offset is placed right after the entity's (standard) coefficients.
+        entities_coeffs = _get_entities_coeffs(
+            self._new_coeffs[:n_entities], interior_facet
+        )
+        first_col = entities_coeffs.shape[1] - n_extra_cols
+        if interior_facet:
+            # The last columns of the second side are not used.
+            first_col -= n_extra_cols
+        entities_coeffs[:, first_col : first_col + n_extra_cols] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -798,8 +840,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_coeffs(self._new_coeffs, self._old_coeffs, self._is_interior_facet())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -988,9 +1029,8 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            _copy_coeffs(c, _new_coeffs_dlf, itg_info[0] == IntegralType.interior_facet)
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From 566facee2c80f31d7f67e3c5f39f2e13da8719d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 25/44] fix: create all the permutations of a quadrilateral
 facet

---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From 58290a506a7305d91ac9201c80d16077b049c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:50 +0000
Subject: [PATCH 26/44] fix: place the points of interior and mixed-dimension
 facets as seen from each cell

---
 python/qugar/dolfinx/custom_coefficients.py | 57 +++++++++++++++++----
 python/qugar/dolfinx/custom_quad_utils.py   | 15 +++++-
 2 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index 780d72d..27a474b 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -619,8 +619,20 @@ class _CustomCoeffsPackerIntegral:
             degree, custom_facets, self._is_exterior_facet()
         )
 
+        # The points are given as seen from the cells of `custom_facets`.
         quad = self._map_facet_quadrature(quad_facet, custom_facets)
 
+        if not (self._is_interior_facet() or self._is_mixed_dim()):
+            return quad_facet, quad
+
+        # The same points in the facets' own reference domain.
+        quad_facet = CustomQuadFacet(
+            custom_facets,
+            quad_facet.n_pts_per_entity,
+            self._permute_facet_points(quad_facet, custom_facets, inverse=True),
+            quad_facet.weights,
+        )
+
         if not self._is_interior_facet():
             return quad_facet, quad
 
@@ -628,10 +640,44 @@ class _CustomCoeffsPackerIntegral:
             self._domain[:, 1, 0].reshape(-1)[self._custom_entity_ids],
             self._domain[:, 1, 1].reshape(-1)[self._custom_entity_ids],
         )
-        quad_1 = self._map_facet_quadrature(quad_facet, custom_facets_1)
+        quad_facet_1 = CustomQuadFacet(
+            custom_facets_1,
+            quad_facet.n_pts_per_entity,
+            self._permute_facet_points(quad_facet, custom_facets_1),
+            quad_facet.weights,
+        )
+        quad_1 = self._map_facet_quadrature(quad_facet_1, custom_facets_1)
 
         return quad_facet, (quad, quad_1)
 
+    def _permute_facet_points(
+        self,
+        quad_facet: CustomQuadFacet,
+        facets: MeshFacets,
+        inverse: bool = False,
+    ) -> npt.NDArray[np.float64]:
+        """Permutes the points of the given facet quadrature.
+
+        Args:
+            quad_facet (CustomQuadFacet): Facet quadrature whose points
+                are permuted.
+            facets (MeshFacets): Facets from which the points are seen.
+            inverse (bool): If ``False``, the points are transformed
+                from the facets' own reference domain. If ``True``, to
+                that domain.
+
+        Returns:
+            npt.NDArray[np.float64]: Permuted points.
+        """
+
+        n_pts_per_entity = quad_facet.n_pts_per_entity
+        cells_rep = np.repeat(facets.cell_ids.reshape(-1), n_pts_per_entity)
+        facets_rep = np.repeat(facets.local_facet_ids.reshape(-1), n_pts_per_entity)
+
+        return permute_facet_points(
+            quad_facet.points, self._mesh, cells_rep, facets_rep, inverse
+        )
+
     def _map_facet_quadrature(
         self,
         quad_facet: CustomQuadFacet,
@@ -652,21 +698,14 @@ class _CustomCoeffsPackerIntegral:
 
         assert self._is_facet()
 
-        mesh = self._mesh
-        needs_permutations = self._is_interior_facet() or self._is_mixed_dim()
-
         n_pts_per_entity = quad_facet.n_pts_per_entity
         points = quad_facet.points
 
         cells = cast(npt.NDArray[np.int32], facets.cell_ids)
         local_facets = facets.local_facet_ids
-        cells_rep = np.repeat(cells.reshape(-1), n_pts_per_entity)
         facets_rep = np.repeat(local_facets.reshape(-1), n_pts_per_entity)
 
-        if needs_permutations:
-            points = permute_facet_points(points, mesh, cells_rep, facets_rep)
-
-        mapped_points = map_facets_points(points, facets_rep, mesh.topology.cell_type)
+        mapped_points = map_facets_points(points, facets_rep, self._mesh.topology.cell_type)
 
         return CustomQuad(cells, n_pts_per_entity, mapped_points, quad_facet.weights)
 
diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index 7fdf1a9..4ca28b6 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -157,6 +157,7 @@ def _permute_points(
     points: npt.NDArray[np.float64],
     permutations: npt.NDArray[np.uint8],
     facet_cell: ufl.AbstractCell,
+    inverse: bool = False,
 ) -> npt.NDArray[np.float64]:
     """Permutes the given points.
 
@@ -171,6 +172,8 @@ def _permute_points(
         facet_cell (ufl.AbstractCell): Cell type of the facet in which
             the permutations are applied. It can be ``interval``,
             ``triangle``, or ``quadrilateral``.
+        inverse (bool): Whether the inverse of the permutations is
+            applied. Defaults to ``False``.
 
     Returns:
         npt.NDArray[np.float64]: Permuted points.
@@ -187,7 +190,7 @@ def _permute_points(
         if perm == 0:
             continue
         ids = np.where(permutations == perm)[0]
-        P = Ps[perm].T
+        P = (np.linalg.inv(Ps[perm]) if inverse else Ps[perm]).T
         perm_points[ids, :] = hom_points[ids, :] @ P[:, :-1]
 
     return perm_points
@@ -230,10 +233,16 @@ def permute_facet_points(
     mesh: dolfinx.mesh.Mesh,
     cells: npt.NDArray[np.int32],
     facets: npt.NDArray[np.int32],
+    inverse: bool = False,
 ) -> npt.NDArray[np.float64]:
     """Permutes the points belonging to (interior or exterior) facet
     accoring to the facet permutations.
 
+    The permutations transform points from the facet's own reference
+    domain (shared by the cells the facet belongs to) to the reference
+    domain of the facet as seen from the given cells. And the inverse
+    permutations the other way around.
+
     Args:
         points (npt.NDArray[np.float64]): Points to permute stored
         mesh (dolfinx.mesh.Mesh): Mesh to which the cells belong.
@@ -241,6 +250,8 @@ def permute_facet_points(
             belong.
         facets (npt.NDArray[np.int32]): Local facet ids (relative) to
             the reference cell for which the permutations are performed.
+        inverse (bool): Whether the inverse permutations are performed.
+            Defaults to ``False``.
 
     Returns:
         npt.NDArray[np.float64]: Permuted points.
@@ -252,4 +263,4 @@ def permute_facet_points(
     face_tdim = cell.topological_dimension() - 1
     facet_cell = cell.sub_entity_types(face_tdim)[0]
 
-    return _permute_points(points, perms, facet_cell)
+    return _permute_points(points, perms, facet_cell, inverse)
-- 
2.43.0


From fda1f28626de57740a251a988bf2aee6cdaf084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 27/44] fix: request the kernel's scratch once, for the tables
 of all the quadratures

---
 python/qugar/dolfinx/codegeneration.py | 72 +++++++++++++-------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index e6f32bb..40a4ed4 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -430,7 +430,23 @@ class _IntegralModifier:
 
         is_interior_facet = self._data.integral_type == "interior_facet"
 
-        call_code = ""
+        # All buffers of all the quadratures (basix blocks + per-table
+        # repack buffers when vs > 1) live in a SINGLE thread-local scratch
+        # obtained from the shim. The scratch is requested once, after all
+        # the quadratures have been loaded: each request may move it.
+        # Using the stack via VLAs overflows the thread's stack for
+        # higher-degree 3D forms (e.g. P3 hex), so we offset into the
+        # scratch instead.
+        load_code, call_code = "", ""
+        scratch_var = "scratch"
+        scratch_terms: list[str] = []
+
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
+
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
+
         for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
             quad_name = quad_data.name
 
@@ -447,30 +463,30 @@ class _IntegralModifier:
             # Constant-for-points tables stay statically defined.
             for table in FE_tables:
                 if table.is_constant_for_pts():
-                    call_code += table.code + "\n"
+                    load_code += table.code + "\n"
 
             # Per-cell points/weights (+side-1, +facet points, +normals) decls.
-            call_code += f"const {dtype_str}* restrict {points_name};\n"
+            load_code += f"const {dtype_str}* restrict {points_name};\n"
             if is_interior_facet:
-                call_code += f"const {dtype_str}* restrict {points_side1_name};\n"
+                load_code += f"const {dtype_str}* restrict {points_side1_name};\n"
             if mixed_dim:
-                call_code += f"const {dtype_str}* restrict {points_facet_name};\n"
-            call_code += f"const {dtype_str}* restrict {weights_name};\n"
+                load_code += f"const {dtype_str}* restrict {points_facet_name};\n"
+            load_code += f"const {dtype_str}* restrict {weights_name};\n"
             if has_normals:
-                call_code += f"const {dtype_str}* restrict {normals_name};\n"
+                load_code += f"const {dtype_str}* restrict {normals_name};\n"
 
             # Loader execution (returns the runtime number of points).
             aux = f"const int {n_pts_name} = {func_name}("
             indent = " " * len(aux)
-            call_code += f"{aux}&w_custom,\n{indent}&{points_name}"
+            load_code += f"{aux}&w_custom,\n{indent}&{points_name}"
             if is_interior_facet:
-                call_code += f",\n{indent}&{points_side1_name}"
+                load_code += f",\n{indent}&{points_side1_name}"
             if mixed_dim:
-                call_code += f",\n{indent}&{points_facet_name}"
-            call_code += f",\n{indent}&{weights_name}"
+                load_code += f",\n{indent}&{points_facet_name}"
+            load_code += f",\n{indent}&{weights_name}"
             if has_normals:
-                call_code += f",\n{indent}&{normals_name}"
-            call_code += ");\n\n"
+                load_code += f",\n{indent}&{normals_name}"
+            load_code += ");\n\n"
 
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
@@ -479,12 +495,6 @@ class _IntegralModifier:
             # side) and perm>1 tables get an FE..[2] array of per-side
             # buffers; perm<=1 tables stay single-buffer (their values
             # agree on both sides).
-            #
-            # All buffers (basix blocks + per-table repack buffers when
-            # vs > 1) live in a SINGLE thread-local scratch obtained from
-            # the shim. Using the stack via VLAs overflows the thread's
-            # stack for higher-degree 3D forms (e.g. P3 hex), so we offset
-            # into the scratch instead.
             varying = [t for t in FE_tables if not t.is_constant_for_pts()]
 
             groups: dict[tuple, list[tuple[FETable, dict]]] = {}
@@ -495,7 +505,6 @@ class _IntegralModifier:
             # First pass: gather per-group metadata and the list of scratch
             # size terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -521,20 +530,6 @@ class _IntegralModifier:
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
-
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
-
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
-
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
                  any_perm, blk_size_expr) = gd
@@ -658,7 +653,14 @@ class _IntegralModifier:
                             f"{buf};\n\n"
                         )
 
-        return call_code
+        if scratch_terms:
+            total = " + ".join(scratch_terms)
+            load_code += (
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+            )
+
+        return load_code + call_code
 
     def _create_non_custom_quad_function(self) -> str:
         """Creates a copy of the original FFCx function (signature +
-- 
2.43.0


From 46bc08e82e7955abccde9e413abf996b05951a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 28/44] fix: accept interior facet kernels that use only one of
 the two sides

---
 python/qugar/dolfinx/codegeneration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 40a4ed4..6c9f268 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -224,13 +224,13 @@ class _IntegralModifier:
             "interior_facet": set([0, 1]),
         }
         idx = _collected_indices(r"entity_local_index\[(\w+)\]")
-        if idx != target_indices[self._data.integral_type]:
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'entity_local_index' array."
             )
 
         idx = _collected_indices(r"quadrature_permutation\[(\w+)\]")
-        if len(idx) > 0 and idx != target_indices[self._data.integral_type]:
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'quadrature_permutation' array."
             )
-- 
2.43.0


From 705325dc687931c1f3b0cf12b4ec8a99e86caa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 29/44] fix: do not use one-point rules for generating kernels
 with custom quadratures

---
 python/qugar/dolfinx/compiler.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/compiler.py b/python/qugar/dolfinx/compiler.py
index 14feb36..7ddba99 100644
--- a/python/qugar/dolfinx/compiler.py
+++ b/python/qugar/dolfinx/compiler.py
@@ -96,7 +96,7 @@ import typing
 from time import time
 
 import numpy.typing as npt
-from ffcx.analysis import analyze_ufl_objects
+from ffcx.analysis import UFLData, analyze_ufl_objects
 from ffcx.formatting import format_code
 from ffcx.ir.representation import compute_ir
 
@@ -111,6 +111,31 @@ def _print_timing(stage: int, timing: float):
     logger.info(f"Compiler stage {stage} finished in {timing:.4f} seconds.")
 
 
+def _avoid_one_point_rules(analysis: UFLData) -> None:
+    """Raises to 2 the degree of the integrals of degrees 0 and 1.
+
+    For the one-point rules of those degrees FFCx considers all the
+    tables constant, evaluates them at that single point, and moves the
+    quantities depending on them out of the quadrature loop. Such code
+    cannot be reused with custom quadratures of several points.
+
+    Args:
+        analysis (UFLData): UFL data structure to be modified.
+    """
+    for form_data in analysis.form_data:
+        for itg_data in form_data.integral_data:
+            integrals = []
+            for integral in itg_data.integrals:
+                metadata = integral.metadata() or {}
+                if (
+                    metadata.get("quadrature_rule") not in ("custom", "vertex")
+                    and metadata.get("quadrature_degree", 2) < 2
+                ):
+                    integral = integral.reconstruct(metadata={**metadata, "quadrature_degree": 2})
+                integrals.append(integral)
+            itg_data.integrals = integrals
+
+
 def compile_ufl_objects(
     ufl_objects: list[typing.Any],
     options: dict[str, int | float | npt.DTypeLike],
@@ -145,6 +170,7 @@ def compile_ufl_objects(
     # Stage 1: analysis
     cpu_time = time()
     analysis = analyze_ufl_objects(ufl_objects, options["scalar_type"])  # type: ignore
+    _avoid_one_point_rules(analysis)
     _print_timing(1, time() - cpu_time)
 
     # Stage 2: intermediate representation
-- 
2.43.0


From 6dbe5465ed13c024c9fcbfe9135e05447e9643dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 30/44] fix: consider the quadratures whose tables are all
 shared with another one

---
 python/qugar/dolfinx/_kernel_body.py  |  8 +++++---
 python/qugar/dolfinx/integral_data.py | 16 ++++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 16f0d4b..4b47e7d 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -206,10 +206,12 @@ class KernelBody:
             # opening ``{`` (preserves FFCx's "\n{" formatting).
             header = inside_body[lm.start():lm.end() + b_open + 1]
             body = after_header[b_open + 1:b_close - 1]
-            # Identify the quadrature this loop belongs to.
-            quad = _QUAD_NAME_IN_BODY.search(body)
+            # Identify the quadrature this loop belongs to. The weights
+            # are the safe choice: the tables that are equal for several
+            # quadratures are named after just one of them.
+            quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
             if quad is None:
-                quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
+                quad = _QUAD_NAME_IN_BODY.search(body)
             if quad is None:
                 raise ValueError("Quadrature name not found in loop body.")
             loops.append(
diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index 5088915..c533de1 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -135,10 +135,11 @@ class IntegralData(NamedTuple):
     @property
     def dtype(self) -> type[np.float32 | np.float64]:
         """`numpy` type used in the integral."""
-        FE_tables = next(iter(self.quad_data_FE_tables.values()))
+        FE_tables = [t for tables in self.quad_data_FE_tables.values() for t in tables]
         assert FE_tables
         return FE_tables[0].dtype
 
+
 def extract_integral_data(
     ufl_analysis: ffcx.analysis.UFLData,
     ir: ffcx.ir.representation.DataIR,
@@ -177,12 +178,15 @@ def extract_integral_data(
 
     is_mixed_dim = False
 
-    quad_FE_tables = {}
+    # All the quadratures of the integral, also those whose tables are all
+    # shared with other quadratures (FFCx names shared tables after one of
+    # them). Sorted by name, as the ordering must be the same in every Python
+    # session, independently of how the tables are named.
+    quad_names = sorted({rule.id() for _, rule in itg_ir.expression.integrand.keys()})
+    quad_FE_tables = {all_quads_data[name]: [] for name in quad_names}
+
     for FE_table in FE_tables:
-        quad_name = FE_table.quad_name
-        quad_data = all_quads_data[quad_name]
-        if quad_data not in quad_FE_tables.keys():
-            quad_FE_tables[quad_data] = []
+        quad_data = all_quads_data[FE_table.quad_name]
         quad_FE_tables[quad_data].append(FE_table)
         if FE_table.element_dim != tdim:
             is_mixed_dim = True
-- 
2.43.0


From 3eb16510b944a42835a7f386245dd5a245073c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 31/44] fix: refuse the custom elements, that the kernels
 cannot tabulate

---
 python/qugar/dolfinx/codegeneration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 6c9f268..40ca406 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -319,6 +319,10 @@ class _IntegralModifier:
         block_size = getattr(el, "block_size", 1)
         scalar = el.sub_elements[0] if block_size > 1 else el
         be = scalar.basix_element
+        if be.family == basix.ElementFamily.custom:
+            # The shim re-creates the elements from the parameters below,
+            # that do not describe custom (e.g., enriched) elements.
+            raise ValueError("Custom elements are not supported.")
         params = (
             int(be.family),
             int(be.cell_type),
-- 
2.43.0


From 2409b2dffa0be5cfcd7982c4027e36704a5deda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 32/44] fix: take the component and derivatives of a table from
 its own element

---
 python/qugar/dolfinx/fe_table.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..f2391ad 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -366,17 +366,25 @@ class FETable:
             else:
                 assert False, f"Invalid finite element option: {opt}."
 
-    def _set_element(self, element: BasixElement) -> None:
-        """Sets the element associated to the table.
+    def _set_element(
+        self, element: BasixElement, component: int, derivatives: tuple[int, ...]
+    ) -> None:
+        """Sets the element associated to the table, and the component
+        and derivatives of it that are tabulated.
 
         This method is used for setting the element after the table
-        has been created. If not previously set, it also sets the
+        has been created. If there are no derivatives, it sets the
         derivates of the table to 0.
 
         Args:
             element (BasixElement): Element associated to the table.
+            component (int): (Flat) component of the element.
+            derivatives (tuple[int, ...]): Order of the derivatives along
+                the parametric directions.
         """
         self._element = element
+        self._component = component
+        self._derivatives = derivatives
         elem_dim = element.cell.topological_dimension()
         self._set_derivatives(elem_dim)
 
@@ -485,9 +493,9 @@ def _sort_FE_tables(FE_tables: list[FETable]) -> list[FETable]:
 
 def _build_table_name_to_element_map(
     ir_itg: IntegralIR,
-) -> dict[str, BasixElement]:
-    """Build a (C-code table name -> Basix element) map directly from
-    the FFCx IR factorization graph.
+) -> dict[str, tuple[BasixElement, int, tuple[int, ...]]]:
+    """Build a (C-code table name -> (Basix element, component,
+    derivatives)) map directly from the FFCx IR factorization graph.
 
     In FFCx 0.10.0 each terminal node in the factorization graph
     already carries both its ``UniqueTableReferenceT`` (``node["tr"]``,
@@ -498,8 +506,13 @@ def _build_table_name_to_element_map(
     directly, instead of evaluating each candidate element at the
     table's quadrature points and value-matching against the C-code
     table values.
+
+    FFCx merges equal tables: the element number, component, and
+    derivatives in the name of a table may be the ones of a different
+    terminal than the harvested element. Thus, component and derivatives
+    are harvested together with the element.
     """
-    result: dict[str, BasixElement] = {}
+    result: dict[str, tuple[BasixElement, int, tuple[int, ...]]] = {}
     for _key, integrand in ir_itg.expression.integrand.items():
         for node in integrand["factorization"].nodes.values():
             tr = node.get("tr")
@@ -509,7 +522,7 @@ def _build_table_name_to_element_map(
             mte = get_modified_terminal_element(mt)
             if mte is None:
                 continue
-            result[tr.name] = mte.element
+            result[tr.name] = (mte.element, mte.fc, tuple(mte.local_derivatives))
     return result
 
 
@@ -566,6 +579,6 @@ def extract_FE_tables(
         for m in re.finditer(FETable.pattern, code)
     ]
     for FE_table in FE_tables:
-        FE_table._set_element(table_to_element[FE_table.name])
+        FE_table._set_element(*table_to_element[FE_table.name])
 
     return _sort_FE_tables(FE_tables)
-- 
2.43.0


From fecab7f566264d19f023bc90e98e45d88e9faf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 33/44] fix: place the fake points of unfitted boundaries in
 general position

---
 python/qugar/dolfinx/boundary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index 6b1f2bd..70a9122 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -115,9 +115,11 @@ class ds_bdry_unf(ufl.Measure):
     """
 
     # Static definition of (fake) custom quadrature points and weights.
+    # The points are in general position, such that FFCx does not take
+    # different tables for equal, or non-constant tables for constant.
     _weights = [-1.0, -1.0]
-    _points_2D = [[0.1, 0.1], [0.2, 0.2]]
-    _points_3D = [[0.1, 0.1, 0.1], [0.2, 0.2, 0.2]]
+    _points_2D = [[0.1, 0.2], [0.7, 0.15]]
+    _points_3D = [[0.1, 0.2, 0.3], [0.7, 0.15, 0.05]]
 
     def __init__(
         self,
-- 
2.43.0


From 5583a0c4321c71862d79c9638130b2c4ff8fc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 34/44] fix: refuse tables that are constant only at the static
 quadrature's points

---
 python/qugar/dolfinx/fe_table.py | 46 ++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index f2391ad..24321fe 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -19,6 +19,7 @@ if not has_FEniCSx:
 import hashlib
 import re
 
+import basix
 import numpy as np
 from basix.ufl import _BasixElement as BasixElement
 from ffcx.ir.elementtables import get_modified_terminal_element
@@ -387,6 +388,51 @@ class FETable:
         self._derivatives = derivatives
         elem_dim = element.cell.topological_dimension()
         self._set_derivatives(elem_dim)
+        self._check_constant_for_pts(elem_dim)
+
+    def _check_constant_for_pts(self, elem_dim: int) -> None:
+        """Checks that the table, if considered constant for all the
+        points, is so for any point, and not only for the points of the
+        static quadrature.
+
+        E.g., due to its symmetry, a bubble function has the same value
+        at all the points of the quadratures of low degree.
+
+        Args:
+            elem_dim (int): Element dimension.
+
+        Raises:
+            ValueError: An exception is raised if the table is constant
+                just for the points of the static quadrature.
+        """
+        if self._avg is not None or not self.is_constant_for_pts():
+            return
+
+        cell_type = self.element.cell_type
+        n_pts = 3
+        if self._entity_type == "facet" and elem_dim > self._rule_dim():
+            geometry = basix.geometry(cell_type)
+            entities = [geometry[v] for v in basix.topology(cell_type)[elem_dim - 1]]
+        else:
+            entities = [basix.geometry(cell_type)]
+
+        element = self.element.get_component_element(self.component)[0]
+        n_derivs = sum(self.derivatives)
+        for vertices in entities:
+            weights = np.random.default_rng(0).dirichlet(np.ones(len(vertices)), n_pts)
+            values = element.tabulate(n_derivs, weights @ vertices)
+            values = values[basix.index(*self.derivatives)]
+            if not np.allclose(values, values[0], rtol=1.0e-6, atol=1.0e-6):
+                raise ValueError(
+                    f"The basis functions of {self.element} (or their derivatives) are not "
+                    "constant, but they look so for a quadrature of degree "
+                    f"{self._quad_data.degree}. Increase the quadrature degree."
+                )
+
+    def _rule_dim(self) -> int:
+        """Returns the dimension of the points of the table's static
+        quadrature."""
+        return self._quad_data.rule.points.shape[1]  # type: ignore
 
     def _set_derivatives(self, elem_dim: int) -> None:
         """Sets the derivatives of the table.
-- 
2.43.0


From b5467120885a7aebd64d3679b1940ddc04f8b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 35/44] fix: leave the kernel when there is no memory for its
 tables

---
 python/qugar/dolfinx/codegeneration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 40ca406..e5b1f7d 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -660,8 +660,10 @@ class _IntegralModifier:
         if scratch_terms:
             total = " + ".join(scratch_terms)
             load_code += (
+                f"const long {scratch_var}_size = (long)({total});\n"
                 f"{dtype_str}* {scratch_var} = "
-                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+                f"qugar_get_scratch_{suffix}({scratch_var}_size);\n"
+                f"if ({scratch_var} == NULL && {scratch_var}_size > 0) return;\n\n"
             )
 
         return load_code + call_code
-- 
2.43.0


From b43de5795d83ba6d9c45ae3f25983c9b1dee4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 36/44] fix: tabulate at each side of interior facets the
 tables that depend on the local facet

---
 python/qugar/dolfinx/_kernel_body.py   |  3 +--
 python/qugar/dolfinx/codegeneration.py | 21 ++++++++--------
 python/qugar/dolfinx/fe_table.py       | 33 ++++++++++++++++----------
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 4b47e7d..2772db1 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -376,7 +376,6 @@ class KernelBody:
 
         bracket = r"\[\s*(\w+\[\d+\]|[^\]]*)\s*\]\s*"
         fe_re = re.compile(r"FE([\w|\_]+)\s*" + bracket * 4)
-        has_perms = self.integral_type == "interior_facet"
 
         def transform(text: str) -> str:
             out: list[str] = []
@@ -390,7 +389,7 @@ class KernelBody:
                 else:
                     indices = tuple(m.group(i) for i in range(2, 6))
                     out.append(text[pos: m.start()])
-                    out.append(table.create_new_access_code(indices, has_perms))
+                    out.append(table.create_new_access_code(indices))
                 pos = m.end()
             out.append(text[pos:])
             return "".join(out)
diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index e5b1f7d..957f16f 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -495,9 +495,9 @@ class _IntegralModifier:
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
             # component/derivative tables). For interior-facet integrals
-            # with perm>1 tables, two basix blocks are produced (one per
-            # side) and perm>1 tables get an FE..[2] array of per-side
-            # buffers; perm<=1 tables stay single-buffer (their values
+            # with two-sided tables, two basix blocks are produced (one
+            # per side) and those tables get an FE..[2] array of per-side
+            # buffers; the other tables stay single-buffer (their values
             # agree on both sides).
             varying = [t for t in FE_tables if not t.is_constant_for_pts()]
 
@@ -514,29 +514,28 @@ class _IntegralModifier:
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
-                any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
+                any_two_sided = any(t.two_sided for t, _ in items)
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
                 group_meta.append(
                     (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
-                     any_perm, blk_size_expr)
+                     any_two_sided, blk_size_expr)
                 )
                 scratch_terms.append(blk_size_expr)
-                if any_perm:
+                if any_two_sided:
                     scratch_terms.append(blk_size_expr)
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if table.two_sided:
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
-                 any_perm, blk_size_expr) = gd
+                 any_two_sided, blk_size_expr) = gd
                 fam, cell, deg, lv, dv, disc = params
                 handle = f"h_{quad_name}_{gi}"
                 blk0 = f"block_{quad_name}_{gi}"
@@ -561,7 +560,7 @@ class _IntegralModifier:
                     f"{n_pts_name}, {gdim}, {blk0}, "
                     f"(long)({blk_size_expr})) != 0) return;\n"
                 )
-                if any_perm:
+                if any_two_sided:
                     call_code += (
                         f"{dtype_str}* {blk1} = {scratch_var} + "
                         f"({_cur_offset()});\n"
@@ -577,7 +576,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = table.two_sided
 
                     if vs == 1:
                         # The basix block's layout already matches the
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index 24321fe..a745e04 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -291,6 +291,15 @@ class FETable:
         """Returns the number of permutations in the table."""
         return self._permutations
 
+    @property
+    def two_sided(self) -> bool:
+        """Returns whether the values of the table at the points of an
+        interior facet may be different for each of its two sides, as
+        they depend on the facet's permutation or local index."""
+        return self._integral_type == "interior_facet" and (
+            self._permutations > 1 or self._entities > 1
+        )
+
     @property
     def entities(self) -> int:
         """Returns the number of entities in the table."""
@@ -443,7 +452,7 @@ class FETable:
         if not hasattr(self, "_derivatives") or all(der == 0 for der in self._derivatives):
             self._derivatives = (0,) * elem_dim
 
-    def create_new_access_code(self, indices: tuple[str, ...], has_permutations: bool) -> str:
+    def create_new_access_code(self, indices: tuple[str, ...]) -> str:
         """Transforms the 4 indices access to the statically defined FE
         4D table to the access to a plain 1D array (for values
         dynamically loaded from a custom coefficients array passed to a
@@ -454,15 +463,13 @@ class FETable:
         the new ``FE_C0_D10_Q48f`` is the flattened dynamic version of
         the original array.
 
-        In the case the table presents permutations (for interior
-        facet integrals), the access will be something like
-        ``FE_C0_D10_Q48f[i][index]``.
+        In the case the table's values are different for each of the
+        sides of interior facets, the access will be something like
+        ``FE_C0_D10_Q48f[i][index]``, where ``i`` is the side.
 
         Args:
             indices (tuple[str]): Four indices for accessing the
                 4-dimensional FE table.
-            has_permutations (bool): Flat indicating if permutations
-                must be considered (mostly, for interior facets).
 
         Returns:
             str: Generated C code for accessing the dynamic array.
@@ -470,12 +477,12 @@ class FETable:
 
         assert not self.is_constant_for_pts()
 
-        perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
-            match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
+        side = None
+        if self.two_sided:
+            pattern = r"(?:quadrature_permutation|entity_local_index)\[(\d+)\]"
+            match = re.search(pattern, indices[0] + indices[1])
             assert match
-            perm_index = int(match.group(1))
+            side = int(match.group(1))
 
         def transform_index(index: str) -> int | str:
             index = index.replace(" ", "")
@@ -497,8 +504,8 @@ class FETable:
         plain_index = " + ".join(terms)
 
         new_access = f"{self._name}"
-        if perm_index is not None:
-            new_access += f"[{perm_index}]"
+        if side is not None:
+            new_access += f"[{side}]"
         new_access += f"[{plain_index}]"
 
         return new_access
-- 
2.43.0


From 4312db5910be9a66c11aeab72a5feb485a6c8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 37/44] fix: verbose compiler output of one thread was lost
 while another compiled

---
 python/qugar/dolfinx/jit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 49dbf65..aad7234 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -188,9 +188,11 @@ def _compile_objects(
             # Copy back the original handlers (in case someone is logging
             # into root logger and has custom handlers)
             root_logger.handlers = old_handlers
-    s = f.getvalue()
-    if cffi_verbose:
-        print(s)
+        # Still under the lock: while another thread compiles, standard
+        # output is redirected for the whole process.
+        s = f.getvalue()
+        if cffi_verbose:
+            print(s)
 
     logger.info(f"JIT C compiler finished in {time.time() - t0:.4f}")
 
-- 
2.43.0


From fc796372c8a906eed01ae3ad419d085524e58af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:14 +0000
Subject: [PATCH 38/44] fix: shift the abscissae, not the weights, of 3D
 tensor-product quadratures

---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From b3b0e1cf5f8c6c574ed010389e6ca3afc3d05a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 39/44] fix: cached Gauss rules of full cells and facets are no
 longer shared among threads

---
 cpp/qugar/impl_quadrature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..7fd1928 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -519,7 +519,7 @@ void create_cell_quadrature(const UnfittedImplDomain<dim> &unf_domain,
   } else if (unf_domain.is_full_cell(cell_id)) {
     const int n_pts_per_quad_set = n_pts_dir * n_pts_dir * (dim == 3 ? n_pts_dir : 1);
 
-    static auto gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
+    static thread_local auto gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
     if (gauss_01->get_num_points() != static_cast<std::size_t>(n_pts_per_quad_set)) {
       gauss_01 = Quadrature<dim>::create_Gauss_01(n_pts_dir);
     }
@@ -622,7 +622,7 @@ void create_facet_quadrature(const UnfittedImplDomain<dim> &unf_domain,
 
     const int n_pts_per_quad_set = n_pts_dir * (dim == 3 ? n_pts_dir : 1);
 
-    static auto gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
+    static thread_local auto gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
     if (gauss_01->get_num_points() != static_cast<std::size_t>(n_pts_per_quad_set)) {
       gauss_01 = Quadrature<dim - 1>::create_Gauss_01(n_pts_dir);
     }
-- 
2.43.0


From 3178d3c404a87664aa20b3bf2d1c436b096b9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 40/44] fix: report reparametrization files that could not be
 written

---
 cpp/qugar/reparam_mesh.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/qugar/reparam_mesh.cpp b/cpp/qugar/reparam_mesh.cpp
index c0c6366..2906764 100644
--- a/cpp/qugar/reparam_mesh.cpp
+++ b/cpp/qugar/reparam_mesh.cpp
@@ -42,6 +42,7 @@
 #include <memory>
 #include <ranges>
 #include <span>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -246,6 +247,14 @@ namespace {
     return mask;
   }
 
+  //! @brief Throws if anything went wrong when opening, writing, or closing a file.
+  void check_written(const std::ofstream &stream, const std::string &filename)
+  {
+    if (!stream) {
+      throw std::runtime_error("Could not write file " + filename);
+    }
+  }
+
   template<int dim, int range>
   void write_reparam_to_VTK_cells(const std::vector<Point<range>> &points,
     const std::vector<std::size_t> &connectivity,
@@ -318,6 +327,7 @@ namespace {
     stream << "</VTKFile>\n";
 
     stream.close();
+    check_written(stream, filename + ".vtu");
   }
 
 }// namespace
@@ -753,6 +763,7 @@ template<int dim, int range> void ReparamMesh<dim, range>::write_VTK_file(const
   stream << "  </vtkMultiBlockDataSet>\n";
   stream << "</VTKFile>\n";
   stream.close();
+  check_written(stream, filename + ".vtmb");
 }
 
 
-- 
2.43.0


From d67ca9c3f1b5f519a29508f28d35e3df54634700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:15 +0000
Subject: [PATCH 41/44] fix: refer to the .vtu files of a .vtmb file relative
 to its directory

---
 cpp/qugar/reparam_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/reparam_mesh.cpp b/cpp/qugar/reparam_mesh.cpp
index 2906764..0cee603 100644
--- a/cpp/qugar/reparam_mesh.cpp
+++ b/cpp/qugar/reparam_mesh.cpp
@@ -36,6 +36,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstring>
+#include <filesystem>
 #include <fstream>
 #include <iomanip>
 #include <limits>
@@ -757,8 +758,10 @@ template<int dim, int range> void ReparamMesh<dim, range>::write_VTK_file(const
   stream << R"(<VTKFile type="vtkMultiBlockDataSet" version="1.0" byte_order="LittleEndian">)" << "\n";
   stream << "  <vtkMultiBlockDataSet>\n";
 
-  stream << R"(    <DataSet index="0" name="interior" file=")" << filename << R"(.vtu"/>)" << "\n";
-  stream << R"(    <DataSet index="1" name="boundary" file=")" << wirebasket_filename << R"(.vtu"/>)" << "\n";
+  // Relative paths are resolved by the readers with respect to the .vtmb file's directory.
+  const auto name = std::filesystem::path(filename).filename().string();
+  stream << R"(    <DataSet index="0" name="interior" file=")" << name << R"(.vtu"/>)" << "\n";
+  stream << R"(    <DataSet index="1" name="boundary" file=")" << name << R"(_wb.vtu"/>)" << "\n";
 
   stream << "  </vtkMultiBlockDataSet>\n";
   stream << "</VTKFile>\n";
-- 
2.43.0


From 5498c8a74e84531d7462f49e102e3731f3f5219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:09 +0000
Subject: [PATCH 42/44] fix: orient reparametrization cells with the Lagrange
 nodes their points lie at

The flag selecting Chebyshev nodes was inverted, and the orientation of all cells was judged with
Chebyshev nodes of the second kind although the points of low orders are equidistant: strongly
curved cells could stay inverted.
---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..8770e79 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -44,7 +44,7 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
   values.reserve(static_cast<std::size_t>(order));
 
   std::function<real(const int)> get_coord;
-  if (chebyshev) {
+  if (!chebyshev) {
     get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
@@ -70,7 +70,7 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
   values.reserve(static_cast<std::size_t>(order));
 
   std::function<real(const int)> get_coord;
-  if (chebyshev) {
+  if (!chebyshev) {
     get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
-- 
2.43.0


From 848f5cf1cc45691711d3085f3d472fcf2ecd5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:10 +0000
Subject: [PATCH 43/44] fix: options of a deleted linear problem reached a new
 one at the same address

---
 python/qugar/dolfinx/petsc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 02714d2..08b7489 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -22,6 +22,7 @@
 built on top of unfitted domains.
 """
 
+import itertools
 import typing
 
 from petsc4py import PETSc
@@ -46,6 +47,9 @@ from dolfinx.la.petsc import create_vector_wrap as create_petsc_vector_wrap
 
 from qugar.dolfinx import CustomForm, form_custom
 
+# Numbers the linear problems of this process (see ``LinearProblem``).
+_problem_counter = itertools.count()
+
 
 def _pack_coefficients(
     form: CustomForm | list[CustomForm],
@@ -215,8 +219,10 @@ class LinearProblem(dolfinx.fem.petsc.LinearProblem):
         self._solver = PETSc.KSP().create(self._u.function_space.mesh.comm)
         self._solver.setOperators(self._A)
 
-        # Give PETSc solver options a unique prefix
-        problem_prefix = f"dolfinx_solve_{id(self)}"
+        # Give PETSc solver options a unique prefix. ``id(self)`` is not
+        # unique: the address of a deleted problem is used again, whose
+        # options are still in PETSc's global database.
+        problem_prefix = f"dolfinx_solve_{next(_problem_counter)}"
         self._solver.setOptionsPrefix(problem_prefix)
 
         # Set PETSc options
-- 
2.43.0


From 0a1045e2edc3943809a223d1191b381c1e8450a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:10 +0000
Subject: [PATCH 44/44] fix: every rank contributed the whole reparametrization
 to the mesh

---
 python/qugar/reparam/reparam.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/reparam/reparam.py b/python/qugar/reparam/reparam.py
index cc0d035..fd46589 100644
--- a/python/qugar/reparam/reparam.py
+++ b/python/qugar/reparam/reparam.py
@@ -156,6 +156,11 @@ class UnfDomainReparamMesh:
 
         comm = self._unf_domain.mesh.comm
 
+        # Every rank holds the whole reparameterization, so each one
+        # contributes a different part of the cells. Their nodes are global
+        # indices: those of the points given by the first rank.
+        conn = np.array_split(conn, comm.size)[comm.rank]
+
         # For parallel meshes, we need to use an identity partitioner
         # as the (default) ParMetis partitioner fails for non-connected
         # meshes as this one.
-- 
2.43.0

