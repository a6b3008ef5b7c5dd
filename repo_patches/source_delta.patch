From 541e4c93c4854074bb159c2f1bf864966dcda851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 01/60] fix: Field::set_local_data did not compile on CPU
 targets (const vector data)

---
 libraries/plumbing/field_comm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 50ca1d6..696eb21 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1112,7 +1112,7 @@ void Field<T>::set_local_data(const std::vector<T> &buffer) {
     T *data = (T *)d_malloc(sizeof(T) * lattice->mynode.volume);
     gpuMemcpy(data, buffer.data(), sizeof(T) * lattice->mynode.volume, gpuMemcpyHostToDevice);
 #else
-    T *data = buffer.data();
+    const T *data = buffer.data();
 #endif
 
 #pragma hila novector direct_access(data)
-- 
2.43.0


From fc866b7ad891f244a2d71bf5c70bc0e2471ed955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 02/60] fix: AVX antiperiodic boundary flipped sign at interior
 subnode boundaries

---
 .../plumbing/backend_vector/field_storage_backend.h      | 9 +++++++--
 libraries/plumbing/backend_vector/lattice_vector.h       | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/backend_vector/field_storage_backend.h b/libraries/plumbing/backend_vector/field_storage_backend.h
index 9b015eb..2f7c9a4 100644
--- a/libraries/plumbing/backend_vector/field_storage_backend.h
+++ b/libraries/plumbing/backend_vector/field_storage_backend.h
@@ -223,8 +223,13 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
                     } else {
 #ifdef SPECIAL_BOUNDARY_CONDITIONS
                         for (unsigned e = 0; e < elements * vector_size; e += vector_size)
-                            for (unsigned i = 0; i < vector_size; i++)
-                                t[e + i] = -s[e + perm[i]];
+                            for (unsigned i = 0; i < vector_size; i++) {
+                                // only subnodes on lattice edge get antiperiodic neighbours
+                                if (vector_lattice->is_subnode_on_edge[dir][i])
+                                    t[e + i] = -s[e + perm[i]];
+                                else
+                                    t[e + i] = s[e + perm[i]];
+                            }
 #endif
                     }
                 }
diff --git a/libraries/plumbing/backend_vector/lattice_vector.h b/libraries/plumbing/backend_vector/lattice_vector.h
index 5f15c3e..e386e36 100644
--- a/libraries/plumbing/backend_vector/lattice_vector.h
+++ b/libraries/plumbing/backend_vector/lattice_vector.h
@@ -36,6 +36,8 @@ struct vectorized_lattice_struct {
     bool only_local_boundary_copy[NDIRS];
     /// permutation vectors
     int boundary_permutation[NDIRS][vector_size];
+    /// True if the subnode (vector element) touches the edge of the whole lattice to direction
+    bool is_subnode_on_edge[NDIRS][vector_size];
     /// offsets to boundary halos
     unsigned halo_offset[NDIRS], halo_offset_odd[NDIRS], n_halo_vectors[NDIRS];
     /// storage for indexes to halo sites
@@ -327,8 +329,12 @@ struct vectorized_lattice_struct {
         CoordinateVector base = lattice->coordinates(0);
         for (int i = 0; i < vector_size; i++) {
             CoordinateVector diff = lattice->coordinates(i) - base;
-            foralldir (d)
+            foralldir (d) {
                 coordinate_offset[d].insert(i, diff[d]);
+                int first = subnode_origin[d] + diff[d];
+                is_subnode_on_edge[-d][i] = (first == 0);
+                is_subnode_on_edge[d][i] = (first + subnode_size[d] == lattice.size(d));
+            }
         }
 
         // and then set the coordinate_base with the original coords
-- 
2.43.0


From 8ea22b22e7fca22cea87f08396a9b2d273c4109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 03/60] fix: shifts by more than one site ignored antiperiodic
 boundary conditions

---
 libraries/plumbing/field_comm.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 696eb21..fbd5ee0 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -235,18 +235,16 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
         return res;
     }
 
-    // now longer - need buffer
-    Field<T> r1;
-    Field<T> *from, *to;
-
-    // this ensures that the final move lands on res
-    if (len % 2 == 0) {
-        from = &r1;
-        to = &res;
-    } else {
-        from = &res;
-        to = &r1;
+    // now longer - need buffers.  These carry the boundary conditions of the original field,
+    // which may differ from the ones of res
+    Field<T> r1, r2;
+    if constexpr (hila::has_unary_minus<T>::value) {
+        r1.copy_boundary_condition(*this);
+        if (len > 2)
+            r2.copy_boundary_condition(*this);
     }
+    Field<T> *from = &r1, *to = &r2;
+
     // and copy initially to "from"
     (*from).shift_from(*this, mdir, par_s);
     // (*from)[par_s] = (*this)[X + mdir];
@@ -261,11 +259,16 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
 
             while (rem[d] != 0) {
 
+                rem = rem - mdir;
+
+                // the final move lands on res
+                if (rem.norm_L1() == 0)
+                    to = &res;
+
                 (*to).shift_from(*from, mdir, par_s);
                 //(*to)[par_s] = (*from)[X + mdir];
 
                 par_s = opp_parity(par_s);
-                rem = rem - mdir;
                 std::swap(to, from);
             }
         }
@@ -300,6 +303,9 @@ void Field<T>::buffered_shift_offsets(const CoordinateVector &v, Parity par) con
     fs->shift_buffer.emplace_back();
     fs->shift_buffer.back().par = Parity::none; // flag it new
     fs->shift_buffer.back().offset = v;
+    // shifts of shifted fields need the boundary conditions of this field
+    if constexpr (hila::has_unary_minus<T>::value)
+        fs->shift_buffer.back().f.copy_boundary_condition(*this);
     return;
 }
 
-- 
2.43.0


From 4551f16aa891d761ea836c83577fdf08d96755cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 04/60] fix: more than 100 different shifts of a field
 invalidated references to the shift buffer

---
 libraries/plumbing/field.h      | 4 +++-
 libraries/plumbing/field_comm.h | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 1aa9c51..0ba6328 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -10,6 +10,7 @@
 #include <sstream>
 #include <iostream>
 #include <string>
+#include <list>
 #include <cstring> //Memcpy is here...
 #include <math.h>
 #include <type_traits>
@@ -117,7 +118,8 @@ class Field {
             Parity par;
         };
 
-        std::vector<shift_buffer_struct> shift_buffer;
+        // list: references to elements stay valid when new shifts are added
+        std::list<shift_buffer_struct> shift_buffer;
 #endif
 
 
diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index fbd5ee0..a6dc51b 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -287,10 +287,6 @@ void Field<T>::buffered_shift_offsets(const CoordinateVector &v, Parity par) con
     if (v.norm_L1() == 0)
         return;
 
-    // alloc enough storage, so that no new allocs are needed - cheap!
-    if (fs->shift_buffer.capacity() == 0)
-        fs->shift_buffer.reserve(100);
-
     // Do we have the shift?
     for (auto &r : fs->shift_buffer) {
         if (r.offset == v) {
-- 
2.43.0


From 185b81694c756d793382c032d3a00e2ea021685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 05/60] fix: moving from an unallocated Field dereferenced a
 null pointer

---
 libraries/plumbing/field.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index 0ba6328..d97fc83 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -444,7 +444,7 @@ class Field {
      * @param rhs
      */
     Field(Field &&rhs) noexcept {
-        assert(rhs.fs->mylattice.ptr() == lattice.ptr());
+        assert(rhs.fs == nullptr || rhs.fs->mylattice.ptr() == lattice.ptr());
         fs = rhs.fs;
         rhs.fs = nullptr;
     }
@@ -982,7 +982,8 @@ class Field {
      */
     Field<T> &operator=(Field<T> &&rhs) noexcept {
         if (this != &rhs) {
-            assert((fs == nullptr || (rhs.fs->mylattice.ptr() == fs->mylattice.ptr())) &&
+            assert((fs == nullptr || rhs.fs == nullptr ||
+                    (rhs.fs->mylattice.ptr() == fs->mylattice.ptr())) &&
                    "Field = Field assignment possible only if fields belong to the same lattice");
             clear();
             fs = rhs.fs;
-- 
2.43.0


From b0ec258d7d005427cf186e0813205908de2c46a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 06/60] fix: changing one parity left stale boundary values on
 lattices of odd size

---
 libraries/plumbing/field.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index d97fc83..d6bda48 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -584,12 +584,20 @@ class Field {
      */
     void mark_changed(const Parity p) const {
 
+        // Neighbours across the boundary have the same parity if the lattice size is odd.  Then
+        // all gathers become invalid
+        Parity changed = p;
+        foralldir (d) {
+            if (fs->mylattice.size(d) % 2 != 0)
+                changed = ALL;
+        }
+
         for (Direction i = (Direction)0; i < NDIRS; ++i) {
             // check if there's ongoing comms, invalidate it!
-            drop_comms(i, opp_parity(p));
+            drop_comms(i, opp_parity(changed));
 
-            set_gather_status(opp_parity(p), i, gather_status_t::NOT_DONE);
-            if (p != ALL) {
+            set_gather_status(opp_parity(changed), i, gather_status_t::NOT_DONE);
+            if (changed != ALL) {
                 set_gather_status(ALL, i, gather_status_t::NOT_DONE);
             } else {
                 set_gather_status(EVEN, i, gather_status_t::NOT_DONE);
-- 
2.43.0


From e1230b827299a1e87403d4c8c8c0556a06cd9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 07/60] fix: node layout looped forever when the second
 division attempt succeeded

---
 libraries/plumbing/setup_layout_generic.cpp | 6 +++---
 libraries/plumbing/setup_layout_vector.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libraries/plumbing/setup_layout_generic.cpp b/libraries/plumbing/setup_layout_generic.cpp
index d541906..efa5d35 100644
--- a/libraries/plumbing/setup_layout_generic.cpp
+++ b/libraries/plumbing/setup_layout_generic.cpp
@@ -71,7 +71,7 @@ void lattice_struct::setup_layout() {
     }
 
     int mdir = 0;
-    bool secondtime = false;
+    bool secondtime = false, fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -129,7 +129,7 @@ void lattice_struct::setup_layout() {
             }
 
         // now check that the div makes sens
-        bool fail = false;
+        fail = false;
         foralldir(dir) if (nodesiz[dir] < 2) fail = true; // don't allow nodes of size 1
         if (fail && !secondtime) {
             secondtime = true;
@@ -141,7 +141,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail); // never tried more than twice
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
diff --git a/libraries/plumbing/setup_layout_vector.cpp b/libraries/plumbing/setup_layout_vector.cpp
index 1cfcf87..84d4fa1 100644
--- a/libraries/plumbing/setup_layout_vector.cpp
+++ b/libraries/plumbing/setup_layout_vector.cpp
@@ -97,7 +97,7 @@ void lattice_struct::setup_layout() {
     CoordinateVector divisions, subdiv;
 
     int gdir;
-    bool secondtime = false;
+    bool secondtime = false, fail;
     do {
         // try the division a couple of times, if the 1st fails
 
@@ -165,7 +165,7 @@ void lattice_struct::setup_layout() {
 
         // Division done, now check that the div makes sense
 
-        bool fail = false;
+        fail = false;
 
         foralldir (dir)
             if (nodesiz[dir] < 1)
@@ -241,7 +241,7 @@ void lattice_struct::setup_layout() {
             hila::finishrun();
         }
 
-    } while (secondtime);
+    } while (fail); // never tried more than twice
 
     // set up struct nodes variables
     nodes.number = hila::number_of_nodes();
-- 
2.43.0


From 74c9896eb0af203a9b6360db21a1718c4691f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 08/60] fix: copy_local_data_with_halo missed halos of nodes of
 size 1 and antiperiodic signs of corners

---
 libraries/plumbing/field_comm.h | 106 ++++++++++++--------------------
 1 file changed, 41 insertions(+), 65 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index a6dc51b..181e3f5 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1135,9 +1135,12 @@ void Field<T>::set_local_data(const std::vector<T> &buffer) {
 ////////////////////////////////////////////////////////////////////////////////////
 /// Copy local data with halo - useful for visualization
 
+/// Collect the halo sites which are displaced by "shift" from the sites of src, and continue to
+/// directions >= first.  src[X] must contain the field at X + shift
+
 template <typename T>
-inline void collect_field_halo_data_(T *data, const Field<T> &src, Field<T> &dest,
-                                     const Vector<NDIM, int> &dirs, int ndir) {
+inline void collect_field_halo_data_(T *data, const Field<T> &src, const CoordinateVector &shift,
+                                     int first) {
 
 
     assert_all_ranks_present();
@@ -1160,34 +1163,40 @@ inline void collect_field_halo_data_(T *data, const Field<T> &src, Field<T> &des
         node_max[d] = lattice->mynode.min[d] + lattice->mynode.size[d] - 1;
     }
 
+    // halo is collected separately up and down, the node size can be 1
+    for (int k = first; k < NDIM; k++) {
+        for (int sign = -1; sign <= 1; sign += 2) {
+            Direction d = (Direction)k;
+            if (sign < 0)
+                d = -d;
+
+            CoordinateVector v = shift;
+            v.e(k) = sign;
+
+            Field<T> dest;
+            if constexpr (hila::has_unary_minus<T>::value)
+                dest.copy_boundary_condition(src);
+            dest[ALL] = src[X + d];
+
 #pragma hila novector direct_access(data)
-    onsites (ALL) {
-        Vector<NDIM, unsigned> nodec;
-        CoordinateVector c = X.coordinates();
-        bool gotit = true;
-
-        for (int i = 0; i < ndir; i++) {
-            Direction d = (Direction)dirs[i];
-            if (c.e(d) == node_min[d]) {
-                c.e(d) -= 1;
-            } else if (c.e(d) == node_max[d]) {
-                c.e(d) += 1;
-            } else
-                gotit = false;
-        }
+            onsites (ALL) {
+                Vector<NDIM, unsigned> nodec;
+                CoordinateVector c = X.coordinates();
+                bool gotit = true;
+
+                for (int i = 0; i < NDIM; i++) {
+                    if ((v.e(i) < 0 && c.e(i) != node_min[i]) ||
+                        (v.e(i) > 0 && c.e(i) != node_max[i]))
+                        gotit = false;
+                }
+
+                if (gotit) {
+                    nodec = c + v - nmin;
+                    data[nodec.dot(nmul)] = dest[X];
+                }
+            }
 
-        Direction d = (Direction)dirs[ndir];
-        if (gotit && c.e(d) == node_min[d]) {
-            c.e(d) -= 1;
-            nodec = c - nmin;
-            data[nodec.dot(nmul)] = src[X - d];
-            dest[X] = src[X - d];
-
-        } else if (gotit && c.e(d) == node_max[d]) {
-            c.e(d) += 1;
-            nodec = c - nmin;
-            data[nodec.dot(nmul)] = src[X + d];
-            dest[X] = src[X + d];
+            collect_field_halo_data_(data, dest, v, k + 1);
         }
     }
 }
@@ -1233,44 +1242,11 @@ void Field<T>::copy_local_data_with_halo(std::vector<T> &buffer) const {
         data[i] = (*this)[X];
     }
 
-    // collect nn-halos
+    // collect nn-halos and corners
 
-    Field<T> corners = 0;
-#if NDIM > 1
-    Field<T> corner2 = 0;
-#if NDIM > 2
-    Field<T> corner3 = 0;
-#if NDIM > 3
-    Field<T> corner4 = 0;
-#endif
-#endif
-#endif
-
-    Vector<NDIM, int> dirs;
-    foralldir (d1) {
-        dirs[0] = d1;
-        // gather d1 halo
-        collect_field_halo_data_(data, (*this), corners, dirs, 0);
-
-#if NDIM > 1
-        for (int d2 = d1 + 1; d2 < NDIM; ++d2) {
-            dirs[1] = d2;
-            collect_field_halo_data_(data, corners, corner2, dirs, 1);
-#if NDIM > 2
-            for (int d3 = d2 + 1; d3 < NDIM; ++d3) {
-                dirs[2] = d3;
-                collect_field_halo_data_(data, corner2, corner3, dirs, 2);
-#if NDIM > 3
-                for (int d4 = d3 + 1; d4 < NDIM; ++d4) {
-                    dirs[3] = d4;
-                    collect_field_halo_data_(data, corner3, corner4, dirs, 3);
-                }
-#endif
-            }
-#endif
-        }
-#endif
-    }
+    CoordinateVector noshift;
+    noshift = 0;
+    collect_field_halo_data_(data, (*this), noshift, 0);
 
 
 #if defined(CUDA) || defined(HIP)
-- 
2.43.0


From fa503f6bb60e46728f0a113458bad0ecbfd9e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 09/60] fix: offset reads with a parity used unset sites on
 lattices of odd size

---
 libraries/plumbing/field.h      | 23 ++++++++++++++++-------
 libraries/plumbing/field_comm.h | 17 +++++++++++++----
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/libraries/plumbing/field.h b/libraries/plumbing/field.h
index d6bda48..976f177 100644
--- a/libraries/plumbing/field.h
+++ b/libraries/plumbing/field.h
@@ -576,6 +576,20 @@ class Field {
     }
 
 
+    /**
+     * @internal
+     * @brief True if lattice size is odd to some direction.  Then neighbours across the lattice
+     * boundary can have the same parity.
+     */
+    bool has_odd_size() const {
+        bool odd = false;
+        foralldir (d) {
+            if (fs->mylattice.size(d) % 2 != 0)
+                odd = true;
+        }
+        return odd;
+    }
+
     /**
      * @internal
      * @brief Bookkeeping for field communication
@@ -584,13 +598,8 @@ class Field {
      */
     void mark_changed(const Parity p) const {
 
-        // Neighbours across the boundary have the same parity if the lattice size is odd.  Then
-        // all gathers become invalid
-        Parity changed = p;
-        foralldir (d) {
-            if (fs->mylattice.size(d) % 2 != 0)
-                changed = ALL;
-        }
+        // On odd lattices all gathers become invalid
+        const Parity changed = has_odd_size() ? ALL : p;
 
         for (Direction i = (Direction)0; i < NDIRS; ++i) {
             // check if there's ongoing comms, invalidate it!
diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 181e3f5..6d9e698 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -200,6 +200,10 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
     else
         par_s = par;
 
+    // parity does not tell which sites intermediate moves need if the lattice size is odd
+    if (len > 1 && has_odd_size())
+        par_s = ALL;
+
     // is this already gathered from one of the dirs in v?
     bool found_dir = false;
     Direction mdir;
@@ -262,8 +266,10 @@ Field<T> &Field<T>::shift(const CoordinateVector &v, Field<T> &res, const Parity
                 rem = rem - mdir;
 
                 // the final move lands on res
-                if (rem.norm_L1() == 0)
+                if (rem.norm_L1() == 0) {
                     to = &res;
+                    par_s = par;
+                }
 
                 (*to).shift_from(*from, mdir, par_s);
                 //(*to)[par_s] = (*from)[X + mdir];
@@ -312,6 +318,9 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
     if (len == 0)
         return *this;
 
+    // parity of the neighbour sites, which can be any if the lattice size is odd
+    const Parity nbpar = has_odd_size() ? ALL : opp_parity(par);
+
     for (auto &r : fs->shift_buffer) {
         if (r.offset == v) {
             // If we have the data return
@@ -330,7 +339,7 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
                 // now len > 1, check if others are next to this and shorter
                 for (auto &n : fs->shift_buffer) {
                     if ((r.offset - n.offset).is_direction(shiftd) && n.offset.norm_L1() < len) {
-                        do_buffered_shift(n.offset, opp_parity(par));
+                        do_buffered_shift(n.offset, nbpar);
 
                         fptr = &n.f;
                         break;
@@ -354,8 +363,8 @@ const Field<T> &Field<T>::do_buffered_shift(const CoordinateVector &v, Parity pa
                     shiftd = -shiftd;
                 }
 
-                buffered_shift_offsets(nv, opp_parity(par));
-                auto &n = do_buffered_shift(nv, opp_parity(par));
+                buffered_shift_offsets(nv, nbpar);
+                auto &n = do_buffered_shift(nv, nbpar);
                 fptr = &n;
             }
 
-- 
2.43.0


From 034c371d596b40f5982026868a5f05806357c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 10/60] fix: Reduction: delayed reduction could be counted
 several times

After a completed all-reduce every rank holds the total. A following delayed
site loop added to it on every rank, so that the next reduce() counted the old
total once per rank. Likewise, when delayed was switched off with contributions
pending, other ranks overwrote them and a later reduce() summed the result again.
---
 libraries/plumbing/reduction.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 777bbdc..d36f9a5 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -206,8 +206,9 @@ class Reduction {
 
         wait(); // wait for possible ongoing
 
-        // add the node values to reduction var
-        if (hila::myrank() == 0 || is_delayed_)
+        // add the node values to reduction var. Only rank 0 carries the value reduced so far,
+        // the other ranks what they have contributed to a delayed reduction still to be done
+        if (hila::myrank() == 0 || delay_is_on)
             val += v;
         else
             val = v;
@@ -219,6 +220,7 @@ class Reduction {
             delay_is_on = true;
             is_delayed_sum = true;
         } else {
+            delay_is_on = false; // this completes also earlier delayed contributions
             do_reduce_operation(MPI_SUM);
         }
     }
-- 
2.43.0


From fa4773b72c3760b3d4ca822b3f05ef8a8f6b3866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 11/60] fix: ReductionVector: delayed products were summed,
 assignment kept pending reductions

is_delayed_sum was never set, so a delayed product reduction was completed as a
sum. Assigning to the vector neither waited for a non-blocking reduction under
way nor dropped the pending delayed one, which then multiplied the assigned
value by the number of ranks. Switching delayed off with contributions pending
left the delayed status on, and the result was reduced twice.
---
 libraries/plumbing/reductionvector.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cc24a66..8e22a9a 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -204,12 +204,16 @@ class ReductionVector {
     /// Make this return void, hard to imagine it is used for anything useful
     template <typename S, std::enable_if_t<std::is_assignable<T &, S>::value, int> = 0>
     void operator=(const S &rhs) {
+        wait();
+        delay_is_on = false; // pending contributions are overwritten
         for (auto &vp : val)
             vp = rhs;
     }
 
     /// Assignment from 0
     void operator=(std::nullptr_t np) {
+        wait();
+        delay_is_on = false;
         for (auto &vp : val)
             vp = 0;
     }
@@ -243,7 +247,9 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = true;
         } else {
+            delay_is_on = false; // this completes also earlier delayed contributions
             reduce_operation(MPI_SUM);
         }
     }
@@ -264,7 +270,9 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = false;
         } else {
+            delay_is_on = false; // this completes also earlier delayed contributions
             reduce_operation(MPI_PROD);
         }
     }
-- 
2.43.0


From 35493d5feee17fdf5921d611b759fd46cced1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:04 +0000
Subject: [PATCH 12/60] fix: Field::product() did not compile

It used *= of Reduction<T>, which is commented out. Use a standard product reduction.
---
 libraries/plumbing/reduction.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index d36f9a5..7f2fb6b 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -299,12 +299,11 @@ template <typename T>
 T Field<T>::product(Parity par, bool allreduce) const {
     static_assert(std::is_arithmetic<T>::value,
                   ".product() reduction only for integer or floating point types");
-    Reduction<T> result;
-    result = 1;
-    result.allreduce(allreduce);
+    T result = 1;
+    hila::set_allreduce(allreduce);
     onsites (par)
         result *= (*this)[X];
-    return result.value();
+    return result;
 }
 
 
-- 
2.43.0


From 62766bad93b4a03692c7502602bc3ea00d6cf03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 13/60] fix: Field max() of negative values, locations of min()
 and max()

max() started from numeric_limits<T>::min(), the smallest positive number for
floating point types: the maximum of a field without positive values was wrong.
If the extreme value was equal to the starting value (for example INT_MAX, or
infinity), or a rank had no sites of the parity, the location could be a site
without that value or uninitialized.
---
 libraries/plumbing/reduction.h | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 7f2fb6b..8664131 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -330,29 +330,40 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
 #if defined(CUDA) || defined(HIP)
     T val = gpu_minmax(is_min, par, loc);
 #else
-    // get suitable initial value
-    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+    // get suitable initial value: no element of the field is beyond this
+    T initial;
+    if constexpr (std::numeric_limits<T>::has_infinity)
+        initial = is_min ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
+    else
+        initial = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
+
+    T val = initial;
+    bool found = false; // does this rank have any site of par?
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
-    #pragma omp parallel shared(val, loc, is_min)
+    #pragma omp parallel shared(val, loc, is_min, found)
     {
         CoordinateVector loc_th(0);
-        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+        T val_th = initial;
+        bool found_th = false;
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th)
+        #pragma hila novector omp_parallel_region direct_access(loc_th, val_th, found_th)
         onsites (par) {
-            if ((is_min && (*this)[X] < val_th) || (!is_min && (*this)[X] > val_th)) {
+            if (!found_th || (is_min && (*this)[X] < val_th) ||
+                (!is_min && (*this)[X] > val_th)) {
                 val_th = (*this)[X];
                 loc_th = X.coordinates();
+                found_th = true;
             }
         }
         #pragma omp critical
-        if ((is_min && val_th < val) || (!is_min && val_th > val)) {
+        if (found_th && (!found || (is_min && val_th < val) || (!is_min && val_th > val))) {
             val = val_th;
             loc = loc_th;
+            found = true;
         }
     }
     
@@ -372,7 +383,12 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
                       "min/max reduction: datatype struct not packed!");
 
         rdata.v = val;
+        // ties go to the smallest rank number: never to a rank without sites
         rdata.rank = hila::myrank();
+#if !defined(CUDA) && !defined(HIP)
+        if (!found)
+            rdata.rank += hila::number_of_nodes();
+#endif
 
         // after allreduce rdata contains the min value and rank where it is
         if (is_min) {
@@ -383,7 +399,8 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
         val = rdata.v;
 
         // send the coordinatevector of the minloc to all nodes
-        MPI_Bcast(&loc, sizeof(CoordinateVector), MPI_BYTE, rdata.rank, lattice->mpi_comm_lat);
+        MPI_Bcast(&loc, sizeof(CoordinateVector), MPI_BYTE, rdata.rank % hila::number_of_nodes(),
+                  lattice->mpi_comm_lat);
     }
 
     return val;
-- 
2.43.0


From 6a3d3ffd32294c9e14f9b15843424ae0c6617238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:49 +0000
Subject: [PATCH 14/60] fix: Reduction: an assigned value was known only to
 rank 0

value() directly after an assignment returned 0 on the other ranks, so that
ranks could disagree. Assignment also kept pending delayed contributions alive.
---
 libraries/plumbing/reduction.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 8664131..23433a8 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -99,15 +99,11 @@ class Reduction {
         val = 0;
         comm_is_on = false;
     }
-    /// Initialize to value only on rank 0 - ensures expected result for delayed reduction
+    /// Initialize to value on all ranks. Reductions use only the value on rank 0
     ///
     template <typename S, std::enable_if_t<hila::is_assignable<T &, S>::value, int> = 0>
     Reduction(const S &v) {
-        if_rank0() {
-            val = v;
-        } else {
-            val = 0;
-        }
+        val = v;
         comm_is_on = false;
     }
 
@@ -166,14 +162,10 @@ class Reduction {
         wait();
 
         comm_is_on = false;
-        T ret = rhs;
-        if_rank0() {
-            val = ret;
-        } else {
-            val = 0;
-        }
-        // all ranks return the same value
-        return ret;
+        delay_is_on = false; // pending contributions are overwritten
+        // only the value on rank 0 enters later reductions
+        val = rhs;
+        return val;
     }
 
     /// Compound operator += is used in reduction but can be used outside onsites too.
-- 
2.43.0


From 3535ff5c88e5364dd326e41e113307e8b5d234e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 15/60] fix: product reductions in vectorized loops gave 0 for
 several types

reduce_prod() of float, int and long vectors started from 0.
---
 libraries/plumbing/backend_vector/defs.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 315bc99..2ab8fbf 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -250,7 +250,7 @@ inline double reduce_prod(Vec4d v) {
 }
 
 inline double reduce_prod(Vec8f v) {
-    double sum = 0;
+    double sum = 1;
     float store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -259,7 +259,7 @@ inline double reduce_prod(Vec8f v) {
 }
 
 inline double reduce_prod(Vec8i v) {
-    double sum = 0;
+    double sum = 1;
     int store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
@@ -277,7 +277,7 @@ inline double reduce_prod(Vec8d v) {
 }
 
 inline double reduce_prod(Vec16f v) {
-    double sum = 0;
+    double sum = 1;
     float store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -286,7 +286,7 @@ inline double reduce_prod(Vec16f v) {
 }
 
 inline double reduce_prod(Vec16i v) {
-    double sum = 0;
+    double sum = 1;
     int store[16];
     v.store(&(store[0]));
     for (int i = 0; i < 16; i++)
@@ -294,8 +294,8 @@ inline double reduce_prod(Vec16i v) {
     return sum;
 }
 
-inline double reduce_prod(Vec4q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec4q v) {
+    int64_t sum = 1;
     int64_t store[4];
     v.store(&(store[0]));
     for (int i = 0; i < 4; i++)
@@ -303,8 +303,8 @@ inline double reduce_prod(Vec4q v) {
     return sum;
 }
 
-inline double reduce_prod(Vec8q v) {
-    double sum = 0;
+inline int64_t reduce_prod(Vec8q v) {
+    int64_t sum = 1;
     int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
-- 
2.43.0


From dded4da967a0685b98a335ff3099bec2f2f24854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 16/60] fix: reduce_sum of 8 long vector elements wrote past
 its buffer

---
 libraries/plumbing/backend_vector/defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/backend_vector/defs.h b/libraries/plumbing/backend_vector/defs.h
index 2ab8fbf..9cb9393 100644
--- a/libraries/plumbing/backend_vector/defs.h
+++ b/libraries/plumbing/backend_vector/defs.h
@@ -233,7 +233,7 @@ inline int64_t reduce_sum(Vec4q v) {
 
 inline int64_t reduce_sum(Vec8q v) {
     int64_t sum = 0;
-    int64_t store[4];
+    int64_t store[8];
     v.store(&(store[0]));
     for (int i = 0; i < 8; i++)
         sum += store[i];
-- 
2.43.0


From 1a8144520abdead61a18cfa4f86a08367d4df5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 17/60] fix: OpenMP loops: product reductions and sums of class
 types

Product reductions were declared as sums for OpenMP. The thread-private sums of
class types (Complex, Matrix, ExtendedPrecision) were not initialized, as their
default constructors do nothing; copy the original, which is 0 there.
---
 hilapp/src/codegen_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 8af126a..ce2a5cc 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -134,7 +134,7 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                 if (r.reduction_type != reduction::NONE &&
                     get_number_type(r.type) == number_type::UNKNOWN) {
                     code << "#pragma omp declare reduction(_hila_reduction_sum" << sums << ":"
-                         << r.type << ":omp_out += omp_in)\n";
+                         << r.type << ":omp_out += omp_in) initializer(omp_priv = omp_orig)\n";
                     sums++;
                 }
             }
@@ -151,7 +151,7 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                         code << "_hila_reduction_sum" << sums;
                         sums++;
                     } else {
-                        code << '+';
+                        code << (r.reduction_type == reduction::PRODUCT ? '*' : '+');
                     }
                     code << ": " << r.reduction_name << ")";
                 }
-- 
2.43.0


From 88e8fd802ab32473f5cfacfa978637e1742bbe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 18/60] fix: sites skipped by a condition were overwritten when
 the loop body has a site dependent index

---
 hilapp/src/toplevelvisitor.cpp | 38 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index b8d37d8..24c2c91 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1368,29 +1368,29 @@ bool TopLevelVisitor::handle_loop_body_stmt(Stmt *s) {
         TraverseStmt(s);
 
         // check also the conditionals - are these site dependent?
-        if (!loop_info.has_site_dependent_cond_or_index) {
-            Expr *condexpr = nullptr;
-            if (IfStmt *IS = dyn_cast<IfStmt>(s))
-                condexpr = IS->getCond();
-            else if (ForStmt *FS = dyn_cast<ForStmt>(s))
-                condexpr = FS->getCond();
-            else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
-                condexpr = WS->getCond();
-            else if (DoStmt *DS = dyn_cast<DoStmt>(s))
-                condexpr = DS->getCond();
-            else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
-                condexpr = SS->getCond();
-            else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
-                condexpr = CO->getCond();
-
-            if (condexpr != nullptr) {
+        Expr *condexpr = nullptr;
+        if (IfStmt *IS = dyn_cast<IfStmt>(s))
+            condexpr = IS->getCond();
+        else if (ForStmt *FS = dyn_cast<ForStmt>(s))
+            condexpr = FS->getCond();
+        else if (WhileStmt *WS = dyn_cast<WhileStmt>(s))
+            condexpr = WS->getCond();
+        else if (DoStmt *DS = dyn_cast<DoStmt>(s))
+            condexpr = DS->getCond();
+        else if (SwitchStmt *SS = dyn_cast<SwitchStmt>(s))
+            condexpr = SS->getCond();
+        else if (ConditionalOperator *CO = dyn_cast<ConditionalOperator>(s))
+            condexpr = CO->getCond();
+
+        if (condexpr != nullptr) {
+            // Flag general cond expression
+            loop_info.has_conditional = true;
+
+            if (!loop_info.has_site_dependent_cond_or_index) {
                 loop_info.has_site_dependent_cond_or_index =
                     is_site_dependent(condexpr, &loop_info.conditional_vars);
                 if (loop_info.has_site_dependent_cond_or_index)
                     loop_info.condExpr = condexpr;
-
-                // Flag general cond expression
-                loop_info.has_conditional = true;
             }
         }
 
-- 
2.43.0


From 4026801af05c53ae044c6a2fbb08ed00c5dcd02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 19/60] fix: blocking reused a lattice of the same size blocked
 from another lattice

---
 libraries/plumbing/lattice.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/lattice.cpp b/libraries/plumbing/lattice.cpp
index 0c79a1b..5521f47 100644
--- a/libraries/plumbing/lattice.cpp
+++ b/libraries/plumbing/lattice.cpp
@@ -1074,8 +1074,14 @@ lattice_struct *lattice_struct::block_by_factor(const CoordinateVector &blocking
 
     hila::synchronize();
 
+    // no blocking at all, stay on this lattice
+    if (blockvol == l_size)
+        return this;
+
+    // this blocking may have been done before. The parent must be this lattice, a lattice of the
+    // same size can be blocked from another lattice too
     for (auto *l : hila::defined_lattices) {
-        if (l->l_size == blockvol) {
+        if (l->l_size == blockvol && l->parent == this) {
             lattice.switch_to(l);
             return l;
         }
-- 
2.43.0


From 5cd5cdb8582b50b82248080193ce46cac24c9246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 20/60] fix: blocking a field left ranks without blocked sites
 out of step

---
 libraries/plumbing/field_comm.h | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index 6d9e698..b386653 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -1288,11 +1288,6 @@ void Field<T>::block_from(Field<T> &orig) {
 
     assert(blocklat->parent == parentlat && "blocking must happen from parent lattice Field");
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
-
-
     // alloc temp array, size of the blocked lattice
     size_t bufsize = blocklat->mynode.volume;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
@@ -1351,10 +1346,6 @@ void Field<T>::unblock_to(Field<T> &target) const {
         return;
     }
 
-    // If no sites on this node there's nothing to do
-    if (blocklat->mynode.volume == 0)
-        return;
-
     // alloc temp array, size of the blocked lattice
     size_t bufsize = blocklat->mynode.volume;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
@@ -1405,10 +1396,6 @@ void Field<T>::block_to_current_lattice() {
     assert(currentlat->parent == thislat &&
            "blocking must happen to the next lattice blocked from thislat");
 
-    // If no sites on this node there's nothing to do
-    if (currentlat->mynode.volume == 0)
-        return;
-
     // alloc temp array, size of the blocked lattice
     size_t bufsize = currentlat->mynode.volume;
     T *buf = (T *)d_malloc(bufsize * sizeof(T));
-- 
2.43.0


From 8634218b4062ae1f56da730293999b97d048ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 21/60] fix: onsites() loops without X were dropped in function
 templates

---
 hilapp/src/function_contains_loop_visitor.cpp | 15 +++++++++++++--
 hilapp/src/generalvisitor.h                   |  3 +++
 hilapp/src/toplevelvisitor.cpp                |  2 +-
 hilapp/src/toplevelvisitor.h                  |  2 --
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/hilapp/src/function_contains_loop_visitor.cpp b/hilapp/src/function_contains_loop_visitor.cpp
index d39e23b..4e1cd85 100644
--- a/hilapp/src/function_contains_loop_visitor.cpp
+++ b/hilapp/src/function_contains_loop_visitor.cpp
@@ -11,6 +11,7 @@
 ///   - Find if it contains X (X_index_type), which appears inside loops
 ///   - Find if it has Field[Parity] -stmt.  This can appear without X in
 ///      statemets like  f[EVEN] = 1;  etc.
+///   - Find if it has onsites() -loop, the body may be without X
 ///
 //////////////////////////////////////////////////////////////////////////////
 
@@ -24,11 +25,12 @@ class containsSiteLoopChecker : public GeneralVisitor,
     bool found_field_parity;
     bool found_field;
     bool found_field_coordinate;
+    bool found_onsites;
     bool searching_for_field;
 
     template <typename visitortype>
     containsSiteLoopChecker(visitortype &v, bool fieldsearch) : GeneralVisitor(v) {
-        found_field = found_X = found_field_parity = found_field_coordinate = false;
+        found_field = found_X = found_field_parity = found_field_coordinate = found_onsites = false;
         searching_for_field = fieldsearch;
     }
 
@@ -49,6 +51,14 @@ class containsSiteLoopChecker : public GeneralVisitor,
         return true;
     }
 
+    bool VisitForStmt(ForStmt *s) {
+        if (is_onsites(s)) {
+            found_onsites = true;
+            return false;
+        }
+        return true;
+    }
+
     bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *OC) {
         if (is_field_parity_expr(OC)) {
             // llvm::errs() << "FOUND FIELD WITH PARITY! \n";
@@ -73,7 +83,8 @@ bool TopLevelVisitor::does_function_contain_field_access(FunctionDecl *f) {
     if (f->hasBody()) {
         containsSiteLoopChecker flc(*this, false);
         flc.TraverseStmt(f->getBody());
-        return (flc.found_X || flc.found_field_parity || flc.found_field_coordinate);
+        return (flc.found_X || flc.found_field_parity || flc.found_field_coordinate ||
+                flc.found_onsites);
     }
     return false;
 }
diff --git a/hilapp/src/generalvisitor.h b/hilapp/src/generalvisitor.h
index ea50912..c62fc4c 100644
--- a/hilapp/src/generalvisitor.h
+++ b/hilapp/src/generalvisitor.h
@@ -173,6 +173,9 @@ class GeneralVisitor {
                          field_storage_type) == 0);
     }
 
+    /// Check if the statement starts onsites() -loop
+    bool is_onsites(Stmt *s);
+
     /// Check the expression of a field expression
     bool is_field_expr(Expr *E) {
         return (E && E->getType().getCanonicalType().getUnqualifiedType().getAsString(PP).find(
diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 24c2c91..cb9f0f0 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -2015,7 +2015,7 @@ void TopLevelVisitor::remove_vars_out_of_scope(unsigned level) {
 /// Find if the Stmt starts onsites() -loop
 //////////////////////////////////////////////////////////////////////////////
 
-bool TopLevelVisitor::is_onsites(Stmt *s) {
+bool GeneralVisitor::is_onsites(Stmt *s) {
 
     ForStmt *f = dyn_cast<ForStmt>(s);
     if (f) {
diff --git a/hilapp/src/toplevelvisitor.h b/hilapp/src/toplevelvisitor.h
index 2478a89..e56f920 100644
--- a/hilapp/src/toplevelvisitor.h
+++ b/hilapp/src/toplevelvisitor.h
@@ -147,8 +147,6 @@ class TopLevelVisitor : public GeneralVisitor, public RecursiveASTVisitor<TopLev
 
     bool handle_constexpr_if(Stmt *s);
 
-    bool is_onsites(Stmt *s);
-
     bool handle_vector_reference(Stmt *s, bool &is_assign, std::string &assignop, Stmt *assingstmt);
 
     bool is_select_stmt(Stmt *s, Expr **value_expr);
-- 
2.43.0


From caf4911cd6f7e027bdc9d98e51dc15e6bd1c3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 22/60] fix: selecting a site again in a loop stored the value
 in the wrong place

---
 libraries/plumbing/site_select.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/site_select.h b/libraries/plumbing/site_select.h
index 3de66df..a4e75b8 100644
--- a/libraries/plumbing/site_select.h
+++ b/libraries/plumbing/site_select.h
@@ -292,8 +292,8 @@ class SiteValueSelect : public SiteSelect {
     }
 
     void select_site_value(const SiteIndex s, const T &val) {
-        values[current_index] = val;
         SiteSelect::select_site(s);
+        values[current_index - 1] = val;
     }
 
 
-- 
2.43.0


From 44e005d109d353ad842d436e4042ff515c29355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 23/60] fix: clusters of links joined neighbouring sites that
 no link connects

---
 libraries/plumbing/clusters.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/clusters.h b/libraries/plumbing/clusters.h
index 60f5181..64e4db3 100644
--- a/libraries/plumbing/clusters.h
+++ b/libraries/plumbing/clusters.h
@@ -301,7 +301,34 @@ class Clusters {
                     f[X] = 1;
             }
         }
-        find(f);
+        labels[ALL] = set_cl_label(X.coordinates(), f[X]);
+
+        // spread the smallest label along the links
+        Reduction<int64_t> changed;
+        changed.delayed();
+        do {
+            changed = 0;
+            foralldir (d) {
+                for (Parity par : {EVEN, ODD}) {
+                    // take away annoying warning with pragma
+                    #pragma hila safe_access(labels)
+                    onsites (par) {
+                        auto label_up = labels[X + d];
+                        if (link[d][X] != 0 && labels[X] > label_up) {
+                            labels[X] = label_up;
+                            changed += 1;
+                        }
+                        auto label_dn = labels[X - d];
+                        if (link[d][X - d] != 0 && labels[X] > label_dn) {
+                            labels[X] = label_dn;
+                            changed += 1;
+                        }
+                    }
+                }
+            }
+        } while (changed.value() > 0);
+
+        classify();
     }
 
 
-- 
2.43.0


From 948622f5aa09f977c73bd47210fd103916a7f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 24/60] fix: purging the memory pool called the pool's own
 free() and stopped the program

---
 libraries/plumbing/memory_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/plumbing/memory_pool.cpp b/libraries/plumbing/memory_pool.cpp
index 5538123..23ffc65 100644
--- a/libraries/plumbing/memory_pool.cpp
+++ b/libraries/plumbing/memory_pool.cpp
@@ -176,7 +176,8 @@ void hila::memory_pool::purge() {
 #endif // GPU_SHMEM
             }
 #else
-            free(it->ptr);
+            // memory from memalloc(), not a block of the pool
+            std::free(it->ptr);
 #endif // CUDA OR HIP
             p.total_size -= it->size;
 
-- 
2.43.0


From 5e950d873e563e297af345065df1cb923bd9a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 25/60] fix: single precision random numbers could round to 1.0

---
 libraries/datatypes/cmplx.h | 4 ++--
 libraries/plumbing/random.h | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/cmplx.h b/libraries/datatypes/cmplx.h
index aa6869a..4d68acc 100644
--- a/libraries/datatypes/cmplx.h
+++ b/libraries/datatypes/cmplx.h
@@ -329,8 +329,8 @@ class Complex {
      * @return Complex<T>&
      */
     inline Complex<T> &random() out_only {
-        re = hila::random();
-        im = hila::random();
+        hila::random(re);
+        hila::random(im);
         return *this;
     }
 
diff --git a/libraries/plumbing/random.h b/libraries/plumbing/random.h
index bba973b..96da952 100644
--- a/libraries/plumbing/random.h
+++ b/libraries/plumbing/random.h
@@ -105,6 +105,11 @@ void check_that_rng_is_initialized();
 template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
 T random(out_only T &val) {
     val = hila::random();
+    // rounding to single precision may give 1.0, outside of the interval [0,1)
+    if constexpr (std::is_floating_point<T>::value) {
+        while (val >= 1)
+            val = hila::random();
+    }
     return val;
 }
 
-- 
2.43.0


From fbf992a8869c64509e9a2374be5cd0c28bb1808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 26/60] fix: gaussrand() after seeding could return a number
 left from before

---
 libraries/plumbing/random.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libraries/plumbing/random.cpp b/libraries/plumbing/random.cpp
index 0a0bf80..d35c89c 100644
--- a/libraries/plumbing/random.cpp
+++ b/libraries/plumbing/random.cpp
@@ -35,6 +35,10 @@ double hila::host_random() {
 
 static bool rng_is_initialized = false;
 
+// gaussrand() generates two numbers at a time, the second one is kept for the next call
+static double gaussrand_second;
+static bool gaussrand_draw_new = true;
+
 namespace hila {
 
 /**
@@ -66,6 +70,8 @@ void initialize_host_rng(uint64_t seed) {
     // warm it up
     for (int i = 0; i < 9000; i++)
         mersenne_twister_gen();
+    // do not use a number from before seeding
+    gaussrand_draw_new = true;
     // #endif
 }
 
@@ -220,14 +226,12 @@ double hila::gaussrand2(double &out2) {
  * @return double
  */  
 double hila::gaussrand() {
-    static double second;
-    static bool draw_new = true;
-    if (draw_new) {
-        draw_new = false;
-        return hila::gaussrand2(second);
+    if (gaussrand_draw_new) {
+        gaussrand_draw_new = false;
+        return hila::gaussrand2(gaussrand_second);
     }
-    draw_new = true;
-    return second;
+    gaussrand_draw_new = true;
+    return gaussrand_second;
 }
 
 #else
-- 
2.43.0


From 70bf6d5ead6ea0918ce4934f575c294921b304df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 27/60] fix: input accepted values which only begin with a
 number of the right type

---
 libraries/plumbing/input.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index b34af85..2aba605 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -495,12 +495,17 @@ class input {
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
     bool is_value(const std::string &s, T &val) {
+        // unsigned numbers would be read modulo 2^n
+        if (std::is_unsigned<T>::value && s.find('-') != std::string::npos)
+            return false;
+
         std::istringstream ss(s);
         ss >> val;
         if (ss.fail() || ss.bad())
             return false;
-        else
-            return true;
+
+        // all of it must be the number, "1.5" or "5x" is not an int
+        return ss.peek() == std::istringstream::traits_type::eof();
     }
 
     bool is_value(const std::string &s, std::string &val);
-- 
2.43.0


From e9fa1e68b769cf3cee2fa05c4644ac2aaccd4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 28/60] fix: complex input values could not be given as (re,im)

---
 libraries/plumbing/input.cpp | 19 +++++++++++++++++++
 libraries/plumbing/input.h   |  6 ++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index 173aa79..d27989a 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -287,6 +287,25 @@ bool input::match_token(const std::string &tok) {
     return false;
 }
 
+// match_char is true and consumes the character c if it is next, after whitespace
+
+bool input::match_char(char c) {
+    if (!remove_whitespace() || lb_start >= linebuffer.size() || linebuffer[lb_start] != c)
+        return false;
+    lb_start++;
+    return true;
+}
+
+// get_number_token consumes a token, which also ends at ')' of a complex number
+
+bool input::get_number_token(std::string &tok) {
+    if (!peek_token(tok))
+        return false;
+    tok = tok.substr(0, tok.find(')'));
+    lb_start += tok.size();
+    return true;
+}
+
 // require the (typically beginning of line) key for parameters
 
 bool input::handle_key(const std::string &key) {
diff --git a/libraries/plumbing/input.h b/libraries/plumbing/input.h
index 2aba605..e2bc778 100644
--- a/libraries/plumbing/input.h
+++ b/libraries/plumbing/input.h
@@ -347,8 +347,8 @@ class input {
             T re, im;
 
             no_error =
-                (match_token("(") && get_token(tok) && is_value(tok, re) && match_token(",") &&
-                 get_token(tok) && is_value(tok, im) && match_token(")"));
+                (match_char('(') && get_number_token(tok) && is_value(tok, re) && match_char(',') &&
+                 get_number_token(tok) && is_value(tok, im) && match_char(')'));
             if (!no_error && speaking) {
                 hila::out << "Error: expecting complex value '(re,im)' after '" << label << "'\n";
             }
@@ -488,6 +488,8 @@ class input {
     bool peek_token(std::string &tok);
     bool get_token(std::string &tok);
     bool match_token(const std::string &tok);
+    bool match_char(char c);
+    bool get_number_token(std::string &tok);
 
     void scan_cmdline(const std::string &key, int &end_of_key);
 
-- 
2.43.0


From c2589982d1b2a7eced5933f2dab705bcc645df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 29/60] fix: reopened input began with what was left of the
 line read last

---
 libraries/plumbing/input.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/plumbing/input.cpp b/libraries/plumbing/input.cpp
index d27989a..4682552 100644
--- a/libraries/plumbing/input.cpp
+++ b/libraries/plumbing/input.cpp
@@ -50,6 +50,9 @@ bool input::open(const std::string &file_name, bool use_cmdline, bool exit_on_er
             got_error = true;
         } else {
             filename = fname;
+            // nothing remains of a file read before
+            linebuffer.clear();
+            lb_start = 0;
             if (fname == "-") {
                 use_cin = true;
                 if (speaking)
-- 
2.43.0


From 03f36910b0772997d4657d46a1d1efcf5fa06d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 30/60] fix: malformed time limits were accepted if they began
 with a valid one

---
 libraries/plumbing/timing.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libraries/plumbing/timing.cpp b/libraries/plumbing/timing.cpp
index 6f5abf0..f6c940c 100644
--- a/libraries/plumbing/timing.cpp
+++ b/libraries/plumbing/timing.cpp
@@ -1,6 +1,7 @@
 
 #include <time.h>
 #include <chrono>
+#include <regex>
 
 #include "defs.h"
 
@@ -240,11 +241,14 @@ void setup_timelimit(const std::string &timestr) {
             unsigned d{0}, h{0}, m{0}, s{0};
             // use short circuiting of || here to stop parsing on 1st match
             // zeroing the incorrectly read time variables in the same chain
+            // sscanf ignores what follows the match, thus check the form first
+            const std::regex time_format(" *(([0-9]+-)?[0-9]+:[0-9]+:[0-9]+|[0-9]+:[0-9]+|[0-9]+)");
             int nargs = 5;
-            if (std::sscanf(str, "%u-%u:%u:%u", &d, &h, &m, &s) == --nargs ||
-                std::sscanf(str, "%u:%u:%u", &h, &m, &s) == --nargs ||
-                std::sscanf(str, "%u:%u", &m, &s) == --nargs ||
-                std::sscanf(str, "%u", &s) == --nargs) {
+            if (std::regex_match(str, time_format) &&
+                (std::sscanf(str, "%u-%u:%u:%u", &d, &h, &m, &s) == --nargs ||
+                 std::sscanf(str, "%u:%u:%u", &h, &m, &s) == --nargs ||
+                 std::sscanf(str, "%u:%u", &m, &s) == --nargs ||
+                 std::sscanf(str, "%u", &s) == --nargs)) {
 
                 if (nargs < 4) d = 0;
                 if (nargs < 3) h = 0;
-- 
2.43.0


From 21b6e6c9515f1646e06db68a15c50ade7d8c358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 31/60] fix: a command line flag without its arguments was
 accepted as the last word

---
 libraries/plumbing/cmdline.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index eed6ff2..a286375 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -149,13 +149,10 @@ strvec cmdlinearguments::read_arg_vector(const char *flag) {
             i++;
             if (i < myargc)
                 p = myargv[i];
-            else {
-                break;
-            }
             // Check if the string is a valid input
             // (Not of type ^-[a-zA-Z].*)
             // and push into vector uargs
-            while (!std::regex_match(p, forbidden_user_input)) {
+            while (i < myargc && !std::regex_match(p, forbidden_user_input)) {
                 *(p_ind++) = 1;
                 uargs.push_back(std::string(p));
                 i++;
@@ -170,7 +167,7 @@ strvec cmdlinearguments::read_arg_vector(const char *flag) {
             // reason, set the current index to be removed
             // and compensate for the for loop increase in
             // i and p_ind
-            if (std::strcmp(p, flag) == 0) {
+            if (i < myargc && std::strcmp(p, flag) == 0) {
                 *(p_ind--) = 1;
                 i--;
             }
-- 
2.43.0


From cdd41e09ba2c32456d91ad74a3958ae3546b9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 32/60] fix: asking for an unknown command line flag made it
 known

---
 libraries/plumbing/cmdline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/cmdline.cpp b/libraries/plumbing/cmdline.cpp
index a286375..2792cc9 100644
--- a/libraries/plumbing/cmdline.cpp
+++ b/libraries/plumbing/cmdline.cpp
@@ -74,11 +74,11 @@ void cmdlinearguments::initialise_args(int argc0, char **argv0) {
 /// @return vector of arguments
 ////////////////////////////////////////////////////////////////////////////////
 strvec cmdlinearguments::values(const std::string &flag) {
-    strvec valvec = argmap[flag].val_strings;
     if (argmap.count(flag) == 0) {
         hila::out0 << "Flag '" << flag << "' is not recognized!\n";
         quit_with_help();
     }
+    strvec valvec = argmap[flag].val_strings;
 
     if (valvec.size() == 0) {
         hila::out0 << "\n\nFlag '" << flag << "' has no entries"
@@ -271,7 +271,8 @@ int cmdlinearguments::flag_set(const char *flag) {
 /// @return Boolean indicating the statement.
 ////////////////////////////////////////////////////////////////////////////////
 bool cmdlinearguments::flag_present(const char *flag) {
-    return argmap[flag].present;
+    // do not add an unknown flag to argmap
+    return argmap.count(flag) > 0 && argmap[flag].present;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4269d6ac89da7ad468f82647c92caf0f0753af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 33/60] fix: FFT or reflection in no direction gave garbage
 instead of the field

---
 libraries/plumbing/fft.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libraries/plumbing/fft.h b/libraries/plumbing/fft.h
index 84f6058..1ac1aab 100644
--- a/libraries/plumbing/fft.h
+++ b/libraries/plumbing/fft.h
@@ -296,6 +296,17 @@ class hila_fft {
     void full_transform(const Field<T> &input, Field<T> &result,
                         const CoordinateVector &directions) {
 
+        bool any_dir = false;
+        foralldir (d) {
+            if (directions[d])
+                any_dir = true;
+        }
+        if (!any_dir) {
+            // nothing to transform
+            result = input;
+            return;
+        }
+
         // Make sure the result is allocated and mark it changed
         result.check_alloc();
 
-- 
2.43.0


From 0672f80c62701e820b7588df98d54811c120859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 34/60] fix: reflection along odd lattice size did not reflect
 the middle sites

---
 libraries/plumbing/fft_fftw_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/fft_fftw_transform.h b/libraries/plumbing/fft_fftw_transform.h
index 3b80cb1..4f6b9b2 100644
--- a/libraries/plumbing/fft_fftw_transform.h
+++ b/libraries/plumbing/fft_fftw_transform.h
@@ -290,7 +290,7 @@ inline void hila_fft<cmplx_t>::reflect() {
         }
 
         // reflect
-        for (int j = 1; j < length / 2; j++) {
+        for (int j = 1; j < (length + 1) / 2; j++) {
             std::swap(buf[j], buf[length - j]);
         }
 
-- 
2.43.0


From 02cd05fb955d958dacac6f059b0c08ff0fcd9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 35/60] fix: read_fields() called a function that does not
 exist

---
 libraries/plumbing/field_io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index c364430..861ccd8 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -336,12 +336,12 @@ void Field<T>::read(const std::string &filename) {
 // Read a list of fields from an input stream
 template <typename T>
 static void read_fields(std::ifstream &inputfile, Field<T> &last) {
-    last.read_from_stream(inputfile);
+    last.read(inputfile);
 }
 
 template <typename T, typename... fieldtypes>
 static void read_fields(std::ifstream &inputfile, Field<T> &next, fieldtypes &...fields) {
-    next.read_from_stream(inputfile);
+    next.read(inputfile);
     read_fields(inputfile, fields...);
 }
 
-- 
2.43.0


From 1e86ffb2f4f230414f9f0177f6a0d2498f314ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 36/60] fix: configurations with a zero, negative or
 overflowing size in the header were not refused

---
 libraries/plumbing/gaugefield.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/gaugefield.h b/libraries/plumbing/gaugefield.h
index 1484a6f..1fd1376 100644
--- a/libraries/plumbing/gaugefield.h
+++ b/libraries/plumbing/gaugefield.h
@@ -253,7 +253,7 @@ class GaugeField {
             foralldir (d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
                 insize[d] = f;
-                ok = ok && (lattice.size(d) % insize[d] == 0);
+                ok = ok && f > 0 && f <= lattice.size(d) && lattice.size(d) % f == 0;
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
                                << " is " << f << " should be (or divide)" << lattice.size(d)
-- 
2.43.0


From c2df4c3c902d37b867c397995f4fe40abfb7188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 37/60] fix: files of fields on a lattice that is not the
 active one were garbage

---
 libraries/plumbing/field_comm.h | 44 ++++++++++++++++-----------------
 libraries/plumbing/field_io.h   |  2 +-
 libraries/plumbing/gaugefield.h | 11 ++++++---
 3 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/libraries/plumbing/field_comm.h b/libraries/plumbing/field_comm.h
index b386653..88307ab 100644
--- a/libraries/plumbing/field_comm.h
+++ b/libraries/plumbing/field_comm.h
@@ -838,7 +838,7 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
     assert_all_ranks_present();
 
     std::vector<unsigned> index_list;
-    std::vector<int> sites_on_rank(lattice->nodes.number);
+    std::vector<int> sites_on_rank(mylattice->nodes.number);
     std::vector<int> reshuffle_list(coord_list.size());
 
     std::fill(sites_on_rank.begin(), sites_on_rank.end(), 0);
@@ -847,9 +847,9 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
 
     int i = 0;
     for (const CoordinateVector &c : coord_list) {
-        int rank = lattice->node_rank(c);
+        int rank = mylattice->node_rank(c);
         if (hila::myrank() == rank) {
-            index_list.push_back(lattice->site_index(c));
+            index_list.push_back(mylattice->site_index(c));
         }
 
         if (sites_on_rank[rank] == 0 && rank != root)
@@ -860,10 +860,10 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
 
     std::vector<T> send_buffer(index_list.size());
     payload.gather_elements((T *)send_buffer.data(), index_list.data(), send_buffer.size(),
-                            lattice);
+                            mylattice);
     if (hila::myrank() != root && sites_on_rank[hila::myrank()] > 0) {
         MPI_Send((char *)send_buffer.data(), sites_on_rank[hila::myrank()] * sizeof(T), MPI_BYTE,
-                 root, hila::myrank(), lattice->mpi_comm_lat);
+                 root, hila::myrank(), mylattice->mpi_comm_lat);
     }
     if (hila::myrank() == root) {
 
@@ -872,7 +872,7 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
         std::vector<T> pb(coord_list.size() - sites_on_rank[root]);
         b = pb.data();
         // vector for node ptrs -- point to stuff from nodes
-        std::vector<T *> nptr(lattice->nodes.number);
+        std::vector<T *> nptr(mylattice->nodes.number);
 
         std::vector<MPI_Request> mpi_req(nranks);
         int nreqs = 0;
@@ -881,7 +881,7 @@ void Field<T>::field_struct::gather_elements(T *RESTRICT buffer,
                 if (n != root) {
                     MPI_Status status;
                     MPI_Irecv(b, (int)(sites_on_rank[n] * sizeof(T)), MPI_BYTE, n, n,
-                              lattice->mpi_comm_lat, &mpi_req[nreqs++]);
+                              mylattice->mpi_comm_lat, &mpi_req[nreqs++]);
 
                     nptr[n] = b;
                     b += sites_on_rank[n];
@@ -916,16 +916,16 @@ void Field<T>::field_struct::scatter_elements(T *RESTRICT buffer,
     assert_all_ranks_present();
 
     std::vector<unsigned> index_list;
-    std::vector<int> sites_on_rank(lattice->nodes.number);
+    std::vector<int> sites_on_rank(mylattice->nodes.number);
     std::vector<int> reshuffle_list(coord_list.size());
     std::fill(sites_on_rank.begin(), sites_on_rank.end(), 0);
 
     int nranks = 0;
     size_t i = 0;
     for (CoordinateVector c : coord_list) {
-        int rank = lattice->node_rank(c);
+        int rank = mylattice->node_rank(c);
         if (hila::myrank() == rank) {
-            index_list.push_back(lattice->site_index(c));
+            index_list.push_back(mylattice->site_index(c));
         }
 
         if (sites_on_rank[rank] == 0 && rank != root)
@@ -935,27 +935,27 @@ void Field<T>::field_struct::scatter_elements(T *RESTRICT buffer,
     }
 
     // payload.gather_elements((T *)recv_buffer.data(), index_list.data(),
-    //                         recv_buffer.size(), lattice);
+    //                         recv_buffer.size(), mylattice);
 
     if (hila::myrank() != root && sites_on_rank[hila::myrank()] > 0) {
         std::vector<T> recv_buffer(sites_on_rank[hila::myrank()]);
         MPI_Status status;
 
         MPI_Recv((char *)recv_buffer.data(), sites_on_rank[hila::myrank()] * sizeof(T), MPI_BYTE,
-                 root, hila::myrank(), lattice->mpi_comm_lat, &status);
+                 root, hila::myrank(), mylattice->mpi_comm_lat, &status);
 
         payload.place_elements((T *)recv_buffer.data(), index_list.data(), recv_buffer.size(),
-                               lattice);
+                               mylattice);
     }
     if (hila::myrank() == root) {
         // reordering buffers
         std::vector<T> pb(coord_list.size());
         // vector for node counters -- point to stuff from nodes
-        std::vector<unsigned> nloc(lattice->nodes.number);
-        std::vector<unsigned> ncount(lattice->nodes.number);
+        std::vector<unsigned> nloc(mylattice->nodes.number);
+        std::vector<unsigned> ncount(mylattice->nodes.number);
         nloc[0] = ncount[0] = 0;
 
-        for (int n = 1; n < lattice->nodes.number; n++) {
+        for (int n = 1; n < mylattice->nodes.number; n++) {
             nloc[n] = nloc[n - 1] + sites_on_rank[n - 1];
             ncount[n] = 0;
         }
@@ -970,13 +970,13 @@ void Field<T>::field_struct::scatter_elements(T *RESTRICT buffer,
             if (sites_on_rank[n] > 0) {
                 if (n != root) {
                     MPI_Isend(pb.data() + nloc[n], (int)(sites_on_rank[n] * sizeof(T)), MPI_BYTE, n,
-                              n, lattice->mpi_comm_lat, &mpi_req[nreqs++]);
+                              n, mylattice->mpi_comm_lat, &mpi_req[nreqs++]);
                 }
             }
         }
         if (sites_on_rank[root] > 0) {
             payload.place_elements(pb.data() + nloc[root], index_list.data(), index_list.size(),
-                                   lattice);
+                                   mylattice);
         }
         if (nreqs > 0) {
             std::vector<MPI_Status> stat_arr(nreqs);
@@ -997,12 +997,12 @@ void Field<T>::set_elements(const std::vector<T> &elements,
     will_change();
     for (int i = 0; i < coord_list.size(); i++) {
         CoordinateVector c = coord_list[i];
-        if (lattice->is_on_mynode(c)) {
-            my_indexes.push_back(lattice->site_index(c));
+        if (fs->mylattice->is_on_mynode(c)) {
+            my_indexes.push_back(fs->mylattice->site_index(c));
             my_elements.push_back(elements[i]);
         }
     }
-    fs->payload.place_elements(my_elements.data(), my_indexes.data(), my_indexes.size(), lattice);
+    fs->payload.place_elements(my_elements.data(), my_indexes.data(), my_indexes.size(), fs->mylattice);
     mark_changed(ALL);
 }
 
@@ -1034,7 +1034,7 @@ std::vector<T> Field<T>::get_subvolume(const CoordinateVector &cmin, const Coord
     size_t vol = 1;
     foralldir (d) {
         vol *= cmax[d] - cmin[d] + 1;
-        assert(cmax[d] >= cmin[d] && cmin[d] >= 0 && cmax[d] < lattice.size(d));
+        assert(cmax[d] >= cmin[d] && cmin[d] >= 0 && cmax[d] < fs->mylattice.size(d));
     }
     std::vector<CoordinateVector> clist(vol);
     CoordinateVector c;
diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index 861ccd8..75691d1 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -274,7 +274,7 @@ void Field<T>::read(std::ifstream &inputfile, const CoordinateVector &insize) {
     if_rank0 ()
         buffer = (T *)memalloc(read_size);
 
-    CoordinateVector lsize = lattice.size();
+    CoordinateVector lsize = fs->mylattice.size();
     int scalef[NDIM];
     size_t tvol = 1;
     size_t scvol = 1;
diff --git a/libraries/plumbing/gaugefield.h b/libraries/plumbing/gaugefield.h
index 1fd1376..40364f2 100644
--- a/libraries/plumbing/gaugefield.h
+++ b/libraries/plumbing/gaugefield.h
@@ -207,7 +207,7 @@ class GaugeField {
             outputfile.write(reinterpret_cast<char *>(&f), sizeof(int64_t));
 
             foralldir (d) {
-                f = lattice.size(d);
+                f = fdir[0].fs->mylattice.size(d);
                 outputfile.write(reinterpret_cast<char *>(&f), sizeof(int64_t));
             }
         }
@@ -248,15 +248,18 @@ class GaugeField {
                            << " is " << f << '\n';
         }
 
-        CoordinateVector insize = lattice.size();
+        // if the field exists, it need not be on the active lattice
+        CoordinateVector lsize =
+            fdir[0].is_allocated() ? fdir[0].fs->mylattice.size() : lattice.size();
+        CoordinateVector insize = lsize;
         if (ok && hila::myrank() == 0) {
             foralldir (d) {
                 inputfile.read(reinterpret_cast<char *>(&f), sizeof(int64_t));
                 insize[d] = f;
-                ok = ok && f > 0 && f <= lattice.size(d) && lattice.size(d) % f == 0;
+                ok = ok && f > 0 && f <= lsize[d] && lsize[d] % f == 0;
                 if (!ok)
                     hila::out0 << conferr << "incorrect lattice dimension " << hila::prettyprint(d)
-                               << " is " << f << " should be (or divide)" << lattice.size(d)
+                               << " is " << f << " should be (or divide)" << lsize[d]
                                << '\n';
             }
         }
-- 
2.43.0


From 91e8dddc9cc3767f82b471b6eb3863142ed31459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 38/60] fix: time check took all time before a time limit was
 set as one interval

---
 libraries/plumbing/timing.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libraries/plumbing/timing.cpp b/libraries/plumbing/timing.cpp
index f6c940c..b94e2d1 100644
--- a/libraries/plumbing/timing.cpp
+++ b/libraries/plumbing/timing.cpp
@@ -337,6 +337,12 @@ bool time_to_finish() {
     int signal = signal_status();
 
     if_rank0() {
+        // follow the intervals also when there is no limit, it can be set later
+        double this_time = gettime();
+        if (this_time - previous_time > max_interval)
+            max_interval = this_time - previous_time;
+        previous_time = this_time;
+
         if (signal != 0) {
             finish = true;
             hila::out0 << "FINISH UP ON SIGNAL SIGUSR1\n";
@@ -347,11 +353,6 @@ bool time_to_finish() {
 
         } else {
 
-            double this_time = gettime();
-            if (this_time - previous_time > max_interval)
-                max_interval = this_time - previous_time;
-            previous_time = this_time;
-
             // Give 2 min margin for the exit - perhaps needed for writing etc.
             if (timelimit - this_time < max_interval + 2 * 60.0)
                 finish = true;
-- 
2.43.0


From 54a1131f71087785c464964a5b0b7fd31af8a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 39/60] fix: spectral binning kept averages, counts and bin
 width from before its parameters were changed

---
 libraries/plumbing/spectraldensity.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libraries/plumbing/spectraldensity.h b/libraries/plumbing/spectraldensity.h
index 1a9f5f9..f8f9759 100644
--- a/libraries/plumbing/spectraldensity.h
+++ b/libraries/plumbing/spectraldensity.h
@@ -75,6 +75,12 @@ class k_binning {
     std::vector<double> k_avg;
     std::vector<size_t> bin_count;
 
+    // binning parameters change: averages and counts have to be calculated again
+    void reset_bin_info() {
+        k_avg.clear();
+        bin_count.clear();
+    }
+
   public:
     k_binning() {
         par.max = M_PI;
@@ -104,6 +110,7 @@ class k_binning {
         par.bins = n;
         par.bins_set = true;
         par.binwidth = par.max / par.bins;
+        reset_bin_info();
         return *this;
     }
 
@@ -118,7 +125,10 @@ class k_binning {
         if (!par.bins_set) {
             par.bins = ceil(par.max / par.binwidth);
             par.max = par.binwidth * par.bins;
+        } else {
+            par.binwidth = par.max / par.bins;
         }
+        reset_bin_info();
         return *this;
     }
 
@@ -132,6 +142,7 @@ class k_binning {
         par.bins = ceil(par.max / w);
         par.max = par.binwidth * par.bins;
         par.bins_set = false;
+        reset_bin_info();
         return *this;
     }
 
@@ -143,6 +154,7 @@ class k_binning {
     k_binning &power(double p) {
         assert(p > 0);
         par.power = p;
+        reset_bin_info();
         return *this;
     }
 
-- 
2.43.0


From 238c9259a4382f2f1e2b4bc9d6c1d525f767cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 40/60] fix: set_direct_iteration_FC() of multicanonical could
 not be linked

---
 libraries/tools/multicanonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 575e902..a670407 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -484,7 +484,7 @@ bool first_last_visited(const Muca &muca) {
 ///
 /// @param fc_pointer   A function pointer to a suitable condition function
 ////////////////////////////////////////////////////////////////////////////////
-inline void Muca::set_direct_iteration_FC(finish_condition_fn fc) {
+void Muca::set_direct_iteration_FC(finish_condition_fn fc) {
     finish_check = fc;
 }
 
-- 
2.43.0


From 50955caa85945cb073ae98cb2509f18de5e452f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 41/60] fix: multicanonical weight at min_OP and max_OP was
 infinite with hard walls

---
 libraries/tools/multicanonical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index a670407..b714785 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -278,12 +278,12 @@ double Muca::weight_function(double OP) const {
     double val;
     // If out of range, constant extrapolation or for hard walls, num inf.
     if (OP <= OP_bin_centers.front()) {
-        if (WParam.hard_walls)
+        if (WParam.hard_walls && OP < OP_bin_centers.front())
             val = std::numeric_limits<double>::infinity();
         else
             val = weights.front();
     } else if (OP >= OP_bin_centers.back()) {
-        if (WParam.hard_walls)
+        if (WParam.hard_walls && OP > OP_bin_centers.back())
             val = std::numeric_limits<double>::infinity();
         else
             val = weights.back();
-- 
2.43.0


From a8ea53c26717f4c5353f1fa2b7e78273e87c1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 42/60] fix: multicanonical iteration with sample size 1
 returned an uninitialised status

---
 libraries/tools/multicanonical.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index b714785..674d385 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -623,7 +623,7 @@ bool iterate_weight_function_direct(Muca &muca, double OP) {
 /// @return boolean indicating whether the iteration is considered complete
 ////////////////////////////////////////////////////////////////////////////////
 bool iterate_weight_function_direct_single(Muca &muca, double OP) {
-    int continue_iteration;
+    bool continue_iteration;
     if_rank0() {
         int samples = muca.DI.sample_size;
         int N = muca.weights.size();
@@ -663,15 +663,15 @@ bool iterate_weight_function_direct_single(Muca &muca, double OP) {
                            << "\n";
             }
 
-            continue_iteration = true;
-            if (muca.DI.C < muca.DI.C_min) {
-                hila::out0 << "Muca: Reached minimum update size C = " << muca.DI.C
-                           << " Weight iteration complete.\n";
-                continue_iteration = false;
-            }
-
             muca.write_weight_function("intermediate_weight.dat");
         }
+
+        continue_iteration = true;
+        if (muca.DI.C < muca.DI.C_min) {
+            hila::out0 << "Muca: Reached minimum update size C = " << muca.DI.C
+                       << " Weight iteration complete.\n";
+            continue_iteration = false;
+        }
     }
     hila::broadcast(continue_iteration);
     return continue_iteration;
-- 
2.43.0


From 53bc989e0bc6677f5f6e6aad0c0b07007cb44e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 43/60] fix: canonical weight iteration left the last bin
 unnormalised and uncorrected

---
 libraries/tools/multicanonical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 674d385..4c771df 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -764,7 +764,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
             std::swap(muca.CI.noc_weights, muca.weights);
 
             // normalisation necesary if bins with different lengths
-            for (size_t i = 1; i < muca.CI.can_hist.size(); ++i) {
+            for (size_t i = 1; i <= muca.CI.can_hist.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.CI.can_hist[i - 1] /= bin_width;
             }
@@ -812,7 +812,7 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
                         muca.CI.noc_weights.size() * sizeof(muca.CI.noc_weights[0]));
             double C = muca.CI.OC_factor;
             double d0 = muca.OP_bin_limits[1] - muca.OP_bin_limits[0];
-            for (size_t i = 1; i < muca.weights.size(); ++i) {
+            for (size_t i = 1; i <= muca.weights.size(); ++i) {
                 double bin_width = muca.OP_bin_limits[i] - muca.OP_bin_limits[i - 1];
                 muca.weights[i - 1] +=
                     C * ::log((d0 / bin_width) * muca.CI.hits_nsum[i - 1] / muca.CI.hits_nsum[0]);
-- 
2.43.0


From 603fff71ae45f77b62bc23b41e608df2ff1c8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 44/60] fix: canonical weight iteration crashed with less than
 100 iterations and did one too many

---
 libraries/tools/multicanonical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 4c771df..a7c1c2c 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -822,10 +822,10 @@ bool iterate_weight_function_canonical(Muca &muca, double OP) {
 
             // check if we should stop
             muca.CI.weight_update_count++;
-            if (muca.CI.weight_update_count > muca.CI.max_iters)
+            if (muca.CI.weight_update_count >= muca.CI.max_iters)
                 continue_iteration = false;
             // print progress
-            if (muca.CI.weight_update_count % (muca.CI.max_iters / 100) == 0)
+            if (muca.CI.weight_update_count % std::max(muca.CI.max_iters / 100, 1) == 0)
                 printf("Muca: iteration %d / %d\n", muca.CI.weight_update_count, muca.CI.max_iters);
         }
     }
-- 
2.43.0


From bd5b5d130bfc7b8a086d0050019eee76302a381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 45/60] fix: multicanonical weight file without data stopped
 the program instead of being refused

---
 libraries/tools/multicanonical.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index a7c1c2c..9d31502 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -166,6 +166,10 @@ bool Muca::read_weight_function(const std::string &W_function_filename) {
     // Skip the header and sscanf the values and add them into the vectors.
     int count = -header_length;
     data_length -= 1;
+    if (data_length < 2) {
+        printf("ERROR: No weight function in file `%s`\n", W_function_filename.c_str());
+        return false;
+    }
     printf("Weight function has header length of %d rows.\n", header_length);
     printf("Weight function has data length of %d rows.\n", data_length);
     printf("Reading the weight function into the program.\n");
-- 
2.43.0


From 874455429e89152a08fccee51ba3ecd3bc94c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 46/60] fix: multicanonical iteration status was not reset by a
 new initialisation

---
 libraries/tools/multicanonical.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/tools/multicanonical.cpp b/libraries/tools/multicanonical.cpp
index 9d31502..00378a9 100644
--- a/libraries/tools/multicanonical.cpp
+++ b/libraries/tools/multicanonical.cpp
@@ -911,8 +911,9 @@ inline void Muca::setup_iteration() {
         }
     }
 
-    // Zero the iteration counter
+    // Zero the iteration counter, iteration continues until it is complete
     weightIterationCount = 0;
+    weightIterationFlag = true;
 
     // Set up the finish condition pointer for the direct method.
     if (DI.finish_condition.compare("all_visited") == 0) {
-- 
2.43.0


From 44053020d83f0f3e7e6e01f1adecbbe8bc3ebb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 47/60] fix: chsexp() used the characteristic polynomial with
 wrong signs

---
 libraries/datatypes/matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/matrix.h b/libraries/datatypes/matrix.h
index a049a20..27230ee 100644
--- a/libraries/datatypes/matrix.h
+++ b/libraries/datatypes/matrix.h
@@ -4352,13 +4352,13 @@ inline Matrix_t<n, m, T, MT> chsexp(const Matrix_t<n, m, T, MT> &mat) {
     int ip = 0;
     tB[ip] = 1.;
     T tc = trace(mat);
-    crpl[n - 1] = tc;
+    crpl[n - 1] = -tc;
     tB[1 - ip] = mat;
     for (k = 2; k <= n; ++k) {
         tB[1 - ip] -= tc;
         mult(mat, tB[1 - ip], tB[ip]);
         tc = trace(tB[ip]) / k;
-        crpl[n - k] = tc;
+        crpl[n - k] = -tc;
         ip = 1 - ip;
     }
 
-- 
2.43.0


From 09ef9062e913ae856f78f0bc769dd97596d802d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 48/60] fix: products and quotients of a non-square matrix and
 a diagonal matrix had the wrong shape

---
 libraries/datatypes/diagonal_matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/diagonal_matrix.h b/libraries/datatypes/diagonal_matrix.h
index ad3059a..86d6b81 100644
--- a/libraries/datatypes/diagonal_matrix.h
+++ b/libraries/datatypes/diagonal_matrix.h
@@ -773,7 +773,7 @@ inline Rtype operator-(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 // multiply by matrix
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Mtype, Matrix<n, n, T>>>
 inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 
     constexpr int mr = Mtype::rows();
@@ -789,7 +789,7 @@ inline Rtype operator*(const DiagonalMatrix<n, T> &a, const Mtype &b) {
 }
 
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Mtype, Matrix<n, n, T>>>
 inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
@@ -806,7 +806,7 @@ inline Rtype operator*(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
 // division
 template <int n, typename T, typename Mtype, std::enable_if_t<Mtype::is_matrix(), int> = 0,
-          typename Rtype = hila::mat_x_mat_type<Matrix<n, n, T>, Mtype>>
+          typename Rtype = hila::mat_x_mat_type<Mtype, Matrix<n, n, T>>>
 inline Rtype operator/(const Mtype &b, const DiagonalMatrix<n, T> &a) {
 
     constexpr int mr = Mtype::rows();
-- 
2.43.0


From c22d63c9d0ac26e74a2c09c38940dd8d2730eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 49/60] fix: get_wloop_force and get_wloop_force_from_wl called
 functions that do not exist

---
 libraries/gauge/wilson_line_and_force.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index dc17d54..408e9b5 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -113,7 +113,7 @@ void get_wloop_force_from_wl(const GaugeField<group> &U, const std::vector<Direc
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, W, eps, K);
+    get_wloop_force_from_wl_add(U, path, W, eps, K);
 }
 
 template <typename group, typename atype = hila::arithmetic_type<group>>
@@ -161,7 +161,7 @@ void get_wloop_force(const GaugeField<group> &U, const std::vector<Direction> &p
     foralldir(d1) {
         K[d1][ALL] = 0;
     }
-    get_wloop_froce_add(U, path, eps, K);
+    get_wloop_force_add(U, path, eps, K);
 }
 
 
-- 
2.43.0


From 4bcc5f69ca9de33ee8a54dd175fe592f45eb5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 50/60] fix: get_wilson_line read past the end of a path of one
 link

---
 libraries/gauge/wilson_line_and_force.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libraries/gauge/wilson_line_and_force.h b/libraries/gauge/wilson_line_and_force.h
index 408e9b5..35739c6 100644
--- a/libraries/gauge/wilson_line_and_force.h
+++ b/libraries/gauge/wilson_line_and_force.h
@@ -39,6 +39,12 @@ void get_wilson_line(const GaugeField<group> &U, const std::vector<Direction> &p
         onsites(ALL) R0[ip][X] = U[-dir][X].dagger();
     }
 
+    // a single link is already the whole line
+    if (L == 1) {
+        R = R0[ip];
+        return;
+    }
+
     // multiply R0[ip] successively with the L-2 intermediate link variables of the Wilson line
     // and store the result in R0[1-ip]
     for (i = 1; i < L - 1; ++i) {
-- 
2.43.0


From 02878f05dfde895392954687af0531bad7558f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 51/60] fix: staplesum of one parity on a lattice with odd size
 used lower staples which were not computed

---
 libraries/gauge/staples.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libraries/gauge/staples.h b/libraries/gauge/staples.h
index 6b84fd3..172cbf2 100644
--- a/libraries/gauge/staples.h
+++ b/libraries/gauge/staples.h
@@ -29,6 +29,9 @@ void staplesum(const GaugeField<T> &U, Field<T> &staples, Direction d1, Parity p
 
     Field<T> lower;
 
+    // lower staples are needed at X - d2; if the lattice size is odd these can have any parity
+    const Parity lowerpar = U[d1].has_odd_size() ? ALL : opp_parity(par);
+
     bool first = true;
     foralldir(d2) if (d2 != d1) {
 
@@ -39,7 +42,7 @@ void staplesum(const GaugeField<T> &U, Field<T> &staples, Direction d1, Parity p
 
         // calculate first lower 'U' of the staple sum
         // do it on opp parity
-        onsites(opp_parity(par)) {
+        onsites(lowerpar) {
             lower[X] = U[d2][X].dagger() * U[d1][X] * U[d2][X + d1];
         }
 
@@ -86,6 +89,9 @@ void staplesum(const GaugeField<T> &U, Field<T> &staples, Direction d1,
 
     Field<T> lower;
 
+    // lower staples are needed at X - d2; if the lattice size is odd these can have any parity
+    const Parity lowerpar = U[d1].has_odd_size() ? ALL : opp_parity(par);
+
     bool first = true;
     foralldir(d2) if (d2 != d1) {
 
@@ -94,7 +100,7 @@ void staplesum(const GaugeField<T> &U, Field<T> &staples, Direction d1,
 
         // calculate first lower 'U' of the staple sum
         // do it on opp parity
-        onsites(opp_parity(par)) {
+        onsites(lowerpar) {
             lower[X] = plaqw[d1][d2][X] * U[d2][X].dagger() * U[d1][X] * U[d2][X + d1];
         }
 
-- 
2.43.0


From 3eb84f9986c1209da89cca27045ad53b6b439925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 52/60] fix: subtracting an unsigned number from an
 ExtendedPrecision, or comparing with one, wrapped around

---
 libraries/datatypes/extended.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libraries/datatypes/extended.h b/libraries/datatypes/extended.h
index 0a47936..8e100d0 100644
--- a/libraries/datatypes/extended.h
+++ b/libraries/datatypes/extended.h
@@ -121,7 +121,8 @@ class ExtendedPrecision {
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
     inline const ExtendedPrecision &operator-=(const T &rhs) {
-        return *this += -rhs;
+        // negate as double: -rhs is not negative if T is unsigned
+        return *this += -static_cast<double>(rhs);
     }
 
     template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
@@ -232,7 +233,10 @@ inline ExtendedPrecision operator+(ExtendedPrecision a, const ExtendedPrecision
 // -
 template <typename A, typename B, std::enable_if_t<hila::AorB_extended<A, B>::value, int> = 0>
 inline ExtendedPrecision operator-(const A &a, const B &b) {
-    return a + (-b);
+    if constexpr (hila::is_extended<B>::value)
+        return a + (-b);
+    else
+        return a + (-static_cast<double>(b)); // b may be unsigned
 }
 
 // *
-- 
2.43.0


From 1a993f750c336ddeb204cfa43a3c2be6958d11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 53/60] fix: a variable used in a reduction could be read or
 assigned otherwise in the same loop

---
 hilapp/src/toplevelvisitor.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index cb9f0f0..35736fc 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1750,6 +1750,17 @@ void TopLevelVisitor::check_var_info_list() {
     for (var_info &vi : var_info_list) {
         if (!vi.is_loop_local && !vi.is_raw) {
             if (vi.reduction_type != reduction::NONE) {
+                // within the loop the variable has no defined value: only the reduction is allowed
+                std::string op = (vi.reduction_type == reduction::SUM) ? "+=" : "*=";
+                for (auto &vr : vi.refs) {
+                    if (!vr.is_assigned || vr.assignop != op) {
+                        reportDiag(DiagnosticsEngine::Level::Error,
+                                   vr.ref->getSourceRange().getBegin(),
+                                   "variable '%0' is used in reduction '%1', it cannot be read or "
+                                   "assigned otherwise in the same loop",
+                                   vi.name.c_str(), op.c_str());
+                    }
+                }
                 if (false && vi.refs.size() > 1) {
                     // reduction only once
                     int i = 0;
-- 
2.43.0


From 526f613bc0d4d97cbe5944f277912d55d44f4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 54/60] fix: hilapp crashed on array references in parentheses
 within site loops

---
 hilapp/src/toplevelvisitor.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 35736fc..75473c0 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -355,17 +355,18 @@ reduction get_reduction_type(bool is_assign, const std::string &assignop, var_in
 
 Expr *TopLevelVisitor::find_base_expr(Expr *E) {
 
+    E = E->IgnoreParens();
 
     // RE may be a compound expression. We want the base variable.
     if (DeclRefExpr *DRE = dyn_cast<DeclRefExpr>(E)) {
         return DRE->IgnoreImplicit();
     } else if (ArraySubscriptExpr *ASE = dyn_cast<ArraySubscriptExpr>(E)) {
-        return ASE->getBase()->IgnoreImplicit();
+        return ASE->getBase()->IgnoreImplicit()->IgnoreParens();
     } else if (MemberExpr *ME = dyn_cast<MemberExpr>(E)) {
-        return ME->getBase()->IgnoreImplicit();
+        return ME->getBase()->IgnoreImplicit()->IgnoreParens();
     } else if (CXXOperatorCallExpr *OCE = dyn_cast<CXXOperatorCallExpr>(E)) {
         if (strcmp(getOperatorSpelling(OCE->getOperator()), "[]") == 0) {
-            return OCE->getArg(0)->IgnoreImplicit();
+            return OCE->getArg(0)->IgnoreImplicit()->IgnoreParens();
         } else {
             // It's not a variable
             return nullptr;
@@ -750,7 +751,7 @@ bool TopLevelVisitor::handle_vector_reference(Stmt *s, bool &is_assign, std::str
 
     bracket_ref_t br;
 
-    br.E = dyn_cast<Expr>(s);
+    br.E = dyn_cast<Expr>(s)->IgnoreParens();
     CXXOperatorCallExpr *OC = dyn_cast<CXXOperatorCallExpr>(br.E);
 
     br.BASE = find_base_expr(br.E);
-- 
2.43.0


From 597a44e0d875b280892c9525e9e71767397c995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 55/60] fix: assignments other than += and *= to elements of a
 ReductionVector were taken as products

---
 hilapp/src/toplevelvisitor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 75473c0..169a3e6 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -506,6 +506,14 @@ int TopLevelVisitor::handle_bracket_var_ref(bracket_ref_t &ref, const array_ref:
 
     reduction reduction_type;
     if (is_assign) {
+        if (type == array_ref::REDUCTION && assignop != "+=" && assignop != "*=") {
+            reportDiag(DiagnosticsEngine::Level::Error, ref.E->getSourceRange().getBegin(),
+                       "ReductionVector can be used only in sum (+=) or product (*=) reduction "
+                       "within onsites()");
+            parsing_state.skip_children = 1;
+            return 1;
+        }
+
         if (assignop == "+=")
             reduction_type = reduction::SUM;
         else
-- 
2.43.0


From d975e7ca2af550e7767bac56fa8532623bf9acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 56/60] fix: hilapp crashed on reading a ReductionVector with
 an index depending on the site

---
 hilapp/src/toplevelvisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 169a3e6..dceb77c 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -783,7 +783,7 @@ bool TopLevelVisitor::handle_vector_reference(Stmt *s, bool &is_assign, std::str
         if (is_assign)
             rt = array_ref::REDUCTION;
         else
-            rt = array_ref::STD_ARRAY;
+            rt = array_ref::STD_VECTOR;  // for reading it works like std::vector
     }
 
     handle_bracket_var_ref(br, rt, is_assign, assignop);
-- 
2.43.0


From 2f686a65b74a549b027db8df5a83739090508d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 57/60] fix: elements of an array read with a variable index
 could be assigned in the same loop

---
 hilapp/src/toplevelvisitor.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index dceb77c..ebf52ed 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -555,6 +555,15 @@ int TopLevelVisitor::handle_bracket_var_ref(bracket_ref_t &ref, const array_ref:
                 return 1;
             }
 
+            if (is_assign && ar.type != array_ref::REDUCTION) {
+                reportDiag(DiagnosticsEngine::Level::Error, ref.E->getSourceRange().getBegin(),
+                           "cannot assign to an array, std::vector or std::array which is also "
+                           "accessed with a variable index in the same loop. Use "
+                           "ReductionVector if this behaviour is needed.");
+                parsing_state.skip_children = 1;
+                return 1;
+            }
+
             ar.refs.push_back(ref);
             is_assign = false; // reset assign for index traversal
             for (auto *ip : ref.Idx)
@@ -1858,6 +1867,26 @@ void TopLevelVisitor::check_var_info_list() {
                 vi.vecinfo.is_vectorizable = is_vectorizable_type(vi.type, vi.vecinfo);
             }
     }
+
+    // Elements of an array cannot be reduced if other elements of it are accessed
+    for (array_ref &ar : array_ref_list) {
+        for (loop_const_expr_ref &cer : loop_const_expr_ref_list) {
+            if (cer.reduction_type == reduction::NONE && ar.type != array_ref::REDUCTION)
+                continue;
+
+            Expr *base = find_base_expr(cer.refs[0]);
+            while (base && isa<ArraySubscriptExpr>(base))
+                base = find_base_expr(base);
+
+            if (base && get_stmt_str(base) == get_stmt_str(ar.refs[0].BASE)) {
+                reportDiag(DiagnosticsEngine::Level::Error,
+                           cer.refs[0]->getSourceRange().getBegin(),
+                           "array '%0' cannot be used in reduction and accessed otherwise in the "
+                           "same loop",
+                           ar.name.c_str());
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bc578b894ecf2a15dd2adf4c629a446a20c0c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 58/60] fix: the product of two U1 elements did not compile

---
 libraries/datatypes/u1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/datatypes/u1.h b/libraries/datatypes/u1.h
index 7980869..c9a1501 100644
--- a/libraries/datatypes/u1.h
+++ b/libraries/datatypes/u1.h
@@ -119,7 +119,7 @@ inline T imag(const U1<T> arg) {
 /// and U1*U1
 template <typename T>
 inline U1<T> operator*(U1<T> a, const U1<T> b) {
-    a += b;
+    a *= b;
     return a;
 }
 
-- 
2.43.0


From ed14521c7e6958688388c69a4122bd191989894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 59/60] fix: SU2::exp() multiplied uninitialized components

---
 libraries/datatypes/su2.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index f166fc6..d859b67 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -246,9 +246,9 @@ class SU2 {
         T ed = ::exp(d);
         T sr = ed * ::sin(r) / r;
         ret.d = ed * ::cos(r);
-        ret.a *= sr;
-        ret.b *= sr;
-        ret.c *= sr;
+        ret.a = a * sr;
+        ret.b = b * sr;
+        ret.c = c * sr;
         return ret;
     }
 
-- 
2.43.0


From 43f085437d1c81095c59f9cadda2b1d1712c550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 60/60] fix: SU2 assignment from an initializer list returned
 no value

---
 libraries/datatypes/su2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/datatypes/su2.h b/libraries/datatypes/su2.h
index d859b67..6242d38 100644
--- a/libraries/datatypes/su2.h
+++ b/libraries/datatypes/su2.h
@@ -120,6 +120,7 @@ class SU2 {
         b = *(it++);
         c = *(it++);
         d = *(it);
+        return *this;
     }
 #pragma hila loop_function
     /// assign from 'scalar'
-- 
2.43.0

