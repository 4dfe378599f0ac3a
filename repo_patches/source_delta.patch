From 9d0483fa825623245d6867e25b75e38313a2a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:59 +0000
Subject: [PATCH 01/22] fix: euler::recover_primitive applies the documented
 temperature floor p = max(p, T * rho)

The floor was only applied when the recovered pressure was negative, so a
positive pressure below T * rho was returned unchanged.
---
 src/physics_euler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics_euler.hpp b/src/physics_euler.hpp
index 0eacbc1..7de1559 100644
--- a/src/physics_euler.hpp
+++ b/src/physics_euler.hpp
@@ -567,9 +567,9 @@ mara::euler::primitive_t mara::euler::recover_primitive(
     P[3] =  U[3].value / d;
     P[4] = (U[4].value - 0.5 * p_squared / d) * (gamma_law_index - 1.0);
 
-    if (P[4] < 0.0 && temperature_floor > 0.0)
+    if (temperature_floor > 0.0)
     {
-        P[4] = temperature_floor * d;
+        P[4] = std::max(P[4], temperature_floor * d);
     }
     return P;
 }
-- 
2.43.0


From 2f495bce37104c6e33e2b3b17c26fae906687044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:59 +0000
Subject: [PATCH 02/22] fix: unit_vector_t constructor normalises the members,
 not its parameters

The constructor divided its own parameters by the norm after the members were
initialised, so the components did not sum (in squares) to 1 as documented.
---
 src/core_geometric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_geometric.hpp b/src/core_geometric.hpp
index 3ce7484..aa91035 100644
--- a/src/core_geometric.hpp
+++ b/src/core_geometric.hpp
@@ -77,9 +77,9 @@ public:
     unit_vector_t(double n1, double n2, double n3) : n1(n1), n2(n2), n3(n3)
     {
         auto n = std::sqrt(n1 * n1 + n2 * n2 + n3 * n3);
-        n1 /= n;
-        n2 /= n;
-        n3 /= n;
+        this->n1 /= n;
+        this->n2 /= n;
+        this->n3 /= n;
     }
 
     template<typename ScalarType>
-- 
2.43.0


From 1dffdfa01b9212d61dcf8f4d1c918fcb7fb4907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:18 +0000
Subject: [PATCH 03/22] fix: nd::shape_t::volume accumulates in std::size_t

The product was truncated to int after every factor, so that e.g. a 65536 x
65536 shape had volume zero.
---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 5e37083..af30d75 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -327,7 +327,7 @@ public:
 
     std::size_t volume() const
     {
-        return std::accumulate(this->begin(), this->end(), 1, std::multiplies<>());
+        return std::accumulate(this->begin(), this->end(), std::size_t(1), std::multiplies<>());
     }
 
     bool contains(const index_t<Rank>& index) const
-- 
2.43.0


From bc1c09d4f456d9d9bf5fc09c237650025b48cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:18 +0000
Subject: [PATCH 04/22] fix: nd::access_pattern_t::shape of an empty strided
 region is zero

With final == start the unsigned numerator wrapped around, giving an extent of
2^63 for a jump of 2.
---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index af30d75..39a56a7 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -553,7 +553,7 @@ public:
 
         for (std::size_t n = 0; n < Rank; ++n)
         {
-            s[n] = (final[n] - start[n] - 1) / jumps[n] + 1;
+            s[n] = (final[n] - start[n] + jumps[n] - 1) / jumps[n];
         }
         return s;
     }
-- 
2.43.0


From c9d7c7287980949e0b1a01a21c01fc3ef6826176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:18 +0000
Subject: [PATCH 05/22] fix: nd::access_pattern_t iteration over an empty
 region visits nothing

A region with zero extent on some but not all axes has start != final, so
iteration visited indexes outside the region, and evaluating e.g. a 3 x 0 array
wrote past the end of its buffer.
---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 39a56a7..3613808 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -716,7 +716,7 @@ public:
 
 
     //=========================================================================
-    iterator begin() const { return { *this, start }; }
+    iterator begin() const { return { *this, empty() ? final : start }; }
     iterator end() const { return { *this, final }; }
 
 
-- 
2.43.0


From daaf3aa19b88aa92dbc7758c1b3db2d098da0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:18 +0000
Subject: [PATCH 06/22] fix: nd::access_pattern_t::within accepts every strided
 region inside the shape

The test used one jump past the last generated index, so that e.g. selecting
indexes 0, 2, 4 of a length 5 array was rejected as out of bounds.
---
 src/core_ndarray.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 3613808..84c5839 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -704,12 +704,13 @@ public:
      */
     bool within(const shape_t<Rank>& parent_shape) const
     {
-        auto zero = make_uniform_index<Rank>(0);
-        auto t1 = map_index(zero);
-        auto t2 = map_index(shape().last_index());
+        if (empty())
+        {
+            return true;
+        }
+        auto last = shape().last_index().transform([] (auto n) { return n - 1; });
 
-        return (t1 >= zero && t1 <= parent_shape.last_index() &&
-                t2 >= zero && t2 <= parent_shape.last_index());
+        return parent_shape.contains(start) && parent_shape.contains(map_index(last));
     }
 
 
-- 
2.43.0


From a2c1f9a2c3fbbada8ccee68130a571b2509a4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:18 +0000
Subject: [PATCH 07/22] fix: nd::arange with a step covers the whole range

The number of elements was final / step - start / step, which drops the last
element of e.g. arange(0, 5, 2).
---
 src/core_ndarray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 84c5839..65399ce 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -2518,14 +2518,14 @@ auto nd::arange(int count)
  */
 auto nd::arange(int start, int final, int step)
 {
-    if (step == 0 || final / step - start / step < 0)
+    if (step == 0 || (step > 0 ? final < start : final > start))
     {
         throw std::invalid_argument("nd::range");
     }
     return make_array([=] (auto index)
     {
         return start + index[0] * step;
-    }, nd::make_shape(final / step - start / step));
+    }, nd::make_shape((final - start + step - (step > 0 ? 1 : -1)) / step));
 }
 
 
-- 
2.43.0


From bffd968fde619bfb9c27bf9f9e9a922bf0b8f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:55 +0000
Subject: [PATCH 08/22] fix: hilbert_index passes the number of nodes on a
 side, not the level, to the curve

---
 src/core_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index ebe5288..ec89650 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -1063,5 +1063,5 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
         return d;
     };
 
-    return xy2d(index.level, index.coordinates[0], index.coordinates[1]);
+    return xy2d(1 << index.level, index.coordinates[0], index.coordinates[1]);
 }
-- 
2.43.0


From 1ab39236faf98f692f3297c0b921d2788dc1e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:50 +0000
Subject: [PATCH 09/22] fix: tree value() and children() throw out_of_range as
 documented, so find() cannot fail

---
 src/core_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index ec89650..24c2a38 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -301,6 +301,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const value_type& value() const
     {
+        if (! has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::value (node is not a leaf)");
+        }
         return std::get<0>(__impl);
     }
 
@@ -315,6 +319,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const children_array_type& children() const
     {
+        if (has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::children (node is a leaf)");
+        }
         return *std::get<1>(__impl);
     }
 
-- 
2.43.0


From 9681e3d000179cac3d5b877adb282ea36d6ac6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:50 +0000
Subject: [PATCH 10/22] fix: tree contains() on the index of an internal node
 shifted by a negative amount

---
 src/core_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 24c2a38..e6b6769 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -497,6 +497,10 @@ struct mara::arithmetic_binary_tree_t
         {
             return index.level == 0 && ! index.coordinates.any();
         }
+        if (index.level == 0)
+        {
+            return false;
+        }
         return child_at(index.orthant()).contains(index.advance_level());
     }
 
-- 
2.43.0


From 947032c8c3b0ad5f629a5fbb3e06928cc70a588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:24 +0000
Subject: [PATCH 11/22] fix: get_cell_block and get_vertex_block at the root
 and below missing nodes

At level 0 the parent index was formed by wrapping level - 1 (an undefined
shift in tree_index_t::orthant), and an index more than one level below a leaf
recursed into children that do not exist until the shift overflowed, instead of
being refused.
---
 src/mesh_tree_operators.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mesh_tree_operators.hpp b/src/mesh_tree_operators.hpp
index a02a36a..923d1ff 100644
--- a/src/mesh_tree_operators.hpp
+++ b/src/mesh_tree_operators.hpp
@@ -233,12 +233,19 @@ auto mara::get_cell_block(const arithmetic_binary_tree_t<ValueType, Rank>& tree,
         // If the tree has a value at the node above the target index, then refine
         // the data on that node (yielding 2^Rank arrays) and select the array in
         // the index's orthant.
-        if (tree.contains(index.parent_index()))
+        if (index.level > 0 && tree.contains(index.parent_index()))
         {
             auto ib = mara::to_integral(index.relative_to_parent().orthant());
             return (tree.at(index.parent_index()) | mara::refine_cells<Rank>())[ib] | post;
         }
 
+        // If the tree has no node at the target index, then there is no data to
+        // combine there.
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no node at the target index, or at the one above it");
+        }
+
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
         return mara::combine_cells(index.child_indexes().map([tree] (auto i) { return get_cell_block(tree, i, nd::to_shared()); }))
@@ -273,12 +280,19 @@ auto mara::get_vertex_block(const arithmetic_binary_tree_t<ValueType, Rank>& tre
         // If the tree has a value at the node above the target index, then refine
         // the data on that node (yielding 2^Rank arrays) and select the array in
         // the index's orthant.
-        if (tree.contains(index.parent_index()))
+        if (index.level > 0 && tree.contains(index.parent_index()))
         {
             auto ib = mara::to_integral(index.relative_to_parent().orthant());
             return (tree.at(index.parent_index()) | mara::refine_verts<Rank>())[ib].shared();
         }
 
+        // If the tree has no node at the target index, then there is no data to
+        // combine there.
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no node at the target index, or at the one above it");
+        }
+
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
         return mara::combine_verts(index.child_indexes().map([tree] (auto i) { return get_vertex_block(tree, i); }))
-- 
2.43.0


From 429f61664ac3be9fe45c3148e93604ca734ab76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:45 +0000
Subject: [PATCH 12/22] fix: mean_anomaly is measured from the time of periapse

---
 src/model_two_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 035abc7..90c4ff5 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -486,7 +486,7 @@ double mara::mean_anomaly(const full_orbital_elements_t& params, double t)
         t += P;
     }
     auto omega = 2 * M_PI / P;
-    return omega * t;
+    return omega * (t - params.tau);
 }
 
 mara::full_orbital_elements_t mara::diff(const full_orbital_elements_t& a, const full_orbital_elements_t& b)
-- 
2.43.0


From 3c05e3b92eb0a10cbc9aeaadd3ccdf59510448ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 13/22] fix: Kepler's equation could not converge to 1e-10 at a
 large mean anomaly (endless loop)

---
 src/model_two_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 90c4ff5..54c5a94 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -193,7 +193,7 @@ mara::two_body_state_t mara::compute_two_body_state(const orbital_elements_t& pa
 
     if (params.eccentricity > 0.0)
     {
-        auto M = omega * t; // mean anomoly
+        auto M = std::fmod(omega * t, 2 * M_PI); // mean anomoly
         auto anomoly_equation   = [e, M] (double E) { return E - e * std::sin(E) - M; };
         auto anomoly_derivative = [e]    (double E) { return 1 - e * std::cos(E); };
         double E = two_body::detail::solve_newton_rapheson(anomoly_equation, anomoly_derivative, M);
-- 
2.43.0


From ea47cbe07ffc472bb1a49727faf785edcfda6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:40 +0000
Subject: [PATCH 14/22] fix: reduce a zero rational to 0 / 1, so that equal
 values compare equal

---
 src/core_rational.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index e391319..bd09abe 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -189,6 +189,10 @@ private:
             num /= g;
             den /= g;
         }
+        else
+        {
+            den = 1;
+        }
         if (den < 0)
         {
             num *= -1;
-- 
2.43.0


From dd3c82a552f5cb74eacef8b7a96e5ab127f84be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:09 +0000
Subject: [PATCH 15/22] fix: time step of the binary scheme when angular
 momentum is the conserved variable

---
 src/subprog_binary_scheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 9bbf3a1..263af0f 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -1111,7 +1111,7 @@ double binary::maximum_timestep(const solution_t& solution,
     auto binary = mara::compute_two_body_state(solution.orbital_elements, solution.time.value);
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
 
-    return solution.conserved_u.indexes().map([&] (auto index)
+    return primitive.indexes().map([&] (auto index)
     {
         auto xc = solver_data.cell_centers.at(index);
         auto pc = primitive.at(index);
-- 
2.43.0


From 05160fdb2e0b35d8d94e185207e637b22f5497c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 16/22] fix: power_law_atmosphere_model::with_total_mass scales
 the current coefficient

---
 src/model_atmosphere.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_atmosphere.hpp b/src/model_atmosphere.hpp
index 1979f2f..cfa7093 100644
--- a/src/model_atmosphere.hpp
+++ b/src/model_atmosphere.hpp
@@ -97,7 +97,7 @@ struct mara::power_law_atmosphere_model
     power_law_atmosphere_model with_outer_index  (double new_n2) const { return {f0, r0, rc, n1, new_n2}; }
     power_law_atmosphere_model with_total_mass(double new_total_mass) const
     {
-        return with_coefficient(new_total_mass / total_mass());
+        return with_coefficient(f0 * new_total_mass / total_mass());
     }
 
     double mass_within_cutoff() const
-- 
2.43.0


From be5adaedfc81038e3edfeaa37212987c28f0775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:33 +0000
Subject: [PATCH 17/22] fix: dimensional_value_t::pow compiles for negative
 exponents and dimensions

With an unsigned denominator the exponents of the result were computed in
unsigned arithmetic, and did not fit the int template parameters whenever one
of them was negative.
---
 src/core_dimensional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_dimensional.hpp b/src/core_dimensional.hpp
index 9840923..3e82f35 100644
--- a/src/core_dimensional.hpp
+++ b/src/core_dimensional.hpp
@@ -221,7 +221,7 @@ struct mara::dimensional_value_t
      * @note       Since non-integer dimensions are not supported, all units
      *             must divide the exponent, if it is negative.
      */
-    template<int N, unsigned D=1>
+    template<int N, int D=1>
     auto pow() const
     {
         static_assert((C * N) % D == 0, "non-integer dimensions not supported");
-- 
2.43.0


From 43344625bcd7a69831b3978b2df49b40c57d4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:24 +0000
Subject: [PATCH 18/22] fix: comparison of derivable tuples compiles
 (to_sequence was misspelt)

---
 src/core_tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_tuple.hpp b/src/core_tuple.hpp
index f8d82bc..4b855dd 100644
--- a/src/core_tuple.hpp
+++ b/src/core_tuple.hpp
@@ -227,8 +227,8 @@ template<typename DerivedType, typename... Types>
 struct mara::derivable_tuple_t
 {
     //=========================================================================
-    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequenc().all(); }
-    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequenc().any(); }
+    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequence().all(); }
+    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequence().any(); }
     template<typename T> DerivedType operator*(const T& other)   const { return DerivedType{{__impl.operator*(other)}}; }
     template<typename T> DerivedType operator/(const T& other)   const { return DerivedType{{__impl.operator/(other)}}; }
     DerivedType operator+(const DerivedType& other) const { return DerivedType{{__impl.operator+(other.__impl)}}; }
-- 
2.43.0


From 4b9efbf230f5b9a6cf805da401ebaeff14a9f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 19/22] fix: sedov checkpoints hold the run config where a
 restart reads it

---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 47b921a..1de83d2 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -489,7 +489,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
     mara::write_schedule(file.require_group("schedule"), state.schedule);
-    mara::write_config(file.require_group("config"), state.run_config);
+    mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
 }
-- 
2.43.0


From 6cc835ed4ffc0cb2096a933d1e787027a653ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 20/22] fix: a schedule read from a file has the tasks due that
 were due when it was written

---
 src/app_serialize.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index a5ecfc8..62a77ad 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -74,6 +74,7 @@ void mara::write_schedule(h5::Group&& group, const schedule_t& schedule)
         h5_task.write("name", task.second.name);
         h5_task.write("num_times_performed", task.second.num_times_performed);
         h5_task.write("last_performed", task.second.last_performed);
+        h5_task.write("is_due", int(task.second.is_due));
     }
 }
 
@@ -88,6 +89,14 @@ auto mara::read_schedule(h5::Group&& group)
         task.name = task_name;
         task.num_times_performed = h5_task.read<int>("num_times_performed");
         task.last_performed = h5_task.read<double>("last_performed");
+
+        for (auto field : h5_task)
+        {
+            if (field == "is_due") // not there in older files
+            {
+                task.is_due = h5_task.read<int>("is_due");
+            }
+        }
         schedule.insert(task);
     }
     return schedule;
-- 
2.43.0


From 6bd62584cd8b992a26c866b4e222de3143733341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 21/22] fix: read_tree reads trees of any rank

---
 src/app_serialize_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_serialize_tree.hpp b/src/app_serialize_tree.hpp
index 6fb2f7c..23d0d06 100644
--- a/src/app_serialize_tree.hpp
+++ b/src/app_serialize_tree.hpp
@@ -138,7 +138,7 @@ void mara::read_tree(h5::Group&& group, arithmetic_binary_tree_t<ValueType, Rank
     for (auto dataset : group)
     {
         auto value = group.read<ValueType>(dataset);
-        tree = std::move(tree).insert(mara::read_tree_index<2>(dataset), value);
+        tree = std::move(tree).insert(mara::read_tree_index<Rank>(dataset), value);
     }
 }
 
-- 
2.43.0


From c6f51f7c0d6b664bf0fcd1daa87d9bc32c8f2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 22/22] fix: an empty string read from a file is empty

---
 src/app_serialize.hpp | 4 ++++
 src/core_hdf5.hpp     | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index 62a77ad..a4f73d6 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -332,6 +332,10 @@ struct h5::hdf5_type_info<mara::config_parameter_t>
     }
     static auto finalize(mara::config_parameter_t&& value)
     {
+        if (auto text = std::get_if<std::string>(&value))
+        {
+            *text = h5::hdf5_type_info<std::string>::finalize(std::move(*text));
+        }
         return std::move(value);
     }
     static auto get_address(mara::config_parameter_t& value) -> void*
diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index dcaf458..958fa6c 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -478,7 +478,7 @@ struct h5::hdf5_type_info<std::string>
     static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
     static auto convert_to_writable(const native_type& value) { return value; }
     static auto prepare(const Datatype& type, const Dataspace&) { return native_type(type.size(), 0); }
-    static auto finalize(native_type&& value) { return std::move(value); }
+    static auto finalize(native_type&& value) { return value == native_type(1, 0) ? native_type() : std::move(value); } // an empty string is stored as one null character
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
 };
-- 
2.43.0

