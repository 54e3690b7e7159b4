From 66e1f90a8f8cd7aebcb866d6be53d490488bede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 01/42] fix: Tree.is_valid must reject graphs that are not a
 rooted binary tree

---
 include/tnco/tree.hpp | 56 ++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index c5bd046..71e6f34 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -82,7 +82,9 @@ struct Tree {
     }
 
     // Get number of leaves
-    const auto n_leaves = this->n_leaves();
+    const auto n_leaves = static_cast<size_t>(
+        std::count_if(std::begin(nodes), std::end(nodes),
+                      [](auto &&node) -> auto { return node.is_leaf(); }));
 
     // All leaves must appear at the beginning
     if (static_cast<size_t>(std::count_if(
@@ -97,40 +99,28 @@ struct Tree {
               "Number of nodes is not constenst with the number of leaves."};
     }
 
-    {
-      std::vector<size_t> count_parents(size());
-      std::vector<size_t> count_children(size());
-      std::for_each(std::begin(nodes), std::end(nodes),
-                    [&count_parents, &count_children](auto &&node) -> auto {
-                      if (!node.is_leaf()) {
-                        count_children[node.children[0]] += 1;
-                        count_children[node.children[1]] += 1;
-                      }
-                      if (!node.is_root()) {
-                        count_parents[node.parent] += 1;
-                      }
-                    });
-
-      // No leaves should be the parent of any nodes. All the other nodes must
-      // have two children
-      if (!std::transform_reduce(std::begin(count_parents),
-                                 std::end(count_parents), std::begin(nodes),
-                                 true, std::logical_and<bool>{},
-                                 [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_leaf() ? 0 : 2;
-                                 })) {
-        return {false, "Tree is not valid."};
+    // Visit all the nodes starting from the root. Every node must be the parent
+    // of its own children (hence, no node can be visited twice) ...
+    size_t n_visited = 0;
+    std::vector<size_t> stack{size() - 1};
+    while (!std::empty(stack)) {
+      const auto pos = stack.back();
+      stack.pop_back();
+      ++n_visited;
+      if (const auto &node = nodes[pos]; !node.is_leaf()) {
+        for (const auto &child : node.children) {
+          if (nodes[child].parent !=
+              static_cast<typename node_type::index_type>(pos)) {
+            return {false, "Tree is not valid."};
+          }
+          stack.push_back(child);
+        }
       }
+    }
 
-      // All nodes, excluding root, should be the child of a single node
-      if (!std::transform_reduce(std::begin(count_children),
-                                 std::end(count_children), std::begin(nodes),
-                                 true, std::logical_and<bool>{},
-                                 [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_root() ? 0 : 1;
-                                 })) {
-        return {false, "Tree is not valid."};
-      }
+    // ... and every node must be reachable from the root
+    if (n_visited != size()) {
+      return {false, "Tree is not valid."};
     }
 
     // Everything, OK
-- 
2.43.0


From c3499ec13ca3027cf51f26bb22c8921201f768b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 02/42] fix: float1024.isinf and float1024.signbit must not
 return isnan

---
 include/tnco/fixed_float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index e88ada9..521b8fc 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -575,9 +575,10 @@ void init(py::module &m, const std::string &name) {
            [](const self_type &self, const long double &other) -> auto {
              return self >= other;
            })
-      .def("isinf", [](const self_type &self) -> auto { return isnan(self); })
+      .def("isinf", [](const self_type &self) -> auto { return isinf(self); })
       .def("isnan", [](const self_type &self) -> auto { return isnan(self); })
-      .def("signbit", [](const self_type &self) -> auto { return isnan(self); })
+      .def("signbit",
+           [](const self_type &self) -> auto { return signbit(self); })
       .def(py::pickle(
           [](const self_type &self) -> std::string { return dump(self); },
           [](const std::string &state) -> auto {
-- 
2.43.0


From 3c11b8301cd578b0cbea52538afc135b911c02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 03/42] fix: finite-width update crashed when new slices were
 exhausted or sparse

---
 .../optimize/finite_width/greedy/optimizer.hpp    | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index e6b7380..7f68a77 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -239,7 +239,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
           // Keep adding new random slices until the sliced width is not larger
           // than max_width
-          while (n_new_slices < max_number_new_slices &&
+          while (n_pos > 0 && n_new_slices < max_number_new_slices &&
                  new_sliced_width_B > p_cmodel->max_width) {
             // Get a random position
             std::swap(pos[this->prng() % n_pos], pos[n_pos - 1]);
@@ -252,16 +252,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
             new_slices.set(pos[n_pos - 1]);
 
             // Update sliced width
-            std::visit(
-                [&new_sliced_width_B, &pos, &n_pos](auto &&log2_dims) -> auto {
-                  if constexpr (std::is_arithmetic_v<
-                                    std::decay_t<decltype(log2_dims)>>) {
-                    new_sliced_width_B -= log2_dims;
-                  } else {
-                    new_sliced_width_B -= log2_dims[pos[n_pos - 1]];
-                  }
-                },
-                dims_cache.log2_dims);
+            new_sliced_width_B = p_cmodel->width(new_inds_B - new_slices, dims);
 
             // Update number of available slices
             --n_pos;
@@ -277,7 +268,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ASSERT(abs(p_cmodel->width(new_inds_B - new_slices, dims) -
                      new_sliced_width_B) < 1e-5,
                  "Error when getting new slices.");
-          ASSERT(n_new_slices >= max_number_new_slices ||
+          ASSERT(n_pos == 0 || n_new_slices >= max_number_new_slices ||
                      new_sliced_width_B <= p_cmodel->max_width,
                  "New slices are not enough to reduce width.");
         }
-- 
2.43.0


From 021cddd980dcc587c38c6c3e7398fe15adf458b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 04/42] fix: finite-width Optimizer lost max_number_new_slices
 when pickled

---
 tnco/optimize/finite_width/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tnco/optimize/finite_width/optimizer.py b/tnco/optimize/finite_width/optimizer.py
index 2f43094..b9fcd02 100644
--- a/tnco/optimize/finite_width/optimizer.py
+++ b/tnco/optimize/finite_width/optimizer.py
@@ -88,6 +88,9 @@ class Optimizer:
         # Save model
         self._cmodel = cmodel
 
+        # Save maximum number of new slices
+        self._max_number_new_slices = max_number_new_slices
+
         # Save cache
         self._ctree_cache = (ctree.dims, ctree._n_tensors, ctree._tensors_pos,
                              ctree._inds_order)
@@ -332,9 +335,10 @@ class Optimizer:
     @staticmethod
     def __build__(*args):
         (ctree, cmodel, prng_state, disable_shared_inds, min_ctree, slices,
-         min_slices, skip_slices) = args
+         min_slices, skip_slices, max_number_new_slices) = args
         return Optimizer(ctree,
                          cmodel,
+                         max_number_new_slices=max_number_new_slices,
                          seed=prng_state,
                          disable_shared_inds=disable_shared_inds,
                          skip_slices=skip_slices,
@@ -345,7 +349,8 @@ class Optimizer:
     def __reduce__(self):
         return self.__build__, (self.ctree, self.cmodel, self.prng_state,
                                 self.disable_shared_inds, self.min_ctree,
-                                self.slices, self.min_slices, self.skip_slices)
+                                self.slices, self.min_slices, self.skip_slices,
+                                self._max_number_new_slices)
 
     def __repr__(self) -> str:
         return "Optimizer(ctree={}, cmodel={})".format(self.ctree, self.cmodel)
-- 
2.43.0


From 9eed23c46c04acf32f23fcf0e2e690547e0cf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 05/42] fix: DimsCache.is_close_to compared a value with itself

---
 include/tnco/optimize/finite_width/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/optimize/finite_width/utils.hpp b/include/tnco/optimize/finite_width/utils.hpp
index 8651939..61c5d89 100644
--- a/include/tnco/optimize/finite_width/utils.hpp
+++ b/include/tnco/optimize/finite_width/utils.hpp
@@ -113,7 +113,7 @@ struct DimsCache {
     // If both are floats
     if (px_ == nullptr && py_ == nullptr) {
       return tnco::utils::is_close(std::get<float_type>(log2_dims),
-                                   std::get<float_type>(log2_dims), atol);
+                                   std::get<float_type>(cache.log2_dims), atol);
     }
 
     // At this point, they should have different types
-- 
2.43.0


From 13a112a05dcc6676323dee11405d12e3d69fbec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 06/42] fix: dump_results must refuse to compress without a
 filename

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 79f964c..9cf0efe 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -649,7 +649,7 @@ def dump_results(tn: TensorNetwork,
     output_compression = str(output_compression).lower()
     if output_compression not in ['auto', 'none', 'bz2', 'gzip']:
         raise ValueError(f'"{output_compression=}" not supported.')
-    if output_compression not in ['auto', 'none'] and not output_compression:
+    if output_compression not in ['auto', 'none'] and not output_filename:
         raise ValueError(
             "Output can be compressed only if 'output_filename' is provided.")
 
-- 
2.43.0


From dc7d214a10d7e86d42b8fc06cc2c31a4b87a4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 07/42] fix: load_file must return binary data which is not
 valid utf-8

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 9cf0efe..4737f14 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -128,7 +128,7 @@ def load_file(filename: str) -> Any:
         # Is json?
         try:
             return json.loads(binary.decode())
-        except json.JSONDecodeError:
+        except (json.JSONDecodeError, UnicodeDecodeError):
             pass
 
         # Is text?
-- 
2.43.0


From 8a8babc6b4577aba560bb93ef842202cdff96320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 08/42] fix: equal OrderedFrozenSets must have the same hash

---
 tnco/ordered_frozenset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/ordered_frozenset.py b/tnco/ordered_frozenset.py
index d82a00e..ff558cd 100644
--- a/tnco/ordered_frozenset.py
+++ b/tnco/ordered_frozenset.py
@@ -52,7 +52,7 @@ class OrderedFrozenSet:
         return iter(self._order)
 
     def __hash__(self) -> int:
-        return hash(self._order)
+        return hash(self._set)
 
     def __len__(self) -> int:
         return len(self._order)
-- 
2.43.0


From 83d5d0a20f61983ff521443633d0116348f596bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 09/42] fix: sample of a qiskit circuit called load instead of
 sample

---
 tnco/app/circuit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 7b2d19f..07e384a 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -402,7 +402,7 @@ try:
 
     @sample.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-        return load(
+        return sample(
             qiskit_to_arrays(circuit,
                              dtype=kwargs.get('dtype', None),
                              backend=kwargs.get('backend', None)), *args,
-- 
2.43.0


From 7e15720dec42f686ad2d9c33342144aca4fe2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 10/42] fix: Parallel hung and leaked shared memory when the
 core raised

---
 tnco/parallel.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index f6e211d..f505937 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -14,6 +14,7 @@
 """Parallelization utilities."""
 
 import itertools as its
+from contextlib import ExitStack
 from multiprocessing.shared_memory import SharedMemory
 from struct import calcsize, pack_into, unpack_from
 from threading import TIMEOUT_MAX, Thread, Timer
@@ -21,7 +22,6 @@ from time import sleep
 from typing import Any, Callable, Iterable, Optional, Tuple, Union
 from warnings import warn
 
-import more_itertools as mit
 from rich.console import Console
 from rich.progress import Progress, TextColumn, TimeElapsedColumn
 
@@ -236,17 +236,23 @@ def Parallel(core: Callable[..., Any],
             stop[idx] = True
 
     timer = Timer(TIMEOUT_MAX if timeout is None else timeout, timer_helper)
+
+    # Stop timer and close buffers at the end, even if 'core' fails
+    cleanup = ExitStack()
+    for buffer in (status, completed, stop, *buffers.values()):
+        cleanup.callback(buffer.shm.unlink)
+    cleanup.callback(timer.cancel)
     timer.start()
 
-    with Progress(TextColumn('[blue][{task.fields[idx]}/' + str(len(args)) +
-                             ']'),
-                  *Progress.get_default_columns(),
-                  TimeElapsedColumn(),
-                  TextColumn(text),
-                  console=Console(stderr=True),
-                  disable=(verbose <= 1),
-                  auto_refresh=False,
-                  transient=not leave) as progress:
+    with cleanup, Progress(TextColumn('[blue][{task.fields[idx]}/' +
+                                      str(len(args)) + ']'),
+                           *Progress.get_default_columns(),
+                           TimeElapsedColumn(),
+                           TextColumn(text),
+                           console=Console(stderr=True),
+                           disable=(verbose <= 1),
+                           auto_refresh=False,
+                           transient=not leave) as progress:
 
         # Update progressbar
         def update_progress():
@@ -346,14 +352,5 @@ def Parallel(core: Callable[..., Any],
         if verbose >= 2:
             updater.join()
 
-    # Close buffers
-    status.shm.unlink()
-    completed.shm.unlink()
-    stop.shm.unlink()
-    mit.consume(map(lambda buffer: buffer.shm.unlink(), buffers.values()))
-
-    # Stop timer
-    timer.cancel()
-
     # Return results
     return results
-- 
2.43.0


From 222eb4026e0a2a0d592d967a83b939f92c0ceb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 11/42] fix: ContractionTree dropped the first contraction of
 an iterator path

---
 tnco/ctree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tnco/ctree.py b/tnco/ctree.py
index 7ddd39d..d1b11d7 100644
--- a/tnco/ctree.py
+++ b/tnco/ctree.py
@@ -79,6 +79,7 @@ class ContractionTree(_ContractionTree):
             raise TypeError("Got unexpected keyword arguments.")
 
         # Convert to list
+        path = list(path)
         ts_inds = list(ts_inds)
 
         # If a list of nodes has been provide, use it as 'ctree'
-- 
2.43.0


From 6c455d8aeb945567ce753c6a5ea22ea8696f4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 12/42] fix: unsupported cost/width types must raise
 NotImplementedError

---
 tnco/optimize/finite_width/cost_model.py    | 4 ++--
 tnco/optimize/infinite_memory/cost_model.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index ea7c6de..c340e2f 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -89,11 +89,11 @@ class SimpleCostModel(BaseCostModel):
         width_type = str(width_type).lower()
         if width_type not in ['float32', 'float64', 'float128']:
             raise NotImplementedError(
-                f"'width_type={self.width_type}' not available.")
+                f"'{width_type=}' not available.")
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'{cost_type=}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
diff --git a/tnco/optimize/infinite_memory/cost_model.py b/tnco/optimize/infinite_memory/cost_model.py
index d9424d0..7ef3f36 100644
--- a/tnco/optimize/infinite_memory/cost_model.py
+++ b/tnco/optimize/infinite_memory/cost_model.py
@@ -73,7 +73,7 @@ class SimpleCostModel(BaseCostModel):
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'{cost_type=}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
-- 
2.43.0


From 14a5558146053a1d24e22ee0112de6836d7e9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 13/42] fix: decompose_hyper_inds ignored atol after the first
 decomposition

---
 tnco/utils/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index bee9edc..00e7f9c 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -139,7 +139,10 @@ def decompose_hyper_inds(
                 ()), _hyper_inds
 
     # Call again
-    return decompose_hyper_inds(array, inds, _hyper_inds=_hyper_inds)
+    return decompose_hyper_inds(array,
+                                inds,
+                                atol=atol,
+                                _hyper_inds=_hyper_inds)
 
 
 def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
-- 
2.43.0


From 739e8f89d6d7a850c55e6ac25c64c19f5c364780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 14/42] fix: decompose_hyper_inds lost indices of constant
 tensors

A constant tensor lost all its indices even if an index was left with less
than two tensors: output indices disappeared, and closed loops lost the
factor given by the dimension of the index.
---
 tnco/utils/tn.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 77ca73e..5abdf19 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -799,7 +799,8 @@ def decompose_hyper_inds(
             - **hyper_inds_map**: Mapping from original to new indices.
     """
     # Get all available inds
-    ts_inds = list(ts_inds)
+    arrays = list(map(fts.partial(ar.do, 'asarray'), arrays))
+    ts_inds = list(map(tuple, ts_inds))
     all_inds = OrderedFrozenSet(mit.flatten(ts_inds))
 
     # New tn
@@ -852,6 +853,16 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # A tensor which is constant loses its indices. However, an index must be
+    # kept if there are not enough tensors left to contract it
+    n_left = Counter(mit.flatten(new_ts_inds))
+    for pos, (array, inds) in enumerate(zip(arrays, ts_inds)):
+        for x, d in zip(map(hyper_inds_map.get, inds), array.shape):
+            if x not in new_ts_inds[pos] and n_left[x] < 2:
+                new_arrays[pos] = ar.do(
+                    'stack', [new_arrays[pos]] * d, axis=-1)
+                new_ts_inds[pos] += (x,)
+
     # Return the decomposed tensors
     return new_arrays, new_ts_inds, hyper_inds_map
 
-- 
2.43.0


From 29a3aa8c34c90ac32d5ab2371857a5e0cbbf7c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 15/42] fix: contract and merge_contraction_paths failed with
 iterator paths

---
 tnco/utils/tn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 5abdf19..1cd187f 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -334,6 +334,9 @@ def merge_contraction_paths(n_tensors: int,
         >>> merge_contraction_paths(4, paths)
         [(0, 1), (0, 1), (0, 1)]
     """
+    # Convert paths to lists
+    paths = list(map(list, paths))
+
     # Initialize merged path and positions
     merged_pos = list(range(n_tensors))
     merged_path = []
@@ -920,7 +923,8 @@ def contract(
     if dims is None and arrays is None:
         raise ValueError("Either 'dims' or 'arrays' must be provided.")
 
-    # Get indices
+    # Get path and indices
+    path = list(path)
     ts_inds = list(map(tuple, ts_inds))
 
     # Convert int to dict
-- 
2.43.0


From 5111e0efad840af56befae78d31c715f78520431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 16/42] fix: optimize failed if betas was an iterator

---
 tnco/app/finite_width/sa.py    | 2 ++
 tnco/app/infinite_memory/sa.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index ff018da..05850a5 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -168,6 +168,8 @@ class Optimizer(BaseOptimizer):
                     "with 'beta_ini != beta_end'.")
             betas = mit.numeric_range(betas[0], betas[1],
                                       (betas[1] - betas[0]) / n_steps)
+        else:
+            betas = list(mit.take(n_steps, betas) if n_steps else betas)
 
         # Get contraction cost
         cmodel = SimpleCostModel(max_width=self.max_width,
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 7c18f0e..1d7e7f2 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -150,6 +150,8 @@ class Optimizer(BaseOptimizer):
                     "with 'beta_ini != beta_end'.")
             betas = mit.numeric_range(betas[0], betas[1],
                                       (betas[1] - betas[0]) / n_steps)
+        else:
+            betas = list(mit.take(n_steps, betas) if n_steps else betas)
 
         # Get contraction cost
         cmodel = SimpleCostModel(cost_type=self.cost_type,
-- 
2.43.0


From 054ee5d72d49e1528cc94a38589375688d7e311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 17/42] fix: sampling rejected phase gates because of rounding
 errors

---
 tnco/app/circuit/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 07e384a..b8575b9 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -47,7 +47,7 @@ def is_classical_operation(m: Matrix) -> bool:
         ``True`` if ``m`` is a classical operation.
     """
     m = ar.do('asarray', m)
-    if m.ndim != 2 or m.shape[0] != m.shape[1] and int(math.log2(
+    if m.ndim != 2 or m.shape[0] != m.shape[1] or int(math.log2(
             m.shape[0])) != math.log2(m.shape[0]):
         return False
 
@@ -59,7 +59,7 @@ def is_classical_operation(m: Matrix) -> bool:
         return False
 
     # All elements should be one, excluding a phase
-    if not all(abs(m)[m != 0] == 1):
+    if not ar.do('allclose', abs(m)[m != 0], 1):
         return False
 
     # Excluding a phase change, it's a permutation
-- 
2.43.0


From 882efc297bf9a8d388d504eae4dc19f471a08cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:56 +0000
Subject: [PATCH 18/42] fix: ContractionTree accepted equal dimensions in the
 wrong number

---
 include/tnco/ctree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tnco/ctree.hpp b/include/tnco/ctree.hpp
index 81a9d8f..2b7798e 100644
--- a/include/tnco/ctree.hpp
+++ b/include/tnco/ctree.hpp
@@ -79,10 +79,10 @@ struct ContractionTree : TreeType {
     // Convert to int if possible
     if (const auto *const p_ = std::get_if<dims_vec_type>(&this->dims)) {
       if (const auto &dims_ = *p_;
-          std::size(dims_) && std::all_of(std::begin(dims_), std::end(dims_),
-                                          [d = dims_[0]](auto &&dim) -> auto {
-                                            return dim == d;
-                                          })) {
+          std::size(dims_) && std::size(dims_) == n_inds &&
+          std::all_of(
+              std::begin(dims_), std::end(dims_),
+              [d = dims_[0]](auto &&dim) -> auto { return dim == d; })) {
         const auto dim_ = dims_[0];
         this->dims = dim_;
       }
-- 
2.43.0


From f6a782b5441750add80771138dbab3f893c9149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 19/42] fix: svd hung if the index drawn from the seed was
 already used

---
 tnco/utils/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index 00e7f9c..369727d 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -318,8 +318,9 @@ def svd(array: Array,
 
     # If svd_index_name is not provided, generate a random one
     if svd_index_name is None:
+        rng = Random(seed)
         while (svd_index_name :=
-               ''.join(Random(seed).choices(ascii_letters, k=10))) in inds:
+               ''.join(rng.choices(ascii_letters, k=10))) in inds:
             pass
 
     # If left_inds is empty or equal to inds, just return
-- 
2.43.0


From 78648f4b608f580d348fc0d898b583bec539a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 20/42] fix: decompose_hyper_inds treated nearly constant
 tensors as constant

---
 tnco/utils/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index 369727d..8481877 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -134,7 +134,8 @@ def decompose_hyper_inds(
                   list(map(lambda x: array[x, x], range(array.shape[0]))))
 
     # In permutations, all elements in 'array' are the same
-    if array.size and ar.do('allclose', array, array.ravel()[0], atol=atol):
+    if array.size and ar.do(
+            'allclose', array, array.ravel()[0], rtol=0, atol=atol):
         return (array.ravel()[0] * ar.do('ones_like', array, shape=()),
                 ()), _hyper_inds
 
-- 
2.43.0


From 8561b72644d602dcb3bdbd86ac92803301274a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 21/42] fix: decompose_hyper_inds returned tensors with
 repeated indices

---
 tnco/utils/tn.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 1cd187f..925c395 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -856,6 +856,17 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # Indices of a tensor may have been merged because of other tensors. In this
+    # case, only the diagonal is left
+    for pos, (array, inds) in enumerate(zip(new_arrays, new_ts_inds)):
+        while (x := next(mit.duplicates_everseen(inds), None)) is not None:
+            i, j = mit.take(2, mit.locate(inds, lambda y: y == x))
+            others = tuple(k for k in range(len(inds)) if k not in (i, j))
+            array = array.transpose((i, j) + others)
+            array = ar.do('stack', [array[k, k] for k in range(len(array))])
+            inds = (x,) + tuple(inds[k] for k in others)
+        new_arrays[pos], new_ts_inds[pos] = array, inds
+
     # A tensor which is constant loses its indices. However, an index must be
     # kept if there are not enough tensors left to contract it
     n_left = Counter(mit.flatten(new_ts_inds))
-- 
2.43.0


From 9a1d357d32fa8af61ba09d3b26d7efc35f9589c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 22/42] fix: circuit states were refused in single precision

---
 tnco/utils/circuit.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tnco/utils/circuit.py b/tnco/utils/circuit.py
index fc4dee4..adb02c7 100644
--- a/tnco/utils/circuit.py
+++ b/tnco/utils/circuit.py
@@ -296,19 +296,24 @@ def load(circuit: Iterable[Tuple[Matrix, Tuple[Qubit]]],
                        if isinstance(x, str)):
                 raise ValueError("State has not supported tokens.")
 
-            # Convert state
-            state = dict(
-                ((q, tag), valid_token[x] if isinstance(x, str) else ar.
-                 do('asarray', x, dtype=dtype, like=backend))
-                for q, x in state.items()
-                if q in qubits)
+            # Remove unknown qubits
+            state = dict((q, x) for q, x in state.items() if q in qubits)
 
-            # Check states
+            # Check states (before changing their type, which may be less
+            # precise than 'atol')
             if not all(
                     x.shape == (2,) and abs(ar.do('linalg.norm', x) - 1) < atol
-                    for x in state.values()):
+                    for x in (ar.do('asarray', x, like=backend)
+                              for x in state.values()
+                              if not isinstance(x, str))):
                 raise ValueError("State is not properly normalized.")
 
+            # Convert state
+            state = dict(
+                ((q, tag), valid_token[x] if isinstance(x, str) else ar.
+                 do('asarray', x, dtype=dtype, like=backend))
+                for q, x in state.items())
+
             return state
 
         raise NotImplementedError("State not supported.")
-- 
2.43.0


From e6357b25d01b5107ad9fa1c5d7d49b8b7ce973d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 23/42] fix: the progress bar thread of Parallel outlived a
 failing call

---
 tnco/parallel.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index f505937..de29fcc 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -252,7 +252,7 @@ def Parallel(core: Callable[..., Any],
                            console=Console(stderr=True),
                            disable=(verbose <= 1),
                            auto_refresh=False,
-                           transient=not leave) as progress:
+                           transient=not leave) as progress, ExitStack() as end:
 
         # Update progressbar
         def update_progress():
@@ -313,6 +313,16 @@ def Parallel(core: Callable[..., Any],
             updater = Thread(target=update_progress, daemon=True)
             updater.start()
 
+            # Close progressbar at the end, even if 'core' fails
+            def close_progress():
+                timer.cancel()
+                timer.join()
+                for idx in range(n_runs):
+                    completed[idx] = True
+                updater.join()
+
+            end.callback(close_progress)
+
         def core_(*args, idx, **kwargs):
             # Get results
             results = core(*args, idx=idx, **kwargs)
@@ -348,9 +358,5 @@ def Parallel(core: Callable[..., Any],
                                           **xs[-1],
                                           **buffers), range(n_runs), args))
 
-        # Close progressbar
-        if verbose >= 2:
-            updater.join()
-
     # Return results
     return results
-- 
2.43.0


From 14e6d9e756574198581ab54687a9c16dc04e90fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 24/42] fix: networks with sparse indices and several
 components were refused by the optimizers

---
 tnco/app/finite_width/sa.py    | 21 ++++++++++++++-------
 tnco/app/infinite_memory/sa.py | 17 ++++++++++++-----
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index 05850a5..a833e48 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -172,11 +172,15 @@ class Optimizer(BaseOptimizer):
             betas = list(mit.take(n_steps, betas) if n_steps else betas)
 
         # Get contraction cost
-        cmodel = SimpleCostModel(max_width=self.max_width,
-                                 cost_type=self.cost_type,
-                                 width_type=self.width_type,
-                                 sparse_inds=tn.sparse_inds,
-                                 n_projs=n_projs)
+        def get_cmodel(sparse_inds):
+            return SimpleCostModel(max_width=self.max_width,
+                                   cost_type=self.cost_type,
+                                   width_type=self.width_type,
+                                   sparse_inds=sparse_inds,
+                                   n_projs=n_projs)
+
+        # Check parameters
+        get_cmodel(tn.sparse_inds)
 
         # Get probability
         prob = MetropolisHastings(cost_type=self.cost_type)
@@ -209,8 +213,11 @@ class Optimizer(BaseOptimizer):
                                         output_inds=tn.output_inds,
                                         check_shared_inds=True)
 
-                # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                # Get optimizer (using only the sparse indices in the component)
+                opt = OptimizerImpl(ctree,
+                                    get_cmodel(tn.sparse_inds &
+                                               ctree.all_inds()),
+                                    seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 1d7e7f2..b2cde84 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -154,9 +154,13 @@ class Optimizer(BaseOptimizer):
             betas = list(mit.take(n_steps, betas) if n_steps else betas)
 
         # Get contraction cost
-        cmodel = SimpleCostModel(cost_type=self.cost_type,
-                                 sparse_inds=tn.sparse_inds,
-                                 n_projs=n_projs)
+        def get_cmodel(sparse_inds):
+            return SimpleCostModel(cost_type=self.cost_type,
+                                   sparse_inds=sparse_inds,
+                                   n_projs=n_projs)
+
+        # Check parameters
+        get_cmodel(tn.sparse_inds)
 
         # Get probability
         prob = MetropolisHastings(cost_type=self.cost_type)
@@ -186,8 +190,11 @@ class Optimizer(BaseOptimizer):
                                         output_inds=tn.output_inds,
                                         check_shared_inds=True)
 
-                # Get optimizer
-                opt = OptimizerImpl(ctree, cmodel, seed=seed)
+                # Get optimizer (using only the sparse indices in the component)
+                opt = OptimizerImpl(ctree,
+                                    get_cmodel(tn.sparse_inds &
+                                               ctree.all_inds()),
+                                    seed=seed)
 
                 # Start clock
                 runtime = perf_counter()
-- 
2.43.0


From 101836f285690c4dccef3ddd49e9fcaa368e9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 25/42] fix: costs of components were missing for networks of
 scalars

---
 tnco/app/finite_width/sa.py    | 4 ++++
 tnco/app/infinite_memory/sa.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index a833e48..89070c3 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -250,6 +250,10 @@ class Optimizer(BaseOptimizer):
             # Get total runtime
             results['runtime_s'] = sum(results['runtime_s'])
 
+            # Get disconnected costs
+            if not results['disconnected_costs']:
+                results['disconnected_costs'] = [0] * len(tn)
+
             # Get disconnected paths
             if not results['disconnected_paths']:
                 results['disconnected_paths'] = [()] * len(tn)
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index b2cde84..6c54d7c 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -226,6 +226,10 @@ class Optimizer(BaseOptimizer):
             # Get total runtime
             results['runtime_s'] = sum(results['runtime_s'])
 
+            # Get disconnected costs
+            if not results['disconnected_costs']:
+                results['disconnected_costs'] = [0] * len(tn)
+
             # Get disconnected paths
             if not results['disconnected_paths']:
                 results['disconnected_paths'] = [()] * len(tn)
-- 
2.43.0


From a2bd57efaddeeeaf07a640978921df5fcc19a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 26/42] fix: combining bitsets of different sizes aborted the
 interpreter

---
 include/tnco/bitset.hpp | 48 ++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/include/tnco/bitset.hpp b/include/tnco/bitset.hpp
index ef4eea3..6042f78 100644
--- a/include/tnco/bitset.hpp
+++ b/include/tnco/bitset.hpp
@@ -119,15 +119,37 @@ struct Bitset : boost::dynamic_bitset<T...> {
 template <typename... T>
 void init(py::module &m, const std::string &name) {
   using self_type = Bitset<T...>;
+  // Bitsets of different size cannot be combined
+  const auto check = [](const self_type &self, const self_type &other) {
+    if (std::size(self) != std::size(other)) {
+      throw std::invalid_argument("Bitsets have different sizes.");
+    }
+  };
   py::class_<self_type>(m, name.c_str())
       .def(py::init<>())
       .def(py::init<const std::vector<size_t> &, size_t>(), "positions"_a,
            "size"_a)
       .def(py::init<const std::string &>())
-      .def("__and__", &self_type::operator&)
-      .def("__or__", &self_type::operator|)
-      .def("__xor__", &self_type::operator^)
-      .def("__sub__", &self_type::operator-)
+      .def("__and__",
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
+             return self & other;
+           })
+      .def("__or__",
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
+             return self | other;
+           })
+      .def("__xor__",
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
+             return self ^ other;
+           })
+      .def("__sub__",
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
+             return self - other;
+           })
       .def("__eq__",
            [](const self_type &self, const self_type &other) -> auto {
              return self == other;
@@ -137,27 +159,33 @@ void init(py::module &m, const std::string &name) {
              return !self.intersects(other);
            })
       .def("issubset",
-           [](const self_type &self, const self_type &other) -> auto {
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
              return self.is_subset_of(other);
            })
       .def("issuperset",
-           [](const self_type &self, const self_type &other) -> auto {
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
              return other.is_subset_of(self);
            })
       .def("__le__",
-           [](const self_type &self, const self_type &other) -> auto {
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
              return self.is_subset_of(other);
            })
       .def("__ge__",
-           [](const self_type &self, const self_type &other) -> auto {
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
              return other.is_subset_of(self);
            })
       .def("__lt__",
-           [](const self_type &self, const self_type &other) -> auto {
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
              return self.is_proper_subset_of(other);
            })
       .def("__gt__",
-           [](const self_type &self, const self_type &other) -> auto {
+           [check](const self_type &self, const self_type &other) -> auto {
+             check(self, other);
              return other.is_proper_subset_of(self);
            })
       .def("__invert__", [](const self_type &self) -> auto { return ~self; })
-- 
2.43.0


From 8d6b049a34ac03215e71343e06446904c45ffaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 27/42] fix: extended-precision numbers compared equal to
 not-a-number

---
 include/tnco/fixed_float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 521b8fc..695fd02 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -134,27 +134,27 @@ struct FixedFloat {
   }
 
   auto operator==(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) == 0;
+    return mpfr_equal_p(_x, x._x);
   }
 
   auto operator!=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) != 0;
+    return !mpfr_equal_p(_x, x._x);
   }
 
   auto operator>(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) > 0;
+    return mpfr_greater_p(_x, x._x);
   }
 
   auto operator>=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) >= 0;
+    return mpfr_greaterequal_p(_x, x._x);
   }
 
   auto operator<(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) < 0;
+    return mpfr_less_p(_x, x._x);
   }
 
   auto operator<=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) <= 0;
+    return mpfr_lessequal_p(_x, x._x);
   }
 
   template <typename T>
-- 
2.43.0


From f593449b88fd6f688647500f0b3524dd37db5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 28/42] fix: malformed text was accepted as an
 extended-precision number

---
 include/tnco/fixed_float.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 695fd02..4266d28 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -47,7 +47,9 @@ struct FixedFloat {
   FixedFloat(long double x) : FixedFloat() { mpfr_set_ld(_x, x, rounding); }
 
   FixedFloat(const std::string &x, const int base = 10) : FixedFloat() {
-    mpfr_set_str(_x, x.data(), base, rounding);
+    if (mpfr_set_str(_x, x.data(), base, rounding) != 0) {
+      throw std::invalid_argument("Not a valid number: '" + x + "'.");
+    }
   }
 
   FixedFloat(const mpfr_t &x) : FixedFloat() { mpfr_set(_x, x, rounding); }
-- 
2.43.0


From 8f86cd5bc35867c2a192bdac635cb7523501ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 29/42] fix: extended-precision numbers were rounded twice when
 converted to double

---
 include/tnco/fixed_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 4266d28..83f7526 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -429,7 +429,7 @@ void init(py::module &m, const std::string &name) {
              return to_string(self, fmt);
            })
       .def("__float__",
-           [](const self_type &self) -> auto { return (long double)(self); })
+           [](const self_type &self) -> auto { return (double)(self); })
       .def("__repr__",
            [](const self_type &self) -> auto { return to_string(self); })
       .def("__str__",
-- 
2.43.0


From 5079779c7307a68d48aff0e173b6b21e54a6f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 30/42] fix: costs of networks with a single dimension were
 limited to double precision

---
 include/tnco/optimize/infinite_memory/cost_model/simple.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
index a9b5d01..5dc45ee 100644
--- a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
+++ b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
@@ -42,7 +42,11 @@ template <typename CostType, typename Bitset, typename DimsType>
     -> CostType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return std::pow(dims, inds.count());
+    CostType cost_{1};
+    for (size_t n_ = inds.count(); n_ > 0; --n_) {
+      cost_ *= dims;
+    }
+    return cost_;
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
-- 
2.43.0


From 04475c0dffad88d314c4e6f8e8c9a8fb7d584815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 31/42] fix: the change of width of adding an index was refused

---
 tnco/optimize/finite_width/cost_model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index c340e2f..91a7032 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -238,15 +238,12 @@ class SimpleCostModel(BaseCostModel):
         # Convert to tuple
         inds = tuple(inds)
 
-        # Check index
-        if index not in inds:
-            raise ValueError("'index' not in 'inds'.")
+        # Get all inds
+        all_inds = inds if index in inds else inds + (index,)
 
         # Get position of the index
-        index_pos = inds.index(index)
+        index_pos = all_inds.index(index)
 
-        # Get all inds
-        all_inds = inds
         if self.sparse_inds is not None:
             all_inds = tuple(
                 mit.unique_everseen(all_inds + tuple(self.sparse_inds)))
-- 
2.43.0


From 9833a9d3323419d99768a998739ee4f4815bad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 32/42] fix: load_file took content beginning with BZ for bzip2
 data

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 4737f14..08bad35 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -122,7 +122,7 @@ def load_file(filename: str) -> Any:
             return load(gzip.decompress(binary))
 
         # Is bzip?
-        if binary[:2] == b'BZ':
+        if re.match(rb'BZh[1-9](1AY&SY|\x17rE8P\x90)', binary):
             return load(bz2.decompress(binary))
 
         # Is json?
-- 
2.43.0


From c896bed57df79dbde96d2f22075fd7683cec3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 33/42] fix: load_tn raised OverflowError and LookupError on
 unsupported data

---
 tnco/app/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 08bad35..2461778 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -264,7 +264,7 @@ def load_tn(obj: Any,
     def is_int(x):
         try:
             return int(x) == x
-        except (ValueError, TypeError):
+        except (ValueError, TypeError, OverflowError):
             return False
 
     # Check if hashable
@@ -283,7 +283,7 @@ def load_tn(obj: Any,
             len(x)
             x[0]
             return True
-        except TypeError:
+        except (TypeError, LookupError):
             return False
 
     # Is it an iterator?
-- 
2.43.0


From 971472e83d1141195d574e4abdc9e65cfa73dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 34/42] fix: load_tn failed on text with nothing but comments

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 2461778..39c162e 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -425,7 +425,7 @@ def load_tn(obj: Any,
         # Is it a QASM circuit? Let's load 'cirq' only if needed.
         if mit.first(
                 filter(lambda x: len(x) and not x.startswith('//'),
-                       obj.splitlines())).upper().startswith('OPENQASM'):
+                       obj.splitlines()), '').upper().startswith('OPENQASM'):
             from cirq.contrib.qasm_import import circuit_from_qasm
             return load_tn(circuit_from_qasm(obj), **options)
 
-- 
2.43.0


From ad148e860207444dac73f7f436f9e917fbcbbc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 35/42] fix: load_tn failed on long strings which are no file
 names

---
 tnco/app/app.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 39c162e..39ae3e0 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -449,10 +449,11 @@ def load_tn(obj: Any,
         # Is it a file?
         try:
             validate_filepath(obj, platform='auto')
-            if Path(obj).exists():
-                return load_tn(load_file(obj), **options)
-        except ValidationError:
-            pass
+            is_file = Path(obj).exists()
+        except (ValidationError, OSError):
+            is_file = False
+        if is_file:
+            return load_tn(load_file(obj), **options)
 
         # Is it JSON?
         try:
-- 
2.43.0


From 302214ceeaf9a7184c15692d9ae1f3663db92202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 36/42] fix: dump_results emptied the file before failing to
 pickle

---
 tnco/app/app.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 39ae3e0..0d22dc8 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -694,9 +694,11 @@ def dump_results(tn: TensorNetwork,
             # Return
             return None
 
-        # Otherwise, dump it as pickle
+        # Otherwise, dump it as pickle (before opening the file, so that nothing
+        # is overwritten if the output cannot be pickled)
+        output = pickle.dumps(output)
         with open(output_filename, 'w' if compress_ else 'bw') as file_:
-            pickle.dump(output, file_)
+            file_.write(output)
 
         # Return
         return None
-- 
2.43.0


From 79f7c3ccfef6cb9c250152e84ca29365aea1c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 37/42] fix: JSON results lacked the costs of the components

---
 tnco/app/finite_width/sa.py    | 1 +
 tnco/app/infinite_memory/sa.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index 89070c3..6b27a57 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -55,6 +55,7 @@ class JSONEncoder(BaseJSONEncoder):
             return tuple(obj)
         if isinstance(obj, ContractionResults):
             return dict(**BaseJSONEncoder().default(obj),
+                        disconnected_costs=obj.disconnected_costs,
                         disconnected_paths=obj.disconnected_paths,
                         disconnected_slices=obj.disconnected_slices,
                         slices=obj.slices)
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 6c54d7c..f34d617 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -50,6 +50,7 @@ class JSONEncoder(BaseJSONEncoder):
         """
         if isinstance(obj, ContractionResults):
             return dict(**BaseJSONEncoder().default(obj),
+                        disconnected_costs=obj.disconnected_costs,
                         disconnected_paths=obj.disconnected_paths)
         if hasattr(obj, 'to_json'):
             return obj.to_json()
-- 
2.43.0


From 59648ae6e5ec797e6edf570cf6e1634c4e0b5096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 38/42] fix: comparing tensors of different shapes raised
 ValueError

---
 tnco/app/tn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tnco/app/tn.py b/tnco/app/tn.py
index f011119..dc17051 100644
--- a/tnco/app/tn.py
+++ b/tnco/app/tn.py
@@ -137,12 +137,16 @@ class Tensor:
             raise ValueError("'dims' are not consistent with 'array'.")
 
     def __eq__(self, other: Any, *, atol: float = 1e-5) -> bool:
+        if not isinstance(other, Tensor):
+            return NotImplemented
+        if self.inds != other.inds or self.dims != other.dims:
+            return False
         if (self.array is None) ^ (other.array is None):
             return False
         if self.array is not None and not all(
                 abs(self.array - other.array).ravel() < atol):
             return False
-        return self.inds == other.inds and self.dims == other.dims
+        return True
 
     def __repr__(self) -> str:
         return 'Tensor(ndim={}, array={}{}{})'.format(
-- 
2.43.0


From 49a436df3c594b58f7889dfb8ea9df10d7193a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 39/42] fix: get_symbol returned surrogates

---
 tnco/utils/tn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 925c395..2a95c64 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -266,8 +266,8 @@ def get_symbol(i: int) -> str:
     # Skip Unicode surrogates (0xD800-0xDFFF) 55296 is the start of the
     # surrogate range (0xD800). Add 2048 to skip past the entire surrogate
     # block (2048 chars)
-    elif i >= 55296:
-        return chr(i + 2048)
+    elif i + 140 >= 55296:
+        return chr(i + 140 + 2048)
 
     # Start at 192 (0xC0)
     # 52 + 140 = 192
-- 
2.43.0


From 406b19277472d97fe3a35f3759d2725ec9acb690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 40/42] fix: widths of sliced tensors accumulated rounding
 errors

---
 .../finite_width/greedy/optimizer.hpp         |  8 +++----
 .../optimize/finite_width/greedy/utils.hpp    | 23 ++++++++-----------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 7f68a77..88cc82a 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -87,8 +87,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
         slices{slices.has_value()
                    ? std::move(slices.value())
                    : greedy::utils::get_slices<bitset_type>(
-                         this->ctree, WRAP(*p_cmodel, width),
-                         WRAP(*p_cmodel, delta_width), p_cmodel->max_width,
+                         this->ctree, WRAP(*p_cmodel, width), p_cmodel->max_width,
                          this->skip_slices, this->prng, width_cache.width,
                          dims_cache.log2_dims)},
         min_slices{min_slices.has_value() ? std::move(min_slices.value())
@@ -346,9 +345,8 @@ struct Optimizer : optimize::optimizer::Optimizer {
     if (update_slices && slices.any()) {
       // Get new slices
       auto new_slices = greedy::utils::get_slices<bitset_type>(
-          this->ctree, WRAP(*p_cmodel, width), WRAP(*p_cmodel, delta_width),
-          p_cmodel->max_width, skip_slices, this->prng, width_cache.width,
-          dims_cache.log2_dims);
+          this->ctree, WRAP(*p_cmodel, width), p_cmodel->max_width, skip_slices,
+          this->prng, width_cache.width, dims_cache.log2_dims);
 
       // Get new cost
       auto new_cost_cache = cost_cache_type{
diff --git a/include/tnco/optimize/finite_width/greedy/utils.hpp b/include/tnco/optimize/finite_width/greedy/utils.hpp
index f179d7d..dde2a8b 100644
--- a/include/tnco/optimize/finite_width/greedy/utils.hpp
+++ b/include/tnco/optimize/finite_width/greedy/utils.hpp
@@ -18,12 +18,10 @@
 
 namespace tnco::optimize::finite_width::greedy::utils {
 
-template <typename Bitset, typename CTree, typename GetWidth,
-          typename GetDeltaWidth, typename MaxWidth, typename PRNG,
-          typename Width, typename Log2Dims>
+template <typename Bitset, typename CTree, typename GetWidth, typename MaxWidth,
+          typename PRNG, typename Width, typename Log2Dims>
 [[nodiscard]] auto get_slices_impl(const CTree &ctree,
                                    const GetWidth &get_width,
-                                   const GetDeltaWidth &get_delta_width,
                                    const MaxWidth &max_width,
                                    const std::optional<Bitset> &skip_slices,
                                    PRNG &prng, const Width &width,
@@ -91,12 +89,14 @@ template <typename Bitset, typename CTree, typename GetWidth,
           // Update slices
           slices.set(xpos);
 
-          // Get the new width
-          sliced_width += get_delta_width(sliced_xs, ctree.dims, xpos);
-
           // Update indices
           sliced_xs.reset(xpos);
 
+          // Get the new width (from scratch: summing up the changes of width
+          // accumulates rounding errors, and the width may look small enough
+          // when it is not)
+          sliced_width = get_width(sliced_xs, ctree.dims);
+
           // Break if slices are enough
           if (sliced_width <= max_width) {
             break;
@@ -124,11 +124,9 @@ template <typename Bitset, typename CTree, typename GetWidth,
   return slices;
 }
 
-template <typename Bitset, typename CTree, typename GetWidth,
-          typename GetDeltaWidth, typename MaxWidth, typename PRNG,
-          typename Width, typename Log2Dims>
+template <typename Bitset, typename CTree, typename GetWidth, typename MaxWidth,
+          typename PRNG, typename Width, typename Log2Dims>
 [[nodiscard]] auto get_slices(const CTree &ctree, const GetWidth &get_width,
-                              const GetDeltaWidth &get_delta_width,
                               const MaxWidth &max_width,
                               const std::optional<Bitset> &skip_slices,
                               PRNG &&prng, const Width &width,
@@ -139,8 +137,7 @@ template <typename Bitset, typename CTree, typename GetWidth,
     -> Bitset {
   return std::visit(
       [&](auto &&dims) -> auto {
-        return get_slices_impl<Bitset>(ctree, get_width, get_delta_width,
-                                       max_width, skip_slices,
+        return get_slices_impl<Bitset>(ctree, get_width, max_width, skip_slices,
                                        std::forward<PRNG>(prng), width, dims);
       },
       log2_dims);
-- 
2.43.0


From ba3602981abea4f5d48f093289c2929ca85d2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 41/42] fix: contraction trees of different tensors compared
 equal

---
 tnco/ctree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tnco/ctree.py b/tnco/ctree.py
index d1b11d7..eaa724c 100644
--- a/tnco/ctree.py
+++ b/tnco/ctree.py
@@ -262,7 +262,10 @@ class ContractionTree(_ContractionTree):
                                  self._inds_order))
 
     def __eq__(self, other: Any) -> bool:
-        return super().__eq__(other) and self._inds_order == other._inds_order
+        # Trees of the same contraction may still refer to different tensors
+        return super().__eq__(other) and all(
+            map(lambda x: getattr(self, x) == getattr(other, x),
+                ('_inds_order', '_n_tensors', '_tensors_pos')))
 
     def __repr__(self) -> str:
         return f'ContractionTree(n_nodes={len(self)}, n_inds={self.n_inds})'
-- 
2.43.0


From 2f999e5b24d14100d7f2b31fa9c47ca7e8abe9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 42/42] fix: comparing cost models of different kinds raised
 AttributeError

---
 tnco/optimize/finite_width/cost_model.py    | 2 +-
 tnco/optimize/infinite_memory/cost_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index 91a7032..2839776 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -369,7 +369,7 @@ class SimpleCostModel(BaseCostModel):
         return repr_
 
     def __eq__(self, other):
-        return all(
+        return isinstance(other, SimpleCostModel) and all(
             map(lambda x: getattr(self, x) == getattr(other, x),
                 ('max_width', 'cost_type', 'width_type', 'sparse_inds',
                  'n_projs')))
diff --git a/tnco/optimize/infinite_memory/cost_model.py b/tnco/optimize/infinite_memory/cost_model.py
index 7ef3f36..dd84cbb 100644
--- a/tnco/optimize/infinite_memory/cost_model.py
+++ b/tnco/optimize/infinite_memory/cost_model.py
@@ -216,6 +216,6 @@ class SimpleCostModel(BaseCostModel):
         return repr_
 
     def __eq__(self, other):
-        return all(
+        return isinstance(other, SimpleCostModel) and all(
             map(lambda x: getattr(self, x) == getattr(other, x),
                 ('cost_type', 'sparse_inds', 'n_projs')))
-- 
2.43.0

