From 7e4742ca580f7dfa3fc99a5aaf1cfc1ea5d4abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 01/43] Add guarded verification hooks (QDD_VERIF): small
 tables, schedule and trace points

---
 include/cache.hpp |  8 ++++++++
 include/common.h  | 33 +++++++++++++++++++++++++++++++++
 include/table.hpp | 10 ++++++++++
 src/dd.cpp        |  7 +++++++
 4 files changed, 58 insertions(+)

diff --git a/include/cache.hpp b/include/cache.hpp
index 396b41e..7aed36e 100644
--- a/include/cache.hpp
+++ b/include/cache.hpp
@@ -219,6 +219,7 @@ class AddCache{
                 #endif
                 if constexpr(std::is_same_v<T, mEdge>){
                     if(e.valid && e.lhs.m == l && e.rhs.m ==r){
+                        QDD_VERIF_POINT(QDD_CACHE_FIND, 0, -1, 0, l.n, r.n);
                         if(e.result.m.getVar() != -2){
                             hits++;
                             return e.result.m;
@@ -236,6 +237,7 @@ class AddCache{
                     }
                 }else{
                     if(e.valid && e.lhs.v == l && e.rhs.v ==r){
+                        QDD_VERIF_POINT(QDD_CACHE_FIND, 1, -1, 0, l.n, r.n);
                         if(e.result.v.getVar() != -2){
                             hits++;
                             return e.result.v;
@@ -263,10 +265,12 @@ class AddCache{
                     if constexpr(std::is_same_v<T, mEdge>){
                         e.lhs.m = l;
                         e.rhs.m = r;
+                        QDD_VERIF_POINT(QDD_CACHE_SET, 0, -1, 0, l.n, r.n);
                         e.result.m = res;
                     }else{
                         e.lhs.v = l;
                         e.rhs.v = r;
+                        QDD_VERIF_POINT(QDD_CACHE_SET, 1, -1, 0, l.n, r.n);
                         e.result.v = res;
                     }
                     e.valid = true;
@@ -483,6 +487,7 @@ class MulCache{
                         std::shared_lock<std::shared_mutex> lock(e._mtx);
                         #endif
                         if(e.valid && e.lhs == l && e.rhs == r){
+                            QDD_VERIF_POINT(QDD_CACHE_FIND, 2, -1, 0, lp, rp);
                             if(e.result.m.getVar() != -2){
                                 hits++;
                                 e.picked++;
@@ -510,6 +515,7 @@ class MulCache{
                         std::shared_lock<std::shared_mutex> lock(e._mtx);
                     #endif
                         if(e.valid && e.lhs == l && e.rhs == r){
+                            QDD_VERIF_POINT(QDD_CACHE_FIND, 3, -1, 0, lp, rp);
                             if(e.result.v.getVar() != -2){
                                 hits++;
                                 e.picked++;
@@ -542,6 +548,7 @@ class MulCache{
                         mNode* rp = reinterpret_cast<mNode*>(r); 
                         e.lhs = l;
                         e.rhs = r;
+                        QDD_VERIF_POINT(QDD_CACHE_SET, 2, -1, 0, lp, rp);
                         e.result.m = res;
                         e.picked = 1;
                     }else{
@@ -549,6 +556,7 @@ class MulCache{
                         vNode* rp = reinterpret_cast<vNode*>(r); 
                         e.lhs = l;
                         e.rhs = r;
+                        QDD_VERIF_POINT(QDD_CACHE_SET, 3, -1, 0, lp, rp);
                         e.result.v = res;
                         e.picked = 1;
                     }
diff --git a/include/common.h b/include/common.h
index 88e95c2..ec7056f 100644
--- a/include/common.h
+++ b/include/common.h
@@ -23,12 +23,45 @@
 #define cas(ptr, old, new) (__sync_bool_compare_and_swap((ptr),(old),(new)))
 #endif
 
+// Schedule and trace points. They do nothing unless a verification build
+// (-DQDD_VERIF) installs a function in qdd_verif_point.
+#ifdef QDD_VERIF
+enum QddVerifPoint {
+    QDD_LOOKUP_ENTER,     // before a bucket of a unique table is locked
+    QDD_LOOKUP_LOCKED,    // the bucket is locked
+    QDD_LOOKUP_HIT,       // an equal node was found, the bucket is still locked
+    QDD_LOOKUP_MISS,      // no equal node was found, nothing is stored yet
+    QDD_LOOKUP_INSERTED,  // the node is stored, the bucket is still locked
+    QDD_CACHE_FIND,       // an entry of an operation cache matched its key
+    QDD_CACHE_SET,        // the key of a cache entry is written, its result is not
+    QDD_TASK_RESUMED      // all subtasks of a parallel step have been joined
+};
+extern void (*qdd_verif_point)(int kind, int table, int level,
+                               std::size_t bucket, const void *node,
+                               const void *stored);
+#define QDD_VERIF_POINT(kind, table, level, bucket, node, stored)             \
+    do {                                                                      \
+        if (qdd_verif_point)                                                  \
+            qdd_verif_point(kind, table, level, bucket, node, stored);        \
+    } while (0)
+#else
+#define QDD_VERIF_POINT(kind, table, level, bucket, node, stored)
+#endif
+
 using duration_micro = std::chrono::duration<double, std::micro>;
 
 const std::size_t NQUBITS = 100;
+#if defined(QDD_VERIF) && defined(QDD_VERIF_NBUCKETS)
+// Verification builds shrink the tables, so that collisions, evictions and
+// growth of the node pools happen all the time.
+const std::size_t NBUCKETS = QDD_VERIF_NBUCKETS;
+const std::size_t INITIAL_ALLOCATION_SIZE = QDD_VERIF_ALLOC;
+const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = QDD_VERIF_ALLOC;
+#else
 const std::size_t NBUCKETS = 524288;
 const std::size_t INITIAL_ALLOCATION_SIZE = 1024*2;
 const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = 1024*8;
+#endif
 const std::size_t GROWTH_FACTOR = 2;
 
 using Qubit = int32_t;
diff --git a/include/table.hpp b/include/table.hpp
index 53deba1..ef0ddfc 100644
--- a/include/table.hpp
+++ b/include/table.hpp
@@ -98,13 +98,17 @@ class CHashTable {
     T *lookup(T *node) {
         const auto key = Hash()(*node) % NBUCKETS;
         const Qubit v = node->v;
+        QDD_VERIF_POINT(QDD_LOOKUP_ENTER, TABLE_ID, v, key, node, nullptr);
         #ifdef isMT
         while (_tables[v]._table[key].locked.test_and_set(std::memory_order_acquire));
         #endif        
+        QDD_VERIF_POINT(QDD_LOOKUP_LOCKED, TABLE_ID, v, key, node, nullptr);
         T *current = _tables[v]._table[key].node;
 
         if (current == nullptr) {
+            QDD_VERIF_POINT(QDD_LOOKUP_MISS, TABLE_ID, v, key, node, nullptr);
             _tables[v]._table[key].node = node;
+            QDD_VERIF_POINT(QDD_LOOKUP_INSERTED, TABLE_ID, v, key, node, node);
             #ifdef isMT
             _tables[v]._table[key].locked.clear(std::memory_order_release);
             #endif
@@ -115,6 +119,7 @@ class CHashTable {
             if (ValueEqual()(*node, *current)) {
                 assert(current->v == node->v);
 
+                QDD_VERIF_POINT(QDD_LOOKUP_HIT, TABLE_ID, v, key, node, current);
                 returnNode(node);
 
                 #ifdef isMT
@@ -125,9 +130,11 @@ class CHashTable {
             current = current->previous;
         }
 
+        QDD_VERIF_POINT(QDD_LOOKUP_MISS, TABLE_ID, v, key, node, nullptr);
         node->previous = _tables[v]._table[key].node;
         _tables[v]._table[key].node->next = node;
         _tables[v]._table[key].node = node;
+        QDD_VERIF_POINT(QDD_LOOKUP_INSERTED, TABLE_ID, v, key, node, node);
         #ifdef isMT
         _tables[v]._table[key].locked.clear(std::memory_order_release);
         #endif
@@ -149,6 +156,9 @@ class CHashTable {
     }
 
   private:
+#ifdef QDD_VERIF
+    static constexpr int TABLE_ID = std::is_same_v<T, mNode> ? 0 : 1;
+#endif
 
     struct NodeSlot {
         T *node;
diff --git a/src/dd.cpp b/src/dd.cpp
index 8527000..f0314a5 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -33,6 +33,11 @@
 
 #define SUBTASK_THRESHOLD 5
 
+#ifdef QDD_VERIF
+void (*qdd_verif_point)(int, int, int, std::size_t, const void *,
+                        const void *) = nullptr;
+#endif
+
 mNodeTable mUnique(NQUBITS);
 vNodeTable vUnique(NQUBITS);
 std::unordered_map<vNode *, double> probs;
@@ -1177,6 +1182,7 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
         assert(sums.size() == 2);
         edges[0] = sums[0].get();
         edges[1] = sums[1].get();
+        QDD_VERIF_POINT(QDD_TASK_RESUMED, 1, current_var, 0, lhs.n, rhs.n);
     }
 #endif
     result = makeVEdge(current_var, edges);
@@ -1450,6 +1456,7 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
         if (current_var > LIMIT) {
             product[0] = products[0].get();
             product[1] = products[1].get();
+            QDD_VERIF_POINT(QDD_TASK_RESUMED, 3, current_var, 0, lhs.n, rhs.n);
         }
 #endif
         edges[i] = vv_add2(product[0], product[1], current_var - 1);
-- 
2.43.0


From 0f1c7dfe09fede97174f3939eabbdda497220c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 02/43] fix: save and load the root weight of a state vector

save_binary dropped the weight of the root edge and load_binary replaced it
by one, so a reloaded state lost its global factor.
---
 src/dd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f0314a5..5c969cc 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2178,18 +2178,21 @@ void save_binary(vEdge edge, std::string file_name) {
     int nNodes = vNode_to_vec(edge.n, v, map);
     std::ofstream binary_ofs(file_name);
     boost::archive::binary_oarchive binary_oa(binary_ofs);
+    binary_oa << edge.w;
     binary_oa << v;
     binary_ofs.close();
     std::cout << "nNodes=" << nNodes << std::endl;
 }
 
 vEdge load_binary(std::string file_name) {
+    std_complex w;
     std::vector<vContent> v;
     std::ifstream binary_ifs(file_name);
     boost::archive::binary_iarchive binary_ia(binary_ifs);
+    binary_ia >> w;
     binary_ia >> v;
     binary_ifs.close();
-    vEdge result = {{1.0, 0.0}, vec_to_vNode(v, vUnique)};
+    vEdge result = {w, vec_to_vNode(v, vUnique)};
     return result;
 }
 #endif
-- 
2.43.0


From ca49522249adb859b1ff0a7ec87f36140735b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 03/43] fix: complete the non-blocking transfers of a state
 vector

receive_dd decoded its buffers before the non-blocking receives had filled
them, and send_dd released its buffers while they were still being sent.
---
 src/dd.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 5c969cc..8bfb4a7 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2310,8 +2310,10 @@ vEdge receive_dd(boost::mpi::communicator &world, int source_node_id,
         world.recv(source_node_id, 0, w);
         world.recv(source_node_id, 1, v);
     } else {
-        world.irecv(source_node_id, 0, w);
-        world.irecv(source_node_id, 1, v);
+        auto reqW = world.irecv(source_node_id, 0, w);
+        auto reqV = world.irecv(source_node_id, 1, v);
+        reqW.wait();
+        reqV.wait();
     }
     return {w, vec_to_vNode(v, vUnique)};
 }
@@ -2325,8 +2327,10 @@ void send_dd(boost::mpi::communicator &world, vEdge e, int dest_node_id,
         world.send(dest_node_id, 0, e.w);
         world.send(dest_node_id, 1, v);
     } else {
-        world.isend(dest_node_id, 0, e.w);
-        world.isend(dest_node_id, 1, v);
+        auto reqW = world.isend(dest_node_id, 0, e.w);
+        auto reqV = world.isend(dest_node_id, 1, v);
+        reqW.wait();
+        reqV.wait();
     }
     return;
 };
-- 
2.43.0


From 868dd7a8749e4baa8ac96b4d6dd078bdddd78ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 04/43] fix: build the index map of an n-qubit gate from its
 targets only

The loop ran once per matrix row: it read past the end of the target list
and needed 2^(2^n) entries, so gates on five or more qubits could not be built.
---
 src/dd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8bfb4a7..e55a4f7 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -537,7 +537,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         [&targets](size_t a, size_t b) { return targets[a] < targets[b]; });
     std::vector<std::size_t> conversionMap;
     conversionMap.push_back(0);
-    for (int i = 0; i < rows; i++) {
+    for (int i = 0; i < target_compresed.size(); i++) {
         size_t addition = 1 << target_compresed[i];
         int rep = conversionMap.size();
         for (int j = 0; j < rep; j++) {
-- 
2.43.0


From 5feb5696955d372bbf8fc96d11261b1c7b97ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 05/43] fix: compare a register condition with the register's
 own bits

The bits of the condition value were selected by the circuit-wide index of
each classical bit, which is only right for a register at offset 0.
---
 qdd/qdd_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 269829b..1efcf1b 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -718,9 +718,9 @@ class QddBackend(BackendV1):
                         if val_cbit[self.get_cID(classical)] != str(int(val)):
                             skip = True
                     else:
-                        for clbit in classical:
+                        for pos, clbit in enumerate(classical):
                             idx = self.get_cID(clbit)
-                            if val_cbit[idx] != str((val >> idx) & 1):
+                            if val_cbit[idx] != str((val >> pos) & 1):
                                 skip = True
                                 break
                 if skip:
-- 
2.43.0


From 97bfdbf5290007966da587f57798ae5591461cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 06/43] fix: a conditional measurement needs shot-by-shot
 simulation

It was treated like an unconditional final measurement.
---
 qdd/qdd_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1efcf1b..988a5f1 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1098,6 +1098,8 @@ class QddBackend(BackendV1):
                 # (Multi-target measurements (Measure([...], [...]) is decomposed to single-target measurement gates.)
                 clbit_final_values[cargs[0]] = qargs[0]
                 measured_qubits |= set(qargs)
+                if inst.condition is not None:
+                    stable_final_state = False
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From 7c4aab75bf1153b1737d3e43139ea1eeeb1f5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 07/43] fix: report shots=None probabilities per value of the
 classical bits

The probabilities of the qubit states were returned under the qubits' index,
whatever was measured into which bit.  For circuits with mid-circuit
measurement or reset the product of marginals was returned, which is not the
distribution; such circuits are now rejected like classical conditions.
---
 qdd/qdd_backend.py | 76 +++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 988a5f1..1175338 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -683,22 +683,16 @@ class QddBackend(BackendV1):
             sampled_values = [None] * options["shots"]
         #        print(len(circ.data), " gates")
 
-        if options["shots"] is None:
-            has_classical_condition = False
-            for i, qargs, cargs in circ.data:
-                if i.condition is not None:
-                    has_classical_condition = True
-                    break
-            if has_classical_condition:
-                raise RuntimeError(
-                    "ERROR: Classical condition is not supported when shots=None"
-                )
+        if options["shots"] is None and circ_prop.stable_final_state == False:
+            raise RuntimeError(
+                "ERROR: Only circuits whose measurements are all final are supported"
+                " when shots=None"
+            )
 
         reps = 1
         if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
             reps = options["shots"]
 
-        prob_cbit = [0] * n_cbit
         for shot in range(reps):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
             global_list = sorted(list(global_set))
@@ -897,30 +891,17 @@ class QddBackend(BackendV1):
                         qiskit_gate_type == Measure
                         and circ_prop.stable_final_state == False
                     ):
-                        if options["shots"]:
-                            current, val_cbit[self.get_cID(cargs[0])] = (
-                                pyQDD.measureOneCollapsing(
-                                    current, map_after_swap[self.get_qID(qargs[0])]
-                                )
-                                if use_mpi == False
-                                else pyQDD.measureOneCollapsingMPI(
-                                    current,
-                                    map_after_swap[self.get_qID(qargs[0])],
-                                    n_qubit,
-                                )
+                        current, val_cbit[self.get_cID(cargs[0])] = (
+                            pyQDD.measureOneCollapsing(
+                                current, map_after_swap[self.get_qID(qargs[0])]
                             )
-                        else:
-                            current, prob_cbit[self.get_cID(cargs[0])] = (
-                                pyQDD.measureOne(
-                                    current, map_after_swap[self.get_qID(qargs[0])]
-                                )
-                                if use_mpi == False
-                                else pyQDD.measureOneMPI(
-                                    current,
-                                    map_after_swap[self.get_qID(qargs[0])],
-                                    n_qubit,
-                                )
+                            if use_mpi == False
+                            else pyQDD.measureOneCollapsingMPI(
+                                current,
+                                map_after_swap[self.get_qID(qargs[0])],
+                                n_qubit,
                             )
+                        )
                     elif (
                         qiskit_gate_type == Reset
                         and circ_prop.stable_final_state == False
@@ -1004,23 +985,22 @@ class QddBackend(BackendV1):
                 )
 
         else:
-            if circ_prop.stable_final_state:
-                prob = (
-                    pyQDD.probabilities(current)
-                    if use_mpi == False
-                    else pyQDD.probabilitiesMPI(current)
-                )
-            else:
-                prob = [1] * (2**n_cbit)
-                for i in range(2**n_cbit):
-                    for j in range(n_cbit):
-                        if i & (1 << j):
-                            prob[i] *= 1 - prob_cbit[j]
-                        else:
-                            prob[i] *= prob_cbit[j]
+            prob = (
+                pyQDD.probabilities(current)
+                if use_mpi == False
+                else pyQDD.probabilitiesMPI(current)
+            )
+            # sum up the probabilities of the qubit states that give the same classical bits
+            bit_map = [
+                (self.get_cID(cbit), map_after_swap[self.get_qID(qubit)])
+                for cbit, qubit in circ_prop.clbit_final_values.items()
+            ]
             probabilities = {}
             for i, p in enumerate(prob):
-                probabilities[i] = p
+                outcome = 0
+                for cbit_id, qubit_id in bit_map:
+                    outcome |= ((i >> qubit_id) & 1) << cbit_id
+                probabilities[outcome] = probabilities.get(outcome, 0) + p
             result_data: Dict[str, Any] = {"probabilities": probabilities}
             if self._save_SV:
                 result_data["statevector"] = (
-- 
2.43.0


From aa53d42f819510d86709866add20cf1947299f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 08/43] fix: honour the control state of controlled gates

A control on |0> was treated like a control on |1>.
---
 qdd/bindings.cpp   | 37 ++++++++++++++++++++++++++++++++++++-
 qdd/qdd_backend.py | 19 +++++++++++++++----
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 0f8c115..31af2c9 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -56,11 +56,15 @@ std::vector<std::complex<double>> _getVector(vEdge &rootEdge) {
     return result;
 }
 
-Controls get_controls(std::vector<Qubit> qs) {
+Controls get_controls(std::vector<Qubit> qs,
+                      const std::vector<Qubit> neg_qs = {}) {
     Controls controls;
     for (Qubit q : qs) {
         controls.emplace(Control{q, Control::Type::pos});
     }
+    for (Qubit q : neg_qs) {
+        controls.emplace(Control{q, Control::Type::neg});
+    }
     return controls;
 }
 
@@ -79,12 +83,31 @@ mEdge makeGate(QubitCount q, std::string name, Qubit target,
     return makeGate(q, gateMap[name], target, controls);
 }
 
+mEdge makeGate(QubitCount q, GateMatrix m, Qubit target,
+               const std::vector<Qubit> controls,
+               const std::vector<Qubit> neg_controls) {
+    return makeGate(q, m, target, get_controls(controls, neg_controls));
+}
+
+mEdge makeGate(QubitCount q, std::string name, Qubit target,
+               const std::vector<Qubit> controls,
+               const std::vector<Qubit> neg_controls) {
+    return makeGate(q, gateMap[name], target, controls, neg_controls);
+}
+
 mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix m, Qubit target0,
                        Qubit target1, const std::vector<Qubit> controls) {
     Controls c = get_controls(controls);
     return makeTwoQubitGate(q, m, target0, target1, c);
 }
 
+mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix m, Qubit target0,
+                       Qubit target1, const std::vector<Qubit> controls,
+                       const std::vector<Qubit> neg_controls) {
+    return makeTwoQubitGate(q, m, target0, target1,
+                            get_controls(controls, neg_controls));
+}
+
 mEdge applyGlobal(mEdge org, double angle){
     mEdge result = org;
     Complex e = {std::cos(angle), std::sin(angle)};
@@ -229,6 +252,14 @@ PYBIND11_MODULE(pyQDD, m) {
              py::overload_cast<QubitCount, std::string, Qubit>(&makeGate))
         .def("makeGate",
              py::overload_cast<QubitCount, std::string, Qubit,
+                               const std::vector<Qubit>>(&makeGate))
+        .def("makeGate",
+             py::overload_cast<QubitCount, GateMatrix, Qubit,
+                               const std::vector<Qubit>,
+                               const std::vector<Qubit>>(&makeGate))
+        .def("makeGate",
+             py::overload_cast<QubitCount, std::string, Qubit,
+                               const std::vector<Qubit>,
                                const std::vector<Qubit>>(&makeGate));
     m.def("RX", RX).def("RY", RY).def("RZ", RZ).def("CX", CX);
     m.def("rxmat", rx)
@@ -246,6 +277,10 @@ PYBIND11_MODULE(pyQDD, m) {
               &makeTwoQubitGate))
         .def("makeTwoQubitGate",
              py::overload_cast<QubitCount, TwoQubitGateMatrix, Qubit, Qubit,
+                               const std::vector<Qubit>>(&makeTwoQubitGate))
+        .def("makeTwoQubitGate",
+             py::overload_cast<QubitCount, TwoQubitGateMatrix, Qubit, Qubit,
+                               const std::vector<Qubit>,
                                const std::vector<Qubit>>(&makeTwoQubitGate));
     m.def("RXX", RXX)
         .def("RYY", RYY)
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1175338..c370b89 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -421,6 +421,14 @@ class QddBackend(BackendV1):
     def get_cID(self, cbit):
         return self.cbitmap[cbit]
 
+    @staticmethod
+    def _split_controls(gate, controls):
+        """Splits the control qubits into those conditioned on 1 and those conditioned on 0."""
+        ctrl_state = getattr(gate, "ctrl_state", 2 ** len(controls) - 1)
+        pos = [q for j, q in enumerate(controls) if (ctrl_state >> j) & 1]
+        neg = [q for j, q in enumerate(controls) if not (ctrl_state >> j) & 1]
+        return pos, neg
+
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
@@ -460,7 +468,10 @@ class QddBackend(BackendV1):
                             i.params[0], i.params[1], i.params[2], i.params[3]
                         )
                     gate = pyQDD.makeGate(
-                        n_qubit, matrix, self.get_qID(qargs[-1]), controls
+                        n_qubit,
+                        matrix,
+                        self.get_qID(qargs[-1]),
+                        *self._split_controls(i, controls),
                     )
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_2q:
@@ -476,7 +487,7 @@ class QddBackend(BackendV1):
                         matrix,
                         self.get_qID(qargs[-1]),
                         self.get_qID(qargs[-2]),
-                        controls,
+                        *self._split_controls(i, controls),
                     )
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
@@ -779,7 +790,7 @@ class QddBackend(BackendV1):
                             n_qubit,
                             matrix,
                             map_after_swap[self.get_qID(qargs[-1])],
-                            controls,
+                            *self._split_controls(i, controls),
                         )
                         current = (
                             pyQDD.mv_multiply(gate, current)
@@ -819,7 +830,7 @@ class QddBackend(BackendV1):
                             matrix,
                             map_after_swap[self.get_qID(qargs[-1])],
                             map_after_swap[self.get_qID(qargs[-2])],
-                            controls,
+                            *self._split_controls(i, controls),
                         )
                         current = (
                             pyQDD.mv_multiply(gate, current)
-- 
2.43.0


From 276e9ef2ee4bd4d76c1ef9070db62acf37764dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 09/43] fix: reject unsupported instructions whose condition
 does not hold

A conditional or control-flow instruction was skipped before its type was
looked at, so circuits with e.g. if_test ran without it.
---
 qdd/qdd_backend.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index c370b89..aa4c8fc 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1078,6 +1078,20 @@ class QddBackend(BackendV1):
         # Note: a measure gate with broadcast parameters, e.g., Measure(0, [0, 1]), is decomposed into
         # two measure gates: Measure(0, 0) and Measure(0, 1).
         # Note: all the quantum channel instructions (e.g., Choi, SuperOp, Kraus, ...) have the name of 'kraus'.
+        for inst in circ.data:
+            # whether or not its condition will hold, an unsupported instruction is an error
+            inst_type = inst.operation.base_class
+            if inst_type not in _supported_qiskit_gates and inst_type not in (
+                Barrier,
+                Measure,
+                Reset,
+            ):
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={inst_type.__name__}, name={inst.operation.name}."
+                    f" It needs to transpile the circuit before evaluating it."
+                )
+
         stable_final_state: bool = True
         measured_qubits = set()
         clbit_final_values: Dict[Clbit, Qubit] = (
-- 
2.43.0


From 5ccce164acaba33c22613b1046119966c829174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 10/43] fix: pass qubit indices when merging a unitary gate

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index aa4c8fc..05117ab 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -492,7 +492,7 @@ class QddBackend(BackendV1):
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
-                    targets = qargs
+                    targets = [self.get_qID(q) for q in qargs]
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-- 
2.43.0


From c9988d241adbf5be17fc61aac2962ab2fc576ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 11/43] fix: merge_circuit rejects what it cannot merge

Unsupported gates and resets were left out silently, and conditional gates
were merged unconditionally.
---
 qdd/qdd_backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 05117ab..e80a890 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -446,6 +446,15 @@ class QddBackend(BackendV1):
                 continue
             assert len(cargs) == 0
 
+            if (
+                qiskit_gate_type not in _supported_qiskit_gates
+                or i.condition is not None
+            ):
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={qiskit_gate_type.__name__}, name={i.name}."
+                    f" It cannot be merged into an operator."
+                )
             if qiskit_gate_type in _supported_qiskit_gates:
                 if qiskit_gate_type in _qiskit_gates_1q:
                     controls = []
-- 
2.43.0


From 5c45e037ca2b6a685b9cc45cc5e36ebefd6523a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 12/43] fix: apply a merged operator to the qubits it is
 appended to

The qubits of a QDDGate were ignored: it always acted on the lowest ones.
---
 qdd/qdd_backend.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index e80a890..9255271 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -429,6 +429,19 @@ class QddBackend(BackendV1):
         neg = [q for j, q in enumerate(controls) if not (ctrl_state >> j) & 1]
         return pos, neg
 
+    @staticmethod
+    def _place_operator(n_qubit, gate, qubits):
+        """Moves an operator on qubits 0, 1, ... to the given qubits."""
+        where = list(range(n_qubit))
+        for k, target in enumerate(qubits):
+            source = where[k]
+            if source != target:
+                swap = pyQDD.SWAP(n_qubit, source, target)
+                gate = pyQDD.mm_multiply(swap, pyQDD.mm_multiply(gate, swap))
+                where[where.index(target)] = source
+                where[k] = target
+        return gate
+
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
@@ -505,7 +518,9 @@ class QddBackend(BackendV1):
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-                    gate = i.params[0]
+                    gate = self._place_operator(
+                        n_qubit, i.params[0], [self.get_qID(q) for q in qargs]
+                    )
                     current = pyQDD.mm_multiply(gate, current)
                 else:
                     raise RuntimeError(
@@ -892,7 +907,9 @@ class QddBackend(BackendV1):
                             )
                         )
                     elif qiskit_gate_type in _qdd_gate:
-                        gate = i.params[0]
+                        gate = self._place_operator(
+                            n_qubit, i.params[0], [self.get_qID(q) for q in qargs]
+                        )
                         if use_mpi and use_auto_swap:
                             current, map_after_swap = self.restore_swap(
                                MPI, current, circ, map_after_swap, use_bcast
-- 
2.43.0


From 41c6a07978f6af4e976ede81255edc809318b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 13/43] fix: honour seed_simulator

The option was accepted and ignored.
---
 qdd/bindings.cpp   |  7 +++++++
 qdd/qdd_backend.py | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 31af2c9..50e26c0 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -4,6 +4,7 @@
 #include <pybind11/stl.h>
 
 #include <map>
+#include <optional>
 #ifdef isMPI
 #include <boost/mpi/collectives.hpp>
 #endif
@@ -29,6 +30,11 @@ std::map<std::string, GateMatrix> gateMap{
 std::random_device rd;
 std::mt19937_64 mt(rd());
 
+// Restarts the random number generator, unpredictably if no seed is given.
+void seed_generator(std::optional<std::uint64_t> seed) {
+    mt.seed(seed ? *seed : rd());
+}
+
 std::pair<vEdge, std::string> _measureAll(vEdge &rootEdge, bool collapse) {
     std::string result = measureAll(rootEdge, collapse, mt);
     return std::pair<vEdge, std::string>(rootEdge, result);
@@ -308,6 +314,7 @@ PYBIND11_MODULE(pyQDD, m) {
     m.def("getVector", _getVector);
     m.def("probabilities", _probabilities);
     m.def("measureOne", _measureOne);
+    m.def("seed", seed_generator);
 
     // Others
     m.def("genDot", py::overload_cast<vEdge &>(&genDot))
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 9255271..171f412 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -376,10 +376,18 @@ class QddBackend(BackendV1):
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
 
-        results = [
-            self._evaluate_circuit(circ, circ_prop, experiments.options)
-            for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-        ]
+        seed = experiments.options["seed_simulator"]
+        if seed is not None:
+            pyQDD.seed(seed)
+        try:
+            results = [
+                self._evaluate_circuit(circ, circ_prop, experiments.options)
+                for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
+            ]
+        finally:
+            if seed is not None:
+                # later runs without a seed must not continue the seeded sequence
+                pyQDD.seed(None)
 
         result = Result.from_dict(
             {
-- 
2.43.0


From e8f8b0a63f3eedda465930eb1dde7338190f2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 14/43] fix: validate the number of shots set by set_options

Only shots passed to run() were checked; zero gave exact probabilities and a
negative number an empty result.
---
 qdd/qdd_backend.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 171f412..3947a35 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1179,15 +1179,14 @@ class QddBackend(BackendV1):
         """Checks whether the given options are valid to run with (e.g., shots < max_shots)."""
 
         # Check if invalid options (i.e., causing errors) are specified
-        if "shots" in run_options:
-            shots = run_options["shots"]
-            if shots is not None:
-                max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
-                if not (0 < shots <= max_shots):
-                    raise RuntimeError(
-                        f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
-                        f" when using {QddBackend.__name__}."
-                    )
+        shots = run_options.get("shots", self.options.shots)
+        if shots is not None:
+            max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
+            if not (0 < shots <= max_shots):
+                raise RuntimeError(
+                    f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
+                    f" when using {QddBackend.__name__}."
+                )
 
         # Warn if unsupported options are specified
         # Note: we cannot raise an error here because some Qiskit functions (e.g., execute(...)) adds some options to
-- 
2.43.0


From c52acb3432b90085cd864d31e3ea810ffa3189b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 15/43] fix: reject parameter_binds that do not match the
 circuits

Circuits without an entry were dropped from the job without notice.
---
 qdd/qdd_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 3947a35..6ef4112 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -342,6 +342,11 @@ class QddBackend(BackendV1):
         if ("parameter_binds" in run_options) and (
             run_options["parameter_binds"] is not None
         ):
+            if len(run_options["parameter_binds"]) != len(qiskit_circs):
+                raise RuntimeError(
+                    f"{len(qiskit_circs)} circuits are given,"
+                    f" but parameter_binds has {len(run_options['parameter_binds'])} entries."
+                )
             param_bound_qiskit_circs = []
             for qiskit_circ, binds in zip(qiskit_circs, run_options["parameter_binds"]):
                 param_bound_qiskit_circs.append(qiskit_circ.assign_parameters(binds))
-- 
2.43.0


From ce740bec9909d6fa27b8515cfc014594b284055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 16/43] fix: keep merged operators alive in later collections

merge_circuit collected everything but its own operator, so operators merged
earlier were left pointing into a freed table.
---
 qdd/bindings.cpp   |  1 +
 qdd/qdd_backend.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 50e26c0..ea0919c 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -237,6 +237,7 @@ PYBIND11_MODULE(pyQDD, m) {
         ;
     py::class_<mEdge>(m, "mEdge")
         .def("printMatrix", &mEdge::printMatrix)
+        .def("_assign", [](mEdge &self, const mEdge &e) { self = e; })
         .def("getEigenMatrix", &mEdge::getEigenMatrix);
     m.def("makeZeroState", makeZeroState);
     m.def("mv_multiply", mv_multiply).def("mm_multiply", mm_multiply);
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 6ef4112..043e157 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -7,6 +7,7 @@ import dataclasses
 from collections import Counter
 from warnings import warn
 import time
+import weakref
 
 from qiskit.providers import BackendV1, JobV1, Options, Provider
 from qiskit.providers.models import BackendConfiguration
@@ -130,6 +131,9 @@ class QddBackend(BackendV1):
 
     _save_SV = False
 
+    # Operators handed out by merge_circuit: they have to survive collections.
+    _live_operators = weakref.WeakSet()
+
     _DEFAULT_CONFIG: Dict[str, Any] = {
         "backend_name": "qasm_simulator",
         "backend_version": __version__,
@@ -546,9 +550,13 @@ class QddBackend(BackendV1):
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
                 print(count,"/",len(circ.data))
             if count%gc_freq==0:
-                current = pyQDD.gc_mat(current, False)
+                live = list(QddBackend._live_operators)
+                current, *moved = pyQDD.gc_mat([current] + live, False)
+                for operator, edge in zip(live, moved):
+                    operator._assign(edge)
             # pyQDD.clear_cache(False)
         current = pyQDD.applyGlobal(current, circ.global_phase)
+        QddBackend._live_operators.add(current)
         return current
 
     def get_initial_qmap(self, num_qubits, size_global):
-- 
2.43.0


From 35b3b1f57cfc30a659e26e0f5d7dea1e30277080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 17/43] fix: sample one circuit with several parameter sets

The second set of values was appended to a float.
---
 qdd/qdd_sampler.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 2a2ec1d..80d37ea 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -206,15 +206,10 @@ class _ExperimentManager:
         experiment_circuit: QuantumCircuit,
     ):
         """append experiments"""
-        if parameter_bind and key in self.keys:
-            key_index = self.keys.index(key)
-            for k, vs in self.parameter_binds[key_index].items():
-                vs.append(parameter_bind[k])
-            self._input_indices[key_index].append(self._num_experiment)
-        else:
-            self.experiment_circuits.append(experiment_circuit)
-            self.keys.append(key)
-            self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
-            self._input_indices.append([self._num_experiment])
+        # the backend takes one set of parameter values per circuit
+        self.experiment_circuits.append(experiment_circuit)
+        self.keys.append(key)
+        self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
+        self._input_indices.append([self._num_experiment])
 
         self._num_experiment += 1
-- 
2.43.0


From 4644f2895e56d3fb48a46b584c57e1eeaf09106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 18/43] fix: the estimator pairs every experiment with its own
 parameter values and basis

---
 qdd/qdd_estimator.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 936c456..7d52535 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -316,20 +316,13 @@ class Estimator(BaseEstimator):
 
     @staticmethod
     def _flatten(experiments_dict, exp_map):
-        experiments_unsorted = {}
         experiments_list = []
         parameter_binds = []
-        for circ_ind in experiments_dict:
-            indices = []
-            for i, (parameters, param_vals) in exp_map[circ_ind].items():
+        for circ_ind, circuits in experiments_dict.items():
+            for basis_ind, (parameters, param_vals) in exp_map[circ_ind].items():
                 for param_val in param_vals:
-                    experiments_unsorted[i] = experiments_dict[circ_ind][i]
-                    indices.append(i)
-                    parameter_binds.extend(
-                        [{param: param_val[i] for i, param in enumerate(parameters)}]
-                    )
-            for i in sorted(indices):
-                experiments_list.append(experiments_unsorted[i])
+                    experiments_list.append(circuits[basis_ind])
+                    parameter_binds.append(dict(zip(parameters, param_val)))
 
         return experiments_list, parameter_binds
 
@@ -380,7 +373,7 @@ class Estimator(BaseEstimator):
 
         result_index = 0
         for _circ_ind, basis_map in exp_map.items():
-            for _basis_ind, (_, (_, param_vals)) in enumerate(basis_map.items()):
+            for _basis_ind, (_, param_vals) in basis_map.items():
                 if circ_ind == _circ_ind and basis_ind == _basis_ind:
                     result_index += param_vals.index(param_val)
                     return result_index
-- 
2.43.0


From cc61e46a78f5885949e6e436e06302b342a62785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 19/43] fix: an identity observable no longer drops the
 circuits after it in an estimator request

---
 qdd/qdd_estimator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 7d52535..0e55afa 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -186,7 +186,7 @@ class Estimator(BaseEstimator):
         if key in self._cache:  # Use a cache
             experiments_dict, obs_maps = self._cache[key]
             exp_map = self._pre_process_params(
-                circuits, observables, parameter_values, obs_maps
+                circuits, observables, parameter_values, obs_maps, experiments_dict
             )
             experiments, parameter_binds = self._flatten(experiments_dict, exp_map)
             post_processings = self._create_post_processing(
@@ -230,7 +230,7 @@ class Estimator(BaseEstimator):
                 if (
                     len(bases) == 1 and not bases[0].x.any() and not bases[0].z.any()
                 ):  # identity
-                    break
+                    continue
                 meas_circuits = [
                     self._create_meas_circuit(basis, circ_ind) for basis in bases
                 ]
@@ -243,7 +243,7 @@ class Estimator(BaseEstimator):
             self._cache[key] = experiments_dict, obs_maps
 
             exp_map = self._pre_process_params(
-                circuits, observables, parameter_values, obs_maps
+                circuits, observables, parameter_values, obs_maps, experiments_dict
             )
 
             # Flatten
@@ -291,7 +291,9 @@ class Estimator(BaseEstimator):
         )
         return EstimatorResult(np.real_if_close(expectation_values), list(metadata))
 
-    def _pre_process_params(self, circuits, observables, parameter_values, obs_maps):
+    def _pre_process_params(
+        self, circuits, observables, parameter_values, obs_maps, experiments_dict
+    ):
         exp_map = defaultdict(
             dict
         )  # circ_ind => basis_ind => (parameter, parameter_values)
@@ -299,6 +301,8 @@ class Estimator(BaseEstimator):
             circuits, observables, parameter_values
         ):
             self._validate_parameter_length(param_val, circ_ind)
+            if circ_ind not in experiments_dict:  # only identities: nothing to run
+                continue
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
                 if (
-- 
2.43.0


From 9af073037970ec29774b0b247ea585a5f219abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 20/43] fix: the approximate estimator works without run
 options and takes shots from the call

---
 qdd/qdd_estimator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 0e55afa..0c7af68 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -113,10 +113,6 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and "shots" in run_options:
-            self._approximation_shots = run_options["shots"]
-        else:
-            self._approximation_shots = None
         self._skip_transpilation = skip_transpilation
         self._cache: dict[tuple[tuple[int], tuple[int], bool], tuple[dict, dict]] = {}
         self._transpiled_circuits: dict[int, QuantumCircuit] = {}
@@ -179,6 +175,10 @@ class Estimator(BaseEstimator):
 
     def _compute(self, circuits, observables, parameter_values, run_options, seed):
 
+        approximation_shots = (
+            run_options.get("shots") if self._approximation else None
+        )
+
         # Key for cache
         key = (tuple(circuits), tuple(observables), self._approximation)
 
@@ -196,7 +196,7 @@ class Estimator(BaseEstimator):
                 obs_maps,
                 exp_map,
                 self._approximation,
-                self._approximation_shots,
+                approximation_shots,
                 seed,
             )
         else:
@@ -257,7 +257,7 @@ class Estimator(BaseEstimator):
                 obs_maps,
                 exp_map,
                 self._approximation,
-                self._approximation_shots,
+                approximation_shots,
                 seed,
             )
 
-- 
2.43.0


From d12ec6d579db909d295072533bb5170c7fba88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 21/43] fix: the estimator runs no experiment for a basis of
 identities only

---
 qdd/qdd_estimator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 0c7af68..22b3bc1 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -305,6 +305,9 @@ class Estimator(BaseEstimator):
                 continue
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
+                basis = experiments_dict[circ_ind][basis_ind].metadata["basis"]
+                if not basis.x.any() and not basis.z.any():  # identity
+                    continue
                 if (
                     circ_ind in exp_map
                     and basis_ind in exp_map[circ_ind]
-- 
2.43.0


From 31318691c40a2058b77e7166e3261e1aff03ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 22/43] fix: the sampler honours shots=None given as a backend
 option

---
 qdd/qdd_sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 80d37ea..5038a69 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -92,7 +92,9 @@ class Sampler(BaseSampler):
         if seed is not None:
             run_options.setdefault("seed_simulator", seed)
 
-        is_shots_none = "shots" in run_options and run_options["shots"] is None
+        is_shots_none = (
+            run_options.get("shots", self._backend.options.shots) is None
+        )
         self._transpile(circuits)
 
         experiment_manager = _ExperimentManager()
-- 
2.43.0


From 3de0ceb2881e3d7750098e2132c5fc9753482575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 23/43] fix: the estimator lists experiments in the order in
 which results are looked up

---
 qdd/qdd_estimator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 22b3bc1..1547c78 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -325,10 +325,11 @@ class Estimator(BaseEstimator):
     def _flatten(experiments_dict, exp_map):
         experiments_list = []
         parameter_binds = []
-        for circ_ind, circuits in experiments_dict.items():
-            for basis_ind, (parameters, param_vals) in exp_map[circ_ind].items():
+        # in the order in which _calculate_result_index counts them
+        for circ_ind, basis_map in exp_map.items():
+            for basis_ind, (parameters, param_vals) in basis_map.items():
                 for param_val in param_vals:
-                    experiments_list.append(circuits[basis_ind])
+                    experiments_list.append(experiments_dict[circ_ind][basis_ind])
                     parameter_binds.append(dict(zip(parameters, param_val)))
 
         return experiments_list, parameter_binds
-- 
2.43.0


From 7570e6f8e8178cd451ac8e0392f40464e1197b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 24/43] fix: a second Scheduler in one process starts with its
 own scheduler table

---
 include/task.h |  3 +++
 src/task.cpp   | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/task.h b/include/task.h
index 36ab95e..49c071a 100644
--- a/include/task.h
+++ b/include/task.h
@@ -47,6 +47,9 @@ public:
 
     my_ws( std::uint32_t, bool = false);
 
+    // to be called before `thread_count` threads construct their scheduler
+    static void prepare( std::uint32_t thread_count);
+
     my_ws( my_ws const&) = delete;
     my_ws( my_ws &&) = delete;
 
diff --git a/src/task.cpp b/src/task.cpp
index fb776a6..58851ee 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -29,15 +29,22 @@ void my_ws::init_(std::uint32_t thread_count,
     std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers);
 }
 
+namespace {
+std::unique_ptr<boost::fibers::detail::thread_barrier> start_barrier;
+}
+
+void my_ws::prepare(std::uint32_t thread_count) {
+    counter_ = 0;
+    init_(thread_count, schedulers_);
+    start_barrier =
+        std::make_unique<boost::fibers::detail::thread_barrier>(thread_count);
+}
+
 my_ws::my_ws(std::uint32_t thread_count, bool suspend)
     : id_{counter_++}, thread_count_{thread_count}, suspend_{suspend} {
-    static boost::fibers::detail::thread_barrier b{thread_count};
-    // initialize the array of schedulers
-    static std::once_flag flag;
-    std::call_once(flag, &my_ws::init_, thread_count_, std::ref(schedulers_));
     // register pointer of this scheduler
     schedulers_[id_] = this;
-    b.wait();
+    start_barrier->wait();
 }
 
 void my_ws::awakened(context *ctx) noexcept {
@@ -113,6 +120,8 @@ void my_ws::notify() noexcept {
 }  // namespace boost
 
 void Scheduler::spawn() {
+    // every Scheduler starts with fresh bookkeeping, also after an earlier one
+    boost::fibers::algo::my_ws::prepare(_nworkers + 1);
     for (int i = 0; i < _nworkers; i++) {
         _workers[i]._id = i;
         _workers[i]._sched = this;
-- 
2.43.0


From b9a3beadb580a786a0b3a82f001afd898ca08ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 25/43] fix: a worker that starts late is not left waiting for
 a stop signal already sent

---
 include/task.h | 1 +
 src/task.cpp   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/task.h b/include/task.h
index 49c071a..3168424 100644
--- a/include/task.h
+++ b/include/task.h
@@ -103,5 +103,6 @@ private:
 
     boost::fibers::condition_variable_any cond_stop;
     boost::fibers::mutex mtx_stop;
+    bool _stop{false};
 };
 
diff --git a/src/task.cpp b/src/task.cpp
index 58851ee..f609413 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -132,7 +132,7 @@ void Scheduler::spawn() {
                     boost::fibers::algo::my_ws>(this->_nworkers + 1);
                 {
                     std::unique_lock<boost::fibers::mutex> lk(this->mtx_stop);
-                    this->cond_stop.wait(lk);
+                    this->cond_stop.wait(lk, [this]() { return _stop; });
                 }
             },
             i);
@@ -163,6 +163,10 @@ Scheduler::Scheduler(int n) : _nworkers(n) {
 }
 
 Scheduler::~Scheduler() {
+    {
+        std::unique_lock<boost::fibers::mutex> lk(mtx_stop);
+        _stop = true;
+    }
     cond_stop.notify_all();
 
     for (WorkerThread &w : _workers) {
-- 
2.43.0


From 72b0bbd611f8a1d41b99adfbaa887e620e86c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 26/43] fix: more worker threads than CPUs no longer end the
 process

---
 src/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task.cpp b/src/task.cpp
index f609413..7e31d59 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -145,8 +145,8 @@ void Scheduler::spawn() {
         CPU_SET(i, &cpuset);
         if (pthread_setaffinity_np(_workers[i]._thread->native_handle(),
                                    sizeof(cpu_set_t), &cpuset)) {
-            std::cout << "pthread_setaffinity_np failed" << std::endl;
-            exit(1);
+            // pinning is an optimisation: e.g. there are more workers than CPUs
+            std::cerr << "pthread_setaffinity_np failed" << std::endl;
         }
     }
 #endif
-- 
2.43.0


From b85e7ac8409e1ab4a5fb5d54981a7a04a48e031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 27/43] fix: a fiber resumed by another thread no longer uses
 the first thread's caches

---
 src/dd.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index e55a4f7..2a6f4cc 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -55,6 +55,16 @@ vEdge vEdge::zero{.w = {0.0, 0.0}, .n = vNode::terminal};
 #if defined(isMT) && !defined(CACHE_GLOBAL)
 oneapi::tbb::enumerable_thread_specific<AddCache> _aCaches(NQUBITS);
 oneapi::tbb::enumerable_thread_specific<MulCache> _mCaches(NQUBITS);
+
+// The caches of the running thread. A fiber may be resumed by another thread,
+// so they are looked up anew after every wait; the functions are not inlined
+// lest the compiler remembers the thread across the wait.
+__attribute__((noinline)) static AddCache &localAddCache() {
+    return _aCaches.local();
+}
+__attribute__((noinline)) static MulCache &localMulCache() {
+    return _mCaches.local();
+}
 #else
 AddCache _aCache(NQUBITS);
 MulCache _mCache(NQUBITS);
@@ -1128,9 +1138,10 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     vEdge result;
 
 #if defined(isMT) && !defined(CACHE_GLOBAL)
-    AddCache &_aCache = _aCaches.local();
-#endif
+    result = localAddCache().find(lhs, rhs);
+#else
     result = _aCache.find(lhs, rhs);
+#endif
     if (result.n != nullptr) {
         if (result.w.isApproximatelyZero()) {
             return vEdge::zero;
@@ -1186,7 +1197,11 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 #endif
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    localAddCache().set(lhs, rhs, result);
+#else
     _aCache.set(lhs, rhs, result);
+#endif
 
     return result;
 }
@@ -1388,11 +1403,10 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
 #if defined(isMT) && !defined(CACHE_GLOBAL)
-    MulCache &_mCache = _mCaches.local();
+    vEdge result = localMulCache().find(lhs.n, rhs.n);
+#else
+    vEdge result = _mCache.find(lhs.n, rhs.n);
 #endif
-    vEdge result;
-
-    result = _mCache.find(lhs.n, rhs.n);
     if (result.n != nullptr) {
         if (result.w.isApproximatelyZero()) {
             return vEdge::zero;
@@ -1463,7 +1477,11 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    localMulCache().set(lhs.n, rhs.n, result);
+#else
     _mCache.set(lhs.n, rhs.n, result);
+#endif
     result.w = result.w * lhs.w * rhs.w;
     if (result.w.isApproximatelyZero()) {
         return vEdge::zero;
-- 
2.43.0


From ad448c53a707d742570e23636774aff6aeb04408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 28/43] fix: take the blocks of a distributed gate through
 levels that have no node

getMPIGate() descended log2(world_size) levels whatever they were, so a gate
that is the identity on a distributed qubit lost its structure.
---
 include/dd.h |  1 +
 src/dd.cpp   | 28 ++++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 500ed13..1a45ec5 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -455,6 +455,7 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level, const std::size_t rowSt
                     const std::size_t colStart, const std::size_t colEnd, const std::vector<bool> skip, const Qubit target_min);
 
 mEdge getMPIGate(mEdge root, int row, int col, int world_size);
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit top);
 
 mEdge mm_add(const mEdge &lhs, const mEdge &rhs);
 mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs);
diff --git a/src/dd.cpp b/src/dd.cpp
index 2a6f4cc..4d9bb1e 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -643,6 +643,26 @@ mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
     tmp.w *= root.w;
     return getMPIGate(tmp, row % border, col % border, border);
 }
+
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit top) {
+    // Levels on which the gate is the identity have no node: 'top' is the
+    // qubit that the outermost halves of the matrix belong to.
+    if (world_size <= 1 || root == mEdge::zero) {
+        return root;
+    }
+    int border = world_size / 2;
+    if (root.isTerminal() || root.getVar() < top) {
+        if ((row >= border) != (col >= border)) {
+            return mEdge::zero;
+        }
+    } else {
+        int index = (row >= border ? 2 : 0) + (col >= border ? 1 : 0);
+        mEdge tmp = root.getNode()->children[index];
+        tmp.w *= root.w;
+        root = tmp;
+    }
+    return getMPIGate(root, row % border, col % border, border, top - 1);
+}
 #endif
 
 int vNode_to_vec(vNode *node, std::vector<vContent> &table,
@@ -702,7 +722,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     std::unordered_map<vNode *, int> rhs_map;
 
     send_data.first = rhs.w;
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -720,7 +740,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         send_reqs.push_back(world.isend(right_neighbor, i, send_data));
         world.recv(left_neighbor, i, recv_data);
         int col = (row - i + world.size()) % small_world_size + offset;
-        gate = getMPIGate(lhs, row, col, world_size);
+        gate = getMPIGate(lhs, row, col, world_size, total_qubits - 1);
         // bmpi::wait_all(std::begin(recv_reqs), std::end(recv_reqs));
         vEdge received = {recv_data.first,
                           vec_to_vNode(recv_data.second, vUnique)};
@@ -842,7 +862,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     int right_neighbor = (world.rank() + 1) % world_size;
 
     // calculate initial result
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -860,7 +880,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         } else {
             std::pair<std_complex, std::vector<vContent>> recv_data;
             bmpi::broadcast(world, recv_data, i);
-            gate = getMPIGate(lhs, row, i, world_size);
+            gate = getMPIGate(lhs, row, i, world_size, total_qubits - 1);
             vEdge received = {recv_data.first,
                               vec_to_vNode(recv_data.second, vUnique)};
             result = vv_add(result, mv_multiply(gate, received));
-- 
2.43.0


From bbc8ef33310b72e567593b3e2bb85f09bb1cab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 29/43] fix: read a distributed qubit from its own bit of the
 rank

Measuring a distributed qubit looked at the lowest bit of the rank, whichever
qubit was asked for.
---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 4d9bb1e..8b65e58 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1785,7 +1785,7 @@ char measureOneCollapsingMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
@@ -1856,7 +1856,7 @@ double measureOneMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
-- 
2.43.0


From b681679d16a75561d1542d2ea83bc6a853318044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 30/43] fix: keep the length of a slice that is zero everywhere
 in probabilitiesMPI

Such a slice is a terminal edge, so its process contributed one entry instead
of one per local basis state and the gathered vector was too short.
---
 src/dd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8b65e58..b560bd5 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1591,6 +1591,10 @@ std::vector<double> probabilitiesMPI(bmpi::communicator &world,
                   [each_prob, all_prob](double &num) {
                       num = num * each_prob / all_prob;
                   });
+    // a slice that is zero everywhere has no node to tell its length
+    const std::size_t each_size = bmpi::all_reduce(
+        world, each_result.size(), bmpi::maximum<std::size_t>());
+    each_result.resize(each_size, 0.0);
 
     std::vector<std::vector<double>> all_result;
     bmpi::all_gather(world, each_result, all_result);
-- 
2.43.0


From 6e519dcfdd9c0e4b276ee128e914de90ec2b9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 31/43] fix: fetch a distributed state vector whose slice is
 zero everywhere

getVectorMPI() asked such a slice, a terminal edge, for its node's vector and
died; without assertions it read a missing node.
---
 qdd/bindings.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index ea0919c..37f5825 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -177,12 +177,17 @@ void dump_mpi() {
 }
 
 std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
-    size_t dim;
-    std_complex *vec = edge.getVector(&dim);
     std::vector<std_complex> result;
-    for (int i = 0; i < dim; i++) {
-        result.push_back(vec[i]);
+    if (!edge.isTerminal()) {
+        size_t dim;
+        std_complex *vec = edge.getVector(&dim);
+        for (int i = 0; i < dim; i++) {
+            result.push_back(vec[i]);
+        }
     }
+    // a slice that is zero everywhere has no node to tell its length
+    result.resize(bmpi::all_reduce(_world, result.size(),
+                                   bmpi::maximum<std::size_t>()));
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
-- 
2.43.0


From 3e297c1b03bb5e54dd563bb484fc02b4f9bbf817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 32/43] fix: broadcast a circuit with its properties and its
 global phase

A pickled circuit lacks its global phase, and bits without a register lost
their identity when the circuit and its properties were pickled apart, so the
processes other than the first computed something else.
---
 qdd/qdd_backend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 043e157..da8bb5a 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -723,8 +723,12 @@ class QddBackend(BackendV1):
         if use_mpi:
             from mpi4py import MPI
 
-            circ = MPI.COMM_WORLD.bcast(circ, root=0)
-            circ_prop = MPI.COMM_WORLD.bcast(circ_prop, root=0)
+            # The circuit and its properties refer to the same bits, so they
+            # travel together; a pickled circuit lacks its global phase.
+            circ, circ_prop, global_phase = MPI.COMM_WORLD.bcast(
+                (circ, circ_prop, circ.global_phase), root=0
+            )
+            circ.global_phase = global_phase
             if pow(2, circ.num_qubits) <= MPI.COMM_WORLD.Get_size():
                 print("ERROR: Too many nodes for MPI")
                 assert pow(2, circ.num_qubits) > MPI.COMM_WORLD.Get_size()
-- 
2.43.0


From 309e71e95f8b7f40dffbd659bf90df14fb51e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 33/43] fix: the sampler keeps its own copy of a circuit

A circuit that was modified after a request changed the answers to later
requests for the unmodified one when transpilation is skipped.
---
 qdd/qdd_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 5038a69..ce9c2df 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -163,7 +163,7 @@ class Sampler(BaseSampler):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
         job._submit()
-- 
2.43.0


From c2c6f882819510dc77adf37e1ca174e7e243f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:27 +0000
Subject: [PATCH 34/43] fix: the estimator keeps its own copies of circuits and
 observables

A circuit or observable that was modified after a request changed the answers
to later requests for the unmodified one.
---
 qdd/qdd_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 1547c78..74568bb 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -149,7 +149,7 @@ class Estimator(BaseEstimator):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         observable_indices: list = []
         for observable in observables:
@@ -162,7 +162,7 @@ class Estimator(BaseEstimator):
                 self._observable_ids[_observable_key(observable)] = len(
                     self._observables
                 )
-                self._observables.append(observable)
+                self._observables.append(observable.copy())
         job = PrimitiveJob(
             self._call,
             circuit_indices,
-- 
2.43.0


From f4a93b5c2faecc19dd3bf9e8bf98f7889b48ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 35/43] fix: gates keep wide registers in superposition

---
 src/dd.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index b560bd5..af94e6e 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1083,7 +1083,15 @@ mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs) {
     }
 
     Qubit root = rootVar(lhs, rhs);
-    mEdge result = mm_multiply2(lhs, rhs, root);
+    if (lhs.isTerminal() || rhs.isTerminal()) {
+        return mm_multiply2(lhs, rhs, root);
+    }
+    // As in mv_multiply: the weights of the roots stay out of the recursion.
+    mEdge result = mm_multiply2({{1.0, 0.0}, lhs.n}, {{1.0, 0.0}, rhs.n}, root);
+    result.w = result.w * lhs.w * rhs.w;
+    if (result.w.isApproximatelyOne()) {
+        result.w = {1.0, 0.0};
+    }
     return result;
 }
 
@@ -1231,7 +1239,18 @@ vEdge vv_add(const vEdge &lhs, const vEdge &rhs) {
         return {lhs.w + rhs.w, vNode::terminal};
     }
 
-    return vv_add2(lhs, rhs, rhs.getVar());
+    // As in mv_multiply: what counts is how the two weights compare.
+    const std_complex scale = lhs.w.mag2() >= rhs.w.mag2() ? lhs.w : rhs.w;
+    if (scale.isZero()) {
+        return vEdge::zero;
+    }
+    vEdge result = vv_add2({lhs.w / scale, lhs.n}, {rhs.w / scale, rhs.n},
+                           std::max(lhs.getVar(), rhs.getVar()));
+    result.w = result.w * scale;
+    if (result.w.isApproximatelyOne()) {
+        result.w = {1.0, 0.0};
+    }
+    return result;
 }
 
 vEdge vv_kronecker2(const vEdge &lhs, const vEdge &rhs) {
@@ -1516,8 +1535,23 @@ vEdge mv_multiply(mEdge lhs, vEdge rhs) {
     if (lhs.isTerminal() && rhs.isTerminal()) {
         return {lhs.w * rhs.w, vNode::terminal};
     }
+    // The tolerance is for ratios of amplitudes: on a wide register the weight
+    // of the root may be far below it, and so is kept out of the recursion.
+    std_complex scale{1.0, 0.0};
+    if (!lhs.isTerminal()) {
+        scale *= lhs.w;
+        lhs.w = {1.0, 0.0};
+    }
+    if (!rhs.isTerminal()) {
+        scale *= rhs.w;
+        rhs.w = {1.0, 0.0};
+    }
     LIMIT = rhs.getVar() - MINUS;
     vEdge v = mv_multiply2(lhs, rhs, rhs.getVar());
+    v.w = v.w * scale;
+    if (v.w.isApproximatelyOne()) {
+        v.w = {1.0, 0.0};
+    }
     //_mCache.hitRatio();
     //_aCache.hitRatio();
     // vUnique.dump();
-- 
2.43.0


From eccce6b6563f748fe852000d34c770282c7b5ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:37 +0000
Subject: [PATCH 36/43] fix: sums of diagrams are found again whatever their
 weight

---
 src/dd.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index af94e6e..f43b286 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -901,6 +901,8 @@ static Qubit rootVar(const mEdge &lhs, const mEdge &rhs) {
                : lhs.getVar();
 }
 
+static mEdge mm_add3(const mEdge &lhs, const mEdge &rhs, int32_t current_var);
+
 mEdge mm_add2(const mEdge &lhs, const mEdge &rhs, int32_t current_var) {
     if(lhs == mEdge::zero || rhs == mEdge::zero){
         return (lhs==mEdge::zero)? rhs : lhs;
@@ -920,6 +922,24 @@ mEdge mm_add2(const mEdge &lhs, const mEdge &rhs, int32_t current_var) {
         return {lhs.w + rhs.w, lhs.n};
     }
 
+    // Only the ratio of the weights matters: with the larger one factored out,
+    // the same sum of two nodes is found in the cache wherever it occurs.
+    const bool ordered = lhs.w.mag2() >= rhs.w.mag2();
+    const mEdge &large = ordered ? lhs : rhs;
+    const mEdge &small = ordered ? rhs : lhs;
+    mEdge sum = mm_add3({{1.0, 0.0}, large.n}, {small.w / large.w, small.n}, current_var);
+    sum.w = sum.w * large.w;
+    if (sum.w.isApproximatelyZero()) {
+        return mEdge::zero;
+    }
+    if (sum.w.isApproximatelyOne()) {
+        sum.w = {1.0, 0.0};
+    }
+    return sum;
+}
+
+// The sum of two diagrams with different nodes.
+static mEdge mm_add3(const mEdge &lhs, const mEdge &rhs, int32_t current_var) {
     mEdge result;
 
 #if defined(isMT) && !defined(CACHE_GLOBAL)
@@ -1145,6 +1165,8 @@ mEdge mm_kronecker(const mEdge &lhs, const mEdge &rhs) {
     return mm_kronecker2(lhs, rhs);
 }
 
+static vEdge vv_add3(const vEdge &lhs, const vEdge &rhs, int32_t current_var);
+
 vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     if (lhs.w.isApproximatelyZero()) {
         if (rhs.w.isApproximatelyZero()) {
@@ -1163,6 +1185,24 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
         return {lhs.w + rhs.w, lhs.n};
     }
 
+    // Only the ratio of the weights matters: with the larger one factored out,
+    // the same sum of two nodes is found in the cache wherever it occurs.
+    const bool ordered = lhs.w.mag2() >= rhs.w.mag2();
+    const vEdge &large = ordered ? lhs : rhs;
+    const vEdge &small = ordered ? rhs : lhs;
+    vEdge sum = vv_add3({{1.0, 0.0}, large.n}, {small.w / large.w, small.n}, current_var);
+    sum.w = sum.w * large.w;
+    if (sum.w.isApproximatelyZero()) {
+        return vEdge::zero;
+    }
+    if (sum.w.isApproximatelyOne()) {
+        sum.w = {1.0, 0.0};
+    }
+    return sum;
+}
+
+// The sum of two diagrams with different nodes.
+static vEdge vv_add3(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     vEdge result;
 
 #if defined(isMT) && !defined(CACHE_GLOBAL)
-- 
2.43.0


From 14b9286bcf0c399afabfa6a6e43b6de4116c8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 37/43] fix: nearly equal weights meet in one bucket of the
 node table

---
 include/dd.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 1a45ec5..4561d85 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -266,8 +266,11 @@ inline void swap(mEdge &lhs, mEdge &rhs) {
 
 template <> struct std::hash<std_complex> {
     std::size_t operator()(const std_complex &v) const noexcept {
-        auto h1 = std::hash<double>()(v.real());
-        auto h2 = std::hash<double>()(v.imag());
+        // Weights that compare as equal have to meet in one bucket: a grid
+        // much coarser than TOLERANCE, with the common values on its points.
+        constexpr double GRID = 4294967296.0;
+        auto h1 = std::hash<double>()(std::round(v.real() * GRID));
+        auto h2 = std::hash<double>()(std::round(v.imag() * GRID));
         return hash_combine(h1, h2);
     }
 };
-- 
2.43.0


From 9c8be509fe273d4dbd7c33b281ed2fd6640f2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 38/43] fix: products of one operator with many diagrams are
 remembered

The multiplication cache chose its bucket of four entries by the left
operand alone, so a gate applied to a diagram with more than four nodes
forgot its own results and took time exponential in the number of qubits.
---
 include/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cache.hpp b/include/cache.hpp
index 7aed36e..d3c7fa3 100644
--- a/include/cache.hpp
+++ b/include/cache.hpp
@@ -323,7 +323,7 @@ class MulCache{
                 uintptr_t l = reinterpret_cast<uintptr_t>(lhs);
                 uintptr_t r = reinterpret_cast<uintptr_t>(rhs);
 
-                std::size_t key = murmur_hash(l) % NBUCKETS; 
+                std::size_t key = hash_combine(murmur_hash(l), murmur_hash(r)) % NBUCKETS; 
 
                 return find_in_bucket<RetT>(t, key ,l, r);
 
@@ -349,7 +349,7 @@ class MulCache{
                 uintptr_t l = reinterpret_cast<uintptr_t>(lhs);
                 uintptr_t r = reinterpret_cast<uintptr_t>(rhs);
 
-                std::size_t key = murmur_hash(l) % NBUCKETS; 
+                std::size_t key = hash_combine(murmur_hash(l), murmur_hash(r)) % NBUCKETS; 
 
                 return set_in_bucket<ResT>(t, key ,l, r, result);
                 
-- 
2.43.0


From a7cc76e7e30d55a6b0d8ba8bcaa585efdf194514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 39/43] fix: rounding errors do not decide which weight is
 factored out

Among weights of the same magnitude the first one is taken.  Equal states
computed in different ways otherwise end up in different nodes.
---
 src/dd.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index f43b286..4a712bd 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -73,6 +73,11 @@ MulCache _mCache(NQUBITS);
 static int LIMIT = 10000;
 const int MINUS = 6;
 
+// Weights of the same magnitude up to rounding errors are a tie.
+static bool isSmaller(const std_complex &lhs, const std_complex &rhs) {
+    return norm2(lhs) * (1.0 + 1e-10) < norm2(rhs);
+}
+
 static mEdge normalizeM(const mEdge &e) {
     // check for all zero weights
     if (std::all_of(e.n->children.begin(), e.n->children.end(),
@@ -83,7 +88,7 @@ static mEdge normalizeM(const mEdge &e) {
 
     auto result = std::max_element(e.n->children.begin(), e.n->children.end(),
                                    [](const mEdge &lhs, const mEdge &rhs) {
-                                       return norm2(lhs.w) < norm2(rhs.w);
+                                       return isSmaller(lhs.w, rhs.w);
                                    });
 
     std_complex max_weight = result->w;
@@ -126,7 +131,7 @@ static vEdge normalizeV(const vEdge &e) {
 
     auto result = std::max_element(e.n->children.begin(), e.n->children.end(),
                                    [](const vEdge &lhs, const vEdge &rhs) {
-                                       return norm2(lhs.w) < norm2(rhs.w);
+                                       return isSmaller(lhs.w, rhs.w);
                                    });
     std_complex max_weight = result->w;
 
-- 
2.43.0


From 420ff9a323c800446cb025d50030d06207e308c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:57 +0000
Subject: [PATCH 40/43] fix: primitives tell circuits apart by conditions and
 definitions too

The keys by which the sampler and the estimator recognise a circuit leave out classical conditions and the
definitions of composite instructions, so a circuit was answered with the results of another one.
---
 qdd/qdd_estimator.py | 16 +++++++++-------
 qdd/qdd_sampler.py   | 14 ++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 74568bb..c4f831f 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -117,7 +117,7 @@ class Estimator(BaseEstimator):
         self._cache: dict[tuple[tuple[int], tuple[int], bool], tuple[dict, dict]] = {}
         self._transpiled_circuits: dict[int, QuantumCircuit] = {}
         self._layouts: dict[int, list[int]] = {}
-        self._circuit_ids: dict[tuple, int] = {}
+        self._circuit_ids: dict[tuple, list[int]] = {}
         self._observable_ids: dict[tuple, int] = {}
         self._abelian_grouping = abelian_grouping
 
@@ -143,14 +143,16 @@ class Estimator(BaseEstimator):
     ) -> PrimitiveJob:
         circuit_indices: list = []
         for circuit in circuits:
-            index = self._circuit_ids.get(_circuit_key(circuit))
-            if index is not None:
-                circuit_indices.append(index)
-            else:
-                circuit_indices.append(len(self._circuits))
-                self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
+            # circuits that differ in a condition or in the definition of an
+            # instruction have the same key
+            same_key = self._circuit_ids.setdefault(_circuit_key(circuit), [])
+            index = next((i for i in same_key if self._circuits[i] == circuit), None)
+            if index is None:
+                index = len(self._circuits)
+                same_key.append(index)
                 self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
+            circuit_indices.append(index)
         observable_indices: list = []
         for observable in observables:
             observable = init_observable(observable)
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index ce9c2df..862cfd8 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -157,14 +157,16 @@ class Sampler(BaseSampler):
 
         circuit_indices: List[int] = []
         for circuit in circuits:
-            index = self._circuit_ids.get(_circuit_key(circuit))
-            if index is not None:
-                circuit_indices.append(index)
-            else:
-                circuit_indices.append(len(self._circuits))
-                self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
+            # circuits that differ in a condition or in the definition of an
+            # instruction have the same key
+            same_key = self._circuit_ids.setdefault(_circuit_key(circuit), [])
+            index = next((i for i in same_key if self._circuits[i] == circuit), None)
+            if index is None:
+                index = len(self._circuits)
+                same_key.append(index)
                 self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
+            circuit_indices.append(index)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
         job._submit()
         return job
-- 
2.43.0


From b2f27e225610296f5dc29f094df1d008971a5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:04 +0000
Subject: [PATCH 41/43] fix: the sampler binds only parameters the transpiled
 circuit still has

Optimizing transpilation may remove a parameter, e.g. a diagonal gate before a measurement; binding it failed.
---
 qdd/qdd_sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 862cfd8..a35f3b9 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -107,7 +107,12 @@ class Sampler(BaseSampler):
 
             experiment_manager.append(
                 key=i,
-                parameter_bind=dict(zip(self._parameters[i], value)),
+                # the transpilation may have removed parameters
+                parameter_bind={
+                    k: v
+                    for k, v in zip(self._parameters[i], value)
+                    if k in self._transpiled_circuits[i].parameters
+                },
                 experiment_circuit=self._transpiled_circuits[i],
             )
 
-- 
2.43.0


From c40bcbacc2dcc41d8ad76bbf8cccfb2590ab6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:30 +0000
Subject: [PATCH 42/43] fix: jobs that overlap in time take turns on the engine

---
 qdd/qdd_backend.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index da8bb5a..a64e2f1 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -4,6 +4,8 @@ import os
 import sys
 import uuid
 import dataclasses
+import functools
+import threading
 from collections import Counter
 from warnings import warn
 import time
@@ -28,6 +30,22 @@ from .circuit_property import CircuitProperty
 from qdd import pyQDD
 import math
 
+# The engine's tables, its garbage collector and its random numbers are shared by
+# all backends, while the primitives run every job in a thread of its own.
+_engine_lock = threading.RLock()
+
+
+def _exclusive(method):
+    """Lets the calls of the decorated methods take turns on the engine"""
+
+    @functools.wraps(method)
+    def wrapper(*args, **kwargs):
+        with _engine_lock:
+            return method(*args, **kwargs)
+
+    return wrapper
+
+
 _qiskit_gates_1q_0param: Dict = {
     qiskit_gates.HGate: "H",
     qiskit_gates.IGate: "I",
@@ -379,6 +397,7 @@ class QddBackend(BackendV1):
 
         return job
 
+    @_exclusive
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
         if experiments.options["n_threads"] > 1:
@@ -459,6 +478,7 @@ class QddBackend(BackendV1):
                 where[k] = target
         return gate
 
+    @_exclusive
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
-- 
2.43.0


From ddc9a851c1381f0f700b91c352306716edf8d4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:28 +0000
Subject: [PATCH 43/43] fix: the primitives accept circuits that Qiskit cannot
 compare

---
 qdd/circuit_property.py | 11 ++++++++++-
 qdd/qdd_estimator.py    |  5 ++++-
 qdd/qdd_sampler.py      |  5 ++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/qdd/circuit_property.py b/qdd/circuit_property.py
index 82c151e..1109085 100644
--- a/qdd/circuit_property.py
+++ b/qdd/circuit_property.py
@@ -1,7 +1,7 @@
 import dataclasses
 from typing import Dict
 
-from qiskit.circuit import Clbit, Qubit
+from qiskit.circuit import Clbit, QuantumCircuit, Qubit
 
 
 @dataclasses.dataclass
@@ -18,3 +18,12 @@ class CircuitProperty:
 
     stable_final_state: bool
     clbit_final_values: Dict[Clbit, Qubit]
+
+
+def same_circuit(circ1: QuantumCircuit, circ2: QuantumCircuit) -> bool:
+    """Whether the circuits are known to be equal"""
+    try:
+        return circ1 == circ2
+    except KeyError:
+        # Qiskit cannot compare some of the conditional gates with open controls
+        return False
diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index c4f831f..f721954 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -44,6 +44,7 @@ from qiskit.transpiler.passes import (
 )
 
 from qdd import QddProvider
+from qdd.circuit_property import same_circuit
 
 
 class Estimator(BaseEstimator):
@@ -146,7 +147,9 @@ class Estimator(BaseEstimator):
             # circuits that differ in a condition or in the definition of an
             # instruction have the same key
             same_key = self._circuit_ids.setdefault(_circuit_key(circuit), [])
-            index = next((i for i in same_key if self._circuits[i] == circuit), None)
+            index = next(
+                (i for i in same_key if same_circuit(self._circuits[i], circuit)), None
+            )
             if index is None:
                 index = len(self._circuits)
                 same_key.append(index)
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index a35f3b9..9ab6257 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -30,6 +30,7 @@ from qiskit.primitives.utils import final_measurement_mapping, init_circuit
 from qiskit.result import QuasiDistribution
 
 from qdd import QddProvider
+from qdd.circuit_property import same_circuit
 
 
 class Sampler(BaseSampler):
@@ -165,7 +166,9 @@ class Sampler(BaseSampler):
             # circuits that differ in a condition or in the definition of an
             # instruction have the same key
             same_key = self._circuit_ids.setdefault(_circuit_key(circuit), [])
-            index = next((i for i in same_key if self._circuits[i] == circuit), None)
+            index = next(
+                (i for i in same_key if same_circuit(self._circuits[i], circuit)), None
+            )
             if index is None:
                 index = len(self._circuits)
                 same_key.append(index)
-- 
2.43.0

