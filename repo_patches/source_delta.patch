From d3cd772a72e9744e0070b55b9a7b2f7836869e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 01/51] fix: VAmp can be solved again and its Z_output forms a
 proper Thevenin source

---
 phasor/electronics/opamps.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index 24ae1be..dfcb632 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -119,10 +119,10 @@ class VAmp(elements.ElectricalElementBase):
             (self.in_n.i, self.in_n.o),
             (self.out.i, self.out.o),
         ):
-            for kfrom in ports_algorithm.port_update_get(port1.i):
-                ports_algorithm.port_coupling_needed(port2.o, kfrom)
-            for kto in ports_algorithm.port_update_get(port2.o):
-                ports_algorithm.port_coupling_needed(port1.i, kto)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(port2, kfrom)
+            for kto in ports_algorithm.port_update_get(port2):
+                ports_algorithm.port_coupling_needed(port1, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
@@ -134,7 +134,8 @@ class VAmp(elements.ElectricalElementBase):
                 #if self.system.classical_frequency_test_max(kfrom, self.max_freq):
                 #    continue
                 freq = self.system.classical_frequency_extract(kfrom)
-                pgain = self.gain_by_freq(freq)
+                #the source wave which gives this gain into an open circuit behind Z_output
+                pgain = self.gain_by_freq(freq) * self.Ze_termination / (self.Z_output + self.Ze_termination)
                 matrix_algorithm.port_coupling_insert(
                     port1.i,
                     kfrom,
-- 
2.43.0


From 44ee9d47d87ae172b5c354c030f5adbe3a40ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 02/51] fix: electrical Cable delays by length_ns nanoseconds
 instead of raising AttributeError

---
 phasor/electronics/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/electronics/elements.py b/phasor/electronics/elements.py
index b99769c..47883f5 100644
--- a/phasor/electronics/elements.py
+++ b/phasor/electronics/elements.py
@@ -163,7 +163,7 @@ class Cable(Electrical2PortBase):
         return val
 
     def phase_advance(self, F):
-        return self.symbols.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns)
+        return self.symbols.math.exp(-self.symbols.i2pi * F * self.length_ns * 1e-9)
 
     def system_setup_ports(self, ports_algorithm):
         #TODO could reduce these with more information about used S-matrix elements
-- 
2.43.0


From 4f54dcea613011b36ddee6a47d7f9621a5cb4818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 03/51] fix: CurrentSourceBalanced returns its current through
 pe_B so that charge is conserved

---
 phasor/electronics/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/electronics/sources.py b/phasor/electronics/sources.py
index 94bd3a1..f1fc6bc 100644
--- a/phasor/electronics/sources.py
+++ b/phasor/electronics/sources.py
@@ -293,7 +293,7 @@ class CurrentSourceBalanced(smatrix.SMatrix2PortBase):
         matrix_algorithm.coherent_sources_insert(
             self.pe_B.o,
             self.fkey,
-            self.Ze_termination * self.I_DC,
+            -self.Ze_termination * self.I_DC,
         )
 
         for kfrom in matrix_algorithm.port_set_get(self.ps_In.i):
@@ -309,7 +309,7 @@ class CurrentSourceBalanced(smatrix.SMatrix2PortBase):
                 kfrom,
                 self.pe_B.o,
                 kfrom,
-                self.Ze_termination,
+                -self.Ze_termination,
             )
 
 
-- 
2.43.0


From faedbbc3c8d5079d9d9649f036121d59334ce278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/51] fix: ForceSourceBalanced pushes its two ends in
 opposite directions (Newton's third law)

---
 phasor/mechanical/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/sources.py b/phasor/mechanical/sources.py
index 3e60096..e09d0e2 100644
--- a/phasor/mechanical/sources.py
+++ b/phasor/mechanical/sources.py
@@ -293,7 +293,7 @@ class ForceSourceBalanced(smatrix.SMatrix2PortBase):
         matrix_algorithm.coherent_sources_insert(
             self.pm_B.o,
             self.fkey,
-            self.Zm_termination * self.F_DC,
+            -self.Zm_termination * self.F_DC,
         )
 
         for kfrom in matrix_algorithm.port_set_get(self.F.i):
@@ -309,7 +309,7 @@ class ForceSourceBalanced(smatrix.SMatrix2PortBase):
                 kfrom,
                 self.pm_B.o,
                 kfrom,
-                self.Zm_termination,
+                -self.Zm_termination,
             )
 
 
-- 
2.43.0


From c5f6c49f2c868143096d541911356e5025c16640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 05/51] fix: ForceReadout can be read beside readouts of other
 drives (propagate its terminal's keys)

---
 phasor/mechanical/multimeter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index dd8f778..9d6f8f2 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -76,6 +76,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
 
     @decl.dproperty
     def terminal(self, port):
+        self.system.own_port_virtual(self, port.i)
+        self.system.own_port_virtual(self, port.o)
         return port
 
     @decl.dproperty
@@ -91,8 +93,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
         #this linear port into the readout ports
         ports = [self.terminal.i, self.terminal.o]
         for port1 in ports:
-            #for kfrom in ports_algorithm.port_update_get(port1):
-            #    ports_algorithm.port_coupling_needed(self.d.o, kfrom)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(self.F.o, kfrom)
             for kto in ports_algorithm.port_update_get(self.F.o):
                 ports_algorithm.port_coupling_needed(port1, kto)
         return
-- 
2.43.0


From 029c2bdef53e1286ca591fc5f5cc00c4da984650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 06/51] fix: HeapPriorityQueueThreadsafe.pushpop calls
 heapq.heappushpop (heapq.pushpop does not exist)

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index b04d654..077fd1e 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -178,6 +178,6 @@ class HeapPriorityQueueThreadsafe(object):
         add item into the Queue then return the smallest
         """
         with self.lock:
-            return heapq.pushpop(self.heap, item)
+            return heapq.heappushpop(self.heap, item)
 
 
-- 
2.43.0


From b5fdb8ee37bea7c48b4d5f82e7d880f36e7f6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 07/51] fix: HeapPriorityQueueThreadsafe.peek takes the lock, a
 heap being sifted has no valid first element

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index 077fd1e..3d7aee5 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -134,10 +134,12 @@ class HeapPriorityQueueThreadsafe(object):
 
         :raises: :exc:`Queue.Empty` if no items contained
         """
-        try:
-            return self.heap[0]
-        except IndexError:
-            raise Empty()
+        #the heap is only ordered outside of the other operations
+        with self.lock:
+            try:
+                return self.heap[0]
+            except IndexError:
+                raise Empty()
 
     def is_empty(self):
         """
-- 
2.43.0


From b2c54c81853369111aadd0248d4b5be08754ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 08/51] fix: scisparse solvers accept a source vector together
 with probed inputs, and unreachable outputs

---
 phasor/matrix/scisparse_algorithm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/phasor/matrix/scisparse_algorithm.py b/phasor/matrix/scisparse_algorithm.py
index 46e59ed..cea5e98 100644
--- a/phasor/matrix/scisparse_algorithm.py
+++ b/phasor/matrix/scisparse_algorithm.py
@@ -36,9 +36,10 @@ def pk_prefs(*preflist, **kwargs):
                 )
             pk.purge_keys(*preflist)
             ksort.extend(sorted(pk.items()))
-            return tuple(ksort)
+            return 0, tuple(ksort)
         else:
-            return pk
+            #special nodes, these can't be compared with the others
+            return 1, pk
     return key
 
 #TODO organize this sortkeys algorithm into system or somewhere
@@ -146,6 +147,11 @@ def mgraph_simplify_inplace(
     for idx, k in enumerate(keys_alpha):
         keys_alpha_inv[k] = idx
 
+    if not keys:
+        #nothing connects the inputs to the outputs, and spsolve balks on empty matrices
+        edge_map.clear()
+        return
+
     #CSR generation routine
 
     arr_keys = []
-- 
2.43.0


From fcf8234e67558f054729055235e190cccaf6a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 09/51] fix: householder row operation on arrays whose diagonal
 vanishes at some points divided by zero

---
 phasor/matrix/DAG_algorithm_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 69ab2f3..4745c5f 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -369,7 +369,9 @@ def householderREFL_ROW_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    #the diagonal can vanish at some of the points of an array, any phase will do there
+    edge_zero = (abs(edge) == 0)
+    u_mod_edge = edge + norm_orig * (edge + edge_zero) / (abs(edge) + edge_zero)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
-- 
2.43.0


From 420b358831b3002eedc7348f6ad5a3d14332881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 10/51] fix: the pivoting elimination finds a pivot even when
 the normalised column is rounded below its threshold

---
 phasor/matrix/DAG_algorithm_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 4745c5f..334ada8 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -71,7 +71,8 @@ def reduceLUQ_row(
     if not np.all(np.isfinite(rvec)):
         print("NORMR: ", normr)
         assert(False)
-    bignodes_r = np.array(rvec) >= 1./(len(req[node]))**.5
+    #at least one must qualify, even if rvec is rounded down
+    bignodes_r = np.array(rvec) >= (1 - 1e-9)/(len(req[node]))**.5
     rcount = np.count_nonzero(bignodes_r)
     vprint("R: ", np.count_nonzero(bignodes_r), len(req[node]), bignodes_r[rvec_self_idx])
 
-- 
2.43.0


From b8ecc3d99d3b1421c380646eb35fdb2f7c78f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 11/51] fix: METIS_reorder removes its temporary files and
 closes its descriptors when ndmetis is missing, fails or is interrupted

---
 phasor/matrix/metis_reorder.py | 79 ++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/phasor/matrix/metis_reorder.py b/phasor/matrix/metis_reorder.py
index ee8d328..fcbf19b 100644
--- a/phasor/matrix/metis_reorder.py
+++ b/phasor/matrix/metis_reorder.py
@@ -97,6 +97,7 @@ def METIS_reorder(
     clear_file  = False,
 ):
     clear_results = True
+    METIS_fd = None
     if METIS_fname is tempfile:
         #TODO create tempfile
         METIS_fd, METIS_fname = tempfile.mkstemp(
@@ -105,44 +106,48 @@ def METIS_reorder(
         )
         clear_file = True
 
-        nlist = SRABE2METIS(
-            SRABE,
-            os.fdopen(os.dup(METIS_fd), 'w'),
-        )
-    else:
-        METIS_fd = None
-
-        nlist = SRABE2METIS(
-            SRABE,
-            METIS_fname,
-        )
-
-    import subprocess
     try:
-        retoutput = subprocess.check_output(
-            ['ndmetis', METIS_fname],
-        )
-    except subprocess.CalledProcessError as E:
-        print(E.output)
-        warnings.warn("Calling ndmetis failed. Is it installed? It will speed up the computation")
-        return None
-
-    nlistI = []
-    with open(METIS_fname + '.iperm', 'r') as FmetisO:
-        for line in FmetisO.readlines():
-            nlistI.append(int(line))
-    print(nlistI)
-    nlistI = np.asarray(nlistI)
-    nlist_reorder = []
-    for idx in np.argsort(nlistI):
-        nlist_reorder.append(nlist[idx])
-
-    if METIS_fd is not None:
-        os.close(METIS_fd)
-    if clear_file:
-        os.unlink(METIS_fname)
-    if clear_results:
-        os.unlink(METIS_fname + '.iperm')
+        if METIS_fd is not None:
+            with os.fdopen(os.dup(METIS_fd), 'w') as Fmetis:
+                nlist = SRABE2METIS(
+                    SRABE,
+                    Fmetis,
+                )
+        else:
+            nlist = SRABE2METIS(
+                SRABE,
+                METIS_fname,
+            )
+
+        import subprocess
+        try:
+            retoutput = subprocess.check_output(
+                ['ndmetis', METIS_fname],
+            )
+        except subprocess.CalledProcessError as E:
+            print(E.output)
+            warnings.warn("Calling ndmetis failed. Is it installed? It will speed up the computation")
+            return None
+
+        nlistI = []
+        with open(METIS_fname + '.iperm', 'r') as FmetisO:
+            for line in FmetisO.readlines():
+                nlistI.append(int(line))
+        print(nlistI)
+        nlistI = np.asarray(nlistI)
+        nlist_reorder = []
+        for idx in np.argsort(nlistI):
+            nlist_reorder.append(nlist[idx])
+    finally:
+        #never leave the files behind, also not when ndmetis is missing or fails
+        if METIS_fd is not None:
+            os.close(METIS_fd)
+        try:
+            if clear_file and os.path.exists(METIS_fname):
+                os.unlink(METIS_fname)
+        finally:
+            if clear_results and os.path.exists(METIS_fname + '.iperm'):
+                os.unlink(METIS_fname + '.iperm')
     #return None
     return nlist
     return nlist_reorder
-- 
2.43.0


From 9e6330463ad2d3342821b568542c36da4f7267e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 12/51] fix: backscattered light of a Mirror carries
 backscatter_phase, not the phase of the main reflection

---
 phasor/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 4f7f865..a926f8c 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -453,8 +453,8 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From 24e90aa154175bf4d9d74359e2346fdabdb19062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:20 +0000
Subject: [PATCH 13/51] fix: PolSelector couples its Bk_S input to po_Fr

---
 phasor/optics/selectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/selectors.py b/phasor/optics/selectors.py
index c77821e..24476f3 100644
--- a/phasor/optics/selectors.py
+++ b/phasor/optics/selectors.py
@@ -60,7 +60,7 @@ class PolSelector(
         for kfrom in matrix_algorithm.port_set_get(self.Bk_P.i):
             matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
         for kfrom in matrix_algorithm.port_set_get(self.Bk_S.i):
-            matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
+            matrix_algorithm.port_coupling_insert(self.Bk_S.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
-- 
2.43.0


From 89e01e4de517cf8a471469712f03944409085f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 14/51] fix: TransferFunctionSISO stores the transfer function
 it is given, not the builtin filter

---
 phasor/signals/siso_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 92c10fa..4331bbb 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -103,7 +103,7 @@ class TransferFunctionSISO(TransferFunctionSISOBase):
             **kwargs
     ):
         super().__init__(**kwargs)
-        PTREE_ASSIGN(self).filter = filter
+        PTREE_ASSIGN(self).filter = filter_func
         return
 
     def filter_func(self, freq):
-- 
2.43.0


From 975fd7ac880caa19f8901ca60f8cd8b45c974716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 15/51] fix: Gain has a default gain (its property decorator
 was missing)

---
 phasor/signals/siso_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 4331bbb..1c9ab57 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -124,6 +124,7 @@ class Integrator(TransferFunctionSISOBase):
 
 
 class Gain(TransferFunctionSISOBase):
+    @declarative.dproperty
     def gain(self, val = 1):
         return val
 
-- 
2.43.0


From 7c31495b49b38604e231e5abb31a5f1c69499d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 16/51] fix: StateSpaceModel feeds its D matrix to the outputs,
 not into the states

---
 phasor/signals/state_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/state_space.py b/phasor/signals/state_space.py
index e39890c..1da5a56 100644
--- a/phasor/signals/state_space.py
+++ b/phasor/signals/state_space.py
@@ -104,7 +104,7 @@ class StateSpaceModel(
                         ports_algorithm.port_coupling_needed(p_state.node, kfrom)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         ports_algorithm.port_coupling_needed(p_out.o, kfrom)
@@ -179,7 +179,7 @@ class StateSpaceModel(
                         matrix_algorithm.port_coupling_insert(p_in.i, kfrom, p_state.node, kfrom, D_cplg)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         #print("    ", p_out)
-- 
2.43.0


From f83a2c2f346d9a73aeed64b4f2b87c2488849fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 17/51] fix: MatrixAmplifier inserts its ports, one per output
 name

---
 phasor/signals/amplifiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/amplifiers.py b/phasor/signals/amplifiers.py
index c3fdda5..c8baa99 100644
--- a/phasor/signals/amplifiers.py
+++ b/phasor/signals/amplifiers.py
@@ -101,9 +101,9 @@ class MatrixAmplifier(bases.CouplerBase, bases.SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_gains.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.ps_In[iname] = self.insert(ports.SignalInPort(), 'ps_In_{0}'.format(iname))
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = self.insert(ports.SignalOutPort(), 'O_{0}'.format(oname))
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From d2077fa81864d61ae9b5ad2f15d84d194fdee26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 18/51] fix: TransferFunctionMIMO inserts its ports, one per
 output name

---
 phasor/signals/mimo_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/mimo_filter.py b/phasor/signals/mimo_filter.py
index 8775bad..272a5bf 100644
--- a/phasor/signals/mimo_filter.py
+++ b/phasor/signals/mimo_filter.py
@@ -35,9 +35,9 @@ class TransferFunctionMIMO(CouplerBase, SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_xfers.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.ps_In[iname] = self.insert(ports.SignalInPort(), 'ps_In_{0}'.format(iname))
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = self.insert(ports.SignalOutPort(), 'O_{0}'.format(oname))
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 9b852f71fb42285fda34eb54f9a27d0f40f1775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 19/51] fix: classical_frequency_test_max uses the frequency's
 value (max_freq raised TypeError) and bounds negative frequencies alike

---
 phasor/system/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index f837310..068b68f 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -291,8 +291,8 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz
-        if np.any(freq_Hz < max_freq):
+            freq_Hz += n * F.F_Hz.val
+        if np.any(abs(freq_Hz) < max_freq):
             return False
         return True
 
-- 
2.43.0


From 5f38bf0aae1897cc3b13a0374f41290f33b9e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 20/51] fix: ports of elements without couplings (bare
 SignalNodes) receive their field keys

---
 phasor/system/ports_algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/system/ports_algorithm.py b/phasor/system/ports_algorithm.py
index 7475694..45968db 100644
--- a/phasor/system/ports_algorithm.py
+++ b/phasor/system/ports_algorithm.py
@@ -60,14 +60,15 @@ class PortUpdatesAlgorithm(object):
         while self.owners_update:
             el = self.owners_update.pop()
             #print("Updating owner: ", el)
+            self._current_element = el
             try:
                 ssp = el.system_setup_ports
             except AttributeError:
                 pass
             else:
-                self._current_element = el
                 ssp(self)
-                self.resolve_port_updates()
+            #owners without couplings of their own (bare nodes) must still receive their keys
+            self.resolve_port_updates()
 
         return
 
-- 
2.43.0


From 9b3bfcd7a59d3acd4cfbb6b3858e1e39915fffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 21/51] fix: a port without any edge carries its own drive to
 its own readout

---
 phasor/matrix/DAG_algorithm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm.py b/phasor/matrix/DAG_algorithm.py
index c1b097a..d8faf8e 100644
--- a/phasor/matrix/DAG_algorithm.py
+++ b/phasor/matrix/DAG_algorithm.py
@@ -381,7 +381,10 @@ def inverse_solve_inplace(
             return
 
     if scattering:
-        keys = set(seq.keys()) | set(req.keys())
+        #nodes without any edge still carry their own drive to their own readout
+        keys = set(seq.keys()) | set(req.keys()) | set(inputs_set) | set(outputs_set)
+        if inputs_map is not None:
+            keys.update(inputs_map.keys())
         for node in keys:
             if node in seq[node]:
                 edge_map[node, node] = edge_map[node, node] - 1
-- 
2.43.0


From d41864f17c4802e04f60f44a02dc276a69a94493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 22/51] fix: Testpoint.DC reads the DC solution (it used an
 undefined attribute)

---
 phasor/readouts/testpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/testpoint.py b/phasor/readouts/testpoint.py
index e8ae31a..791cead 100644
--- a/phasor/readouts/testpoint.py
+++ b/phasor/readouts/testpoint.py
@@ -42,7 +42,7 @@ class Testpoint(base.SystemElementBase):
 
     @declarative.mproperty
     def DC(self):
-        sbunch = self.system.solution.driven_solution_get(self.port_set)
+        sbunch = self.system.solution.driven_solution_get('DC')
         pk_view = (self.port, self.key)
         val = sbunch.solution[pk_view]
         return val.real
-- 
2.43.0


From 3ac9559af16bcf538a8a0a275f1e3d731aa7ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 23/51] fix: current, force and differential readouts include
 noise sources on their own terminal in full

---
 phasor/electronics/multimeter.py | 8 ++++----
 phasor/mechanical/multimeter.py  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/phasor/electronics/multimeter.py b/phasor/electronics/multimeter.py
index ed3aa11..a3e46bd 100644
--- a/phasor/electronics/multimeter.py
+++ b/phasor/electronics/multimeter.py
@@ -51,8 +51,8 @@ class VoltageReadout(readouts.DCReadout, elements.ElectricalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -102,8 +102,8 @@ class CurrentReadout(readouts.DCReadout, elements.ElectricalElementBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
         pcplgs = {
-            self.terminal.i :  1 / self.Ze_termination,
-            self.terminal.o : -1 / self.Ze_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Ze_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Ze_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index 9d6f8f2..6d70b82 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -54,8 +54,8 @@ class DisplacementReadout(readouts.DCReadout, elements.MechanicalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
@@ -102,8 +102,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
     def system_setup_coupling(self, matrix_algorithm):
         #TODO, not sure about the 1/2 everywhere
         pcplgs = {
-            self.terminal.i :  1 / self.Zm_termination,
-            self.terminal.o : -1 / self.Zm_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Zm_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Zm_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
-- 
2.43.0


From ac744e6328be8388aa942eb95a1dba0a4a764af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 24/51] fix: voltage amplifier amplifies a noise source on its
 own input in full

---
 phasor/electronics/opamps.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index dfcb632..4f8d8e4 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -115,7 +115,6 @@ class VAmp(elements.ElectricalElementBase):
         #TODO could reduce these with more information about used S-matrix elements
         for port1, port2 in (
             (self.in_n.i, self.out.o),
-            (self.in_n.o, self.out.o),
             (self.in_n.i, self.in_n.o),
             (self.out.i, self.out.o),
         ):
@@ -126,6 +125,8 @@ class VAmp(elements.ElectricalElementBase):
         return
 
     def system_setup_coupling(self, matrix_algorithm):
+        #the input voltage is the incoming wave and its own reflection
+        input_term = ((1 - self.Y_input * self.Ze_termination) / (1 + self.Y_input * self.Ze_termination))
         for port1, port2 in (
             (self.in_n, self.out),
         ):
@@ -141,14 +142,7 @@ class VAmp(elements.ElectricalElementBase):
                     kfrom,
                     port2.o,
                     kfrom,
-                    -pgain,
-                )
-                matrix_algorithm.port_coupling_insert(
-                    port1.o,
-                    kfrom,
-                    port2.o,
-                    kfrom,
-                    -pgain,
+                    -pgain * (1 + input_term),
                 )
 
         #terminated like an OPEN/CURRENT SOURCE
@@ -156,13 +150,12 @@ class VAmp(elements.ElectricalElementBase):
             (self.in_n, self.in_n),
         ):
             for kfrom in matrix_algorithm.port_set_get(port1.i):
-                pgain = ((1 - self.Y_input * self.Ze_termination) / (1 + self.Y_input * self.Ze_termination))
                 matrix_algorithm.port_coupling_insert(
                     port1.i,
                     kfrom,
                     port2.o,
                     kfrom,
-                    pgain,
+                    input_term,
                 )
 
         #terminated like an SHORT/VOLTAGE SOURCE
-- 
2.43.0


From b1bcd1256a646965b93357cbe64444edc95117f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 25/51] fix: spring loss angle is odd in frequency

---
 phasor/mechanical/passive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phasor/mechanical/passive.py b/phasor/mechanical/passive.py
index d6697ce..6054ad4 100644
--- a/phasor/mechanical/passive.py
+++ b/phasor/mechanical/passive.py
@@ -67,7 +67,9 @@ class SpringBase(object):
     def mobility_by_freq(self, F):
         #TODO
         if self.loss_angle_by_freq is not None:
-            return self.elasticity_N_m * (1 + self.symbols.i * self.loss_angle_by_freq(F))
+            #the response is real in time, so the loss must be odd in frequency
+            loss_angle = self.symbols.math.sign(F) * self.loss_angle_by_freq(abs(F))
+            return self.elasticity_N_m * (1 + self.symbols.i * loss_angle)
         else:
             return self.elasticity_N_m
 
-- 
2.43.0


From cb0a6b1aa742c4460e90a9fc89d4be802c3ae5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 26/51] fix: fields needed in front of a non-absorbing
 photodiode are requested from its back

---
 phasor/optics/photodiode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/photodiode.py b/phasor/optics/photodiode.py
index 0c9b1ab..2c4663c 100644
--- a/phasor/optics/photodiode.py
+++ b/phasor/optics/photodiode.py
@@ -151,8 +151,9 @@ class MagicPD(
 
         for kfrom in ports_algorithm.port_update_get(self.po_Bk.i):
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.i][0], kfrom)
-        for kto in ports_algorithm.port_update_get(self.po_Bk.o):
-            ports_algorithm.port_coupling_needed(pmap[self.po_Bk.o][0], kto)
+        for port_o in (self.po_Bk.o, self.po_Fr.o):
+            for kto in ports_algorithm.port_update_get(port_o):
+                ports_algorithm.port_coupling_needed(pmap[port_o][0], kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 2ce6f943691d4d47bb34a59db5d8b322e1d03564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 27/51] fix: frequency doubler requests the same fields for
 either sign and order

---
 phasor/signals/mixer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phasor/signals/mixer.py b/phasor/signals/mixer.py
index c228f24..dfdd807 100644
--- a/phasor/signals/mixer.py
+++ b/phasor/signals/mixer.py
@@ -253,10 +253,12 @@ class Harmonic2Generator(bases.SignalElementBase):
                 freq_center_f2 = self.system.classical_frequency_extract_center(f2)
                 #make sure the frequencies have the same sign
                 if freq_center_f1 > 0:
-                    if freq_center_f2 < 0:
+                    if freq_center_f2 <= 0:
                         continue
+                elif freq_center_f1 == 0:
+                    continue
                 else:
-                    if freq_center_f2 > 0:
+                    if freq_center_f2 >= 0:
                         continue
                 f_new = f1 + f2
 
@@ -274,10 +276,12 @@ class Harmonic2Generator(bases.SignalElementBase):
                 freq_center_f2 = self.system.classical_frequency_extract_center(f_new)
 
                 if freq_center_f1 > 0:
-                    if freq_center_f2 < 0:
+                    if freq_center_f2 <= 0:
                         continue
+                elif freq_center_f1 == 0:
+                    continue
                 else:
-                    if freq_center_f2 > 0:
+                    if freq_center_f2 >= 0:
                         continue
 
                 if self.system.reject_classical_frequency_order(f_new):
-- 
2.43.0


From 02fa0452691b332f06130b0f3ad03157e270e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 28/51] fix: cross spectra of mixed real and complex
 contributions

---
 phasor/readouts/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/readouts/noise.py b/phasor/readouts/noise.py
index b170aaa..6744d86 100644
--- a/phasor/readouts/noise.py
+++ b/phasor/readouts/noise.py
@@ -141,7 +141,8 @@ class NoiseReadout(base.SystemElementBase):
                             if not np.all(np.isfinite(pspec_tot)):
                                 print("BADNESS: ", nobj.name_system, pspec_tot)
                             else:
-                                nsum += pspec_tot
+                                #not in place, contributions may widen the type (real to complex)
+                                nsum = nsum + pspec_tot
                                 ncollect[nobj][pnameP, pnameN] = ncollect[nobj][pnameP, pnameN] + pspec_tot
                 nsums[pnameP, pnameN] = nsum
         return declarative.Bunch(
-- 
2.43.0


From cffe6ea38b75a4eeae0fd6489660b71ed7729bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 29/51] fix: junctions generated to complete bonds are not
 repeated by regenerate

---
 phasor/system/system.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index 068b68f..407da88 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -319,9 +319,11 @@ class BGSystem(RootElement):
             #print("INCLUDE LST: ", self._include_lst)
             self._autoterminate()
 
-        for element in self.targets_recurse(VISIT.bond_completion):
-            #print("Bond Completion", element)
-            pass
+        with self.building:
+            #elements generated here belong to the bonds, and are not to be repeated by regenerate
+            for element in self.targets_recurse(VISIT.bond_completion):
+                #print("Bond Completion", element)
+                pass
 
         bad_completions = dict()
         while self._bond_completions_raw:
-- 
2.43.0


From 7787b91076bc8577b1cebcf23a5f91283b28ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 30/51] fix: bonds are carried over to every later
 regeneration, once

---
 phasor/electronics/ports.py |  6 +++++-
 phasor/mechanical/ports.py  | 12 ++++++++++--
 phasor/optics/ports.py      |  2 ++
 phasor/signals/ports.py     | 12 ++++++++++--
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/phasor/electronics/ports.py b/phasor/electronics/ports.py
index 768b33f..358e8cf 100644
--- a/phasor/electronics/ports.py
+++ b/phasor/electronics/ports.py
@@ -31,10 +31,14 @@ class ElectricalPortRaw(PortInOutRaw):
 class ElectricalPort(ElectricalPortRaw, bases.SystemElementBase):
     typename = 'Electrical'
 
+    _bonds_regenerated = False
+
     def _complete(self):
         if not super()._complete():
             prein = self.inst_preincarnation
-            if prein is not None:
+            if prein is not None and not self._bonds_regenerated:
+                #only once, even if this is completed again after an invalidate
+                self._bonds_regenerated = True
                 for built, bpartner in zip(prein._bond_partners_building, prein._bond_partners):
                     if not built:
                         new_bpartner = self.root[bpartner.name_system]
diff --git a/phasor/mechanical/ports.py b/phasor/mechanical/ports.py
index 8efc2a4..aa1d9aa 100644
--- a/phasor/mechanical/ports.py
+++ b/phasor/mechanical/ports.py
@@ -34,10 +34,14 @@ class MechanicalPortRaw(PortInOutRaw):
 class MechanicalPort(MechanicalPortRaw, bases.SystemElementBase):
     typename = 'Mechanical'
 
+    _bonds_regenerated = False
+
     def _complete(self):
         if not super()._complete():
             prein = self.inst_preincarnation
-            if prein is not None:
+            if prein is not None and not self._bonds_regenerated:
+                #only once, even if this is completed again after an invalidate
+                self._bonds_regenerated = True
                 for built, bpartner in zip(prein._bond_partners_building, prein._bond_partners):
                     if not built:
                         new_bpartner = self.root[bpartner.name_system]
@@ -161,10 +165,14 @@ class MechanicalXYZPort(bases.SystemElementBase):
             val = self.t_port()
         return val
 
+    _bonds_regenerated = False
+
     def _complete(self):
         if not super()._complete():
             prein = self.inst_preincarnation
-            if prein is not None:
+            if prein is not None and not self._bonds_regenerated:
+                #only once, even if this is completed again after an invalidate
+                self._bonds_regenerated = True
                 for built, bpartner in zip(prein._bond_partners_building, prein._bond_partners):
                     if not built:
                         new_bpartner = self.root[bpartner.name_system]
diff --git a/phasor/optics/ports.py b/phasor/optics/ports.py
index 05e2a65..d1506a3 100644
--- a/phasor/optics/ports.py
+++ b/phasor/optics/ports.py
@@ -68,6 +68,8 @@ class OpticalPort(OpticalPortRaw, bases.SystemElementBase):
                     #auto-insert bond partner as it was inserted during building
                     getnew = self.root[prein._bond_partner.name_system]
                     self._bond_partner = getnew
+                    #and retain it for further regenerations
+                    self._building_bonded = False
                     assert(self.root is getnew.root)
         return
 
diff --git a/phasor/signals/ports.py b/phasor/signals/ports.py
index d291c9e..933f282 100644
--- a/phasor/signals/ports.py
+++ b/phasor/signals/ports.py
@@ -70,10 +70,14 @@ class SignalCommonPortBase(bases.SystemElementBase):
             return super().targets_list(typename)
 
 class SignalInPortBase(bases.SystemElementBase):
+    _bonds_in_regenerated = False
+
     def _complete(self):
         if not super()._complete():
             prein = self.inst_preincarnation
-            if prein is not None:
+            if prein is not None and not self._bonds_in_regenerated:
+                #only once, even if this is completed again after an invalidate
+                self._bonds_in_regenerated = True
                 for built, bpartner in zip(prein._bond_partners_in_building, prein._bond_partners_in):
                     if not built:
                         new_bpartner = self.root[bpartner.name_system]
@@ -113,10 +117,14 @@ class SignalInPort(
 
 
 class SignalOutPortBase(bases.SystemElementBase):
+    _bonds_out_regenerated = False
+
     def _complete(self):
         if not super()._complete():
             prein = self.inst_preincarnation
-            if prein is not None:
+            if prein is not None and not self._bonds_out_regenerated:
+                #only once, even if this is completed again after an invalidate
+                self._bonds_out_regenerated = True
                 for built, bpartner in zip(prein._bond_partners_out_building, prein._bond_partners_out):
                     if not built:
                         new_bpartner = self.root[bpartner.name_system]
-- 
2.43.0


From 62d367d7c737ac1659b19a0cdaccf6b5a83bebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 31/51] fix: a regenerated system passes on all of its elements
 when it is itself regenerated

---
 phasor/base/autograft.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index ca1e63a..67b086a 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -379,6 +379,8 @@ class Element(
                 return pl
             else:
                 item = self._registry_inserted_pre.pop(name)
+                #as for _complete, insert to registry regardless of if building
+                self._registry_inserted[name] = item
                 return self.insert(obj = item, name = name)
 
     def __getattr__(self, name):
@@ -543,6 +545,8 @@ class RootElement(Element):
     _overridable_object_kwargs = None
 
     def regenerate(self, ctree = None, **kwargs):
+        #if this is itself regenerated, it must acquire everything that it will pass on
+        self._complete()
         usekwargs = dict(self._overridable_object_kwargs)
         if ctree is not None:
             usekwargs['ctree'] = ctree
-- 
2.43.0


From 44f97a642c54bb57b3a86eaef492b56c237c674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 32/51] fix: arguments of regenerated elements refer to the
 regenerated system

---
 phasor/base/autograft.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index 67b086a..a75b95c 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -31,6 +31,7 @@ from declarative.utilities.future_from_2 import (
 )
 
 from ..utilities.future_from_2 import repr_compat
+from .dictionary_keys import DictKey, FrequencyKey
 
 if __debug__:
     mproperty_check = dproperty
@@ -330,6 +331,36 @@ class Element(
     def _registry_inserted(self):
         return dict()
 
+    def _regenerate_arguments(self, obj):
+        """
+        The constructors repeated by regenerate hold their original arguments. Those which are (or contain)
+        elements of the previous system, such as ports and frequencies, must become the corresponding
+        elements of this one.
+        """
+        root_pre = self.root.inst_preincarnation
+        if root_pre is None or not isinstance(obj, ElementConstructorInternal):
+            return obj
+
+        def convert(arg):
+            if isinstance(arg, Element):
+                if arg.root is root_pre:
+                    return self.root[arg.name_system]
+                return arg
+            elif type(arg) in (list, tuple, set):
+                return type(arg)([convert(a) for a in arg])
+            elif type(arg) in (dict, DictKey):
+                return type(arg)({convert(k) : convert(v) for k, v in arg.items()})
+            elif type(arg) is FrequencyKey:
+                return FrequencyKey(convert(arg.F_dict))
+            return arg
+
+        return ElementConstructorInternal(
+            new    = obj._new,
+            cls    = obj._cls,
+            args   = convert(obj._args),
+            kwargs = convert(obj._kwargs),
+        )
+
     _is_completed = False
     def _complete(self):
         if self._is_completed:
@@ -339,6 +370,7 @@ class Element(
         while registry:
             k, v = registry.popitem()
             if k not in self._registry_children:
+                v = self._regenerate_arguments(v)
                 #insert to registry regardless of if building
                 self._registry_inserted[k] = v
                 #and insert
@@ -379,6 +411,7 @@ class Element(
                 return pl
             else:
                 item = self._registry_inserted_pre.pop(name)
+                item = self._regenerate_arguments(item)
                 #as for _complete, insert to registry regardless of if building
                 self._registry_inserted[name] = item
                 return self.insert(obj = item, name = name)
-- 
2.43.0


From 54790ecbc719ac499fe738b6d35b79e034f6c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 33/51] fix: a reused configuration tree does not leak into
 systems regenerated from it before

---
 phasor/base/autograft.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index a75b95c..cc66dd2 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -556,6 +556,12 @@ class RootElement(Element):
         if isinstance(arg, ShadowBunchView):
             arg = arg.extractidx('new')
 
+        if isinstance(arg, (dict, DeepBunch)):
+            #values are looked up lazily, so hold a copy in case the argument is later reused for other systems
+            overrides = arg
+            arg = DeepBunch()
+            arg.update_recursive(overrides)
+
         full = DeepBunchSingleAssign()
         immed = DeepBunchSingleAssign()
         dicts = [full, immed, ]
-- 
2.43.0


From eb22918d5d812ae27f53903a744b6d4967e780df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 34/51] fix: a reused configuration tree does not leak into
 later regenerations of systems made before

---
 phasor/base/autograft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index cc66dd2..2cc6268 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -561,6 +561,8 @@ class RootElement(Element):
             overrides = arg
             arg = DeepBunch()
             arg.update_recursive(overrides)
+            #regenerate repeats the arguments, the copy must be the one repeated
+            self._overridable_object_kwargs = dict(self._overridable_object_kwargs, ctree = arg)
 
         full = DeepBunchSingleAssign()
         immed = DeepBunchSingleAssign()
-- 
2.43.0


From 50d04fbedded628d056a76ab5fbcf67a15807c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 35/51] fix: a system whose setup was interrupted refuses to be
 solved instead of giving the answers of a different system

---
 phasor/base/autograft.py | 48 +++++++++++++++++++++++++++-------------
 phasor/system/system.py  |  3 +++
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index 2cc6268..43f88a3 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -367,16 +367,21 @@ class Element(
             return True
         self._is_completed = True
         registry = self._registry_inserted_pre
-        while registry:
-            k, v = registry.popitem()
-            if k not in self._registry_children:
-                v = self._regenerate_arguments(v)
-                #insert to registry regardless of if building
-                self._registry_inserted[k] = v
-                #and insert
-                self.insert(obj = v, name = k)
-        for k, v in self._registry_children.items():
-            v._complete()
+        try:
+            while registry:
+                k, v = registry.popitem()
+                if k not in self._registry_children:
+                    v = self._regenerate_arguments(v)
+                    #insert to registry regardless of if building
+                    self._registry_inserted[k] = v
+                    #and insert
+                    self.insert(obj = v, name = k)
+            for k, v in self._registry_children.items():
+                v._complete()
+        except BaseException:
+            #what was interrupted can't be resumed, don't let it pass for complete
+            self.root._is_interrupted = True
+            raise
         return False
 
     def invalidate(self):
@@ -410,11 +415,18 @@ class Element(
                     pl = pl[k]
                 return pl
             else:
-                item = self._registry_inserted_pre.pop(name)
-                item = self._regenerate_arguments(item)
-                #as for _complete, insert to registry regardless of if building
-                self._registry_inserted[name] = item
-                return self.insert(obj = item, name = name)
+                #let the KeyError through before anything is changed
+                self._registry_inserted_pre[name]
+                try:
+                    item = self._registry_inserted_pre.pop(name)
+                    item = self._regenerate_arguments(item)
+                    #as for _complete, insert to registry regardless of if building
+                    self._registry_inserted[name] = item
+                    return self.insert(obj = item, name = name)
+                except BaseException:
+                    #what was interrupted can't be resumed, don't let it pass for complete
+                    self.root._is_interrupted = True
+                    raise
 
     def __getattr__(self, name):
         try:
@@ -573,6 +585,12 @@ class RootElement(Element):
             dicts.append(arg)
         return ShadowBunchN(dicts)
 
+    _is_interrupted = False
+    def _complete(self):
+        if self._is_interrupted:
+            raise RuntimeError("The setup of this system was interrupted, so it may be missing parts. It must be built again")
+        return super(RootElement, self)._complete()
+
     def ctree_shadow(self):
         new = DeepBunch()
         return ShadowBunchView(
diff --git a/phasor/system/system.py b/phasor/system/system.py
index 407da88..c16e64e 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -299,6 +299,8 @@ class BGSystem(RootElement):
     def _setup_sequence(self):
         self._complete()
         assert(not self._frozen)
+        #if an exception cuts the setup short, repeating it would give a different system. Refuse to do so.
+        self._is_interrupted = True
 
         with self.building:
             #must do delegate calls before autotermination
@@ -351,6 +353,7 @@ class BGSystem(RootElement):
             ports_algorithm  = self.port_algo,
             matrix_algorithm = self.matrix_algorithm,
         )
+        self._is_interrupted = False
         return
 
     def bond_completion_raw_pair(self, pe_1, pe_2, raw_port1, raw_port2):
-- 
2.43.0


From f5bc70366e7f42d2ad74417253d40383a8683434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 36/51] fix: elements at the same location of a beamline can be
 ordered

---
 phasor/alm/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 23569b3..22f1d15 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -78,7 +78,8 @@ class System(
             if isinstance(ch, bases.MatrixAtsBase):
                 if ch.loc_m.ref is not None:
                     loc_ch_list.append((ch.loc_m.ref, ch))
-        loc_ch_list.sort()
+        #at equal locations, those without width can only stand before the others
+        loc_ch_list.sort(key = lambda loc_ch : (loc_ch[0], loc_ch[1].width_m))
         #print(loc_ch_list)
         clist = [ch for loc, ch in loc_ch_list]
         return clist
-- 
2.43.0


From de7b656ce9a764d0e7786dcc54213fe90bd81686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 37/51] fix: beamline matrices and beams at one position or at
 positions in any order

---
 phasor/alm/bases.py        | 20 +++++++++-----------
 phasor/alm/measurements.py |  6 +++++-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 6406e6e..e153097 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -104,18 +104,16 @@ class MatrixAtsBase(Element):
             if len(z_m.shape) == 1 and np_check_sorted(z_m):
                 return self.matrix_target_to_z_linsorted(tidx1, z_m, fill, invert = invert)
 
-            fill_reshape = fill.reshape(2, 2, -1)
-            idx_remux = np.indices(z_m.shape)
-            idx_remux = idx_remux.reshape(len(z_m.shape), -1)
-            z_m = z_m.reshape(-1)
-            sidx = np.argsort(z_m)
-            z_m = z_m[sidx]
-            idx_remux = idx_remux[:, sidx]
-            self.matrix_target_to_z_linsorted(tidx1, z_m, fill_reshape, invert = invert)
-            fill = fill_reshape[(slice(None), slice(None)) + tuple(idx_remux[i] for i in range(idx_remux.shape[0]))]
-            return
+            z_flat = z_m.reshape(-1)
+            sidx = np.argsort(z_flat)
+            fill_sorted = np.empty((2, 2) + z_flat.shape)
+            self.matrix_target_to_z_linsorted(tidx1, z_flat[sidx], fill_sorted, invert = invert)
+            fill_flat = np.empty((2, 2) + z_flat.shape)
+            fill_flat[:, :, sidx] = fill_sorted
+            fill[...] = fill_flat.reshape((2, 2) + z_m.shape)
+            return fill
         else:
-            return self.matrix_target_to_z_single(z_m)
+            return self.matrix_target_to_z_single(tidx1, z_m, invert = invert)
 
     def matrix_target_to_z_linsorted(self, tidx1, z_m, fill, invert = False):
         it = np.nditer(z_m, flags = ['multi_index'])
diff --git a/phasor/alm/measurements.py b/phasor/alm/measurements.py
index 7ab75bd..15d7d77 100644
--- a/phasor/alm/measurements.py
+++ b/phasor/alm/measurements.py
@@ -182,7 +182,8 @@ class Measurements(Element):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx_beam, z_m, fill)
         else:
-            mat = self.matrix_at(z_m)
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx_beam, z_m, fill)
         target_obj = self.layout.target_obj(tidx_beam)
         q_in = target_obj.beam_q
         q = q_in.propagate_matrix(mat)
@@ -196,6 +197,9 @@ class Measurements(Element):
         elif np_check_sorted(z_m):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx, z_m, fill)
+        else:
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx, z_m, fill)
         return mat
 
     def mat_target_between(self, tname1, tname2):
-- 
2.43.0


From 3b148a239afe29a6ea7a655ba47289a7b9415442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 38/51] fix: thick lenses and substrates use one convention for
 rays, so that a plate shortens the path by its index rather than its square

---
 phasor/alm/bases.py      | 70 ++++++++++++++++------------------------
 phasor/alm/composites.py |  1 +
 2 files changed, 28 insertions(+), 43 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index e153097..56f5b85 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -246,6 +246,9 @@ class ThinLens(ThinBase):
 
 
 class LensInterface(ThinBase):
+    """
+    Uses reduced rays (the slope times the index), as the matrices of spaces do.
+    """
     substrate_from = substrate_environment
     substrate_to   = substrate_environment
 
@@ -255,68 +258,49 @@ class LensInterface(ThinBase):
     def matrix(self):
         n_from = self.substrate_from.n(self)
         n_to   = self.substrate_to.n(self)
+        #reversing exchanges the substrates and flips the sign of the curvature, which leaves the same matrix
         if self.R_m.val is not None:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_from/n_to - 1)/self.R_m.val, n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_to/n_from - 1)/-self.R_m.val, n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1, 0],
+                [(n_from - n_to)/self.R_m.val, 1],
+            ])
         else:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1 , 0],
+                [0 , 1],
+            ])
         return mat
 
     @declarative.mproperty
     def matrix_inv(self):
-        n_to = self.substrate_from.n(self)
-        n_from = self.substrate_to.n(self)
+        n_from = self.substrate_from.n(self)
+        n_to   = self.substrate_to.n(self)
         if self.R_m.val is not None:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_from/n_to - 1)/self.R_m.val, n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1, 0],
-                    [(n_to/n_from - 1)/-self.R_m.val, n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1, 0],
+                [(n_to - n_from)/self.R_m.val, 1],
+            ])
         else:
-            if not self.env_reversed:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_from / n_to],
-                ])
-            else:
-                mat = np.matrix([
-                    [1 , 0],
-                    [0 , n_to / n_from],
-                ])
+            mat = np.matrix([
+                [1 , 0],
+                [0 , 1],
+            ])
         return mat
 
 
 class Mirror(ThinBase):
+    #the substrate that the beam is reflected within
+    substrate = substrate_environment
+
     R_m = attrs.generate_R_m()
 
     @declarative.mproperty
     def matrix(self):
         if self.R_m.val is not None:
+            n = self.substrate.n(self) / substrate_environment.n(self)
             mat = np.matrix([
                 [1,      0],
-                [-2/self.R_m.val, 1],
+                [-2 * n/self.R_m.val, 1],
             ])
         else:
             mat = np.matrix([
diff --git a/phasor/alm/composites.py b/phasor/alm/composites.py
index 15e43f8..b7e28ed 100644
--- a/phasor/alm/composites.py
+++ b/phasor/alm/composites.py
@@ -195,6 +195,7 @@ class PLCXMirror(system.SystemStack):
     def mirror(self):
         return bases.Mirror(
             ROC_preferred = self.ROC_preferred,
+            substrate = self.substrate_inner,
             loc_m = None,
         )
 
-- 
2.43.0


From bc766a92cc6ae618ac9b9854e81502c68dbb9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 39/51] fix: a generic ABCD element is traversed backward when
 reversed

---
 phasor/alm/bases.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 56f5b85..b55cb09 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -385,5 +385,8 @@ class ABCDGeneric(ThinBase):
 
     @declarative.mproperty
     def matrix(self):
-        return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
+        if not self.env_reversed:
+            return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
+        else:
+            return np.matrix([[self.D, self.B.val], [self.C.val, self.A.val]])
 
-- 
2.43.0


From 43574afa3959d1c452e7b03fc37d08165b0c4dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 40/51] fix: beams beyond the ends of a beamline propagate in
 its environment as they do within it

---
 phasor/alm/system.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 22f1d15..ff05a65 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -21,6 +21,10 @@ from .utils import (
     matrix_space,
 )
 
+from .substrates import (
+    substrate_environment,
+)
+
 from . import bases
 from . import space
 
@@ -322,6 +326,10 @@ class System(
         self._matrix_between_memomap[(tidx1, tidx2)] = mat
         return mat
 
+    def _matrix_space_outer(self, L_m):
+        #beyond the ends is the same environment as within the gaps
+        return matrix_space(L_m / substrate_environment.n(self))
+
     def matrix_target_to_z_single(self, tidx1, z_m, invert = False):
         if tidx1 == TargetLeft:
             mat = self.matrix_at_single(z_m)
@@ -356,7 +364,7 @@ class System(
                 else:
                     for subcomp in reversed(self.filled_list[:tidx1_outer]):
                         mat = subcomp.matrix_inv * mat
-                    mat = matrix_space((z_m - self.positions_list[0])) * mat
+                    mat = self._matrix_space_outer(z_m - self.positions_list[0]) * mat
             elif z_m > pos_R:
                 mat = comp.matrix_between(tidx1_inner, TargetRight)
                 idx_z_comp = np.searchsorted(
@@ -373,7 +381,7 @@ class System(
                 else:
                     for subcomp in self.filled_list[tidx1_outer+1:]:
                         mat = subcomp.matrix * mat
-                    mat = matrix_space(z_m - self.positions_list[-1]) * mat
+                    mat = self._matrix_space_outer(z_m - self.positions_list[-1]) * mat
             else:
                 return comp.matrix_target_to_z_single(tidx1_inner, z_m - pos_L, invert = invert)
             return mat
@@ -403,13 +411,13 @@ class System(
             z_m, side = 'right',
         ) - 1
         if idx_m < 0:
-            mat = matrix_space(L_m = z_m)
+            mat = self._matrix_space_outer(z_m)
         elif idx_m < len(self.filled_list):
             mat = mat_list[idx_m]
             comp = self.filled_list[idx_m]
             mat = comp.matrix_target_to_z_single(TargetLeft, z_m - self.positions_list[idx_m]) * mat
         else:
-            mat = matrix_space(z_m - self.positions_list[-1]) * self.matrix
+            mat = self._matrix_space_outer(z_m - self.positions_list[-1]) * self.matrix
         return mat
 
     def system_data_targets(self, typename):
-- 
2.43.0


From 0b6e9c80d85c5dd00daa30acd4d4e4cd6fbadee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 41/51] fix: the gaps of a beamline follow the elements
 inserted after it was first queried

---
 phasor/alm/system.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index ff05a65..763c4bd 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -88,14 +88,22 @@ class System(
         clist = [ch for loc, ch in loc_ch_list]
         return clist
 
+    def _internal_ctree_clear(self):
+        #the spaces are always made anew, the values of those from a previous layout can't be found as if they were settings
+        for level in ('full', 'immediate'):
+            ctree = self._internal.ctree.useidx(level)
+            for name in self._internal._registry_children:
+                try:
+                    del ctree[name]
+                except KeyError:
+                    pass
+        return
+
     @declarative.mproperty(simple_delete = True)
     @invalidate_auto
     def component_pos_pairings(self):
         with self.building:
-            try:
-                del self.ctree['_internal']
-            except KeyError:
-                pass
+            self._internal_ctree_clear()
             components_pos = []
             components_filled = []
             loc_m = 0
-- 
2.43.0


From f2f6ce1f70ec4e758f3084849cff97a8b1d78c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 42/51] fix: identity ray matrices are matrices, so that
 inverting one doesn't divide its elements

---
 phasor/alm/bases.py  |  4 ++--
 phasor/alm/mounts.py |  4 ++--
 phasor/alm/system.py | 12 ++++++------
 phasor/alm/target.py |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index b55cb09..89e8bcd 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -79,7 +79,7 @@ class MatrixAtsBase(Element):
     def matrix_between(self, tidx1, tidx2):
         if tidx1 == TargetLeft:
             if tidx2 == TargetLeft:
-                return np.eye(2)
+                return np.asmatrix(np.eye(2))
             elif tidx2 == TargetRight:
                 return self.matrix
             else:
@@ -88,7 +88,7 @@ class MatrixAtsBase(Element):
             if tidx2 == TargetLeft:
                 return self.matrix_inv
             elif tidx2 == TargetRight:
-                return np.eye(2)
+                return np.asmatrix(np.eye(2))
             else:
                 raise RuntimeError("Unknown Target {0}".format(tidx1))
         else:
diff --git a/phasor/alm/mounts.py b/phasor/alm/mounts.py
index 346e8e7..899ce19 100644
--- a/phasor/alm/mounts.py
+++ b/phasor/alm/mounts.py
@@ -95,7 +95,7 @@ class MountBase(
     def matrix_between(self, tidx1, tidx2):
         if tidx1 == TargetLeft:
             if tidx2 == TargetLeft:
-                return np.eye(2)
+                return np.asmatrix(np.eye(2))
             elif tidx2 == TargetRight:
                 return self.matrix
             else:
@@ -109,7 +109,7 @@ class MountBase(
             if tidx2 == TargetLeft:
                 return self.matrix_inv
             elif tidx2 == TargetRight:
-                return np.eye(2)
+                return np.asmatrix(np.eye(2))
             else:
                 tidx2_outer = tidx2[-1]
                 if tidx2_outer != 0:
diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 763c4bd..d43f458 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -249,7 +249,7 @@ class System(
     @declarative.mproperty(simple_delete = True)
     @invalidate_auto
     def component_matrix_list(self):
-        mat = np.eye(2)
+        mat = np.asmatrix(np.eye(2))
         mat_list = [mat]
         for comp in self.filled_list:
             mat = comp.matrix * mat
@@ -264,7 +264,7 @@ class System(
     @declarative.mproperty(simple_delete = True)
     @invalidate_auto
     def matrix_inv(self):
-        mat = np.eye(2)
+        mat = np.asmatrix(np.eye(2))
         for comp in reversed(self.filled_list):
             #print comp.matrix * comp.matrix_inv
             #print comp
@@ -282,13 +282,13 @@ class System(
             return result
         if tidx1 == TargetLeft:
             if tidx2 == TargetLeft:
-                mat = np.eye(2)
+                mat = np.asmatrix(np.eye(2))
             elif tidx2 == TargetRight:
                 mat = self.matrix
             else:
                 tidx2_outer = tidx2[-1]
                 tidx2_inner = TargetIdx(tidx2[:-1])
-                mat = np.eye(2)
+                mat = np.asmatrix(np.eye(2))
                 for comp in self.filled_list[:tidx2_outer]:
                     mat = comp.matrix * mat
                 mat = self.filled_list[tidx2_outer].matrix_between(TargetLeft, tidx2_inner) * mat
@@ -296,11 +296,11 @@ class System(
             if tidx2 == TargetLeft:
                 mat = self.matrix**(-1)
             elif tidx2 == TargetRight:
-                mat = np.eye(2)
+                mat = np.asmatrix(np.eye(2))
             else:
                 tidx2_outer = tidx2[-1]
                 tidx2_inner = TargetIdx(tidx2[:-1])
-                mat = np.eye(2)
+                mat = np.asmatrix(np.eye(2))
                 for comp in reversed(self.filled_list[tidx2_outer+1:]):
                     mat = comp.matrix_inv * mat
                 mat = self.filled_list[tidx2_outer].matrix_between(TargetRight, tidx2_inner) * mat
diff --git a/phasor/alm/target.py b/phasor/alm/target.py
index add89cb..5c505c1 100644
--- a/phasor/alm/target.py
+++ b/phasor/alm/target.py
@@ -68,7 +68,7 @@ class BeamTargetBase(bases.NoP):
             pass
         else:
             raise RuntimeError("Unknown Target {0}".format(tidx1))
-        return np.eye(2)
+        return np.asmatrix(np.eye(2))
 
 
 class BeamTarget(BeamTargetBase):
-- 
2.43.0


From 1f0f0474164770c9d15c6fa8ecff1d5e817e1d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 43/51] fix: the gaps of a replica of a beamline are its own
 rather than those of its prototype

---
 phasor/alm/system.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index d43f458..a201129 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -30,12 +30,20 @@ from . import space
 
 from . import standard_attrs as attrs
 
+class InternalElement(Element):
+    """
+    Holds the spaces within the gaps of the layout, which must never be taken from the gaps of a prototype
+    """
+    inst_prototype   = None
+    inst_prototype_t = None
+
+
 class System(
     bases.MatrixAtsCompositeBase,
 ):
     @declarative.mproperty
     def _internal(self):
-        return Element()
+        return InternalElement()
 
     _loc_default = ('loc_m', None)
     loc_m = attrs.generate_loc_m()
-- 
2.43.0


From f4b248514efc811983930b5ee241b7a30ac92b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 44/51] fix: the beam of a cavity follows the elements inserted
 into the cavity after it was first queried

---
 phasor/alm/target.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phasor/alm/target.py b/phasor/alm/target.py
index 5c505c1..fc8a8cc 100644
--- a/phasor/alm/target.py
+++ b/phasor/alm/target.py
@@ -6,6 +6,8 @@ from ..utilities.future_from_2 import str
 import numpy as np
 import declarative
 
+from ..base.autograft import invalidate_auto
+
 from .beam_param import (
     ComplexBeamParam
 )
@@ -97,7 +99,8 @@ class BeamTarget(BeamTargetBase):
                     q_item = q_item.value
                 return q_item
 
-    @declarative.mproperty
+    @declarative.mproperty(simple_delete = True)
+    @invalidate_auto
     def beam_q(self):
         wavelen = self.root.env_wavelength_nm * 1e-9
 
-- 
2.43.0


From 5bed92235cfac75caa2ebdd4e26d19ad7ed9b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 45/51] fix: an element queried again after its first query was
 interrupted has the values it was made with

---
 phasor/base/multi_unit_args.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phasor/base/multi_unit_args.py b/phasor/base/multi_unit_args.py
index 207f4aa..6991af8 100644
--- a/phasor/base/multi_unit_args.py
+++ b/phasor/base/multi_unit_args.py
@@ -51,6 +51,11 @@ def generate_refval_attribute(
             #self.ctree[ctree_name]["from"] = self.inst_prototype.name_system + "." + preferred_attr
             sources.clear()
         else:
+            if not sources:
+                #the sources are only passed once. If the setup was interrupted then, they are still in the constructor arguments
+                kwargs = self._overridable_object_kwargs or {}
+                sources = {k : kwargs[k] for k in group if k in kwargs}
+
             if len(sources) > 1:
                 raise RuntimeError("Must Provide only one in: {0}".format(list(group.keys())))
             elif len(sources) == 0:
-- 
2.43.0


From 0577fc982a8a28fed2bb77f0fd2fe2932c23c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 46/51] fix: a replica of an element of a regenerated system
 has the parts which that element is yet to take over

---
 phasor/base/autograft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index 43f88a3..d037cee 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -316,6 +316,8 @@ class Element(
 
         #use the inst_prototype's if not otherwise defined
         if self.inst_prototype is not None:
+            #including those which the prototype is yet to take from its own
+            pre.update(self.inst_prototype._registry_inserted_pre)
             pre.update(self.inst_prototype._registry_inserted)
 
         if self.inst_preincarnation is not None:
@@ -365,9 +367,9 @@ class Element(
     def _complete(self):
         if self._is_completed:
             return True
-        self._is_completed = True
         registry = self._registry_inserted_pre
         try:
+            self._is_completed = True
             while registry:
                 k, v = registry.popitem()
                 if k not in self._registry_children:
-- 
2.43.0


From 4c7103790b35298d61c651347edb912429abeecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 47/51] fix: an element whose prototype, name or configuration
 was interrupted while first looked up still has it afterwards

---
 phasor/base/autograft.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index d037cee..86206db 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -219,12 +219,22 @@ class Element(
     BaseGetattr,
 ):
 
+    def _argument_kept(self, name, arg):
+        """
+        Arguments of lazily evaluated properties are passed to them once. If that evaluation was interrupted,
+        then they are still in the constructor arguments.
+        """
+        if arg is NOARG and self._overridable_object_kwargs is not None:
+            arg = self._overridable_object_kwargs.get(name, NOARG)
+        return arg
+
     @mproperty_check
     def name_child(self, arg):
         return arg
 
     @mproperty_check
     def name(self, arg = NOARG):
+        arg = self._argument_kept('name', arg)
         if arg is NOARG:
             #TODO, make this output the shortest unique root name
             arg = self.name_system
@@ -242,6 +252,7 @@ class Element(
 
     @mproperty_check
     def ctree(self, arg = NOARG):
+        arg = self._argument_kept('ctree', arg)
         if arg is NOARG:
             arg = self.parent.generate_child_ctree(self.name_child, self)
         return arg
@@ -262,6 +273,7 @@ class Element(
 
     @mproperty
     def inst_prototype(self, arg = NOARG):
+        arg = self._argument_kept('inst_prototype', arg)
         if arg is NOARG:
             if self.parent is None:
                 return None
@@ -283,6 +295,7 @@ class Element(
     @mproperty_check
     def inst_prototype_t(self, arg = NOARG):
         #TODO: clean up prototype name semantics
+        arg = self._argument_kept('inst_prototype_t', arg)
         if arg is NOARG:
             if self.inst_prototype is not None:
                 pproto_t = self.parent.inst_prototype_t
@@ -296,6 +309,7 @@ class Element(
 
     @mproperty_check
     def inst_preincarnation(self, arg = NOARG):
+        arg = self._argument_kept('inst_preincarnation', arg)
         if arg is NOARG:
             if self.parent is None:
                 return None
@@ -547,12 +561,14 @@ class RootElement(Element):
 
     @mproperty_check
     def inst_preincarnation(self, arg = NOARG):
+        arg = self._argument_kept('inst_preincarnation', arg)
         if arg is NOARG:
             arg = None
         return arg
 
     @mproperty_check
     def name(self, arg = NOARG):
+        arg = self._argument_kept('name', arg)
         if arg is NOARG:
             arg = self.name_child
         return arg
@@ -566,6 +582,7 @@ class RootElement(Element):
 
     @mproperty
     def ctree(self, arg = NOARG):
+        arg = self._argument_kept('ctree', arg)
         #if it is a view (as generated by ctree_shadow), then extract only the new elements
         if isinstance(arg, ShadowBunchView):
             arg = arg.extractidx('new')
-- 
2.43.0


From 683a2ebed430708f00d72f15db448e7deb13895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 48/51] fix: an element gets to see the frequencies it asks for
 at a port it only virtually owns

---
 phasor/system/ports_algorithm.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/phasor/system/ports_algorithm.py b/phasor/system/ports_algorithm.py
index 45968db..0bd474e 100644
--- a/phasor/system/ports_algorithm.py
+++ b/phasor/system/ports_algorithm.py
@@ -39,12 +39,13 @@ class PortUpdatesAlgorithm(object):
         for port, owner in system.port_owners.items():
             self.port_cplgs[port]               = set()
             self.port_cplgs_update[owner, port] = set()
-            self.port_cplgs_updateX[port]       = set()
+            self.port_cplgs_updateX[owner, port] = set()
 
         for port, owners in system.port_owners_virtual.items():
             for owner in owners:
                 #print((owner, port))
                 self.port_cplgs_update.setdefault((owner, port), set())
+                self.port_cplgs_updateX.setdefault((owner, port), set())
 
         self._setup_port_needs()
 
@@ -76,22 +77,17 @@ class PortUpdatesAlgorithm(object):
         assert(self._current_element is not None)
         element = self._current_element
         self._current_element = None
-        for port in self.system.owners_ports.get(element, []):
+        #only once for the ports which the element owns as well as virtually owns
+        ports_owned = set(self.system.owners_ports.get(element, []))
+        ports_owned.update(self.system.owners_ports_virtual[element])
+        for port in ports_owned:
             update = self.port_cplgs_update[element, port]
-            updateX = self.port_cplgs_updateX[port]
+            updateX = self.port_cplgs_updateX[element, port]
             self.port_cplgs[port].update(update)
             update.clear()
             #swap in the new updates
             self.port_cplgs_update[element, port] = updateX
-            self.port_cplgs_updateX[port] = update
-        for port in self.system.owners_ports_virtual[element]:
-            update = self.port_cplgs_update[element, port]
-            updateX = self.port_cplgs_updateX[port]
-            self.port_cplgs[port].update(update)
-            update.clear()
-            #swap in the new updates
-            self.port_cplgs_update[element, port] = updateX
-            self.port_cplgs_updateX[port] = update
+            self.port_cplgs_updateX[element, port] = update
         return
 
     def port_coupling_needed(self, pto, kto):
@@ -123,14 +119,18 @@ class PortUpdatesAlgorithm(object):
             if kto not in ptofull and kto not in ptoupdate:
                 owner = self.system.port_owners[pto]
                 if owner is self._current_element:
-                    v = self.port_cplgs_updateX[pto]
+                    v = self.port_cplgs_updateX[owner, pto]
                 else:
                     v = self.port_cplgs_update[owner, pto]
                 v.add(kto)
 
                 self.owners_update.add(owner)
                 for Vowner in self.system.port_owners_virtual[pto]:
-                    v = self.port_cplgs_update[Vowner, pto]
+                    if Vowner is self._current_element:
+                        #it must still get to see what it asks for itself
+                        v = self.port_cplgs_updateX[Vowner, pto]
+                    else:
+                        v = self.port_cplgs_update[Vowner, pto]
                     v.add(kto)
                     self.owners_update.add(Vowner)
         return
-- 
2.43.0


From 42f753e06078c3c1e883c2be94ed149a632f6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 49/51] fix: the nonlinear crystal generates the sum of two
 different lines at the rate of its down-conversion, conserving power

---
 phasor/optics/nonlinear_crystal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index cdef936..be587ff 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -202,8 +202,8 @@ class NonlinearCrystal(
                         if len(F_list) > 1:
                             raise RuntimeError("Can't Currently do nonlinear optics on multiply composite wavelengths")
                         F, n = F_list[0]
-                        #factor of two since this injects twice
-                        if kfrom == kfrom2:
+                        #factor of two since this injects twice (every sum shows up in both orders)
+                        if qkey2 == qkey:
                             dLt[(port.i, kto)].append(
                                 (n * G / 2, (port.i, kfrom2), (port.i, kfrom))
                             )
-- 
2.43.0


From fba7507a331b06c6630704e1d57aa929324422c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:17 +0000
Subject: [PATCH 50/51] fix: light that a crystal or an AOM does not convert
 passes through it instead of being lost

---
 phasor/optics/AOM.py               | 12 ++++++++++++
 phasor/optics/nonlinear_crystal.py | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/phasor/optics/AOM.py b/phasor/optics/AOM.py
index 9a363e0..f3e5f5f 100644
--- a/phasor/optics/AOM.py
+++ b/phasor/optics/AOM.py
@@ -269,6 +269,18 @@ class AOM(
                             out_map[(self.Drv.i, kfrom2)] = None
                             #print("JOIN: ", kfrom, kfrom2, kto)
 
+            #what takes no part in any shift just passes through
+            shifted = set(dLt)
+            for terms in dLt.values():
+                for term in terms:
+                    shifted.update(term[1:])
+            for port in portset:
+                for kfrom in matrix_algorithm.port_set_get(port.i):
+                    if (port.i, kfrom) not in shifted:
+                        matrix_algorithm.port_coupling_insert(port.i, kfrom, omap[port].o, kfrom, 1)
+            if not dLt:
+                continue
+
             #pprint(dLt)
             matrix_algorithm.injection_insert(
                 ODE_solver.ExpMatCoupling(
diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index be587ff..0fb73cf 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -240,6 +240,17 @@ class NonlinearCrystal(
                     #        out_map[(port.i, kto)] = (portO.o, kto)
                     #        #print("JOIN2: ", kfrom, kfrom2, kto)
 
+            #what takes no part in any conversion just passes through
+            converted = set(dLt)
+            for terms in dLt.values():
+                for term in terms:
+                    converted.update(term[1:])
+            for kfrom in matrix_algorithm.port_set_get(port.i):
+                if (port.i, kfrom) not in converted:
+                    matrix_algorithm.port_coupling_insert(port.i, kfrom, portO.o, kfrom, 1)
+            if not dLt:
+                continue
+
             #pprint(dLt)
             matrix_algorithm.injection_insert(
                 ODE_solver.ExpMatCoupling(
-- 
2.43.0


From 68fc20cd488cc489d5b37cc581681c3ab70ce54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 51/51] fix: a nonlinear solution interrupted part way is
 solved again instead of passing for converged

---
 phasor/optics/ODE_solver.py       | 9 ++++++---
 phasor/system/solver_algorithm.py | 9 +++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/phasor/optics/ODE_solver.py b/phasor/optics/ODE_solver.py
index e7d41f2..43fb879 100644
--- a/phasor/optics/ODE_solver.py
+++ b/phasor/optics/ODE_solver.py
@@ -205,8 +205,9 @@ class ExpMatCoupling(FactorCouplingBase):
 
     def update_solution(self, sol_vector):
         if self._prev_sol_vector is None or sol_vector != self._prev_sol_vector:
-            self._prev_sol_vector = sol_vector
             self.generate_solution(sol_vector)
+            #only once it is there, the generation may be interrupted
+            self._prev_sol_vector = sol_vector
         return
 
     def edge_mat_func(self, sol_vector, sB):
@@ -379,14 +380,14 @@ class ExpMatCoupling(FactorCouplingBase):
                         dMexp_s1[idx_pk][idx_in] += vec_val
             #print("FULLSKIP: ", fullskip, fullskip / len(dLt_idx_list))
 
-        self.vals_prev = dict()
+        vals_prev = dict()
         #inject subtracted values at input to remove the DC values an only get the derivative
         for idx_in in range(len(pks)):
             pkin = self.in_map[pks[idx_in]]
 
             val = pk_original[idx_in]
             if np.any(val != 0):
-                self.vals_prev[pkin] = val
+                vals_prev[pkin] = val
 
         #print("START EDGES")
         #for idx_out in range(len(pks)):
@@ -441,6 +442,8 @@ class ExpMatCoupling(FactorCouplingBase):
             #print("ALT: ", pkout, val, dval_out.get(idx, 0), altered_val)
             vals_inj[pkout] = altered_val
         self.vals_inj = vals_inj
+        #last, as these suppress generating the solution again
+        self.vals_prev = vals_prev
 
         #print("DONE SOLVING ")
         return
diff --git a/phasor/system/solver_algorithm.py b/phasor/system/solver_algorithm.py
index d9f010c..b9085b8 100644
--- a/phasor/system/solver_algorithm.py
+++ b/phasor/system/solver_algorithm.py
@@ -603,6 +603,15 @@ class SystemSolver(object):
         return solution_bunch
 
     def solve(self, order = None):
+        N_solved = len(self.driven_solution_bunches)
+        try:
+            self._solve_orders(order)
+        except BaseException:
+            #the orders of an interrupted solution would pass for a converged one
+            del self.driven_solution_bunches[N_solved:]
+            raise
+
+    def _solve_orders(self, order = None):
         if self.system.exact_order is not None:
             while len(self.driven_solution_bunches) <= self.system.exact_order:
                 self.driven_solution_bunches.append(dict())
-- 
2.43.0

