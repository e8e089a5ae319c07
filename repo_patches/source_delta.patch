From 0c828db5feb462a33f19f332504ad46d08fe7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 01/13] fix: L2 keeps going straight when the first neighbor
 lies across the periodic edge

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 9065cbf..114f658 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -213,8 +213,9 @@ class SitePercolationL2(SitePercolation):
                 # if central2 is occupied then select the one in the direction
                 X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
                 Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
-                delta_X = Y_index - X_index
-                delta_X.normalize()
+                delta_X = RelativeIndex(index=Y_index) - RelativeIndex(index=X_index)
+                # a step across the periodic edge keeps its direction
+                delta_X = self.wrapping_correction_relative_index(delta_X)
                 # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
                 Z_index = Y_index + delta_X
                 # print("Z_index ", Z_index)
-- 
2.43.0


From ccc16f5c23ba50d971cb6748cc1915f7d84cacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 02/13] fix: L1/L2 set a candidate site aside only when
 everything it leads to is occupied

---
 .../simulation/percolation_sq_lattice_L1L2.py | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 114f658..ae362f3 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -98,8 +98,8 @@ class SitePercolationL1(SitePercolation):
             central2 = sites[random.randint(0, len(sites)-1)]
             if self.lattice_ref.get_site_by_id(central2).is_occupied():
                 # print("first neighbor is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
-                if self.lattice_ref.get_site_by_id(central_X).is_removable(1):
+                # all four neighbors must be occupied. The same neighbor can be drawn more than once
+                if all(self.lattice_ref.get_site_by_id(ss).is_occupied() for ss in sites):
                     # print("is_removable")
                     # print("self.site_ids_indices before ", self.site_ids_indices)
                     # print("rnd ", rnd, " self.current_idx ", self.current_idx)
@@ -186,6 +186,31 @@ class SitePercolationL2(SitePercolation):
         column = index.column() % self.lattice_ref.length
         return Index(row, column)
 
+    def get_next_site_in_direction(self, X_id, Y_id):
+        X_index = self.lattice_ref.get_site_by_id(X_id).get_index()
+        Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
+        delta_X = RelativeIndex(index=Y_index) - RelativeIndex(index=X_index)
+        # a step across the periodic edge keeps its direction
+        delta_X = self.wrapping_correction_relative_index(delta_X)
+        # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
+        Z_index = Y_index + delta_X
+        # print("Z_index ", Z_index)
+        Z_index = self.correct_index_for_periodicity(Z_index)
+        # print("Z_index ", Z_index)
+        return self.lattice_ref.get_site_by_index(Z_index).get_id()
+
+    def is_exhausted(self, X_id, neighbors):
+        """
+        True if no empty site can be reached from site X_id anymore.
+        """
+        for Y_id in neighbors:
+            if not self.lattice_ref.get_site_by_id(Y_id).is_occupied():
+                return False
+            Z_id = self.get_next_site_in_direction(X_id, Y_id)
+            if not self.lattice_ref.get_site_by_id(Z_id).is_occupied():
+                return False
+        return True
+
     def select_site(self):
         """
         return : 0 -> successfully chosen an empty site
@@ -208,24 +233,11 @@ class SitePercolationL2(SitePercolation):
 
             if self.lattice_ref.get_site_by_id(Y_id).is_occupied():
                 # print("Y is occupied")
-                self.lattice_ref.get_site_by_id(central_X).reduce_1st_nn()
-
                 # if central2 is occupied then select the one in the direction
-                X_index = self.lattice_ref.get_site_by_id(central_X).get_index()
-                Y_index = self.lattice_ref.get_site_by_id(Y_id).get_index()
-                delta_X = RelativeIndex(index=Y_index) - RelativeIndex(index=X_index)
-                # a step across the periodic edge keeps its direction
-                delta_X = self.wrapping_correction_relative_index(delta_X)
-                # print(delta_X, " delta X = Y - X => Y ", Y_index, " - ", X_index)
-                Z_index = Y_index + delta_X
-                # print("Z_index ", Z_index)
-                Z_index = self.correct_index_for_periodicity(Z_index)
-                # print("Z_index ", Z_index)
-                Z_id = self.lattice_ref.get_site_by_index(Z_index).get_id()
+                Z_id = self.get_next_site_in_direction(central_X, Y_id)
                 if self.lattice_ref.get_site_by_id(Z_id).is_occupied():
                     self.y_occupied += 1
-                    self.lattice_ref.get_site_by_id(central_X).reduce_2st_directional_nn()
-                    if self.lattice_ref.get_site_by_id(central_X).is_removable(2):
+                    if self.is_exhausted(central_X, sites):
                         # print("is_removable")
                         self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]
 
-- 
2.43.0


From abdac3e175e8e3545942f0a78472505b8244dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 03/13] fix: L1/L2 runs on a custom candidate list end when the
 list is exhausted

---
 source_py/simulation/percolation_sq_lattice_L1L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index ae362f3..5b30465 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -82,7 +82,7 @@ class SitePercolationL1(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL1.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
@@ -218,7 +218,7 @@ class SitePercolationL2(SitePercolation):
                  -1 -> no remaining empty sites
         """
         # print("SitePercolationL2.select_site")
-        if self.current_idx >= self.lattice_ref.site_count:
+        if self.current_idx >= len(self.site_ids_indices):
             # print("No sites to occupy")
             return SelectionState.EMPTY_SITE_LIST
         rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
-- 
2.43.0


From 630c662a6ce70dddd182476ee7aa23374b15f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 04/13] fix: L1 and L2 report the sites in the order they were
 occupied

---
 .../simulation/percolation_sq_lattice_L1L2.py   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_L1L2.py b/source_py/simulation/percolation_sq_lattice_L1L2.py
index 5b30465..3539c36 100644
--- a/source_py/simulation/percolation_sq_lattice_L1L2.py
+++ b/source_py/simulation/percolation_sq_lattice_L1L2.py
@@ -29,6 +29,9 @@ class SitePercolationL1(SitePercolation):
         self.x_occupied = 0
         self.site_id_sequence_record = []
 
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
     def get_index_sequence(self):
         indices = []
         for id in self.site_id_sequence_record:
@@ -147,6 +150,7 @@ class SitePercolationL2(SitePercolation):
         self.signature += "L2_"
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
         # print("SitePercolationL2.init")
         logging.info("SitePercolationL2.init")
         pass
@@ -156,6 +160,18 @@ class SitePercolationL2(SitePercolation):
         self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
         self.x_occupied = 0
         self.y_occupied = 0
+        self.site_id_sequence_record = []
+
+    def get_site_id_sequence(self):
+        return list(self.site_id_sequence_record)
+
+    def get_index_sequence(self):
+        indices = []
+        for id in self.site_id_sequence_record:
+            idx = self.lattice_ref.get_site_by_id(id).get_index()
+            indices.append(idx.as_list())
+            pass
+        return indices
 
     def get_signature(self):
         return self.signature
@@ -250,6 +266,7 @@ class SitePercolationL2(SitePercolation):
         # self.swap_ids(central_X, central)
         # print("central ", Z_id)
         self.selected_id = Z_id
+        self.site_id_sequence_record.append(self.selected_id)
         self.current_site = self.lattice_ref.get_site_by_id(self.selected_id)
         assert self.current_site.get_gid() == -1  # must be unoccupied
         # print("selected id ", self.selected_id)
-- 
2.43.0


From 23e606f0efce044c8a1c8127f2ceaebcd3eb43b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 05/13] fix: entropy-order header names the order parameter
 columns as they are written

---
 run_py/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_py/ensemble.py b/run_py/ensemble.py
index fbca2f9..34f147d 100644
--- a/run_py/ensemble.py
+++ b/run_py/ensemble.py
@@ -66,7 +66,7 @@ def write_entropy_order(current_time, data, ensembleSize, length, now, signature
     head['time'] = now.strftime("%H:%M:%S")
     head['columns'] = ["p", "H", "P1", "P2"]
     head['desc'] = ["p=occupation probability", "H=entropy",
-                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]
+                    "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"]
     header_str = json.dumps(head)
     filename = "./data/" + filename
     np.savetxt(filename, data, fmt="%.10e", header=header_str)
-- 
2.43.0


From e7bdb47522ff913dd5957a0e12ebe63fa48cdc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 06/13] fix: record the occupation probability in every run and
 clear it on every reset

---
 source_py/simulation/percolation_sq_lattice.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index a3dc87f..02f0bdf 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -259,9 +259,8 @@ class SitePercolation(Percolation):
         self.occupied_site_count = 0
         self.selection_flag = None
         # print("Initial entropy ", self.entropy_value)
-        if self.first_run:
-            self.occupation_prob_list = list()
-            pass
+        del self.occupation_prob_list
+        self.occupation_prob_list = list()
         del self.entropy_list
         self.entropy_list = list()
         del self.order_wrapping_list
@@ -676,9 +675,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
@@ -740,9 +737,7 @@ class SitePercolation(Percolation):
                 H = self.entropy()
                 P1 = self.order_param_wrapping()
                 P2 = self.order_param_largest_clstr()
-                if self.first_run:
-                    self.occupation_prob_list.append(p)
-                    pass
+                self.occupation_prob_list.append(p)
                 self.entropy_list.append(H)
                 self.order_wrapping_list.append(P1)
                 self.order_largest_list.append(P2)
-- 
2.43.0


From bb8cc768fb07a4d8e9a3c3c287e7ecb3f1f041e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 07/13] fix: custom site lists and reported sequences are
 copies, not shared lists

---
 source_py/simulation/percolation_sq_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 02f0bdf..11813a9 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -162,7 +162,7 @@ class SitePercolation(Percolation):
         if max(site_id_list) > max_index or min(site_id_list) < min_index:
             print("Invalid site id list")
             return
-        self.site_ids_indices = site_id_list
+        self.site_ids_indices = list(site_id_list)  # a copy. never modify the list of the caller
         self.mode_custome_site_id = True
         self.do_shuffle = do_shuffle
         self.max_iteration_limit = len(site_id_list)
@@ -221,7 +221,7 @@ class SitePercolation(Percolation):
         pass
 
     def get_site_id_sequence(self):
-        return self.site_ids_indices
+        return list(self.site_ids_indices)
 
     def get_index_sequence(self):
         indices = []
-- 
2.43.0


From 2c8318b62b4cac5703595f5e3414ff59635799b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 08/13] fix: refuse custom site indices whose row or column is
 outside the lattice

---
 source_py/simulation/percolation_sq_lattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 11813a9..d17fd60 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -175,6 +175,11 @@ class SitePercolation(Percolation):
         """
         max_index = self.lattice_ref.length**2 - 1
         min_index = 0
+        for idx in site_index_list:
+            row_col = idx.as_list() if type(idx) is Index else idx
+            if max(row_col) >= self.lattice_ref.length or min(row_col) < 0:
+                print("Invalid site index list")
+                return
         site_index_list = [self.lattice_ref.calculate_id_from_index(idx) for idx in site_index_list]
         if max(site_index_list) > max_index or min(site_index_list) < min_index:
             print("Invalid site id list")
-- 
2.43.0


From b6a1f0c01b0ea0633272c74f91f044a8ef8662ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 09/13] fix: shortest path stops when a complete row or column
 joins the wrapping cluster by merging

---
 .../simulation/percolation_sq_lattice_shortest_path.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice_shortest_path.py b/source_py/simulation/percolation_sq_lattice_shortest_path.py
index fa36402..1f469e4 100644
--- a/source_py/simulation/percolation_sq_lattice_shortest_path.py
+++ b/source_py/simulation/percolation_sq_lattice_shortest_path.py
@@ -34,6 +34,7 @@ class ShortestPathAfter_pc(SitePercolation):
         # sq_lattice_p.viewLattice(3)
         # sq_lattice_p.viewCluster()
         # print("get_occupation_prob_array ", self.get_occupation_prob_array())
+        wrapping_size = 0
         while self.place_one_site():
             # print("self.selection_flag ", self.selection_flag)
             # self.viewLattice(3)
@@ -44,6 +45,13 @@ class ShortestPathAfter_pc(SitePercolation):
                     index = self.current_site.get_index()
                     column_flag, row_flag = self.scan_row_col_of_selected_site(index)
 
+                    previous_size = wrapping_size
+                    wrapping_size = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
+                    if wrapping_size - previous_size > self.lattice_ref.length:
+                        # a cluster big enough to contain a whole row or column got merged.
+                        column_flag = column_flag or self.scan_all_cols()
+                        row_flag = row_flag or self.scan_all_rows()
+
                     if column_flag or row_flag:
                         # print("Got to the shortest path point by placing ", self.current_site)
                         # self.viewLattice(1)
-- 
2.43.0


From 9a014f7a91f9dca5f7cd6586dd17ff713edb4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 10/13] fix: default range of draw_horizontal_line_at

---
 source_py/analyze/lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source_py/analyze/lines.py b/source_py/analyze/lines.py
index 83f5f37..190bdd8 100644
--- a/source_py/analyze/lines.py
+++ b/source_py/analyze/lines.py
@@ -14,7 +14,7 @@ def draw_vertical_line_at(xval, yrange=(0, 1), size=100):
     return xx, yy
 
 
-def draw_horizontal_line_at(yval, xrange=(), size=100):
+def draw_horizontal_line_at(yval, xrange=(0, 1), size=100):
     """
 
     @param yval:
-- 
2.43.0


From 85d8c537e26476d88d4ea63e3a8cdaeff1f61ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 11/13] fix: threaded drivers pass the percolation class to the
 ensemble function

---
 run_py/rsbd_percolatioin_run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/run_py/rsbd_percolatioin_run.py b/run_py/rsbd_percolatioin_run.py
index 1636886..5873862 100644
--- a/run_py/rsbd_percolatioin_run.py
+++ b/run_py/rsbd_percolatioin_run.py
@@ -62,6 +62,7 @@ def single_realization(percolationClass, length):
 
 def run_simulation_threads():
     from run_py import ensemble
+    from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
     lengths = [200, 300, 400]
     En = 500
 
@@ -71,7 +72,7 @@ def run_simulation_threads():
     all_threads = []
     for LL in lengths:
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(LL, En, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(SitePercolationL0, LL, En, i))
         i += 1
         all_threads.append(thread)
         thread.start()
@@ -82,6 +83,7 @@ def run_simulation_threads():
 
 def run_simulation_threads_v2():
     from run_py import ensemble
+    from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
     length = 10
     thread_counts = 2
     En = 1000
@@ -92,7 +94,7 @@ def run_simulation_threads_v2():
     all_threads = []
     for i in range(thread_counts):
         # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
-        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(length, En_per_thread, i))
+        thread = Thread(target=ensemble.run_ensemble_entropy_order_threads, args=(SitePercolationL0, length, En_per_thread, i))
         all_threads.append(thread)
         thread.start()
         pass
-- 
2.43.0


From 539a6b3cb77390cfe9f549dc197435cef42f53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 12/13] fix: recorded series are handed out as copies, a
 continued run does not change them

---
 source_py/simulation/percolation_sq_lattice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index d17fd60..6d1bf3d 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -294,13 +294,13 @@ class SitePercolation(Percolation):
             return 0
 
     def get_order_param_wrapping_array(self):
-        return self.order_wrapping_list
+        return list(self.order_wrapping_list)
 
     def get_order_param_largest_array(self):
-        return self.order_largest_list
+        return list(self.order_largest_list)
 
     def get_entropy_array(self):
-        return self.entropy_list
+        return list(self.entropy_list)
 
     def get_data_array(self):
         pp = self.get_occupation_prob_array()
@@ -314,7 +314,7 @@ class SitePercolation(Percolation):
         return np.c_[pp, HH, PP_largest, PP_wraping]
 
     def get_occupation_prob_array(self):
-        return self.occupation_prob_list
+        return list(self.occupation_prob_list)
 
     def get_neighbor_site(self, central_id, connecting_bond_id):
         # central_id = current_site.get_id()
-- 
2.43.0


From d0fd21f47ed063809616535c78f2f3e93ef793b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 13/13] fix: detect_wrapping answers False before anything has
 been placed

---
 source_py/simulation/percolation_sq_lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source_py/simulation/percolation_sq_lattice.py b/source_py/simulation/percolation_sq_lattice.py
index 6d1bf3d..064f1dc 100644
--- a/source_py/simulation/percolation_sq_lattice.py
+++ b/source_py/simulation/percolation_sq_lattice.py
@@ -640,6 +640,8 @@ class SitePercolation(Percolation):
     def detect_wrapping(self):
         if self.after_wrapping:
             return True
+        if self.selected_id is None:  # nothing has been placed yet
+            return False
         # print("detect_wrapping")
         neighbors = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
         # print("neighbors of self.selected_id with same gid : ", neighbors)
-- 
2.43.0

