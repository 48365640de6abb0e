From 96f3225b9f4a75e0b4aea9deacdaabe4d44b5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 01/62] fix: subsystem extraction keeps action labels as label
 -> state-action pairs

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..b353fdc 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -115,7 +115,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
-- 
2.43.0


From 3bfe4762c376adcbfbd7b7db43522eb74819765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 02/62] fix: subsystem extraction does not write negative
 rounding noise as a probability

---
 switss/problem/subsystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index b353fdc..200733e 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -154,7 +154,9 @@ class Subsystem:
                 new_source = new_to_old_states.inv[source]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+                p_fail = 1 - (p_target + not_to_fail[new_row_idx])
+                if p_fail > 0:
+                    new_P[new_row_idx, fail_state] = p_fail
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From 9f0be43a5ca34ad961cfc204a4738e1e97466997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 03/62] fix: subsystem extraction keeps the rewards of the
 remaining state-action pairs

---
 switss/problem/subsystem.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 200733e..89c3a3c 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -132,6 +132,10 @@ class Subsystem:
 
         not_to_fail = np.zeros(new_C)
 
+        # rewards of the remaining state-action pairs (goal and fail have none)
+        old_rewards = reach_form.system.reward_vector
+        new_rewards = np.zeros(new_C+2) if old_rewards is not None else None
+
         # Populate the new transition matrix
         for (rowidx,target), prob in P.items():
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
@@ -154,6 +158,8 @@ class Subsystem:
                 new_source = new_to_old_states.inv[source]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx, target_state] = p_target 
+                if old_rewards is not None:
+                    new_rewards[new_row_idx] = old_rewards[rowidx]
                 p_fail = 1 - (p_target + not_to_fail[new_row_idx])
                 if p_fail > 0:
                     new_P[new_row_idx, fail_state] = p_fail
@@ -164,7 +170,8 @@ class Subsystem:
         model = modeltype(P=new_P, 
             index_by_state_action=new_index_by_state_action, 
             label_to_actions=dict(new_label_to_actions), 
-            label_to_states=dict(new_label_to_states))
+            label_to_states=dict(new_label_to_states),
+            reward_vector=new_rewards)
 
         model = ReachabilityForm(
             model, 
-- 
2.43.0


From e2eb788d71f45d01e6225b8166afbe3240a68afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 04/62] fix: subsystem rendering reads max-certificates of
 DTMCs by row, not by state

---
 switss/problem/subsystem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 89c3a3c..88c4673 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -204,9 +204,11 @@ class Subsystem:
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
                 label = sm["label"]
-                cert = self.certificate[stateidx]
-                if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
-                else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
+                if self.certform == "min": index = stateidx
+                else: index = self.supersys.system.index_by_state_action[(stateidx, 0)]
+                cert = self.certificate[index]
+                if label == "": label = "c[{}]={:.5f}".format(index, cert)
+                else: label = "{}\nc[{}]={:.5f}".format(label, index, cert)
                 return { **sm, **{ "label" : label } }
             else:
                 return sm
-- 
2.43.0


From 8b6aa3deffb48aedccf40b1ca724396dcd5bd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 05/62] fix: reward reachability forms offer the attributes
 that witness search and certification read

---
 switss/model/reward_reachability_form.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..be35d5e 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -22,6 +22,7 @@ class RewardReachabilityForm:
         del self.__index_by_state_action.inv[self.__system.C-1]
 
         self.target_label = reachability_form.target_label
+        self.fail_label = reachability_form.fail_label
         self.initial_label = reachability_form.initial_label
         self.initial = reachability_form.initial
 
@@ -34,6 +35,18 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def P(self):
+        return self.__P
+
+    @property
+    def index_by_state_action(self):
+        return self.__index_by_state_action
+
+    @property
+    def to_target(self):
+        return self.__reach_form.to_target
+
     @property
     def is_ec_free(self):
         return True
-- 
2.43.0


From d62209567dc760114d603ff2f297208f82cc67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 06/62] fix: RewardReachabilityForm.fromsystem builds a new
 system with a fail state

---
 switss/model/reward_reachability_form.py | 26 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index be35d5e..fbda7c1 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -60,16 +60,30 @@ class RewardReachabilityForm:
             RewardReachabilityForm.assert_system_consistency(system, initial_label, target_label)
 
         # add a dummy fail state, which is required for reachability form
-        N = system.P.N
-        C = system.P.C
+        C,N = system.P.shape
 
-        system.P.resize(C + 1, N + 1)
-        system.P[C + 1, N + 1] = 1
+        P = system.P.copy()
+        P.resize((C+1, N+1))
+        P[C,N] = 1
 
-        system.add_label(N, "rf_fail")
+        index_by_state_action = system.index_by_state_action.copy()
+        index_by_state_action[(N,0)] = C
+
+        label_to_states = { l : set(states) for l,states in system.states_by_label.items() }
+        label_to_states["rf_fail"] = {N}
+
+        reward_vector = np.zeros(C+1)
+        reward_vector[:C] = system.reward_vector
+
+        rf_system = type(system)(
+            P=P,
+            index_by_state_action=index_by_state_action,
+            label_to_actions=dict(system.actions_by_label.items()),
+            label_to_states=label_to_states,
+            reward_vector=reward_vector)
 
         # initialize underlying reachability form
-        return cls(ReachabilityForm(system, initial_label, target_label,"rf_fail",ignore_consistency_checks), system.reward_vector[:-2])
+        return cls(ReachabilityForm(rf_system, initial_label, target_label,"rf_fail",ignore_consistency_checks), reward_vector[:-2])
 
 
     @staticmethod
-- 
2.43.0


From 14dd2104fadf09e1938696bb8f8e12e6a57f34f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 07/62] fix: RewardReachabilityForm.reduce honours
 new_target_label, debug and ignore_consistency_checks

---
 switss/model/reward_reachability_form.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index fbda7c1..fb62b18 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -89,8 +89,9 @@ class RewardReachabilityForm:
     @staticmethod
     def reduce(system, initial_label, target_label, new_target_label="rrf_target", debug=False, ignore_consistency_checks=False):
 
-        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label)
-        RewardReachabilityForm.assert_reachform_consistency(reach_form)
+        reach_form, to_rf_cols, to_rf_rows = ReachabilityForm.reduce(system, initial_label, target_label, new_target_label, debug=debug)
+        if not ignore_consistency_checks:
+            RewardReachabilityForm.assert_reachform_consistency(reach_form)
 
         return RewardReachabilityForm(reach_form, reach_form.system.reward_vector[:-2]), to_rf_cols, to_rf_rows
 
-- 
2.43.0


From 3a1409b719972b3e648c9c2a2badb7fef9bfeb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 08/62] fix: a later call of fark_z/y_constraints does not
 change an earlier result

---
 switss/model/reachability_form.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..28ed605 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -512,7 +512,7 @@ class ReachabilityForm:
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
             self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
         self.__fark_z_rhs = self.to_target.A1.copy()
         self.__fark_z_rhs.resize(C+1)
@@ -523,7 +523,7 @@ class ReachabilityForm:
 
         self.__fark_z_matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -547,7 +547,7 @@ p        .. math::
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
             self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
         b = cast_dok_matrix(self.to_target)
 
@@ -557,7 +557,7 @@ p        .. math::
 
         self.__fark_y_matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From c36ed9fa7b23607c30bac9a0faac1492db0dd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 09/62] fix: check_farkas_certificate rejects negative entries
 in certificates over state-action pairs

---
 switss/certification/certificates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..8dd8d35 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -110,6 +110,10 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
                 if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
                     return False
 
+    # certificates over state-action pairs need to be nonnegative
+    if (mode == "min") == (sense in ["<=","<"]) and not (farkas_vec >= -tol).all():
+        return False
+
     res_vec = farkas_matr.dot(farkas_vec)
 
     if sense == "<=":
-- 
2.43.0


From f1d85bd9faa014519e56d4794934fba2d448c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 10/62] fix: certificate generation forces the state-action
 pairs of end components to zero, not the rows named like their states

---
 switss/certification/certificates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 8dd8d35..e06a85b 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -166,7 +166,7 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
                 if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+                    zero_vars.append(idx)
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From f8077b5889286904aba0ded9b07a6fd3d4e19fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 11/62] fix: certificate generation returns None when the LP
 has no optimal solution

---
 switss/certification/certificates.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index e06a85b..8ec60fa 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -19,7 +19,7 @@ def find_interior_point(A, b, xgeq0=False, zero_vars = [], solver="cbc"):
     :type zero_vars: [int], optional
     :param solver: the used solver, may be "gurobi", "cbc", "cplex" or "glpk", defaults to "cbc"
     :type solver: str, optional
-    :return: a 3d-tuple (x, optimal, strict) where `x` is the :math:`M`-d result vector :math:`x^*`, `optimal` indicates whether the LP-solution is optimal (i.e. not unbounded or infeasible) and `strict` whether :math:`A x^* < b` is satisfied.
+    :return: a 3d-tuple (x, optimal, strict) where `x` is the :math:`M`-d result vector :math:`x^*` (None if the LP was not solved to optimality), `optimal` indicates whether the LP-solution is optimal (i.e. not unbounded or infeasible) and `strict` whether :math:`A x^* < b` is satisfied.
     :rtype: Tuple[np.ndarray, Bool, Bool]
     """
     # A' = [ a11 ... a1M -1 
@@ -44,9 +44,12 @@ def find_interior_point(A, b, xgeq0=False, zero_vars = [], solver="cbc"):
         lp.add_constraint([(idx,1)],"=",0)
 
     result = lp.solve(solver)
+    if result.status != "optimal":
+        return None, False, False
+
     sres = result.result_vector[-1]
 
-    return result.result_vector[:-1], (result.status == "optimal" and sres <= 0), sres < 0
+    return result.result_vector[:-1], sres <= 0, sres < 0
 
 def __get_right_constraint_set(reach_form,mode,sense,threshold):
 
@@ -170,5 +173,8 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
+    if lp_result is None:
+        return None
+
     check = check_farkas_certificate(reach_form, mode, sense, threshold, lp_result,tol=tol)
     return lp_result if check else None
-- 
2.43.0


From 0fcbe8943cdbd0a75db7bdec052e3cdccc2bf796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 12/62] fix: prism_to_tra accepts its documented dictionaries
 of constants and labels

---
 switss/prism/prism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index f34d33e..48583b4 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -62,14 +62,14 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
     :return: True, if model was constructed successfully, otherwise False.
     :rtype: bool
     """    
-    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants])]) if len(prism_constants) > 0 else []
+    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in dict(prism_constants).items()])]) if len(prism_constants) > 0 else []
 
     with tempfile.NamedTemporaryFile() as namedtf:
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
-        for (label_name, label_expr) in extra_labels:
+        for (label_name, label_expr) in dict(extra_labels).items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
 
-- 
2.43.0


From 5cd040d360b82b8d2dda3c2575df328148014151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 13/62] fix: DTMC.from_stormpy_model accepts the choice_model
 argument it is called with

---
 switss/model/dtmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..70d79b5 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -141,8 +141,9 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
-        
+    def from_stormpy_model(cls,stormpy_model, choice_model = False):
+        assert not choice_model, "DTMCs do not support choice models"
+
         #assert stormpy_model.model_type == "ModelType.MDP"
 
         P = dok_matrix((1,1))
-- 
2.43.0


From d889463dcdd9e86eefa22a8510ab991301a33ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 14/62] fix: DTMC.from_stormpy_model keeps the state labels

---
 switss/model/dtmc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 70d79b5..a163eb7 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,5 +1,6 @@
 from bidict import bidict
 from graphviz import Digraph
+from collections import defaultdict
 from scipy.sparse import dok_matrix
 
 from . import AbstractMDP
@@ -148,14 +149,18 @@ class DTMC(AbstractMDP):
 
         P = dok_matrix((1,1))
         index_by_state_action = bidict()
+        label_to_states = defaultdict(set)
         N = stormpy_model.nr_states
 
         P.resize((N,N))
 
         for state in stormpy_model.states:
             sid = state.id
+            for slabel in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[slabel].add(sid)
+
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
-- 
2.43.0


From b75b598b0a6da2349068515c6e3e49e6154b1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 15/62] fix: choice models label the state of the choice
 itself, not that of the next choice

---
 switss/model/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..f23168b 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -268,8 +268,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From 112658e928c2667beab6ad2c1169aa8e59631885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 16/62] fix: a negative reward is reported by the intended
 assertion

---
 switss/model/amdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..0bdf1a5 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -78,7 +78,7 @@ class AbstractMDP(ABC):
         #make sure rewards are nonnegative
         if self.reward_vector is not None:
             for i in range(self.C):
-                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,reward_vector[i])
+                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,self.reward_vector[i])
 
     @property
     def states_by_label(self):
-- 
2.43.0


From e019413f54b6d3e68bce9c81e06a88aca156a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 17/62] fix: saved models keep the full precision of their
 probabilities

---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index a163eb7..33cabb3 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -107,7 +107,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %.17g\n" % (source, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index f23168b..2d58259 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %.17g\n" % (source, action, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From 2b5f90e5b491d9238732c87ae58eca816f8546f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 18/62] fix: MDP.save writes the action labels that loading
 reads

---
 switss/model/mdp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 2d58259..256aab9 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,9 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %.17g\n" % (source, action, dest, p))
+                    # the format has room for one action label per line
+                    actionlabel = "".join([" %s" % l for l in sorted(self.labels_by_action[(source,action)])[:1]])
+                    tra_file.write("%d %d %d %.17g%s\n" % (source, action, dest, p, actionlabel))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From 5e8a2e30ed8361aeb4eaeb9edd90df0aa930acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 19/62] fix: label mappings do not share their sets with the
 caller or with other models

---
 switss/model/amdp.py            | 4 ++--
 switss/utils/invertible_dict.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 0bdf1a5..69b264a 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -45,11 +45,11 @@ class AbstractMDP(ABC):
         self.index_by_state_action = bidict(index_by_state_action)
         self.reward_vector = reward_vector
         if isinstance(label_to_actions,InvertibleDict):
-            self.__label_to_actions_invertible = label_to_actions
+            self.__label_to_actions_invertible = InvertibleDict(dict(label_to_actions.items()), is_default=label_to_actions.is_default)
         else:
             self.__label_to_actions_invertible = InvertibleDict(label_to_actions, is_default=True)
         if isinstance(label_to_states,InvertibleDict):
-            self.__label_to_states_invertible = label_to_states
+            self.__label_to_states_invertible = InvertibleDict(dict(label_to_states.items()), is_default=label_to_states.is_default)
         else:
             self.__label_to_states_invertible = InvertibleDict(label_to_states, is_default=True)
         self.__check_correctness()
diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index beca0b7..0eadb06 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -30,7 +30,7 @@ class InvertibleDict:
         for k,v in d.items():
             assert isinstance(v,set), "each value must be a set, but value at key=%s is of type %s" % (k,type(v))
 
-        self.__d = d.copy()
+        self.__d = { k : set(v) for k,v in d.items() }
         self.__i = None
         self.__is_default = is_default
 
-- 
2.43.0


From 95b36a74aed1fcd7f04df2b0e16d54537df48387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 20/62] fix: MILP.remove_constraint accepts the index that
 add_constraint returns

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..a7d2001 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -169,7 +169,7 @@ class MILP:
         :param constridx: the name of the constraint
         :type constridx: str
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop("c%d" % constridx)
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From 05a03bd500a63be161c30ea416466fa4d57430ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 21/62] fix: LP.add_variables passes its domains as one list

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index a7d2001..2b3dcf2 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -337,7 +337,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From 3cb8071222e592d8dc4d448c2e93a85df72fe6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 22/62] fix: MILP.set_objective_function replaces the previous
 objective

---
 switss/solver/milp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 2b3dcf2..74cbd5f 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -124,6 +124,8 @@ class MILP:
             self.__set_objective_function = True
             self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
         else:
+            for var in self.__pulpmodel.objective:
+                self.__pulpmodel.objective[var] = 0
             for var,coeff in expression:
                 self.__pulpmodel.objective[self.__variables[var]] = coeff
         
-- 
2.43.0


From 715d458b6be0c311b4a588ef6e150592314411fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 23/62] fix: variables without lower bound are free in gurobi
 models, too

---
 switss/solver/milp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 74cbd5f..0a63c9b 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -502,6 +502,10 @@ class GurobiMILP(MILP):
 
             varidx = len(self.__variables)
             varname = "x%d" % varidx
+            if lb is None and domain != "binary":
+                # gurobi's default lower bound is 0
+                lb = -GRB.INFINITY
+
             if lb is not None:
                 if ub is not None:
                     var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
-- 
2.43.0


From 22db408007c16d80512d201bdaa6db73d991eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 24/62] fix: indicator constraints no longer use undefined
 names

---
 switss/problem/formulations.py | 2 +-
 switss/solver/milp.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 621fc68..e13385f 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -133,7 +133,7 @@ def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_
     :rtype: utils.InvertibleDict[int, Set[int]]
     """
     if use_real_indicator_constrs:
-        assert model.isinstance(GurobiMILP)
+        assert isinstance(model, GurobiMILP)
 
     indicator_to_group = {}
 
diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 0a63c9b..473075e 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -471,7 +471,7 @@ class GurobiMILP(MILP):
         """
         name = "c%d" % len( self.__constraints )
 
-        new_constr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
+        newconstr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
 
         constridx = len(self.__constraints)
         self.__constraints.append(newconstr)
-- 
2.43.0


From 3ddd76b8b50cf7f6e1ad3f4eda7eda45c6361c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 25/62] fix: GurobiMILP.solve applies print_output to the solve
 it is given for

---
 switss/solver/milp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 473075e..cd2982b 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -368,11 +368,9 @@ class GurobiMILP(MILP):
     def solve(self, solver, timeout=None,print_output=False):
         if timeout is not None:
             self.__model.setParam('TimeLimit',timeout)
+        self.__model.setParam('OutputFlag', 1 if print_output else 0)
         self.__model.optimize()
 
-        if print_output:
-            self.__model.setParam('OutputFlag',1)
-
         status_dict = { GRB.OPTIMAL: "optimal",
                         GRB.LOADED: "notsolved",
                         GRB.INFEASIBLE: "infeasible", 
-- 
2.43.0


From 9b60be165c7d20db5a157c91d5680107dbbd295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 26/62] fix: a solution that is only feasible is not reported
 as optimal

---
 switss/solver/milp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index cd2982b..912b2df 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -92,6 +92,9 @@ class MILP:
                     -1:"infeasible", 
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
+        # pulp also calls a merely feasible solution (e.g. after a timeout) optimal
+        if status == "optimal" and self.__pulpmodel.sol_status != pulp.LpSolutionOptimal:
+            status = "notsolved"
         result_vector = np.array([var.value() for var in self.__variables])
         value = self.__pulpmodel.objective.value()
 
-- 
2.43.0


From 34539e62bd4f923fc20065641a60aeaa944ec285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 27/62] fix: construct_MILP does not replace given upper bounds

---
 switss/problem/formulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index e13385f..2a0e605 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -204,7 +204,7 @@ def construct_MILP(rf, threshold, mode, labels=None, relaxed=False, known_upper_
     if mode == "min" and isinstance(rf,ReachabilityForm) and upper_bounds is None:
         upper_bounds = np.ones(certsize)
 
-    elif rf.is_ec_free:
+    elif rf.is_ec_free and upper_bounds is None:
         # try to compute (if there is no result within 10 minutes, stop)
         status, up_res = compute_upper_bounds(fark_matr, fark_rhs, solver=upper_bound_solver,timeout=600)
         if status == "infeasible":
-- 
2.43.0


From d53476a9ac1cd4069936704cda130eb3086f236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 28/62] fix: the chosen solver is used for every LP of a
 witness search

---
 switss/problem/milpexact.py | 2 +-
 switss/problem/qsheur.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/problem/milpexact.py b/switss/problem/milpexact.py
index 57331f3..6d67097 100644
--- a/switss/problem/milpexact.py
+++ b/switss/problem/milpexact.py
@@ -59,7 +59,7 @@ class MILPExact(ProblemFormulation):
                                   mode=mode, 
                                   labels=labels, 
                                   relaxed=False, 
-                                  upper_bound_solver="cbc",
+                                  upper_bound_solver=self.solver,
                                   modeltype_str="gurobi" if self.solver=="gurobi" else "pulp")
 
         if model is None:
diff --git a/switss/problem/qsheur.py b/switss/problem/qsheur.py
index f2a43b8..50ce170 100644
--- a/switss/problem/qsheur.py
+++ b/switss/problem/qsheur.py
@@ -90,14 +90,14 @@ class QSHeur(ProblemFormulation):
                                            mode=mode, 
                                            labels=labels, 
                                            relaxed=True, 
-                                           upper_bound_solver="cbc",
+                                           upper_bound_solver=self.solver,
                                            modeltype_str=modeltype_str)
         if model is None:
             yield ProblemResult("infeasible", None, None, None)
             return
 
         certsize = certificate_size(reach_form, mode)
-        initializer = self.initializertype(reachability_form=reach_form, mode=mode, indicator_to_group=indicators)
+        initializer = self.initializertype(reachability_form=reach_form, mode=mode, indicator_to_group=indicators, solver=self.solver)
         updater = self.updatertype(reachability_form=reach_form, mode=mode, indicator_to_group=indicators)
         current_objective = initializer.initialize()
 
-- 
2.43.0


From 33832cffd761f5b7c2ac31795c4bf790da6f1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 29/62] fix: TreeAlgo ends after reporting a failure

---
 switss/problem/tree_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index 9c49c8d..6778bab 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -34,6 +34,7 @@ class TreeAlgo(ProblemFormulation):
             print("res_min: " + str(res_min.value))
             if res_min.status != "success" or res_max.status != "success":
                 yield ProblemResult("infeasible",None,None,None)
+                return
 
             upper_bound = min(res_max.value, res_min.value)
 
@@ -53,5 +54,6 @@ class TreeAlgo(ProblemFormulation):
                                              timeout=timeout)
         if res == -1:
             yield ProblemResult("notsolved",None,None,None)
+            return
 
         yield ProblemResult("success", None, res, None)
-- 
2.43.0


From a01376bfdec8df5b97693f53be715dbcc98c6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 30/62] fix: TreeAlgo passes its timeout and tolerance on and
 rejects labels, which it cannot handle

---
 switss/problem/tree_algo.py  | 6 ++++--
 switss/utils/tree_decomp.pyx | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index 6778bab..6f406f9 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -24,12 +24,13 @@ class TreeAlgo(ProblemFormulation):
     #min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound)
     def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
         assert type(reach_form.system) == DTMC
+        assert labels is None, "TreeAlgo does not support label-based minimization"
 
         upper_bound = self.known_upper_bound
         if upper_bound == None:
             qsheur = QSHeur(solver=self.solver,iterations=5)
-            res_max = qsheur.solve(reach_form,threshold,"max")
-            res_min = qsheur.solve(reach_form,threshold,"min")
+            res_max = qsheur.solve(reach_form,threshold,"max",timeout=timeout)
+            res_min = qsheur.solve(reach_form,threshold,"min",timeout=timeout)
             print("res_max: " + str(res_max.value))
             print("res_min: " + str(res_min.value))
             if res_min.status != "success" or res_max.status != "success":
@@ -51,6 +52,7 @@ class TreeAlgo(ProblemFormulation):
                                              self.partition,
                                              threshold,
                                              known_upper_bound = upper_bound,
+                                             tol=self.tol,
                                              timeout=timeout)
         if res == -1:
             yield ProblemResult("notsolved",None,None,None)
diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 1d84a2e..d9fe6ef 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -181,7 +181,7 @@ def partition_graph(G,part_id,suc_ps,labeling,interface,rf):
     return part_view
 
 
-def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeout=None):
+def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeout=None,tol=1e-12):
     start_time = time.perf_counter()
     cdef Point** suc_points_c = NULL
     cdef int no_new_points = 0
@@ -368,8 +368,8 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
                 tmp_list = []
 
                 for i in range(vertex_cnt):
-                    if (arreqclose_in_list2(k_vertex_points[i],k_points[k],inp_dim,k_points_k_cnt,1e-12) and
-                        not arreqclose_in_list2(k_vertex_points[i],sofar,inp_dim,sofar_cnt+1,1e-12)):
+                    if (arreqclose_in_list2(k_vertex_points[i],k_points[k],inp_dim,k_points_k_cnt,tol) and
+                        not arreqclose_in_list2(k_vertex_points[i],sofar,inp_dim,sofar_cnt+1,tol)):
                         sofar = np.append(sofar,[k_vertex_points[i]],axis=0)
                         sofar_cnt += 1
                         tmp_list.append(k_vertex_points[i])
-- 
2.43.0


From c10d9fcc0d793a040e622f3554ce49d2f1a7e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 31/62] fix: InverseReachabilityInitializer accepts groups
 without states

---
 switss/problem/qsheurparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 0dde576..06a61f7 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -218,7 +218,7 @@ class InverseReachabilityInitializer(Initializer):
         for group in self.groups:
             variables = self.indicator_to_group[group]
             variablecount = len(variables)
-            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount
+            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount if variablecount > 0 else 0
             ret.append((group, self.weights[group] * np.min([1e9,1/weighted_probability if weighted_probability > 0 else 1e9])))
 
         return ret
-- 
2.43.0


From a87c5be802e2f5800d4a3f5f12209cce9f7d4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 32/62] fix: max_y_state returns the documented sum for the
 initial state

---
 switss/model/reachability_form.py        | 1 -
 switss/model/reward_reachability_form.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 28ed605..e7567c7 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -666,7 +666,6 @@ p        .. math::
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index fb62b18..d6f6df8 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -337,7 +337,6 @@ class RewardReachabilityForm:
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
-- 
2.43.0


From ddb6a26f802a1a503140250e1a020ca38dd32730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 33/62] fix: successors and predecessors yield probabilities in
 full precision

---
 switss/utils/graph.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..ae48d8a 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -10,7 +10,7 @@ from bidict import bidict
 from .treaps cimport TNode, in_treap, free_treap, treap_to_arr, treap_from_arr, add_to_treap
 from .stack cimport IntStack, TreapStack, push, freestack, ts_push, free_tstack, ts_pop, pop
 
-ctypedef (int,int,float) SAPPair
+ctypedef (int,int,double) SAPPair
 
 cdef struct Node:
     SAPPair *predecessors
@@ -43,7 +43,7 @@ cdef class Graph:
     def get_nodecount(self):
         return self.nodecount
 
-    cdef void add_successor(self, int fromidx, int action, float prob, int toidx):
+    cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
 
-- 
2.43.0


From f5df1b297b73a152df5b63a5afd39d72ed2eeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 34/62] fix: maximal_end_components frees the node array of
 every subgraph

---
 switss/utils/graph.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index ae48d8a..20a891b 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -254,7 +254,8 @@ cdef class Graph:
                 free_treap(subg_treap)
                 free(new_subg_treaps)
 
-        free(subg_arr)
+            free(subg_arr)
+
         free_tstack(treap_stack)
         free(sccs)
 
-- 
2.43.0


From 6de3e67bfd4fd1d30801729def7124bb16b8e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 35/62] fix: state indices are checked before they index the
 graph's memory

---
 switss/utils/graph.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 20a891b..95733bc 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -38,6 +38,7 @@ cdef class Graph:
                 self.nodes[i] = Node(NULL,NULL,0,0)
             for (i,d),p in P.items():
                 s,a = index_by_state_action.inv[i]
+                assert 0 <= s < self.nodecount, "state %s does not exist" % s
                 self.add_successor(s,a,p,d)
 
     def get_nodecount(self):
@@ -64,12 +65,14 @@ cdef class Graph:
         tonode[0].predecessors = newpreds
 
     def successors(self, nodeidx, actionidx=None):
+        assert 0 <= nodeidx < self.nodecount, "state %s does not exist" % nodeidx
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].succcount):
             if actionidx is None or actionidx == node[0].successors[i][1]:
                 yield node[0].successors[i]
     
     def predecessors(self, nodeidx, actionidx=None):
+        assert 0 <= nodeidx < self.nodecount, "state %s does not exist" % nodeidx
         cdef Node *node = &self.nodes[nodeidx]
         for i in range(node[0].predcount):
             if actionidx is None or actionidx == node[0].predecessors[i][1]:
@@ -299,6 +302,10 @@ cdef class Graph:
     def reachable(self, fromset, direction, blocklist=set()):
         assert len(fromset) > 0
         assert direction in ["forward", "backward"]
+        for idx in fromset:
+            assert 0 <= idx < self.nodecount, "state %s does not exist" % idx
+        for idx in blocklist:
+            assert 0 <= idx < self.nodecount, "state %s does not exist" % idx
 
         cdef int* reachablemask = <int *> malloc(self.nodecount * sizeof(int))
         cdef int* instack = <int *> malloc(self.nodecount * sizeof(int))
-- 
2.43.0


From e5186d5a8dd9fc7d23b7fdc9b3c3bc9239795cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 36/62] fix: the numbering of maximal end components does not
 depend on the time

---
 switss/utils/graph.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 95733bc..24badeb 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -1,7 +1,6 @@
 #cython: language_level=3
 
 from libc.stdlib cimport malloc, free, srand
-from libc.time cimport time
 from libcpp cimport bool as cbool
 import numpy as np
 from scipy.sparse import dok_matrix
@@ -181,7 +180,7 @@ cdef class Graph:
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
     # number of mecs
     def maximal_end_components(self):
-        srand(time(NULL))
+        srand(0)
         ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
         cdef int[:] ret_view  = ret
         cdef int compcount = 0
-- 
2.43.0


From f6b3ec36ff030b1262ed568423a33813ce882651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 37/62] fix: adding a key twice to a treap does not leak a node

---
 switss/utils/treaps.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index cba336c..58f35df 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -78,6 +78,9 @@ cdef TNode* insert(TNode* treap, TNode* new_node):
         return new_node
 
 cdef TNode* add_to_treap(TNode* treap, int new_key):
+    if in_treap(treap, new_key):
+        return treap
+
     cdef TNode* new_node = <TNode *> malloc(sizeof(TNode))
     heap_key = new_heap_key()
     new_node.tree_key = new_key
-- 
2.43.0


From 958b05be72ad07eeeeda4aab99762ec118d4c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 38/62] fix: treap_from_arr terminates

---
 switss/utils/treaps.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index 58f35df..5345911 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -102,6 +102,7 @@ cdef TNode* treap_from_arr(int* arr, int arr_size):
     cdef int i = 0
     while i < arr_size:
         treap = add_to_treap(treap, arr[i])
+        i += 1
     return treap
 
 cdef void treap_to_arr(TNode* treap, int* arr):
-- 
2.43.0


From 23e4b13fa2d972e00cc65a6d9a8be5db8488a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 39/62] fix: graph_utils.interface uses its own index mappings

---
 switss/utils/graph_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/graph_utils.py b/switss/utils/graph_utils.py
index 560d825..7a81d02 100644
--- a/switss/utils/graph_utils.py
+++ b/switss/utils/graph_utils.py
@@ -55,6 +55,6 @@ def interface(node_set1,node_set2,P):
 
     for (n1,n2) in P.keys():
         if (n1 in node_set1) and (n2 in node_set2):
-            P_int[node_map[n1],node_map[n2]] = P[n1,n2]
+            P_int[node_map1[n1],node_map2[n2]] = P[n1,n2]
 
     return P_int,node_map1,node_map2
-- 
2.43.0


From 26672c94a8f0ad09059fc4c7568e5c3e48160645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 40/62] fix: rendered labels are listed in a fixed order

---
 bin/switss                     | 2 +-
 switss/utils/graphviz_utils.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/switss b/bin/switss
index 0b610a8..1ddc2b6 100755
--- a/bin/switss
+++ b/bin/switss
@@ -162,7 +162,7 @@ def renderargs(args):
     def state_map(stateidx, statelabels):
         labels = colorlabels.intersection(statelabels)
         return { "color" : color_from_hash(tuple(sorted(labels))),  
-                "label" : "State %d\n%s" % (stateidx,",".join(statelabels)),  
+                "label" : "State %d\n%s" % (stateidx,",".join(sorted(statelabels))),  
                 "style" : "filled" }
 
     graph = model.digraph() if args.coloring is None else model.digraph(state_map=state_map)
diff --git a/switss/utils/graphviz_utils.py b/switss/utils/graphviz_utils.py
index 437c5c0..8f42d16 100644
--- a/switss/utils/graphviz_utils.py
+++ b/switss/utils/graphviz_utils.py
@@ -49,7 +49,7 @@ def std_state_map(stateidx,labels):
 
     return { "style" : "filled",
              "color" : color_from_hash(tuple(sorted(labels))),
-             "label" : "State %d\n%s" % (stateidx,",".join(labels)),
+             "label" : "State %d\n%s" % (stateidx,",".join(sorted(labels))),
              "fontsize" : "18pt"}
 
 def std_trans_map_mdp(sourceidx, action, destidx, p):
@@ -92,7 +92,7 @@ def std_action_map(sourceidx, action, labels):
     :param labels: labeling of the action.
     :type labels: set label
     :rtype: dict"""
-    return { "node" : { "label" :  "%s\n%s" % (action, "".join(labels)),
+    return { "node" : { "label" :  "%s\n%s" % (action, "".join(sorted(labels))),
                         "color" : "black", 
                         "shape" : "rectangle",
                         "fontsize" : "18pt"}, 
-- 
2.43.0


From d8d29a8dc02d493b3bc77d478a7e1b2b6e0741fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 41/62] fix: tree decomposition frees the array of successor
 points once

---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index d9fe6ef..c697188 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -319,7 +319,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         else:
             for i in range(no_sucs):
                 free_mem(suc_points_c[i],points_per_suc[i])
-                free(suc_points_c)
+            free(suc_points_c)
 
         # lambda to go from inp point to python Point dict
         fip = lambda p,k: from_inp_point(p,part_to_input_mapping,inp_dim,k)
-- 
2.43.0


From 954e0c2a2738ab0b24de65d40375b5fc862f7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 42/62] fix: the point iterator of the tree decomposition stays
 inside its arrays

---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index c697188..9bf7391 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -111,7 +111,7 @@ cdef void increase_iterator(int* points_iterator, int [:] points_per_suc, int no
         return
     cdef int i = no_sucs -1
     while True:
-        if points_iterator[i] == points_per_suc[i]:
+        if points_iterator[i] == points_per_suc[i] - 1:
             points_iterator[i] = 0
             if i == 0:
                 break
-- 
2.43.0


From 92cfdfc285d17a6a419060fc1d7dd95190e25e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 43/62] fix: tree decomposition frees its temporary points and
 vectors

---
 switss/utils/tree_decomp.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 9bf7391..a23f4d9 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -86,9 +86,12 @@ cdef Point* py_to_c_points(suc_points_py):
 
 cdef Point get_point(Point** suc_points_c, int* point_it, int no_sucs):
     cdef Point new_point = Point(0,0,NULL)
+    cdef StateProb* old_probs = NULL
     cdef int i = 0
     for i in range(no_sucs):
+        old_probs = new_point.probs
         new_point = add_points_c(new_point,suc_points_c[i][point_it[i]])
+        free(old_probs)
     return new_point
 
 cdef Point add_points_c(Point p1, Point p2):
@@ -529,6 +532,7 @@ cdef int handle_subsys(int[:] states,
 
         if (tot_no_states + min_dist_from_init) > known_upper_bound:
             excl_by_states = excl_by_states + 1
+            free(current_point.probs)
             continue
 
         # define target_arr (RHS of the linear equation system to solve) using out-probabilities
@@ -575,6 +579,7 @@ cdef int handle_subsys(int[:] states,
         no_new_points = no_new_points +1
 
     free(points_iterator)
+    free(reach_probs)
     free(P_arr)
     free(IPIV_arr)
     free(target_arr)
-- 
2.43.0


From c8e5d23d41b1222749d304684392cd8c6e02da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 44/62] fix: a timeout of the tree decomposition does not leak
 the successor points

---
 switss/utils/tree_decomp.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index a23f4d9..27129f7 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -268,6 +268,9 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
             no_of_models += 1
             if timeout != None:
                 if time.perf_counter() - start_time > timeout:
+                    for i in range(max(no_sucs,1)):
+                        free_mem(suc_points_c[i],points_per_suc[i] if no_sucs > 0 else 1)
+                    free(suc_points_c)
                     return -1
             # states in the subsystem
             states = np.array([ i for i in part_view.get_vertices()
-- 
2.43.0


From 58fe921f3e9f5a3b96ae7ab5906373fc96870bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 45/62] fix: strongly_connected_components is callable on
 models

---
 switss/model/amdp.py   |  2 +-
 switss/utils/graph.pyx | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 69b264a..9bf24b3 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -188,7 +188,7 @@ class AbstractMDP(ABC):
         :return: A :math:`N_{S_{\\text{all}}}`-dimensional vector containing the index of the SCC every state belongs to and the number of SCCs.
         :rtype: Tuple[np.ndarray[int],int]
         """        
-        return self.__graph.strongly_connected_components()
+        return self.__graph.sccs()
 
     def maximal_end_components(self):
         """Returns the Maximal End Components (MECs) of this model.
diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 24badeb..0e0ff64 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -175,6 +175,25 @@ cdef class Graph:
 
         return scc_counter-1
 
+    # computes the strongly connected components of the whole graph.
+    # returns a pair (sccs,nr_sccs) where sccs contains for each state the index of its SCC.
+    def sccs(self):
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
+        cdef TNode* treap = NULL
+        cdef int i = 0
+        while i < self.nodecount:
+            treap = add_to_treap(treap,i)
+            i += 1
+
+        cdef int scc_count = self.strongly_connected_components(treap,sccs)
+        for i in range(self.nodecount):
+            ret[i] = sccs[i]-1
+
+        free_treap(treap)
+        free(sccs)
+        return ret, scc_count
+
     # computes the maximal end components of a graph. r
     # returns a triple (mecs,p_mecs,nr_mecs) where mecs is a vector containing for each state the mec-index it belongs to,
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
-- 
2.43.0


From cc2828a0ca1bc9aa1a46e142e24fc0d20bd961c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 46/62] fix: switss minimize passes the mode to the search and
 stores it for certify and subsystem

---
 bin/switss | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/switss b/bin/switss
index 1ddc2b6..3776a92 100755
--- a/bin/switss
+++ b/bin/switss
@@ -82,6 +82,7 @@ def minargs(args):
             methodparams[k] = {C.__name__ : C for C in [
                 InverseResultUpdater
             ]}[methodparams[k]]
+    mode = methodparams.pop("mode")
     method = methodtype(**methodparams)
     vprint("method is %s" % method)
 
@@ -96,10 +97,10 @@ def minargs(args):
 
     vprint("solving with parameters %s" % ", ".join(["%s=%s" % it for it in solveparams.items()]))
 
-    info = { "method" : method.details, "instances" : [] }
+    info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
-        check = check_farkas_certificate(rf, methodparams["mode"], ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
+        check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
         instance = { "iteration" : idx,
                      "threshold" : solveparams["threshold"],
@@ -107,10 +108,10 @@ def minargs(args):
         info["instances"].append(instance)
 
     if len(args.solve_iter) > 0:
-        for idx, result in enumerate(method.solveiter(rf, **solveparams)):
+        for idx, result in enumerate(method.solveiter(rf, mode=mode, **solveparams)):
             process_result(idx, result)            
     elif len(args.solve) > 0:
-        process_result(0, method.solve(rf, **solveparams))
+        process_result(0, method.solve(rf, mode=mode, **solveparams))
         
     output = args.certificate if args.certificate is not None else args.modelpath + ".certificates.json" 
     vprint("storing results @ %s" % output, end=" - ")
-- 
2.43.0


From 860803f539e0d2e9bd35ea6ac05b38032ce0a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 47/62] fix: switss minimize reports instances without solution
 instead of crashing

---
 bin/switss | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/switss b/bin/switss
index 3776a92..8743555 100755
--- a/bin/switss
+++ b/bin/switss
@@ -99,6 +99,9 @@ def minargs(args):
 
     info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
+        if result.status != "success":
+            vprint("instance %s has no solution: %s" % (idx,result.status))
+            return
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
         check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
-- 
2.43.0


From c13721946688cc70768fd6754fdd8be9287c9fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 48/62] fix: switss subsystem labels a new model instead of
 deep-copying one

---
 bin/switss | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bin/switss b/bin/switss
index 8743555..89a20ac 100755
--- a/bin/switss
+++ b/bin/switss
@@ -2,7 +2,6 @@
 
 import argparse
 import json
-import copy
 import numpy as np
 
 from switss.utils import color_from_hash 
@@ -149,10 +148,14 @@ def subsysargs(args):
         output = "%s-%s" % (output, iteration)
         vprint("generating subsystem %s" % output,end=" - ")
         ss = Subsystem(rf, certificate, minfo["mode"])
-        sys = copy.deepcopy(rf.system)
+        sys = type(rf.system)(
+            P=rf.system.P,
+            index_by_state_action=rf.system.index_by_state_action,
+            label_to_actions=rf.system.actions_by_label,
+            label_to_states=rf.system.states_by_label)
         for s,inss in enumerate(ss.subsystem_mask):
             if inss:
-                sys.labels_by_state.add(s, args.subsys_label)
+                sys.add_label(s, args.subsys_label)
         sys.save(output)
         vprint("done.")
 
-- 
2.43.0


From 6b243371dc6f7e9d56cea145370e4311e4487c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 49/62] fix: switss does not report internal errors as missing
 arguments

---
 bin/switss | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/switss b/bin/switss
index 89a20ac..87614f2 100755
--- a/bin/switss
+++ b/bin/switss
@@ -334,7 +334,6 @@ parser_render.add_argument("-o", "--output", help="output file for storing .svg
 parser_render.add_argument("-vi","--view", action="store_true", help="if given, opens up a window containing rendering of system")
 parser_render.add_argument("-col","--coloring", help="list of labels that define the colors")
 args = parser.parse_args()
-try:
-    func = args.func(args)
-except AttributeError:
+if not hasattr(args, "func"):
     parser.error("too few arguments")
+func = args.func(args)
-- 
2.43.0


From a82f3361e64ff061cdf967598a1a274aff8f8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 50/62] fix: label groups only contain variables of the
 program, not target or fail

---
 switss/problem/formulations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 2a0e605..a4d23bb 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -92,7 +92,8 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
         groups = {}
         for label in labels:
             states = rf.system.states_by_label[label]
-            groups[label] = states
+            # target and fail state are no variables
+            groups[label] = { state for state in states if state < certificate_size(rf, mode) }
         return InvertibleDict(groups)
     else:
         groups = InvertibleDict({})
@@ -102,7 +103,8 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
                 actions = rf.system.actions_by_state[state]
                 for action in actions:
                     sap = rf.system.index_by_state_action[(state, action)]
-                    groups.add(label, sap)
+                    if sap < certificate_size(rf, mode):
+                        groups.add(label, sap)
         return groups
 
 def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_real_indicator_constrs=False, indicator_domain="real"):
-- 
2.43.0


From 85cec3aa5d50fec15c160e42025a66353b6d70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 51/62] fix: exact min-search without upper bounds does not
 assume them to be one

---
 switss/problem/formulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index a4d23bb..2823c91 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -214,8 +214,8 @@ def construct_MILP(rf, threshold, mode, labels=None, relaxed=False, known_upper_
         elif status == "optimal":
             upper_bounds = up_res
 
-    if not relaxed and mode == "max" and upper_bounds is None:
-        assert modeltype_str == "gurobi", "warning: exact minimization of max-properties only possible via gurobi interface at the moment."
+    if not relaxed and upper_bounds is None:
+        assert modeltype_str == "gurobi", "warning: exact minimization without upper bounds (e.g. of max-properties) only possible via gurobi interface at the moment."
 
         use_real_indicator_constrs = True
 
-- 
2.43.0


From a9a26db31d21fb82e74f4b77af1b054496cb5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 52/62] fix: tree search reports the status of a failed
 heuristic instead of infeasible

---
 switss/problem/tree_algo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index 6f406f9..5c5f13c 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -33,9 +33,10 @@ class TreeAlgo(ProblemFormulation):
             res_min = qsheur.solve(reach_form,threshold,"min",timeout=timeout)
             print("res_max: " + str(res_max.value))
             print("res_min: " + str(res_min.value))
-            if res_min.status != "success" or res_max.status != "success":
-                yield ProblemResult("infeasible",None,None,None)
-                return
+            for res in (res_min, res_max):
+                if res.status != "success":
+                    yield ProblemResult(res.status,None,None,None)
+                    return
 
             upper_bound = min(res_max.value, res_min.value)
 
-- 
2.43.0


From 556e8bf8755791554ec8c590d31ada220343b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 53/62] fix: repeated variables in an expression add up in the
 pulp backend

---
 switss/solver/milp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 912b2df..72c29f7 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -106,7 +106,11 @@ class MILP:
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _expr_to_pulp(self, expression):
+        # pulp keeps only the last coefficient of a variable that is listed several times
+        coeffs = {}
         for var, coeff in expression:
+            coeffs[var] = coeffs.get(var,0) + coeff
+        for var, coeff in coeffs.items():
             yield self.__variables[var], coeff
 
     def set_objective_function(self, expression):
@@ -129,8 +133,8 @@ class MILP:
         else:
             for var in self.__pulpmodel.objective:
                 self.__pulpmodel.objective[var] = 0
-            for var,coeff in expression:
-                self.__pulpmodel.objective[self.__variables[var]] = coeff
+            for var,coeff in self._expr_to_pulp(expression):
+                self.__pulpmodel.objective[var] = coeff
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
-- 
2.43.0


From f284926eb6842064052c2bbf162cc95343c4248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 54/62] fix: binary variables keep their bounds in the pulp
 backend

---
 switss/solver/milp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 72c29f7..67a5f6c 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -200,6 +200,11 @@ class MILP:
             assert domain in ["integer", "real", "binary"]
 
             cat = { "real" : pulp.LpContinuous, "integer" : pulp.LpInteger, "binary" : pulp.LpBinary }[domain]
+            if domain == "binary":
+                # pulp ignores the bounds of variables of category LpBinary
+                cat = pulp.LpInteger
+                lb = 0 if lb is None else max(lb,0)
+                ub = 1 if ub is None else min(ub,1)
             varidx = len(self.__variables)
             var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)
             self.__variables.append(var)
-- 
2.43.0


From 1b572e832a84cb71009bf4774dfceb98caad78b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 55/62] fix: programs without an objective function can be
 built and solved as documented

---
 switss/solver/milp.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 67a5f6c..1a6e00b 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -96,7 +96,8 @@ class MILP:
         if status == "optimal" and self.__pulpmodel.sol_status != pulp.LpSolutionOptimal:
             status = "notsolved"
         result_vector = np.array([var.value() for var in self.__variables])
-        value = self.__pulpmodel.objective.value()
+        # without an objective function there is no objective
+        value = self.__pulpmodel.objective.value() if self.__pulpmodel.objective is not None else None
 
         return SolverResult(status, result_vector, value)
 
@@ -250,7 +251,8 @@ class MILP:
         b = cast_dok_matrix(b)
 
 
-        opt = cast_dok_matrix(opt)
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
 
         model = MILP(objective=objective)
 
@@ -261,7 +263,8 @@ class MILP:
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
@@ -578,7 +581,8 @@ class GurobiMILP(MILP):
         A = cast_dok_matrix(A).tocsr()
         b = cast_dok_matrix(b)
 
-        opt = cast_dok_matrix(opt)
+        if opt is not None:
+            opt = cast_dok_matrix(opt)
 
         model = GurobiMILP(objective=objective)
 
@@ -589,7 +593,8 @@ class GurobiMILP(MILP):
         else:
             model.add_variables([domains[idx] for idx in range(A.shape[1])])
 
-        model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
+        if opt is not None:
+            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
         # this takes quite a lot of time since accessing the rows is inefficient, even for csr-formats.
         # maybe find a way to compute Ax <= b faster.
-- 
2.43.0


From 4be31fa24008b7d39b679f4c7e5d2c8e70b8aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 56/62] fix: Subsystem.digraph changed the dictionaries
 returned by the model's action map

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 88c4673..eb48411 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -218,7 +218,7 @@ class Subsystem:
             in_subsystem = not fail_or_target and self.subsystem_mask[sourceidx]
             show_action_weights = (show_weights and self.certform == "max" and in_subsystem)
             
-            am = visualization.action_map(sourceidx, action, sourcelabels)
+            am = dict(visualization.action_map(sourceidx, action, sourcelabels))
             am["node"] = { "label" : "", **(am["node"]) }
             
             if show_action_weights:
-- 
2.43.0


From 273df22ee4ff2bf60fc483dd14ee823f9bc2a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 57/62] fix: DTMCVisualizationConfig(trans_map=None) fell back
 to the transition style of MDPs

---
 switss/utils/graphviz_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/switss/utils/graphviz_utils.py b/switss/utils/graphviz_utils.py
index 8f42d16..3d9717e 100644
--- a/switss/utils/graphviz_utils.py
+++ b/switss/utils/graphviz_utils.py
@@ -107,5 +107,7 @@ class VisualizationConfig:
 
 class DTMCVisualizationConfig(VisualizationConfig):
     def __init__(self, state_map=None, trans_map=std_trans_map_dtmc):
+        if trans_map is None:
+            trans_map = std_trans_map_dtmc
         super().__init__(state_map,trans_map,None)
         self.action_map = None
-- 
2.43.0


From f4ebfe84a618d68ccd781521824208797d173aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 58/62] fix: GurobiMILP.solve had no default solver, unlike
 MILP.solve

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 1a6e00b..4c28125 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -380,7 +380,7 @@ class GurobiMILP(MILP):
         self.__model.setParam('Threads', 4)
 
 
-    def solve(self, solver, timeout=None,print_output=False):
+    def solve(self, solver="gurobi", timeout=None,print_output=False):
         if timeout is not None:
             self.__model.setParam('TimeLimit',timeout)
         self.__model.setParam('OutputFlag', 1 if print_output else 0)
-- 
2.43.0


From d85da7d04283974ea6c0c1719238ea5c7f0f408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 59/62] fix: the inverse initializers did not accept the
 documented argument weights

---
 switss/problem/qsheurparams.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 06a61f7..3c65cbf 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -198,8 +198,8 @@ class InverseReachabilityInitializer(Initializer):
     The reasoning is similar to the z-Form; state-action pairs that yield states which have a low probability
     of reaching the goal state get a high weight.
     """    
-    def __init__(self, reachability_form, mode, indicator_to_group, solver="cbc"):
-        super(InverseReachabilityInitializer, self).__init__(reachability_form, mode, indicator_to_group)
+    def __init__(self, reachability_form, mode, indicator_to_group, solver="cbc", weights=None, **kwargs):
+        super(InverseReachabilityInitializer, self).__init__(reachability_form, mode, indicator_to_group, weights=weights)
         self.solver = solver
 
         self.Pr = None
@@ -226,8 +226,8 @@ class InverseReachabilityInitializer(Initializer):
 class InverseFrequencyInitializer(Initializer):
     """"""
 
-    def __init__(self, reachability_form, mode, indicator_to_group, solver="cbc"):
-        super(InverseFrequencyInitializer, self).__init__(reachability_form, mode, indicator_to_group)
+    def __init__(self, reachability_form, mode, indicator_to_group, solver="cbc", weights=None, **kwargs):
+        super(InverseFrequencyInitializer, self).__init__(reachability_form, mode, indicator_to_group, weights=weights)
         self.solver = solver
 
         self.E = None
@@ -253,8 +253,8 @@ class InverseFrequencyInitializer(Initializer):
 
 
 class InverseCombinedInitializer(Initializer):
-    def __init__(self, reachability_form, mode, indicator_to_group, solver="cbc"):
-        super(InverseCombinedInitializer, self).__init__(reachability_form, mode, indicator_to_group)
+    def __init__(self, reachability_form, mode, indicator_to_group, solver="cbc", weights=None, **kwargs):
+        super(InverseCombinedInitializer, self).__init__(reachability_form, mode, indicator_to_group, weights=weights)
         self.solver = solver
 
         self.E = None
-- 
2.43.0


From 53a407f9495cb90bcf7f969fba95c72fc2956f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 60/62] fix: digraph of both models accepts the same arguments
 and passes further ones on to graphviz as documented

---
 switss/model/dtmc.py | 6 ++++--
 switss/model/mdp.py  | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 33cabb3..254b904 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -40,7 +40,7 @@ class DTMC(AbstractMDP):
 
         super().__init__(P, index_by_state_action, {}, label_to_states, vis_config, reward_vector)
 
-    def digraph(self, state_map = None, trans_map = None, **kwargs):
+    def digraph(self, state_map = None, trans_map = None, action_map = None, small = False, **kwargs):
         """Creates a `graphviz.Digraph` object from this instance. When a digraph object is created, 
         new nodes are added for states plus additional edges for transitions between states. 
         `state_map` and `trans_map` are functions that, on some input, compute keyword arguments for
@@ -79,7 +79,9 @@ class DTMC(AbstractMDP):
         state_map = self.visualization.state_map if state_map is None else state_map
         trans_map = self.visualization.trans_map if trans_map is None else trans_map
 
-        dg = Digraph()
+        dg = Digraph(**kwargs)
+        if (small):
+            dg.attr('graph', size="4,6")
 
         # connect nodes between each other
         existing_nodes = set({})
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 256aab9..0cbf613 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -33,7 +33,7 @@ class MDP(AbstractMDP):
         super().__init__(P, index_by_state_action, label_to_actions, label_to_states,vis_config, reward_vector)
 
 
-    def digraph(self, state_map = None, trans_map = None, action_map = None, small = False):
+    def digraph(self, state_map = None, trans_map = None, action_map = None, small = False, **kwargs):
         """
         Creates a graphviz.Digraph object from this instance. When a digraph object is created, 
         new nodes are added for states and actions plus additional edges between actions and nodes. 
@@ -83,7 +83,7 @@ class MDP(AbstractMDP):
         trans_map = self.visualization.trans_map if trans_map is None else trans_map
         action_map = self.visualization.action_map if action_map is None else action_map
 
-        dg = Digraph()
+        dg = Digraph(**kwargs)
         if (small):
             dg.attr('graph', size="4,6")
         # connect nodes between each other
-- 
2.43.0


From 80539fd8c191ffa65a9175177ca3272bbada6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 61/62] fix: the numbering of strongly connected components
 does not depend on earlier calls

---
 switss/utils/graph.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 0e0ff64..d96b72a 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -178,6 +178,7 @@ cdef class Graph:
     # computes the strongly connected components of the whole graph.
     # returns a pair (sccs,nr_sccs) where sccs contains for each state the index of its SCC.
     def sccs(self):
+        srand(0)
         ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
         cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
         cdef TNode* treap = NULL
-- 
2.43.0


From 534b3bad46fc44a4da3c5328a672d460f0eda8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 62/62] fix: computing components of long paths overflows the
 stack

---
 switss/utils/graph.pyx | 80 ++++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index d96b72a..bca8aaa 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -19,6 +19,8 @@ cdef struct Node:
 cdef struct TarjanNode:
     int index, lowlink
     int onstack
+    int succidx
+    TNode* bad_actions
 
 cdef struct SubMDP:
     int* E
@@ -88,49 +90,67 @@ cdef class Graph:
             ret += "\n"
         return ret
 
-    cdef (int,int,IntStack*) strongconnect(self, int v, IntStack* stack, TarjanNode* tnodes,
+    cdef (int,int,IntStack*) strongconnect(self, int root, IntStack* stack, TarjanNode* tnodes,
                                            int i, int* sccs, int scc_counter, TNode* treap):
 
+        cdef int v = 0
         cdef int w = 0
         cdef int a = 0
-        cdef TNode* bad_actions_treap = NULL
+        cdef int descend = 0
+        cdef Node *node = NULL
+
+        # path of states whose successors are being visited (a path may contain every state, therefore no recursion)
+        cdef IntStack* path = NULL
+        path = push(path, root)
 
-        tnodes[v] = TarjanNode(i, i, 1)
-        i += 1
-        stack = push(stack, v)
+        while path != NULL:
+            v = path.element
+            node = &self.nodes[v]
 
-        cdef Node *node = &self.nodes[v]
-        # compute actions of v which have a successor that is not in treap, and hence should be ignored
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
-            if not in_treap(treap,w):
-                bad_actions_treap = add_to_treap(bad_actions_treap,a)
+            if tnodes[v].index == -1:
+                tnodes[v] = TarjanNode(i, i, 1, 0, NULL)
+                i += 1
+                stack = push(stack, v)
 
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
+                # compute actions of v which have a successor that is not in treap, and hence should be ignored
+                for succidx in range(node[0].succcount):
+                    w = node[0].successors[succidx][0] # -> index of successor state
+                    a = node[0].successors[succidx][1] # -> index of corresponding action
+                    if not in_treap(treap,w):
+                        tnodes[v].bad_actions = add_to_treap(tnodes[v].bad_actions,a)
 
-            if in_treap(bad_actions_treap,a):
-                continue
+            descend = 0
+            while not descend and tnodes[v].succidx < node[0].succcount:
+                w = node[0].successors[tnodes[v].succidx][0] # -> index of successor state
+                a = node[0].successors[tnodes[v].succidx][1] # -> index of corresponding action
+                tnodes[v].succidx += 1
 
-            elif tnodes[w].index == -1:
-                i,scc_counter,stack = self.strongconnect(w,stack,tnodes,i,sccs,scc_counter,treap)
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].lowlink)
+                if in_treap(tnodes[v].bad_actions,a):
+                    continue
 
-            elif tnodes[w].onstack:
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
+                elif tnodes[w].index == -1:
+                    path = push(path, w)
+                    descend = 1
+
+                elif tnodes[w].onstack:
+                    tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
+
+            if descend:
+                continue
 
+            if tnodes[v].lowlink == tnodes[v].index:
+                w = -1
+                while w != v:
+                    stack, w = pop(stack)
+                    tnodes[w].onstack = 0
+                    sccs[w] = scc_counter
+                scc_counter += 1
 
-        if tnodes[v].lowlink == tnodes[v].index:
-            w = -1
-            while w != v:
-                stack, w = pop(stack)
-                tnodes[w].onstack = 0
-                sccs[w] = scc_counter
-            scc_counter += 1
+            free_treap(tnodes[v].bad_actions)
+            path, w = pop(path)
+            if path != NULL:
+                tnodes[path.element].lowlink = min(tnodes[path.element].lowlink,tnodes[v].lowlink)
 
-        free_treap(bad_actions_treap)
         return i,scc_counter,stack
 
 
-- 
2.43.0

