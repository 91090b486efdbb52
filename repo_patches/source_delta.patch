From 0e970a591fab1085e1c4f32b156ffab1c7f2e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 01/68] fix: merge keeps the weight of design instances

---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..f549dd3 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -68,7 +68,7 @@ class DbMerger(object):
             dst_iscope = self.dst_db.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
-                1, # weight
+                src_iscope.getWeight(), # weight
                 UCIS_OTHER, # query SourceType
                 UCIS_INSTANCE,
                 dst_du,
-- 
2.43.0


From bde13116192d4f5732fe097fc5108b92907e590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 02/68] fix: merge no longer drops same-named siblings of one
 source

---
 src/ucis/merge/db_merger.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index f549dd3..5161895 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -37,17 +37,14 @@ class DbMerger(object):
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
-                    scope_l = [None]*len(src_db_l)
-                    scope_l[i] = src_iscope
-                    iscope_m[name] = scope_l
+                    iscope_m[name] = []
                     iscope_name_l.append(name)
-                else:
-                    iscope_m[name][i] = src_iscope
+                iscope_m[name].append(src_iscope)
             
         for name in iscope_name_l:
             # We'll create the scope using the first src database
             # that it was in
-            src_scopes = list(filter(lambda e: e is not None, iscope_m[name]))
+            src_scopes = iscope_m[name]
             
             src_iscope = src_scopes[0]
             
@@ -86,13 +83,12 @@ class DbMerger(object):
                 name = src_cg.getScopeName()
                 
                 if name not in cg_name_m.keys():
-                    scope_l = [None]*len(src_scopes)
-                    cg_name_m[name] = scope_l
+                    cg_name_m[name] = []
                     cg_name_l.append(name)
-                cg_name_m[name][i] = src_cg
+                cg_name_m[name].append(src_cg)
 
         for name in cg_name_l:                
-            src_cg_l = list(filter(lambda cg: cg is not None, cg_name_m[name]))
+            src_cg_l = cg_name_m[name]
             
             # Create the destination using the first covergroup
             dst_cg = dst_scope.createCovergroup(
@@ -121,12 +117,12 @@ class DbMerger(object):
                 name = src_cg_i.getScopeName()
                 
                 if name not in cg_i_m.keys():
-                    cg_i_m[name] = [None]*len(src_cg_l)
+                    cg_i_m[name] = []
                     cg_n_l.append(name)
-                cg_i_m[name][i] = src_cg_i
+                cg_i_m[name].append(src_cg_i)
                 
         for name in cg_n_l:
-            src_cg_i_l = list(filter(lambda cg : cg is not None, cg_i_m[name]))
+            src_cg_i_l = cg_i_m[name]
             
             dst_cg_i = dst_cg.createCoverInstance(
                         name,
@@ -147,13 +143,12 @@ class DbMerger(object):
                 name = cp.getScopeName()
                 
                 if name not in cp_name_m.keys():
-                    scope_l = [None]*len(src_cg_l)
-                    cp_name_m[name] = scope_l
+                    cp_name_m[name] = []
                     cp_name_l.append(name)
-                cp_name_m[name][i] = cp
+                cp_name_m[name].append(cp)
                 
         for name in cp_name_l:
-            src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
+            src_cp_l = cp_name_m[name]
             
             dst_cp = dst_cg.createCoverpoint(
                 src_cp_l[0].getScopeName(),
-- 
2.43.0


From c9198d1e9857e552e154133dbc94e74d2d0d9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 03/68] fix: merge creates one design unit per design-unit name

---
 src/ucis/merge/db_merger.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 5161895..dd24193 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -32,6 +32,7 @@ class DbMerger(object):
         
         iscope_m : Dict[str, List[object]] = {}
         iscope_name_l = []
+        dst_du_m = {}
 
         for i,db in enumerate(src_db_l):
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
@@ -51,17 +52,20 @@ class DbMerger(object):
             # Create a representation of the scope in the destination
             # database                
             src_du = src_iscope.getInstanceDu()
-            dst_du = self.dst_db.createScope(
-                src_du.getScopeName(),
-                src_du.getSourceInfo(),
-                src_du.getWeight(), # weight
-                UCIS_OTHER, # TODO: must query SourceType
-                UCIS_DU_MODULE, # TODO: must query GetScopeType
-                UCIS_ENABLED_STMT | UCIS_ENABLED_BRANCH
-                | UCIS_ENABLED_COND | UCIS_ENABLED_EXPR
-                | UCIS_ENABLED_FSM | UCIS_ENABLED_TOGGLE
-                | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU) # TODO: GetScopeFlags
-                    
+            du_name = src_du.getScopeName()
+            if du_name not in dst_du_m.keys():
+                dst_du_m[du_name] = self.dst_db.createScope(
+                    du_name,
+                    src_du.getSourceInfo(),
+                    src_du.getWeight(), # weight
+                    UCIS_OTHER, # TODO: must query SourceType
+                    UCIS_DU_MODULE, # TODO: must query GetScopeType
+                    UCIS_ENABLED_STMT | UCIS_ENABLED_BRANCH
+                    | UCIS_ENABLED_COND | UCIS_ENABLED_EXPR
+                    | UCIS_ENABLED_FSM | UCIS_ENABLED_TOGGLE
+                    | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU) # TODO: GetScopeFlags
+            dst_du = dst_du_m[du_name]
+
             dst_iscope = self.dst_db.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
-- 
2.43.0


From a3923ca0fd18ea67fd593b59ec889b941c2495c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:11 +0000
Subject: [PATCH 04/68] fix: merge reports an unresolved crossed coverpoint by
 name

---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index dd24193..7b8a694 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -213,7 +213,7 @@ class DbMerger(object):
                     coverpoint_l.append(dst_cp_m[src_cp.getScopeName()])
                 else:
                     raise Exception("Cannot find coverpoint %s when creating cross %s" % (
-                        src_cp.getName(), name))
+                        src_cp.getScopeName(), name))
 
             dst_cr = dst_cg.createCross(
                 name,
-- 
2.43.0


From 7f7da36d71e60a96fc84ef5e92c65f270540ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:30 +0000
Subject: [PATCH 05/68] fix: cover data created by the caller has an at-least
 threshold

---
 src/ucis/cover_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/cover_data.py b/src/ucis/cover_data.py
index 62314ac..2a7f4a4 100644
--- a/src/ucis/cover_data.py
+++ b/src/ucis/cover_data.py
@@ -14,6 +14,7 @@ class CoverData():
         self.flags = flags
         # TODO: determine default data based on flags
         self.data = 0
+        self.at_least = 1
         self.goal = 0 # if UCIS_HAS_GOAL
         self.weight = 0 # if UCIS_HAS_WEIGHT
         self.limit = 0 # if UCIS_HAS_LIMIT
-- 
2.43.0


From 7ad041b52fd4f007157d6555b4638c2ac5f7c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:30 +0000
Subject: [PATCH 06/68] fix: in-memory items do not alias the caller's argument
 objects

---
 src/ucis/mem/mem_cover_item.py | 5 +++--
 src/ucis/mem/mem_cross.py      | 2 +-
 src/ucis/mem/mem_scope.py      | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ucis/mem/mem_cover_item.py b/src/ucis/mem/mem_cover_item.py
index f6ce22c..85266d9 100644
--- a/src/ucis/mem/mem_cover_item.py
+++ b/src/ucis/mem/mem_cover_item.py
@@ -3,6 +3,7 @@ Created on Jan 12, 2020
 
 @author: ballance
 '''
+from copy import copy
 from ucis.cover_item import CoverItem
 
 class MemCoverItem(CoverItem):
@@ -12,8 +13,8 @@ class MemCoverItem(CoverItem):
         self.m_stmt_idx = 0
         self.m_parent = parent
         self.m_name = name
-        self.m_data = data # TODO: copy
-        self.m_sourceinfo = sourceinfo # TODO: copy
+        self.m_data = copy(data)
+        self.m_sourceinfo = copy(sourceinfo)
 
     def getStmtIndex(self)->int:
         return self.m_stmt_idx
diff --git a/src/ucis/mem/mem_cross.py b/src/ucis/mem/mem_cross.py
index 9eada40..9163eb3 100644
--- a/src/ucis/mem/mem_cross.py
+++ b/src/ucis/mem/mem_cross.py
@@ -24,7 +24,7 @@ class MemCross(MemCoverpoint,Cross):
         self.m_type = UCIS_CROSS
         Cross.__init__(self)
         
-        self.coverpoints = coverpoints
+        self.coverpoints = list(coverpoints)
         
     def getNumCrossedCoverpoints(self)->int:
         return len(self.coverpoints)
diff --git a/src/ucis/mem/mem_scope.py b/src/ucis/mem/mem_scope.py
index 7dde27e..97ca0d4 100644
--- a/src/ucis/mem/mem_scope.py
+++ b/src/ucis/mem/mem_scope.py
@@ -20,6 +20,7 @@ Created on Jan 8, 2020
 @author: ballance
 '''
 
+from copy import copy
 from typing import Iterator, List
 from ucis.int_property import IntProperty
 from ucis.cover_data import CoverData
@@ -54,7 +55,7 @@ class MemScope(MemObj,Scope):
         super().__init__()
         self.m_parent = parent
         self.m_name = name
-        self.m_srcinfo = srcinfo if srcinfo is not None else SourceInfo(None, -1, -1)
+        self.m_srcinfo = copy(srcinfo) if srcinfo is not None else SourceInfo(None, -1, -1)
         self.m_weight = weight
         self.m_source = source
         self.m_type = type
@@ -139,7 +140,7 @@ class MemScope(MemObj,Scope):
         name:str, 
         data:CoverData, 
         sourceinfo:SourceInfo)->CoverIndex:
-        ret = MemCoverIndex(name, data, sourceinfo)
+        ret = MemCoverIndex(name, copy(data), copy(sourceinfo))
         self.m_cover_items.append(ret)
         return ret
 
-- 
2.43.0


From c193885b7dc0361b2083f7f71b62359472333922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:30 +0000
Subject: [PATCH 07/68] fix: string properties of in-memory objects are kept

---
 src/ucis/mem/mem_obj.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ucis/mem/mem_obj.py b/src/ucis/mem/mem_obj.py
index 5c978db..dbe1dab 100644
--- a/src/ucis/mem/mem_obj.py
+++ b/src/ucis/mem/mem_obj.py
@@ -22,25 +22,32 @@ Created on Jan 8, 2020
 
 from ucis.obj import Obj
 from ucis.str_property import StrProperty
+from ucis.unimpl_error import UnimplError
 
 
 class MemObj(Obj):
     
     def __init__(self):
         Obj.__init__(self)
+        self.m_str_properties = {}
         
     def getStringProperty(
             self,
             coverindex : int,
             property : StrProperty) -> str:
-        # Ignore for now
-        pass
+        try:
+            return super().getStringProperty(coverindex, property)
+        except UnimplError:
+            return self.m_str_properties.get((coverindex, property))
     
     def setStringProperty(
             self,
             coverindex : int,
             property : StrProperty,
             value : str):
-        return ""
+        try:
+            super().setStringProperty(coverindex, property, value)
+        except UnimplError:
+            self.m_str_properties[(coverindex, property)] = value
         
     
\ No newline at end of file
-- 
2.43.0


From 4f3a6d39cfc8b08848e14eca3835d97566d62a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 08/68] fix: TEST_STATUS property carries the test status

---
 src/ucis/mem/mem_history_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..a7e20ae 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return int(self.m_test_status)
         else:
             return super().getIntProperty(coverindex, property)
         
@@ -77,7 +77,7 @@ class MemHistoryNode(HistoryNode):
         property:IntProperty, 
         value:int):
         if property == IntProperty.TEST_STATUS:
-            self.m_test_status = (value==1)
+            self.m_test_status = TestStatusT(value)
         else:
             super().setIntProperty(coverindex, property, value)
     
-- 
2.43.0


From b0c78b3a477faf0bc32d72add71b6627e631a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 09/68] fix: report total covers all instances and tolerates
 zero total weight

---
 src/ucis/report/coverage_report_builder.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..e72b121 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -34,23 +34,26 @@ class CoverageReportBuilder(object):
         
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
+
+        # The total covers the covergroups of all instances
+        coverage = 0.0
+        div = 0
+        for cg in self.report.covergroups:
+            coverage += cg.coverage * cg.weight
+            div += cg.weight
+        if div > 0: coverage /= div
+
+        self.report.coverage = coverage
             
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From 8a3c86aaa3544607362d1b99771ed0dbca961172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 10/68] fix: report uses the weight of crosses

---
 src/ucis/report/coverage_report_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index e72b121..826220a 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -136,6 +136,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
-- 
2.43.0


From 7038d8c5d45bf22aec91856a2405e5bb11d9d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 11/68] fix: reported goal of cross bins is their at-least
 threshold

---
 src/ucis/report/coverage_report_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 826220a..9f68c3b 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -149,7 +149,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From bb8dbc32c6e72cce3dccf4c1bbe1d14093b02709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 12/68] fix: populate the name maps of the coverage report

---
 src/ucis/report/coverage_report_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 9f68c3b..c79764b 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -63,13 +63,17 @@ class CoverageReportBuilder(object):
         cg_r.weight = cg_n.getWeight()
         
         for cp_in in cg_n.scopes(ScopeTypeT.COVERPOINT):
-            cg_r.coverpoints.append(self.build_coverpoint(cp_in))
+            cg_r.add_coverpoint(self.build_coverpoint(cp_in))
             
         for cr_in in cg_n.scopes(ScopeTypeT.CROSS):
-            cg_r.crosses.append(self.build_cross(cr_in))
+            cr_r = self.build_cross(cr_in)
+            cg_r.crosses.append(cr_r)
+            cg_r.cross_m[cr_r.name] = cr_r
 
         for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):
-            cg_r.covergroups.append(self.build_covergroup(cg_in))
+            cg_i_r = self.build_covergroup(cg_in)
+            cg_r.covergroups.append(cg_i_r)
+            cg_r.covergroup_m[cg_i_r.name] = cg_i_r
             
         # Determine the covergroup coverage
         coverage = 0.0
-- 
2.43.0


From f6a6f925b8ac07da0b2669eb6315a98e2bd968ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 13/68] fix: text report shows coverpoint and cross coverage
 with two decimals

---
 src/ucis/report/format_rpt_text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/format_rpt_text.py b/src/ucis/report/format_rpt_text.py
index 1e017c0..c9d75ab 100644
--- a/src/ucis/report/format_rpt_text.py
+++ b/src/ucis/report/format_rpt_text.py
@@ -54,7 +54,7 @@ class FormatRptText(FormatIfRpt):
                 self.report_covergroup(cg_i, True)
             
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
-        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage))
+        self.writeln("CVP %s : %f%%", cp.name, round(cp.coverage, 2))
         
         if self.details:
             self.writeln("Bins:")
@@ -70,7 +70,7 @@ class FormatRptText(FormatIfRpt):
                     self.report_bins(cp.illegal_bins)
 
     def report_cross(self, cr : CoverageReport.Cross):
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage, 2))
         
         if self.details:
             self.writeln("Bins:")
-- 
2.43.0


From 734f169f07a5f9811e19783c49aa89a0e739dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:49 +0000
Subject: [PATCH 14/68] fix: JSON report handles crosses and carries names,
 goals and cross coverage

---
 src/ucis/report/format_rpt_json.py | 8 ++++++--
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..f2eba5c 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
@@ -108,6 +109,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.bins.append(b_j)
             if cp.ignore_bins is not None and len(cp.ignore_bins) > 0:
@@ -115,6 +117,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.ignore_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.ignorebins.append(b_j)
             if cp.illegal_bins is not None and len(cp.illegal_bins) > 0:
@@ -122,6 +125,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.illegal_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.illegalbins.append(b_j)
 
@@ -132,8 +136,7 @@ class FormatRptJson(FormatIfRpt):
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
         cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
@@ -141,6 +144,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cr.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cr_j.bins.append(b_j)
 
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From 5b76cd64effe1a31f32caf0a2558732e1666cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 15/68] fix: default date of a history node is in the format
 the writers expect

---
 src/ucis/mem/mem_history_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index a7e20ae..f3fbcc7 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
-- 
2.43.0


From b5c5c63d504acb5f7a38e5d8c529f8977fa7ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 16/68] fix: XML dates do not depend on the local time zone

---
 src/ucis/xml/xml_writer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..c1cfd4b 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -20,7 +20,6 @@ Created on Jan 5, 2020
 @author: ballance
 '''
 
-import time
 import datetime
 from datetime import datetime
 from datetime import date
@@ -316,8 +315,7 @@ class XmlWriter():
             e.set(name, "false")
 
     def setAttrDateTime(self, e, name, val):
-        val_i = time.mktime(datetime.strptime(val, "%Y%m%d%H%M%S").timetuple())
-        self.setAttr(e, name, datetime.fromtimestamp(val_i).isoformat())
+        self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
     def setIfNonNull(self, n, attr, val):
         if val is not None:
-- 
2.43.0


From d5988e48ab6d4673d80bc80100c1044911b2a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 17/68] fix: failed tests stay failed in XML

---
 src/ucis/xml/xml_reader.py | 4 +++-
 src/ucis/xml/xml_writer.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..87a5a54 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -37,6 +37,7 @@ from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 from ucis.ucis import UCIS
 from ucis.xml import validate_ucis_xml
 
@@ -99,7 +100,8 @@ class XmlReader():
         kind = self.getAttr(histN, "kind", None)
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
-        ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
+        ret.setTestStatus(TestStatusT.OK if self.getAttrBool(histN, "testStatus")
+                          else TestStatusT.ERROR)
         self.setFloatIfEx(histN, ret.setSimTime, "simtime")
         self.setIfEx(histN, ret.setTimeUnit, "timeunit")
         self.setIfEx(histN, ret.setRunCwd, "runCwd")
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index c1cfd4b..45beab0 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -32,6 +32,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -107,7 +108,7 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From 9d73ebaddf1700233847ce5cd787f2d908819be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 18/68] fix: XML keeps the parent of history nodes

---
 src/ucis/xml/xml_reader.py | 9 ++++++++-
 src/ucis/xml/xml_writer.py | 6 ++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 87a5a54..6b9bb26 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -72,8 +72,15 @@ class XmlReader():
         for srcFileN in tree.iter("sourceFiles"):
             self.readSourceFile(srcFileN)
             
+        hist_m = {}
         for histN in tree.iter("historyNodes"):
-            self.readHistoryNode(histN)
+            hist_m[int(histN.get("historyNodeId"))] = self.readHistoryNode(histN)
+
+        # A parent may be listed after its children
+        for histN in tree.iter("historyNodes"):
+            if "parentId" in histN.attrib:
+                node = hist_m[int(histN.get("historyNodeId"))]
+                node.m_parent = hist_m[int(histN.get("parentId"))]
 
         for instN in tree.iter("instanceCoverages"):
             self.readInstanceCoverage(instN)
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 45beab0..76c384a 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -99,12 +99,14 @@ class XmlWriter():
 #        histNodes = self.root.SubElement(self.root, "historyNodes")
 
         have_hist_nodes = False
-        for i,h in enumerate(self.db.getHistoryNodes(HistoryNodeKind.ALL)):
+        hist_nodes = self.db.getHistoryNodes(HistoryNodeKind.ALL)
+        for i,h in enumerate(hist_nodes):
             histN = self.mkElem(self.root, "historyNodes")
             histN.set("historyNodeId", str(i))
             have_hist_nodes = True
             
-            # TODO: parent
+            if h.getParent() is not None:
+                histN.set("parentId", str(hist_nodes.index(h.getParent())))
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-- 
2.43.0


From 4f2f9cf1907b1bc596127746b18064527152524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 19/68] fix: cost of a history node is written as an
 xsd:decimal

---
 src/ucis/xml/xml_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 76c384a..de86795 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -23,6 +23,7 @@ Created on Jan 5, 2020
 import datetime
 from datetime import datetime
 from datetime import date
+from decimal import Decimal
 from typing import Dict, Iterator
 from ucis.cover_index import CoverIndex
 from ucis.cover_type_t import CoverTypeT
@@ -121,7 +122,9 @@ class XmlWriter():
             self.setIfNonNull(histN, "compulsory", h.getCompulsory())
             self.setAttrDateTime(histN, "date", h.getDate())
             self.setIfNonNull(histN, "userName", h.getUserName())
-            self.setIfNonNeg(histN, "cost", h.getCost())
+            if h.getCost() >= 0:
+                # xsd:decimal has no exponent notation
+                self.setAttr(histN, "cost", format(Decimal(str(h.getCost())), "f"))
             self.setAttr(histN, "toolCategory", h.getToolCategory())
             self.setAttr(histN, "ucisVersion", h.getUCISVersion())
             self.setAttr(histN, "vendorId", h.getVendorId())
-- 
2.43.0


From 2341346c34d1004b9824704542c7b3916e45bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 20/68] fix: XML keeps weights and at-least thresholds

---
 src/ucis/xml/xml_reader.py | 43 +++++++++++++++++++++++---------------
 src/ucis/xml/xml_writer.py | 14 ++++++++++---
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 6b9bb26..d5d5b23 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -190,7 +190,7 @@ class XmlReader():
             cg_typescope = inst_scope.createCovergroup(
                 cg_typename,
                 None,
-                1,
+                int(cg.get("weight", 1)),
                 UCIS_OTHER)
 
             # Process all instances of a given covergroup type
@@ -210,7 +210,7 @@ class XmlReader():
             cg_i = cg_t.createCoverInstance(
                 cg_i_name, 
                 srcinfo,
-                1,
+                self.getOption(cg_e, "weight"),
                 UCIS_OTHER)
 
             # Build up a map of coverpoint name/inst-handle refs
@@ -225,8 +225,9 @@ class XmlReader():
                     cp_t = cg_t.createCoverpoint(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOption(cp_e, "weight"),
                         UCIS_OTHER)
+                    cp_t.setAtLeast(self.getOption(cp_e, "at_least"))
 
                     # Tuple of coverpoint type and map between
                     # bin name and count
@@ -258,9 +259,10 @@ class XmlReader():
                     cr_t = cg_t.createCross(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOption(cr_e, "weight"),
                         UCIS_OTHER,
                         cp_l)
+                    cr_t.setAtLeast(self.getOption(cr_e, "at_least"))
 
                     cr_i = (cr_t, {})
                     cr_m[cp_name] = cr_i
@@ -289,8 +291,9 @@ class XmlReader():
         cp = cg_i.createCoverpoint(
             self.getAttr(cp_e, "name", "<unknown>"),
             srcinfo,
-            1, # weight
+            self.getOption(cp_e, "weight"),
             UCIS_OTHER)
+        cp.setAtLeast(self.getOption(cp_e, "at_least"))
         
         for cpBin in cp_e.iter("coverpointBin"):
             self.readCoverpointBin(cpBin, cp, cp_type_i)
@@ -326,15 +329,15 @@ class XmlReader():
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
         if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
+            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count, cp.getAtLeast())
         else:
             entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
+            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count, entry[2])
         
         cp.createBin(
             cp_bin_name,
             srcinfo,
-            1,
+            cp.getAtLeast(),
             cp_bin_count,
             self.getAttr(cpBin, "name", "default"),
             kind)
@@ -342,11 +345,11 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count) in cp_bin_m.items():
+        for bin_name,(kind,count,at_least) in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-                1,
+                at_least,
                 count,
                 bin_name,
                 kind)
@@ -368,9 +371,10 @@ class XmlReader():
         cr = cg_i.createCross(
             name,
             srcinfo,
-            1, # weight
+            self.getOption(cr_e, "weight"),
             UCIS_OTHER,
             cp_l)
+        cr.setAtLeast(self.getOption(cr_e, "at_least"))
         
         for crb_e in cr_e.iter("crossBin"):
             self.readCrossBin(crb_e, cr, cr_type_i)
@@ -380,12 +384,11 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for bin_name,(count,at_least) in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
-                1, # weight
+                at_least,
                 count,
                 "") # TODO:
         pass
@@ -398,14 +401,15 @@ class XmlReader():
         count = self.getAttrInt(contentsN, "coverageCount")
 
         if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+            entry = cr_type_i[1][name]
+            cr_type_i[1][name] = (entry[0] + count, entry[1])
         else:
-            cr_type_i[1][name] = count
+            cr_type_i[1][name] = (count, cr.getAtLeast())
 
         cr.createBin(
             name,
             srcinfo,
-            1, # weight
+            cr.getAtLeast(),
             count,
             "") # TODO:
 
@@ -478,6 +482,11 @@ class XmlReader():
         else:
             return False
         
+    def getOption(self, e, name):
+        """Weight or at_least option of a covergroup instance, coverpoint or cross"""
+        options = e.find("options")
+        return int(options.get(name, 1)) if options is not None else 1
+
     def getAttrInt(self, e, name):
         return int(e.attrib[name])
         
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index de86795..5958d3b 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -177,7 +177,7 @@ class XmlWriter():
     def write_covergroups(self, inst, scope):
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
             cgElem = self.mkElem(inst, "covergroupCoverage")
-#            self.setAttr(cgElem, "weight", str(scope.getWeight()))
+            self.setAttr(cgElem, "weight", str(cg.getWeight()))
 
             inst_it = cg.scopes(ScopeTypeT.COVERINSTANCE)
             
@@ -294,8 +294,16 @@ class XmlWriter():
             
     
     def write_options(self, parent, opts_item):
-        self.mkElem(parent, "options")
-        
+        options = self.mkElem(parent, "options")
+        self.setAttr(options, "weight", str(opts_item.getWeight()))
+
+        if opts_item.getScopeType() in (ScopeTypeT.COVERPOINT, ScopeTypeT.CROSS):
+            # The interchange format holds one threshold for all bins
+            bins = opts_item.coverItems(
+                CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN)
+            bin = next(bins, None)
+            at_least = opts_item.getAtLeast() if bin is None else bin.getCoverData().at_least
+            self.setAttr(options, "at_least", str(at_least))
 
     def write_statement_id(self, stmt_id : StatementId, p, name="id"):
         stmtN = self.mkElem(p, name)
-- 
2.43.0


From 4ff1180dd4466b5f0407033a96bb48f5f12044e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 21/68] fix: bins of different kinds that share a name stay
 separate in the type coverage

---
 src/ucis/xml/xml_reader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index d5d5b23..f6307cb 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -328,11 +328,13 @@ class XmlReader():
         cp_bin_name = self.getAttr(cpBin, "name", "<unknown>")
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
-        if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count, cp.getAtLeast())
+        bin_key = (cp_bin_name, kind)
+
+        if bin_key not in cp_type_i[1].keys():
+            cp_type_i[1][bin_key] = (cp_bin_count, cp.getAtLeast())
         else:
-            entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count, entry[2])
+            entry = cp_type_i[1][bin_key]
+            cp_type_i[1][bin_key] = (entry[0] + cp_bin_count, entry[1])
         
         cp.createBin(
             cp_bin_name,
@@ -345,7 +347,7 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count,at_least) in cp_bin_m.items():
+        for (bin_name,kind),(count,at_least) in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-- 
2.43.0


From 2baa1b4be4a8be7e056191e5c15e600cdae881fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 22/68] fix: XML keeps the kind of cross bins

---
 src/ucis/xml/xml_reader.py | 26 +++++++++++++++++++-------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index f6307cb..281d7dd 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -386,13 +386,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,(count,at_least) in cr_bin_m.items():
+        for (bin_name,kind),(count,at_least) in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 at_least,
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i):
@@ -402,18 +403,29 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
-        if name in cr_type_i[1].keys():
-            entry = cr_type_i[1][name]
-            cr_type_i[1][name] = (entry[0] + count, entry[1])
+        kind_a = self.getAttr(crb_e, "type", "default")
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
         else:
-            cr_type_i[1][name] = (count, cr.getAtLeast())
+            kind = UCIS_CVGBIN
+
+        bin_key = (name, kind)
+
+        if bin_key in cr_type_i[1].keys():
+            entry = cr_type_i[1][bin_key]
+            cr_type_i[1][bin_key] = (entry[0] + count, entry[1])
+        else:
+            cr_type_i[1][bin_key] = (count, cr.getAtLeast())
 
         cr.createBin(
             name,
             srcinfo,
             cr.getAtLeast(),
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 5958d3b..667283e 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -284,7 +284,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cov_data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From a60248385ef1fb009a896fc0c42e4f45aeeb48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 23/68] fix: XML keeps the design-unit name of instances

---
 src/ucis/xml/xml_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 667283e..3686af3 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -169,6 +169,8 @@ class XmlWriter():
         inst = self.mkElem(self.root, "instanceCoverages")
         inst.set("name", s.getScopeName())
         inst.set("key", "0") # TODO:
+        if s.getInstanceDu() is not None:
+            inst.set("moduleName", s.getInstanceDu().getScopeName())
         self.addId(inst, None)
         
         self.write_covergroups(inst, s)
-- 
2.43.0


From a2b220af4fb903a0aef35722eea0259b8badd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 24/68] fix: an XmlReader can be used for more than one
 document

---
 src/ucis/xml/xml_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 281d7dd..fc309c9 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -59,6 +59,9 @@ class XmlReader():
         tree = etree.parse(file)
         root = tree.getroot()
         self.db = MemUCIS()
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
-- 
2.43.0


From d4c6d76e8344983327a537adefb7604670696161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 25/68] fix: history nodes read from XML are found by kind

---
 src/ucis/xml/xml_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index fc309c9..5270a44 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -33,6 +33,7 @@ from ucis import UCIS_ENABLED_STMT, UCIS_ENABLED_BRANCH, UCIS_ENABLED_COND, \
     UCIS_ENABLED_EXPR, UCIS_ENABLED_FSM, UCIS_ENABLED_TOGGLE, UCIS_INST_ONCE, \
     UCIS_SCOPE_UNDER_DU, UCIS_DU_MODULE, UCIS_OTHER, du_scope, UCIS_INSTANCE,\
     UCIS_CVGBIN, UCIS_IGNOREBIN, UCIS_ILLEGALBIN
+from ucis.history_node_kind import HistoryNodeKind
 from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
@@ -108,6 +109,8 @@ class XmlReader():
         logicalname = histN.get("logicalName")
         physicalname = self.getAttr(histN, "physicalName", None)
         kind = self.getAttr(histN, "kind", None)
+        if kind in [str(int(k)) for k in HistoryNodeKind]:
+            kind = HistoryNodeKind(int(kind))
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
         ret.setTestStatus(TestStatusT.OK if self.getAttrBool(histN, "testStatus")
-- 
2.43.0


From c390701988f52ad4c4d09ba1072aaf587553da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 26/68] fix: XML reader accepts both notations of a true
 xsd:boolean

---
 src/ucis/xml/xml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 5270a44..f735c5d 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -497,7 +497,7 @@ class XmlReader():
             return default
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] == "true":
+        if e.attrib[name].strip() in ("true", "1"):
             return True
         else:
             return False
-- 
2.43.0


From edfa7be488aea6a2aca3b3b89699e5c6041b5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 27/68] fix: XML reader accepts date-times with fractions or
 zones

---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index f735c5d..355a62c 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -486,7 +486,8 @@ class XmlReader():
     
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
-        val = e.get(name)
+        # xsd:dateTime allows fractional seconds and a zone
+        val = e.get(name).strip()[:len("YYYY-mm-ddTHH:MM:SS")]
         dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
-- 
2.43.0


From a096ba8b9bf907b31a3ba67b89f4e521efedece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 28/68] fix: cross members are resolved by their exact name

---
 src/ucis/xml/xml_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 355a62c..a715c0d 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -253,7 +253,7 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = crossExpr.text.strip()
+                        cp_n = self.getCrossedName(crossExpr, cp_m)
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -367,7 +367,7 @@ class XmlReader():
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = crossExpr.text.strip()
+            cp_n = self.getCrossedName(crossExpr, cp_m)
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
@@ -389,6 +389,11 @@ class XmlReader():
         
         return cr
 
+    def getCrossedName(self, crossExpr, cp_m):
+        # Blanks around the name are formatting, unless they are part of it
+        name = crossExpr.xpath("string()")
+        return name if name in cp_m.keys() else name.strip()
+
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-- 
2.43.0


From bc4b93b8e350a0b706aceeca2a32b1d3983579a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 29/68] fix: XML files are decoded as they declare, not by
 locale

---
 src/ucis/xml/__init__.py    | 2 +-
 src/ucis/xml/xml_factory.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index a5d41a2..15b7456 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -39,7 +39,7 @@ def validate_ucis_xml(file_or_filename):
     
     if type(file_or_filename) == str:
         logging.debug("open file")
-        fp = open(file_or_filename, "r")
+        fp = open(file_or_filename, "rb")
     else:
         fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..343a722 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -38,16 +38,16 @@ class XmlFactory():
             except ImportError:
                 logging.fatal("Cannot read gzip compressed files since module gzip is not available")
             else:
-                return gzip.open(file_path, 'rt')
+                return gzip.open(file_path, 'rb')
         elif magic0 == b'\x04\x22' and magic1 == b'\x4d\x18':
             try:
                 import lz4.frame
             except ImportError:
                 logging.fatal("Cannot read LZ4 compressed files since module lz4.frame is not available")
             else:
-                return lz4.frame.open(file_path, 'rt')
+                return lz4.frame.open(file_path, 'rb')
         else:
-            return open(file_path, "r")
+            return open(file_path, "rb")
 
     @staticmethod
     def read(file_or_filename) -> UCIS:
-- 
2.43.0


From fcd76d1f7e7d3d41c442f66f6bf416b7ecb1b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 30/68] fix: XML is written as UTF-8, and a failed write keeps
 the previous file

---
 src/ucis/xml/xml_factory.py | 14 +++++++-------
 src/ucis/xml/xml_ucis.py    |  9 +++++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 343a722..f006cfc 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -25,6 +25,7 @@ from ucis.xml.xml_writer import XmlWriter
 from ucis.xml import validate_ucis_xml
 from ucis.xml.xml_reader import XmlReader
 import logging
+from io import StringIO
 class XmlFactory():
     
     @staticmethod
@@ -84,12 +85,11 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w")
+            # Touch the file only once the content is known
+            out = StringIO()
+            writer.write(out, db)
+            with open(file_or_filename, "w", encoding="utf-8") as fp:
+                fp.write(out.getvalue())
         else:
-            fp = file_or_filename
-        
-        writer.write(fp, db)
-        
-        if type(file_or_filename) == str:
-            fp.close()
+            writer.write(file_or_filename, db)
             
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 46eb10e..4d9888b 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -1,4 +1,5 @@
 
+from io import StringIO
 from ucis.mem import MemUCIS
 from .xml_writer import XmlWriter
 
@@ -8,5 +9,9 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
-        with open(file, "w") as fp:
-            writer.write(fp, self)
+        # Touch the file only once the content is known
+        out = StringIO()
+        writer.write(out, self)
+
+        with open(file, "w", encoding="utf-8") as fp:
+            fp.write(out.getvalue())
-- 
2.43.0


From fad9b1e3a5cccf725fe66ba374cb51384e21ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 31/68] fix: YAML ignore and illegal bins keep their kind in
 the type coverage

---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From 16a4e962d2f4ef6e293251bac608ca0b7b3c5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 32/68] fix: YAML at-least thresholds apply to the type
 coverage

---
 src/ucis/yaml/yaml_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..ab77f08 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -126,6 +126,8 @@ class YamlReader(object):
                         if str(cp.name) not in cp_t_m.keys():
                             cp_t = self.cvg_ns.Coverpoint()
                             cp_t.name = str(cp.name)
+                            if cp.atleast is not None:
+                                cp_t.atleast = int(cp.atleast)
                             cp_t_m[cp_t.name] = cp_t
                             cp_t_l.append(cp_t)
                         else:
@@ -191,6 +193,8 @@ class YamlReader(object):
                         if str(cr.name) not in cr_t_m.keys():
                             cr_t = self.cvg_ns.Cross()
                             cr_t.name = str(cr.name)
+                            if cr.atleast is not None:
+                                cr_t.atleast = int(cr.atleast)
                             cr_t.coverpoints = []
                             for cr_cp in cr.coverpoints:
                                 cr_t.coverpoints.append(cr_cp)
-- 
2.43.0


From a844a0c97ec5754a47c69e834da9da41416b4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 33/68] fix: YAML cross may lack bins in its first instance

---
 src/ucis/yaml/yaml_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index ab77f08..6c4a41a 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -202,8 +202,7 @@ class YamlReader(object):
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
                             
-                            if cr.bins is not None:
-                                cr_t.bins = []
+                            cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
-- 
2.43.0


From 4639cf30f22697b3ebe250a81ed35d6469ee9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 34/68] fix: YAML covergroup without instances, and crosses
 resolved within their instance

---
 src/ucis/yaml/yaml_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index 6c4a41a..d189b19 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -14,6 +14,7 @@ from ucis.scope_type_t import ScopeTypeT
 from ucis.source_t import SourceT
 from ucis.ucis import UCIS
 
+import logging
 import os
 import json
 import python_jsonschema_objects as pjs
@@ -220,7 +221,7 @@ class YamlReader(object):
                                     cr_t_bins_m[str(b.name)] = b_t
                 
         else:
-            print("Warning: Covergroup type %s has no instances" % str(cg_t.name))
+            logging.warning("Covergroup type %s has no instances", str(cg_t.name))
 
         # Now, convert to UCIS
         cg_t_scope = self.cg_default_inst.createCovergroup(
@@ -248,8 +249,8 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in (cg_t.instances if cg_t.instances is not None else []):
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From e9d42636e9ed31fc9ae95b7ab149648bde2de7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 35/68] fix: YAML counts and thresholds are plain integers

---
 src/ucis/yaml/yaml_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index d189b19..5a076c5 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -284,7 +284,7 @@ class YamlReader(object):
             
         at_least = 1
         if cp.atleast is not None:
-            at_least = cp.atleast
+            at_least = int(cp.atleast)
             
         cp_scope = cp_parent_s.createCoverpoint(
             str(cp.name),
@@ -298,7 +298,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.CVGBIN)
                 
@@ -308,7 +308,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.IGNOREBIN)
                 
@@ -318,7 +318,7 @@ class YamlReader(object):
                     str(b.name),
                     cp_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name),
                     CoverTypeT.ILLEGALBIN)
                 
@@ -333,7 +333,7 @@ class YamlReader(object):
             
         at_least = 1
         if cr.atleast is not None:
-            at_least = cr.atleast
+            at_least = int(cr.atleast)
             
         cr_scope = cp_parent_s.createCross(
             str(cr.name),
@@ -348,7 +348,7 @@ class YamlReader(object):
                     str(b.name),
                     cr_location,
                     at_least,
-                    b.count,
+                    int(b.count),
                     str(b.name))
                     
         return cr_scope
-- 
2.43.0


From 3210e5b77ae61ac2346057ff2f088e181c838a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 36/68] fix: YAML files are decoded as YAML defines, not by
 locale

---
 src/ucis/yaml/db_format_if_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/db_format_if_yaml.py b/src/ucis/yaml/db_format_if_yaml.py
index 1a3213d..1e6e7c5 100644
--- a/src/ucis/yaml/db_format_if_yaml.py
+++ b/src/ucis/yaml/db_format_if_yaml.py
@@ -18,7 +18,7 @@ class DbFormatIfYaml(FormatIfDb):
     def read(self, filename) -> 'UCIS':
         reader = YamlReader()
 
-        with open(filename, "r") as fp:
+        with open(filename, "rb") as fp:
             db = reader.load(fp)
 
         return db
-- 
2.43.0


From 730d7640508066f0192b5e6a8ebccd3597ee8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 37/68] fix: a failing ucis command exits with a non-zero
 status

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From b147de4846bcaae71269c2ef2ec1c58797c74a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 38/68] fix: a failing ucis report keeps the previous report
 file

---
 src/ucis/cmd/cmd_report.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 3bc2051..63bf11d 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -5,6 +5,7 @@ Created on Jun 22, 2022
 '''
 import os
 import shutil
+from io import StringIO
 import sys
 from ucis.rgy.format_if_db import FormatIfDb
 from ucis.rgy.format_if_rpt import FormatIfRpt, FormatRptOutFlags
@@ -40,7 +41,8 @@ def report(args):
         fp = sys.stdout
     else:
         if (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
-            fp = open(args.out, "w")
+            # Touch the file only once the content is known
+            fp = StringIO()
         elif (output_desc.out_flags & FormatRptOutFlags.Dir) != 0:
             if os.path.exists(args.out):
                 if os.path.isdir(args.out):
@@ -62,7 +64,8 @@ def report(args):
 
     output_if.report(in_db, fp, [])
 
-    if args.out is not None:
-        fp.close()
+    if isinstance(fp, StringIO):
+        with open(args.out, "w", encoding="utf-8") as out_fp:
+            out_fp.write(fp.getvalue())
 
     in_db.close()
-- 
2.43.0


From 186315efa7236182ca08bc9c33a67dae3e38270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 39/68] fix: library back-end passes test data as C strings

---
 src/ucis/lib/lib_test_data.py | 37 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 6be02d4..d8f2b2d 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -5,24 +5,27 @@ Created on Mar 12, 2020
 '''
 
 from _ctypes import Structure
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_double, c_wchar
+from ctypes import c_int, c_ulonglong, c_uint, c_char_p, c_double
 from ucis.test_data import TestData
 
+def _encode(s):
+    return None if s is None else str.encode(s)
+
 class LibTestData(Structure):
     _fields_ = [
         ("teststatus", c_uint),
         ("simtime", c_double),
-        ("timeunit", c_wchar_p),
-        ("runcwd", c_wchar_p),
+        ("timeunit", c_char_p),
+        ("runcwd", c_char_p),
         ("cputime", c_double),
-        ("seed", c_wchar_p),
-        ("cmd", c_wchar_p),
-        ("args", c_wchar_p),
+        ("seed", c_char_p),
+        ("cmd", c_char_p),
+        ("args", c_char_p),
         ("compulsory", c_int),
-        ("date", c_wchar_p),
-        ("username", c_wchar_p),
+        ("date", c_char_p),
+        ("username", c_char_p),
         ("cost", c_double),
-        ("toolcategory", c_wchar_p)
+        ("toolcategory", c_char_p)
     ]
 
     @staticmethod
@@ -31,17 +34,17 @@ class LibTestData(Structure):
         ret = LibTestData(
             td.teststatus,
             td.simtime,
-            td.timeunit,
-            td.runcwd,
+            _encode(td.timeunit),
+            _encode(td.runcwd),
             td.cputime,
-            td.seed,
-            td.cmd,
-            td.args,
+            _encode(td.seed),
+            _encode(td.cmd),
+            _encode(td.args),
             td.compulsory,
-            td.date,
-            td.user,
+            _encode(td.date),
+            _encode(td.user),
             td.cost,
-            td.toolcategory
+            _encode(td.toolcategory)
             )        
         
 #         ret = LibTestData(
-- 
2.43.0


From 7c2a5176f1cee8b9a530d20d32e033b4983e06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 40/68] fix: library back-end passes the handle of a history
 node's parent

---
 src/ucis/lib/lib_ucis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 5672837..0169208 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -83,9 +83,9 @@ class LibUCIS(LibScope,UCIS):
         
         hn = get_lib().ucis_CreateHistoryNode(
             self.db,
-            parent,
+            None if parent is None else parent.obj,
             str.encode(logicalname),
-            str.encode(physicalname),
+            None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
         logging.debug("<-- createHistoryNode")
-- 
2.43.0


From 5c04a31f0e4ad37efd750b34fe396f8d4a1f883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 41/68] fix: library back-end passes the at-least threshold of
 bins

---
 src/ucis/lib/lib_coverpoint.py | 2 +-
 src/ucis/lib/lib_cross.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_coverpoint.py b/src/ucis/lib/lib_coverpoint.py
index d0baaaa..67c5dd4 100644
--- a/src/ucis/lib/lib_coverpoint.py
+++ b/src/ucis/lib/lib_coverpoint.py
@@ -32,7 +32,7 @@ class LibCoverpoint(LibCvgScope, Coverpoint):
             (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
-        coverdata.goal = 1
+        coverdata.goal = at_least
         # TODO: bring weight in via API?
         coverdata.weight = 1
         
diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 9e4ef5a..581fa4b 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -29,7 +29,7 @@ class LibCross(LibCvgScope, Cross):
             (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
-        coverdata.goal = 1
+        coverdata.goal = at_least
         # TODO: bring weight in via API?
         coverdata.weight = 1
         
-- 
2.43.0


From e6cfc7faf1c7fca176f60a24cda13d6792144bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 42/68] fix: library back-end keeps bin counts beyond 32 bits

---
 src/ucis/lib/lib_coverpoint.py | 4 ++--
 src/ucis/lib/lib_cross.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_coverpoint.py b/src/ucis/lib/lib_coverpoint.py
index 67c5dd4..02e953e 100644
--- a/src/ucis/lib/lib_coverpoint.py
+++ b/src/ucis/lib/lib_coverpoint.py
@@ -3,7 +3,7 @@ Created on Mar 12, 2020
 
 @author: ballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.coverpoint import Coverpoint
 from ucis.lib.lib_scope import LibScope
@@ -29,7 +29,7 @@ class LibCoverpoint(LibCvgScope, Coverpoint):
         kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
             kind,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = at_least
diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 581fa4b..4dae47c 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -3,7 +3,7 @@ Created on Feb 1, 2021
 
 @author: mballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.cover_index import CoverIndex
 from ucis.cross import Cross
@@ -26,7 +26,7 @@ class LibCross(LibCvgScope, Cross):
         binrhs) -> CoverIndex:
         coverdata = CoverData(
             UCIS_CVGBIN,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = at_least
-- 
2.43.0


From 44fa4e66d05958b388555a8d8db63d29224edb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 43/68] fix: library back-end creates cross bins of the
 requested kind

---
 src/ucis/lib/lib_cross.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 4dae47c..edb6fbc 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -23,9 +23,10 @@ class LibCross(LibCvgScope, Cross):
         srcinfo:SourceInfo, 
         at_least:int, 
         count:int,
-        binrhs) -> CoverIndex:
+        binrhs,
+        kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
-            UCIS_CVGBIN,
+            kind,
             ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
-- 
2.43.0


From 6dccf24467d2b68b98ed74b03289fc02fa59d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 44/68] fix: opening or iterating a library database does not
 reset goals

---
 src/ucis/lib/lib_scope.py          | 6 ++++--
 src/ucis/lib/lib_scope_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py           | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 028a540..b8a18e8 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -44,9 +44,11 @@ from ucis.toggle_type_t import ToggleTypeT
 
 class LibScope(LibObj, Scope):
     
-    def __init__(self, db, obj):
+    def __init__(self, db, obj, is_new=True):
         LibObj.__init__(self, db, obj)
-        Scope.__init__(self)
+        if is_new:
+            # Establish defaults
+            Scope.__init__(self)
         logging.debug("LibScope::init - db=" + str(self.db) + " " + str(self.obj))
         
     def getGoal(self)->int:
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index bb5f439..e440085 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -23,6 +23,6 @@ class LibScopeIterator(object):
             get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
-        return LibScope(self.db, next)
+        return LibScope(self.db, next, is_new=False)
         
         
\ No newline at end of file
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 0169208..7e38169 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -37,6 +37,7 @@ from ucis.ucis import UCIS
 class LibUCIS(LibScope,UCIS):
     
     def __init__(self, file : str=None, db=None):
+        is_new = file is None and db is None
         if db is None:
             db = get_lib().ucis_Open(
                 str.encode(file) if file is not None else None)
@@ -46,7 +47,7 @@ class LibUCIS(LibScope,UCIS):
                     raise Exception("Error: failed to open UCIS file \"" + file + "\"")
                 else:
                     raise Exception("Error: failed to create UCIS DB")
-        super().__init__(db, None)
+        super().__init__(db, None, is_new)
         
     def isModified(self):
         return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.IS_MODIFIED) == 1
-- 
2.43.0


From 0430945579e2858ff94137db06e4bb691d3fcdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 45/68] fix: library back-end writes the requested scope

---
 src/ucis/lib/lib_ucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 7e38169..2f85525 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -104,7 +104,7 @@ class LibUCIS(LibScope,UCIS):
         ret = get_lib().ucis_Write(
             self.db, 
             str.encode(file),
-            scope,
+            None if scope is None else scope.obj,
             1 if recurse else 0,
             covertype)
         logging.debug("ret=" + str(ret))
-- 
2.43.0


From c7225252e0b3ff167471493742ffbf053ab3d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 46/68] fix: reading test data via the library back-end no
 longer overwrites it

---
 src/ucis/lib/lib_history_node.py |  6 +++---
 src/ucis/lib/lib_test_data.py    | 29 ++++++++++++++++-------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index b3630f5..cfd7ef3 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -30,12 +30,12 @@ class LibHistoryNode(LibObj, HistoryNode):
             lib_td)
         
     def getTestData(self):
-        lib_td = pointer(LibTestData())
+        lib_td = LibTestData()
         
-        get_lib().ucis_SetTestData(
+        get_lib().ucis_GetTestData(
             self.db,
             self.obj,
-            lib_td)
+            pointer(lib_td))
         
         return lib_td.to_testdata()
     
diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index d8f2b2d..8e68f94 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -11,6 +11,9 @@ from ucis.test_data import TestData
 def _encode(s):
     return None if s is None else str.encode(s)
 
+def _decode(s):
+    return None if s is None else s.decode()
+
 class LibTestData(Structure):
     _fields_ = [
         ("teststatus", c_uint),
@@ -67,19 +70,19 @@ class LibTestData(Structure):
    
     def to_testdata(self):
         ret = TestData(
-            self.teststatus,
-            self.simtime,
-            self.timeunit,
-            self.runcwd,
-            self.cputime,
-            self.seed,
-            self.cmd,
-            self.args,
-            self.compulsory,
-            self.date,
-            self.username,
-            self.cost,
-            self.toolcategory)
+            teststatus=self.teststatus,
+            simtime=self.simtime,
+            timeunit=_decode(self.timeunit),
+            runcwd=_decode(self.runcwd),
+            cputime=self.cputime,
+            seed=_decode(self.seed),
+            cmd=_decode(self.cmd),
+            args=_decode(self.args),
+            compulsory=self.compulsory,
+            date=_decode(self.date),
+            user=_decode(self.username),
+            cost=self.cost,
+            toolcategory=_decode(self.toolcategory))
         
         return ret
 
-- 
2.43.0


From 7fe9f9b8c06d4eefce5556d4e6a2942d81d1e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 47/68] fix: library back-end lists history nodes

---
 src/ucis/lib/lib_history_node_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 9a792d1..3b38313 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -20,7 +20,7 @@ class LibHistoryNodeIterator(object):
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
-            get_lib().ucis_FreeIterator(self.iter)
+            get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 2f85525..531c315 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -29,6 +29,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.int_property import IntProperty
 from ucis.lib.lib_file_handle import LibFileHandle
 from ucis.lib.lib_history_node import LibHistoryNode
+from ucis.lib.lib_history_node_iterator import LibHistoryNodeIterator
 from ucis.lib.lib_scope import LibScope
 from ucis.lib.libucis import _lib, get_ucis_library, get_lib
 from ucis.ucis import UCIS
@@ -93,11 +94,10 @@ class LibUCIS(LibScope,UCIS):
         return LibHistoryNode(self.db, hn)
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
-        
-        UCIS.getHistoryNodes(self, kind)
+        return UCIS.getHistoryNodes(self, kind)
         
     def historyNodes(self, kind:HistoryNodeKind)->Iterator[HistoryNode]:
-        UCIS.historyNodes(self, kind)
+        return LibHistoryNodeIterator(self.db, None, kind)
         
     def write(self, file, scope=None, recurse=True, covertype=-1):
         logging.debug("file=" + file)
-- 
2.43.0


From 2151ab94b5a10c67e811b3e2576f34c63ee2f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 48/68] fix: library back-end passes all bits of a scope-type
 mask

---
 src/ucis/lib/libucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index 52e0aad..d171067 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -98,7 +98,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
         ((1,"db"), (1,"iterator"))),
     "ucis_ScopeIterate" : (
-        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint32),
+        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint64),
         ((1,"db"), (1,"scope"), (1,"scopemask"))),
     "ucis_ScopeScan" : (
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
-- 
2.43.0


From fe798dd73700e1136780e78815122395ced1dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 49/68] fix: library back-end returns file names as strings

---
 src/ucis/lib/lib_file_handle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_file_handle.py b/src/ucis/lib/lib_file_handle.py
index 36a5b06..5d438ef 100644
--- a/src/ucis/lib/lib_file_handle.py
+++ b/src/ucis/lib/lib_file_handle.py
@@ -32,4 +32,4 @@ class LibFileHandle(FileHandle):
         self.fh = fh
         
     def getFileName(self)->str:
-        return get_lib().ucis_GetFileName(self.db, self.fh)
\ No newline at end of file
+        return get_lib().ucis_GetFileName(self.db, self.fh).decode()
\ No newline at end of file
-- 
2.43.0


From 9f608d9907924c058007a9c909ee10175ff05090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 50/68] fix: XML text with an encoding declaration can be read
 from strings and text streams

---
 src/ucis/xml/__init__.py   | 14 +++++++++++++-
 src/ucis/xml/xml_reader.py |  4 ++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index 15b7456..d800852 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -16,12 +16,24 @@
 # specific language governing permissions and limitations
 # under the License.
 
+import io
 import logging
 import os
 from lxml import etree
 from lxml.etree import tounicode
 
 
+def parse_ucis_xml(file_or_filename):
+    """Parses an XML file, or a binary or text stream"""
+    if isinstance(file_or_filename, io.TextIOBase):
+        # Already decoded, so the encoding the document declares doesn't apply
+        return etree.parse(
+            io.BytesIO(file_or_filename.read().encode("utf-8")),
+            etree.XMLParser(encoding="utf-8"))
+    else:
+        return etree.parse(file_or_filename)
+
+
 def validate_ucis_xml(file_or_filename):
     
     xml_pkg_dir = os.path.dirname(os.path.abspath(__file__))
@@ -46,7 +58,7 @@ def validate_ucis_xml(file_or_filename):
     ret = False
 
     try:
-        doc = etree.parse(fp)
+        doc = parse_ucis_xml(fp)
         
         root = doc.getroot()
 
diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index a715c0d..d3b517f 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -40,7 +40,7 @@ from ucis.mem.mem_ucis import MemUCIS
 from ucis.statement_id import StatementId
 from ucis.test_status_t import TestStatusT
 from ucis.ucis import UCIS
-from ucis.xml import validate_ucis_xml
+from ucis.xml import parse_ucis_xml, validate_ucis_xml
 
 
 class XmlReader():
@@ -57,7 +57,7 @@ class XmlReader():
 
 
     def read(self, file) -> UCIS:
-        tree = etree.parse(file)
+        tree = parse_ucis_xml(file)
         root = tree.getroot()
         self.db = MemUCIS()
         self.file_m = {}
-- 
2.43.0


From 108f2bfa89bd82698c88cf53b8bd45a0194f4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:40 +0000
Subject: [PATCH 51/68] fix: cover items of instance scopes can be iterated

---
 src/ucis/mem/mem_cover_item.py     | 8 +++-----
 src/ucis/mem/mem_instance_scope.py | 7 +++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ucis/mem/mem_cover_item.py b/src/ucis/mem/mem_cover_item.py
index 85266d9..ea60b01 100644
--- a/src/ucis/mem/mem_cover_item.py
+++ b/src/ucis/mem/mem_cover_item.py
@@ -5,16 +5,14 @@ Created on Jan 12, 2020
 '''
 from copy import copy
 from ucis.cover_item import CoverItem
+from ucis.mem.mem_cover_index import MemCoverIndex
 
-class MemCoverItem(CoverItem):
+class MemCoverItem(CoverItem,MemCoverIndex):
     
     def __init__(self, parent, name, data, sourceinfo):
-        super().__init__()
+        MemCoverIndex.__init__(self, name, copy(data), copy(sourceinfo))
         self.m_stmt_idx = 0
         self.m_parent = parent
-        self.m_name = name
-        self.m_data = copy(data)
-        self.m_sourceinfo = copy(sourceinfo)
 
     def getStmtIndex(self)->int:
         return self.m_stmt_idx
diff --git a/src/ucis/mem/mem_instance_scope.py b/src/ucis/mem/mem_instance_scope.py
index ddfba52..eb1e506 100644
--- a/src/ucis/mem/mem_instance_scope.py
+++ b/src/ucis/mem/mem_instance_scope.py
@@ -37,7 +37,6 @@ class MemInstanceScope(MemScope,InstanceScope):
         InstanceScope.__init__(self)
             
         self.m_du_scope = du_scope
-        self.m_cover_item_l = []
         
     def getInstanceDu(self) -> 'Scope':
         return self.m_du_scope
@@ -64,9 +63,9 @@ class MemInstanceScope(MemScope,InstanceScope):
         name:str, 
         data:CoverData, 
         sourceinfo:SourceInfo)->int:
-        ret = len(self.m_cover_item_l)
+        ret = len(self.m_cover_items)
         ci = MemCoverItem(self, name, data, sourceinfo)
-        self.m_cover_item_l.append(ci)
+        self.m_cover_items.append(ci)
         
         return ret
     
@@ -84,6 +83,6 @@ class MemInstanceScope(MemScope,InstanceScope):
         return ret
     
     def getIthCoverItem(self, i)->CoverItem:
-        return self.m_cover_item_l[i]
+        return self.m_cover_items[i]
    
     
\ No newline at end of file
-- 
2.43.0


From 666d3a2e9d6331107824689c879fba7b3410fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:16 +0000
Subject: [PATCH 52/68] fix: COVER_GOAL of a cover item is kept per cover item

---
 src/ucis/mem/mem_scope.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_scope.py b/src/ucis/mem/mem_scope.py
index 97ca0d4..874b506 100644
--- a/src/ucis/mem/mem_scope.py
+++ b/src/ucis/mem/mem_scope.py
@@ -98,6 +98,8 @@ class MemScope(MemObj,Scope):
         if property == IntProperty.SCOPE_WEIGHT:
             return self.m_weight
         elif property == IntProperty.COVER_GOAL:
+            if coverindex >= 0:
+                return self.m_cover_items[coverindex].getCoverData().goal
             return self.m_goal
         elif property == IntProperty.SCOPE_SOURCE_TYPE:
             return self.m_source_type
@@ -115,7 +117,10 @@ class MemScope(MemObj,Scope):
         if property == IntProperty.SCOPE_WEIGHT:
             self.m_weight = value
         elif property == IntProperty.COVER_GOAL:
-            self.m_goal = value
+            if coverindex >= 0:
+                self.m_cover_items[coverindex].getCoverData().goal = value
+            else:
+                self.m_goal = value
         elif property == IntProperty.SCOPE_SOURCE_TYPE:
             self.m_source_type = value
         else:
-- 
2.43.0


From 68fb7b89e4edaa3ac13053d1186eeb14d6bdd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:19 +0000
Subject: [PATCH 53/68] fix: SCOPE_NAME property is the name of the scope

---
 src/ucis/mem/mem_scope.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ucis/mem/mem_scope.py b/src/ucis/mem/mem_scope.py
index 874b506..75ecf58 100644
--- a/src/ucis/mem/mem_scope.py
+++ b/src/ucis/mem/mem_scope.py
@@ -33,6 +33,7 @@ from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.source_info import SourceInfo
 from ucis.source_t import SourceT
+from ucis.str_property import StrProperty
 from ucis.toggle_dir_t import ToggleDirT
 from ucis.toggle_metric_t import ToggleMetricT
 from ucis.toggle_type_t import ToggleTypeT
@@ -126,6 +127,25 @@ class MemScope(MemObj,Scope):
         else:
             super().setIntProperty(coverindex, property, value)    
             
+    def getStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty) -> str:
+        if property == StrProperty.SCOPE_NAME:
+            return self.m_name
+        else:
+            return super().getStringProperty(coverindex, property)
+    
+    def setStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty,
+            value : str):
+        if property == StrProperty.SCOPE_NAME:
+            self.m_name = value
+        else:
+            super().setStringProperty(coverindex, property, value)
+            
     def createCovergroup(self, 
         name:str, 
         srcinfo:SourceInfo, 
-- 
2.43.0


From b05d0d94207383bd318c3a6543c3b4a56154a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:00 +0000
Subject: [PATCH 54/68] fix: report command with stdout replaced by a StringIO
 no longer treats it as --out

---
 src/ucis/cmd/cmd_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 63bf11d..87b6c2d 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -64,7 +64,7 @@ def report(args):
 
     output_if.report(in_db, fp, [])
 
-    if isinstance(fp, StringIO):
+    if args.out is not None and isinstance(fp, StringIO):
         with open(args.out, "w", encoding="utf-8") as out_fp:
             out_fp.write(fp.getvalue())
 
-- 
2.43.0


From 477bfeb7e71f2f9b99bc9e30017b144653b05377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:59 +0000
Subject: [PATCH 55/68] fix: report leaves an existing output file alone when
 the text cannot be encoded

---
 src/ucis/cmd/cmd_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 87b6c2d..f326cf8 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -65,7 +65,10 @@ def report(args):
     output_if.report(in_db, fp, [])
 
     if args.out is not None and isinstance(fp, StringIO):
+        # Text that cannot be encoded must not cost an existing file
+        data = fp.getvalue()
+        data.encode("utf-8")
         with open(args.out, "w", encoding="utf-8") as out_fp:
-            out_fp.write(fp.getvalue())
+            out_fp.write(data)
 
     in_db.close()
-- 
2.43.0


From c610108f72a95f515160f5896d9b396feec67058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:59 +0000
Subject: [PATCH 56/68] fix: XML reader falls back to the default type name
 only when cgId is absent

---
 src/ucis/xml/xml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index d3b517f..acb9dd3 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -181,7 +181,7 @@ class XmlReader():
             try:
                 cgId_l = next(i.iter("cgId"))
                 typename = self.getAttr(cgId_l, "cgName", "xxx")
-            except:
+            except StopIteration:
                 typename = "default"
 
             if typename in cg_type_m.keys():
-- 
2.43.0


From 2afce5b10abc1d7857bb540b5cdc855e2fe15a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 57/68] fix: library back-end passes bit-vector cover data as
 bytes

---
 src/ucis/lib/lib_cover_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cover_data.py b/src/ucis/lib/lib_cover_data.py
index 9ed6a8c..eb8dafc 100644
--- a/src/ucis/lib/lib_cover_data.py
+++ b/src/ucis/lib/lib_cover_data.py
@@ -4,7 +4,7 @@ Created on Jan 11, 2020
 @author: ballance
 '''
 from _ctypes import Structure, Union
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_ulong
+from ctypes import c_int, c_ulonglong, c_uint, c_char_p, c_ulong
 from builtins import staticmethod
 from ucis.cover_data import CoverData
 from ucis.cover_flags_t import CoverFlagsT
@@ -13,7 +13,7 @@ class LibCoverDataValue(Union):
     _fields_ = [
         ("int64", c_ulonglong),
         ("int32", c_uint),
-        ("bytevector", c_wchar_p)
+        ("bytevector", c_char_p)
         ]
     
 class LibCoverData(Structure):
-- 
2.43.0


From 7370d10d9715bfce25bcd236f75ae642e3c971fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 58/68] fix: library back-end writes with all bits of the cover
 types

---
 src/ucis/lib/libucis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index d171067..d7251ea 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -50,7 +50,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_char_p),
         ((1,"file"),)),
     "ucis_Write" : (
-        CFUNCTYPE(c_int, c_void_p, c_char_p, c_void_p, c_int, c_uint),
+        CFUNCTYPE(c_int, c_void_p, c_char_p, c_void_p, c_int, c_ulonglong),
         ((1,"db"),(1,"file"),(1,"scope"),(1,"recurse"),(1,"covertype"))),
     "ucis_Close" : (
         CFUNCTYPE(c_int, c_void_p),
-- 
2.43.0


From cb3e330f3a794c1c50ce2ec891075b6a20e127bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 59/68] fix: library back-end accepts source information
 without a file

---
 src/ucis/lib/lib_source_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_source_info.py b/src/ucis/lib/lib_source_info.py
index 2b029de..08213f3 100644
--- a/src/ucis/lib/lib_source_info.py
+++ b/src/ucis/lib/lib_source_info.py
@@ -37,7 +37,7 @@ class _LibSourceInfo(Structure):
     @staticmethod
     def ctor(srcinfo : SourceInfo):
         return _LibSourceInfo(
-            srcinfo.file.fh,
+            None if srcinfo.file is None else srcinfo.file.fh,
             srcinfo.line,
             srcinfo.token)
         
-- 
2.43.0


From 7e5e246065d4b5817c58f0d6a6c82b080941a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 60/68] fix: library back-end reads int and string properties

---
 src/ucis/lib/lib_obj.py  | 7 +++++--
 src/ucis/lib/lib_ucis.py | 6 +++---
 src/ucis/lib/libucis.py  | 6 ++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ucis/lib/lib_obj.py b/src/ucis/lib/lib_obj.py
index 7189697..d83e092 100644
--- a/src/ucis/lib/lib_obj.py
+++ b/src/ucis/lib/lib_obj.py
@@ -39,7 +39,8 @@ class LibObj(Obj):
             coverindex : int,
             property : IntProperty
             )->int:
-        raise NotImplementedError()
+        obj = self.db if self.obj is None else self.obj
+        return get_lib().ucis_GetIntProperty(self.db, obj, coverindex, property)
     
     def setIntProperty(
             self,
@@ -66,7 +67,9 @@ class LibObj(Obj):
             self,
             coverindex : int,
             property : StrProperty) -> str:
-        raise NotImplementedError()
+        obj = self.db if self.obj is None else self.obj
+        value = get_lib().ucis_GetStringProperty(self.db, obj, coverindex, property)
+        return None if value is None else value.decode()
     
     def setStringProperty(
             self,
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 531c315..03ff6c8 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -51,13 +51,13 @@ class LibUCIS(LibScope,UCIS):
         super().__init__(db, None, is_new)
         
     def isModified(self):
-        return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.IS_MODIFIED) == 1
+        return self.getIntProperty(-1, IntProperty.IS_MODIFIED) == 1
     
     def modifiedSinceSim(self):
-        return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.MODIFIED_SINCE_SIM) == 1
+        return self.getIntProperty(-1, IntProperty.MODIFIED_SINCE_SIM) == 1
         
     def getNumTests(self):
-        return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.NUM_TESTS)
+        return self.getIntProperty(-1, IntProperty.NUM_TESTS)
     
     def getAPIVersion(self)->str:
         # TODO
diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index d7251ea..97d1908 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -76,6 +76,12 @@ fspec = {
     "ucis_SetIntProperty" : (
         CFUNCTYPE(None, c_void_p, c_void_p, c_int, c_int, c_int),
         ((1,"db"),(1,"obj"),(1,"coverindex"),(1,"property"),(1,"value"))),
+    "ucis_GetIntProperty" : (
+        CFUNCTYPE(c_int, c_void_p, c_void_p, c_int, c_int),
+        ((1,"db"),(1,"obj"),(1,"coverindex"),(1,"property"))),
+    "ucis_GetStringProperty" : (
+        CFUNCTYPE(c_char_p, c_void_p, c_void_p, c_int, c_int),
+        ((1,"db"),(1,"obj"),(1,"coverindex"),(1,"property"))),
     "ucis_SetStringProperty" : (
         CFUNCTYPE(None, c_void_p, c_void_p, c_int, c_int, c_char_p),
         ((1,"db"),(1,"obj"),(1,"coverindex"),(1,"property"),(1,"value"))),
-- 
2.43.0


From f9c1b36f9045b3158dbbd82bc64a75be3ff283a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 61/68] fix: library back-end reports a creation that the
 library refuses

---
 src/ucis/lib/lib_covergroup.py |  5 +++++
 src/ucis/lib/lib_scope.py      | 10 ++++++++++
 src/ucis/lib/lib_ucis.py       |  7 +++++++
 3 files changed, 22 insertions(+)

diff --git a/src/ucis/lib/lib_covergroup.py b/src/ucis/lib/lib_covergroup.py
index 5cabbda..a33c91f 100644
--- a/src/ucis/lib/lib_covergroup.py
+++ b/src/ucis/lib/lib_covergroup.py
@@ -85,6 +85,9 @@ class LibCovergroup(LibCvgScope, Covergroup):
             len(points_l),
             byref(points))
         
+        if cr_o is None:
+            raise Exception("Failed to create cross " + name)
+        
         return LibCross(self.db, cr_o)
         raise NotImplementedError()
     
@@ -106,5 +109,7 @@ class LibCovergroup(LibCvgScope, Covergroup):
             UCIS_COVERINSTANCE,
             0)
         
+        if ci_obj is None:
+            raise Exception("Failed to create covergroup instance " + name)
         
         return LibCovergroup(self.db, ci_obj)
diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index b8a18e8..7e84603 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -134,6 +134,9 @@ class LibScope(LibObj, Scope):
             ScopeTypeT.COVERGROUP,
             0)
         
+        if cg_obj is None:
+            raise Exception("Failed to create covergroup " + name)
+        
         return LibCovergroup(self.db, cg_obj)
     
     def createToggle(self,
@@ -152,6 +155,10 @@ class LibScope(LibObj, Scope):
             toggle_metric,
             toggle_type,
             toggle_dir)
+        
+        if th is None:
+            raise Exception("Failed to create toggle " + name)
+        
         return LibScope(self.db, th)
     
     def createNextCover(self,
@@ -168,6 +175,9 @@ class LibScope(LibObj, Scope):
             data_p,
             sourceinfo_p)
         
+        if index < 0:
+            raise Exception("Failed to create cover item " + name)
+        
         return LibCoverIndex(self.db, self.obj, index)
     
     def getSourceInfo(self)->SourceInfo:
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 03ff6c8..b2ff0b1 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -72,6 +72,9 @@ class LibUCIS(LibScope,UCIS):
             str.encode(filename),
             None if workdir is None else str.encode(workdir))
         
+        if fh is None:
+            raise Exception("Failed to create file handle " + filename)
+        
         return LibFileHandle(self.db, fh)
         
     
@@ -91,6 +94,10 @@ class LibUCIS(LibScope,UCIS):
             kind)
         logging.debug("hn=" + str(hn))
         logging.debug("<-- createHistoryNode")
+        
+        if hn is None:
+            raise Exception("Failed to create history node " + logicalname)
+        
         return LibHistoryNode(self.db, hn)
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
-- 
2.43.0


From 9bf091798b160e3a12433a02f9cb2c4920a9b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 62/68] fix: library back-end reports a failed write

---
 src/ucis/lib/lib_ucis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index b2ff0b1..e1068b0 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -116,6 +116,9 @@ class LibUCIS(LibScope,UCIS):
             covertype)
         logging.debug("ret=" + str(ret))
         
+        if ret != 0:
+            raise Exception("Failed to write " + file)
+        
     def close(self):
         ret = get_lib().ucis_Close(self.db)
         logging.debug("close ret=" + str(ret))
-- 
2.43.0


From 5284df9760e01f0b6dafc8ab49949cffdc888533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 63/68] fix: libucis format uses the loaded UCIS library

---
 src/ucis/lib/db_format_if_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/db_format_if_lib.py b/src/ucis/lib/db_format_if_lib.py
index 78ae51c..598ab9f 100644
--- a/src/ucis/lib/db_format_if_lib.py
+++ b/src/ucis/lib/db_format_if_lib.py
@@ -35,7 +35,8 @@ class DbFormatIfLib(FormatIfDb):
         raise NotImplementedError("DbFormatIf.write not implemented by %s" % str(type(self)))
     
     def _get_lib(self):
-        pass
+        from ucis.lib.libucis import get_ucis_library
+        return get_ucis_library()
     
     @staticmethod
     def register(rgy):
-- 
2.43.0


From b316a434e94751e15bb0acf0323802e82cfa8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:31 +0000
Subject: [PATCH 64/68] fix: merge instances that have no design unit

DbMerger.merge raised AttributeError when an instance was created with
du_scope=None, which createInstance accepts.
---
 src/ucis/merge/db_merger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 7b8a694..bf23683 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -52,8 +52,11 @@ class DbMerger(object):
             # Create a representation of the scope in the destination
             # database                
             src_du = src_iscope.getInstanceDu()
-            du_name = src_du.getScopeName()
-            if du_name not in dst_du_m.keys():
+            # An instance need not have a design unit
+            du_name = src_du.getScopeName() if src_du is not None else None
+            if src_du is None:
+                dst_du_m[du_name] = None
+            elif du_name not in dst_du_m.keys():
                 dst_du_m[du_name] = self.dst_db.createScope(
                     du_name,
                     src_du.getSourceInfo(),
-- 
2.43.0


From 1513c2227d204ad500370394875f2541fcf1e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:31 +0000
Subject: [PATCH 65/68] fix: merge the instances below other instances

Only the instances directly below the root were merged; the coverage of
nested instances was dropped.
---
 src/ucis/merge/db_merger.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index bf23683..46d5209 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -30,12 +30,14 @@ class DbMerger(object):
         
         self.dst_db = dst_db
         
+        self._merge_instances(dst_db, src_db_l, {})
+
+    def _merge_instances(self, dst_parent, src_parent_l, dst_du_m):
         iscope_m : Dict[str, List[object]] = {}
         iscope_name_l = []
-        dst_du_m = {}
 
-        for i,db in enumerate(src_db_l):
-            for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
+        for i,src_parent in enumerate(src_parent_l):
+            for src_iscope in src_parent.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
                     iscope_m[name] = []
@@ -69,7 +71,7 @@ class DbMerger(object):
                     | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU) # TODO: GetScopeFlags
             dst_du = dst_du_m[du_name]
 
-            dst_iscope = self.dst_db.createInstance(
+            dst_iscope = dst_parent.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
                 src_iscope.getWeight(), # weight
@@ -79,6 +81,9 @@ class DbMerger(object):
                 UCIS_INST_ONCE)
         
             self._merge_covergroups(dst_iscope, src_scopes)
+
+            # Merge the design hierarchy below
+            self._merge_instances(dst_iscope, src_scopes, dst_du_m)
             
     def _merge_covergroups(self, dst_scope, src_scopes):
         
-- 
2.43.0


From 996c043fa50a75a20b7383edadbdb7a41a575e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:31 +0000
Subject: [PATCH 66/68] fix: report the coverage of nested instances

The report only looked at the instances directly below the root.
---
 src/ucis/report/coverage_report_builder.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index c79764b..04516d8 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -32,8 +32,7 @@ class CoverageReportBuilder(object):
 
     def _build(self)->'CoverageReport':
         
-        for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
-            self.build_covergroups(iscope)
+        self.build_instances(self.db)
 
         # The total covers the covergroups of all instances
         coverage = 0.0
@@ -48,6 +47,12 @@ class CoverageReportBuilder(object):
         return self.report
             
 
+    def build_instances(self, scope):
+
+        for iscope in scope.scopes(ScopeTypeT.INSTANCE):
+            self.build_covergroups(iscope)
+            self.build_instances(iscope)
+
     def build_covergroups(self, iscope):
         
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
-- 
2.43.0


From 32274cbccf6ea934db9e3da459cfcbb77de7761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 67/68] fix: write and read nested instances in XML

The writer left out the instances below other instances. They are now
written with instanceId/parentInstanceId, and the reader nests them.
---
 src/ucis/xml/xml_reader.py | 19 +++++++++++++++----
 src/ucis/xml/xml_writer.py | 16 ++++++++++++++--
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index acb9dd3..1dafad2 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -63,6 +63,7 @@ class XmlReader():
         self.file_m = {}
         self.module_scope_m = {}
         self.inst_scope_m = {}
+        self.inst_id_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
@@ -152,11 +153,20 @@ class XmlReader():
             None, 
             UCIS_OTHER) # TODO: how do we determine source type?
         
+        # An instance is listed after the one it is nested in
+        parent = self.db
+        if "parentInstanceId" in instN.attrib:
+            parent = self.inst_id_m.get(int(instN.get("parentInstanceId")), self.db)
+
         inst_scope = self.getInstScope(
+            parent,
             name,
             srcinfo,
             UCIS_OTHER,
             type_scope)
+
+        if "instanceId" in instN.attrib:
+            self.inst_id_m[int(instN.get("instanceId"))] = inst_scope
         
         for cg in instN.iter("covergroupCoverage"):
             self.readCovergroups(cg, inst_scope, module_scope_name)
@@ -470,12 +480,13 @@ class XmlReader():
         return scope
     
     def getInstScope(self,
+                     parent,
                      name,
                      srcinfo,
                      source,
                      du_scope):
-        if name not in self.inst_scope_m.keys():
-            scope = self.db.createInstance(
+        if (parent, name) not in self.inst_scope_m.keys():
+            scope = parent.createInstance(
                 name,
                 srcinfo,
                 1,
@@ -483,9 +494,9 @@ class XmlReader():
                 UCIS_INSTANCE,
                 du_scope,
                 UCIS_INST_ONCE)
-            self.inst_scope_m[name] = scope
+            self.inst_scope_m[(parent, name)] = scope
         else:
-            scope = self.inst_scope_m[name]
+            scope = self.inst_scope_m[(parent, name)]
             
         return scope
     
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 3686af3..9af7656 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -75,8 +75,8 @@ class XmlWriter():
         # TODO: collect source files
         self.write_source_files()
         self.write_history_nodes()
-        for s in self.db.scopes(ScopeTypeT.INSTANCE):
-            self.write_instance_coverages(s)
+        self.inst_id = 0
+        self.write_instances(self.db, None)
 
         for elem in self.root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
@@ -164,6 +164,16 @@ class XmlWriter():
             
             # TODO: userAttr
             
+    def write_instances(self, parent, parent_id):
+        for s in parent.scopes(ScopeTypeT.INSTANCE):
+            inst = self.write_instance_coverages(s)
+            inst_id = self.inst_id
+            self.inst_id += 1
+            inst.set("instanceId", str(inst_id))
+            if parent_id is not None:
+                inst.set("parentInstanceId", str(parent_id))
+            self.write_instances(s, inst_id)
+
     def write_instance_coverages(self, s):
         # TODO: determine the du_scope associated with this instance
         inst = self.mkElem(self.root, "instanceCoverages")
@@ -174,6 +184,8 @@ class XmlWriter():
         self.addId(inst, None)
         
         self.write_covergroups(inst, s)
+
+        return inst
         
         
     def write_covergroups(self, inst, scope):
-- 
2.43.0


From 600d1fbe752c704ffcb1753038f32dc138022a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:47 +0000
Subject: [PATCH 68/68] fix: report creates a missing output directory for
 formats that write directories

---
 src/ucis/cmd/cmd_report.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index f326cf8..4241e05 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -48,13 +48,13 @@ def report(args):
                 if os.path.isdir(args.out):
                     print("Note: removing existing report directory (%s)" % args.out)
                     shutil.rmtree(args.out)
-                    os.makedirs(args.out)
-                    fp = args.out
                 else:
-                    raise Exception("Output format %s requires a directory, but specified destination is a file" % (
+                    raise Exception("Output format %s requires a directory, but specified destination %s is a file" % (
                         args.output_format,
                         args.out
                     ))
+            os.makedirs(args.out)
+            fp = args.out
         else:
             raise Exception("Output format %s is ambiguous about output location: %s" % (
                 args.output_format,
-- 
2.43.0

