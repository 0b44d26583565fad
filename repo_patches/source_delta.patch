From e8b02054d07d90e698fb690dd01ffc5d5442025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 01/45] fix: elementary functions of plain numbers raised
 NameError (undefined args)

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..aeeab5f 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -46,7 +46,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                   variable_map={},
                                   unit_object=dimless,
                                   latex_text=f_name(latex_func_name, str(obj)),
-                                  repr_symbolic=base_func(obj, *args,evaluate=False)
+                                  repr_symbolic=base_func(obj, evaluate=False)
                                 )
 
             return enode_
-- 
2.43.0


From a1952413cf4744591db383839c48eb3856bd2671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 02/45] fix: Min and Max compare the units of their operands,
 also when mixed with numbers

---
 src/sloth/core/equation_operators.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index aeeab5f..378bce0 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -4,6 +4,7 @@ All those functions return EquationNode objects.
 """
 import sympy as sp
 import numpy as np
+from .error_definitions import UnexpectedValueError
 from .expression_evaluation import EquationNode
 from .template_units import dimless
 # import error_definitions as errors
@@ -184,7 +185,7 @@ def Min(*obj):
 
     elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(obj_i.unit_object._check_dimensional_coherence(obj[0].unit_object) for obj_i in obj):
 
             obj_dims = obj[0].unit_object
 
@@ -194,11 +195,13 @@ def Min(*obj):
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
+        obj_units = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')]
 
-        if obj_dims is []:
+        obj_dims = obj_units[0]
 
-            obj_dims = dimless
+        if not all(unit_i._check_dimensional_coherence(obj_dims) for unit_i in obj_units):
+
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
@@ -282,7 +285,7 @@ def Max(*obj):
 
     elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(obj_i.unit_object._check_dimensional_coherence(obj[0].unit_object) for obj_i in obj):
 
             obj_dims = obj[0].unit_object
 
@@ -292,11 +295,13 @@ def Max(*obj):
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
+        obj_units = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')]
 
-        if obj_dims is []:
+        obj_dims = obj_units[0]
 
-            obj_dims = dimless
+        if not all(unit_i._check_dimensional_coherence(obj_dims) for unit_i in obj_units):
+
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
-- 
2.43.0


From 11ea80b67ff428fd2a9554287f19dd2d92b5bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 03/45] fix: Min and Max keep specified quantities in their
 symbolic representation

---
 src/sloth/core/equation_operators.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 378bce0..45b46ce 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -127,6 +127,8 @@ def Min(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -159,10 +161,14 @@ def Min(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -209,7 +215,7 @@ def Min(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Min(*obj_repr_objcts, evaluate=False)
                         )
 
     return enode_
@@ -228,6 +234,8 @@ def Max(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -260,10 +268,14 @@ def Max(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -309,7 +321,7 @@ def Max(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Max(*obj_repr_objcts, evaluate=False)
                         )
 
     return enode_
-- 
2.43.0


From f334f8a29785eb8311220e5963c0cff6bb4848b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 04/45] fix: products, quotients and powers of expressions keep
 a sound classification

---
 src/sloth/core/expression_evaluation.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..6c7401a 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -316,7 +316,13 @@ class EquationNode:
                                 repr_symbolic=self.repr_symbolic*other_obj.repr_symbolic                                
                                 )
 
-            if other_obj.variable_map == {}: 
+            if self.equation_type['is_differential'] or other_obj.equation_type['is_differential']:
+
+                # a factor contains a derivative, even one of a specified Quantity
+
+                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+
+            elif other_obj.variable_map == {}: 
 
                 # other_obj is a specified Quantity
 
@@ -417,17 +423,17 @@ class EquationNode:
                                 repr_symbolic=self.repr_symbolic/other_obj.repr_symbolic       
                                 )
 
-            if other_obj.variable_map == {}: 
+            if self.equation_type['is_differential'] or other_obj.equation_type['is_differential']:
 
-                # other_obj is a specified Quantity
+                # a factor contains a derivative, even one of a specified Quantity
 
-                enode_.equation_type = {**self.equation_type}
+                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
 
-            elif self.variable_map == {} and other_obj.variable_map != {}:
+            elif other_obj.variable_map == {}: 
 
-                # current object is a specified Quantity
+                # other_obj is a specified Quantity
 
-                enode_.equation_type = {**other_obj.equation_type}
+                enode_.equation_type = {**self.equation_type}
 
             else:
 
@@ -551,7 +557,7 @@ class EquationNode:
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
 
-                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
                 return(enode_)
 
-- 
2.43.0


From 55b2a4185fa8998d1ba16a599787e97e34c29be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 05/45] fix: elementary functions of an expression with a
 derivative are differential

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 45b46ce..4a20ec3 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -67,7 +67,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                 repr_symbolic=base_func(obj.repr_symbolic, evaluate=False)
                                 )
 
-                enode_.equation_type = equation_type_
+                enode_.equation_type = enode_._checkEquationTypePrecedence(obj.equation_type, equation_type_)
 
                 return enode_
 
-- 
2.43.0


From d839dee14131f011067dadcd661c6f88c4e9417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 06/45] fix: Min and Max of expressions are not linear

---
 src/sloth/core/equation_operators.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 4a20ec3..9f75570 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -218,6 +218,13 @@ def Min(*obj):
                           repr_symbolic=sp.Min(*obj_repr_objcts, evaluate=False)
                         )
 
+    for obj_i in obj:
+
+        if isinstance(obj_i, EquationNode):
+
+            enode_.equation_type = enode_._checkEquationTypePrecedence(obj_i.equation_type,
+                                        enode_._checkEquationTypePrecedence(enode_.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}))
+
     return enode_
 
 def Max(*obj):
@@ -324,6 +331,13 @@ def Max(*obj):
                           repr_symbolic=sp.Max(*obj_repr_objcts, evaluate=False)
                         )
 
+    for obj_i in obj:
+
+        if isinstance(obj_i, EquationNode):
+
+            enode_.equation_type = enode_._checkEquationTypePrecedence(obj_i.equation_type,
+                                        enode_._checkEquationTypePrecedence(enode_.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}))
+
     return enode_
 
 def _Diff(obj, ind_var_):
-- 
2.43.0


From d1a28e4cb30e69d2c83863a45f4ff997bfc2f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 07/45] fix: expressions created with default records shared
 them

---
 src/sloth/core/expression_evaluation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 6c7401a..9efb037 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -17,8 +17,8 @@ class EquationNode:
           Eg: IfThen(CONDITION, [THEN_CLAUSE,ELSE_CAUSE]) 
     """
 
-    def __init__(self, name='', symbolic_object=None, symbolic_map={}, variable_map={}, is_linear=True, is_nonlinear=False,
-                 is_differential=False, unit_object=None, args=[], latex_text='', repr_symbolic=None):
+    def __init__(self, name='', symbolic_object=None, symbolic_map=None, variable_map=None, is_linear=True, is_nonlinear=False,
+                 is_differential=False, unit_object=None, args=None, latex_text='', repr_symbolic=None):
 
         """
         Instantiate EquationNode
@@ -61,9 +61,9 @@ class EquationNode:
 
         self.symbolic_object = symbolic_object
 
-        self.symbolic_map = symbolic_map
+        self.symbolic_map = symbolic_map if symbolic_map is not None else {}
 
-        self.variable_map = variable_map
+        self.variable_map = variable_map if variable_map is not None else {}
 
         self.equation_type = {'is_linear':is_linear,
                               'is_nonlinear':is_nonlinear,
@@ -72,7 +72,7 @@ class EquationNode:
 
         self.unit_object = unit_object
 
-        self.args = args
+        self.args = args if args is not None else []
 
         self.latex_text = latex_text
 
-- 
2.43.0


From f9f963c55fbf8ae7bcf0a238a63e41bea545cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 08/45] fix: a float given in an incoherent unit was accepted
 by setValue

---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..3454266 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From ea91046aeaec46042ad5303dbe101537348b3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 09/45] fix: Equation.setResidual overwrote the declared
 objects with None

---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..04027b9 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -375,7 +375,7 @@ class Equation:
 
             self.equation_form = 'elementary'
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
@@ -385,7 +385,7 @@ class Equation:
 
             self.equation_expression = equation_expression
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
-- 
2.43.0


From d32c4e7b761bfda33ad114102bd9ec964288e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 10/45] fix: a residual set on an equation written as left ==
 right left the old sides in force

---
 src/sloth/core/equation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 04027b9..8ab5680 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -385,6 +385,10 @@ class Equation:
 
             self.equation_expression = equation_expression
 
+            self.elementary_equation_expression = None
+
+            self.equation_form = 'residual'
+
             self._sweepObjects()
 
             self._getTypeFromExpression()
-- 
2.43.0


From 66af647b9d031756efe0d116160e4e1fccf64b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:48 +0000
Subject: [PATCH 11/45] fix: Equation.eval without a value map substituted the
 quantity objects instead of their current values

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 8ab5680..7dc05e7 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -431,7 +431,7 @@ class Equation:
 
         if symbolic_map == None:
 
-            symbolic_map_ = self.equation_expression.symbolic_map
+            symbolic_map_ = { name_i:obj_i.value for name_i, obj_i in self.equation_expression.symbolic_map.items() }
 
         else:
 
-- 
2.43.0


From b5a79e4e5bab3316b5f6bcc25a1bebf20298d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:38 +0000
Subject: [PATCH 12/45] fix: Log10 built log(x, 10) unevaluated, whose base
 later operations ignored (Exp(Log10(x))/2 became x/2)

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 9f75570..6695012 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -16,7 +16,7 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
-- 
2.43.0


From da3a043f7d2043ce9dd35b4bf4e72e5c605e28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:21 +0000
Subject: [PATCH 13/45] fix: a second registration on a domain labelled the
 columns by row numbers

---
 src/sloth/core/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..6cb0c57 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -177,7 +177,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From 1b7d3733ce0fe73b719d869801444f7eac377513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 14/45] fix: hand the residual of two-sided algebraic equations
 to the solvers

---
 src/sloth/core/equation_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..3580c03 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -312,6 +312,6 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From 6dcef5a284b82419fe96c5b886e92de8f48e9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 15/45] fix: refresh the objects of a problem after its models
 were loaded

---
 src/sloth/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..cc4061d 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -385,6 +385,10 @@ class Problem:
 
         self._reloadModels()
 
+        # Models may (re)declare their objects when loaded: refresh the register of the problem
+
+        self.addModels(list(self.models.values()))
+
         self._buildEquationBlock()
 
         self.equation_block()
-- 
2.43.0


From 43567871cb395a7839cdd9d220592bc0f513e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 16/45] fix: compile the equation system from a list of
 expressions

---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 3580c03..dd9510c 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,7 +175,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   self._getEquationList(differential_form,side),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -195,7 +195,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -208,7 +208,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 32918553e00990d54246fa82d97dd1a0c6711339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 17/45] fix: keep the equation groups when a
 differential-algebraic solver is created

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..bf6e5c0 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -892,7 +892,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
-- 
2.43.0


From f27558ae9c0572f1b1c87928af2910e163cfe42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 18/45] fix: put linear systems in matrix form with symbols

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index bf6e5c0..e019258 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -237,9 +237,9 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, [sp.Symbol(var_i) for var_i in self.problem.equation_block._var_list])
 
-        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
+        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).flatten()
 
         #print("\n\nA=%s b=%s"%(A,b))
 
-- 
2.43.0


From eb2a8fe7c62814f27d1086916a5aa598ab9c9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 19/45] fix: find the unknowns that occur outside a derivative

---
 src/sloth/core/equation_block.py | 38 ++++++++------------------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index dd9510c..20de864 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -254,8 +254,6 @@ class EquationBlock:
         Check if an specific var was declared in current EquationBlock, in a specific group of equations, or through the entire set of equations
         """
 
-        has_been_declared = False
-
         if isinstance(var_name, list) is not True:
 
             var_name = [var_name]
@@ -266,39 +264,21 @@ class EquationBlock:
 
         else:
 
-            where_to_look = self._equations_list
-
-        for eq in where_to_look:
-
-            #print("\n======>Equation: ", eq._getSymbolicObject())
-
-            try:
-
-                equation_members_ = eq._getSymbolicObject().args
-
-            except:
-
-                equation_members_ = []
+            where_to_look = self.equations
 
-            for eq_i in equation_members_:
+        return any(var_i in self._getNamesOutsideDerivatives(eq) for eq in where_to_look for var_i in var_name)
 
-                #print("\n\t======>Member: ",eq_i)
+    def _getNamesOutsideDerivatives(self, equation):
 
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
-
-                    has_been_declared = True
-
-                    break
+        """
+        Return the names of the symbols that occur outside a derivative in an specific Equation object
+        """
 
-            if has_been_declared is True:
+        residual = sp.sympify(equation._getSymbolicObject('residual'))
 
-                break
+        outside_derivatives = residual.replace(sp.Derivative, lambda *args: sp.Dummy())
 
-        return has_been_declared
+        return [str(symbol_i) for symbol_i in outside_derivatives.free_symbols]
 
     def __call__(self):
 
-- 
2.43.0


From 22c318fc9ff9e939b5c2ac716f4ccf384d0cf576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 20/45] fix: count every determined time variable

---
 src/sloth/analysis.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index dbdd29b..9c5c809 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -54,8 +54,6 @@ class DOF_Analysis:
 
         eq_reps = self.problem.equation_block._equations_list
 
-        has_time_var_declared_in_diff_eq = False
-
         """
         for eq in self.problem.equation_block._equation_groups['differential']:
 
@@ -78,11 +76,15 @@ class DOF_Analysis:
 
         """
 
-        has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name, "differential")
+        time_variable_names = self.problem.time_variable_name
+
+        if not isinstance(time_variable_names, list):
+
+            time_variable_names = [time_variable_names]
 
-        if has_time_var_declared_in_diff_eq is True:
+        # Each time variable that occurs in a differential equation is determined
 
-            n_eqs += 1
+        n_eqs += len([t_i for t_i in time_variable_names if self.problem.equation_block._hasVarBeenDeclared(t_i, "differential")])
 
         n_dof = n_vars + n_unspec_params - n_eqs
 
-- 
2.43.0


From fb9fbd7168a89c3540c0564615267e56d76294e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 21/45] fix: record outputs and inputs of a connection as what
 they are

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..eab9f94 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -630,7 +630,7 @@ class Model:
 
             description = "["+out_vars_names+"--->"+in_vars_names+"]"
 
-            conn = connection.Connection(name, description, in_vars_names, out_vars_names, expr)
+            conn = connection.Connection(name, description, out_vars_names, in_vars_names, expr)
 
             conn.setResidual(expr) # I DON'T UNDERSTAND WHY THIS NEED TO BE HERE! x)
 
-- 
2.43.0


From e109ebbe4aae4a3522b953e73ab75e41fc8131f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 22/45] fix: raise the exposed-variable error for lists of
 variables

---
 src/sloth/core/error_definitions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index e11dc20..b19a917 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -14,9 +14,17 @@ class ExposedVariableError(Exception):
 
         self.m2_exposed_names = [var_i.name for var_i in model_2_exposed_vars]
 
-        self.input_var_name = input_var.name
+        self.input_var_name = self._getNames(input_var)
 
-        self.output_var_name = output_var.name
+        self.output_var_name = self._getNames(output_var)
+
+    def _getNames(self, var):
+
+        if isinstance(var, list):
+
+            return(",".join([var_i.name for var_i in var]))
+
+        return(var.name)
 
     def __str__(self):
 
-- 
2.43.0


From a3269a1d841257e1c6cf2469bea49a83cf1826d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 23/45] fix: keep every connection between expressions of the
 same models

---
 src/sloth/problem.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index cc4061d..fd3afa6 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,16 +275,30 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._getConnectionName(model_1, model_2), "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._getConnectionName(model_1.name, model_2), "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             else:
 
                 raise AbsentRequiredObjectError("[Model, str]")
 
+    def _getConnectionName(self, origin_name, model):
+
+        """
+        Return the name for the equation that connects expressions from 'origin_name' to a model. When the model already has an equation with this name, a suffix keeps both
+        """
+
+        name = "conn_"+origin_name+"-->"+model.name
+
+        if name+"_"+model.name in model.equations:
+
+            name = name+"_"+gen_rnd_str()
+
+        return(name)
+
 
     def _createDirectConnection(self, out_model, out_vars, in_model, in_vars, expr, description):
 
-- 
2.43.0


From b40be4b677a1c182da3ece24b9e9331af6e188d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 24/45] fix: take defaults for options a configuration file
 does not give

---
 src/sloth/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 7cfbd89..ca40d16 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -158,7 +158,7 @@ class Simulation:
 
             with open(configurations_file, "r") as read_file:
 
-                additional_conf = json.load(read_file)
+                additional_conf = {**default_simulation_configurations, **json.load(read_file)}
 
         elif definition_dict is not None and isinstance(definition_dict, dict):
 
-- 
2.43.0


From a0532fb5271f3712d884d19ce3b1e505efdbc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 25/45] fix: give every simulation its own configuration

---
 src/sloth/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index ca40d16..8321311 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -14,6 +14,7 @@ import prettytable
 import numpy as np
 from collections import OrderedDict
 import json
+from copy import copy
 from .core.quantity import Quantity
 from .print_headings import print_heading
 
@@ -201,7 +202,9 @@ class Simulation:
             'number_parameters_to_optimize'] != number_parameters_to_optimize:
             additional_conf['number_parameters_to_optimize'] = number_parameters_to_optimize
 
-        self.configurations = additional_conf
+        # The configuration is owned by this simulation: options that are changed later (eg: by the solvers) are not shared with other simulations nor with the default values
+
+        self.configurations = {k: copy(v) if isinstance(v, (list, dict)) else v for k, v in additional_conf.items()}
 
     def runSimulation(self, sanity_check=True, show_output_msg=True, show_final_residuals=True):
 
-- 
2.43.0


From 48e42f9be4b12b66420c9d88c14d1136eef5c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 26/45] fix: default the time variable for configurations given
 as dictionary or file

---
 src/sloth/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 8321311..dcc3949 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -198,6 +198,9 @@ class Simulation:
 
         # print("additional_conf is: %s"%additional_conf)
 
+        if additional_conf['time_variable_name'] is None and additional_conf['is_dynamic'] is True:
+            additional_conf['time_variable_name'] = self.problem.time_variable_name
+
         if number_parameters_to_optimize != 0 and additional_conf[
             'number_parameters_to_optimize'] != number_parameters_to_optimize:
             additional_conf['number_parameters_to_optimize'] = number_parameters_to_optimize
-- 
2.43.0


From fed1cb536e9d91d7aa04b3de081b11cdb99ef113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 27/45] fix: keep the bounds and direction an optimization
 problem is constructed with

---
 src/sloth/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..380f45e 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -49,9 +49,9 @@ class OptimizationProblem:
 
         self.description = description
 
-        self.is_maximization = False
+        self.is_maximization = is_maximization
 
-        self.bounds = None
+        self.bounds = bounds
 
         self.simulation_instance = simulation_instance
 
-- 
2.43.0


From 0275d9ab55a77c387b1ef6c770266ad0d4c723cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 28/45] fix: take defaults for settings an optimization
 settings file does not give

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 380f45e..523b397 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -267,7 +267,7 @@ class Optimization:
 
             with open(optimization_configuration, "r") as read_file:
 
-                self.optimization_configuration = json.load(read_file)
+                self.optimization_configuration = {**default_optimization_configuration, **json.load(read_file)}
 
         elif isinstance(optimization_configuration, dict):
 
-- 
2.43.0


From 663af2146187a65d2726d18d12557c22ea2999a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 29/45] fix: pass the neighborhood settings to the particle
 swarm optimizer

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 523b397..56f6ba2 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -440,7 +440,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']
 
-                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant))
+                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant, neighb_type=neighb_type, neighb_param=neighb_param))
 
                 #isl = pg.island(algo, self.optimization_problem, ind)
 
-- 
2.43.0


From 78fc1dd4e178935f7a69d478bddff589d580b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 30/45] fix: look for a named constraint of every optimized
 parameter

---
 src/sloth/optimization.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 56f6ba2..c985656 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -468,17 +468,9 @@ class Optimization:
 
         if self.constraints is not None and isinstance(self.constraints,dict):
 
-            if isinstance(self.optimization_parameters[0], Quantity):
+            if not all(name_i in self.constraints for name_i in self._getParameterNames()):
 
-                if not all(op_i.name in self.constraints for op_i in self.optimization_parameters):
-
-                    raise AbsentRequiredObjectError("Constraints")
-
-            if isinstance(self.optimization_parameters[0], str):
-
-                if not all(op_i in self.constraints for op_i in self.optimization_parameters):
-
-                    raise AbsentRequiredObjectError("Constraints")
+                raise AbsentRequiredObjectError("Constraints")
 
         if self.optimization_configuration is None:
 
@@ -490,6 +482,14 @@ class Optimization:
 
         return True
 
+    def _getParameterNames(self):
+
+        """
+        Return the names of the optimized parameters, each given by its name or as an object
+        """
+
+        return [op_i if isinstance(op_i, str) else op_i.name for op_i in self.optimization_parameters]
+
     def _setParameters(self, new_parameters):
 
         if isinstance(self.optimization_parameters[0], Quantity):
-- 
2.43.0


From 365c03c3dad53891efbccdd93966e1aad042b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 31/45] fix: hand the bounds of the study or its problem to the
 optimizer

---
 src/sloth/optimization.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index c985656..67b85f6 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -534,7 +534,17 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            self.optimization_problem.setBounds(self.constraints)
+            if isinstance(self.constraints, dict):
+
+                # Named constraints: one (lower, upper) pair for each parameter
+
+                pairs = [self.constraints[name_i] for name_i in self._getParameterNames()]
+
+                self.optimization_problem.setBounds(([pair_i[0] for pair_i in pairs], [pair_i[1] for pair_i in pairs]))
+
+            elif self.constraints is not None:
+
+                self.optimization_problem.setBounds(self.constraints)
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
-- 
2.43.0


From 6c38af12c32481be9172c49b49181455531d99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 32/45] fix: property packages do not share their list of phase
 names

---
 src/sloth/core/property_package.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..4c9bbca 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,14 +21,15 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
-
         self.T = 298.15
 
         self.P = 101325
 
         self.phases = {phase_i: thermo.chemical.Chemical(phase_i, self.T, self.P) for phase_i in phase_names if phase_i is not None}
 
+        #The list of names belongs to this package only (it is extended when other packages are added)
+        self.phase_names = list(self.phases.keys())
+
         self.ws = ws
 
         self.zs = zs
-- 
2.43.0


From afafc9507935efe91c41cd2f3af8350a214c54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 33/45] fix: differential problems map unknowns, derivatives
 and time by name

---
 src/sloth/core/equation.py       |  38 ++++++
 src/sloth/core/equation_block.py |  12 +-
 src/sloth/solvers.py             | 193 +++++++++++--------------------
 3 files changed, 116 insertions(+), 127 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 7dc05e7..c32c481 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -226,6 +226,44 @@ class Equation:
 
             self.equation_form = "residual"
 
+    def _getExplicitForm(self):
+
+        """
+        Return the derivative contained in the current (differential) equation and the expression it is equal to, whatever the form of the equation (eg: u' == v, 2*u' + u == v or u' - v)
+
+        :return:
+            Derivative and corresponding explicit expression
+        :rtype tuple(sympy.Derivative, sympy expression):
+        """
+
+        if self.elementary_equation_expression is not None:
+
+            lhs, rhs = [side_i.symbolic_object for side_i in self.elementary_equation_expression]
+
+            if isinstance(lhs, sp.Derivative) and not sp.sympify(rhs).has(sp.Derivative):
+
+                return lhs, rhs
+
+        residual = sp.sympify(self.equation_expression.symbolic_object)
+
+        derivatives = list(residual.atoms(sp.Derivative))
+
+        if len(derivatives) != 1:
+
+            raise UnexpectedValueError("Equation containing one derivative")
+
+        unknown = sp.Dummy()
+
+        residual = residual.xreplace({derivatives[0]: unknown})
+
+        coefficient = sp.diff(residual, unknown)
+
+        if coefficient.has(unknown):
+
+            raise UnexpectedValueError("Equation linear with respect to its derivative")
+
+        return derivatives[0], -residual.xreplace({unknown: sp.Integer(0)})/coefficient
+
     def _convertToFunction(self, symbolic_map=None, side=None, compilation_mechanism='llvm'):
 
         """
diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 20de864..467be8e 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -174,8 +174,18 @@ class EquationBlock:
 
             if differential_form == 'elementary':
 
+                if side == 'rhs':
+
+                    #The derivatives, whatever the form of the equations
+
+                    eqs = [eq_i._getExplicitForm()[1] for eq_i in self.equations]
+
+                else:
+
+                    eqs = self._getEquationList(differential_form,side)
+
                 fun_ = sp.lambdify(self._var_list,
-                                   self._getEquationList(differential_form,side),
+                                   eqs,
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index e019258..2243eb9 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -114,6 +114,57 @@ class Solver:
 
         pass
 
+    def _getTimeVariableNames(self):
+
+        """
+        Return the names of the time variables, defined for the Problem and in the additional configurations
+
+        :rtype list(str):
+        """
+
+        names = []
+
+        for names_i in (self.problem.time_variable_name, self.additional_configurations['time_variable_name']):
+
+            if names_i is not None:
+
+                names_i = names_i if isinstance(names_i, list) else [names_i]
+
+                names.extend([name_i for name_i in names_i if name_i not in names])
+
+        return names
+
+    def _checkInitialTime(self):
+
+        """
+        Check if the initial condition for each of the time variables was declared
+        """
+
+        time_variable_name = self.additional_configurations['time_variable_name']
+
+        names = time_variable_name if isinstance(time_variable_name, list) else [time_variable_name]
+
+        if not all(t_i in self.problem.initial_conditions for t_i in names):
+
+            raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
+
+    def _arrangeForRegister(self, time_points, Y, names):
+
+        """
+        Arrange the time points and the columns of the solution in the order of the headings of the domain
+
+        :param list(str) names:
+            Name of the variable for each column of the solution
+        """
+
+        Y = np.array(Y)
+
+        columns = [np.array(time_points) for _ in self.domain.independent_vars.keys()]
+
+        columns.extend([Y[:, names.index(name_i)] for name_i in self.domain.dependent_objs.keys()])
+
+        return np.column_stack(columns)
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -376,25 +427,11 @@ class DSolver(Solver):
 
         self.times_for_solution = additional_configurations['times_for_solution']
 
-        time_variable_name = additional_configurations['time_variable_name']
-
-        arg_names = additional_configurations['arg_names']
-
-        if isinstance(time_variable_name, list):
-
-            has_initial_time_condition_declared = all(t_i in problem.initial_conditions for t_i in time_variable_name)
-
-        else:
+        self._checkInitialTime()
 
-            has_initial_time_condition_declared = time_variable_name in problem.initial_conditions
+        arg_names = list(additional_configurations['arg_names'])
 
-        if has_initial_time_condition_declared is not True:
-
-            raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
-
-        if time_variable_name not in arg_names:
-
-            arg_names.append(time_variable_name)
+        arg_names.extend([t_i for t_i in self._getTimeVariableNames() if t_i not in arg_names])
 
         self.diffSystem = self.setUpDiffSystem()
 
@@ -501,7 +538,7 @@ class DSolver(Solver):
 
         y_map_ = {**y_dict, **args_dict}
 
-        res = [eq_i.eval(y_map_, side='rhs') for eq_i in self.diffSystem]
+        res = [float(sp.sympify(eq_i._getExplicitForm()[1]).subs(y_map_)) for eq_i in self.diffSystem]
 
         return res
 
@@ -531,19 +568,7 @@ class DSolver(Solver):
 
         for eq_i in self.diffSystem:
 
-            """
-            print("type=%s"%(type(eq_i.elementary_equation_expression[0])))
-            print("type2=%s"%(type(eq_i.elementary_equation_expression[0].symbolic_object)))
-            print("type3=%s"%(type(eq_i.elementary_equation_expression[0].symbolic_object.args)))
-            print("\neq=%s\nexpression=%s\n expression[0]=%s, args=%s and %s" %
-                (eq_i,
-                 eq_i.elementary_equation_expression,
-                 eq_i.elementary_equation_expression[0],
-                 eq_i.elementary_equation_expression[0].args,
-                 eq_i.elementary_equation_expression[1].args)
-                )
-            """
-            y_name.append(str(eq_i.elementary_equation_expression[0].symbolic_object.args[0]))
+            y_name.append(str(eq_i._getExplicitForm()[0].args[0]))
 
         return y_name
 
@@ -576,9 +601,9 @@ class DSolver(Solver):
 
         for eq_i in self.diffSystem:
 
-            s_map_dict = eq_i.elementary_equation_expression[0].symbolic_map
+            name_i = str(eq_i._getExplicitForm()[0].args[0])
 
-            Y_.update(s_map_dict)
+            Y_.update({name_i: eq_i.equation_expression.symbolic_map[name_i]})
 
         #============================================
 
@@ -604,20 +629,10 @@ class DSolver(Solver):
 
             Y_ = self._createMappingFromValues(self.diffY.keys(), Y)
 
-            for t_i in self.problem.time_variable_name:
-
-                has_t_i_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(t_i, "differential")
-
-                #print("\n------>t_i = ",t_i)
-
-                #print("\n------> has? ", has_t_i_var_declared_in_diff_eq)
-
-                if has_t_i_var_declared_in_diff_eq is True:
-
-                    Y_.update({t_i:t})
+            Y_.update({t_i:t for t_i in self._getTimeVariableNames()})
 
             if len(args)>0:
-                args_ = self._createMappingFromValues(self.args_names, args)
+                args_ = self._createMappingFromValues(self.arg_names, args)
             else:
                 args_ = {}
 
@@ -627,28 +642,12 @@ class DSolver(Solver):
 
                 global_dict.update(args_)
 
-                #====== Reorder global_dict from _var_list from equation_block ========
+                #====== Take the values in the order of _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
-                keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
-
-                global_dict = {k:global_dict[k] for k in keys_}
+                res = self.compiled_equations(*[global_dict[k] for k in self.problem.equation_block._var_list])
 
                 #======================================================================
 
-                #print("\n\n\n\t--------->var_list:",self.problem.equation_block._var_list)
-                #print("\n\n\n\t--------->global_dict:",global_dict)
-                #print("\n\n\n\t--------->list(global_dict.values()):",list(global_dict.values()))
-
-                #res = [f_i(*list(global_dict.values())) for f_i in self.compiled_equations]
-
-                res = self.compiled_equations(*list(global_dict.values()))
-
-                #print("\n\n\n\t--------->res(compiled):",res)
-                #print("\n\n\n\t--------->res(NOT compiled):",self._evaluateDiffYfromEquations(Y_, args_))
-
-                #sss=input("...")
-
             else:
 
                 res = self._evaluateDiffYfromEquations(Y_, args_)
@@ -657,49 +656,7 @@ class DSolver(Solver):
 
         def diffYinterfaceForAssimuloSolvers(t, Y, args=()):
 
-            Y_ = self._createMappingFromValues(self.diffY.keys(), Y)
-
-            for t_i in self.problem.time_variable_name:
-
-                has_t_i_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(t_i, "differential")
-
-                #print("\n------>t_i = ",t_i)
-
-                #print("\n------> has? ", has_t_i_var_declared_in_diff_eq)
-
-                if has_t_i_var_declared_in_diff_eq is True:
-
-                    Y_.update({t_i:t})
-
-            if len(args)>0:
-                args_ = self._createMappingFromValues(self.args_names, args)
-            else:
-                args_ = {}
-
-            if self.additional_configurations['compile_equations'] == True:
-
-                global_dict = Y_.copy()
-
-                global_dict.update(args_)
-
-                #====== Reorder global_dict from _var_list from equation_block ========
-
-                keys_ = self.problem.equation_block._var_list
-                keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
-
-                global_dict = {k:global_dict[k] for k in keys_}
-
-                #======================================================================
-
-                #res = [f_i(*list(global_dict.values())) for f_i in self.compiled_equations]
-
-                res = self.compiled_equations(*list(global_dict.values()))
-
-            else:
-
-                res = self._evaluateDiffYfromEquations(Y_, args_)
-
-            return res
+            return diffYinterfaceForScipySolvers(Y, t, args)
 
         initial_conditions = self.problem.initial_conditions
 
@@ -715,7 +672,7 @@ class DSolver(Solver):
 
         Y_0 = [initial_conditions[var_i] for var_i in Y_names]
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time != None:
 
             number_of_time_steps = 100#int(1000*(end_time - initial_time))
 
@@ -725,7 +682,7 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
@@ -741,6 +698,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        t0=initial_time,
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
@@ -756,24 +714,7 @@ class DSolver(Solver):
 
         # print("\ntime_points.T shape=%s\nY.T shape=%s"%(time_points.reshape(1,-1).T.shape,Y.T.shape))
 
-        to_register_ = None
-
-        if self.solver == None or self.solver == 'ODEINT':
-
-            # print("Y.shape=",Y.shape," time_points.shape=",time_points.shape)
-            # print("RESULT: \n",Y)
-
-            to_register_ = np.hstack((time_points.reshape(-1,1), Y))
-
-        if self.solver == 'CVODE':
-
-            # print("Y = ",Y)
-            # print("time_points = ",time_points)
-
-            #print("Y.shape=",Y.shape," time_points.shape=",time_points.shape)
-            #print("RESULT: \n",Y)
-
-            to_register_ = np.hstack((time_points.reshape(-1,1), Y))
+        to_register_ = self._arrangeForRegister(time_points, Y, Y_names)
 
         if self.additional_configurations['print_output'] == True:
 
-- 
2.43.0


From 5bf871f62a6a7c22b23eef1ccedda6be9679adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 34/45] fix: differential-algebraic problems map unknowns and
 derivatives to the solver vectors by name

---
 src/sloth/core/equation_block.py | 52 ++++++++++++++++++++++++--------
 src/sloth/solvers.py             | 32 +++++++++-----------
 2 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 467be8e..00dd681 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -83,10 +83,13 @@ class EquationBlock:
         _ = [eq_i._convertToResidualForm() for eq_i in self._equation_groups['differential'] if eq_i.equation_form!='residual']
 
 
-    def _getMapForRewriteSystemAsResidual(self):
+    def _getMapForRewriteSystemAsResidual(self, time_variable_names=()):
 
         """
-        Return dictionaries mapping the differential terms and ydot nomenclature (eg:yd[0]) and variables and y nomenclature (eg:y[0]), used for residual solvers
+        Return dictionaries mapping the differential terms and ydot nomenclature (eg:yd[0]) and variables and y nomenclature (eg:y[0]), used for residual solvers. The derivative of an variable takes the position of that variable. The time variables are not states of the system.
+
+        :param list(str) time_variable_names:
+            Names of the time variables
 
         :return:
             Two dictionaries that map between the differential terms and variables used in the equations with the residual nomenclature (yd,y)
@@ -96,9 +99,9 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
+        var_list = [var_i for var_i in self._var_list if var_i not in time_variable_names]
 
-        var_list = self._var_list
+        yd_list = ["yd[{}]".format(var_list.index(str(diff_i.args[0]))) for diff_i in diff_list]
 
         y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
 
@@ -111,7 +114,7 @@ class EquationBlock:
     def _getDiffList(self):
 
         """
-        Set the list for each of the occurences of Derivative objects that appear in the equations of the model
+        Set the list of the (distinct) Derivative objects that appear in the equations of the model
 
         :return:
             List of derivatives
@@ -122,9 +125,9 @@ class EquationBlock:
 
         for eqi in self._equation_groups['differential']:
 
-            eq = eqi._getSymbolicObject('residual','rhs')
+            eq = sp.sympify(eqi._getSymbolicObject('residual','rhs'))
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            diff_list.extend([diff_i for diff_i in sorted(eq.atoms(sp.Derivative), key=str) if diff_i not in diff_list])
 
         return diff_list
 
@@ -149,7 +152,7 @@ class EquationBlock:
 
         return var_name_list
 
-    def _getEquationBlockAsFunction(self, differential_form='residual', side='rhs', compilation_mechanism="mpmath"):
+    def _getEquationBlockAsFunction(self, differential_form='residual', side='rhs', compilation_mechanism="mpmath", time_variable_names=()):
 
         """
         Return the Equations that compose the current EquationBlock object into a monolithical function that will return an array of results.
@@ -163,6 +166,9 @@ class EquationBlock:
         :param str compilation_mechanism:
             Determination of which mechanism to use to compile the equations. Defaults to 'numpy'
 
+        :param list(str) time_variable_names:
+            Names of the variables that take the value of the current time
+
         :return:
             Monolithic function corresponding to all the equations defined for current EquationBlock, retuning an array of results
         :rtype function:
@@ -194,15 +200,23 @@ class EquationBlock:
 
             if differential_form == 'residual':
 
-                yd_map, y_map = self._getMapForRewriteSystemAsResidual()
+                yd_map, y_map = self._getMapForRewriteSystemAsResidual(time_variable_names)
 
-                # Add y_map dict to yd_map
+                new_names = {**y_map, **{t_i:"t" for t_i in time_variable_names}}
 
-                yd_map.update(y_map)
+                diff_map = {k:sp.Symbol(v) for (k,v) in yd_map.items()}
 
                 original_eqs = self._getEquationList(differential_form, side)
 
-                rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
+                rewritten_eqs = []
+
+                for eq_i in original_eqs:
+
+                    eq_i = sp.sympify(eq_i)
+
+                    symbol_map = {k:sp.Symbol(new_names[k.name]) for k in eq_i.free_symbols if k.name in new_names}
+
+                    rewritten_eqs.append(eq_i.xreplace({**symbol_map, **diff_map}))
 
                 _fun_ = sp.lambdify(["t","y","yd"],
                                    rewritten_eqs,
@@ -226,6 +240,20 @@ class EquationBlock:
 
             return fun_unpacked_
 
+    def _getBooleanDiffFlagsForVariables(self, time_variable_names=()):
+
+        """
+        Return an boolean list of if each of the variables (time variables excluded) of the current EquationBlock is differential, in the order of the variables
+
+        :return:
+            List of boolean flags indicating which variables are differential
+        :rtype list(float):
+        """
+
+        diff_names = [str(diff_i.args[0]) for diff_i in self._getDiffList()]
+
+        return [float(var_i in diff_names) for var_i in self._var_list if var_i not in time_variable_names]
+
     def _getBooleanDiffFlagsForEquations(self):
 
         """
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 2243eb9..0b23110 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -757,17 +757,11 @@ class DaeSolver(Solver):
 
         self.domain = additional_configurations['domain']
 
-        time_variable_name = additional_configurations['time_variable_name']
-
-        arg_names = additional_configurations['arg_names']
-
-        if time_variable_name not in problem.initial_conditions:
-
-            raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
+        self._checkInitialTime()
 
-        if time_variable_name not in arg_names:
+        arg_names = list(additional_configurations['arg_names'])
 
-            arg_names.append(time_variable_name)
+        arg_names.extend([t_i for t_i in self._getTimeVariableNames() if t_i not in arg_names])
 
         self.differential_Eqs, self.algebraic_Eqs = self._setUpDaeSystem()
 
@@ -795,7 +789,7 @@ class DaeSolver(Solver):
         :rtype function:
         """
 
-        return self.problem.equation_block._getEquationBlockAsFunction('residual','rhs', self.compilation_mechanism)
+        return self.problem.equation_block._getEquationBlockAsFunction('residual','rhs', self.compilation_mechanism, self._getTimeVariableNames())
 
     def _createMappingFromValues(self, var_names, var_vals):
 
@@ -849,23 +843,27 @@ class DaeSolver(Solver):
 
         initial_conditions = self.problem.initial_conditions
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time != None:
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
         time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
 
-        ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
+        time_names = self._getTimeVariableNames()
+
+        ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual(time_names)
 
         y_0 = [initial_conditions[var_i] for var_i in ymap.keys()]
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        #The derivatives take the positions of their variables, those of the algebraic variables are zero
 
-        if self.solver == None or self.solver == 'IDA':
+        diff_names = [str(diff_i.args[0]) for diff_i in ydmap.keys()]
+
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in diff_names else 0. for var_i in ymap.keys()]
 
-            yd_0.append(0.)
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
@@ -876,7 +874,7 @@ class DaeSolver(Solver):
                                                 name='IDA'
                                         )
 
-            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForEquations()
+            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForVariables(time_names)
 
             solver_instance = IDA(problem_instance)
 
@@ -902,7 +900,7 @@ class DaeSolver(Solver):
 
             #================================================
 
-        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
+        to_register_ = self._arrangeForRegister(time_points, Y, list(ymap.keys()))
 
         if self.additional_configurations['print_output'] == True:
 
-- 
2.43.0


From 19fd7fbb63ea79e1f9afc091594d064120083070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 35/45] fix: exposed variables of an incorporated model are
 recorded under their type

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index eab9f94..69a7121 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From 06dc3b7b84d228380c7f50b48835663159d10250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 36/45] fix: incorporated objects are renamed after their own
 owner, and keep their names on request

---
 src/sloth/model.py | 60 ++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 69a7121..5536a78 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -371,17 +371,11 @@ class Model:
 
             pass
 
-        var_names_from_old_model = list(model_to_incorporate.variables.keys())
-        par_names_from_old_model = list(model_to_incorporate.parameters.keys())
-        con_names_from_old_model = list(model_to_incorporate.constants.keys())
-
-        var_names_from_old_model.extend(par_names_from_old_model)
-        var_names_from_old_model.extend(con_names_from_old_model)
-        whole_names_from_old_model = var_names_from_old_model
+        if incorporate_equations is True:
 
-        names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name for k in whole_names_from_old_model}
+            whole_old_objects = {**model_to_incorporate.variables, **model_to_incorporate.parameters, **model_to_incorporate.constants}
 
-        if incorporate_equations is True:
+            names_map = {k: self._getUnownedName(obj_i)+'_'+self.name if rewrite_name is True else k for k, obj_i in whole_old_objects.items()}
 
             whole_objects_map = {}
 
@@ -393,6 +387,22 @@ class Model:
 
             _ = [self._addEquationDirectly(obj_i, names_map, whole_objects_map, rewrite_name) for obj_i in list(model_to_incorporate.equations.values())]
 
+    def _getUnownedName(self, obj):
+
+        """
+        Return the name of an object without the suffix of the model that owns it (eg: 'a' for the object 'a_M1' owned by 'M1')
+        """
+
+        suffix = "_" + obj.owner_model_name
+
+        if obj.owner_model_name != "" and obj.name.endswith(suffix):
+
+            return obj.name[:-len(suffix)]
+
+        else:
+
+            return obj.name
+
     def _addVariableDirectly(self, var, rewrite_name):
 
         """
@@ -405,13 +415,7 @@ class Model:
 
         var_ = deepcopy(var)
 
-        if var.owner_model_name is not "":
-
-            object_name =  var.name[:-(1+len(var.owner_model_name))]
-
-        else:
-
-            object_name = var.name
+        object_name = self._getUnownedName(var)
 
         if rewrite_name is True:
             var_.name = object_name + "_" + self.name
@@ -442,13 +446,7 @@ class Model:
 
         par_ = deepcopy(par)
 
-        if par.owner_model_name is not "":
-
-            object_name =  par.name[:-(1+len(par.owner_model_name))]
-
-        else:
-
-            object_name = par.name
+        object_name = self._getUnownedName(par)
 
         if rewrite_name is True:
             par_.name = object_name + "_" + self.name
@@ -475,13 +473,7 @@ class Model:
 
         con_ = deepcopy(con)
 
-        if con.owner_model_name is not "":
-
-            object_name =  con.name[:-(1+len(con.owner_model_name))]
-
-        else:
-
-            object_name = con.name
+        object_name = self._getUnownedName(con)
 
         if rewrite_name is True:
             con_.name = object_name + "_" + self.name
@@ -508,13 +500,7 @@ class Model:
 
         eq_ = deepcopy(eq)
 
-        if eq.owner_model_name is not "":
-
-            object_name =  eq.name[:-(1+len(eq.owner_model_name))]
-
-        else:
-
-            object_name = eq.name
+        object_name = self._getUnownedName(eq)
 
         if rewrite_name is True:
             eq_.name = object_name + "_" + self.name
-- 
2.43.0


From 0475f2ccdb917e38ef87084b3e7fff2e6742107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 37/45] fix: incorporated equations rename symbols
 simultaneously, also in constant sides and maps

---
 src/sloth/core/equation.py | 42 +++++++++++++-------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index c32c481..dc5957b 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -330,49 +330,35 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
+        symbols_map = {sp.Symbol(old_name): sp.Symbol(new_name) for old_name, new_name in names_map.items()}
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+        nodes = [self.equation_expression]
 
         if self.elementary_equation_expression is not None:
 
-            elem_expr = list(self.elementary_equation_expression)
+            left_side, right_side = self.elementary_equation_expression
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            nodes.append(left_side)
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+            if right_side is not left_side:
 
-            try:
-
-                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.subs(names_map)
-
-            except:
-
-                pass #Element does not support symbolic substitution. It is a float.
-
-            try:
-
-                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.subs(names_map)
-
-            except:
-
-                pass #Element does not support symbolic substitution. It is a float.
+                nodes.append(right_side)
 
-            symbols_used_0 = [str(i) for i in list(elem_expr[0].repr_symbolic.free_symbols)]
+        for node_i in nodes:
 
-            symbols_used_1 = [str(i) for i in list(elem_expr[1].repr_symbolic.free_symbols)]
+            #A constant side can hold a number, in which there is nothing to be replaced
 
-            elem_expr[0].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_0}
+            if isinstance(node_i.symbolic_object, sp.Basic):
 
-            elem_expr[1].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_1}
+                node_i.symbolic_object = node_i.symbolic_object.xreplace(symbols_map)
 
-            self.elementary_equation_expression = tuple(elem_expr)
+            if isinstance(node_i.repr_symbolic, sp.Basic):
 
-        symbols_used_ = [str(i) for i in list(self.equation_expression.repr_symbolic.free_symbols)]
+                node_i.repr_symbolic = node_i.repr_symbolic.xreplace(symbols_map)
 
-        new_symbolic_map = {k:whole_obj_map[k] for k in symbols_used_}
+            node_i.symbolic_map = {names_map[k]: whole_obj_map[names_map[k]] for k in node_i.symbolic_map.keys()}
 
-        self.equation_expression.symbolic_map = new_symbolic_map
+            node_i.variable_map = {names_map[k]: whole_obj_map[names_map[k]] for k in node_i.variable_map.keys()}
 
         self._sweepObjects()
 
-- 
2.43.0


From 3763b76739513c8a5377070f8b9bffd4bb9dc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 38/45] fix: incorporated equations refer to the objects
 incorporated with them

---
 src/sloth/model.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5536a78..dcd600e 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -355,17 +355,19 @@ class Model:
         Incorporate objects from a external Model
         """
 
+        incorporated_objects = []
+
         if incorporate_variables is True:
 
-            _ = [self._addVariableDirectly(obj_i, rewrite_name) for obj_i in list(model_to_incorporate.variables.values())]
+            incorporated_objects.extend([self._addVariableDirectly(obj_i, rewrite_name) for obj_i in list(model_to_incorporate.variables.values())])
 
         if incorporate_parameters is True:
 
-            _ = [self._addParameterDirectly(obj_i, rewrite_name) for obj_i in list(model_to_incorporate.parameters.values())]
+            incorporated_objects.extend([self._addParameterDirectly(obj_i, rewrite_name) for obj_i in list(model_to_incorporate.parameters.values())])
 
         if incorporate_constants is True:
 
-            _ = [self._addConstantDirectly(obj_i, rewrite_name) for obj_i in list(model_to_incorporate.constants.values())]
+            incorporated_objects.extend([self._addConstantDirectly(obj_i, rewrite_name) for obj_i in list(model_to_incorporate.constants.values())])
 
         if incorporate_ports is True:
 
@@ -385,6 +387,10 @@ class Model:
 
             whole_objects_map = {**whole_objects_map, **self.variables}
 
+            #The equations refer to the objects incorporated with them, even if the model had another object of the same name
+
+            whole_objects_map.update({obj_i.name: obj_i for obj_i in incorporated_objects})
+
             _ = [self._addEquationDirectly(obj_i, names_map, whole_objects_map, rewrite_name) for obj_i in list(model_to_incorporate.equations.values())]
 
     def _getUnownedName(self, obj):
@@ -434,6 +440,8 @@ class Model:
 
         self.__dict__[object_name] = var_
 
+        return var_
+
     def _addParameterDirectly(self, par, rewrite_name):
 
         """
@@ -461,6 +469,8 @@ class Model:
 
         self.__dict__[object_name] = par_
 
+        return par_
+
     def _addConstantDirectly(self, con, rewrite_name):
 
         """
@@ -488,6 +498,8 @@ class Model:
 
         self.__dict__[object_name] = con_
 
+        return con_
+
     def _addEquationDirectly(self, eq, names_map={}, whole_objects_map={}, rewrite_name=True, rewrite_symbolic_representation=True):
 
         """
-- 
2.43.0


From d04e39c46d839d86cafa8ed25054ab135c078ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 39/45] fix: models and unit operations created without ports
 do not share them

---
 src/sloth/model.py   | 4 ++--
 src/sloth/unit_op.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index dcd600e..bb848bf 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.objects_info = {}
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 972ea82..34ebce6 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -17,7 +17,7 @@ class UnitOp:
     Defines the UnitOp class, that holds the capabilities for: acessing ports (inputs, outputs) from the UnitOp objects; Predefine streams for input and output, allowing to the port to be passed directly to other UnitOps
     """
 
-    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports={'inlets':{},'outlets':{}}):
+    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports=None):
 
         self.n_inputs = n_inputs
 
@@ -25,7 +25,7 @@ class UnitOp:
 
         self.model = model
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.property_package = model.property_package
 
-- 
2.43.0


From 9ab6c19bf9ac8302d6db175795e38a0e0b335410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 40/45] fix: property packages do not share their default mass
 fractions

---
 src/sloth/core/property_package.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 4c9bbca..e839d15 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -13,7 +13,7 @@ class PropertyPackage:
     Class that defines the PropertyPackage object, which constains information about the species involved in the simulation and their properties
     """
 
-    def __init__(self, phases=1, phase_names=['water'], ws=[.1], zs=None):
+    def __init__(self, phases=1, phase_names=['water'], ws=None, zs=None):
 
         """
         Instantiate PropertyPackage
@@ -30,7 +30,7 @@ class PropertyPackage:
         #The list of names belongs to this package only (it is extended when other packages are added)
         self.phase_names = list(self.phases.keys())
 
-        self.ws = ws
+        self.ws = ws if ws is not None else [.1]
 
         self.zs = zs
 
-- 
2.43.0


From e76d7d4f945b826f5206301f59b57032b0643077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 41/45] fix: domains do not share their default bounds

---
 src/sloth/core/domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index 6cb0c57..96019b1 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -18,7 +18,7 @@ class Domain:
     * TODO: Solve domain working process
     """
 
-    def __init__(self, name, units, independent_vars=None, description="", lower_bound={'all':None}, upper_bound={'all':None}):
+    def __init__(self, name, units, independent_vars=None, description="", lower_bound=None, upper_bound=None):
 
         """
         Instantiate Domain.
@@ -62,9 +62,9 @@ class Domain:
 
         self.description = description
 
-        self.lower_bound = lower_bound
+        self.lower_bound = lower_bound if lower_bound is not None else {'all':None}
 
-        self.upper_bound = upper_bound
+        self.upper_bound = upper_bound if upper_bound is not None else {'all':None}
 
         self.values = None
 
-- 
2.43.0


From 8d5e11d53031e76eef04434d9cc18867d4f0a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 42/45] fix: optimization studies do not share their default
 additional arguments

---
 src/sloth/optimization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 67b85f6..310aa8f 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -140,7 +140,7 @@ class Optimization:
     Define optimization mechanisms. Given variables for an subspecified system, the optimizator will work on the variables or parameters subjected to study towards the minimization (or maximization) of an objective function.
     """
 
-    def __init__(self, simulation, optimization_problem, optimization_parameters, simulation_configuration=None, constraints=None, is_maximization=False, optimizer='de', constraints_fun=None, constraints_additional_args=[], additional_args=[], objective_function=None, optimization_configuration=None):
+    def __init__(self, simulation, optimization_problem, optimization_parameters, simulation_configuration=None, constraints=None, is_maximization=False, optimizer='de', constraints_fun=None, constraints_additional_args=None, additional_args=None, objective_function=None, optimization_configuration=None):
 
         """
         Instantiate Optimization
@@ -218,9 +218,9 @@ class Optimization:
 
         self.constraints_fun = constraints_fun
 
-        self.constraints_additional_args = constraints_additional_args
+        self.constraints_additional_args = constraints_additional_args if constraints_additional_args is not None else []
 
-        self.additional_args = additional_args
+        self.additional_args = additional_args if additional_args is not None else []
 
         self.objective_function = objective_function
 
-- 
2.43.0


From 1cfbef3a722a307ae2b84a9b27200f9b372ba641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 43/45] fix: generated names are unique between threads

---
 src/sloth/core/equation.py | 11 ++++-------
 src/sloth/problem.py       | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index dc5957b..835892e 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -10,17 +10,14 @@ from .expression_evaluation import EquationNode
 from .error_definitions import UnexpectedValueError, AbsentRequiredObjectError, UnresolvedPanicError
 import sympy as sp
 #import symengine as sp
-import threading
+import itertools
 
-_uid = threading.local()
+_uid = itertools.count(1)
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
-    _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    #Drawing the next number is a single step: no two calls get the same one, whatever the threads they run in
+    return str(next(_uid))
 
 class Equation:
 
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index fd3afa6..2134ddd 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -15,17 +15,14 @@ from .analysis import Analysis
 #import numpy as np
 #from .graph_creator import ConnectionGraph
 
-import threading
+import itertools
 
-_uid = threading.local()
+_uid = itertools.count(1)
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
-    _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    #Drawing the next number is a single step: no two calls get the same one, whatever the threads they run in
+    return str(next(_uid))
 
 class Problem:
 
-- 
2.43.0


From f2d2b3d05256ba5e397d373bd051aa26625a74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 44/45] fix: prepare streams that have no property package

---
 src/sloth/unit_op_library.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..e7ecfb7 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -51,6 +51,11 @@ class HomogeneousMaterialStream(model.Model):
 
         #Recalculate property_package if T and P where provided
 
+        #Without a property package there is nothing to recalculate
+        if self.property_package is None:
+
+            return
+
         if self.T.is_specified is True and self.P.is_specified is False:
 
             self.property_package.calculate(T=self.T.value)
@@ -105,6 +110,11 @@ class MaterialStream(model.Model):
 
         #Recalculate property_package if T and P where provided
 
+        #Without a property package there is nothing to recalculate
+        if self.property_package is None:
+
+            return
+
         if self.T.is_specified is True and self.P.is_specified is False:
 
             self.property_package.calculate(T=self.T.value)
@@ -164,6 +174,11 @@ class MultiphasicMaterialStream(model.Model):
 
         #Recalculate property_package if T and P where provided
 
+        #Without a property package there is nothing to recalculate
+        if self.property_package is None:
+
+            return
+
         if self.T.is_specified is True and self.P.is_specified is False:
 
             self.property_package.calculate(T=self.T.value)
-- 
2.43.0


From ba4207e0f25e533cdd77149b76f4b6d2c10df54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 45/45] fix: the equations of a tank refer to attributes that
 exist and are dimensionally coherent

---
 src/sloth/unit_op_library.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index e7ecfb7..f34a909 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -362,7 +362,7 @@ class Tank(model.Model):
         self.H_out = self.createVariable("H_out", J/mol, "molar enthalpy output", latex_text="H_{out}", is_exposed=True, type='output')
         self.E = self.createVariable("E", J, "Internal energy", latex_text="E")
 
-        self.Q = self.createParameter("Q", J, "Heat rate", latex_text="Q", value=0.)
+        self.Q = self.createParameter("Q", J/s, "Heat rate", latex_text="Q", value=0.)
 
         self.E.distributeOnDomain(self.time_domain)
 
@@ -377,19 +377,22 @@ class Tank(model.Model):
 
     def DeclareEquations(self):
 
-        _molar_conservation = self.N.Diff(self.t) == self. self.ndot_in() - self.ndot_out()
+        _molar_conservation = self.N.Diff(self.t) == self.ndot_in() - self.ndot_out()
 
         self.createEquation("molar_conservation", "Molar consevation", _molar_conservation)
 
-        _mass_conservation = self.M.Diff(self.t) ==  self. self.mdot_in() - self.mdot_out()
+        _mass_conservation = self.M.Diff(self.t) ==  self.mdot_in() - self.mdot_out()
 
         self.createEquation("mass_conservation", "Mass conservation", _mass_conservation)
 
-        _energy_balance = self.E.Diff(self.t) == self.n_dot_in()*self.H_in() - self.n_dot_out()*self.H_out() + self.Q()
+        _energy_balance = self.E.Diff(self.t) == self.ndot_in()*self.H_in() - self.ndot_out()*self.H_out() + self.Q()
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        _level_balance = self.level.Diff(self.t) == (1./(self.property_package["*"].rho*self.area_sec()))*(self.mdot_in()-self.mdot_out())
+        mix_rho = self.createParameter("mix_rho", kg/(m**3), "Density for the mixture of components")
+        mix_rho.setValue(self.property_package["*"].rho)
+
+        _level_balance = self.level.Diff(self.t) == (1./(mix_rho()*self.area_sec()))*(self.mdot_in()-self.mdot_out())
 
         self.createEquation("_level_balance", "Liquid level balance", _level_balance)
 
-- 
2.43.0

