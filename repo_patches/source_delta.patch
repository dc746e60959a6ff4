From 3630df07c75d00b9bce69b51d85b2cab522db980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 01/88] fix: setValue must check the unit of a float as it does
 for an int

'A or B and C' accepted every float whatever its quantity_unit.
---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..3454266 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From 8607d1f58cf08c588d466d526f62876d51c80a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 02/88] fix: setValue accepts any Quantity, as documented

Parameter, Constant and Variable only took an instance of their own class, so
p.setValue(2.*unit) (a Quantity) was refused as an unexpected type.
---
 src/sloth/core/constant.py  | 2 +-
 src/sloth/core/parameter.py | 2 +-
 src/sloth/core/quantity.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index 132fa53..411e34e 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -71,7 +71,7 @@ class Constant(Quantity):
             Unit object for the parameter. Defaults to currennt units
         """
 
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 39d0274..65c63ce 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -57,7 +57,7 @@ class Parameter(Quantity):
             Unit object for the parameter. Defaults to currennt units
         """
 
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 3454266..f8ac260 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -75,7 +75,7 @@ class Quantity:  # New-style class syntax
         """
         Set the current value for the Quantity object given a value and optionally an Unit object
         """
-        if isinstance(quantity_value, self.__class__):
+        if isinstance(quantity_value, Quantity):
 
 
             if quantity_unit == None and  quantity_value.units._check_dimensional_coherence(self.units) == True:
-- 
2.43.0


From 25ef69e870a731d02e7ac234afbba6518b7afa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 03/88] fix: arithmetic between quantities raised TypeError

Every operator built its result without the mandatory name, and '/' was only
defined under its Python 2 spelling.
---
 src/sloth/core/quantity.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index f8ac260..faec8f6 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -157,7 +157,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value+other_obj.value)
+            new_obj = self.__class__(name = "", units = self.units, value = self.value+other_obj.value)
 
             return new_obj
 
@@ -184,7 +184,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value-other_obj.value)
+            new_obj = self.__class__(name = "", units = self.units, value = self.value-other_obj.value)
 
             return new_obj
 
@@ -206,7 +206,7 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units*other_obj.units, value = self.value*other_obj.value)
+        new_obj = self.__class__(name = "", units = self.units*other_obj.units, value = self.value*other_obj.value)
 
         return new_obj
 
@@ -224,10 +224,17 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units/other_obj.units, value = self.value/other_obj.value)
+        new_obj = self.__class__(name = "", units = self.units/other_obj.units, value = self.value/other_obj.value)
 
         return(new_obj)
 
+    def __truediv__(self, other_obj):
+        """
+        Overloaded function for division of two unit-containing-objects (Python 3 spelling of __div__).
+        """
+
+        return self.__div__(other_obj)
+
     def __pow__(self, power):
 
         """
@@ -243,6 +250,6 @@ class Quantity:  # New-style class syntax
 
         """
 
-        new_obj = self.__class__( units = self.units**power.value, value = self.value**power.value )
+        new_obj = self.__class__(name = "", units = self.units**power.value, value = self.value**power.value )
 
         return(new_obj)
-- 
2.43.0


From 47f84ee903d8ce1105fa9b6a8d980d371e0db23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 04/88] fix: a product or quotient with a derivative lost its
 differential type

x()*y.Diff(t) was classified as nonlinear (algebraic), so that the equation was
handed to the algebraic solver with a derivative in it.
---
 src/sloth/core/expression_evaluation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..0ec30ec 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -330,7 +330,9 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                # The result is not linear in its unspecified quantities, and a derivative keeps it differential
+
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
@@ -431,7 +433,9 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                # The result is not linear in its unspecified quantities, and a derivative keeps it differential
+
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
-- 
2.43.0


From b09eb478b5f8a2731d4e72aa0293d96004e449dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 05/88] fix: a specified quantity divided by an unspecified one
 is not linear

p()/x() took the type of x(), so the equation was classified as linear.
---
 src/sloth/core/expression_evaluation.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 0ec30ec..9df8485 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -425,12 +425,6 @@ class EquationNode:
 
                 enode_.equation_type = {**self.equation_type}
 
-            elif self.variable_map == {} and other_obj.variable_map != {}:
-
-                # current object is a specified Quantity
-
-                enode_.equation_type = {**other_obj.equation_type}
-
             else:
 
                 # The result is not linear in its unspecified quantities, and a derivative keeps it differential
-- 
2.43.0


From e1e6b5d323453362320cb580ea51c07ab7d27229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 06/88] fix: x()**p() ignored the value of a specified exponent
 in its unit

A power with a specified exponent kept the unit of its base (m**2 stayed m), so
incoherent sums were accepted and coherent ones refused.
---
 src/sloth/core/expression_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9df8485..feff7c1 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -544,7 +544,7 @@ class EquationNode:
                                     symbolic_object=self.symbolic_object**other_obj.symbolic_object,
                                     symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
                                     variable_map={**self.variable_map, **other_obj.variable_map},
-                                    unit_object=self.unit_object**other_obj.unit_object,
+                                    unit_object=self.unit_object**(float(other_obj.symbolic_object) if other_obj.variable_map == {} else other_obj.unit_object),
                                     latex_text=self.latex_text+"^"+other_obj.latex_text,             
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
-- 
2.43.0


From 5679511faf3ceca6a8e282614a70211cb924b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 07/88] fix: Log, Exp, Sin, ... of a plain number raised
 NameError

The number branch referred to an undefined name 'args'.
---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..aeeab5f 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -46,7 +46,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                   variable_map={},
                                   unit_object=dimless,
                                   latex_text=f_name(latex_func_name, str(obj)),
-                                  repr_symbolic=base_func(obj, *args,evaluate=False)
+                                  repr_symbolic=base_func(obj, evaluate=False)
                                 )
 
             return enode_
-- 
2.43.0


From 219c23fd7bf3a586fe27460985970159e242d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 08/88] fix: a function of a derivative lost its differential
 type

Sin(y.Diff(t)) was classified as nonlinear (algebraic).
---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index aeeab5f..e37a8ab 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -66,7 +66,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                 repr_symbolic=base_func(obj.repr_symbolic, evaluate=False)
                                 )
 
-                enode_.equation_type = equation_type_
+                enode_.equation_type = enode_._checkEquationTypePrecedence(obj.equation_type, equation_type_)
 
                 return enode_
 
-- 
2.43.0


From 0beaf903051e1251dbcf734a2817ad6939c454fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 09/88] fix: Min and Max compared an EquationNode with a Unit

Any call with only EquationNode arguments failed (with a NameError on top, as
UnexpectedValueError was not imported), and a mixed call with incoherent units
was accepted.
---
 src/sloth/core/equation_operators.py | 41 +++++++++-------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index e37a8ab..24d3368 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -6,6 +6,7 @@ import sympy as sp
 import numpy as np
 from .expression_evaluation import EquationNode
 from .template_units import dimless
+from .error_definitions import UnexpectedValueError
 # import error_definitions as errors
 
 
@@ -178,27 +179,19 @@ def Min(*obj):
 
     latex_func_name+="\\right )"
 
-    if all(isinstance(obj_i, float) or isinstance(obj_i, int) for obj_i in obj):
+    units_ = [obj_i.unit_object for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        obj_dims = dimless
-
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
+    if len(units_) == 0:
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        obj_dims = dimless
 
-            obj_dims = obj[0].unit_object
+    elif all(units_[0]._check_dimensional_coherence(unit_i) for unit_i in units_):
 
-        else:
-
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+        obj_dims = units_[0]
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
-
-            obj_dims = dimless
+        raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
@@ -276,27 +269,19 @@ def Max(*obj):
     f_name += ")"
     latex_func_name+="\\right )"
 
-    if all(isinstance(obj_i, float) or isinstance(obj_i, int) for obj_i in obj):
+    units_ = [obj_i.unit_object for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        obj_dims = dimless
-
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
+    if len(units_) == 0:
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        obj_dims = dimless
 
-            obj_dims = obj[0].unit_object
+    elif all(units_[0]._check_dimensional_coherence(unit_i) for unit_i in units_):
 
-        else:
-
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+        obj_dims = units_[0]
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
-
-            obj_dims = dimless
+        raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
-- 
2.43.0


From 46ce484cf0a08bed182c8749533837ab357a3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 10/88] fix: Min and Max of unspecified quantities are not
 linear

They were classified as linear, and their fully symbolic representation held
the values of the specified arguments instead of their symbols.
---
 src/sloth/core/equation_operators.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 24d3368..59ce197 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -199,9 +199,17 @@ def Min(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Min(*[obj_i.repr_symbolic if isinstance(obj_i, EquationNode) else obj_i for obj_i in obj], evaluate=False)
                         )
 
+    for obj_i in obj:
+
+        # Piecewise, hence never linear in its unspecified quantities
+
+        if isinstance(obj_i, EquationNode) and obj_i.variable_map != {}:
+
+            enode_.equation_type = enode_._checkEquationTypePrecedence(enode_._checkEquationTypePrecedence(enode_.equation_type, obj_i.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+
     return enode_
 
 def Max(*obj):
@@ -289,9 +297,17 @@ def Max(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Max(*[obj_i.repr_symbolic if isinstance(obj_i, EquationNode) else obj_i for obj_i in obj], evaluate=False)
                         )
 
+    for obj_i in obj:
+
+        # Piecewise, hence never linear in its unspecified quantities
+
+        if isinstance(obj_i, EquationNode) and obj_i.variable_map != {}:
+
+            enode_.equation_type = enode_._checkEquationTypePrecedence(enode_._checkEquationTypePrecedence(enode_.equation_type, obj_i.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+
     return enode_
 
 def _Diff(obj, ind_var_):
-- 
2.43.0


From 51a287df6c09b7cb8152b05d842b2431574850f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 11/88] fix: an equation with Log10 could not be compiled to
 numpy

log(x, 10) unevaluated is printed as numpy.log(x, 10), whose second argument is
the output array.
---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 59ce197..4ac2ec5 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -16,7 +16,7 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
-- 
2.43.0


From 1a2845f2936f1a5958e784787608c6ae7bb1f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 12/88] fix: compiling an equation block raised TypeError with
 current sympy

lambdify takes lists of expressions; it does not accept an object ndarray.
---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..0eb49bb 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,7 +175,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   self._getEquationList(differential_form,side),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -195,7 +195,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -208,7 +208,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 79e412c8bc0a8afd82a49fe0fcee9ad372f978c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 13/88] fix: the residual form of a differential block could
 not be built

sympy parses the strings 'y[0]', 'yd[0]' as an index into a Symbol and refuses
them; give subs the symbols of those names.
---
 src/sloth/core/equation_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 0eb49bb..b674188 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,11 +96,11 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
+        yd_list = [sp.Symbol("yd[{}]".format(i)) for (i,_) in enumerate(diff_list)]
 
         var_list = self._var_list
 
-        y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
+        y_list = [sp.Symbol("y[{}]".format(i)) for (i,_) in enumerate(var_list)]
 
         yd_map = {k:v for (k,v) in zip(diff_list,yd_list)}
 
-- 
2.43.0


From ec715fa7692b27c895e6e6e8015e28157de5859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 14/88] fix: Equation.eval() and getResidual() without a map
 raised SympifyError

The default map held the Quantity objects instead of their current values.
---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..8c60590 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -427,7 +427,7 @@ class Equation:
 
         if symbolic_map == None:
 
-            symbolic_map_ = self.equation_expression.symbolic_map
+            symbolic_map_ = {name_i: obj_i.value for name_i, obj_i in self.equation_expression.symbolic_map.items()}
 
         else:
 
-- 
2.43.0


From 96d6a46e0256cf5923b01d8e2b34e36a5a734d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 15/88] fix: setResidual lost the objects declared by the
 equation

_sweepObjects sets the attribute and returns None, which was then stored in it.
---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 8c60590..4985d56 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -375,7 +375,7 @@ class Equation:
 
             self.equation_form = 'elementary'
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
@@ -385,7 +385,7 @@ class Equation:
 
             self.equation_expression = equation_expression
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
-- 
2.43.0


From 56c04bacb39fce62dc2c9caaf97f89ea8520c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 16/88] fix: incorporating a model with an exposed variable
 raised KeyError

exposed_vars was indexed with the builtin 'type' instead of the variable's.
---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..c5ee15e 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From 1e0ec6e71f38c5f0267515ce4e3c88c5248ccf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:20 +0000
Subject: [PATCH 17/88] fix: an equation with a number on one side could not be
 incorporated

Numbers have no 'subs' (x() == 0. raised AttributeError).
---
 src/sloth/core/equation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 4985d56..4cc48ea 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -294,15 +294,15 @@ class Equation:
 
         self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
 
             try:
 
-- 
2.43.0


From 6c71e02d424896dd1cd1382d8a52b1dec2c6b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 18/88] fix: incorporation renamed an object twice when its new
 name is an old one

Incorporating model M (objects x, x_B) in B_M maps x_M to x_B_M and x_B_M to
x_B_B_M; the substitutions were done one after the other.
---
 src/sloth/core/equation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 4cc48ea..a1819c6 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,21 +292,23 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
+        symbols_map = {sp.Symbol(old_name): sp.Symbol(new_name) for old_name, new_name in names_map.items()}
 
-        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
+        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.xreplace(symbols_map)
+
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).xreplace(symbols_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).xreplace(symbols_map)
 
-            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).xreplace(symbols_map)
 
             try:
 
-                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.subs(names_map)
+                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.xreplace(symbols_map)
 
             except:
 
@@ -314,7 +316,7 @@ class Equation:
 
             try:
 
-                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.subs(names_map)
+                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.xreplace(symbols_map)
 
             except:
 
-- 
2.43.0


From a57f902cbb22719b84e58d5ed4f07026d2416520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 19/88] fix: the variable map of an incorporated equation kept
 the source's objects

It still named the objects of the source model (private copies of them).
---
 src/sloth/core/equation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index a1819c6..ed5de06 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -330,6 +330,10 @@ class Equation:
 
             elem_expr[1].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_1}
 
+            elem_expr[0].variable_map = {k:whole_obj_map[k] for k in (names_map.get(old_name, old_name) for old_name in elem_expr[0].variable_map)}
+
+            elem_expr[1].variable_map = {k:whole_obj_map[k] for k in (names_map.get(old_name, old_name) for old_name in elem_expr[1].variable_map)}
+
             self.elementary_equation_expression = tuple(elem_expr)
 
         symbols_used_ = [str(i) for i in list(self.equation_expression.repr_symbolic.free_symbols)]
@@ -338,6 +342,8 @@ class Equation:
 
         self.equation_expression.symbolic_map = new_symbolic_map
 
+        self.equation_expression.variable_map = {k:whole_obj_map[k] for k in (names_map.get(old_name, old_name) for old_name in self.equation_expression.variable_map)}
+
         self._sweepObjects()
 
     def setResidual(self, equation_expression):
-- 
2.43.0


From 9a7dbc6cd844750134bf1e8c793283cff4346d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 20/88] fix: a second registration of values in a domain failed

The appended frame took its column names from the row index.
---
 src/sloth/core/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..6cb0c57 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -177,7 +177,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From 0611d5555498b8d49b98605e70607992471bc713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 21/88] fix: all models shared the same ports

The default was one mutable dict: the inlets set on a model showed up in every
other model created without ports.
---
 src/sloth/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index c5ee15e..9193e70 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.objects_info = {}
 
-- 
2.43.0


From 69b3c6dd04649579cfbcee4443f0ce6f4fa28a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 22/88] fix: setting the inlets of a model in several calls
 duplicated the first ones

Every call appended all the inlets of all ports once more.
---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 9193e70..fbc44f0 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -585,7 +585,7 @@ class Model:
 
         self.ports['inlets'].update({inlet_name: _inlets})
 
-        _ = [self._inlets.extend(self.ports['inlets'][in_]) for in_ in list(self.ports['inlets'].keys())]
+        self._inlets = [inlet_i for in_ in list(self.ports['inlets'].keys()) for inlet_i in self.ports['inlets'][in_]]
 
     def _setOutlets(self, outlets):
 
-- 
2.43.0


From c274f1f4d4eaa3051ae37323036bb8706a17222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 23/88] fix: connecting lists of non-exposed variables raised
 AttributeError

ExposedVariableError only took single variables.
---
 src/sloth/core/error_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index e11dc20..5ac0163 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -14,9 +14,9 @@ class ExposedVariableError(Exception):
 
         self.m2_exposed_names = [var_i.name for var_i in model_2_exposed_vars]
 
-        self.input_var_name = input_var.name
+        self.input_var_name = [var_i.name for var_i in input_var] if isinstance(input_var, list) else input_var.name
 
-        self.output_var_name = output_var.name
+        self.output_var_name = [var_i.name for var_i in output_var] if isinstance(output_var, list) else output_var.name
 
     def __str__(self):
 
-- 
2.43.0


From 6ac9d9905b79ef7adb09c3942b19c72f8ab1a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 24/88] fix: a second connection between the same models
 replaced the first one

With expressions as endpoints the connection equations were all named after the
two models only, so all but the last one were lost.
---
 src/sloth/problem.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..6b27476 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,17 +275,31 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._nameForConnection(model_1, model_2), "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._nameForConnection(model_1.name, model_2), "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             else:
 
                 raise AbsentRequiredObjectError("[Model, str]")
 
 
+    def _nameForConnection(self, model_1_name, model_2):
+
+        """
+        Return a name for a connection equation that is not used yet in the input model
+        """
+
+        name = "conn_"+model_1_name+"-->"+model_2.name
+
+        if name+'_'+model_2.name in model_2.equations:
+
+            name += "_"+gen_rnd_str()
+
+        return name
+
     def _createDirectConnection(self, out_model, out_vars, in_model, in_vars, expr, description):
 
         """
-- 
2.43.0


From ed60813130e7501654882a61403409ac57f62166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 25/88] fix: objects declared when the models are loaded were
 unknown to the problem

Variables and parameters created in DeclareVariables/DeclareParameters of a
model added before it was called were missing in the equation block, and those
redeclared by resolve() were replaced by their stale predecessors.
---
 src/sloth/problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 6b27476..01e844b 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -399,6 +399,14 @@ class Problem:
 
         self._reloadModels()
 
+        # The objects can be (re)declared when the models are reloaded
+
+        for model_i in self.models.values():
+
+            self.variable_dict.update(model_i.variables)
+
+            self.parameter_dict.update(model_i.parameters)
+
         self._buildEquationBlock()
 
         self.equation_block()
-- 
2.43.0


From 22dfe7ba5ee2c5e61b724012d633e8fad64c1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 26/88] fix: a connection recorded its input and output
 variables swapped

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index fbc44f0..03420e6 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -630,7 +630,7 @@ class Model:
 
             description = "["+out_vars_names+"--->"+in_vars_names+"]"
 
-            conn = connection.Connection(name, description, in_vars_names, out_vars_names, expr)
+            conn = connection.Connection(name, description, out_vars_names, in_vars_names, expr)
 
             conn.setResidual(expr) # I DON'T UNDERSTAND WHY THIS NEED TO BE HERE! x)
 
-- 
2.43.0


From 70a5e9fcce54b41b6e9316e17e399d76aa1d3697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 27/88] fix: evaluating Min or Max of an operand that cancels
 to zero raised ValueError

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index ed5de06..acf2aeb 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -453,7 +453,7 @@ class Equation:
 
         else:
 
-            res = equation_expression_.symbolic_object.evalf(subs=eval_map)
+            res = equation_expression_.symbolic_object.subs(eval_map).evalf()
 
         return res
 
-- 
2.43.0


From 38f9c34af943fc25a1d6bb2ab91ee19a2543c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 28/88] fix: an incorporated equation lost the objects whose
 terms cancel

---
 src/sloth/core/equation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index acf2aeb..55751de 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -322,9 +322,9 @@ class Equation:
 
                 pass #Element does not support symbolic substitution. It is a float.
 
-            symbols_used_0 = [str(i) for i in list(elem_expr[0].repr_symbolic.free_symbols)]
+            symbols_used_0 = [names_map.get(old_name, old_name) for old_name in elem_expr[0].symbolic_map]
 
-            symbols_used_1 = [str(i) for i in list(elem_expr[1].repr_symbolic.free_symbols)]
+            symbols_used_1 = [names_map.get(old_name, old_name) for old_name in elem_expr[1].symbolic_map]
 
             elem_expr[0].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_0}
 
@@ -336,7 +336,7 @@ class Equation:
 
             self.elementary_equation_expression = tuple(elem_expr)
 
-        symbols_used_ = [str(i) for i in list(self.equation_expression.repr_symbolic.free_symbols)]
+        symbols_used_ = [names_map.get(old_name, old_name) for old_name in self.equation_expression.symbolic_map]
 
         new_symbolic_map = {k:whole_obj_map[k] for k in symbols_used_}
 
-- 
2.43.0


From e350fc9a734f7c89cfea9137a1229c6c4f95e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 29/88] fix: a two-sided algebraic equation was solved by its
 right-hand side only

---
 src/sloth/core/equation_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index b674188..5f75818 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -312,6 +312,6 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From 7a49cf4788e0e6fd71271f86f564035f706891fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:31 +0000
Subject: [PATCH 30/88] fix: the scipy linear solver could not build its matrix

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..c580c9e 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -237,9 +237,9 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, [sp.Symbol(i) for i in self.problem.equation_block._var_list])
 
-        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
+        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).ravel()
 
         #print("\n\nA=%s b=%s"%(A,b))
 
-- 
2.43.0


From 1192dda85dc1981b185976549a1b46e7b506256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 31/88] fix: an equation with Abs could not be solved

---
 src/sloth/solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index c580c9e..6e79cd7 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -327,7 +327,10 @@ class NLASolver(Solver):
 
                 initial_guess = polished_initial_guess
 
-        eqSys = SymbolicSys(var_names, equations_list)
+        # The unknowns are real, which is needed for the derivative of functions like Abs
+        symbols_ = {sp.Symbol(v_i): sp.Symbol(v_i, real=True) for v_i in var_names}
+
+        eqSys = SymbolicSys(list(symbols_.values()), [sp.sympify(eq_i).xreplace(symbols_) for eq_i in equations_list])
 
         #REMOVE ME:print("\n ->initial_guess={}".format(initial_guess))
 
-- 
2.43.0


From 684babe3d150cd8c5fbc600dc63fa3688932872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 32/88] fix: a nonlinear problem without solution ended as
 solved

---
 src/sloth/solvers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 6e79cd7..4e8aeae 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -338,7 +338,12 @@ class NLASolver(Solver):
 
         #print(sol_state)
 
-        if sol_state['success'] is True:
+        # The least-squares method also ends successfully in a minimum which is not a root: the residuals left should correspond to the error expected for the variables
+        residuals_tol = 1e-6*(1. + np.abs(eqSys.j_cb(x_out)).dot(np.maximum(np.abs(x_out), 1.)))
+
+        is_root = bool(np.all(np.abs(sol_state['fun']) <= residuals_tol))
+
+        if sol_state['success'] is True and is_root is True:
 
             x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}
 
-- 
2.43.0


From e6b899d8fdd1fbdaafe4589404776206c9d158a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:21 +0000
Subject: [PATCH 33/88] fix: a problem with an unspecified constant passed the
 degrees of freedom analysis

---
 src/sloth/analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index dbdd29b..afc4fb8 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -46,6 +46,10 @@ class DOF_Analysis:
 
         unspec_param_names = [par_i.name for par_i in list(self.problem.equation_block.parameter_dict.values()) if par_i.is_specified is False]
 
+        # An unspecified constant is left as unknown likewise
+
+        unspec_param_names.extend(sorted({obj_i.name for eq_i in self.problem.equation_block.equations for obj_i in eq_i.objects_declared.values() if isinstance(obj_i, Constant) and obj_i.is_specified is False}))
+
         n_unspec_params = len(unspec_param_names)
 
         n_eqs = len(self.problem.equation_block._equations_list)
-- 
2.43.0


From 4f58205724238b1f213f60e832e42abe2a898e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:28 +0000
Subject: [PATCH 34/88] fix: number_of_time_steps=None raised AttributeError in
 dynamic solvers

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 4e8aeae..ee31e7d 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -723,7 +723,7 @@ class DSolver(Solver):
 
         Y_0 = [initial_conditions[var_i] for var_i in Y_names]
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time != None:
 
             number_of_time_steps = 100#int(1000*(end_time - initial_time))
 
@@ -916,7 +916,7 @@ class DaeSolver(Solver):
 
         initial_conditions = self.problem.initial_conditions
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time != None:
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-- 
2.43.0


From a1e56ca0172cad2fe5984bd44b588335ce3a392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:29 +0000
Subject: [PATCH 35/88] fix: trajectories were registered under the names of
 other variables when the domain and the equations are in different order

---
 src/sloth/solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index ee31e7d..f8fec2d 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -764,6 +764,10 @@ class DSolver(Solver):
 
         # print("\ntime_points.T shape=%s\nY.T shape=%s"%(time_points.reshape(1,-1).T.shape,Y.T.shape))
 
+        # Arrange the columns in the order that the domain was distributed, as it can differ from that of the equations
+
+        Y = Y[:, [Y_names.index(name_i) for name_i in self.domain.dependent_objs.keys()]]
+
         to_register_ = None
 
         if self.solver == None or self.solver == 'ODEINT':
-- 
2.43.0


From 01ba194d049596666ce3191e4b30a5a13f79013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 36/88] fix: CVODE integrated from time zero instead of the
 initial time

---
 src/sloth/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f8fec2d..3525bff 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -749,6 +749,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        t0=initial_time,
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
@@ -757,7 +758,7 @@ class DSolver(Solver):
             exp_sim.atol=1e-10
             exp_sim.rtol=1e-10
 
-            time_points, Y = exp_sim.simulate(end_time, ncp_list=time_points)
+            time_points, Y = exp_sim.simulate(time_points[-1], ncp_list=time_points)
 
             time_points = np.array(time_points)
             Y = np.array(Y)
-- 
2.43.0


From 89d57afff9a5ffe90884af8f45e6e3ce5f6e4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 37/88] fix: the initial condition was applied at the first of
 the times for solution instead of the initial time

---
 src/sloth/solvers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 3525bff..22ae926 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -733,17 +733,19 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution, dtype=float)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
         if self.solver == None or self.solver == 'ODEINT':
 
+            # The initial condition is given for the initial time, which can be absent from the times for solution
+
             Y = solver( diffYinterfaceForScipySolvers,
                         Y_0,
-                        time_points,
+                        np.concatenate(([initial_time], time_points)),
                         **conf_args_
-                       )
+                       )[1:]
 
         if self.solver == 'CVODE':
 
-- 
2.43.0


From 711527288c469df6740be5645c522e96a96b5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:06 +0000
Subject: [PATCH 38/88] fix: a differential equation whose derivative is not
 isolated was integrated as another equation

---
 src/sloth/solvers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 22ae926..14e3b43 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -565,7 +565,19 @@ class DSolver(Solver):
         :rtype list(Equation):
         """
 
-        return self.problem.equation_block._equation_groups['differential']
+        diff_eqs = self.problem.equation_block._equation_groups['differential']
+
+        # The right-hand sides are integrated as the derivatives, thus the left-hand sides should contain nothing else
+
+        for eq_i in diff_eqs:
+
+            lhs_, rhs_ = [sp.sympify(side_i.symbolic_object) for side_i in eq_i.elementary_equation_expression or (eq_i.equation_expression, eq_i.equation_expression)]
+
+            if not isinstance(lhs_, sp.Derivative) or rhs_.has(sp.Derivative):
+
+                raise UnexpectedValueError("Equation in elementary form, with the derivative isolated in its left-hand side")
+
+        return diff_eqs
 
     def setUpDiffY(self):
 
-- 
2.43.0


From b3dc86b5ef5a6cf8f0118d47d1321ac31671ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 39/88] fix: compiled differential equations with Min and Max
 failed

---
 src/sloth/core/equation_block.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 5f75818..7b52a5c 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -174,9 +174,13 @@ class EquationBlock:
 
             if differential_form == 'elementary':
 
+                # The numpy reductions in which Min and Max are translated are not supported by numba, differently from the builtin functions
+
+                equations_ = [sp.sympify(eq_i).replace(sp.Min, sp.Function('min')).replace(sp.Max, sp.Function('max')) for eq_i in self._getEquationList(differential_form,side)]
+
                 fun_ = sp.lambdify(self._var_list,
-                                   self._getEquationList(differential_form,side),
-                                   [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
+                                   equations_,
+                                   [{'min':min, 'max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
                 return jit(fun_)
-- 
2.43.0


From e5971948a358756e0c1dd0e7b21a5c38c6c5ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 40/88] fix: a variable whose name ends as the time variable
 was taken for it

---
 src/sloth/core/equation_block.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 7b52a5c..9e2e6ac 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -270,35 +270,15 @@ class EquationBlock:
 
         else:
 
-            where_to_look = self._equations_list
+            where_to_look = self.equations
 
         for eq in where_to_look:
 
-            #print("\n======>Equation: ", eq._getSymbolicObject())
+            # The independent variable of 'Derivative' terms is not contained in the objects declared
 
-            try:
+            if any(var_i in eq.objects_declared for var_i in var_name):
 
-                equation_members_ = eq._getSymbolicObject().args
-
-            except:
-
-                equation_members_ = []
-
-            for eq_i in equation_members_:
-
-                #print("\n\t======>Member: ",eq_i)
-
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
-
-                    has_been_declared = True
-
-                    break
-
-            if has_been_declared is True:
+                has_been_declared = True
 
                 break
 
-- 
2.43.0


From 10b04773d0d24b8d1c925016548964455a287b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:29 +0000
Subject: [PATCH 41/88] fix: creating the DAE solver changed the group of
 linear equations of the problem

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 14e3b43..cd0bf79 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -919,7 +919,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
-- 
2.43.0


From eac90006fda734f2551a2480cf5aff3e063eb8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:30 +0000
Subject: [PATCH 42/88] fix: the time variable of the problem (a list) was not
 accepted by the DAE solver

---
 src/sloth/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index cd0bf79..29905b8 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -847,7 +847,15 @@ class DaeSolver(Solver):
 
         arg_names = additional_configurations['arg_names']
 
-        if time_variable_name not in problem.initial_conditions:
+        if isinstance(time_variable_name, list):
+
+            has_initial_time_condition_declared = all(t_i in problem.initial_conditions for t_i in time_variable_name)
+
+        else:
+
+            has_initial_time_condition_declared = time_variable_name in problem.initial_conditions
+
+        if has_initial_time_condition_declared is not True:
 
             raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
 
-- 
2.43.0


From 57fcc8c60a2852cbb49ba233aeee8b1dbea2cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 43/88] fix: the residual form of a DAE system mistook
 derivatives, time and algebraic variables depending on the order of equations
 and variables

---
 src/sloth/core/equation_block.py | 18 +++++++++++++++---
 src/sloth/solvers.py             |  8 ++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 9e2e6ac..43360ad 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,9 +96,15 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = [sp.Symbol("yd[{}]".format(i)) for (i,_) in enumerate(diff_list)]
+        # The independent variables are not part of y
 
-        var_list = self._var_list
+        ind_vars = [str(ind_i) for diff_i in diff_list for ind_i in diff_i.variables]
+
+        var_list = [var_i for var_i in self._var_list if var_i not in ind_vars]
+
+        # Each element of yd is the derivative of the element of y in the same position
+
+        yd_list = [sp.Symbol("yd[{}]".format(var_list.index(str(diff_i.args[0])))) for diff_i in diff_list]
 
         y_list = [sp.Symbol("y[{}]".format(i)) for (i,_) in enumerate(var_list)]
 
@@ -124,7 +130,7 @@ class EquationBlock:
 
             eq = eqi._getSymbolicObject('residual','rhs')
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            _ = [diff_list.append(i) for i in sorted(eq.atoms(sp.Derivative), key=str) if i not in diff_list]
 
         return diff_list
 
@@ -190,10 +196,16 @@ class EquationBlock:
 
                 yd_map, y_map = self._getMapForRewriteSystemAsResidual()
 
+                # The independent variable is the first argument of the function
+
+                t_map = {ind_i:sp.Symbol("t") for diff_i in yd_map for ind_i in diff_i.variables}
+
                 # Add y_map dict to yd_map
 
                 yd_map.update(y_map)
 
+                yd_map.update(t_map)
+
                 original_eqs = self._getEquationList(differential_form, side)
 
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 29905b8..6ea71af 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -955,11 +955,11 @@ class DaeSolver(Solver):
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        diff_names = [str(diff_i.args[0]) for diff_i in ydmap.keys()]
 
-        if self.solver == None or self.solver == 'IDA':
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in diff_names else 0. for var_i in ymap.keys()]
 
-            yd_0.append(0.)
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
@@ -970,7 +970,7 @@ class DaeSolver(Solver):
                                                 name='IDA'
                                         )
 
-            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForEquations()
+            problem_instance.algvar = [float(var_i in diff_names) for var_i in ymap.keys()]
 
             solver_instance = IDA(problem_instance)
 
-- 
2.43.0


From b055e3560d870192cdd46a026fb7a335cd96b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 44/88] fix: DAE trajectories were registered under the names
 of other variables when the domain is in a different order

---
 src/sloth/solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 6ea71af..80451b1 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -996,6 +996,10 @@ class DaeSolver(Solver):
 
             #================================================
 
+        # Arrange the columns in the order that the domain was distributed, as it can differ from that of the problem
+
+        Y = np.array(Y)[:, [list(ymap.keys()).index(name_i) for name_i in self.domain.dependent_objs.keys()]]
+
         to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
 
         if self.additional_configurations['print_output'] == True:
-- 
2.43.0


From 67a3b10b5e13d5e9146d9068ae5a66ca6f684887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 45/88] fix: a DAE system using time in an algebraic equation
 only was refused as under-specified

---
 src/sloth/analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index afc4fb8..a1fb4d7 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -82,7 +82,11 @@ class DOF_Analysis:
 
         """
 
-        has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name, "differential")
+        # The time variable can be declared in the algebraic equations of a DAE system as well
+
+        if len(self.problem.equation_block._equation_groups['differential']) > 0:
+
+            has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name)
 
         if has_time_var_declared_in_diff_eq is True:
 
-- 
2.43.0


From 3a6dcb5a333259f623fc5e0acf221faa5c9679f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 46/88] fix: plotTimeSeries without labels failed

---
 src/sloth/plotter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 59e92a8..9c9b352 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -61,6 +61,10 @@ class Plotter:
 
                 raise ValueError("Improper value for x_data or y_data. \n\tThey should be either a direct reference for simulation data or reference for domain values.")
 
+        if labels is None:
+
+            labels = [None]*len(y_data)
+
         if markers is not None:
 
             for i in range(len(x_data)):
-- 
2.43.0


From 4e9669b3a4cc4116b2795ebf87176b9acffa69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:09 +0000
Subject: [PATCH 47/88] fix: dynamic solvers added the time variable to the
 default arg_names of every simulation

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 80451b1..952df08 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -386,7 +386,7 @@ class DSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if isinstance(time_variable_name, list):
 
@@ -845,7 +845,7 @@ class DaeSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if isinstance(time_variable_name, list):
 
-- 
2.43.0


From 24bc86bbb18eda8b724af6ed4d28db2905504416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 48/88] fix: a configurations file which does not list every
 configuration could not be used

---
 src/sloth/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 7cfbd89..ca40d16 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -158,7 +158,7 @@ class Simulation:
 
             with open(configurations_file, "r") as read_file:
 
-                additional_conf = json.load(read_file)
+                additional_conf = {**default_simulation_configurations, **json.load(read_file)}
 
         elif definition_dict is not None and isinstance(definition_dict, dict):
 
-- 
2.43.0


From 47adb8772cd689a25d297995e74b47def349d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 49/88] fix: the time variable of the problem was not used for
 configurations given by a dictionary or file

---
 src/sloth/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index ca40d16..0810e28 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -166,9 +166,6 @@ class Simulation:
 
         else:
 
-            if time_variable_name is None and is_dynamic is True:
-                time_variable_name = self.problem.time_variable_name
-
             additional_conf = {'compile_equations': compile_equations,
                                'domain': domain,
                                'time_variable_name': time_variable_name,
@@ -197,6 +194,9 @@ class Simulation:
 
         # print("additional_conf is: %s"%additional_conf)
 
+        if additional_conf['time_variable_name'] is None and additional_conf['is_dynamic'] is True:
+            additional_conf['time_variable_name'] = self.problem.time_variable_name
+
         if number_parameters_to_optimize != 0 and additional_conf[
             'number_parameters_to_optimize'] != number_parameters_to_optimize:
             additional_conf['number_parameters_to_optimize'] = number_parameters_to_optimize
-- 
2.43.0


From 7a68cf7f733e83173b00638d16e22df39fa1ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 50/88] fix: simulations shared the containers of the default
 configurations

---
 src/sloth/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 0810e28..0ff8202 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -201,7 +201,9 @@ class Simulation:
             'number_parameters_to_optimize'] != number_parameters_to_optimize:
             additional_conf['number_parameters_to_optimize'] = number_parameters_to_optimize
 
-        self.configurations = additional_conf
+        # The containers are copied, as the default ones are shared by all the simulations
+
+        self.configurations = {k: v.copy() if isinstance(v, (dict, list)) else v for k, v in additional_conf.items()}
 
     def runSimulation(self, sanity_check=True, show_output_msg=True, show_final_residuals=True):
 
-- 
2.43.0


From c09939a0fe7b9831dad54ab295ce367b5a8ee4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 51/88] fix: the configurations of dynamic simulations could
 not be dumped

---
 src/sloth/simulation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 0ff8202..d4d95b1 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -460,8 +460,16 @@ class Simulation:
         if file_name is None:
             file_name = self.name + '-conf.json'
 
+        # The domain is not represented in JSON, thus should be provided along with the file when the configurations are loaded
+
+        configurations_ = {k: v for k, v in self.configurations.items() if k != 'domain'}
+
+        # Arrays are represented as lists
+
+        dump_ = json.dumps(configurations_, default=lambda obj_: obj_.tolist())
+
         with open(file_name, "w") as write_file:
-            json.dump(self.configurations, write_file)
+            write_file.write(dump_)
 
     def reset(self):
 
-- 
2.43.0


From 5f5590834b0d6b53f7f9e078190834bfc36314a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 52/88] fix: an optimization configuration file which does not
 list every configuration could not be used

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..508578c 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -267,7 +267,7 @@ class Optimization:
 
             with open(optimization_configuration, "r") as read_file:
 
-                self.optimization_configuration = json.load(read_file)
+                self.optimization_configuration = {**default_optimization_configuration, **json.load(read_file)}
 
         elif isinstance(optimization_configuration, dict):
 
-- 
2.43.0


From 4030be161a747b3451ac93872dab8fed1acb9fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 53/88] fix: is_maximization was ignored by optimizations

---
 src/sloth/optimization.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 508578c..99e7288 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -49,7 +49,7 @@ class OptimizationProblem:
 
         self.description = description
 
-        self.is_maximization = False
+        self.is_maximization = is_maximization
 
         self.bounds = None
 
@@ -124,11 +124,25 @@ class OptimizationProblem:
 
         pass
 
+    def _negativeObjectiveFunction(self, x):
+
+        """
+        Objective function with opposite sign, as the optimization mechanisms perform minimizations
+        """
+
+        return [-f_i for f_i in self.DeclareObjectiveFunction(x)]
+
     def __call__(self):
 
         #Reimplement virtual methods
 
-        self.fitness = self.DeclareObjectiveFunction
+        if self.is_maximization is True:
+
+            self.fitness = self._negativeObjectiveFunction
+
+        else:
+
+            self.fitness = self.DeclareObjectiveFunction
 
         self.get_bounds = self.DeclareSetBounds
 
@@ -538,6 +552,14 @@ class Optimization:
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
+            # Either the optimization or its problem can determine that the objective function is maximized
+
+            if self.is_maximization is True and self.optimization_problem.is_maximization is not True:
+
+                self.optimization_problem.is_maximization = True
+
+                self.optimization_problem()
+
             # Print information
 
             start_time = time()
@@ -554,7 +576,7 @@ class Optimization:
 
             self.best_parameters = pop.champion_x
 
-            self.best_fitness = pop.champion_f
+            self.best_fitness = -pop.champion_f if self.optimization_problem.is_maximization is True else pop.champion_f
 
             end_time = time()
 
@@ -608,7 +630,7 @@ class Optimization:
             print("\n\tOptimization ended. \n\t Elapsed time:{}".format(strftime("%H:%M:%S", gmtime(elapsed_time))))
 
             if print_output is True:
-                print("Best individual: \n%s -> finess: %s"%(pop.champion_x, pop.champion_f))
+                print("Best individual: \n%s -> finess: %s"%(self.best_parameters, self.best_fitness))
 
             self.run_sucessful=True
 
-- 
2.43.0


From ecdcdcf37292dcdca473b363fbe3a82d2a7a45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 54/88] fix: the bounds given to an OptimizationProblem were
 ignored

---
 src/sloth/optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 99e7288..dd0c593 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -51,7 +51,7 @@ class OptimizationProblem:
 
         self.is_maximization = is_maximization
 
-        self.bounds = None
+        self.bounds = bounds
 
         self.simulation_instance = simulation_instance
 
@@ -548,7 +548,9 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            self.optimization_problem.setBounds(self.constraints)
+            if self.constraints is not None:
+
+                self.optimization_problem.setBounds(self.constraints)
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
-- 
2.43.0


From 4c0fb7d03efc555099cc562229a8de044fa0cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 55/88] fix: molar and mass fractions of the unit operations
 were not exposed

---
 src/sloth/unit_op_library.py | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..83d8404 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -207,10 +207,10 @@ class Mixer(model.Model):
 
                 for phase_i in self.property_package.phase_names:
 
-                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -322,10 +322,10 @@ class Tank(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
 
@@ -437,10 +437,10 @@ class Valve(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -547,10 +547,10 @@ class SimplePump(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -617,10 +617,10 @@ class Heater(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -738,10 +738,10 @@ class Flash_Dynamic(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
@@ -841,12 +841,12 @@ class Flash_SteadyState(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
-                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
-- 
2.43.0


From 7e29c1702d298891348bf1262a47b6127de60338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 56/88] fix: Mixer, Splitter and SimplePump failed without a
 property package

---
 src/sloth/unit_op_library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 83d8404..108c1d8 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -226,7 +226,7 @@ class Mixer(model.Model):
 
         self.createEquation("mass_conservation", "Mass consevation", _mass_conservation)
 
-        if self.property_package.number_of_phases >=2:
+        if self.property_package is not None and self.property_package.number_of_phases >=2:
 
             _sum_molar_frac_in = -1.
             _sum_mass_frac_in = -1.
@@ -543,7 +543,7 @@ class SimplePump(model.Model):
 
         self.Delta_P = self.createParameter("Delta_P", Pa, "pressure drop", latex_text="{\\Delta P}")
 
-        if self.property_package.number_of_phases>=2:
+        if self.property_package is not None and self.property_package.number_of_phases>=2:
 
             for phase_i in self.property_package.phase_names:
 
@@ -575,7 +575,7 @@ class SimplePump(model.Model):
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        if self.property_package.number_of_phases>=2:
+        if self.property_package is not None and self.property_package.number_of_phases>=2:
 
             for phase_i in self.property_package.phase_names:
 
-- 
2.43.0


From b080ad57acacd44ff7f1f30db242c8d0279df899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 57/88] fix: a Valve for more than one phase could not be
 declared

---
 src/sloth/unit_op_library.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 108c1d8..0b78d9a 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -466,23 +466,31 @@ class Valve(model.Model):
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        mix_rho = self.createParameter("mix_rho",kg/(m**3),"Density for the mixture of components")
-
         if self.property_package.number_of_phases>=2:
 
-            mix_rho_ = 0.
+            #The density of the mixture depends on the mass fractions, which are variables
+
+            mix_rho_ = None
 
             for phase_i in self.property_package.phase_names:
 
-                mix_rho_ += eval("self.w_{}_out()*self.property_package['{}'].rho".format(phase_i, phase_i))
+                rho_i = self.createParameter("rho_{}".format(phase_i),kg/(m**3),"Density for {} phase".format(phase_i))
+
+                rho_i.setValue(self.property_package[phase_i].rho)
 
-            mix_rho.setValue(mix_rho_)
+                rho_contribution_i = eval("self.w_{}_out()".format(phase_i))*rho_i()
+
+                mix_rho_ = rho_contribution_i if mix_rho_ is None else mix_rho_ + rho_contribution_i
 
         else:
 
+            mix_rho = self.createParameter("mix_rho",kg/(m**3),"Density for the mixture of components")
+
             mix_rho.setValue(self.property_package["*"].rho)
 
-        _volumetric_flux = self.Qdot_out() - self.perc_open()*(self.mdot_out()/mix_rho())
+            mix_rho_ = mix_rho()
+
+        _volumetric_flux = self.Qdot_out() - self.perc_open()*(self.mdot_out()/mix_rho_)
 
         self.createEquation("vol_flux_balance", "Volumetric flux balance", _volumetric_flux)
 
-- 
2.43.0


From 4719315989c1e6404b3f63e631d6db7e31a97f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 58/88] fix: a Heater or Cooler for more than one phase could
 not be created

---
 src/sloth/unit_op_library.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 0b78d9a..6f1cb05 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -649,20 +649,18 @@ class Heater(model.Model):
         self.T_in  = self.createVariable("T_in", K, "temperature from input", latex_text="T_{in}", is_exposed=True, type='input')
         self.T_out = self.createVariable("T_out", K, "temperature from output", latex_text="T_{out}", is_exposed=True, type='output')
 
-        self.cp_mix = self.createParameter("cp_mix",J/(kg*K),"Mass specific capacity for the mixture of components")
-
         if self.property_package.number_of_phases>=2:
 
-            cp_mix_ = 0.
-
             for phase_i in self.property_package.phase_names:
 
-                cp_mix_ += eval("self.w_{}_out()*self.property_package['{}'].Cp".format(phase_i, phase_i))
+                exec("self.cp_{} = self.createParameter('cp_{}',J/(kg*K),'Mass specific capacity for {} phase')".format(phase_i, phase_i, phase_i))
 
-            self.cp_mix.setValue(mix_rho_)
+                eval("self.cp_{}".format(phase_i)).setValue(self.property_package[phase_i].Cp)
 
         else:
 
+            self.cp_mix = self.createParameter("cp_mix",J/(kg*K),"Mass specific capacity for the mixture of components")
+
             self.cp_mix.setValue(self.property_package["*"].Cp)
 
         #Assume heat rate (Q) for heating is positive
@@ -699,7 +697,23 @@ class Heater(model.Model):
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        _temperature_balance = self.T_out() - self.T_in() - (self.Q()/(self.mdot_out()*self.cp_mix()))
+        if self.property_package.number_of_phases>=2:
+
+            #The specific capacity of the mixture depends on the mass fractions, which are variables
+
+            cp_mix_ = None
+
+            for phase_i in self.property_package.phase_names:
+
+                cp_contribution_i = eval("self.w_{}_out()*self.cp_{}()".format(phase_i, phase_i))
+
+                cp_mix_ = cp_contribution_i if cp_mix_ is None else cp_mix_ + cp_contribution_i
+
+        else:
+
+            cp_mix_ = self.cp_mix()
+
+        _temperature_balance = self.T_out() - self.T_in() - (self.Q()/(self.mdot_out()*cp_mix_))
 
         self.createEquation("temperature_balance", "Temperature balance", _temperature_balance)
 
-- 
2.43.0


From 60d8d059eca17a8ef474c5c1cacf1a654bd39ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:11 +0000
Subject: [PATCH 59/88] fix: a Tank could not be declared (wrong attribute
 names and units)

---
 src/sloth/unit_op_library.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 6f1cb05..792c85e 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -347,7 +347,7 @@ class Tank(model.Model):
         self.H_out = self.createVariable("H_out", J/mol, "molar enthalpy output", latex_text="H_{out}", is_exposed=True, type='output')
         self.E = self.createVariable("E", J, "Internal energy", latex_text="E")
 
-        self.Q = self.createParameter("Q", J, "Heat rate", latex_text="Q", value=0.)
+        self.Q = self.createParameter("Q", J/s, "Heat rate", latex_text="Q", value=0.)
 
         self.E.distributeOnDomain(self.time_domain)
 
@@ -362,19 +362,23 @@ class Tank(model.Model):
 
     def DeclareEquations(self):
 
-        _molar_conservation = self.N.Diff(self.t) == self. self.ndot_in() - self.ndot_out()
+        _molar_conservation = self.N.Diff(self.t) == self.ndot_in() - self.ndot_out()
 
         self.createEquation("molar_conservation", "Molar consevation", _molar_conservation)
 
-        _mass_conservation = self.M.Diff(self.t) ==  self. self.mdot_in() - self.mdot_out()
+        _mass_conservation = self.M.Diff(self.t) == self.mdot_in() - self.mdot_out()
 
         self.createEquation("mass_conservation", "Mass conservation", _mass_conservation)
 
-        _energy_balance = self.E.Diff(self.t) == self.n_dot_in()*self.H_in() - self.n_dot_out()*self.H_out() + self.Q()
+        _energy_balance = self.E.Diff(self.t) == self.ndot_in()*self.H_in() - self.ndot_out()*self.H_out() + self.Q()
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        _level_balance = self.level.Diff(self.t) == (1./(self.property_package["*"].rho*self.area_sec()))*(self.mdot_in()-self.mdot_out())
+        rho = self.createParameter("rho", kg/(m**3), "Density of the liquid")
+
+        rho.setValue(self.property_package["*"].rho)
+
+        _level_balance = self.level.Diff(self.t) == (self.mdot_in()-self.mdot_out())/(rho()*self.area_sec())
 
         self.createEquation("_level_balance", "Liquid level balance", _level_balance)
 
-- 
2.43.0


From dc50b457757bc81e645c39e8b5a21dc6092bc453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 60/88] fix: property packages shared the default list of
 phases and the lists they were given

---
 src/sloth/core/property_package.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..c1b21f9 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,7 +21,7 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
+        self.phase_names = list(phase_names)
 
         self.T = 298.15
 
@@ -29,9 +29,9 @@ class PropertyPackage:
 
         self.phases = {phase_i: thermo.chemical.Chemical(phase_i, self.T, self.P) for phase_i in phase_names if phase_i is not None}
 
-        self.ws = ws
+        self.ws = list(ws) if ws is not None else None
 
-        self.zs = zs
+        self.zs = list(zs) if zs is not None else None
 
         self.mixture = None
 
-- 
2.43.0


From 4d5c12857f627803dc4675ed392a1c1b555260a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:14 +0000
Subject: [PATCH 61/88] fix: number_of_phases was not updated when property
 packages were combined

---
 src/sloth/core/property_package.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index c1b21f9..bdced97 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -61,6 +61,8 @@ class PropertyPackage:
 
                     self.phases.update({phase_i: pp.phases[phase_i]})
 
+            self.number_of_phases = max(self.number_of_phases, len(self.phase_names))
+
             return self
 
         else:
-- 
2.43.0


From 29011fe14635d05c8dd5a08b2610f9bfd510270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 62/88] fix: combined property packages shared the state of
 their chemicals

---
 src/sloth/core/property_package.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index bdced97..6777143 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -4,6 +4,8 @@
 Define ProperyPackage class, which holds the information about the species involved in the simulation, and act as a container for their properties
 """
 
+from copy import deepcopy
+
 import thermo
 from .error_definitions import *
 
@@ -59,7 +61,7 @@ class PropertyPackage:
 
                     self.phase_names.append(phase_i)
 
-                    self.phases.update({phase_i: pp.phases[phase_i]})
+                    self.phases.update({phase_i: deepcopy(pp.phases[phase_i])})
 
             self.number_of_phases = max(self.number_of_phases, len(self.phase_names))
 
-- 
2.43.0


From de1eae5dc85c6ebcd1b6849d5177839a6aea6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:16 +0000
Subject: [PATCH 63/88] fix: PropertyPackage.resolve_mixture used undefined
 names

---
 src/sloth/core/property_package.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6777143..d894c92 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -41,7 +41,15 @@ class PropertyPackage:
 
     def resolve_mixture(self):
 
-        self.mixture = thermo.mixture.Mixture(phase_names, ws, zs)
+        #The molar fractions are used only when no mass fractions were supplied
+
+        if self.ws is not None:
+
+            self.mixture = thermo.mixture.Mixture(self.phase_names, ws=self.ws, T=self.T, P=self.P)
+
+        else:
+
+            self.mixture = thermo.mixture.Mixture(self.phase_names, zs=self.zs, T=self.T, P=self.P)
 
         self.zs = self.mixture.zs
 
-- 
2.43.0


From ee817fc06ac5c09c45775018125d90fe5564fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:44 +0000
Subject: [PATCH 64/88] fix: multiphasic streams converted mass to molar flux
 with the molar mass of the last phase only

---
 src/sloth/unit_op_library.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 792c85e..b4cd723 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -149,6 +149,28 @@ class MultiphasicMaterialStream(model.Model):
             exec("self.z_{} = self.createParameter('z_{}',dimless,'Molar fraction for {} phase')".format(phase_i, phase_i, phase_i))
             exec("self.w_{} = self.createParameter('w_{}',dimless,'Mass fraction for {} phase')".format(phase_i, phase_i, phase_i))
 
+    def _getMolarMass(self):
+
+        """
+        Mean molar mass of the stream, from the molar or mass fractions that were specified
+        """
+
+        phases = self.property_package.phase_names
+
+        zs = [getattr(self, "z_{}".format(phase_i)) for phase_i in phases]
+
+        ws = [getattr(self, "w_{}".format(phase_i)) for phase_i in phases]
+
+        if all(z_i.is_specified for z_i in zs):
+
+            return sum(z_i.value*self.property_package[phase_i].MW for z_i, phase_i in zip(zs, phases))
+
+        if all(w_i.is_specified for w_i in ws):
+
+            return 1./sum(w_i.value/self.property_package[phase_i].MW for w_i, phase_i in zip(ws, phases))
+
+        return self.property_package["*"].MW
+
     def DeclareParameters(self):
 
         #try to set values if the property_package was defined
@@ -156,11 +178,11 @@ class MultiphasicMaterialStream(model.Model):
 
             if self.mdot.is_specified is True and self.ndot.is_specified is False:
 
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
+                self.ndot.setValue( self.mdot.value/(self._getMolarMass()*1e-3) )
 
             if self.mdot.is_specified is False and self.ndot.is_specified is True:
 
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+                self.mdot.setValue( self.ndot.value*self._getMolarMass()*1e-3 )
 
         #Recalculate property_package if T and P where provided
 
-- 
2.43.0


From d364a89da859b8dd6e2e244d765a8dc2b6c6a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 65/88] fix: a model with inlet streams was over-specified by
 equations fixing specified parameters

---
 src/sloth/model.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 03420e6..3355575 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -70,14 +70,10 @@ def _totalizeInletsFunction_genericMaterialStreams(main_model, set_P_by_min=True
 
         P_from_inputs = [stream.P() for stream in main_model._inlets]
 
-        _ = [main_model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in main_model._inlets]
-
         try:
 
             T_from_inputs = [stream.T() for stream in main_model._inlets]
 
-            _ = [main_model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in main_model._inlets]
-
         except:
 
             raise AbsentRequiredObjectError("(list of inlet streams with 'T' object defined)")
-- 
2.43.0


From 21b8a5c9ffb3a69ec1dbd2b668aca6bdf8cb0c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 66/88] fix: status of a simulation without results was never
 reported

---
 src/sloth/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index d4d95b1..58c1aa7 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -209,6 +209,10 @@ class Simulation:
 
         print_heading()
 
+        # The results of a previous run do not belong to the current one
+
+        self.output = None
+
         problem_type = self.configurations['problem_type']
 
         number_parameters_to_optimize = self.configurations['number_parameters_to_optimize']
@@ -294,7 +298,7 @@ class Simulation:
         Get the status of the current simulation (0 for sucess, >=1 for errors)
         """
 
-        if self.getResults() is not []:
+        if self.output is not None:
 
             self.status = 0
 
-- 
2.43.0


From 159feaf963740f90afc638ef1771664faaffd68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 67/88] fix: results of dynamic simulations without headers
 could not be shown

---
 src/sloth/simulation.py | 4 +++-
 src/sloth/solvers.py    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 58c1aa7..8d181db 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -326,7 +326,9 @@ class Simulation:
 
             tab = prettytable.PrettyTable()
 
-            tab.field_names = self.configurations['output_headers']
+            if self.configurations['output_headers'] is not None:
+
+                tab.field_names = self.configurations['output_headers']
 
             for i in range(len(time_points)):
                 tab.add_row(np.concatenate(([time_points[i]], Y[i, :])))
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 952df08..fb649fa 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -806,7 +806,9 @@ class DSolver(Solver):
 
             tab = prettytable.PrettyTable()
 
-            tab.field_names = self.additional_configurations['output_headers']
+            if self.additional_configurations['output_headers'] is not None:
+
+                tab.field_names = self.additional_configurations['output_headers']
 
             for i in range(len(time_points)):
 
@@ -1006,7 +1008,9 @@ class DaeSolver(Solver):
 
             tab = prettytable.PrettyTable()
 
-            tab.field_names = self.additional_configurations['output_headers']
+            if self.additional_configurations['output_headers'] is not None:
+
+                tab.field_names = self.additional_configurations['output_headers']
 
             for i in range(len(time_points)):
 
-- 
2.43.0


From fab32ceb340ac71fb91521ff7c91ad9a59a6b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 68/88] fix: accept the solution of a linear problem where the
 hybrid method has no progress left to make

---
 src/sloth/solvers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index fb649fa..a349f91 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -223,7 +223,12 @@ class LASolver(Solver):
 
         #print(sol_state)
 
-        if sol_state['success'] is True:
+        # The hybrid method also gives up when it is already in the solution, where there is no progress left to be made: only the residuals can tell it
+        residuals_tol = 1e-12*(1. + np.abs(eqSys.j_cb(x_out)).dot(np.maximum(np.abs(x_out), 1.)))
+
+        is_root = bool(np.all(np.abs(sol_state['fun']) <= residuals_tol))
+
+        if sol_state['success'] is True or is_root is True:
 
             x_out_dict = {str(var_i): val_i for var_i, val_i in zip(var_names,x_out)}
 
-- 
2.43.0


From 5b7ecaf973a6fe8534bbf79204ef1b46b277e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 69/88] fix: count every declared time variable in the degrees
 of freedom of problems that unite dynamic models

---
 src/sloth/analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index a1fb4d7..373422f 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -58,7 +58,7 @@ class DOF_Analysis:
 
         eq_reps = self.problem.equation_block._equations_list
 
-        has_time_var_declared_in_diff_eq = False
+        time_vars_declared = []
 
         """
         for eq in self.problem.equation_block._equation_groups['differential']:
@@ -86,11 +86,11 @@ class DOF_Analysis:
 
         if len(self.problem.equation_block._equation_groups['differential']) > 0:
 
-            has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name)
+            # Each of the models united by the problem can have its own time variable
 
-        if has_time_var_declared_in_diff_eq is True:
+            time_vars_declared = [t_i for t_i in self.problem.time_variable_name or [] if self.problem.equation_block._hasVarBeenDeclared(t_i)]
 
-            n_eqs += 1
+        n_eqs += len(time_vars_declared)
 
         n_dof = n_vars + n_unspec_params - n_eqs
 
-- 
2.43.0


From b4b8801c6e1d665824d99525abe3e7b85843eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 70/88] fix: a variable declared again stayed twice among the
 exposed variables of its model

---
 src/sloth/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 3355575..574d685 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -706,6 +706,11 @@ class Model:
 
         self.variables[var.name] = var
 
+        # A variable declared again (eg: in a new call of the model) takes the place of the previous one
+        for exposed_i in self.exposed_vars.values():
+
+            exposed_i[:] = [v_i for v_i in exposed_i if v_i.name != var.name]
+
         if is_exposed == True:
 
             self.exposed_vars[type].append(var)
-- 
2.43.0


From 593dc995ecc4a603c09a0c4cd956fc6636ee9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 71/88] fix: an equation was half changed by an incoherent
 relation that it refused

---
 src/sloth/core/equation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 55751de..1b6bda1 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -364,9 +364,12 @@ class Equation:
 
                 #If the RHS is an ENODE, pass it directly
 
+                # An incoherent expression is refused before anything is stored
+                residual_expression = equation_expression[0] - equation_expression[1]
+
                 self.elementary_equation_expression = tuple([equation_expression[0], equation_expression[1]])
 
-                self.equation_expression = equation_expression[0] - equation_expression[1]
+                self.equation_expression = residual_expression
 
             if isinstance(equation_expression[1], float) or isinstance(equation_expression[1], int):
 
-- 
2.43.0


From d6316dcde8a855e8bc451c00db22d11fe927ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 72/88] fix: an equation given a residual kept the sides and
 the form of its previous relation

---
 src/sloth/core/equation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 1b6bda1..b3d8a5e 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -396,6 +396,10 @@ class Equation:
 
             self.equation_expression = equation_expression
 
+            self.elementary_equation_expression = None
+
+            self.equation_form = 'residual'
+
             self._sweepObjects()
 
             self._getTypeFromExpression()
-- 
2.43.0


From 31aa907ee25f3ee6401854eb290ff24f0c016e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 73/88] fix: a variable incorporated again is exposed once

---
 src/sloth/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 574d685..85d2fba 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -418,6 +418,11 @@ class Model:
 
         self.variables[var_.name] = var_
 
+        # A variable incorporated again takes the place of the previous one
+        for exposed_i in self.exposed_vars.values():
+
+            exposed_i[:] = [v_i for v_i in exposed_i if v_i.name != var_.name]
+
         if var_.is_exposed == True:
 
             self.exposed_vars[var_.type].append(var_)
-- 
2.43.0


From 41d92faa1183ad2be958f37e1426f03dd8af62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 74/88] fix: a stream's flux follows from the other one as it
 is given now

---
 src/sloth/unit_op_library.py | 42 ++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index b4cd723..0ab705f 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -11,6 +11,30 @@ from .core.domain import *
 
 #from .unit_op import UnitOp, MaterialStream
 
+def _releaseDerivedFlux(stream):
+
+    """
+    A flux obtained from the other one in a previous declaration of the stream, and not changed by the user since, is to be obtained again
+    """
+
+    flux, value = getattr(stream, "_derived_flux", (None, None))
+
+    if flux is not None and flux.value == value:
+
+        flux.is_specified = False
+
+    stream._derived_flux = (None, None)
+
+def _setDerivedFlux(stream, flux, value):
+
+    """
+    Set the flux of a stream obtained from the other one
+    """
+
+    flux.setValue(value)
+
+    stream._derived_flux = (flux, value)
+
 class HomogeneousMaterialStream(model.Model):
 
     """
@@ -41,13 +65,15 @@ class HomogeneousMaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
+            _releaseDerivedFlux(self)
+
             if self.mdot.is_specified is True and self.ndot.is_specified is not True:
 
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
+                _setDerivedFlux(self, self.ndot, self.mdot.value/(self.property_package["*"].MW*1e-3))
 
             if self.mdot.is_specified is not True and self.ndot.is_specified is True:
 
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+                _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
         #Recalculate property_package if T and P where provided
 
@@ -95,13 +121,15 @@ class MaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
+            _releaseDerivedFlux(self)
+
             if self.mdot.is_specified is True and self.ndot.is_specified is False:
 
-                self.ndot.setValue( self.mdot.value/(self.property_package["*"].MW*1e-3) )
+                _setDerivedFlux(self, self.ndot, self.mdot.value/(self.property_package["*"].MW*1e-3))
 
             if self.mdot.is_specified is False and self.ndot.is_specified is True:
 
-                self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
+                _setDerivedFlux(self, self.mdot, self.ndot.value*self.property_package["*"].MW*1e-3)
 
         #Recalculate property_package if T and P where provided
 
@@ -176,13 +204,15 @@ class MultiphasicMaterialStream(model.Model):
         #try to set values if the property_package was defined
         if self.property_package is not None:
 
+            _releaseDerivedFlux(self)
+
             if self.mdot.is_specified is True and self.ndot.is_specified is False:
 
-                self.ndot.setValue( self.mdot.value/(self._getMolarMass()*1e-3) )
+                _setDerivedFlux(self, self.ndot, self.mdot.value/(self._getMolarMass()*1e-3))
 
             if self.mdot.is_specified is False and self.ndot.is_specified is True:
 
-                self.mdot.setValue( self.ndot.value*self._getMolarMass()*1e-3 )
+                _setDerivedFlux(self, self.mdot, self.ndot.value*self._getMolarMass()*1e-3)
 
         #Recalculate property_package if T and P where provided
 
-- 
2.43.0


From 3980543ee62a3574cc1b84a7d9cb6e0bdb739e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 75/88] fix: differential-algebraic simulations give the
 solution at the times asked for

---
 src/sloth/solvers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index a349f91..ecde26e 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -954,7 +954,13 @@ class DaeSolver(Solver):
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-        time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+        if conf_args['times_for_solution'] is None:
+
+            time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+
+        else:
+
+            time_points = np.array(conf_args['times_for_solution'], dtype=float).tolist()
 
         ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
 
@@ -999,7 +1005,9 @@ class DaeSolver(Solver):
 
             solver_instance.verbosity = verbosity_levels[conf_args['verbosity_solver']]
 
-            Time, Y, Yd = solver_instance.simulate(end_time, 0, time_points)
+            Time, Y, Yd = solver_instance.simulate(time_points[-1], 0, time_points)
+
+            time_points = list(Time)
 
             #================================================
 
-- 
2.43.0


From 43db6fbfc89b359494ef94ed080970bba7afe396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 76/88] fix: a power whose exponent contains a derivative is
 differential

---
 src/sloth/core/expression_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index feff7c1..3a2a505 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -549,7 +549,7 @@ class EquationNode:
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
 
-                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
                 return(enode_)
 
-- 
2.43.0


From 2c0fc91f2fa9fc5bcc033c82ddcd08d70581b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 77/88] fix: names of quantities and models need not be
 identifiers

---
 src/sloth/core/equation.py       | 2 +-
 src/sloth/core/equation_block.py | 4 ++--
 src/sloth/core/quantity.py       | 6 +++---
 src/sloth/solvers.py             | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index b3d8a5e..400d93c 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -273,7 +273,7 @@ class Equation:
 
         #print("\nEquation line#166\n\neq_keys=%s equation_expression = %s"%(eq_keys, str(equation_expression_)))
 
-        func = sp.lambdify(eq_keys, equation_expression_.symbolic_object, compilation_mechanism)
+        func = sp.lambdify([sp.Symbol(key_i) for key_i in eq_keys], equation_expression_.symbolic_object, compilation_mechanism)
 
         return func
 
diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 43360ad..4329750 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -184,7 +184,7 @@ class EquationBlock:
 
                 equations_ = [sp.sympify(eq_i).replace(sp.Min, sp.Function('min')).replace(sp.Max, sp.Function('max')) for eq_i in self._getEquationList(differential_form,side)]
 
-                fun_ = sp.lambdify(self._var_list,
+                fun_ = sp.lambdify([sp.Symbol(var_i) for var_i in self._var_list],
                                    equations_,
                                    [{'min':min, 'max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
@@ -223,7 +223,7 @@ class EquationBlock:
 
         else:
 
-            fun_ = sp.lambdify(self._var_list,
+            fun_ = sp.lambdify([sp.Symbol(var_i) for var_i in self._var_list],
                                self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index faec8f6..8adfa0d 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -119,12 +119,12 @@ class Quantity:  # New-style class syntax
         if self.is_specified == False:
 
             return EquationNode(name=self.name,
-                                symbolic_object=sp.symbols(self.name),
+                                symbolic_object=sp.Symbol(self.name),
                                 symbolic_map={self.name:self},
                                 variable_map={self.name:self},
                                 unit_object=self.units,
                                 latex_text=self.latex_text,
-                                repr_symbolic=sp.symbols(self.name)
+                                repr_symbolic=sp.Symbol(self.name)
                                 )
 
         # If the object is specified (eg:specified param)
@@ -137,7 +137,7 @@ class Quantity:  # New-style class syntax
                                 variable_map={},
                                 unit_object=self.units,
                                 latex_text=self.latex_text,
-                                repr_symbolic=sp.symbols(self.name)
+                                repr_symbolic=sp.Symbol(self.name)
                                 )
 
     def __add__(self, other_obj):
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index ecde26e..0f14e68 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -183,7 +183,7 @@ class LASolver(Solver):
 
         var_names = [str(i) for i in self.problem.equation_block._var_list]
 
-        x_out = sp_solve(self.problem.equation_block._equations_list, var_names, dict=True)
+        x_out = sp_solve(self.problem.equation_block._equations_list, [sp.Symbol(i) for i in var_names], dict=True)
 
         return x_out[-1]
 
@@ -217,7 +217,7 @@ class LASolver(Solver):
 
             initial_guess = [self.additional_configurations['initial_guess'][v_i] for v_i in var_names]
 
-        eqSys = SymbolicSys(var_names, equations_list)
+        eqSys = SymbolicSys([sp.Symbol(i) for i in var_names], equations_list)
 
         x_out, sol_state = eqSys.solve(initial_guess, solver='scipy', tol=1e-12, method='hybr')
 
@@ -296,7 +296,7 @@ class NLASolver(Solver):
 
         equations_list = self.problem.equation_block._equations_list
 
-        x_out = sp.solve(equations_list, var_names, dict=True)
+        x_out = sp.solve(equations_list, [sp.Symbol(i) for i in var_names], dict=True)
 
         return x_out[-1]
 
-- 
2.43.0


From 44d6f022098529531bc0ce748d7d5c4dfb4de18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 78/88] fix: Min and Max were simplified wrongly when names
 were replaced or values given

---
 src/sloth/core/equation.py           | 39 +++++++++++++++++++++++-----
 src/sloth/core/equation_block.py     |  6 ++++-
 src/sloth/core/equation_operators.py |  4 +--
 src/sloth/solvers.py                 |  3 ++-
 4 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 400d93c..f836460 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -22,6 +22,25 @@ def gen_rnd_str():
     _uid.uid += 1
     return str((_uid.tid, _uid.uid)[1])
 
+def replaceSymbols(expression, symbols_map):
+
+    """
+    Replace the symbols of a symbolic expression. A minimum or maximum is kept as it is, because simplifying it for operands of unknown value may change its meaning.
+
+    :param sympy.Expr expression:
+        Symbolic expression
+
+    :param dict symbols_map:
+        Map from the current to the new symbolic objects
+
+    :return:
+        The symbolic expression in the new symbols
+    """
+
+    with sp.evaluate(not expression.has(sp.Min, sp.Max)):
+
+        return expression.xreplace(symbols_map)
+
 class Equation:
 
     """
@@ -294,21 +313,21 @@ class Equation:
 
         symbols_map = {sp.Symbol(old_name): sp.Symbol(new_name) for old_name, new_name in names_map.items()}
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.xreplace(symbols_map)
+        self.equation_expression.repr_symbolic = replaceSymbols(self.equation_expression.repr_symbolic, symbols_map)
 
-        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).xreplace(symbols_map)
+        self.equation_expression.symbolic_object = replaceSymbols(sp.sympify(self.equation_expression.symbolic_object), symbols_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).xreplace(symbols_map)
+            elem_expr[0].repr_symbolic = replaceSymbols(sp.sympify(elem_expr[0].repr_symbolic), symbols_map)
 
-            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).xreplace(symbols_map)
+            elem_expr[1].repr_symbolic = replaceSymbols(sp.sympify(elem_expr[1].repr_symbolic), symbols_map)
 
             try:
 
-                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.xreplace(symbols_map)
+                elem_expr[0].symbolic_object = replaceSymbols(elem_expr[0].symbolic_object, symbols_map)
 
             except:
 
@@ -316,7 +335,7 @@ class Equation:
 
             try:
 
-                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.xreplace(symbols_map)
+                elem_expr[1].symbolic_object = replaceSymbols(elem_expr[1].symbolic_object, symbols_map)
 
             except:
 
@@ -458,10 +477,16 @@ class Equation:
 
             res = equation_expression_.symbolic_object
 
-        else:
+        elif equation_expression_.symbolic_object.has(sp.Derivative):
 
             res = equation_expression_.symbolic_object.subs(eval_map).evalf()
 
+        else:
+
+            # All the values at once: with values for some operands only, minimum and maximum could be simplified wrongly
+
+            res = equation_expression_.symbolic_object.xreplace({sp.Symbol(str(i)): sp.sympify(j) for i, j in eval_map.items()}).evalf()
+
         return res
 
     def getResidual(self):
diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 4329750..b183a31 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -8,6 +8,8 @@ from numpy import array as np_array
 from collections import OrderedDict
 from numba import jit
 
+from .equation import replaceSymbols
+
 class EquationBlock:
 
     """
@@ -208,7 +210,9 @@ class EquationBlock:
 
                 original_eqs = self._getEquationList(differential_form, side)
 
-                rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
+                yd_map = {sp.Symbol(k) if isinstance(k, str) else k:v for k,v in yd_map.items()}
+
+                rewritten_eqs = [replaceSymbols(sp.sympify(eq_i), yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
                                    rewritten_eqs,
diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 4ac2ec5..009e6ab 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -194,7 +194,7 @@ def Min(*obj):
         raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
-                          symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
+                          symbolic_object=sp.Min(*obj_symb_objcts, evaluate=(obj_var_map == {})),
                           symbolic_map=obj_symb_map,
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
@@ -292,7 +292,7 @@ def Max(*obj):
         raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
-                          symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
+                          symbolic_object=sp.Max(*obj_symb_objcts, evaluate=(obj_var_map == {})),
                           symbolic_map=obj_symb_map,
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 0f14e68..5212052 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -20,6 +20,7 @@ from assimulo.solvers import IDA
 from pyneqsys.symbolic import SymbolicSys
 from scipy.linalg import solve as scp_solve
 
+from .core.equation import replaceSymbols
 from .core.equation_operators import *
 from .core.error_definitions import AbsentRequiredObjectError, UnexpectedValueError, NumericalError
 
@@ -335,7 +336,7 @@ class NLASolver(Solver):
         # The unknowns are real, which is needed for the derivative of functions like Abs
         symbols_ = {sp.Symbol(v_i): sp.Symbol(v_i, real=True) for v_i in var_names}
 
-        eqSys = SymbolicSys(list(symbols_.values()), [sp.sympify(eq_i).xreplace(symbols_) for eq_i in equations_list])
+        eqSys = SymbolicSys(list(symbols_.values()), [replaceSymbols(sp.sympify(eq_i), symbols_) for eq_i in equations_list])
 
         #REMOVE ME:print("\n ->initial_guess={}".format(initial_guess))
 
-- 
2.43.0


From 2eb07f22d38dd92f8c8e9b5291a5a0a17fdf89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 79/88] fix: DAE simulations over short times with no number of
 steps given reach the end time

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 5212052..e18195c 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -953,7 +953,7 @@ class DaeSolver(Solver):
 
         if number_of_time_steps == None and end_time != None:
 
-            number_of_time_steps = int(2*(end_time - initial_time))
+            number_of_time_steps = max(1, int(2*(end_time - initial_time)))
 
         if conf_args['times_for_solution'] is None:
 
-- 
2.43.0


From 42eac5e194436ebddfcde75de4ebfc1a6ce9520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 80/88] fix: an optimization run with a reporting frequency or
 a graph ends with its log and graph

---
 src/sloth/optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index dd0c593..3f06f8d 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -417,7 +417,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm = pg.de
 
-                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'F', 'CR', 'dx', 'df']
+                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'dx', 'df']
 
                 algo = pg.algorithm(pg.de(gen=gen, F=f_w, CR = cr, variant=de_variant, ftol=de_ftol, xtol=de_xtol))
 
@@ -552,7 +552,9 @@ class Optimization:
 
                 self.optimization_problem.setBounds(self.constraints)
 
-            self.optimization_mechanism.set_verbosity(report_frequency)
+            # The log from which the graph is drawn is only kept with some verbosity
+
+            self.optimization_mechanism.set_verbosity(1 if save_optimization_graph is True and report_frequency == 0 else report_frequency)
 
             # Either the optimization or its problem can determine that the objective function is maximized
 
@@ -584,7 +586,7 @@ class Optimization:
 
             elapsed_time = end_time - start_time
 
-            if optimization_log is True:
+            if optimization_log is True or save_optimization_graph is True:
 
                 self.optimization_log = self.optimization_mechanism.extract(self._pagmo_selected_algorithm).get_log()
 
-- 
2.43.0


From 7a0d95c1b47470c71f953bc0fe2cba398cbb0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:20 +0000
Subject: [PATCH 81/88] fix: the log and the graph of a maximization show the
 objective function, and a graph without logged improvements is drawn

---
 src/sloth/optimization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 3f06f8d..890758e 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -592,6 +592,14 @@ class Optimization:
 
                 self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns)
 
+                if self.optimization_problem.is_maximization is True:
+
+                    # The algorithm minimizes the negative of the objective function
+
+                    objective_columns = [col_i for col_i in self.optimization_log.columns if col_i in ('Best', 'gbest', 'Mean lbest')]
+
+                    self.optimization_log[objective_columns] = -self.optimization_log[objective_columns]
+
             if save_optimization_graph is True:
 
                 generations = np.array(self.getOptimizationLog().loc[:, "Gen"].values.tolist(), dtype=int)
@@ -609,7 +617,7 @@ class Optimization:
 
                 function_evaluations = np.array(self.getOptimizationLog().loc[:, "Fevals"].values.tolist(), dtype=int)
 
-                plt.xlim(0, max(function_evaluations))
+                plt.xlim(0, max(function_evaluations, default=1))
 
                 curr_time = datetime.now()
 
-- 
2.43.0


From ad197121fb226deb7b4375143c7b9ef86b70721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 82/88] fix: the neighbourhood options of a particle swarm
 optimization reach the algorithm

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 890758e..c668cdb 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -454,7 +454,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']
 
-                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant))
+                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant, neighb_type=neighb_type, neighb_param=neighb_param))
 
                 #isl = pg.island(algo, self.optimization_problem, ind)
 
-- 
2.43.0


From edb6b39dd2578c40dcfc9529b3abfdd4147356e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 83/88] fix: a simulation owns the arrays and nested containers
 of its configurations too

---
 src/sloth/simulation.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 8d181db..f662374 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -18,6 +18,27 @@ from .core.quantity import Quantity
 from .print_headings import print_heading
 
 
+def _copyOfContainers(value):
+
+    """
+    Return a copy of a configuration value, containers within containers included (and the objects that they hold, as they are)
+    """
+
+    if isinstance(value, dict):
+
+        return {k: _copyOfContainers(v) for k, v in value.items()}
+
+    if isinstance(value, list):
+
+        return [_copyOfContainers(v) for v in value]
+
+    if isinstance(value, np.ndarray):
+
+        return value.copy()
+
+    return value
+
+
 class Simulation:
     """
     Simulation class definition
@@ -203,7 +224,7 @@ class Simulation:
 
         # The containers are copied, as the default ones are shared by all the simulations
 
-        self.configurations = {k: v.copy() if isinstance(v, (dict, list)) else v for k, v in additional_conf.items()}
+        self.configurations = _copyOfContainers(additional_conf)
 
     def runSimulation(self, sanity_check=True, show_output_msg=True, show_final_residuals=True):
 
-- 
2.43.0


From 913c538cb01bb21eba9fc876c5235de654de8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:30 +0000
Subject: [PATCH 84/88] fix: unnamed equations of a model accumulated at each
 declaration

Declared again, an equation without a name was given a new one, so a problem resolved twice held both, the older with the former values of parameters.
---
 src/sloth/model.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 85d2fba..9c9e1e6 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -181,6 +181,14 @@ class Model:
         except:
             self.equations = {}
 
+        #Keys of the equations made without a name, and of those made in the last declaration
+        try:
+            len(self._unnamed_equations)
+        except:
+            self._unnamed_equations = []
+
+        self._redeclared_equations = []
+
         try:
             len(self.connections)
         except:
@@ -560,8 +568,18 @@ class Model:
 
             self.totalizeInletsFunction(main_model=self)
 
+        nb_unnamed = len(self._unnamed_equations)
+
         self.DeclareEquations()
 
+        if len(self._unnamed_equations) > nb_unnamed:
+
+            #Each unnamed equation was given a new name: discard those of the previous declaration
+
+            _ = [self.equations.pop(eq_i, None) for eq_i in self._redeclared_equations]
+
+            self._redeclared_equations = self._unnamed_equations[nb_unnamed:]
+
         if len(self.variables) == 0 and self.ignore_variable_warning is False:
 
             print("Warning: No variables were declared.")
@@ -851,6 +869,10 @@ class Model:
 
         eq._sweepObjects()
 
+        if name == "":
+
+            self._unnamed_equations.append(eq.name)
+
         #Check if all objects used in the current equation were declared
 
         if check_equation is True:
-- 
2.43.0


From 456c1842ebc703d4713f709f952c5d38ca55c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 85/88] fix: constraints given as a dictionary, as documented,
 failed in an optimization

The dictionary was handed over as it is; its lower and upper values are now given to the problem in the order of the parameters.
---
 src/sloth/optimization.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index c668cdb..d8ea600 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -550,7 +550,17 @@ class Optimization:
 
             if self.constraints is not None:
 
-                self.optimization_problem.setBounds(self.constraints)
+                if isinstance(self.constraints, dict):
+
+                    #Lower and upper values for each parameter, in the order of the parameters
+
+                    param_names = [i if isinstance(i,str) else i.name for i in self.optimization_parameters]
+
+                    self.optimization_problem.setBounds(tuple([self.constraints[name_i][k] for name_i in param_names] for k in (0,1)))
+
+                else:
+
+                    self.optimization_problem.setBounds(self.constraints)
 
             # The log from which the graph is drawn is only kept with some verbosity
 
-- 
2.43.0


From 03e6185c322bc18f165cd858111ba79b0ab550b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 86/88] fix: the symbolic nonlinear solver reported complex
 solutions

It took the last solution whatever it was, so x**3 == 8 gave -1+1.73i, and the real roots of other cubics carried an imaginary rounding error that getResults and showResults failed on. Without any real solution a NumericalError is raised.
---
 src/sloth/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index e18195c..44ad8ff 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -299,7 +299,15 @@ class NLASolver(Solver):
 
         x_out = sp.solve(equations_list, [sp.Symbol(i) for i in var_names], dict=True)
 
-        return x_out[-1]
+        # The variables are real: complex solutions are left out, as well as the rounding errors in the imaginary part of real ones
+
+        x_out = [x_i for x_i in x_out if all(not v_i.is_number or abs(sp.im(v_i.evalf())) <= 1e-8*(1. + abs(v_i.evalf())) for v_i in x_i.values())]
+
+        if len(x_out) == 0:
+
+            raise NumericalError()
+
+        return {k_i: v_i if v_i.is_real or not v_i.is_number else sp.re(v_i.evalf()) for k_i, v_i in x_out[-1].items()}
 
     def _symbolicSysSolveMechanism(self):
 
-- 
2.43.0


From c70acb5f7a4532f2cc273f00297e926cc0bd5d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:25 +0000
Subject: [PATCH 87/88] fix: a failed integration of differential equations was
 reported as a result

odeint only warns when it gives up, and leaves arbitrary numbers in the remaining rows; they were registered and the run reported as successful. A NumericalError is raised, as by the other solvers.
---
 src/sloth/solvers.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 44ad8ff..d0668e6 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -5,6 +5,7 @@ Define solver mechanisms
 """
 
 from collections import OrderedDict
+import warnings
 
 import prettytable
 import numpy as np
@@ -767,11 +768,23 @@ class DSolver(Solver):
 
             # The initial condition is given for the initial time, which can be absent from the times for solution
 
-            Y = solver( diffYinterfaceForScipySolvers,
-                        Y_0,
-                        np.concatenate(([initial_time], time_points)),
-                        **conf_args_
-                       )[1:]
+            # A failed integration is only warned about, and leaves arbitrary values from then on
+
+            try:
+
+                with warnings.catch_warnings():
+
+                    warnings.simplefilter('error', integrate.ODEintWarning)
+
+                    Y = solver( diffYinterfaceForScipySolvers,
+                                Y_0,
+                                np.concatenate(([initial_time], time_points)),
+                                **conf_args_
+                               )[1:]
+
+            except integrate.ODEintWarning:
+
+                raise NumericalError()
 
         if self.solver == 'CVODE':
 
-- 
2.43.0


From fbeda9e09caed7ef80bde8f5df57caadebe98bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:53 +0000
Subject: [PATCH 88/88] fix: equations without a name and connections from no
 model created by different threads got the same names and replaced each other

---
 src/sloth/core/equation.py | 14 +++++++++-----
 src/sloth/problem.py       | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index f836460..7049075 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -11,16 +11,20 @@ from .error_definitions import UnexpectedValueError, AbsentRequiredObjectError,
 import sympy as sp
 #import symengine as sp
 import threading
+from types import SimpleNamespace
 
-_uid = threading.local()
+# Shared by all the threads: the names have to be different also for objects that are created in different threads
+_uid = SimpleNamespace(uid=0)
+
+_uid_lock = threading.Lock()
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
+    _uid_lock.acquire()
     _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    uid = _uid.uid
+    _uid_lock.release()
+    return str(uid)
 
 def replaceSymbols(expression, symbols_map):
 
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 01e844b..d5e7137 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -16,16 +16,20 @@ from .analysis import Analysis
 #from .graph_creator import ConnectionGraph
 
 import threading
+from types import SimpleNamespace
 
-_uid = threading.local()
+# Shared by all the threads: the names have to be different also for objects that are created in different threads
+_uid = SimpleNamespace(uid=0)
+
+_uid_lock = threading.Lock()
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
+    _uid_lock.acquire()
     _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    uid = _uid.uid
+    _uid_lock.release()
+    return str(uid)
 
 class Problem:
 
-- 
2.43.0

