From 03fd3217aa5c6cbdcaa8dbf1bc58e2d4266e57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 01/51] fix: message of variable_index_out_of_bounds_exception
 pointed into a destroyed string

---
 viennamath/exception.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..57c14a6 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -122,19 +122,20 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
+    const char * what() const throw() { return message_.c_str(); }
 
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size)
+      {
+        std::stringstream ss;
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id << ", vector_size=" << vector_size << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw () {}
 
     private:
-      long id_;
-      long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From dbe6bf3c046d7cd0f52769ee233047243bb862b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 02/51] fix: rt_interval::operator= did not return a value

---
 viennamath/runtime/interval.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..ed1d9ba 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -56,6 +56,7 @@ namespace viennamath
       {
         lower_ = other.lower().get()->clone();
         upper_ = other.upper().get()->clone();
+        return *this;
       };
 
     private:
-- 
2.43.0


From c6f2ed34785d7d02594d0b9edb98df41129ea3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 03/51] fix: derivative of a gradient leaked the differentiated
 operand

---
 viennamath/manipulation/detail/unary_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..e71e03d 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -656,7 +656,7 @@ namespace viennamath
 
       // return grad(...)
       delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr, new op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
-- 
2.43.0


From cccbfc806718e189a2af3e5a81bc69a04d47f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 04/51] fix: exp() was missing for runtime unary expressions

---
 viennamath/manipulation/detail/unary_operations.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index e71e03d..5c727fe 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -77,6 +77,13 @@ namespace viennamath
     return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_exp<default_numeric_type> >());
   }
 
+  /** @brief Overload of the exponential function for a ViennaMath runtime unary expression */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> exp(rt_unary_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the exponential function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_binary_expr<InterfaceType> const & other)
-- 
2.43.0


From 7aa9b5ebc79ce14ef526b9ff6581eee26b5e3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 05/51] fix: grad() was missing for expression wrappers and
 binary expressions, laplace(expr) did not compile

---
 .../manipulation/detail/unary_operations.hpp       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index 5c727fe..9c7181d 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -677,6 +677,20 @@ namespace viennamath
     return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
+  /** @brief Overload of the gradient function for a ViennaMath runtime expression wrapper */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> grad(rt_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
+  /** @brief Overload of the gradient function for a ViennaMath runtime binary expression */
+  template <typename InterfaceType>
+  rt_unary_expr<InterfaceType> grad(rt_binary_expr<InterfaceType> const & other)
+  {
+    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
+  }
+
   /** @brief Overload of the gradient function for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> grad(rt_unary_expr<InterfaceType> const & other)
-- 
2.43.0


From e87b84f6773a792f03543aa12ad9b7217620649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 06/51] fix: rt_vector_expr::deep_equal ignored the sizes and
 read out of bounds

---
 viennamath/runtime/vector_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..bc249db 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -139,9 +139,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
-          bool is_equal = true;
+          bool is_equal = (BaseType::size() == temp->size());
 
-          for (std::size_t i=0; i<temp->size(); ++i)
+          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
             is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );
 
 
-- 
2.43.0


From 2383b998478f8f90be7c9141bcb1649b6a67b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 07/51] fix: rt_vector_expr did not override the simplification
 interface

---
 viennamath/runtime/vector_expr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index bc249db..4827766 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -189,21 +189,21 @@ namespace viennamath
       };
 
       /** @brief Returns the optimized expression (constants collected, trivial operations removed, etc.) */
-      InterfaceType * optimize() const
+      InterfaceType * simplify() const
       {
         self_type * result = new self_type(BaseType::size());
 
         for (std::size_t i=0; i<result->size(); ++i)
-          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->optimize());
+          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->simplify());
 
         return result;
       }
 
       /** @brief Returns true if the expression can be simplified by collecting constants, removing trivial operations, etc. */
-      bool optimizable() const
+      bool can_simplify() const
       {
         for (std::size_t i=0; i<BaseType::size(); ++i)
-          if ( (*this)[i].get()->optimizable() == true )
+          if ( (*this)[i].get()->can_simplify() == true )
             return true;
 
         return false;
-- 
2.43.0


From 57e1e02150e6be9b998da9f96eedc7ead87cca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 08/51] fix: traversal of unary expressions ignored step_into

---
 viennamath/runtime/unary_expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..acc9b18 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -330,7 +330,8 @@ namespace viennamath
       void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
       {
         fw(this);
-        expr_->recursive_traversal(fw);
+        if (fw.step_into(this))
+          expr_->recursive_traversal(fw);
       }
 
     private:
-- 
2.43.0


From 0ca9309c3557bdee9f65fc8f50edf98c60617353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 09/51] fix: traversal and manipulation never reached the
 components of vector expressions

---
 viennamath/runtime/vector_expr.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index 4827766..4511bc4 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -220,6 +220,30 @@ namespace viennamath
         return result;
       }
 
+      /** @brief Recursively manipulates the expression. If this expression is manipulated, the result is returned directly. Otherwise, the manipulator continues with each component. The returned object must be deleted by the caller. */
+      InterfaceType * recursive_manipulation(rt_manipulation_wrapper<InterfaceType> const & fw) const
+      {
+        if (fw.modifies(this))
+          return fw(this);
+
+        self_type * result = new self_type(BaseType::size());
+
+        for (std::size_t i=0; i<result->size(); ++i)
+          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->recursive_manipulation(fw));
+
+        return result;
+      }
+
+      /** @brief Recursively traverses the expression by calling the wrapper for each object without manipulating it. */
+      void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
+      {
+        fw(this);
+        if (fw.step_into(this))
+        {
+          for (std::size_t i=0; i<BaseType::size(); ++i)
+            (*this)[i].get()->recursive_traversal(fw);
+        }
+      }
 
   };
 
-- 
2.43.0


From abc389a3f4730aa1580a871a16b9cb309771cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 10/51] fix: integrals over different domains or variables
 compared equal

---
 viennamath/runtime/integral.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..1878077 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -94,6 +94,16 @@ namespace viennamath
       viennamath::rt_variable<InterfaceType> integration_variable_;
   };
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two integral operations for equality of the integration domain and the integration variable */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get())
+           && lhs.variable().deep_equal(&rhs.variable());
+  }
+
 
 
   //
@@ -185,6 +195,14 @@ namespace viennamath
       viennamath::rt_symbolic_interval<InterfaceType> interval_;
   };
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two symbolic integral operations for equality of the integration domain */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
 
   //
   // Convenience functions with symbolic integrals
-- 
2.43.0


From 45a3c01d21bcaa43ffa020911f915eff0249566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 11/51] fix: assignment of an empty rt_expr dereferenced a null
 pointer

---
 viennamath/runtime/expr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..26c42ea 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,10 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        if (other.get() != NULL)
+          rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        else
+          rt_expr_.reset();
         return *this;
       }
 
-- 
2.43.0


From a935a1c435cc36c3118307343c024c0ce3b7a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 12/51] fix: copying a default-constructed
 rt_numerical_quadrature dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..1f6911e 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -116,13 +116,20 @@ namespace viennamath
 
 
       // Copy CTOR:
-      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_->clone()) {}
+      rt_numerical_quadrature(const rt_numerical_quadrature & other)
+      {
+        if (other.quadrature_rule_.get() != NULL)
+          quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+      }
 
 
       // Copy CTOR:
       rt_numerical_quadrature & operator=(const rt_numerical_quadrature & other)
       {
-        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+        if (other.quadrature_rule_.get() != NULL)
+          quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+        else
+          quadrature_rule_.reset();
         return *this;
       }
 
-- 
2.43.0


From 92837478cd19a483c8bccefa0f968e7d24cdac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 13/51] fix: numerical quadrature of a symbolic integral
 dereferenced a null pointer

---
 viennamath/runtime/numerical_quadrature.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index 1f6911e..f29170c 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -158,11 +158,7 @@ namespace viennamath
             const SymbolicIntegrationOperation * op_symb_tmp = dynamic_cast<const SymbolicIntegrationOperation *>(integral_expression->op());
 
             if (op_symb_tmp != NULL)
-            {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
-            }
+              throw symbolic_integral_evaluation_not_possible_exception();
 
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
             //std::cerr << e << std::endl;
-- 
2.43.0


From e67ecf367b156c61773a43b69ecbbdbb5d82f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 14/51] fix: assigning a ct_variable to rt_expr did not compile
 and built a constant

---
 viennamath/runtime/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 26c42ea..92551f1 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -164,7 +164,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From bb53531311a0fbb0fb1826f4d7ff9799c22a0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 15/51] fix: rt_unary_expr copy assignment did not compile

---
 viennamath/runtime/unary_expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index acc9b18..1607ec9 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,7 +93,7 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
+        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
         op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
         return *this;
       }
-- 
2.43.0


From 7f3611e735ff892f5f96d2b56b3f084ab60b6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 16/51] fix: evaluating a variable with nonzero index at a
 number was only checked by an assertion

---
 viennamath/runtime/variable.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viennamath/runtime/variable.hpp b/viennamath/runtime/variable.hpp
index 388e57a..fdec27c 100644
--- a/viennamath/runtime/variable.hpp
+++ b/viennamath/runtime/variable.hpp
@@ -104,12 +104,10 @@ namespace viennamath
 
       /////////////////   Basic evaluation: //////////////////////////////////
 
-      /** @brief Evaluation of the variable by a scalar value. Only valid if the variable ID is zero. */
+      /** @brief Evaluation of the variable by a scalar value. Throws an exception if the variable index is larger than zero. */
       numeric_type operator()(numeric_type value) const
       {
-        assert(id_ == 0 && "Evaluation of variable with nonzero index by a scalar attempted!");
-
-        return value;
+        return this->eval(value);
       }
 
       /** @brief Evaluation of the variable by a ViennaMath runtime constant. Throws an exception if the variable index is larger than zero. */
-- 
2.43.0


From a7ca4781c1adb5f8c26b68a2abd79d4427d26feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 17/51] fix: formal operations threw string literals instead of
 exceptions

---
 viennamath/compiletime/unary_op_tags.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/viennamath/compiletime/unary_op_tags.hpp b/viennamath/compiletime/unary_op_tags.hpp
index 367d28f..35d1a33 100644
--- a/viennamath/compiletime/unary_op_tags.hpp
+++ b/viennamath/compiletime/unary_op_tags.hpp
@@ -21,6 +21,7 @@
 #include <vector>
 #include <math.h>
 #include "viennamath/forwards.h"
+#include "viennamath/exception.hpp"
 
 /** @file  unary_op_tags.hpp
     @brief Defines the tags for unary operations.
@@ -181,7 +182,7 @@ namespace viennamath
 
     NumericT apply(NumericT /*value*/) const
     {
-      throw "Cannot evaluate formal gradient. Use transformations first.";
+      throw expression_not_evaluable_exception("Cannot evaluate formal gradient. Use transformations first.");
     }
     bool can_simplify() const { return false; }
   };
@@ -201,8 +202,7 @@ namespace viennamath
 
     NumericT apply(NumericT /*value*/) const
     {
-      throw "Cannot evaluate formal divergence. Use transformations first.";
-      return 0;
+      throw expression_not_evaluable_exception("Cannot evaluate formal divergence. Use transformations first.");
     }
     bool can_simplify() const { return false; }
   };
@@ -231,7 +231,7 @@ namespace viennamath
 
       NumericT apply(NumericT /*value*/) const
       {
-        throw "Cannot evaluate formal partial derivative. Use transformations first.";
+        throw expression_not_evaluable_exception("Cannot evaluate formal partial derivative. Use transformations first.");
       }
 
       bool can_simplify() const { return false; }
@@ -267,10 +267,9 @@ namespace viennamath
 
       static std::string str() { return "symb_int"; }
 
-      NumericT apply(NumericT value) const
+      NumericT apply(NumericT /*value*/) const
       {
-        throw "Cannot evaluate symbolic_integration. Use transformations first.";
-        return value;
+        throw expression_not_evaluable_exception("Cannot evaluate symbolic_integration. Use transformations first.");
       }
 
       bool can_simplify() const { return false; }
-- 
2.43.0


From 70856d4443bb001f66352c04e61058289f347c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 18/51] fix: ct_unary_expr could not be instantiated or
 evaluated

---
 viennamath/compiletime/ct_unary_expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/compiletime/ct_unary_expr.hpp b/viennamath/compiletime/ct_unary_expr.hpp
index 77ac980..e969523 100644
--- a/viennamath/compiletime/ct_unary_expr.hpp
+++ b/viennamath/compiletime/ct_unary_expr.hpp
@@ -40,7 +40,7 @@ namespace viennamath
   {
       typedef typename expression_traits<LHS>::const_reference_type    internal_lhs_type;
     public:
-      typedef typename OP::numeric_type            numeric_type;
+      typedef default_numeric_type                 numeric_type;
 
       typedef LHS    lhs_type;
       typedef OP     op_type;
@@ -56,7 +56,7 @@ namespace viennamath
       numeric_type operator()(VectorType const & v) const
       {
         //std::cout << "ct_expr::operator()" << std::endl;
-        return OP::apply(static_cast<numeric_type>(lhs_(v)), static_cast<numeric_type>(rhs_(v)));
+        return OP().apply(static_cast<numeric_type>(lhs_(v)));
       }
 
     private:
-- 
2.43.0


From 80f560c8fdcaf28959c3007ed534961eefefc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 19/51] fix: conversion of compile-time operands to
 rt_unary_expr did not compile

---
 viennamath/runtime/unary_expr.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 1607ec9..3720298 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -61,10 +61,10 @@ namespace viennamath
                                                  op_(new op_unary_id_type()) {}
 
       template <typename LHS, typename OP>
-      explicit rt_unary_expr(ct_unary_expr<LHS, OP> const & other) : op_(new OP())
+      explicit rt_unary_expr(ct_unary_expr<LHS, OP> const & other) : op_(new op_unary<OP, InterfaceType>())
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
+        expr_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.lhs()).get()->clone());
       }
 
       explicit rt_unary_expr(rt_variable<InterfaceType> const & other) : expr_(other.clone()),
@@ -75,7 +75,7 @@ namespace viennamath
                                                                       op_(new op_unary_id_type()) {}
 
       template <long value>
-      explicit rt_unary_expr(ct_constant<value> const & other) : expr_(other.clone()),
+      explicit rt_unary_expr(ct_constant<value> const & /*other*/) : expr_(new rt_constant<numeric_type, InterfaceType>(value)),
                                                               op_(new op_unary_id_type()) {}
 
       //Copy CTOR:
@@ -86,8 +86,8 @@ namespace viennamath
       template <typename LHS, typename OP>
       rt_unary_expr & operator=(ct_unary_expr<LHS, OP> const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
-        op_ = std::auto_ptr<op_interface_type>(new OP());
+        expr_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.lhs()).get()->clone());
+        op_ = std::auto_ptr<op_interface_type>(new op_unary<OP, InterfaceType>());
         return *this;
       }
 
@@ -99,7 +99,7 @@ namespace viennamath
       }
 
       template <typename ScalarType>
-      rt_unary_expr & operator=(rt_constant<ScalarType> const & other)
+      rt_unary_expr & operator=(rt_constant<ScalarType, InterfaceType> const & other)
       {
         expr_ = std::auto_ptr<InterfaceType>(other.clone());
         op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
@@ -109,12 +109,12 @@ namespace viennamath
       template <long value>
       rt_unary_expr & operator=(ct_constant<value> const &)
       {
-        return *this = value;
+        return *this = static_cast<numeric_type>(value);
       }
 
       rt_unary_expr & operator=(numeric_type value)
       {
-        expr_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type>(value));
+        expr_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
         op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
         return *this;
       }
-- 
2.43.0


From bdbd6b77f37937822f184567af221e2796e42766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:46 +0000
Subject: [PATCH 20/51] fix: assigning a number to rt_binary_expr stored a
 unary operation, evaluation threw

---
 viennamath/runtime/binary_expr.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..7552b42 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -190,9 +190,9 @@ namespace viennamath
       rt_binary_expr & operator=(ct_binary_expr<ct_constant<value1>, OP, ct_constant<value2> > const &)
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
+        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value1));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value2));
         return *this;
       }
 
@@ -206,25 +206,23 @@ namespace viennamath
       }
 
       template <typename ScalarType>
-      rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
+      rt_binary_expr & operator=(rt_constant<ScalarType, InterfaceType> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        return *this;
+        return *this = other.unwrap();
       }
 
       template <long value>
       rt_binary_expr & operator=(ct_constant<value> const &)
       {
-        return *this = value;
+        return *this = static_cast<numeric_type>(value);
       }
 
       rt_binary_expr & operator=(numeric_type value)
       {
+        // a binary expression needs a binary operation, thus a number is represented as 'value + 0':
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
+        op_  = std::auto_ptr<op_interface_type>(new op_binary<op_plus<numeric_type>, InterfaceType>());
+        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0));
         return *this;
       }
 
-- 
2.43.0


From 0b5746f8a4efe667d4b6694fab3892471645fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 21/51] fix: LaTeX translation of a constant passed directly
 did not compile

---
 viennamath/manipulation/latex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..88d3704 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -148,7 +148,7 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
-- 
2.43.0


From f4beeff6fea04e151e0099de60f522ea7e609f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 22/51] fix: LaTeX customizations were lost when the translator
 was copied

---
 viennamath/manipulation/latex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 88d3704..234506c 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -455,7 +455,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -512,7 +512,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
-- 
2.43.0


From e700fd656e052ea5eac8656d34611b9644811886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 23/51] fix: unsupported operation in LaTeX translation threw a
 string literal

---
 viennamath/exception.hpp          | 7 +++++++
 viennamath/manipulation/latex.hpp | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index 57c14a6..e136c2d 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -48,6 +48,13 @@ namespace viennamath
   };
 
 
+  /** @brief An exception which is thrown if an operation cannot be translated to LaTeX code. */
+  struct latex_operation_not_supported_exception : std::exception
+  {
+    const char* what() const throw() { return "The operation is not supported by the LaTeX translator."; }
+  };
+
+
   /** @brief An exception which is thrown if no right hand side operand is passed to a binary operation. */
   struct no_rhs_provided_exception  : std::exception
   {
diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 234506c..3e9948b 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -393,7 +393,7 @@ namespace viennamath
         else
         {
           std::cout << "Operator not supported: " << e.op()->str() << std::endl;
-          throw "Not supported!";
+          throw latex_operation_not_supported_exception();
         }
 
         return ss.str();
-- 
2.43.0


From e6149ce068a2c9e5535821a6e58efbd56cf51542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 24/51] fix: assigning a LaTeX translator led to a double free

---
 viennamath/manipulation/latex.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 3e9948b..6e37fd5 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -125,6 +125,13 @@ namespace viennamath
         }
       }
 
+      rt_latex_translator & operator=(rt_latex_translator const & other)
+      {
+        rt_latex_translator tmp(other);
+        processors_.swap(tmp.processors_);
+        return *this;
+      }
+
       ~rt_latex_translator()
       {
         for (typename ProcessorArray::iterator it = processors_.begin();
-- 
2.43.0


From 6aaa5145662f4d1b2046392a48c8f349606178fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 25/51] fix: substituting a variable or a binary expression by
 an rt_expr did not compile

---
 viennamath/manipulation/substitute.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..871d85b 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -183,6 +183,17 @@ namespace viennamath
     return temp;
   }
 
+  /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
+  template <typename InterfaceType>
+  rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
+                                    rt_expr<InterfaceType> const & repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    rt_expr<InterfaceType> temp(e.get()->substitute(&u, repl.get()));
+    inplace_simplify(temp);
+    return temp;
+  }
+
   /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
   template <typename InterfaceType>
   rt_expr<InterfaceType> substitute(rt_variable<InterfaceType> const & u,
@@ -252,6 +263,17 @@ namespace viennamath
     return temp;
   }
 
+  /** @brief Replaces all occurances of the binary expression 'search' in the expression 'e' with 'repl'. */
+  template <typename InterfaceType>
+  rt_expr<InterfaceType> substitute(rt_binary_expr<InterfaceType> const & search,
+                                    rt_expr<InterfaceType> const & repl,
+                                    rt_expr<InterfaceType> const & e)
+  {
+    rt_expr<InterfaceType> temp(e.get()->substitute(&search, repl.get()));
+    inplace_simplify(temp);
+    return temp;
+  }
+
   /** @brief Replaces all occurances of the expression 'search' in the expression 'e' with 'repl'. */
   template <typename InterfaceType>
   rt_expr<InterfaceType> substitute(rt_expr<InterfaceType> const & search,
-- 
2.43.0


From 8bc5197b3d7ccb1685f2abf31890f8d7473a82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 26/51] fix: substituting a symbolic interval replaced
 integrals over every symbolic interval

---
 viennamath/manipulation/substitute.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index 871d85b..85774f5 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -318,7 +318,8 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(rt_symbolic_interval<InterfaceType> const & search,
+                                      op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : search_(search), ptr_(ptr) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -329,7 +330,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_.id())
             {
               //std::cout << "Modifies!" << std::endl;
               return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
@@ -349,7 +350,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_.id())
             {
               //std::cout << "FOUND!" << std::endl;
               return true;
@@ -359,6 +360,7 @@ namespace viennamath
         }
 
       private:
+        rt_symbolic_interval<InterfaceType> search_;
         std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
     };
   } //namespace detail
@@ -370,13 +372,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(search, new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From 41f25ece77863634b7d643697830e82094053307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 27/51] fix: simplify() was ambiguous for compile-time
 expressions

---
 viennamath/manipulation/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..431c2c5 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -962,7 +962,8 @@ namespace viennamath
 
   /** @brief Returns a new, simplified expression. */
   template <typename T>
-  T simplify(T const & e)
+  typename enable_if<!result_of::is_compiletime<T>::value, T>::type
+  simplify(T const & e)
   {
     //do nothing, since primitive types cannot be simplified
     return e;
-- 
2.43.0


From 69c311ddd9823fa30f947a71040848d6679729c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:07 +0000
Subject: [PATCH 28/51] fix: inplace_simplify() for unary and binary
 expressions did not compile

---
 viennamath/manipulation/simplify.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 431c2c5..9801c49 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -908,20 +908,32 @@ namespace viennamath
       e = e.get()->simplify();
   }
 
-  /** @brief Simplifies an expression. Directly manipulates the provided expression. */
+  /** @brief Simplifies an expression. Directly manipulates the provided expression. Stops as soon as a further step would no longer yield a unary expression. */
   template <typename InterfaceType>
   void inplace_simplify(rt_unary_expr<InterfaceType> & e)
   {
-    while (e->can_simplify())
-      e = e->simplify();
+    while (e.can_simplify())
+    {
+      rt_expr<InterfaceType> simplified(e.simplify());
+      rt_unary_expr<InterfaceType> const * ptr = dynamic_cast<rt_unary_expr<InterfaceType> const *>(simplified.get());
+      if (ptr == NULL)
+        return;
+      e = *ptr;
+    }
   }
 
-  /** @brief Simplifies an expression. Directly manipulates the provided expression. */
+  /** @brief Simplifies an expression. Directly manipulates the provided expression. Stops as soon as a further step would no longer yield a binary expression. */
   template <typename InterfaceType>
   void inplace_simplify(rt_binary_expr<InterfaceType> & e)
   {
-    while (e->can_simplify())
-      e = e->simplify();
+    while (e.can_simplify())
+    {
+      rt_expr<InterfaceType> simplified(e.simplify());
+      rt_binary_expr<InterfaceType> const * ptr = dynamic_cast<rt_binary_expr<InterfaceType> const *>(simplified.get());
+      if (ptr == NULL)
+        return;
+      e = *ptr;
+    }
   }
 
   /** @brief Simplifies an expression. Directly manipulates the provided expression. */
-- 
2.43.0


From 1ab6254171ca03c795bec9eb25903ce22c136bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 29/51] fix: template parameters of diff(), make_equation() and
 make_interval() overloads could not be deduced

---
 viennamath/manipulation/diff.hpp | 3 +--
 viennamath/runtime/equation.hpp  | 2 +-
 viennamath/runtime/interval.hpp  | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 5d52a3a..21ca518 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -207,8 +207,7 @@ namespace viennamath
   //////////// derivative of a variable: /////////////////////////////////
 
   /** @brief Overload for computing the derivative of a runtime variable */
-  template <id_type other_id, typename InterfaceType,
-            id_type id>
+  template <typename InterfaceType>
   rt_constant<typename InterfaceType::numeric_type> diff(rt_variable<InterfaceType> const & c,
                                                          rt_variable<InterfaceType> const & var)
   {
diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index aaf99fb..30025ab 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -72,7 +72,7 @@ namespace viennamath
 
   ////// scalar is first argument:
   /** @brief Generator for an equation with a (floating point) constant as left hand side and a ViennaMath runtime constant as right hand side */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_equation<InterfaceType> make_equation(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_equation<InterfaceType>(lhs, rhs);
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index ed1d9ba..976f738 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -92,7 +92,7 @@ namespace viennamath
   }
 
   /** @brief Creates an interval, where the upper bound is given by a ViennaMath constant */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_interval<InterfaceType>(lhs, rhs);
-- 
2.43.0


From ba07b41b7eae461a709ab90d4f5e9a6f9cc4b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 30/51] fix: make_interval() with a compile-time variable as
 lower bound was ambiguous

---
 viennamath/runtime/interval.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 976f738..d34a8e6 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -224,14 +224,6 @@ namespace viennamath
     return rt_interval<typename RHSType::interface_type>(lhs, rhs);
   }
 
-  /** @brief Creates an interval, where the lower bound is given by a ViennaMath compiletime variable */
-  template <id_type id, typename RHSType>
-  rt_interval<typename RHSType::interface_type>
-  make_interval(ct_variable<id> const & lhs, RHSType const & rhs)
-  {
-    return rt_interval<typename RHSType::interface_type>(lhs, rhs);
-  }
-
 }
 
 #endif
-- 
2.43.0


From 5808a9f8c9123e7e51f1aa596cc712ba572f0ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 31/51] fix: compile-time vectors with one or two entries kept
 references to temporaries

---
 viennamath/compiletime/ct_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/ct_vector.hpp b/viennamath/compiletime/ct_vector.hpp
index 7f0c4b9..e9d369f 100644
--- a/viennamath/compiletime/ct_vector.hpp
+++ b/viennamath/compiletime/ct_vector.hpp
@@ -54,7 +54,7 @@ namespace viennamath
       size_t size() const { return 1; }
 
     private:
-      T0 const & t0_;
+      T0 t0_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with one entry to an output stream */
@@ -98,8 +98,8 @@ namespace viennamath
       std::size_t size() const { return 2; }
 
     private:
-      T0 const & t0_;
-      T1 const & t1_;
+      T0 t0_;
+      T1 t1_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with two entries to an output stream */
-- 
2.43.0


From fbb07d1aa4f189ca38a9b9b4fb55d8dd3b8b9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 32/51] fix: eval() of a compile-time variable read beyond the
 end of short vectors

---
 viennamath/manipulation/eval.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 12cd769..d5dcced 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -286,6 +286,8 @@ namespace viennamath
   template <id_type id, typename VectorType>
   default_numeric_type eval(ct_variable<id> /*c*/, VectorType const & v)
   {
+    if (id >= v.size())
+      throw variable_index_out_of_bounds_exception(static_cast<long>(id), static_cast<long>(v.size()));
     return v[id];
   }
 
-- 
2.43.0


From 964fa5d774e11c6dbd1300ff901cdfcf3ef2712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 33/51] fix: compile-time integration treated every variable as
 the integration variable

---
 viennamath/manipulation/integrate.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..e00bb54 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -301,6 +301,25 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        //not the integration variable, thus a constant factor:
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                ct_binary_expr<UpperBound,
+                                              op_minus<default_numeric_type>,
+                                              LowerBound
+                                              >
+                              >    integrated_type;
+
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From 3dd02c5a1b8ae7a89538de35853e172e7626915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 34/51] fix: compile-time integration ignored integration
 variables in denominators

---
 viennamath/manipulation/integrate.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index e00bb54..944dc80 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -155,6 +155,19 @@ namespace viennamath
 
     namespace detail
     {
+      /** @brief Guard for divisions: Only provides the quotient type if the denominator does not depend on the integration variable (i.e. replacing the variable does not alter the denominator). Otherwise, a compile time error is forced.  */
+      template <typename QuotientType, typename DenominatorType, typename SubstitutedDenominatorType>
+      struct integrable_quotient
+      {
+        typedef typename QuotientType::ERROR_DENOMINATOR_DEPENDS_ON_INTEGRATION_VARIABLE    type;
+      };
+
+      template <typename QuotientType, typename DenominatorType>
+      struct integrable_quotient <QuotientType, DenominatorType, DenominatorType>
+      {
+        typedef QuotientType    type;
+      };
+
       /** @brief The worker metafunction for compile time integration. Each specialization represents an integration rule. */
       template <typename LowerBound, typename UpperBound,
                 typename IntegrandType,
@@ -246,7 +259,12 @@ namespace viennamath
                                                         LHS,
                                                         VariableType>::type,
                                 op_div<NumericT>,
-                                RHS>                     integrated_type;
+                                RHS>                     quotient_type;
+
+        typedef typename integrable_quotient< quotient_type,
+                                              RHS,
+                                              typename viennamath::result_of::substitute<VariableType, ct_constant<0>, RHS>::type
+                                            >::type      integrated_type;
 
         typedef typename viennamath::result_of::simplify<integrated_type>::type    type;
       };
-- 
2.43.0


From 8885cc9de28d00c5f76c1a5821e4a6695abfc6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:39 +0000
Subject: [PATCH 35/51] fix: compile-time rational arithmetic truncated
 numerators and denominators to int

---
 viennamath/forwards.h                |  4 +--
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 9801c49..287762b 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -365,8 +365,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -384,8 +384,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -403,8 +403,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -426,8 +426,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -444,8 +444,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -462,8 +462,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -480,8 +480,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -502,8 +502,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -520,8 +520,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -538,8 +538,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -559,8 +559,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -577,8 +577,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -595,8 +595,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From 6ecf7dd324fe7622a5e79275bdf0a292aa9a0693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 36/51] fix: compile-time simplification was ambiguous for
 signs, reciprocals and rationals meeting neutral elements

---
 viennamath/manipulation/simplify.hpp | 319 +++++++++++++++++++++++++--
 1 file changed, 306 insertions(+), 13 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 287762b..809425d 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -645,24 +645,14 @@ namespace viennamath
       };
 
       //resolve ambiguity:
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<1>,
-                                          op_minus<NumericT>,
-                                          ct_constant<0>
-                                          >  >
-      {
-        static const int value = 1;
-        typedef ct_constant<1>   type;
-      };
-
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<-1>,
+      template <long value_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
                                           op_minus<NumericT>,
                                           ct_constant<0>
                                           >  >
       {
         static const int value = 1;
-        typedef ct_constant<-1>   type;
+        typedef ct_constant<value_1>   type;
       };
 
 
@@ -778,6 +768,309 @@ namespace viennamath
       };
 
 
+      ///////////////////// Resolve ambiguities between the rules above ////////////////////////////////
+
+      // (0 - X) + 0
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1>,
+                                          op_plus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1>          type;
+      };
+
+      // 0 + (0 - X)
+      template <typename NumericT, typename RHS2>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_plus<NumericT>,
+                                          ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS2>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS2>          type;
+      };
+
+      // (0 - X) - 0
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1>,
+                                          op_minus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS1>          type;
+      };
+
+      // rational plus zero
+      template <long numerator_1, long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_plus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+      };
+
+      // zero plus rational
+      template <typename NumericT, long numerator_2, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_plus<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>          type;
+      };
+
+      // (1 / X) * 0
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1>,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // 0 * (1 / X)
+      template <typename NumericT, typename RHS2>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS2>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // (1 / X) * 1
+      template <typename RHS1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1>,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS1>          type;
+      };
+
+      // 1 * (1 / X)
+      template <typename NumericT, typename RHS2>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS2>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS2>          type;
+      };
+
+      // rational times zero
+      template <long numerator_1, long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // zero times rational
+      template <typename NumericT, long numerator_2, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // rational times one
+      template <long numerator_1, long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+      };
+
+      // one times rational
+      template <typename NumericT, long numerator_2, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>          type;
+      };
+
+      // (1 / a) * 0
+      template <long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // 0 * (1 / a)
+      template <typename NumericT, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // (1 / a) * 1
+      template <long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+      };
+
+      // 1 * (1 / a)
+      template <typename NumericT, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>          type;
+      };
+
+      // (1 / a) * b
+      template <long denominator_1, typename NumericT, long value_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_constant<value_2>
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = value_2;
+        static const long denominator = denominator_1;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      // a * (1 / b)
+      template <long value_1, typename NumericT, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = value_1;
+        static const long denominator = denominator_2;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      // (1 / a) * (b / c)
+      template <long denominator_1, typename NumericT, long numerator_2, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      // (a / b) * (1 / c)
+      template <long numerator_1, long denominator_1, typename NumericT, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      // (1 / a) * (1 / b)
+      template <long denominator_1, typename NumericT, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = 1;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      // zero divided by rational
+      template <typename NumericT, long numerator_2, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_div<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+      // rational divided by one
+      template <long numerator_1, long denominator_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+                                          op_div<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+      };
+
+      // 0 / -1
+      template <typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_div<NumericT>,
+                                          ct_constant<-1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>          type;
+      };
+
+
     } //namespace detail
 
     ////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ca0210e1bb0340fb15024733ae833bd38bf8527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 37/51] fix: compile-time function symbols could not be mixed
 with runtime expressions

---
 viennamath/runtime/expr.hpp             | 13 +++++++++++++
 viennamath/runtime/function_symbol.hpp  | 12 ++++++++++++
 viennamath/runtime/operations/rt_rt.hpp |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index 92551f1..3abdab7 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -94,6 +94,12 @@ namespace viennamath
         rt_expr_ = std::auto_ptr<InterfaceType>(other.clone());
       }
 
+      template <typename TAG>
+      rt_expr(ct_function_symbol<TAG> const & other)
+      {
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_function_symbol<InterfaceType>(other));
+      }
+
       rt_expr(rt_vector_expr<InterfaceType> const & other)
       {
         rt_expr_ = std::auto_ptr<InterfaceType>(other.clone());
@@ -189,6 +195,13 @@ namespace viennamath
         return *this;
       }
 
+      template <typename TAG>
+      rt_expr & operator=(ct_function_symbol<TAG> const & other)
+      {
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_function_symbol<InterfaceType>(other));
+        return *this;
+      }
+
       rt_expr & operator=(rt_vector_expr<InterfaceType> const & other)
       {
         rt_expr_ = std::auto_ptr<InterfaceType>(other.clone());
diff --git a/viennamath/runtime/function_symbol.hpp b/viennamath/runtime/function_symbol.hpp
index d9f82bc..18fb120 100644
--- a/viennamath/runtime/function_symbol.hpp
+++ b/viennamath/runtime/function_symbol.hpp
@@ -60,6 +60,18 @@ namespace viennamath
 
       rt_function_symbol() : id_(0), tag_id_(unknown_tag<>::tag_id()) {}
 
+      /** @brief CTOR from a compiletime function symbol with a user-defined tag */
+      template <typename Tag>
+      explicit rt_function_symbol(ct_function_symbol<Tag> const & /*other*/) : id_(0), tag_id_(Tag::tag_id()) {}
+
+      /** @brief CTOR from a compiletime unknown function, for which the ID is preserved */
+      template <id_type ct_id>
+      explicit rt_function_symbol(ct_function_symbol< unknown_tag<ct_id> > const & /*other*/) : id_(ct_id), tag_id_(unknown_tag<ct_id>::tag_id()) {}
+
+      /** @brief CTOR from a compiletime test function, for which the ID is preserved */
+      template <id_type ct_id>
+      explicit rt_function_symbol(ct_function_symbol< test_tag<ct_id> > const & /*other*/) : id_(ct_id), tag_id_(test_tag<ct_id>::tag_id()) {}
+
       id_type id() const { return id_; }
       id_type tag_id() const { return tag_id_; }
 
diff --git a/viennamath/runtime/operations/rt_rt.hpp b/viennamath/runtime/operations/rt_rt.hpp
index 39e45fb..b977e49 100644
--- a/viennamath/runtime/operations/rt_rt.hpp
+++ b/viennamath/runtime/operations/rt_rt.hpp
@@ -49,6 +49,9 @@ namespace viennamath
     template <typename InterfaceType>
     InterfaceType * clone(rt_function_symbol<InterfaceType> const & fs) { return fs.clone(); }
 
+    template <typename InterfaceType, typename TAG>
+    InterfaceType * clone(ct_function_symbol<TAG> const & fs) { return new rt_function_symbol<InterfaceType>(fs); }
+
     template <typename InterfaceType>
     InterfaceType * clone(rt_unary_expr<InterfaceType> const & e) { return e.clone(); }
 
-- 
2.43.0


From 0d1df7cc4a4432b31087fc6b78fdd4bf2577dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:48 +0000
Subject: [PATCH 38/51] fix: (compile-time constant - X) + runtime constant did
 not compile

---
 viennamath/runtime/operations/constant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index d00ef5d..8c9c0a8 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -122,10 +122,10 @@ namespace viennamath
     operator+(ct_binary_expr<ct_constant<value>, op_minus<default_numeric_type>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
-      typedef rt_constant<ScalarType, InterfaceType>    result_constant;
+      typedef rt_constant<default_numeric_type, InterfaceType>    result_constant;
       return ct_binary_expr<result_constant,
                             op_minus<default_numeric_type>,
-                            RHS >(result_constant(value + other),
+                            RHS >(result_constant(value + static_cast<ScalarType>(other)),
                                   lhs.rhs());
     }
 
-- 
2.43.0


From d644125fc1d9f59d734773b43c72b853ecb6f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:51 +0000
Subject: [PATCH 39/51] fix: compile-time sums and products with function
 operands could not be converted to rt_binary_expr

---
 viennamath/runtime/binary_expr.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 7552b42..4d86cb2 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -65,8 +65,8 @@ namespace viennamath
       explicit rt_binary_expr(ct_binary_expr<LHS, OP, RHS> const & other) : op_(new op_binary<OP, InterfaceType>())
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.lhs()).get()->clone());
+        rhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.rhs()).get()->clone());
       }
 
       /////////////// special case: ct_constant involved: ////////////////////////
@@ -74,7 +74,7 @@ namespace viennamath
       explicit rt_binary_expr(ct_binary_expr<LHS, OP, ct_constant<value> > const & other) : op_(new op_binary<OP, InterfaceType>())
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.lhs()).get()->clone());
         rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
       }
 
@@ -83,7 +83,7 @@ namespace viennamath
       {
         //std::cout << "Constructing from expression " << other << std::endl;
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.rhs()).get()->clone());
       }
 
       template <long value1, typename OP, long value2>
@@ -99,7 +99,7 @@ namespace viennamath
       explicit rt_binary_expr(ct_binary_expr<LHS, OP, ct_variable<id> > const & other) : op_(new op_binary<OP, InterfaceType>())
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.lhs()).get()->clone());
         rhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
       }
 
@@ -108,7 +108,7 @@ namespace viennamath
       {
         //std::cout << "Constructing from expression " << other << std::endl;
         lhs_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.rhs()).get()->clone());
       }
 
       template <id_type id1, typename OP, id_type id2>
@@ -160,9 +160,9 @@ namespace viennamath
       template <typename LHS, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.lhs()).get()->clone());
         op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.rhs()).get()->clone());
         return *this;
       }
 
@@ -170,7 +170,7 @@ namespace viennamath
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, ct_constant<value> > const & other)
       {
         //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
+        lhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.lhs()).get()->clone());
         op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
         rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
         return *this;
@@ -182,7 +182,7 @@ namespace viennamath
         //std::cout << "Constructing from expression " << other << std::endl;
         lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
         op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
+        rhs_ = std::auto_ptr<InterfaceType>(rt_expr<InterfaceType>(other.rhs()).get()->clone());
         return *this;
       }
 
-- 
2.43.0


From 509063305df9679aeb9781194a14f6a8cd8342eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 40/51] fix: manipulation and runtime headers could not be
 included before expression.hpp

---
 viennamath/compiletime/operations/ct_constant.hpp   | 1 +
 viennamath/compiletime/operations/ct_expr.hpp       | 2 ++
 viennamath/manipulation/apply_coordinate_system.hpp | 1 +
 viennamath/manipulation/coefficient.hpp             | 1 +
 viennamath/manipulation/detail/unary_operations.hpp | 1 +
 viennamath/manipulation/diff.hpp                    | 1 +
 viennamath/manipulation/drop_dependent_terms.hpp    | 1 +
 viennamath/manipulation/eval.hpp                    | 1 +
 viennamath/manipulation/expand.hpp                  | 1 +
 viennamath/manipulation/integrate.hpp               | 1 +
 viennamath/manipulation/latex.hpp                   | 1 +
 viennamath/manipulation/simplify.hpp                | 1 +
 viennamath/manipulation/substitute.hpp              | 1 +
 viennamath/runtime/equation.hpp                     | 1 +
 viennamath/runtime/interval.hpp                     | 1 +
 viennamath/runtime/numerical_quadrature.hpp         | 1 +
 16 files changed, 17 insertions(+)

diff --git a/viennamath/compiletime/operations/ct_constant.hpp b/viennamath/compiletime/operations/ct_constant.hpp
index ae359f7..ebb49b7 100644
--- a/viennamath/compiletime/operations/ct_constant.hpp
+++ b/viennamath/compiletime/operations/ct_constant.hpp
@@ -19,6 +19,7 @@
 
 #include <ostream>
 #include "viennamath/forwards.h"
+#include "viennamath/compiletime/promote_traits.hpp"
 #include "viennamath/compiletime/ct_constant.hpp"
 
 /** @file viennamath/compiletime/operations/ct_constant.hpp
diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 1aa3b59..789fbc3 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -18,6 +18,8 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/compiletime/promote_traits.hpp"
+#include "viennamath/compiletime/ct_constant.hpp"
 //#include "viennamath/runtime/constant.hpp"
 //#include "viennamath/runtime/variable.hpp"
 #include "viennamath/compiletime/ct_binary_expr.hpp"
diff --git a/viennamath/manipulation/apply_coordinate_system.hpp b/viennamath/manipulation/apply_coordinate_system.hpp
index a20fb30..3593abe 100644
--- a/viennamath/manipulation/apply_coordinate_system.hpp
+++ b/viennamath/manipulation/apply_coordinate_system.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/manipulation/detail/unary_operations.hpp"
 #include "viennamath/manipulation/substitute.hpp"
 #include "viennamath/manipulation/diff.hpp"
diff --git a/viennamath/manipulation/coefficient.hpp b/viennamath/manipulation/coefficient.hpp
index 70a5003..bdc5f29 100644
--- a/viennamath/manipulation/coefficient.hpp
+++ b/viennamath/manipulation/coefficient.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/manipulation/expand.hpp"
 
 /** @file coefficient.hpp
diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index 9c7181d..1c9263d 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -21,6 +21,7 @@
 #include <vector>
 #include <math.h>
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/exception.hpp"
 #include "viennamath/compiletime/unary_op_tags.hpp"
 #include "viennamath/runtime/unary_expr.hpp"
diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 21ca518..d88ecdc 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/runtime/unary_expr.hpp"
 #include "viennamath/manipulation/simplify.hpp"
 
diff --git a/viennamath/manipulation/drop_dependent_terms.hpp b/viennamath/manipulation/drop_dependent_terms.hpp
index 8892ab3..6ead1ca 100644
--- a/viennamath/manipulation/drop_dependent_terms.hpp
+++ b/viennamath/manipulation/drop_dependent_terms.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/manipulation/expand.hpp"
 #include "viennamath/manipulation/substitute.hpp"
 #include "viennamath/manipulation/simplify.hpp"
diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index d5dcced..85873fd 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/compiletime/ct_variable.hpp"
 #include "viennamath/manipulation/simplify.hpp"
 
diff --git a/viennamath/manipulation/expand.hpp b/viennamath/manipulation/expand.hpp
index 691289a..cab9f26 100644
--- a/viennamath/manipulation/expand.hpp
+++ b/viennamath/manipulation/expand.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/runtime/unary_expr.hpp"
 #include "viennamath/compiletime/unary_op_tags.hpp"
 #include "viennamath/runtime/interval.hpp"
diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 944dc80..1712e12 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/compiletime/ct_interval.hpp"
 #include "viennamath/manipulation/expand.hpp"
 #include "viennamath/manipulation/simplify.hpp"
diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index 6e37fd5..037be7a 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -20,6 +20,7 @@
 #include <map>
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/runtime/unary_expr.hpp"
 #include "viennamath/compiletime/unary_op_tags.hpp"
 
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 809425d..7eb4589 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -18,6 +18,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/runtime/functor_wrapper.hpp"
 #include <assert.h>
 
diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index 85774f5..9e0ee0d 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -17,6 +17,7 @@
 
 
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/runtime/functor_wrapper.hpp"
 #include "viennamath/manipulation/simplify.hpp"
 #include <assert.h>
diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index 30025ab..5d78774 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -19,6 +19,7 @@
 
 #include <ostream>
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 
 /** @file equation.hpp
     @brief Defines the ViennaMath runtime equation object and provides several generator functions for convenience.
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index d34a8e6..f4cb7f7 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -19,6 +19,7 @@
 
 #include <ostream>
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 
 /** @file   interval.hpp
     @brief  Defines a class for the representation of an integration interval. Also defines some convenience generator functions.
diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index f29170c..85f28d9 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -23,6 +23,7 @@
 #include <iostream>
 #include <sstream>
 #include "viennamath/forwards.h"
+#include "viennamath/expression.hpp"
 #include "viennamath/runtime/integral.hpp"
 #include "viennamath/manipulation/substitute.hpp"
 #include "viennamath/manipulation/eval.hpp"
-- 
2.43.0


From df04dfc16172756986da4d047a2bac1fd857f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 41/51] fix: compile-time function symbols could not be printed
 (str() was private)

---
 viennamath/compiletime/ct_function_symbol.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 7560817..6d719f2 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -75,6 +75,7 @@ namespace viennamath
   template <typename Tag>
   class ct_function_symbol
   {
+    public:
       static std::string str()
       {
         return Tag::str();
-- 
2.43.0


From 8c77619c01bb8d95d6f4076d05e8e59a5d2a8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 42/51] fix: coefficient of a product, quotient or sum in
 itself was ambiguous

---
 viennamath/manipulation/coefficient.hpp | 38 +++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/viennamath/manipulation/coefficient.hpp b/viennamath/manipulation/coefficient.hpp
index bdc5f29..d8fa9d1 100644
--- a/viennamath/manipulation/coefficient.hpp
+++ b/viennamath/manipulation/coefficient.hpp
@@ -85,6 +85,19 @@ namespace viennamath
         static const int value = has_factor<FactorType, LHS>::value;
       };
 
+      // a product or quotient is a factor of itself
+      template <typename LHS, typename NumericT, typename RHS>
+      struct has_factor< ct_binary_expr<LHS, op_mult<NumericT>, RHS>, ct_binary_expr<LHS, op_mult<NumericT>, RHS> >
+      {
+        static const int value = 1;
+      };
+
+      template <typename LHS, typename NumericT, typename RHS>
+      struct has_factor< ct_binary_expr<LHS, op_div<NumericT>, RHS>, ct_binary_expr<LHS, op_div<NumericT>, RHS> >
+      {
+        static const int value = 1;
+      };
+
 
       //
       // Extracts the factor from an expression free of plus and minus operations
@@ -206,6 +219,31 @@ namespace viennamath
                               >   type;
       };
 
+      // the coefficient of an expression in itself is one
+      template <typename LHS, typename NumericT, typename RHS>
+      struct coefficient_impl< ct_binary_expr<LHS, op_plus<NumericT>, RHS>, ct_binary_expr<LHS, op_plus<NumericT>, RHS> >
+      {
+        typedef ct_constant<1>    type;
+      };
+
+      template <typename LHS, typename NumericT, typename RHS>
+      struct coefficient_impl< ct_binary_expr<LHS, op_minus<NumericT>, RHS>, ct_binary_expr<LHS, op_minus<NumericT>, RHS> >
+      {
+        typedef ct_constant<1>    type;
+      };
+
+      template <typename LHS, typename NumericT, typename RHS>
+      struct coefficient_impl< ct_binary_expr<LHS, op_mult<NumericT>, RHS>, ct_binary_expr<LHS, op_mult<NumericT>, RHS> >
+      {
+        typedef ct_constant<1>    type;
+      };
+
+      template <typename LHS, typename NumericT, typename RHS>
+      struct coefficient_impl< ct_binary_expr<LHS, op_div<NumericT>, RHS>, ct_binary_expr<LHS, op_div<NumericT>, RHS> >
+      {
+        typedef ct_constant<1>    type;
+      };
+
     } //namespace detail
 
     //
-- 
2.43.0


From ced6f24ab9ae187591481a522ccf261fee817e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:38 +0000
Subject: [PATCH 43/51] fix: compile-time variables could not be evaluated at a
 single number

---
 viennamath/compiletime/ct_variable.hpp | 8 ++++++--
 viennamath/manipulation/eval.hpp       | 9 +++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/viennamath/compiletime/ct_variable.hpp b/viennamath/compiletime/ct_variable.hpp
index 728bd03..17cc398 100644
--- a/viennamath/compiletime/ct_variable.hpp
+++ b/viennamath/compiletime/ct_variable.hpp
@@ -170,8 +170,12 @@ namespace viennamath
     }
 
     /////////////////   Basic evaluation: //////////////////////////////////
-    //template <typename NumericT>
-    //NumericT operator()(NumericT value) const { return value; }
+    numeric_type operator()(numeric_type value) const
+    {
+      if (id > 0)
+        throw variable_index_out_of_bounds_exception(id, 0);
+      return value;
+    }
 
     template <typename ScalarType>
     rt_constant<ScalarType> operator()(rt_constant<ScalarType> const & other) const
diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 85873fd..1b9dc8a 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -292,6 +292,15 @@ namespace viennamath
     return v[id];
   }
 
+  /** @brief Evaluation of a ViennaMath compiletime variable using a single number */
+  template <id_type id>
+  default_numeric_type eval(ct_variable<id> /*c*/, default_numeric_type v)
+  {
+    if (id > 0)
+      throw variable_index_out_of_bounds_exception(static_cast<long>(id), 0);
+    return v;
+  }
+
   /** @brief Evaluation of a ViennaMath compiletime variable using a compiletime vector with one entry */
   template <id_type id, typename T0>
   default_numeric_type eval(ct_variable<id>, ct_vector_1<T0> const & v)
-- 
2.43.0


From 97032dcdac2cdc877580fb6158e2b6728ff6628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 44/51] fix: eval() of a plain integer was ambiguous

---
 viennamath/manipulation/eval.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 1b9dc8a..2cd3a6f 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -183,6 +183,13 @@ namespace viennamath
     return value;
   }
 
+  /** @brief Evaluation of an integer at a vector: Return the integer */
+  template <typename VectorType>
+  long eval(int value, VectorType const &)
+  {
+    return value;
+  }
+
   /** @brief Evaluation of a runtime constant at a vector: Return the runtime constant */
   template <typename T, typename InterfaceType, typename VectorType>
   typename InterfaceType::numeric_type
-- 
2.43.0


From 110d99771bedf7edc26f08f0018a7a905f566006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 45/51] fix: compile-time simplification of rational sums
 needed a C++11 parser

---
 viennamath/manipulation/simplify.hpp | 54 ++++++++++++++--------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 7eb4589..bf8adc6 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -806,24 +806,24 @@ namespace viennamath
 
       // rational plus zero
       template <long numerator_1, long denominator_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_plus<NumericT>,
                                           ct_constant<0>
                                           > >
       {
         static const int value = 1;
-        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >          type;
       };
 
       // zero plus rational
       template <typename NumericT, long numerator_2, long denominator_2>
       struct simplify_impl< ct_binary_expr<ct_constant<0>,
                                           op_plus<NumericT>,
-                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
-        typedef ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>          type;
+        typedef ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >          type;
       };
 
       // (1 / X) * 0
@@ -872,7 +872,7 @@ namespace viennamath
 
       // rational times zero
       template <long numerator_1, long denominator_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
                                           ct_constant<0>
                                           > >
@@ -885,7 +885,7 @@ namespace viennamath
       template <typename NumericT, long numerator_2, long denominator_2>
       struct simplify_impl< ct_binary_expr<ct_constant<0>,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
@@ -894,29 +894,29 @@ namespace viennamath
 
       // rational times one
       template <long numerator_1, long denominator_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
                                           ct_constant<1>
                                           > >
       {
         static const int value = 1;
-        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >          type;
       };
 
       // one times rational
       template <typename NumericT, long numerator_2, long denominator_2>
       struct simplify_impl< ct_binary_expr<ct_constant<1>,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
-        typedef ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>          type;
+        typedef ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >          type;
       };
 
       // (1 / a) * 0
       template <long denominator_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
                                           ct_constant<0>
                                           > >
@@ -929,7 +929,7 @@ namespace viennamath
       template <typename NumericT, long denominator_2>
       struct simplify_impl< ct_binary_expr<ct_constant<0>,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
@@ -938,29 +938,29 @@ namespace viennamath
 
       // (1 / a) * 1
       template <long denominator_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
                                           ct_constant<1>
                                           > >
       {
         static const int value = 1;
-        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >          type;
       };
 
       // 1 * (1 / a)
       template <typename NumericT, long denominator_2>
       struct simplify_impl< ct_binary_expr<ct_constant<1>,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
-        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>          type;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >          type;
       };
 
       // (1 / a) * b
       template <long denominator_1, typename NumericT, long value_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
                                           ct_constant<value_2>
                                           > >
@@ -978,7 +978,7 @@ namespace viennamath
       template <long value_1, typename NumericT, long denominator_2>
       struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
@@ -992,9 +992,9 @@ namespace viennamath
 
       // (1 / a) * (b / c)
       template <long denominator_1, typename NumericT, long numerator_2, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
@@ -1008,9 +1008,9 @@ namespace viennamath
 
       // (a / b) * (1 / c)
       template <long numerator_1, long denominator_1, typename NumericT, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
@@ -1024,9 +1024,9 @@ namespace viennamath
 
       // (1 / a) * (1 / b)
       template <long denominator_1, typename NumericT, long denominator_2>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_mult<NumericT>,
-                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
@@ -1042,7 +1042,7 @@ namespace viennamath
       template <typename NumericT, long numerator_2, long denominator_2>
       struct simplify_impl< ct_binary_expr<ct_constant<0>,
                                           op_div<NumericT>,
-                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2>>
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
                                           > >
       {
         static const int value = 1;
@@ -1051,13 +1051,13 @@ namespace viennamath
 
       // rational divided by one
       template <long numerator_1, long denominator_1, typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>,
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
                                           op_div<NumericT>,
                                           ct_constant<1>
                                           > >
       {
         static const int value = 1;
-        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1>>          type;
+        typedef ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >          type;
       };
 
       // 0 / -1
-- 
2.43.0


From d30bbd586ef7dc911f13a65b4a772b9be36042fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:30 +0000
Subject: [PATCH 46/51] fix: substitute() failed to compile for most kinds of
 replacement and expression

---
 viennamath/manipulation/substitute.hpp | 33 ++++++++++++++++----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index 9e0ee0d..c21fdd5 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -161,6 +161,23 @@ namespace viennamath
 
 
 
+  namespace detail
+  {
+    /** @brief Wraps a runtime expression */
+    template <typename InterfaceType, typename ExpressionType>
+    rt_expr<InterfaceType> wrap(ExpressionType const & e, InterfaceType const *)
+    {
+      return rt_expr<InterfaceType>(e.clone());
+    }
+
+    /** @brief Wraps a number, a compiletime expression or an expression wrapper */
+    template <typename InterfaceType, typename ExpressionType>
+    rt_expr<InterfaceType> wrap(ExpressionType const & e, void const *)
+    {
+      return rt_expr<InterfaceType>(e);
+    }
+  }
+
   //public interface:
   /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
   template <typename InterfaceType, typename ReplacementType, typename ExpressionType>
@@ -168,9 +185,7 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     ExpressionType const & e)
   {
-    rt_expr<InterfaceType> temp(e.substitute(&u, &repl));
-    inplace_simplify(temp);
-    return temp;
+    return substitute(u, detail::wrap<InterfaceType>(repl, &repl), detail::wrap<InterfaceType>(e, &e));
   }
 
   /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
@@ -179,9 +194,7 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
-    rt_expr<InterfaceType> temp(e.get()->substitute(&u, &repl));
-    inplace_simplify(temp);
-    return temp;
+    return substitute(u, detail::wrap<InterfaceType>(repl, &repl), e);
   }
 
   /** @brief Replaces all occurances of the variable 'u' in the expression 'e' with 'repl'. */
@@ -237,9 +250,7 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
-    rt_expr<InterfaceType> temp(e.get()->substitute(&search, &repl));
-    inplace_simplify(temp);
-    return temp;
+    return substitute(search, detail::wrap<InterfaceType>(repl, &repl), e);
   }
 
   /** @brief Replaces all occurances of the unary expression 'search' in the expression 'e' with 'repl'. */
@@ -259,9 +270,7 @@ namespace viennamath
                                     ReplacementType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
-    rt_expr<InterfaceType> temp(e.get()->substitute(&search, &repl));
-    inplace_simplify(temp);
-    return temp;
+    return substitute(search, detail::wrap<InterfaceType>(repl, &repl), e);
   }
 
   /** @brief Replaces all occurances of the binary expression 'search' in the expression 'e' with 'repl'. */
-- 
2.43.0


From a075e816ca689967e0de70d98af427760bd1dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 47/51] fix: compile time expressions holding a run time
 constant could not be combined any further

The result of an arithmetic operation on two compile time operands was default
constructed, and a compile time constant was added to the run time constant of
the operand as if that was a number.
---
 viennamath/compiletime/operations/ct_constant.hpp | 8 ++++----
 viennamath/compiletime/operations/ct_ct.hpp       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_constant.hpp b/viennamath/compiletime/operations/ct_constant.hpp
index ebb49b7..c1f9f56 100644
--- a/viennamath/compiletime/operations/ct_constant.hpp
+++ b/viennamath/compiletime/operations/ct_constant.hpp
@@ -44,7 +44,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 + X) -> [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -71,7 +71,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 - X) -> [ct_c1 + ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -110,7 +110,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 + X) -> [ct_c1 - ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -137,7 +137,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 - X) -> [ct_c1 - ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
diff --git a/viennamath/compiletime/operations/ct_ct.hpp b/viennamath/compiletime/operations/ct_ct.hpp
index 6eb3a95..e3a3eb5 100644
--- a/viennamath/compiletime/operations/ct_ct.hpp
+++ b/viennamath/compiletime/operations/ct_ct.hpp
@@ -40,7 +40,7 @@ namespace viennamath
                              op_plus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for subtracting two compiletime expressions */
@@ -51,7 +51,7 @@ namespace viennamath
                              op_minus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for multiplying two compiletime expressions */
@@ -62,7 +62,7 @@ namespace viennamath
                              op_mult<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for dividing two compiletime expressions */
@@ -73,7 +73,7 @@ namespace viennamath
                              op_div<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
   }
-- 
2.43.0


From bd60adf6954f9e786ea8e8f5c7522766776cd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:24 +0000
Subject: [PATCH 48/51] fix: quotient of compile time expressions with
 different run time constants was reported as one

---
 viennamath/compiletime/operations/ct_expr.hpp | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 789fbc3..fbeb707 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -31,6 +31,48 @@
 
 namespace viennamath
 {
+  namespace detail
+  {
+    /** @brief Metafunction telling whether any two objects of type T represent the same expression, i.e. whether T does not hold any runtime value. */
+    template <typename T>
+    struct is_determined_by_type
+    {
+      enum { value = false };
+    };
+
+    /** \cond */
+    template <long v>
+    struct is_determined_by_type< ct_constant<v> >
+    {
+      enum { value = true };
+    };
+
+    template <id_type id>
+    struct is_determined_by_type< ct_variable<id> >
+    {
+      enum { value = true };
+    };
+
+    template <typename TAG>
+    struct is_determined_by_type< ct_function_symbol<TAG> >
+    {
+      enum { value = true };
+    };
+
+    template <typename LHS, typename OP, typename RHS>
+    struct is_determined_by_type< ct_binary_expr<LHS, OP, RHS> >
+    {
+      enum { value = is_determined_by_type<LHS>::value && is_determined_by_type<RHS>::value };
+    };
+
+    template <typename LHS, typename OP>
+    struct is_determined_by_type< ct_unary_expr<LHS, OP> >
+    {
+      enum { value = is_determined_by_type<LHS>::value };
+    };
+    /** \endcond */
+  }
+
   /////////////////////////////////// operator+ ///////////////////////////////////
 
       /** @brief Special overload: (ct_c1 + X) + ct_c2 becomes [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -156,9 +198,10 @@ namespace viennamath
 
   /////////////////////////////////// operator/ ///////////////////////////////////
 
-      /** @brief Special overload: division of the same thing leads to '1' */
+      /** @brief Special overload: division of the same thing leads to '1'. Types holding runtime values are excluded, because equal types do not imply equal values then. */
       template <typename LHS, typename OP, typename RHS>
-      ct_constant<1>
+      typename enable_if<detail::is_determined_by_type<LHS>::value && detail::is_determined_by_type<RHS>::value,
+                         ct_constant<1> >::type
       operator/(ct_binary_expr<LHS, OP, RHS> const & /*lhs*/,
                 ct_binary_expr<LHS, OP, RHS> const & /*other*/)
       {
-- 
2.43.0


From eeec234a8b37eed4219f86dc22e7990393f26810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 49/51] fix: assigning a part of a unary or binary expression
 to the expression used the destroyed part

---
 viennamath/runtime/binary_expr.hpp | 10 +++++++---
 viennamath/runtime/unary_expr.hpp  |  7 +++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 4d86cb2..1e9252c 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -199,9 +199,13 @@ namespace viennamath
 
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
+        // 'other' may be part of the expression replaced, hence get all copies first:
+        std::auto_ptr<InterfaceType>     new_lhs(other.lhs()->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op()->clone());
+        std::auto_ptr<InterfaceType>     new_rhs(other.rhs()->clone());
+        lhs_ = new_lhs;
+        op_  = new_op;
+        rhs_ = new_rhs;
         return *this;
       }
 
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 3720298..5093c63 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -93,8 +93,11 @@ namespace viennamath
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.expr_->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        // 'other' may be part of the expression replaced, hence get all copies first:
+        std::auto_ptr<InterfaceType>     new_expr(other.expr_->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op_->clone());
+        expr_ = new_expr;
+        op_   = new_op;
         return *this;
       }
 
-- 
2.43.0


From 700710427d6984bb505afc2da05e4cecfc672ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:35 +0000
Subject: [PATCH 50/51] fix: assigning a component of a vector expression to
 the vector expression used the destroyed component

---
 viennamath/runtime/vector_expr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index 4511bc4..a70e8c3 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -57,6 +57,14 @@ namespace viennamath
           BaseType::operator[](i) = viennamath::rt_constant<numeric_type, interface_type>(0);
       }
 
+      /** @brief Assigns the components of another vector expression, which may itself be part of a component of this vector expression. */
+      rt_vector_expr & operator=(rt_vector_expr const & other)
+      {
+        BaseType temp(other);
+        BaseType::swap(temp);
+        return *this;
+      }
+
       /** @brief Operator overload for adding a vector expression from another vector expression. */
       self_type operator+(self_type const & other) const
       {
-- 
2.43.0


From 22534f7b9fc82c4a0994f8293d88ba0d2e31d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:28 +0000
Subject: [PATCH 51/51] fix: compile-time integration treated functions of the
 integration variable as constant factors

integrate(y*sin(x), x) over [1,2] returned y*sin(1), and function symbols in products or denominators, refused on their own, were taken for constants. Both are refused now.
---
 viennamath/manipulation/integrate.hpp | 66 +++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 1712e12..dfb1914 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -36,6 +36,53 @@ namespace viennamath
 
   namespace result_of
   {
+    namespace detail
+    {
+      /** @brief Metafunction for testing whether the integration variable may enter an expression. An unknown function depends on every variable. */
+      template <typename VariableType, typename ExpressionType>
+      struct depends_on
+      {
+        static const bool value = false;
+      };
+
+      template <id_type id>
+      struct depends_on < ct_variable<id>, ct_variable<id> >
+      {
+        static const bool value = true;
+      };
+
+      template <id_type id, typename TAG>
+      struct depends_on < ct_variable<id>, ct_function_symbol<TAG> >
+      {
+        static const bool value = true;
+      };
+
+      template <id_type id, typename LHS, typename OP>
+      struct depends_on < ct_variable<id>, ct_unary_expr<LHS, OP> >
+      {
+        static const bool value = depends_on<ct_variable<id>, LHS>::value;
+      };
+
+      template <id_type id, typename LHS, typename OP, typename RHS>
+      struct depends_on < ct_variable<id>, ct_binary_expr<LHS, OP, RHS> >
+      {
+        static const bool value = depends_on<ct_variable<id>, LHS>::value || depends_on<ct_variable<id>, RHS>::value;
+      };
+
+      /** @brief Forces a compile time error if a factor, which is not a polynomial, depends on the integration variable. */
+      template <typename FactorType, bool depends_on_variable>
+      struct constant_factor
+      {
+        typedef typename FactorType::ERROR_FACTOR_DEPENDS_ON_INTEGRATION_VARIABLE    type;
+      };
+
+      template <typename FactorType>
+      struct constant_factor <FactorType, false>
+      {
+        typedef FactorType    type;
+      };
+    }
+
     /** @brief Returns the power of ct_variable<id> inside an expression. */
     template <typename VariableType, typename ExpressionType>
     struct polynomial_degree
@@ -50,6 +97,23 @@ namespace viennamath
       static const int value = 1;
     };
 
+    /** @brief Specialization for unary expressions: Polynomials only if they do not depend on the integration variable. */
+    template <id_type id, typename LHS, typename OP>
+    struct polynomial_degree <ct_variable<id>, ct_unary_expr<LHS, OP> >
+    {
+      typedef ct_unary_expr<LHS, OP>    unary_type;
+      typedef typename detail::constant_factor<unary_type, detail::depends_on<ct_variable<id>, unary_type>::value>::type    factor_type;
+      static const int value = 0;
+    };
+
+    /** @brief Specialization for function symbols, which depend on the integration variable in an unknown way. */
+    template <id_type id, typename TAG>
+    struct polynomial_degree <ct_variable<id>, ct_function_symbol<TAG> >
+    {
+      typedef typename detail::constant_factor<ct_function_symbol<TAG>, true>::type    factor_type;
+      static const int value = 0;
+    };
+
     /** @brief Specialization for forcing a compile time error if a sum of expressions is encountered. */
     template <typename VariableType,
               typename LHS, typename NumericT, typename RHS>
@@ -267,6 +331,8 @@ namespace viennamath
                                               typename viennamath::result_of::substitute<VariableType, ct_constant<0>, RHS>::type
                                             >::type      integrated_type;
 
+        typedef typename constant_factor<RHS, depends_on<VariableType, RHS>::value>::type    denominator_type;
+
         typedef typename viennamath::result_of::simplify<integrated_type>::type    type;
       };
 
-- 
2.43.0

