From 72eb1879eeaf9b4f3ba078ac2f15d94620745396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 01/19] verif: hook facade for runtime monitors behind cfg
 symbolic_verif

---
 src/compute/limit/mod.rs |  24 +++++++++
 src/main.rs              |   2 +
 src/verif_hook.rs        | 103 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 129 insertions(+)
 create mode 100644 src/verif_hook.rs

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index f555e5d..09aad9a 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -81,3 +81,27 @@ impl LimitTry<Expression, Expression> for Expression {
         self.limit(&of, to, order_try)
     }
 }
+
+/// Entry point for the runtime monitors: the limit trait is private to this module.
+#[cfg(symbolic_verif)]
+pub mod verif_hook {
+    use super::*;
+
+    pub fn limit(
+        expr: Expression,
+        of: Expression,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        expr.limit(of, to, order_try)
+    }
+
+    pub fn limit_ref(
+        expr: Expression,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Result<LimitExpression, NoValidLimitFound> {
+        expr.limit(of, to, order_try)
+    }
+}
diff --git a/src/main.rs b/src/main.rs
index a6bc6ae..9844736 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,6 +6,8 @@ mod ast;
 mod compute;
 mod math_op;
 mod smart_num;
+#[cfg(symbolic_verif)]
+pub mod verif_hook;
 
 fn main() {
     println!("Hello, world!");
diff --git a/src/verif_hook.rs b/src/verif_hook.rs
new file mode 100644
index 0000000..d63662c
--- /dev/null
+++ b/src/verif_hook.rs
@@ -0,0 +1,103 @@
+//! Facade for the runtime monitors, compiled only with `--cfg symbolic_verif`.
+//!
+//! This crate is a binary whose API is crate-private. The monitors build it as a
+//! library and reach that API through the re-exports and wrappers below. Nothing
+//! here adds behaviour: every function forwards to the code under observation.
+
+#![allow(dead_code, unused_imports)]
+
+pub use crate::ast::op::operand::{AstOperand, OperandIsNotNumberError, Variable};
+pub use crate::ast::op::operator::OperatorType;
+pub use crate::ast::tree::{AstNode, ExprIsNotNumError, Expression};
+pub use crate::compute::limit::limit_expression::{LimitExpression, NoValidLimitFound};
+pub use crate::compute::limit::verif_hook::{limit, limit_ref};
+pub use crate::compute::num_aggregate::NumAggregate;
+pub use crate::compute::taylor_expansion::partial_expansion::{PartialExpansion, TaylorExpansion};
+pub use crate::math_op::{
+    cos::{cos, Cos},
+    exp::{exp, Exp},
+    ln::{ln, Ln},
+    pow::Pow,
+    sin::{sin, Sin},
+};
+pub use crate::smart_num::rational::{RationalNum, ToRational};
+pub use crate::smart_num::val_holder::IsClose;
+pub use crate::smart_num::{SmartNum, ToSmartNum};
+
+use crate::compute::derivative::Derivative;
+use crate::compute::substitute::Substitute;
+
+/// What stands at the root of an expression.
+pub enum Root<'a> {
+    Num(&'a SmartNum),
+    Variable(&'a str),
+    Operator(OperatorType),
+}
+
+pub fn root(expr: &Expression) -> Root<'_> {
+    match &expr.root {
+        AstNode::Operand(AstOperand::Num(num)) => Root::Num(num),
+        AstNode::Operand(AstOperand::Variable(variable)) => Root::Variable(&variable.name),
+        AstNode::Operator(operator) => Root::Operator(operator.descriptor.clone()),
+    }
+}
+
+pub fn children(expr: &Expression) -> &[Expression] {
+    &expr.child
+}
+
+/// The three ways of naming the variable; errors are rendered to text.
+pub fn derivative_var(expr: Expression, to: &Variable) -> Result<Expression, String> {
+    expr.derivative(to).map_err(|e| e.to_string())
+}
+
+pub fn derivative_ref(expr: Expression, to: &Expression) -> Result<Expression, String> {
+    expr.derivative(to).map_err(|e| e.to_string())
+}
+
+pub fn derivative(expr: Expression, to: Expression) -> Result<Expression, String> {
+    expr.derivative(to).map_err(|e| e.to_string())
+}
+
+pub fn substitute_var(expr: Expression, u: &Variable, v: &Expression) -> Result<Expression, String> {
+    expr.substitute(u, v).map_err(|e| e.to_string())
+}
+
+pub fn substitute_ref(expr: Expression, u: &Expression, v: &Expression) -> Result<Expression, String> {
+    expr.substitute(u, v).map_err(|e| e.to_string())
+}
+
+pub fn substitute(expr: Expression, u: Expression, v: Expression) -> Result<Expression, String> {
+    expr.substitute(u, v).map_err(|e| e.to_string())
+}
+
+pub fn taylor(
+    expr: Expression,
+    of: Expression,
+    at: Expression,
+    order: u64,
+) -> Result<PartialExpansion, String> {
+    expr.taylor_expansion(of, at, order).map_err(|e| e.to_string())
+}
+
+pub fn taylor_ref(
+    expr: Expression,
+    of: &Variable,
+    at: &Expression,
+    order: u64,
+) -> Result<PartialExpansion, String> {
+    expr.taylor_expansion(of, at, order).map_err(|e| e.to_string())
+}
+
+pub fn as_variable(expr: &Expression) -> Option<&Variable> {
+    expr.into()
+}
+
+pub fn into_variable(expr: Expression) -> Option<Variable> {
+    expr.into()
+}
+
+/// The program's entry point.
+pub fn run_main() {
+    crate::main()
+}
-- 
2.43.0


From 22b27dbfd4f1c509b0ca88c831067f9cdcf1f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 02/19] fix: cos(pi) aggregates to -1, not 1

---
 src/compute/num_aggregate/rules/cos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/cos.rs b/src/compute/num_aggregate/rules/cos.rs
index 567f2c1..a27f4c7 100644
--- a/src/compute/num_aggregate/rules/cos.rs
+++ b/src/compute/num_aggregate/rules/cos.rs
@@ -6,8 +6,10 @@ pub(crate) fn cos_eval_rule(mut child: Vec<Expression>) -> Expression {
     let sub = child.pop().unwrap().num_aggregate();
     match &sub.root {
         AstNode::Operand(operand) => {
-            if operand.is_zero() || operand.is_pi() {
+            if operand.is_zero() {
                 Expression::from(1_i64)
+            } else if operand.is_pi() {
+                Expression::from(-1_i64)
             } else {
                 sub.cos()
             }
-- 
2.43.0


From 0cbe45288b3afe4c0668d765e408439925cb2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 03/19] fix: power aggregation looks at the exponent, not at
 the base, for the 0 and 1 rules

---
 src/compute/num_aggregate/rules/pow.rs | 33 ++++++++++----------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/compute/num_aggregate/rules/pow.rs b/src/compute/num_aggregate/rules/pow.rs
index acd3e5b..a0b830a 100644
--- a/src/compute/num_aggregate/rules/pow.rs
+++ b/src/compute/num_aggregate/rules/pow.rs
@@ -1,28 +1,19 @@
-use crate::ast::op::operand::AstOperand;
-use crate::ast::op::operator::OperatorType;
-use crate::ast::tree::{AstNode, Expression};
+use crate::ast::tree::Expression;
 use crate::compute::num_aggregate::NumAggregate;
 use crate::math_op::pow::Pow;
+use crate::smart_num::ToSmartNum;
 
 pub(crate) fn pow_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
-    let mut sub = child.pop().unwrap().num_aggregate();
-    match &sub.root {
-        AstNode::Operand(operand) => match operand {
-            AstOperand::Variable(_) => sub.pow(r),
-            AstOperand::Num(v) => {
-                if v.is_zero() {
-                    Expression::from(1_i64)
-                } else if v.is_one() {
-                    r
-                } else {
-                    sub.pow(r)
-                }
-            }
-        },
-        AstNode::Operator(operator) => match operator.descriptor {
-            OperatorType::Ln => sub.child.pop().unwrap(),
-            _ => sub.pow(r),
-        },
+    let sub = child.pop().unwrap().num_aggregate();
+    let r_is_positive_num = (&r).to_smart_num().map_or(false, |v| v.sign() > 0);
+    if r.is_zero() || sub.is_one() {
+        Expression::from(1_i64)
+    } else if r.is_one() {
+        sub
+    } else if sub.is_zero() && r_is_positive_num {
+        Expression::from(0_i64)
+    } else {
+        sub.pow(r)
     }
 }
-- 
2.43.0


From c086d768d2af30bce521adbf0fe32f813a54a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 04/19] fix: zero divided by zero is not zero

---
 src/smart_num/val_holder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index 6514344..fe94a2f 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -278,7 +278,7 @@ impl Div for SmartNumVal {
     type Output = SmartNumVal;
 
     fn div(self, rhs: Self) -> Self::Output {
-        if self.is_zero() {
+        if self.is_zero() && rhs.to_f64() != 0.0 {
             SmartNumVal::Integer(0_i64)
         } else {
             match self {
-- 
2.43.0


From 4ac41a2ef9cd6ff56637b6c2b1522a9576d35f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 05/19] fix: u64 values above i64::MAX convert to fractions
 instead of wrapping

---
 src/smart_num/val_holder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index fe94a2f..f1cc82f 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -194,7 +194,10 @@ impl From<i32> for SmartNumVal {
 
 impl From<u64> for SmartNumVal {
     fn from(v: u64) -> Self {
-        SmartNumVal::Integer(v as i64)
+        i64::try_from(v).map_or(
+            SmartNumVal::Rational(RationalNum::from(v)),
+            SmartNumVal::Integer,
+        )
     }
 }
 
-- 
2.43.0


From 3dd20a213fc6c32cca1c6309e6755a572713e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 06/19] fix: i64::MIN as fraction sign or value overflows abs

---
 src/smart_num/rational.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index 438aa11..cb2fe8c 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -55,7 +55,7 @@ impl RationalNum {
     }
 
     pub fn new(sign: i64, nominator: u64, denominator: u64) -> Option<RationalNum> {
-        if sign.abs() == 1 && denominator != 0 {
+        if (sign == 1 || sign == -1) && denominator != 0 {
             Some(RationalNum {
                 sign,
                 nominator,
@@ -174,7 +174,7 @@ impl From<i64> for RationalNum {
     fn from(v: i64) -> Self {
         RationalNum {
             sign: if v == 0 { 1_i64 } else { v.signum() },
-            nominator: v.abs() as u64,
+            nominator: v.unsigned_abs(),
             denominator: 1,
         }
     }
-- 
2.43.0


From 86eca14b4e4be6d93db3e139deab302c5d656c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 07/19] fix: fraction arithmetic overflows in intermediates and
 yields a zero with sign 0

---
 src/smart_num/rational.rs | 99 ++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 42 deletions(-)

diff --git a/src/smart_num/rational.rs b/src/smart_num/rational.rs
index cb2fe8c..28a99d5 100644
--- a/src/smart_num/rational.rs
+++ b/src/smart_num/rational.rs
@@ -90,22 +90,64 @@ impl Neg for RationalNum {
     }
 }
 
-impl Add for RationalNum {
-    type Output = RationalNum;
+impl RationalNum {
+    // The exact results in lowest terms, or None if they do not fit.
 
-    fn add(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
-        let s = a + b;
-        let sign = s.signum();
-        let nominator = s.abs() as u64;
-        let denominator = self.denominator * rhs.denominator;
+    pub(super) fn checked_add(self, rhs: Self) -> Option<RationalNum> {
+        let x = self.reduce();
+        let y = rhs.reduce();
+        // Over the least common denominator; the numerators' sum can only share
+        // a factor of g with it.
+        let g = gcd(x.denominator, y.denominator).max(1);
+        let a = (x.nominator as u128) * ((y.denominator / g) as u128);
+        let b = (y.nominator as u128) * ((x.denominator / g) as u128);
+        let d = ((x.denominator / g) as u128) * (y.denominator as u128);
+        let (sign, s) = if x.sign == y.sign {
+            (x.sign, a.checked_add(b)?)
+        } else if a >= b {
+            (if a == b { 1_i64 } else { x.sign }, a - b)
+        } else {
+            (y.sign, b - a)
+        };
+        let h = gcd((s % (g as u128)) as u64, g) as u128;
         let res = RationalNum {
             sign,
-            nominator,
-            denominator,
+            nominator: u64::try_from(s / h).ok()?,
+            denominator: u64::try_from(d / h).ok()?,
         };
-        res.reduce()
+        Some(res.reduce())
+    }
+
+    pub(super) fn checked_sub(self, rhs: Self) -> Option<RationalNum> {
+        self.checked_add(-rhs)
+    }
+
+    pub(super) fn checked_mul(self, rhs: Self) -> Option<RationalNum> {
+        let x = self.reduce();
+        let y = rhs.reduce();
+        let g = gcd(x.nominator, y.denominator).max(1);
+        let h = gcd(y.nominator, x.denominator).max(1);
+        Some(RationalNum {
+            sign: x.sign * y.sign,
+            nominator: (x.nominator / g).checked_mul(y.nominator / h)?,
+            denominator: (x.denominator / h).checked_mul(y.denominator / g)?,
+        })
+    }
+
+    pub(super) fn checked_div(self, rhs: Self) -> Option<RationalNum> {
+        self.checked_mul(RationalNum {
+            sign: rhs.sign,
+            nominator: rhs.denominator,
+            denominator: rhs.nominator,
+        })
+    }
+}
+
+impl Add for RationalNum {
+    type Output = RationalNum;
+
+    fn add(self, rhs: Self) -> Self::Output {
+        self.checked_add(rhs).expect("rational number overflow")
     }
 }
 
@@ -113,18 +155,7 @@ impl Sub for RationalNum {
     type Output = RationalNum;
 
     fn sub(self, rhs: Self) -> Self::Output {
-        let a = ((self.nominator * rhs.denominator) as i64) * self.sign;
-        let b = ((self.denominator * rhs.nominator) as i64) * rhs.sign;
-        let s = a - b;
-        let sign = s.signum();
-        let nominator = s.abs() as u64;
-        let denominator = self.denominator * rhs.denominator;
-        let res = RationalNum {
-            sign,
-            nominator,
-            denominator,
-        };
-        res.reduce()
+        self.checked_sub(rhs).expect("rational number overflow")
     }
 }
 
@@ -132,15 +163,7 @@ impl Mul for RationalNum {
     type Output = RationalNum;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        let sign = self.sign * rhs.sign;
-        let nominator = self.nominator * rhs.nominator;
-        let denominator = self.denominator * rhs.denominator;
-        let res = RationalNum {
-            sign,
-            nominator,
-            denominator,
-        };
-        res.reduce()
+        self.checked_mul(rhs).expect("rational number overflow")
     }
 }
 
@@ -148,15 +171,7 @@ impl Div for RationalNum {
     type Output = RationalNum;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let sign = self.sign * rhs.sign;
-        let nominator = self.nominator * rhs.denominator;
-        let denominator = self.denominator * rhs.nominator;
-        let res = RationalNum {
-            sign,
-            nominator,
-            denominator,
-        };
-        res.reduce()
+        self.checked_div(rhs).expect("rational number overflow")
     }
 }
 
-- 
2.43.0


From 049dd40d94429bd1f162e6b10ac63e686df87678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 08/19] fix: integer and fraction overflow continues as
 fraction or real instead of wrapping or panicking

---
 src/smart_num/val_holder.rs | 44 +++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/smart_num/val_holder.rs b/src/smart_num/val_holder.rs
index f1cc82f..1201d35 100644
--- a/src/smart_num/val_holder.rs
+++ b/src/smart_num/val_holder.rs
@@ -92,6 +92,34 @@ impl SmartNumVal {
         RationalNum::new(sign, nominator, denominator).and_then(|v| Some(SmartNumVal::Rational(v)))
     }
 
+    fn to_exact(self) -> Option<RationalNum> {
+        match self {
+            SmartNumVal::Integer(v) => Some(RationalNum::from(v)),
+            SmartNumVal::Rational(v) => Some(v),
+            SmartNumVal::Real(_) => None,
+        }
+    }
+
+    /// What an operation on two exact numbers yields if the result overflows: an integer
+    /// overflow is continued as fraction, a fraction overflow as real. None if it does not.
+    fn on_overflow(
+        self,
+        rhs: Self,
+        integer_op: fn(i64, i64) -> Option<i64>,
+        rational_op: fn(RationalNum, RationalNum) -> Option<RationalNum>,
+        real_op: fn(f64, f64) -> f64,
+    ) -> Option<SmartNumVal> {
+        let exact = rational_op(self.to_exact()?, rhs.to_exact()?);
+        match (self, rhs, exact) {
+            (_, _, None) => Some(SmartNumVal::Real(real_op(self.to_f64(), rhs.to_f64()))),
+            (SmartNumVal::Integer(i), SmartNumVal::Integer(j), Some(v)) => match integer_op(i, j) {
+                Some(_) => None,
+                None => Some(SmartNumVal::Rational(v)),
+            },
+            _ => None,
+        }
+    }
+
     pub fn zero() -> SmartNumVal {
         SmartNumVal::from(0_i64)
     }
@@ -205,6 +233,10 @@ impl Add for SmartNumVal {
     type Output = SmartNumVal;
 
     fn add(self, rhs: Self) -> Self::Output {
+        if let Some(v) = self.on_overflow(rhs, i64::checked_add, RationalNum::checked_add, Add::add)
+        {
+            return v;
+        }
         match self {
             SmartNumVal::Integer(i) => match rhs {
                 SmartNumVal::Integer(j) => SmartNumVal::Integer(i + j),
@@ -229,6 +261,10 @@ impl Sub for SmartNumVal {
     type Output = SmartNumVal;
 
     fn sub(self, rhs: Self) -> Self::Output {
+        if let Some(v) = self.on_overflow(rhs, i64::checked_sub, RationalNum::checked_sub, Sub::sub)
+        {
+            return v;
+        }
         match self {
             SmartNumVal::Integer(i) => match rhs {
                 SmartNumVal::Integer(j) => SmartNumVal::Integer(i - j),
@@ -253,6 +289,10 @@ impl Mul for SmartNumVal {
     type Output = SmartNumVal;
 
     fn mul(self, rhs: Self) -> Self::Output {
+        if let Some(v) = self.on_overflow(rhs, i64::checked_mul, RationalNum::checked_mul, Mul::mul)
+        {
+            return v;
+        }
         if self.is_zero() || rhs.is_zero() {
             SmartNumVal::Integer(0_i64)
         } else {
@@ -281,6 +321,9 @@ impl Div for SmartNumVal {
     type Output = SmartNumVal;
 
     fn div(self, rhs: Self) -> Self::Output {
+        if let Some(v) = self.on_overflow(rhs, |i, _| Some(i), RationalNum::checked_div, Div::div) {
+            return v;
+        }
         if self.is_zero() && rhs.to_f64() != 0.0 {
             SmartNumVal::Integer(0_i64)
         } else {
@@ -312,6 +355,7 @@ impl Neg for &SmartNumVal {
 
     fn neg(self) -> Self::Output {
         match self {
+            SmartNumVal::Integer(i64::MIN) => SmartNumVal::Rational(-RationalNum::from(i64::MIN)),
             SmartNumVal::Integer(v) => SmartNumVal::Integer(-*v),
             SmartNumVal::Rational(v) => SmartNumVal::Rational(-*v),
             SmartNumVal::Real(v) => SmartNumVal::Real(-*v),
-- 
2.43.0


From abae17e2e7f39981fd3dd217dc0e22d4a921c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 09/19] fix: printed expressions lose parentheses that their
 meaning needs

---
 src/ast/tree.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/ast/tree.rs b/src/ast/tree.rs
index e598fa5..5e6f616 100644
--- a/src/ast/tree.rs
+++ b/src/ast/tree.rs
@@ -2,7 +2,7 @@
 
 use super::op::{
     operand::{AstOperand, Variable},
-    operator::AstOperator,
+    operator::{AstOperator, OperatorType},
 };
 use crate::smart_num::{
     rational::{RationalNum, ToRational},
@@ -78,19 +78,35 @@ impl Expression {
 
     fn to_string_raw(&self, upper_priority: u32) -> String {
         match &self.root {
-            AstNode::Operand(v) => v.to_string(),
+            AstNode::Operand(v) => {
+                let me = v.to_string();
+                // A negative number reads as a negation and a fraction as a quotient.
+                if upper_priority > 4 && v.is_num() && me.contains(['-', '/']) {
+                    format!("({})", me)
+                } else {
+                    me
+                }
+            }
             AstNode::Operator(op) => {
+                // Operands of equal priority need parentheses where grouping to the left
+                // or no grouping at all would change the meaning.
+                let (left, right) = match op.descriptor {
+                    OperatorType::Neg => (3, 3),
+                    OperatorType::Sub | OperatorType::Div => (op.priority, op.priority + 1),
+                    OperatorType::Pow => (op.priority + 1, op.priority + 1),
+                    _ => (op.priority, op.priority),
+                };
                 let me = if self.child.len() == 2 {
                     // binary operator
                     format!(
                         "{} {} {}",
-                        self.child[0].to_string_raw(op.priority),
+                        self.child[0].to_string_raw(left),
                         op,
-                        self.child[1].to_string_raw(op.priority),
+                        self.child[1].to_string_raw(right),
                     )
                 } else {
                     // unary operator
-                    format!("{}{}", op, self.child[0].to_string_raw(op.priority),)
+                    format!("{}{}", op, self.child[0].to_string_raw(left),)
                 };
                 if op.priority < upper_priority {
                     format!("({})", me)
-- 
2.43.0


From 84c7205bf1cc9945c47bb48d29a14599428aa36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 10/19] fix: sums as Taylor coefficients are printed without
 parentheses

---
 src/compute/taylor_expansion/partial_expansion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/taylor_expansion/partial_expansion.rs b/src/compute/taylor_expansion/partial_expansion.rs
index 3bddce5..6c321ed 100644
--- a/src/compute/taylor_expansion/partial_expansion.rs
+++ b/src/compute/taylor_expansion/partial_expansion.rs
@@ -26,8 +26,8 @@ impl Display for PartialExpansion {
             if term.is_zero() {
                 continue;
             }
-            content.push_str(format!("{} * ", term).as_str());
-            content.push_str(format!("{}", b.clone().pow(idx as i64)).as_str());
+            let product = term.clone() * b.clone().pow(idx as i64);
+            content.push_str(format!("{}", product).as_str());
             content.push_str(" + ")
         }
         content.push_str(format!("O({})", b.clone().pow(self.order + 1),).as_str());
-- 
2.43.0


From cfe084302098507245dbdc2497f9fea93caa49b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 11/19] fix: derivative of a constant power is undefined where
 the base is zero

---
 src/compute/derivative/rules/pow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compute/derivative/rules/pow.rs b/src/compute/derivative/rules/pow.rs
index 79c7870..245a824 100644
--- a/src/compute/derivative/rules/pow.rs
+++ b/src/compute/derivative/rules/pow.rs
@@ -13,6 +13,10 @@ pub(crate) fn pow_derivative_rule(
     let u = child.pop().unwrap();
     let r_d = r.clone().derivative(to)?;
     let u_d = u.clone().derivative(to)?;
+    if r_d.is_zero() {
+        // (u^r)' = r * u^(r-1) * u' for constant r, also where u is 0 or negative
+        return Ok(r.clone() * u.pow(r - Expression::one()) * u_d);
+    }
     let ln_u = u.clone().ln();
     let u_pow_r = u.clone().pow(r.clone());
     return Ok(u_pow_r * (r_d * ln_u + r * u_d / u));
-- 
2.43.0


From 77fd1bdc6cac491d23c416de43224fe10bb5d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 12/19] fix: limit of a negation takes the limit of its operand

---
 src/compute/limit/mod.rs       | 2 +-
 src/compute/limit/rules/neg.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 09aad9a..18bbd33 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -45,7 +45,7 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 }
             },
             AstNode::Operator(operator) => match operator.descriptor {
-                OperatorType::Neg => Ok(self.neg_limit_expr_rule(of, to, order_try)),
+                OperatorType::Neg => self.neg_limit_expr_rule(of, to, order_try),
                 OperatorType::Add => self.add_limit_expr_rule(of, to, order_try),
                 OperatorType::Sub => self.sub_limit_expr_rule(of, to, order_try),
                 OperatorType::Mul => self.mul_limit_expr_rule(of, to, order_try),
diff --git a/src/compute/limit/rules/neg.rs b/src/compute/limit/rules/neg.rs
index c254f46..006f000 100644
--- a/src/compute/limit/rules/neg.rs
+++ b/src/compute/limit/rules/neg.rs
@@ -1,6 +1,9 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::limit::limit_expression::LimitExpression,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
+    },
 };
 
 pub(crate) trait NegLimitExprRule {
@@ -9,10 +12,10 @@ pub(crate) trait NegLimitExprRule {
 }
 
 impl NegLimitExprRule for Expression {
-    type Output = LimitExpression;
+    type Output = Result<LimitExpression, NoValidLimitFound>;
 
     fn neg_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
         let sub = self.child.pop().unwrap();
-        -sub.neg_limit_expr_rule(of, to, order_try)
+        Ok(-sub.limit(of, to, order_try)?)
     }
 }
-- 
2.43.0


From d3e0fd093de3d579bf89ab86587b3387e9001bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 13/19] fix: a limit value that aggregates to zero is
 infinitesimal

---
 src/compute/limit/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 18bbd33..32220fb 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -63,7 +63,14 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
         };
         return if flag {
             match z {
-                LimitExpression::Normal(expr) => Ok(LimitExpression::Normal(expr.num_aggregate())),
+                LimitExpression::Normal(expr) => {
+                    let expr = expr.num_aggregate();
+                    if expr.is_zero() {
+                        Ok(LimitExpression::Infinitesimal)
+                    } else {
+                        Ok(LimitExpression::Normal(expr))
+                    }
+                }
                 _ => Err(NoValidLimitFound {}), // Unreachable
             }
         } else {
-- 
2.43.0


From 925d517167bca685ada901311c382359258a788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 14/19] fix: limit with respect to a non-variable is an error,
 not a panic

---
 src/compute/limit/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 32220fb..5c8fd34 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -84,7 +84,7 @@ impl LimitTry<Expression, Expression> for Expression {
 
     fn limit(self, of_: Expression, to: Expression, order_try: u64) -> Self::Output {
         let of_raw: Option<Variable> = of_.into();
-        let of = of_raw.unwrap();
+        let of = of_raw.ok_or(NoValidLimitFound {})?;
         self.limit(&of, to, order_try)
     }
 }
-- 
2.43.0


From 2ece7b9aa70d6c5ea7184d6f3fd7c93bc361c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 15/19] fix: limits of sin and cos follow the limit of their
 argument

---
 src/compute/limit/rules/cos.rs | 28 +++++++++++++---------------
 src/compute/limit/rules/sin.rs | 32 +++++++++++++-------------------
 2 files changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/compute/limit/rules/cos.rs b/src/compute/limit/rules/cos.rs
index 0f920b5..388a4d2 100644
--- a/src/compute/limit/rules/cos.rs
+++ b/src/compute/limit/rules/cos.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::cos::Cos,
 };
 
 pub(crate) trait CosLimitExprRule {
@@ -17,16 +17,14 @@ pub(crate) trait CosLimitExprRule {
 impl CosLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn cos_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        self.substitute(of, &to)
-            .map_err(|_| NoValidLimitFound {})
-            .map(|expr| {
-                let z = expr.num_aggregate();
-                if z.is_zero() {
-                    LimitExpression::Infinitesimal
-                } else {
-                    LimitExpression::Normal(z)
-                }
-            })
+    fn cos_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        Ok(match sub.limit(of, to, order_try)? {
+            LimitExpression::Infinitesimal => LimitExpression::Normal(Expression::one()),
+            LimitExpression::Normal(expr) => LimitExpression::Normal(expr.cos()),
+            LimitExpression::Infinity | LimitExpression::BoundedFluctuation => {
+                LimitExpression::BoundedFluctuation
+            }
+        })
     }
 }
diff --git a/src/compute/limit/rules/sin.rs b/src/compute/limit/rules/sin.rs
index 9f877e1..610e20e 100644
--- a/src/compute/limit/rules/sin.rs
+++ b/src/compute/limit/rules/sin.rs
@@ -1,10 +1,10 @@
 use crate::{
     ast::{op::operand::Variable, tree::Expression},
-    compute::{
-        limit::limit_expression::{LimitExpression, NoValidLimitFound},
-        num_aggregate::NumAggregate,
-        substitute::Substitute,
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
     },
+    math_op::sin::Sin,
 };
 
 pub(crate) trait SinLimitExprRule {
@@ -17,20 +17,14 @@ pub(crate) trait SinLimitExprRule {
 impl SinLimitExprRule for Expression {
     type Output = Result<LimitExpression, NoValidLimitFound>;
 
-    fn sin_limit_expr_rule(self, of: &Variable, to: Expression, _order_try: u64) -> Self::Output {
-        if to.is_zero() {
-            Ok(LimitExpression::Infinitesimal)
-        } else {
-            self.substitute(of, &to)
-                .map_err(|_| NoValidLimitFound {})
-                .map(|expr| {
-                    let z = expr.num_aggregate();
-                    if z.is_zero() {
-                        LimitExpression::Infinitesimal
-                    } else {
-                        LimitExpression::Normal(z)
-                    }
-                })
-        }
+    fn sin_limit_expr_rule(mut self, of: &Variable, to: Expression, order_try: u64) -> Self::Output {
+        let sub = self.child.pop().unwrap();
+        Ok(match sub.limit(of, to, order_try)? {
+            LimitExpression::Infinitesimal => LimitExpression::Infinitesimal,
+            LimitExpression::Normal(expr) => LimitExpression::Normal(expr.sin()),
+            LimitExpression::Infinity | LimitExpression::BoundedFluctuation => {
+                LimitExpression::BoundedFluctuation
+            }
+        })
     }
 }
-- 
2.43.0


From b4877c409e1d485037ced1f8086c8d12fbb31fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 16/19] fix: limits of exp, ln and pow panic instead of giving
 a limit or an error

---
 src/compute/limit/mod.rs              |  8 ++---
 src/compute/limit/rules/continuous.rs | 43 +++++++++++++++++++++++++++
 src/compute/limit/rules/mod.rs        |  3 +-
 3 files changed, 49 insertions(+), 5 deletions(-)
 create mode 100644 src/compute/limit/rules/continuous.rs

diff --git a/src/compute/limit/mod.rs b/src/compute/limit/mod.rs
index 5c8fd34..3a3a0f2 100644
--- a/src/compute/limit/mod.rs
+++ b/src/compute/limit/mod.rs
@@ -12,7 +12,7 @@ use crate::{
 use self::{
     limit_expression::{LimitExpression, NoValidLimitFound},
     rules::{
-        add::AddLimitExprRule, div::DivLimitExprRule, mul::MulLimitExprRule, neg::NegLimitExprRule,
+        add::AddLimitExprRule, continuous::ContinuousLimitExprRule, div::DivLimitExprRule, mul::MulLimitExprRule, neg::NegLimitExprRule,
         sub::SubLimitExprRule, sin::SinLimitExprRule, cos::CosLimitExprRule,
     },
 };
@@ -52,9 +52,9 @@ impl<'a> LimitTry<&'a Variable, Expression> for Expression {
                 OperatorType::Div => self.div_limit_expr_rule(of, to, order_try),
                 OperatorType::Sin => self.sin_limit_expr_rule(of, to, order_try),
                 OperatorType::Cos => self.cos_limit_expr_rule(of, to, order_try),
-                OperatorType::Exp => todo!(),
-                OperatorType::Ln => todo!(),
-                OperatorType::Pow => todo!(),
+                OperatorType::Exp | OperatorType::Ln | OperatorType::Pow => {
+                    self.continuous_limit_expr_rule(of, to, order_try)
+                }
             },
         }?;
         let flag = match &z {
diff --git a/src/compute/limit/rules/continuous.rs b/src/compute/limit/rules/continuous.rs
new file mode 100644
index 0000000..b971f49
--- /dev/null
+++ b/src/compute/limit/rules/continuous.rs
@@ -0,0 +1,43 @@
+use crate::{
+    ast::{op::operand::Variable, op::operator::OperatorType, tree::AstNode, tree::Expression},
+    compute::limit::{
+        limit_expression::{LimitExpression, NoValidLimitFound},
+        LimitTry,
+    },
+};
+
+pub(crate) trait ContinuousLimitExprRule {
+    type Output;
+    fn continuous_limit_expr_rule(
+        self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output;
+}
+
+impl ContinuousLimitExprRule for Expression {
+    type Output = Result<LimitExpression, NoValidLimitFound>;
+
+    /// exp, ln and pow where they are continuous: the value at the operands' limits.
+    fn continuous_limit_expr_rule(
+        mut self,
+        of: &Variable,
+        to: Expression,
+        order_try: u64,
+    ) -> Self::Output {
+        let is_exp = match &self.root {
+            AstNode::Operator(operator) => operator.descriptor == OperatorType::Exp,
+            AstNode::Operand(_) => false,
+        };
+        for (idx, sub) in self.child.iter_mut().enumerate() {
+            *sub = match sub.clone().limit(of, to.clone(), order_try)? {
+                LimitExpression::Normal(expr) => expr,
+                // zero is fine for exp and as exponent, but not for ln and as base
+                LimitExpression::Infinitesimal if is_exp || idx == 1 => Expression::zero(),
+                _ => return Err(NoValidLimitFound {}),
+            };
+        }
+        Ok(LimitExpression::Normal(self))
+    }
+}
diff --git a/src/compute/limit/rules/mod.rs b/src/compute/limit/rules/mod.rs
index db2f72c..1f5b7b2 100644
--- a/src/compute/limit/rules/mod.rs
+++ b/src/compute/limit/rules/mod.rs
@@ -4,4 +4,5 @@ pub(crate) mod sub;
 pub(crate) mod mul;
 pub(crate) mod div;
 pub(crate) mod sin;
-pub(crate) mod cos;
\ No newline at end of file
+pub(crate) mod cos;
+pub(crate) mod continuous;
-- 
2.43.0


From 1820708564f3d3648995ee4e86c2b3283a7d8b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 17/19] fix: l'Hopital's rule is applied to forms it does not
 cover and without bound

---
 src/compute/limit/rules/div.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/compute/limit/rules/div.rs b/src/compute/limit/rules/div.rs
index 0fde3d5..f9cc1c0 100644
--- a/src/compute/limit/rules/div.rs
+++ b/src/compute/limit/rules/div.rs
@@ -26,13 +26,23 @@ impl DivLimitExprRule for Expression {
         let mut r = self.child.pop().unwrap();
         let mut l = self.child.pop().unwrap();
         // l/r
-        for _ in 0..=order_try {
-            let a = l.clone().limit(of, to.clone(), order_try)?;
-            let b = r.clone().limit(of, to.clone(), order_try)?;
+        for k in 0..=order_try {
+            // Differentiations inside count as well, otherwise this may not terminate.
+            let a = l.clone().limit(of, to.clone(), order_try - k)?;
+            let b = r.clone().limit(of, to.clone(), order_try - k)?;
+            let is_indeterminate = match (&a, &b) {
+                (LimitExpression::Infinitesimal, LimitExpression::Infinitesimal) => true,
+                (LimitExpression::Infinity, LimitExpression::Infinity) => true,
+                _ => false,
+            };
             let z = a / b;
             if z.is_ok() {
                 return Ok(z.unwrap());
             }
+            if !is_indeterminate {
+                // l'Hopital's rule says nothing about other forms
+                return Err(NoValidLimitFound {});
+            }
             l = l.derivative(of).map_err(|_| NoValidLimitFound {})?;
             r = r.derivative(of).map_err(|_| NoValidLimitFound {})?;
         }
-- 
2.43.0


From f8e09defb5a6148f8223456c5b099f52b4e67c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 18/19] fix: infinitesimal plus infinity is infinity

---
 src/compute/limit/limit_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/limit/limit_expression.rs b/src/compute/limit/limit_expression.rs
index 76bdce6..2c0bc39 100644
--- a/src/compute/limit/limit_expression.rs
+++ b/src/compute/limit/limit_expression.rs
@@ -53,7 +53,7 @@ impl Add for LimitExpression {
         match self {
             LimitExpression::Infinitesimal => match rhs {
                 LimitExpression::Infinitesimal => Ok(LimitExpression::Infinitesimal),
-                LimitExpression::Infinity => Err(NoValidLimitFound {}),
+                LimitExpression::Infinity => Ok(LimitExpression::Infinity),
                 LimitExpression::BoundedFluctuation => Ok(LimitExpression::BoundedFluctuation),
                 LimitExpression::Normal(r) => Ok(LimitExpression::Normal(r)),
             },
-- 
2.43.0


From eee234968b831a750f1c6a37f63517901492adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 19/19] fix: zero to the real power 0.0 aggregates to 0 instead
 of staying symbolic

---
 src/compute/num_aggregate/rules/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/num_aggregate/rules/pow.rs b/src/compute/num_aggregate/rules/pow.rs
index a0b830a..557007e 100644
--- a/src/compute/num_aggregate/rules/pow.rs
+++ b/src/compute/num_aggregate/rules/pow.rs
@@ -6,7 +6,7 @@ use crate::smart_num::ToSmartNum;
 pub(crate) fn pow_eval_rule(mut child: Vec<Expression>) -> Expression {
     let r = child.pop().unwrap().num_aggregate();
     let sub = child.pop().unwrap().num_aggregate();
-    let r_is_positive_num = (&r).to_smart_num().map_or(false, |v| v.sign() > 0);
+    let r_is_positive_num = (&r).to_smart_num().map_or(false, |v| v.to_f64() > 0.0);
     if r.is_zero() || sub.is_one() {
         Expression::from(1_i64)
     } else if r.is_one() {
-- 
2.43.0

