From a81836c3ffea0425c405feb32513ad0561c92f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 01/46] fix: index the field of a one-variant enum even when it
 is one bit wide

A single variant enum has no tag, so a one bit field of a wider payload was emitted as the
whole vector and its low bit was used.
---
 spade-mir/src/codegen/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index b057787..a4abcb8 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -705,8 +705,9 @@ fn forward_expression_code(
             let member_end = &member_start + variant_list[*variant][*member_index].size();
 
             let upper_idx = &full_size - &member_start - 1u32.to_biguint();
-            let lower_idx = full_size - &member_end;
-            if upper_idx == lower_idx && tag_size == 0 {
+            let lower_idx = &full_size - &member_end;
+            // A one bit wide enum is declared as a scalar which can't be indexed
+            if full_size == 1u32.to_biguint() {
                 op_names[0].clone()
             } else {
                 format!("{}[{}:{}]", op_names[0], upper_idx, lower_idx)
-- 
2.43.0


From 8558d39464a59e7dd54850114cbe46a7737255ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 02/46] fix: allow any width in the type suffix of an octal
 literal

The suffix of 0o17u8 or 0o7u9 was lexed with octal digits only.
---
 spade-ast/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-ast/src/token.rs b/spade-ast/src/token.rs
index 3a6e9c1..5f70ebe 100644
--- a/spade-ast/src/token.rs
+++ b/spade-ast/src/token.rs
@@ -57,7 +57,7 @@ pub enum TokenKind {
         parse_int(&lex.slice()[2..], 16)
     })]
     HexInteger((BigUint, LiteralKind)),
-    #[regex(r"0o[0-7][0-7_]*([uUiI][0-7]*)?", |lex| {
+    #[regex(r"0o[0-7][0-7_]*([uUiI][0-9]*)?", |lex| {
         parse_int(&lex.slice()[2..], 8)
     })]
     OctInteger((BigUint, LiteralKind)),
-- 
2.43.0


From 3793e7ed6252f1f059528c10d3cd1d5975703618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 03/46] fix: require the last value of an integer type to be
 matched

Integer patterns were treated as the inclusive range val..val+1, so a match that covered
the second largest value was taken to cover the largest one too.
---
 spade-hir-lowering/src/pattern.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 4927d02..d77e25c 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -12,7 +12,7 @@ use crate::{Context, MirLowerable};
 
 /// Takes a list of integer range constructors which are possibly overlapping and
 /// creates consecutive non-overlapping constructors with edges at each point where
-/// any original edge has a range.
+/// any original edge has a range. Both ends of a range are included in it.
 ///
 /// The following input:
 /// ```text
@@ -32,7 +32,7 @@ fn split_int_range(
     let mut edges = other_ctors
         .flat_map(|other| {
             let (min, max) = other.as_range();
-            [min, max]
+            [min, max + 1u32.to_bigint()]
         })
         .collect::<Vec<_>>();
     edges.sort();
@@ -41,7 +41,7 @@ fn split_int_range(
     let mut result = vec![];
     let mut current_low = min.clone();
 
-    for edge in edges.into_iter().filter(|e| e > &min && e < &max) {
+    for edge in edges.into_iter().filter(|e| e > &min && e <= &max) {
         result.push(Constructor::IntRange {
             min: current_low,
             max: &edge - 1u32.to_bigint(),
@@ -327,7 +327,7 @@ impl DeconstructedPattern {
             spade_hir::PatternKind::Integer(val) => (
                 Constructor::IntRange {
                     min: val.clone(),
-                    max: (val + 1),
+                    max: val.clone(),
                 },
                 vec![],
             ),
-- 
2.43.0


From 838992434081c98f14d7704f3afcf644aaf98a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 04/46] fix: report a match whose integer wildcard arms are all
 guarded

Attaching the 'branch has a predicate' note compared an integer range with a wildcard,
which panicked.
---
 spade-hir-lowering/src/pattern.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index d77e25c..9015950 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -213,7 +213,12 @@ impl Constructor {
     ) -> Vec<Self> {
         match self {
             Self::Wildcard => split_wildcard(ty, other_ctors),
-            Self::IntRange { min, max } => split_int_range(min.clone(), max.clone(), other_ctors),
+            // A wildcard covers the whole range, it has no edges to split at
+            Self::IntRange { min, max } => split_int_range(
+                min.clone(),
+                max.clone(),
+                other_ctors.filter(|ctor| !matches!(ctor, Self::Wildcard)),
+            ),
             _ => vec![self.clone()],
         }
     }
-- 
2.43.0


From 9f3e09a7f68d6b5e932c15d6007963372adb0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 05/46] fix: check exhaustiveness of patterns next to a clock
 or port

A clock, tri, inout or memory had no constructors, so every match on a tuple with one of them
was accepted. Reporting a missing pattern next to a backward port panicked.
---
 spade-hir-lowering/src/pattern.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/spade-hir-lowering/src/pattern.rs b/spade-hir-lowering/src/pattern.rs
index 9015950..c00e670 100644
--- a/spade-hir-lowering/src/pattern.rs
+++ b/spade-hir-lowering/src/pattern.rs
@@ -129,13 +129,13 @@ pub(crate) fn split_wildcard(
 
                 group_missing_constructors(all_ctors, other_ctors)
             }
-            // Bit literals can't be matched on because you can't compare against z in hardware
-            spade_types::PrimitiveType::Tri => vec![],
-            // Special types for which there are no constructors which makes matching
-            // on them impossible
-            spade_types::PrimitiveType::Clock
+            // Bit literals can't be matched on because you can't compare against z in hardware,
+            // and there are no patterns for the other types. Wildcards still match them so
+            // they need a constructor, otherwise anything containing them seems exhaustive
+            spade_types::PrimitiveType::Tri
+            | spade_types::PrimitiveType::Clock
             | spade_types::PrimitiveType::Memory
-            | spade_types::PrimitiveType::InOut => vec![],
+            | spade_types::PrimitiveType::InOut => vec![Constructor::Single],
         },
         ConcreteType::Backward(_) => vec![Constructor::Single],
         ConcreteType::CopyView(_) => vec![Constructor::Single],
@@ -440,8 +440,7 @@ impl std::fmt::Display for DeconstructedPattern {
                 ConcreteType::Integer(_) => unreachable!("Pattern on type level integer"),
                 ConcreteType::Bool(_) => unreachable!("Pattern on type level bool"),
                 ConcreteType::String(_) => unreachable!("Pattern on a type level string"),
-                ConcreteType::Backward(_) => unreachable!("Pattern on backward type"),
-                ConcreteType::CopyView(_) => unreachable!("Pattern on copy view"),
+                ConcreteType::Backward(_) | ConcreteType::CopyView(_) => write!(f, "_"),
             },
             Constructor::Variant(idx) => match &self.ty {
                 ConcreteType::Enum { options } => {
-- 
2.43.0


From b1a08451488f8b496bf15fd161699a16d4e97e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 06/46] fix: reject enum variants in let and reg patterns that
 may not match

A variant whose fields are all bound was considered irrefutable even when the enum has other
variants, so 'let Some(x) = a' read the payload of None.
---
 spade-hir-lowering/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 647896d..0536f1c 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -877,19 +877,25 @@ impl PatternLocal for Loc<Pattern> {
         }
     }
 
-    fn is_trivially_irrefutable(&self) -> bool {
+    fn is_trivially_irrefutable(&self, ctx: &Context) -> bool {
         match &self.kind {
             spade_hir::PatternKind::Integer(_) => false,
             spade_hir::PatternKind::Bool(_) => false,
             spade_hir::PatternKind::Bound { inner, .. } => inner
                 .as_ref()
-                .map(|pat| pat.is_trivially_irrefutable())
+                .map(|pat| pat.is_trivially_irrefutable(ctx))
                 .unwrap_or(true),
             spade_hir::PatternKind::Tuple(inner) | spade_hir::PatternKind::Array(inner) => {
-                inner.iter().all(Self::is_trivially_irrefutable)
+                inner.iter().all(|pat| pat.is_trivially_irrefutable(ctx))
             }
-            spade_hir::PatternKind::Type(_, inner) => {
-                inner.iter().all(|arg| arg.value.is_trivially_irrefutable())
+            spade_hir::PatternKind::Type(path, inner) => {
+                match ctx.symtab.symtab().patternable_type_by_id(path).kind {
+                    PatternableKind::Struct => inner
+                        .iter()
+                        .all(|arg| arg.value.is_trivially_irrefutable(ctx)),
+                    // The other variants need to be considered
+                    PatternableKind::Enum => false,
+                }
             }
         }
     }
@@ -917,7 +923,7 @@ impl PatternLocal for Loc<Pattern> {
     }
 
     fn check_irrefutable(&self, binding_kind: &str, ctx: &Context) -> Result<()> {
-        if self.is_trivially_irrefutable() {
+        if self.is_trivially_irrefutable(ctx) {
             return Ok(());
         }
 
-- 
2.43.0


From 73fd014fdb94fe3b3b78785d4c098759801e776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:13 +0000
Subject: [PATCH 07/46] fix: report division by zero in type level expressions
 instead of panicking

---
 spade-typeinference/src/constraints.rs | 62 +++++++++++++++++++++++++-
 spade-typeinference/src/lib.rs         |  2 +
 2 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/spade-typeinference/src/constraints.rs b/spade-typeinference/src/constraints.rs
index d142e8e..9d78010 100644
--- a/spade-typeinference/src/constraints.rs
+++ b/spade-typeinference/src/constraints.rs
@@ -1,9 +1,10 @@
-use num::{BigInt, Signed};
+use num::{BigInt, Signed, Zero};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     location_info::{Loc, WithLocation},
     num_ext::InfallibleToBigInt,
 };
+use spade_diagnostics::Diagnostic;
 use spade_types::KnownType;
 
 use crate::{
@@ -163,6 +164,43 @@ impl ConstraintExpr {
 }
 
 impl ConstraintExpr {
+    fn is_zero(&self) -> bool {
+        matches!(self, ConstraintExpr::Integer(val) if val.is_zero())
+    }
+
+    /// True if some division in the expression has a divisor that is known to be zero
+    fn divides_by_zero(&self, type_state: &TypeState) -> bool {
+        match self {
+            ConstraintExpr::Integer(_)
+            | ConstraintExpr::Bool(_)
+            | ConstraintExpr::String(_)
+            | ConstraintExpr::Var(_) => false,
+            ConstraintExpr::Div(lhs, rhs) | ConstraintExpr::Mod(lhs, rhs) => {
+                rhs.evaluate(type_state).is_zero()
+                    || lhs.divides_by_zero(type_state)
+                    || rhs.divides_by_zero(type_state)
+            }
+            ConstraintExpr::Sum(lhs, rhs)
+            | ConstraintExpr::Difference(lhs, rhs)
+            | ConstraintExpr::Product(lhs, rhs)
+            | ConstraintExpr::Eq(lhs, rhs)
+            | ConstraintExpr::NotEq(lhs, rhs)
+            | ConstraintExpr::Lt(lhs, rhs)
+            | ConstraintExpr::Gt(lhs, rhs)
+            | ConstraintExpr::Le(lhs, rhs)
+            | ConstraintExpr::Ge(lhs, rhs)
+            | ConstraintExpr::LogicalAnd(lhs, rhs)
+            | ConstraintExpr::LogicalOr(lhs, rhs)
+            | ConstraintExpr::LogicalXor(lhs, rhs) => {
+                lhs.divides_by_zero(type_state) || rhs.divides_by_zero(type_state)
+            }
+            ConstraintExpr::Sub(inner)
+            | ConstraintExpr::LogicalNot(inner)
+            | ConstraintExpr::IntBitsToRepresent(inner)
+            | ConstraintExpr::UintBitsToRepresent(inner) => inner.divides_by_zero(type_state),
+        }
+    }
+
     /// Evaluates the ConstraintExpr returning a new simplified form
     fn evaluate(&self, type_state: &TypeState) -> ConstraintExpr {
         let int_binop =
@@ -207,6 +245,12 @@ impl ConstraintExpr {
             ConstraintExpr::Sum(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l + r),
             ConstraintExpr::Difference(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l - r),
             ConstraintExpr::Product(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l * r),
+            // Division by zero has no value, so such an expression is left unevaluated
+            ConstraintExpr::Div(_, rhs) | ConstraintExpr::Mod(_, rhs)
+                if rhs.evaluate(type_state).is_zero() =>
+            {
+                self.clone()
+            }
             ConstraintExpr::Div(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l / r),
             ConstraintExpr::Mod(lhs, rhs) => int_binop(lhs, rhs, &|l, r| l % r),
             ConstraintExpr::Sub(inner) => match inner.evaluate(type_state) {
@@ -417,6 +461,22 @@ impl TypeConstraints {
         self.inner.push((lhs, rhs));
     }
 
+    /// Reports constraints that can not be evaluated because they divide by zero
+    pub fn check_division_by_zero(&self, type_state: &TypeState) -> Result<(), Diagnostic> {
+        match self
+            .inner
+            .iter()
+            .find(|(_, rhs)| rhs.constraint.divides_by_zero(type_state))
+        {
+            Some((_, rhs)) => Err(Diagnostic::error(
+                rhs.loc(),
+                "Division by zero in type level expression",
+            )
+            .primary_label("The divisor is zero")),
+            None => Ok(()),
+        }
+    }
+
     /// Calls `evaluate` on all constraints. If any constraints are now `T = Integer(val)`,
     /// those updated values are returned. Such constraints are then removed
     pub fn update_type_level_value_constraints(
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 2bedefe..4553797 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -825,6 +825,8 @@ impl TypeState {
 
         self.handle_unit_data_constraints(entity, ctx)?;
 
+        self.owned.constraints.check_division_by_zero(self)?;
+
         self.check_requirements(true, ctx)?;
 
         // NOTE: We may accidentally leak a stage depth if this function returns early. However,
-- 
2.43.0


From ec1becf0a369775d148310bf7711cad84be0b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 08/46] fix: evaluate unsigned constants, indexing and wide
 values at compile time

---
 spade-mir/src/eval.rs | 52 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index d1a6552..e468888 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -45,6 +45,7 @@ impl Value {
     pub fn as_string(&self) -> String {
         match self {
             Value::Bit(val) => format!("{}", if *val { 1 } else { 0 }),
+            Value::Int { size, .. } | Value::UInt { size, .. } if size.is_zero() => String::new(),
             Value::Int { size, val } => {
                 if *val >= 0i64.into() {
                     let val_str = format!("{val:b}");
@@ -159,7 +160,7 @@ impl Value {
                 let mut current = 0u32.to_biguint();
 
                 for next in inner {
-                    current = (current << next.width().to_u64().unwrap()) + next.as_u64()
+                    current = (current << next.width().to_u64().unwrap()) + next.as_u32_chunks()
                 }
                 current
             }
@@ -238,10 +239,20 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                         size: ty.size(),
                         val: name_vals[&ops[0]].assume_int() - name_vals[&ops[1]].assume_int(),
                     },
-                    Operator::UnsignedSub => Value::UInt {
-                        size: ty.size(),
-                        val: name_vals[&ops[0]].assume_uint() - name_vals[&ops[1]].assume_uint(),
-                    },
+                    Operator::UnsignedSub => {
+                        // The result of a negative difference wraps around, like in hardware
+                        let size = ty.size();
+                        let size_usize = size.to_usize().unwrap_or_else(|| {
+                            panic!("Variable size {size} is too large to fit a 'usize'")
+                        });
+                        let mask = (BigInt::from(1) << size_usize) - 1;
+                        let diff: BigInt = BigInt::from(name_vals[&ops[0]].assume_uint())
+                            - BigInt::from(name_vals[&ops[1]].assume_uint());
+                        Value::UInt {
+                            size,
+                            val: BigInt::to_biguint(&(diff & mask)).unwrap(),
+                        }
+                    }
                     Operator::Mul => todo!(),
                     Operator::UnsignedMul => todo!(),
                     Operator::Div => todo!(),
@@ -288,7 +299,17 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                         Value::Concat(ops.iter().rev().map(|op| name_vals[op].clone()).collect())
                     }
                     Operator::DeclClockedMemory { .. } => todo!(),
-                    Operator::IndexArray => todo!(),
+                    Operator::IndexArray => {
+                        let Value::Concat(elements) = &name_vals[&ops[0]] else {
+                            panic!("Attempted array indexing of {:?}", name_vals[&ops[0]]);
+                        };
+                        // Arrays are stored with the last element first
+                        name_vals[&ops[1]]
+                            .assume_uint()
+                            .to_usize()
+                            .and_then(|idx| elements.iter().rev().nth(idx).cloned())
+                            .unwrap_or_else(|| Value::Undef(ty.size()))
+                    }
                     Operator::IndexMemory => todo!(),
                     Operator::RangeIndexArray { .. } => todo!(),
                     Operator::RangeIndexBits { .. } => todo!(),
@@ -331,7 +352,12 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     }
                     Operator::IsEnumVariant { .. } => todo!(),
                     Operator::EnumMember { .. } => todo!(),
-                    Operator::IndexTuple(_) => todo!(),
+                    Operator::IndexTuple(idx) => {
+                        let Value::Concat(elements) = &name_vals[&ops[0]] else {
+                            panic!("Attempted tuple indexing of {:?}", name_vals[&ops[0]]);
+                        };
+                        elements[*idx as usize].clone()
+                    }
                     Operator::ReadPort => todo!(),
                     Operator::ReadWriteItemsInOut(_) => todo!(),
                     Operator::FlipPort => todo!(),
@@ -347,9 +373,15 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
             Statement::Register(_) => panic!("trying to evaluate a register"),
             Statement::Constant(name, ty, val) => {
                 let val = match val {
-                    crate::ConstantValue::Int(i) => Value::Int {
-                        size: ty.size(),
-                        val: i.clone(),
+                    crate::ConstantValue::Int(i) => match (ty, i.to_biguint()) {
+                        (Type::UInt(size), Some(val)) => Value::UInt {
+                            size: size.clone(),
+                            val,
+                        },
+                        _ => Value::Int {
+                            size: ty.size(),
+                            val: i.clone(),
+                        },
                     },
                     crate::ConstantValue::Bool(v) => Value::Bit(*v),
                     crate::ConstantValue::String(_) => todo!(),
-- 
2.43.0


From 553294bf11b62dccee5aae61b0b78526ca78bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 09/46] fix: split the reset value of split compound registers

---
 spade-mir/src/passes/split_compound_regs.rs | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/passes/split_compound_regs.rs b/spade-mir/src/passes/split_compound_regs.rs
index 5d101d4..34fe8ff 100644
--- a/spade-mir/src/passes/split_compound_regs.rs
+++ b/spade-mir/src/passes/split_compound_regs.rs
@@ -55,12 +55,31 @@ fn generate_split_code(
                 loc: None,
             });
 
+            // The reset value has the same shape as the value, so it is split the same way
+            let (reset_stmt, reset) = match &reg.reset {
+                Some((trigger, value)) => {
+                    let reset_name = ValueName::Expr(expr_idtracker.next()).at_loc(reg);
+                    let reset_stmt = Statement::Binding(Binding {
+                        name: reset_name.clone(),
+                        operator: Operator::IndexTuple(i as u64),
+                        operands: vec![value.clone()],
+                        ty: member.clone(),
+                        loc: None,
+                    });
+                    (
+                        Some(reset_stmt.at_loc(reg)),
+                        Some((trigger.clone(), reset_name)),
+                    )
+                }
+                None => (None, None),
+            };
+
             let reg_stmts = split_compound_reg(
                 &Register {
                     name: reg_name.clone(),
                     ty: member.clone(),
                     clock: reg.clock.clone(),
-                    reset: reg.reset.clone(),
+                    reset,
                     initial: None,
                     value: split_name.clone(),
                     loc: None,
@@ -71,6 +90,7 @@ fn generate_split_code(
 
             let split_stmts = vec![split_stmt.at_loc(reg)]
                 .into_iter()
+                .chain(reset_stmt)
                 .chain(reg_stmts)
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 477305234a0b4fe3bde22385da47d6ba5fef7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 10/46] fix: require conditions and bound blocks in pipelines
 to be ready when used

---
 spade-hir-lowering/src/pipelines.rs | 52 ++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index b4a46bc..4aeb244 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -116,6 +116,13 @@ pub fn handle_statement(
         Statement::PipelineRegMarker(extra) => {
             let local_cond = match extra {
                 Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => {
+                    if cond.available_in(ctx)?.unwrap_or(0) != 0 {
+                        return Err(Diagnostic::error(
+                            cond,
+                            "Use of stage condition before it is ready",
+                        )
+                        .primary_label("Use of result before it is ready"));
+                    }
                     statements.append(cond.lower(ctx)?);
                     Some(cond.variable(ctx)?)
                 }
@@ -222,7 +229,7 @@ pub fn lower_pipeline<'a>(
 ) -> Result<()> {
     let clock = &hir_inputs[if is_nonstatic_method { 1 } else { 0 }].name;
 
-    let (body_statements, _) = if let ExprKind::Block(block) = &body.kind {
+    let (body_statements, body_result) = if let ExprKind::Block(block) = &body.kind {
         (&block.statements, &block.result)
     } else {
         panic!("Pipeline body was not a block");
@@ -470,12 +477,12 @@ pub fn lower_pipeline<'a>(
         valid_signals,
     });
 
-    let result_latency = body.available_in(ctx)?.unwrap_or(0);
+    let result_latency = match body_result {
+        Some(result) => result.available_in(ctx)?.unwrap_or(0),
+        None => 0,
+    };
     if result_latency != 0 {
-        let ExprKind::Block(block) = &body.kind else {
-            diag_bail!(body, "Unit result was not a block")
-        };
-        let Some(result) = &block.result else {
+        let Some(result) = body_result else {
             diag_bail!(body, "Found a block with latency but without a result");
         };
         return Err(
@@ -701,21 +708,39 @@ impl PipelineAvailability for Expression {
                 try_compute_availability(&[lhs.as_ref(), rhs.as_ref()], ctx)
             }
             ExprKind::UnaryOperator(_, val) => val.inner.available_in(ctx),
-            ExprKind::Match(_, values) => try_compute_availability(
+            ExprKind::Match(scrutinee, values) => try_compute_availability(
                 &values
                     .iter()
                     .flat_map(|(_, if_cond, expr)| [if_cond.as_ref(), Some(expr)])
                     .flatten()
+                    .chain([scrutinee.as_ref()])
                     .collect::<Vec<_>>(),
                 ctx,
             ),
             ExprKind::Block(inner) => {
-                // NOTE: Do we want to allow delayed values inside blocks? That could lead to some
-                // strange issues like
+                // NOTE: There is no way to wait for a delayed value inside a block, so values
+                // bound there have to be available right away. Otherwise, `x` would appear as
+                // available in
                 // {
                 //      let x = inst(10) subpipe();
-                //      x // Will appear as having availability 1
+                //      x
                 // }
+                for statement in &inner.statements {
+                    let value = match &statement.inner {
+                        Statement::Binding(binding) => &binding.value,
+                        Statement::Register(reg) => &reg.value,
+                        _ => continue,
+                    };
+                    let latency = value.available_in(ctx)?.unwrap_or(0);
+                    if latency != 0 {
+                        return Err(Diagnostic::error(
+                            value,
+                            "Pipeline results cannot be bound inside a block",
+                        )
+                        .primary_label(format!("This has delay {latency}"))
+                        .note("Bind the result outside the block, and use it once it is ready"));
+                    }
+                }
                 if let Some(result) = &inner.result {
                     result.available_in(ctx)
                 } else {
@@ -764,10 +789,13 @@ impl PipelineAvailability for Expression {
                 }
             }
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
                 on_false,
-            } => try_compute_availability(&[on_true.as_ref(), on_false.as_ref()], ctx),
+            } => try_compute_availability(
+                &[on_true.as_ref(), on_false.as_ref(), cond.as_ref()],
+                ctx,
+            ),
             ExprKind::PipelineRef { .. } => Ok(Some(0)),
             ExprKind::Incomplete(_, _) => Ok(None),
             ExprKind::TypeLevelIf { cond, .. } => diag_bail!(
-- 
2.43.0


From 37e8c0b4ab1f821dab94b80bbdb50faae08e98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 11/46] fix: evaluate stage conditions in the stage they end

---
 spade-hir-lowering/src/lib.rs       |  7 +++++--
 spade-hir-lowering/src/pipelines.rs | 28 ++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 0536f1c..e6d2d8b 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -1079,8 +1079,11 @@ impl StatementLocal for Loc<Statement> {
                 result.append(pattern.lower_no_initial_binding(pattern.value_name(), ctx)?);
             }
             Statement::Declaration(_) => {}
-            Statement::PipelineRegMarker(_cond) => {
-                // NOTE: Cond is handled by pipeline lowering
+            Statement::PipelineRegMarker(extra) => {
+                // NOTE: The effect of the condition is handled by pipeline lowering
+                if let Some(hir::PipelineRegMarkerExtra::Condition(cond)) = extra {
+                    result.append(cond.lower(ctx)?);
+                }
                 ctx.subs.current_stage += 1;
             }
             Statement::Label(_) => {}
diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index 4aeb244..5d710a0 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -65,7 +65,6 @@ pub fn handle_statement(
     name_map: &mut BTreeMap<NameID, NameID>,
     statements: &mut StatementList,
     clock: &Loc<NameID>,
-    local_conds: &mut Vec<Option<ValueName>>,
     stage_enable_names: &mut Vec<Option<ValueName>>,
     current_stage: &mut usize,
 ) -> Result<()> {
@@ -114,7 +113,7 @@ pub fn handle_statement(
             // Declarations have no effect on pipeline state
         }
         Statement::PipelineRegMarker(extra) => {
-            let local_cond = match extra {
+            match extra {
                 Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => {
                     if cond.available_in(ctx)?.unwrap_or(0) != 0 {
                         return Err(Diagnostic::error(
@@ -123,8 +122,6 @@ pub fn handle_statement(
                         )
                         .primary_label("Use of result before it is ready"));
                     }
-                    statements.append(cond.lower(ctx)?);
-                    Some(cond.variable(ctx)?)
                 }
                 Some(spade_hir::PipelineRegMarkerExtra::Count {
                     count,
@@ -132,9 +129,8 @@ pub fn handle_statement(
                 }) => {
                     diag_bail!(count, "Expected to have lowered multiplied pipeline stage")
                 }
-                None => None,
+                None => {}
             };
-            local_conds.push(local_cond.map(|c| c.inner));
             let live_vars = ctx.subs.next_stage(ctx.symtab);
 
             // Generate pipeline regs for previous live vars
@@ -284,7 +280,6 @@ pub fn lower_pipeline<'a>(
     stage_enable_names.reverse();
 
     let mut current_stage = 0;
-    let mut local_conds = vec![];
     for statement in body_statements {
         handle_statement(
             statement,
@@ -292,12 +287,29 @@ pub fn lower_pipeline<'a>(
             name_map,
             statements,
             clock,
-            &mut local_conds,
             &mut stage_enable_names,
             &mut current_stage,
         )?
     }
 
+    // The stage conditions refer to values in the stage they end. They may also use values from
+    // later stages, so this cannot be done until all stages are known. The statements which
+    // compute the conditions are generated along with the other statements of the stage.
+    let mut local_conds = vec![];
+    for statement in body_statements {
+        let Statement::PipelineRegMarker(extra) = &statement.inner else {
+            continue;
+        };
+        ctx.subs.current_stage = local_conds.len();
+        local_conds.push(match extra {
+            Some(spade_hir::PipelineRegMarkerExtra::Condition(cond)) => {
+                Some(cond.variable(ctx)?.inner)
+            }
+            _ => None,
+        });
+    }
+    ctx.subs.current_stage = 0;
+
     // Codegen enable signals for the stages that need them. We need to generate them
     // in reverse order because upstream enables depend on downstream
     let mut current_enable = None;
-- 
2.43.0


From 819f3f50a84c8fdc59f34d7864c78be21c60332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:43 +0000
Subject: [PATCH 12/46] fix: report a pipeline label used for two stages
 instead of panicking

---
 spade-typeinference/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 4553797..03a48fa 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -2507,13 +2507,20 @@ impl TypeState {
                     });
                     var
                 };
-                // Safe unwrap, unifying with a fresh var
+                // This is a fresh variable unless the label has been used before
                 self.unify(
                     &var,
                     &self.get_pipeline_state(name)?.current_stage_depth.clone(),
                     ctx,
                 )
-                .unwrap();
+                .into_diagnostic(
+                    name,
+                    |diag, Tm { e: _, g: _ }| {
+                        diag.message(format!("Label {name} refers to more than one stage"))
+                            .primary_label("Label already used for another stage")
+                    },
+                    self,
+                )?;
                 Ok(())
             }
             Statement::Assert(expr) => {
-- 
2.43.0


From 9d7c386024fcfd697ce7721f11d1a0dabd53c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 13/46] fix: emit memories with zero size addresses or elements

---
 spade-mir/src/codegen/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index a4abcb8..f3ee4a1 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -510,7 +510,12 @@ fn forward_expression_code(
             }
         }
         Operator::IndexMemory => {
-            format!("{}[{}]", op_names[0], op_names[1])
+            // A zero size address has no value, but then there is only one element
+            if types[&ops[1]].size() == BigUint::ZERO {
+                format!("{}[0]", op_names[0])
+            } else {
+                format!("{}[{}]", op_names[0], op_names[1])
+            }
         }
         Operator::RangeIndexBits {
             start,
@@ -562,7 +567,9 @@ fn forward_expression_code(
                         &full_port_width * (port + 1u32.to_biguint()) - 1u32.to_biguint();
 
                     let addr_start = &full_port_width * port + &inner_w;
-                    let addr = if *addr_w == 1u32.to_biguint() {
+                    let addr = if *addr_w == BigUint::ZERO {
+                        "0".to_string()
+                    } else if *addr_w == 1u32.to_biguint() {
                         format!("{}[{}]", op_names[1], addr_start)
                     } else {
                         format!(
@@ -1052,7 +1059,8 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                     }
                     .to_string()
                 }
-                Operator::DeclClockedMemory { .. } => forward_expression.unwrap(),
+                // A memory of zero size elements does not exist
+                Operator::DeclClockedMemory { .. } => forward_expression.unwrap_or_default(),
                 Operator::ReadWriteItemsInOut(num_items) => {
                     // NOTE(repr): this code relies on the bit representation of `Option` to use the
                     // MSB as the discriminant, with 0 indicating a `None` value and 1 indicating a
-- 
2.43.0


From 369a5f2972329f3eb10812ecacc3ee472780c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:25 +0000
Subject: [PATCH 14/46] fix: report an explicit memory address width that does
 not match instead of panicking

---
 spade-typeinference/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 03a48fa..5b188b8 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1703,8 +1703,9 @@ impl TypeState {
             ConstraintSource::MemoryIndexing,
         );
 
-        // NOTE: Unwrap is safe, size is still generic at this point
-        self.unify(&addr_size, &addr_size_arg, ctx).unwrap();
+        // The address size is generic here, but the user can give it explicitly
+        self.unify(&addr_size, &addr_size_arg, ctx)
+            .into_default_diagnostic(args[1].value.loc(), self)?;
         self.unify_expression_generic_error(args[1].value, &port_type, ctx)?;
 
         Ok(())
@@ -1727,8 +1728,9 @@ impl TypeState {
             ConstraintSource::MemoryIndexing,
         );
 
-        // NOTE: Unwrap is safe, size is still generic at this point
-        self.unify(&addr_size, &addr_size_arg, ctx).unwrap();
+        // The address size is generic here, but the user can give it explicitly
+        self.unify(&addr_size, &addr_size_arg, ctx)
+            .into_default_diagnostic(args[1].value.loc(), self)?;
 
         Ok(())
     }
-- 
2.43.0


From e0006ccf9d1174a6d73f0038a981ccdecfe1fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 15/46] fix: emit nothing for registers of zero sized types

---
 spade-mir/src/codegen/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index f3ee4a1..7464301 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1125,6 +1125,8 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 [0] &assignment
             }
         }
+        // Zero sized registers have no declaration and no value
+        Statement::Register(reg) if reg.ty.size() == BigUint::ZERO => code! {},
         Statement::Register(reg) => {
             let name = reg.name.var_name();
             let main_body = if let Some((rst_trig, rst_val)) = &reg.reset {
-- 
2.43.0


From b257bf17ab88f0e85d9a72c17d50fb418d076025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 16/46] fix: resolve the bounds inside tuple, inverted and view
 types of impl targets after all impls are known

---
 spade-typeinference/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 5b188b8..90a4e94 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -442,7 +442,11 @@ impl TypeState {
             hir::TypeSpec::Tuple(inner) => {
                 let inner = inner
                     .iter()
-                    .map(|t| self.type_var_from_hir(loc, t, generic_list_token, ctx))
+                    .map(|t| {
+                        Ok(self
+                            .type_var_from_hir_with_obligations(loc, t, generic_list_token, ctx)?
+                            .absorb_obligations(&mut obligations))
+                    })
                     .collect::<Result<_>>()?;
 
                 self.add_type_var(TypeVar::tuple(loc, inner))
@@ -459,11 +463,15 @@ impl TypeState {
             }
 
             hir::TypeSpec::Inverted(inner) => {
-                let inner = self.type_var_from_hir(loc, inner, generic_list_token, ctx)?;
+                let inner = self
+                    .type_var_from_hir_with_obligations(loc, inner, generic_list_token, ctx)?
+                    .absorb_obligations(&mut obligations);
                 self.add_type_var(TypeVar::inverted(loc, inner))
             }
             hir::TypeSpec::CopyView(inner) => {
-                let inner = self.type_var_from_hir(loc, inner, generic_list_token, ctx)?;
+                let inner = self
+                    .type_var_from_hir_with_obligations(loc, inner, generic_list_token, ctx)?
+                    .absorb_obligations(&mut obligations);
                 self.add_type_var(TypeVar::copy_view(loc, inner))
             }
             hir::TypeSpec::Wildcard(_) => self.new_generic_any(),
-- 
2.43.0


From 611998307f4b37011a82bef586ddcb9c82b6de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 17/46] fix: check that register resets, assertions and set
 statements do not mix pipeline stages

---
 spade-hir-lowering/src/pipelines.rs | 47 +++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/spade-hir-lowering/src/pipelines.rs b/spade-hir-lowering/src/pipelines.rs
index 5d710a0..6d765a7 100644
--- a/spade-hir-lowering/src/pipelines.rs
+++ b/spade-hir-lowering/src/pipelines.rs
@@ -91,9 +91,11 @@ pub fn handle_statement(
                 }
             }
         }
-        Statement::Expression(_) => {}
+        Statement::Expression(expr) => {
+            expr.available_in(ctx)?;
+        }
         Statement::Register(reg) => {
-            let time = reg.value.available_in(ctx)?;
+            let time = register_availability(reg, ctx)?;
             for (name, wire) in reg.pattern.get_names_and_wireness() {
                 let ty = ctx.types.concrete_type_of_name(
                     &name,
@@ -204,11 +206,13 @@ pub fn handle_statement(
         Statement::Label(_) => {
             // Labels have no effect on codegen
         }
-        Statement::Assert(_) => {
-            // Assertions have no effect on pipeline state
+        // Assertions and set have no effect on pipeline state, but the values they use must
+        // be available at the same time
+        Statement::Assert(expr) => {
+            expr.available_in(ctx)?;
         }
-        Statement::Set { .. } => {
-            // Set have no effect on pipeline state
+        Statement::Set { target: _, value } => {
+            value.available_in(ctx)?;
         }
     }
     Ok(())
@@ -680,6 +684,19 @@ pub fn try_compute_availability(
     Ok(result)
 }
 
+/// Computes the time at which the value of a register is available. The reset value must be
+/// available together with the new value, and so must the trigger unless it is ready right away.
+fn register_availability(reg: &spade_hir::Register, ctx: &Context) -> Result<Option<usize>> {
+    let Some((trigger, reset_value)) = &reg.reset else {
+        return reg.value.available_in(ctx);
+    };
+    if trigger.available_in(ctx)?.unwrap_or(0) == 0 {
+        try_compute_availability(&[&reg.value, reset_value], ctx)
+    } else {
+        try_compute_availability(&[&reg.value, reset_value, trigger], ctx)
+    }
+}
+
 #[local_impl]
 impl PipelineAvailability for Expression {
     // Computes the availability of an expression. Returns `None` if the expression is always
@@ -738,12 +755,22 @@ impl PipelineAvailability for Expression {
                 //      x
                 // }
                 for statement in &inner.statements {
-                    let value = match &statement.inner {
-                        Statement::Binding(binding) => &binding.value,
-                        Statement::Register(reg) => &reg.value,
+                    let (value, latency) = match &statement.inner {
+                        Statement::Binding(binding) => {
+                            (&binding.value, binding.value.available_in(ctx)?)
+                        }
+                        Statement::Register(reg) => {
+                            (&reg.value, register_availability(reg, ctx)?)
+                        }
+                        Statement::Expression(value)
+                        | Statement::Assert(value)
+                        | Statement::Set { target: _, value } => {
+                            value.available_in(ctx)?;
+                            continue;
+                        }
                         _ => continue,
                     };
-                    let latency = value.available_in(ctx)?.unwrap_or(0);
+                    let latency = latency.unwrap_or(0);
                     if latency != 0 {
                         return Err(Diagnostic::error(
                             value,
-- 
2.43.0


From e371a8a4f0c66785d4594a5c9161a54542ee6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 18/46] fix: do not give values the identifier of a port, an
 instance or another value

---
 spade-mir/src/codegen/util.rs | 12 +++++-
 spade-mir/src/renaming.rs     | 78 ++++++++++++++++++++++++++++++-----
 2 files changed, 78 insertions(+), 12 deletions(-)

diff --git a/spade-mir/src/codegen/util.rs b/spade-mir/src/codegen/util.rs
index daa3a65..23130b0 100644
--- a/spade-mir/src/codegen/util.rs
+++ b/spade-mir/src/codegen/util.rs
@@ -29,11 +29,11 @@ impl ValueName {
         }
     }
 
-    pub fn backward_var_name(&self) -> String {
+    pub fn unescaped_backward_var_name(&self) -> String {
         match self {
             ValueName::Named(id, name, _) => {
                 if *id == 0 {
-                    format!("\\{}_mut ", name)
+                    format!("{}_mut", name)
                 } else {
                     format!("{}_n{}_mut", name, id)
                 }
@@ -43,6 +43,14 @@ impl ValueName {
             }
         }
     }
+
+    pub fn backward_var_name(&self) -> String {
+        if self.needs_escaping() {
+            format!("\\{} ", self.unescaped_backward_var_name())
+        } else {
+            self.unescaped_backward_var_name()
+        }
+    }
 }
 
 pub fn escape_path(path: &str) -> String {
diff --git a/spade-mir/src/renaming.rs b/spade-mir/src/renaming.rs
index a371af2..c5e593f 100644
--- a/spade-mir/src/renaming.rs
+++ b/spade-mir/src/renaming.rs
@@ -1,4 +1,5 @@
-use rustc_hash::FxHashMap as HashMap;
+use num::{BigUint, Zero};
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use serde::{Deserialize, Serialize};
 use spade_common::{
     id_tracker::ExprID,
@@ -6,7 +7,9 @@ use spade_common::{
     name::NameID,
 };
 
-use crate::{Binding, Entity, MirInput, Register, ValueName};
+use crate::codegen::util::{mangle_input, mangle_output};
+use crate::unit_name::{InstanceMap, InstanceNameTracker};
+use crate::{Binding, Entity, MirInput, Operator, Register, Statement, ValueName};
 
 /// Mapping from verilog name back to the corresponding NameID
 #[derive(Serialize, Deserialize, Debug, Clone)]
@@ -55,6 +58,8 @@ pub enum VerilogNameSource {
 pub struct NameState {
     /// Mapping between names and the amount of copies of that name we've seen so far
     names: HashMap<String, u64>,
+    /// Identifiers which are already used in the resulting verilog module
+    taken: HashSet<String>,
     /// Mapping between ValueName and predictable name
     name_map: HashMap<Loc<ValueName>, Loc<ValueName>>,
 }
@@ -69,20 +74,36 @@ impl NameState {
     pub fn new() -> NameState {
         Self {
             names: HashMap::default(),
+            taken: HashSet::default(),
             name_map: HashMap::default(),
         }
     }
 
+    /// Marks the specified identifier as unavailable for use by values
+    pub fn reserve(&mut self, name: String) {
+        self.taken.insert(name);
+    }
+
     pub fn push(&mut self, name: &Loc<ValueName>) {
         let new_name = match &name.inner {
             ValueName::Named(_, name_str, source) => {
-                let id = self
-                    .names
-                    .entry(name_str.clone())
-                    .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                let next_id = self.names.entry(name_str.clone()).or_insert(0);
 
-                ValueName::Named(*id, name_str.clone(), source.clone())
+                // The resulting identifier may already be in use, for example `a_i` is both the port
+                // of `a`, and the identifier of a variable called `a_i`.
+                loop {
+                    let result = ValueName::Named(*next_id, name_str.clone(), source.clone());
+                    *next_id += 1;
+
+                    let identifiers = [
+                        result.unescaped_var_name(),
+                        result.unescaped_backward_var_name(),
+                    ];
+                    if !identifiers.iter().any(|i| self.taken.contains(i)) {
+                        self.taken.extend(identifiers);
+                        break result;
+                    }
+                }
             }
             v @ ValueName::Expr(_) => v.clone(),
         }
@@ -114,8 +135,45 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
             inline: _,
         } = e;
 
-        for input in inputs {
-            state.push(&input.clone().val_name);
+        // Inputs without mangling share their name with the port.
+        for input in inputs.iter().filter(|input| input.no_mangle.is_some()) {
+            state.push(&input.val_name);
+        }
+
+        state.reserve("output__".to_string());
+        state.reserve("input__".to_string());
+        for input in inputs.iter() {
+            state.reserve(mangle_input(&input.no_mangle, &input.name));
+            if input.ty.backward_size() != BigUint::zero() {
+                state.reserve(mangle_output(&input.no_mangle, &input.name));
+            }
+        }
+
+        let mut instance_names = InstanceNameTracker::new();
+        for stmt in statements.iter() {
+            let name = match &stmt.inner {
+                Statement::Binding(Binding { name, operator, .. }) => {
+                    if let Operator::Instance { name, .. } = operator {
+                        state.reserve(name.instance_name(
+                            name.source.clone(),
+                            &mut InstanceMap::new(),
+                            &mut instance_names,
+                        ));
+                    }
+                    name
+                }
+                Statement::Register(Register { name, .. }) => name,
+                Statement::Constant(name, _, _) => name,
+                _ => continue,
+            };
+            if let ValueName::Expr(_) = &name.inner {
+                state.reserve(name.unescaped_var_name());
+                state.reserve(name.unescaped_backward_var_name());
+            }
+        }
+
+        for input in inputs.iter().filter(|input| input.no_mangle.is_none()) {
+            state.push(&input.val_name);
         }
 
         for stmt in statements {
-- 
2.43.0


From 6adfeea79ded28bc214499e5750fdbfac7cd64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 19/46] fix: keep the type of dereferenced copy views in the
 MIR

---
 spade-hir-lowering/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index e6d2d8b..885ca34 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -1553,8 +1553,9 @@ impl ExprLocal for Loc<Expression> {
                     hir::expression::UnaryOperator::Not => unop_builder(Not)?,
                     hir::expression::UnaryOperator::BitwiseNot => unop_builder(BitwiseNot)?,
                     // Dereferences do nothing for codegen of the actual operator. It only
-                    // prevents pipelining, hence Alias is fine here
-                    hir::expression::UnaryOperator::Dereference => unop_builder(Alias)?,
+                    // prevents pipelining, hence an alias is fine here. It must not be replaced
+                    // by its operand though, since that has another type
+                    hir::expression::UnaryOperator::Dereference => unop_builder(BlackBoxAlias)?,
                     hir::expression::UnaryOperator::Reference => unop_builder(ConstructCopyView)?,
                 };
             }
-- 
2.43.0


From 981a52b2d93d90da2fbe768ad6a7a9b12036e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 20/46] fix: drive an inverted wire once when it is named
 several times

---
 spade-mir/src/passes/deduplicate_mut_wires.rs | 42 ++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/spade-mir/src/passes/deduplicate_mut_wires.rs b/spade-mir/src/passes/deduplicate_mut_wires.rs
index 5cdab6b..fe658d2 100644
--- a/spade-mir/src/passes/deduplicate_mut_wires.rs
+++ b/spade-mir/src/passes/deduplicate_mut_wires.rs
@@ -1,5 +1,5 @@
 use num::BigUint;
-use rustc_hash::FxHashMap as HashMap;
+use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
 use spade_common::location_info::{Loc, WithLocation};
 
 use crate::{Binding, Operator, Statement, ValueName};
@@ -108,11 +108,30 @@ fn op_needs_deduplication(op: &Operator) -> bool {
 
 fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>> {
     let mut seen_statements: HashMap<
-        (&Operator, &Vec<Loc<ValueName>>, &crate::types::Type),
+        (&Operator, Vec<ValueName>, &crate::types::Type),
         ValueName,
     > = HashMap::default();
     let mut replaced_names = HashMap::default();
 
+    // Every occurrence of a constant has its own name, but indexing an array with any of them gives
+    // the same element
+    let mut first_constants = HashMap::default();
+    let mut constants = HashMap::default();
+    for stmt in stmts {
+        if let Statement::Constant(name, ty, value) = &stmt.inner {
+            let first = first_constants
+                .entry((ty, value))
+                .or_insert_with(|| name.inner.clone());
+            constants.insert(name.inner.clone(), first.clone());
+        }
+    }
+    let canonical_operands = |operands: &[Loc<ValueName>]| {
+        operands
+            .iter()
+            .map(|op| constants.get(&op.inner).unwrap_or(&op.inner).clone())
+            .collect::<Vec<_>>()
+    };
+
     for stmt in stmts {
         match &stmt.inner {
             Statement::Binding(Binding {
@@ -122,9 +141,10 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                 ty,
                 loc: _,
             }) => {
+                let operands = canonical_operands(operands);
                 // We're only interested in mut wires
                 if ty.backward_size() != BigUint::ZERO && op_needs_deduplication(operator) {
-                    if let Some(prev_name) = seen_statements.get(&(operator, operands, ty)) {
+                    if let Some(prev_name) = seen_statements.get(&(operator, operands.clone(), ty)) {
                         replaced_names.insert(
                             name.clone(),
                             recursive_lookup(&replaced_names, prev_name.clone().at_loc(stmt))
@@ -146,6 +166,7 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
 
     let get_replacement = |v: Loc<ValueName>| replaced_names.get(&v).cloned().unwrap_or(v);
 
+    let mut seen_sets = HashSet::default();
     let iter_result = stmts
         .into_iter()
         .filter_map(|stmt| {
@@ -175,15 +196,14 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
                 | s @ Statement::Error
                 | s @ Statement::Assert(_) => Some(s),
                 Statement::Set { target, value } => {
-                    // If we replaced a mut wire with another, the other one is going to do
-                    // the assignment. Doing it here is going to cause issues
-                    if replaced_names.contains_key(&target) {
-                        None
+                    let target = get_replacement(target);
+                    let value = get_replacement(value);
+                    // If both names were replaced by those of another `set`, that one is going to
+                    // do the assignment. Doing it here too would drive the target twice
+                    if seen_sets.insert((target.inner.clone(), value.inner.clone())) {
+                        Some(Statement::Set { target, value })
                     } else {
-                        Some(Statement::Set {
-                            target: target,
-                            value: value,
-                        })
+                        None
                     }
                 }
             }
-- 
2.43.0


From 62b3ddcb2998b69ff6e16e85b1f14c24001e0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 21/46] fix: use the backward size for ranges of arrays with
 inverted wires

---
 spade-mir/src/codegen/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 7464301..48d7315 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -863,7 +863,7 @@ fn backward_expression_code(
             end_exclusive: end,
         } => {
             let (member_size, input_length) = match &types[&ops[0]] {
-                Type::Array { inner, length } => (inner.size(), length),
+                Type::Array { inner, length } => (inner.backward_size(), length),
                 _ => panic!("Range index with non-array input"),
             };
             let elems = end - start;
-- 
2.43.0


From 010de7b3c7238247589388c0123955bfa05c33e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 22/46] fix: only consume the elements in the range when
 slicing an array with inverted wires

---
 .../src/linear_check/linear_state.rs          | 39 +++++++++++++++----
 spade-hir-lowering/src/linear_check/mod.rs    | 39 ++++++++++++++-----
 2 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index 379bac6..ef5b340 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -416,6 +416,16 @@ pub struct LinearState {
     trees: HashMap<ItemReference, Rc<RefCell<LinearTree>>>,
 }
 
+fn try_consume_tree(tree: &Rc<RefCell<LinearTree>>, loc: &Loc<()>) -> Result<(), Diagnostic> {
+    tree.borrow_mut()
+        .try_consume(*loc)
+        .map_err(|(_witness, previous_use)| {
+            Diagnostic::error(loc, "Use of consumed resource")
+                .primary_label("Use of consumed resource")
+                .secondary_label(previous_use, "Previously used here")
+        })
+}
+
 impl LinearState {
     pub fn new() -> Self {
         Self {
@@ -587,6 +597,27 @@ impl LinearState {
         })
     }
 
+    /// Consumes the members in `start..end` of the array `base_expr`, but not the others. Panics
+    /// if base_expr is not an array
+    pub fn consume_array_members(
+        &mut self,
+        base_expr: Loc<ExprID>,
+        start: Option<usize>,
+        end: Option<usize>,
+    ) -> Result<(), Diagnostic> {
+        let base_tree = Rc::clone(
+            self.trees
+                .get(&ItemReference::Anonymous(base_expr.inner))
+                .expect("Consuming members of an expression which has no tree"),
+        );
+        let members = base_tree.borrow().assume_array().clone();
+        let end = end.unwrap_or(members.len());
+        for member in members.iter().take(end).skip(start.unwrap_or(0)) {
+            try_consume_tree(member, &base_expr.map_ref(|_| ()))?;
+        }
+        Ok(())
+    }
+
     /// Adds `from` as an alias to the tree at `base_expr.struct_member`. Panics if base_expr is not
     /// a struct with at least idx elements
     pub fn alias_struct_member(
@@ -714,13 +745,7 @@ impl LinearState {
         // For each *unique* tree, try to consume the trees
         for tree in trees_to_consume {
             trace!("Consuming tree {}", tree.as_ptr() as usize);
-            tree.borrow_mut()
-                .try_consume(id.loc())
-                .map_err(|(_witness, previous_use)| {
-                    Diagnostic::error(id, "Use of consumed resource")
-                        .primary_label("Use of consumed resource")
-                        .secondary_label(previous_use, "Previously used here")
-                })?;
+            try_consume_tree(tree, &id.loc())?;
         }
 
         Ok(())
diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 6cec91d..3595702 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -1,4 +1,4 @@
-use num::ToPrimitive;
+use num::{BigInt, ToPrimitive};
 use tracing::trace;
 
 use spade_common::{
@@ -8,12 +8,13 @@ use spade_common::{
 use spade_diagnostics::diagnostic::Subdiagnostic;
 use spade_diagnostics::{Diagnostic, diag_bail};
 use spade_hir::{
-    ArgumentList, Binding, ExprKind, Expression, Input, PipelineRegMarkerExtra, Register,
+    ArgumentList, Binding, ConstGenericWithId, ExprKind, Expression, Input, PipelineRegMarkerExtra, Register,
     Statement, TypeList,
     expression::{NamedArgument, UnaryOperator},
     symbol_table::SymbolTable,
 };
 use spade_typeinference::TypeState;
+use spade_types::ConcreteType;
 
 use self::linear_state::{LinearState, is_linear};
 use crate::error::Result;
@@ -281,15 +282,33 @@ fn visit_expression(
 
             linear_state.consume_expression(idx_expr)?;
         }
-        spade_hir::ExprKind::RangeIndex {
-            target,
-            start: _,
-            end: _,
-        } => {
+        spade_hir::ExprKind::RangeIndex { target, start, end } => {
             visit_expression(target, linear_state, ctx)?;
-            // We don't track individual elements of arrays, so we'll have to consume the
-            // whole thing here
-            linear_state.consume_expression(target)?;
+
+            let target_type = ctx
+                .type_state
+                .concrete_type_of(target, ctx.symtab, ctx.types)?;
+            if is_linear(&target_type) {
+                // Only the elements in the range are passed on, the others must still be used
+                let bound = |bound: &Loc<ConstGenericWithId>| -> Result<BigInt> {
+                    match ctx
+                        .type_state
+                        .concrete_type_of(bound, ctx.symtab, ctx.types)?
+                    {
+                        ConcreteType::Integer(value) => Ok(value),
+                        other => diag_bail!(bound, "Inferred {other} for type level integer"),
+                    }
+                };
+                let start = start.as_ref().map(bound).transpose()?;
+                let end = end.as_ref().map(bound).transpose()?;
+                linear_state.consume_array_members(
+                    target.id.at_loc(target),
+                    start.and_then(|s| s.to_usize()),
+                    end.and_then(|e| e.to_usize()),
+                )?;
+            } else {
+                linear_state.consume_expression(target)?;
+            }
         }
         spade_hir::ExprKind::TupleIndex(base, idx) => {
             visit_expression(base, linear_state, ctx)?;
-- 
2.43.0


From 462620641636ccb916cc238bf016c167527fe8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 23/46] fix: do not require the inverted wires seen through
 copy views to be set

---
 spade-hir-lowering/src/linear_check/linear_state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/linear_check/linear_state.rs b/spade-hir-lowering/src/linear_check/linear_state.rs
index ef5b340..d48b153 100644
--- a/spade-hir-lowering/src/linear_check/linear_state.rs
+++ b/spade-hir-lowering/src/linear_check/linear_state.rs
@@ -555,12 +555,18 @@ impl LinearState {
         );
 
         let mut base_tree = base_tree_rc;
+        let mut is_view = false;
 
         while let LinearTreeKind::CopyView(inner) = &base_tree.clone().borrow().kind {
             base_tree = inner.clone();
+            is_view = true;
         }
 
-        let subtree = idx(&base_tree.borrow());
+        let mut subtree = idx(&base_tree.borrow());
+        if is_view {
+            // A member of a view is itself a view, and does not have to be used
+            subtree = Rc::new(RefCell::new(LinearTree::copy_view(subtree)));
+        }
 
         let new_alias = ItemReference::Anonymous(to.inner).at_loc(&to);
         subtree.borrow_mut().add_alias(new_alias.clone());
-- 
2.43.0


From b6dc70be0f032c1205346f7465dd3046132a2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 24/46] fix: do not drive inverted wires when only reading
 other fields next to them

---
 spade-hir-lowering/src/lib.rs | 41 ++++++++++++++++++++++++++++++++---
 spade-mir/src/codegen/mod.rs  |  2 +-
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 885ca34..cbf7c20 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -1107,6 +1107,41 @@ impl StatementLocal for Loc<Statement> {
     }
 }
 
+/// Lowers an expression which is indexed, giving a value of type `result_type`. If none of that is
+/// inverted, the expressions that lead there are only read, and must not drive the inverted wires
+/// in the other fields since those are driven by whatever consumes them.
+fn lower_indexed(
+    target: &Loc<Expression>,
+    result_type: &MirType,
+    ctx: &mut Context,
+) -> Result<StatementList> {
+    let mut statements = target.lower(ctx)?;
+
+    if result_type.backward_size() == BigUint::ZERO {
+        let mut read = target;
+        while let ExprKind::TupleIndex(base, _)
+        | ExprKind::FieldAccess(base, _)
+        | ExprKind::Index(base, _) = &read.kind
+        {
+            let name = read.variable(ctx)?;
+            for statement in &mut statements.stmts {
+                match &mut statement.inner {
+                    mir::Statement::Binding(binding)
+                        if binding.name.inner == name.inner
+                            && binding.ty.backward_size() != BigUint::ZERO =>
+                    {
+                        binding.ty = MirType::CopyView(Box::new(binding.ty.clone()));
+                    }
+                    _ => {}
+                }
+            }
+            read = base;
+        }
+    }
+
+    Ok(statements)
+}
+
 pub fn expr_to_mir(expr: Loc<Expression>, ctx: &mut Context) -> Result<StatementList> {
     expr.lower(ctx)
 }
@@ -1580,7 +1615,7 @@ impl ExprLocal for Loc<Expression> {
                 )
             }
             ExprKind::TupleIndex(tup, idx) => {
-                result.append(tup.lower(ctx)?);
+                result.append(lower_indexed(tup, &self_type, ctx)?);
 
                 result.push_primary(
                     mir::Statement::Binding(mir::Binding {
@@ -1595,7 +1630,7 @@ impl ExprLocal for Loc<Expression> {
                 )
             }
             ExprKind::FieldAccess(target, field) => {
-                result.append(target.lower(ctx)?);
+                result.append(lower_indexed(target, &self_type, ctx)?);
 
                 let mut ctype = &ctx.types.concrete_type_of(
                     target,
@@ -1709,7 +1744,7 @@ impl ExprLocal for Loc<Expression> {
                 )
             }
             ExprKind::Index(target, index) => {
-                result.append(target.lower(ctx)?);
+                result.append(lower_indexed(target, &self_type, ctx)?);
                 result.append(index.lower(ctx)?);
 
                 result.push_primary(
diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 48d7315..61bf6e9 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -470,7 +470,7 @@ fn forward_expression_code(
             )
         }
         Operator::IndexArray => {
-            let Type::Array { length, .. } = &types[&ops[0]] else {
+            let Type::Array { length, .. } = types[&ops[0]].strip_copy_view_layers() else {
                 panic!("Array index with non-array input");
             };
             let member_size = self_type.size();
-- 
2.43.0


From e48157b4b82cfcc3de0deae76eddd68ff191022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 25/46] fix: count the inverted wires used in assertions

---
 spade-hir-lowering/src/linear_check/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spade-hir-lowering/src/linear_check/mod.rs b/spade-hir-lowering/src/linear_check/mod.rs
index 3595702..ad82c63 100644
--- a/spade-hir-lowering/src/linear_check/mod.rs
+++ b/spade-hir-lowering/src/linear_check/mod.rs
@@ -137,7 +137,10 @@ pub fn visit_statement(
             None => {}
         },
         Statement::Label(_) => {}
-        Statement::Assert(_) => {}
+        Statement::Assert(expr) => {
+            visit_expression(expr, linear_state, ctx)?;
+            linear_state.consume_expression(expr)?;
+        }
         Statement::Set { target, value } => {
             visit_expression(target, linear_state, ctx)?;
             visit_expression(value, linear_state, ctx)?;
-- 
2.43.0


From 90402c686068bc3b9dc828c321a874b50c51e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 26/46] fix: resolve lib and pub(lib) in the library of the
 item, not of its user

---
 spade-hir/src/symbol_table.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 1c8d773..ecccc39 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -539,6 +539,8 @@ pub struct SymbolTable {
     pub types: HashMap<NameID, Loc<TypeSymbol>>,
     pub things: HashMap<NameID, Thing>,
     pub visibilities: HashMap<NameID, Loc<Visibility>>,
+    /// What `lib` refers to where each item was added
+    libs: HashMap<NameID, Path>,
     pub deprecation_notes: HashMap<NameID, Option<Loc<String>>>,
 
     pub lang_items: HashMap<LangItem, NameID>,
@@ -565,6 +567,7 @@ impl SymbolTable {
             types: HashMap::default(),
             things: HashMap::default(),
             visibilities: HashMap::default(),
+            libs: HashMap::default(),
             deprecation_notes: HashMap::default(),
             lang_items: HashMap::default(),
             namespace: Path(vec![]),
@@ -690,6 +693,8 @@ impl SymbolTable {
         deprecation_note: Option<Option<Loc<String>>>,
     ) {
         self.things.insert(name_id.clone(), item);
+        self.libs
+            .insert(name_id.clone(), self.base_namespace.clone());
         if let Some(vis) = visibility {
             self.visibilities.insert(name_id.clone(), vis);
         }
@@ -772,6 +777,8 @@ impl SymbolTable {
             self.visibilities.insert(name_id.clone(), visibility);
         }
 
+        self.libs
+            .insert(name_id.clone(), self.base_namespace.clone());
         self.types.insert(name_id.clone(), t);
 
         self.symbols
@@ -1233,6 +1240,7 @@ impl SymbolTable {
         let (offset, path, deprecation_note) = self.canonicalize_in_namespace(
             name,
             namespace,
+            &self.base_namespace,
             &Default::default(),
             0,
             check_metadata,
@@ -1292,6 +1300,7 @@ impl SymbolTable {
         &self,
         path: &Loc<Path>,
         namespace: &Path,
+        base_namespace: &Path,
         forbidden: &HashSet<NameID>,
         offset: usize,
         check_metadata: bool,
@@ -1303,7 +1312,7 @@ impl SymbolTable {
             (PathPrefix::FromLib, lib_relative_path) => {
                 let segments = lib_relative_path.0.clone();
                 let off = self.current_scope();
-                let ns = self.base_namespace.clone();
+                let ns = base_namespace.clone();
 
                 (off, ns, segments)
             }
@@ -1395,6 +1404,9 @@ impl SymbolTable {
                     return Err(LookupError::NoSuchSymbol(segment_path));
                 }
 
+                // `lib` refers to the library that an item is in, not to the one that looks it up
+                let lib = self.libs.get(id).unwrap_or(&self.base_namespace);
+
                 if check_metadata {
                     if let Some(note) = self.deprecation_notes.get(id) {
                         deprecation_note = Some(note.clone());
@@ -1406,7 +1418,7 @@ impl SymbolTable {
                         let vis_path = match visibility.inner {
                             Visibility::Public => Path(vec![]),
                             Visibility::Implicit => working_path.prelude(),
-                            Visibility::AtLib => self.base_namespace.clone(),
+                            Visibility::AtLib => lib.clone(),
                             Visibility::AtSelf => working_path.prelude(),
                             Visibility::AtSuper => working_path.prelude().prelude(),
                             Visibility::AtSuperSuper => working_path.prelude().prelude().prelude(),
@@ -1476,6 +1488,7 @@ impl SymbolTable {
                             .canonicalize_in_namespace(
                             alias_path,
                             in_namespace,
+                            lib,
                             &local_forbidden,
                             offset,
                             check_metadata,
-- 
2.43.0


From 3fd6f238c6b399259e1b438baff270c0040e2a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 27/46] fix: look up the absolute path of a module as one

---
 spade-ast-lowering/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index ffc4d59..affd618 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1602,9 +1602,10 @@ pub fn visit_module(module: &ast::Module, ctx: &mut Context) -> Result<()> {
         .clone()
         .at_loc(&module.name.loc());
 
+    // The path is absolute, it must not be looked up relative to the module
     let (id, thing) = ctx
         .symtab
-        .lookup_thing(path, true)
+        .lookup_thing_in_namespace(path, &Path(vec![]), false)
         .map_err(|_| diag_anyhow!(module.name, "Failed to find {path} in symtab"))?;
 
     if !matches!(thing, Thing::Module(_, _)) {
-- 
2.43.0


From 8da1a6d52baeae3a3e46c7131a2ae619ce7f3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 28/46] fix: operators and lambdas do not refer to user items
 with the names of their traits

---
 spade-ast-lowering/src/lambda.rs | 18 ++++++++++++------
 spade-ast-lowering/src/lib.rs    |  4 ++--
 spade-hir/src/symbol_table.rs    |  7 +++++++
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/spade-ast-lowering/src/lambda.rs b/spade-ast-lowering/src/lambda.rs
index c2f52ab..c17d18c 100644
--- a/spade-ast-lowering/src/lambda.rs
+++ b/spade-ast-lowering/src/lambda.rs
@@ -86,7 +86,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
         diag_anyhow!(loc, "Did not have a current_unit when visiting this lambda")
     })?;
 
-    let (clock_arg, actual_args) = handle_unit_kind(unit_kind, args)?;
+    let (clock_arg, actual_args) = handle_unit_kind(unit_kind, args, ctx)?;
 
     let shared_captures = Arc::new(Mutex::new(vec![]));
     {
@@ -271,9 +271,11 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
             r#trait: Some(
                 ast::TraitSpec {
                     path: match &unit_kind.inner {
-                        UnitKind::Function => Path::from_strs(&["Fn"]).at_loc(unit_kind),
-                        UnitKind::Entity => Path::from_strs(&["Entity"]).at_loc(unit_kind),
-                        UnitKind::Pipeline(_) => Path::from_strs(&["Pipeline"]).at_loc(unit_kind),
+                        UnitKind::Function => ctx.symtab.root_item_path("Fn").at_loc(unit_kind),
+                        UnitKind::Entity => ctx.symtab.root_item_path("Entity").at_loc(unit_kind),
+                        UnitKind::Pipeline(_) => {
+                            ctx.symtab.root_item_path("Pipeline").at_loc(unit_kind)
+                        }
                     },
                     type_params: Some(
                         match &unit_kind.inner {
@@ -482,6 +484,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
 fn handle_unit_kind(
     unit_kind: &Loc<UnitKind>,
     args: &Loc<Vec<Loc<ast::Pattern>>>,
+    ctx: &Context,
 ) -> Result<(
     Option<(
         ast::AttributeList,
@@ -517,8 +520,11 @@ fn handle_unit_kind(
                                 None
                             },
                             p.0.last().unwrap().unwrap_named().clone(),
-                            ast::TypeSpec::Named(Path::from_strs(&["clock"]).at_loc(clock), None)
-                                .at_loc(clock),
+                            ast::TypeSpec::Named(
+                                ctx.symtab.root_item_path("clock").at_loc(clock),
+                                None,
+                            )
+                            .at_loc(clock),
                         )),
                         rest.to_vec(),
                     ),
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index affd618..90b1a5f 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -2167,7 +2167,7 @@ fn visit_expression_result(e: &ast::Expression, ctx: &mut Context) -> Result<hir
                     let rhs_loc = rhs.loc();
 
                     let trait_spec = ast::TraitSpec {
-                        path: Path::from_strs(&[trait_name]).at_loc(tok),
+                        path: ctx.symtab.root_item_path(trait_name).at_loc(tok),
                         type_params: if trait_params.is_empty() {
                             None
                         } else {
@@ -2243,7 +2243,7 @@ fn visit_expression_result(e: &ast::Expression, ctx: &mut Context) -> Result<hir
                  trait_name: &'static str,
                  trait_params: Vec<Loc<ast::TypeExpression>>| {
                     let trait_spec = ast::TraitSpec {
-                        path: Path::from_strs(&[trait_name]).at_loc(operator),
+                        path: ctx.symtab.root_item_path(trait_name).at_loc(operator),
                         type_params: if trait_params.is_empty() {
                             None
                         } else {
diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index ecccc39..8a0a5ba 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -644,6 +644,13 @@ impl SymbolTable {
         &self.namespace
     }
 
+    /// A path that refers to `name` in the root namespace when used in the current namespace,
+    /// even if something in the current namespace has the same name
+    pub fn root_item_path(&self, name: &str) -> Path {
+        let supers = vec!["super"; self.namespace.0.len()];
+        Path::from_strs(&[supers.as_slice(), &[name]].concat())
+    }
+
     pub fn set_base_namespace(&mut self, base_namespace: Path) {
         self.base_namespace = base_namespace
     }
-- 
2.43.0


From 62ad017de7f24fb03822e2ebc5a41227b7a53672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 29/46] fix: keep the names generated for lambdas apart from
 the names of the user

---
 spade-ast-lowering/src/lambda.rs | 109 +++++++++++++++++++------------
 spade-hir/src/symbol_table.rs    |   5 ++
 2 files changed, 72 insertions(+), 42 deletions(-)

diff --git a/spade-ast-lowering/src/lambda.rs b/spade-ast-lowering/src/lambda.rs
index c17d18c..db12b43 100644
--- a/spade-ast-lowering/src/lambda.rs
+++ b/spade-ast-lowering/src/lambda.rs
@@ -79,13 +79,29 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
     let debug_loc = unit_kind.loc();
     let loc = ().between_locs(unit_kind, body);
 
-    let type_name = Identifier::intern("Lambda");
-    let output_type_name = Identifier::intern("Output");
-
     let current_unit = ctx.current_unit.clone().ok_or_else(|| {
         diag_anyhow!(loc, "Did not have a current_unit when visiting this lambda")
     })?;
 
+    // The generated items can refer to the generic parameters of the unit, so the names that
+    // are made up here must not be the same as any of those
+    let outer_names = current_unit
+        .unit_type_params
+        .iter()
+        .chain(current_unit.scope_type_params.iter())
+        .filter_map(|p| p.ident().map(|ident| ident.inner.clone()))
+        .collect::<Vec<_>>();
+    let fresh_name = |name: &str| {
+        let mut name = name.to_string();
+        while outer_names.contains(&Identifier::intern(&name)) {
+            name.push('_');
+        }
+        Identifier::intern(&name)
+    };
+
+    let type_name = fresh_name("Lambda");
+    let output_type_name = fresh_name("Output");
+
     let (clock_arg, actual_args) = handle_unit_kind(unit_kind, args, ctx)?;
 
     let shared_captures = Arc::new(Mutex::new(vec![]));
@@ -141,7 +157,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
     let arg_generic_param_names = actual_args
         .iter()
         .enumerate()
-        .map(|(i, arg)| Identifier::intern(&format!("A{i}")).at_loc(arg))
+        .map(|(i, arg)| fresh_name(&format!("A{i}")).at_loc(arg))
         .collect::<Vec<_>>();
 
     let output_generic_param_name = output_type_name.clone().at_loc(unit_kind);
@@ -158,7 +174,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
     let captured_value_generic_param_names = captures
         .iter()
         .enumerate()
-        .map(|(i, cap)| Identifier::intern(&format!("C{i}")).at_loc(&cap.1));
+        .map(|(i, cap)| fresh_name(&format!("C{i}")).at_loc(&cap.1));
 
     let manufactured_generic_params = arg_generic_param_names
         .clone()
@@ -221,7 +237,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
             .map(|(i, arg)| {
                 ast::TypeExpression::TypeSpec(Box::new(
                     ast::TypeSpec::Named(
-                        Path::ident(Identifier::intern(&format!("A{i}")).at_loc(arg)).at_loc(arg),
+                        Path::ident(fresh_name(&format!("A{i}")).at_loc(arg)).at_loc(arg),
                         None,
                     )
                     .nowhere(),
@@ -245,7 +261,7 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
                         .enumerate()
                         .map(|(i, (name_ident, name_id))| {
                             let ty = ast::TypeSpec::Named(
-                                Path::ident(Identifier::intern(&format!("C{i}")).at_loc(name_id))
+                                Path::ident(fresh_name(&format!("C{i}")).at_loc(name_id))
                                     .at_loc(name_ident),
                                 None,
                             )
@@ -263,9 +279,6 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
     }
     .at_loc(&debug_loc);
 
-    ctx.in_fresh_unit(|ctx| visit_type_declaration(None, &type_decl, ctx))?;
-    ctx.in_fresh_unit(|ctx| re_visit_type_declaration(None, &type_decl, ctx))?;
-
     let impl_block =
         ast::ImplBlock {
             r#trait: Some(
@@ -389,40 +402,52 @@ pub fn visit_lambda(e: &ast::Expression, ctx: &mut Context) -> Result<hir::ExprK
         .at_loc(&debug_loc)],
         };
 
-    let lambda_unit = ctx.in_fresh_unit(|ctx| {
-        match &unit_kind.inner {
-            UnitKind::Function => {}
-            UnitKind::Entity => {}
-            UnitKind::Pipeline(_) => {
-                ctx.pipeline_ctx = Some(crate::pipelines::PipelineContext {
-                    scope: ctx.symtab.current_scope(),
-                })
-            }
-        };
-        match visit_impl(&impl_block.at_loc(&debug_loc), ctx)?.as_slice() {
-            [item] => {
-                let u = item.assume_unit();
-                ctx.item_list.add_executable(
-                    u.name.name_id().clone(),
-                    // NOTE: This `nowhere` is important for completion. If it is not present,
-                    // we run the risk of lambda units being query targets instead of the outer
-                    // unit which is what we want. If it turns out that we see diagnostic::bug
-                    // from lambda units too often, we may have to reconsider the implementation of this
-                    hir::ExecutableItem::Unit(u.clone().nowhere()),
-                )?;
-
-                Ok::<_, Diagnostic>(u.clone())
+    // The generated type is in a scope of its own where it is not mixed up with the user's types
+    ctx.symtab.new_scope();
+    let visit_generated_items = |ctx: &mut Context| -> Result<_> {
+        ctx.in_fresh_unit(|ctx| visit_type_declaration(None, &type_decl, ctx))?;
+        ctx.in_fresh_unit(|ctx| re_visit_type_declaration(None, &type_decl, ctx))?;
+
+        let lambda_unit = ctx.in_fresh_unit(|ctx| {
+            match &unit_kind.inner {
+                UnitKind::Function => {}
+                UnitKind::Entity => {}
+                UnitKind::Pipeline(_) => {
+                    ctx.pipeline_ctx = Some(crate::pipelines::PipelineContext {
+                        scope: ctx.symtab.current_scope(),
+                    })
+                }
+            };
+            match visit_impl(&impl_block.at_loc(&debug_loc), ctx)?.as_slice() {
+                [item] => {
+                    let u = item.assume_unit();
+                    ctx.item_list.add_executable(
+                        u.name.name_id().clone(),
+                        // NOTE: This `nowhere` is important for completion. If it is not present,
+                        // we run the risk of lambda units being query targets instead of the outer
+                        // unit which is what we want. If it turns out that we see diagnostic::bug
+                        // from lambda units too often, we may have to reconsider the implementation of this
+                        hir::ExecutableItem::Unit(u.clone().nowhere()),
+                    )?;
+
+                    Ok::<_, Diagnostic>(u.clone())
+                }
+                _ => diag_bail!(loc, "Lambda impl block produced more than one item"),
             }
-            _ => diag_bail!(loc, "Lambda impl block produced more than one item"),
-        }
-    })?;
+        })?;
+
+        // For the rest of the process, we need the HIR type params which we have to extract
+        // from the HIR struct that was created earlier
+        let (callee_name, callee_struct) = ctx.symtab.lookup_struct(
+            &Path::ident(type_name.at_loc(&debug_loc)).at_loc(&debug_loc),
+            true,
+        )?;
+        Ok((lambda_unit, callee_name, callee_struct))
+    };
+    let generated_items = visit_generated_items(ctx);
+    ctx.symtab.close_scope();
+    let (lambda_unit, callee_name, callee_struct) = generated_items?;
 
-    // For the rest of the process, we need the HIR type params which we have to extract
-    // from the HIR struct that was created earlier
-    let (callee_name, callee_struct) = ctx.symtab.lookup_struct(
-        &Path::ident(type_name.at_loc(&debug_loc)).at_loc(&debug_loc),
-        true,
-    )?;
     let struct_type_params = callee_struct.type_params.clone();
     if struct_type_params.len() != all_generic_param_names.len() {
         diag_bail!(
diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 8a0a5ba..1ddd5bf 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -1167,6 +1167,11 @@ impl SymbolTable {
     /// such definition already exists. Only an absolute path in the root name space is checked
     /// as this is intended to be used for item definitions
     pub fn ensure_is_unique(&self, name: &Loc<Path>) -> Result<(), Diagnostic> {
+        // The types that are generated for lambdas are local to their units
+        if self.current_scope() != 0 {
+            return Ok(());
+        }
+
         let full_path = self.current_namespace().join(name.inner.clone());
 
         let prev = self
-- 
2.43.0


From df310d69c27cf56de4c91f98e80ea7f7b53794fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 30/46] fix: the negation of the smallest value in a constant
 wraps around like in hardware

---
 spade-mir/src/eval.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/spade-mir/src/eval.rs b/spade-mir/src/eval.rs
index e468888..95d2fa1 100644
--- a/spade-mir/src/eval.rs
+++ b/spade-mir/src/eval.rs
@@ -279,10 +279,19 @@ pub fn eval_statements(statements: &[Loc<Statement>]) -> Value {
                     Operator::BitwiseAnd => todo!(),
                     Operator::BitwiseOr => todo!(),
                     Operator::BitwiseXor => todo!(),
-                    Operator::USub => Value::Int {
-                        size: ty.size(),
-                        val: -name_vals[&ops[0]].assume_int(),
-                    },
+                    Operator::USub => {
+                        // The negation of the smallest value wraps around, like in hardware
+                        let size = ty.size();
+                        let size_usize = size.to_usize().unwrap_or_else(|| {
+                            panic!("Variable size {size} is too large to fit a 'usize'")
+                        });
+                        let limit: BigInt = (BigInt::from(1) << size_usize) >> 1;
+                        let val = -name_vals[&ops[0]].assume_int();
+                        Value::Int {
+                            size,
+                            val: if val >= limit { -val } else { val },
+                        }
+                    }
                     Operator::Not => todo!(),
                     Operator::BitwiseNot => todo!(),
                     Operator::DivPow2 => todo!(),
-- 
2.43.0


From e207902ebd9cd423ef487fd17481b6829dde203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 31/46] fix: escape the source code shown in the messages of
 assertions

---
 spade-mir/src/codegen/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 61bf6e9..3c2f008 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1187,6 +1187,11 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 .unwrap_or_else(|_| String::new())
                 .lines()
                 .map(|line| {
+                    // The line is a format string, and may contain parts of the source code
+                    let line = line
+                        .replace('\\', r"\\")
+                        .replace('"', "\\\"")
+                        .replace('%', "%%");
                     format!(r#"$display("{line}");"#)
                 })
                 .join("\n");
-- 
2.43.0


From f6582d597f4d99e2bdd5bf969d056bccf4fc0916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 32/46] fix: messages of failed assertions point at the
 asserted expression

---
 spade-hir-lowering/src/inline.rs | 5 ++++-
 spade-hir-lowering/src/lib.rs    | 4 +++-
 spade-mir/src/renaming.rs        | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/spade-hir-lowering/src/inline.rs b/spade-hir-lowering/src/inline.rs
index 1e85c0d..7bf6231 100644
--- a/spade-hir-lowering/src/inline.rs
+++ b/spade-hir-lowering/src/inline.rs
@@ -74,7 +74,10 @@ impl<'a> InlinedStatements<'a> {
                             ty.clone(),
                             constant_value.clone(),
                         ),
-                        Statement::Assert(val) => Statement::Assert(get_final_name(val)),
+                        // The location is the one reported when the assertion fails
+                        Statement::Assert(val) => {
+                            Statement::Assert(get_final_name(val).inner.at_loc(val))
+                        }
                         Statement::Set { target, value } => Statement::Set {
                             target: get_final_name(target),
                             value: get_final_name(value),
diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index cbf7c20..2693bcd 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -1089,7 +1089,9 @@ impl StatementLocal for Loc<Statement> {
             Statement::Label(_) => {}
             Statement::Assert(expr) => {
                 result.append(expr.lower(ctx)?);
-                result.push_anonymous(mir::Statement::Assert(expr.variable(ctx)?).at_loc(&self))
+                result.push_anonymous(
+                    mir::Statement::Assert(expr.variable(ctx)?.inner.at_loc(expr)).at_loc(&self),
+                )
             }
             Statement::Set { target, value } => {
                 result.append(target.lower(ctx)?);
diff --git a/spade-mir/src/renaming.rs b/spade-mir/src/renaming.rs
index c5e593f..d45bd37 100644
--- a/spade-mir/src/renaming.rs
+++ b/spade-mir/src/renaming.rs
@@ -262,7 +262,8 @@ pub fn make_names_predictable(e: &mut Entity) -> NameState {
                     *value = state.get(value);
                 }
                 crate::Statement::Constant(name, _, _) => *name = state.get(name),
-                crate::Statement::Assert(val) => *val = state.get(val),
+                // The location is the one reported when the assertion fails
+                crate::Statement::Assert(val) => *val = state.get(val).inner.at_loc(val),
                 crate::Statement::Set { target, value } => {
                     *target = state.get(target);
                     *value = state.get(value);
-- 
2.43.0


From ec46fed722186cf6c0b0c1785d662cd2abc427a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 33/46] fix: assertions about constants are checked

---
 spade-mir/src/codegen/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index 3c2f008..d42d512 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use itertools::Itertools;
 use nesty::{Code, code};
 use spade_codespan_reporting::term::termcolor;
@@ -32,6 +34,8 @@ struct Context<'a> {
     instance_map: &'a mut InstanceMap,
     // The NameID of the unit being generated
     unit_nameid: &'a NameID,
+    // The values which never change, and thus never trigger an `always` block
+    constants: HashSet<ValueName>,
 }
 
 /// Produces a source location verilog attribute if the loc and code bundle are defined
@@ -1197,9 +1201,14 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                 .join("\n");
 
             let val_var = val.var_name();
+            let trigger = if ctx.constants.contains(val) {
+                "initial".to_string()
+            } else {
+                format!("always @({val_var})")
+            };
             code! {
                 [0] format!("`ifndef SYNTHESIS");
-                [0] format!("always @({val_var}) begin");
+                [0] format!("{trigger} begin");
                     // This #0 is a bit unintiutive, but it seems to prevent assertions
                     // triggering too early. For example, in the case of !(x == 1 && y == 2)
                     // if x 1 and updated to 2 in the time step as y is updated to not be 2,
@@ -1264,6 +1273,7 @@ fn statement_code_and_declaration(
         instance_names: &mut InstanceNameTracker::new(),
         instance_map: &mut InstanceMap::new(),
         unit_nameid: &NameID(0, Path::from_strs(&["dummy"])),
+        constants: HashSet::new(),
     };
     code! {
         [0] statement_declaration(statement, &Some(source_code.clone()), &mut VerilogNameMap::new());
@@ -1456,6 +1466,14 @@ pub fn entity_code(
         instance_names: &mut InstanceNameTracker::new(),
         instance_map,
         unit_nameid: &entity.name.source,
+        constants: entity
+            .statements
+            .iter()
+            .filter_map(|stmt| match &stmt.inner {
+                Statement::Constant(id, _, _) => Some(id.inner.clone()),
+                _ => None,
+            })
+            .collect(),
     };
 
     let mut body = Code::new();
-- 
2.43.0


From 86b8c21686f05445351f68e2f299d72dd83d7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 34/46] fix: inouts without content

---
 spade-mir/src/codegen/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index d42d512..a2995f4 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -1069,11 +1069,20 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                     // NOTE(repr): this code relies on the bit representation of `Option` to use the
                     // MSB as the discriminant, with 0 indicating a `None` value and 1 indicating a
                     // `Some(_)` value.
+                    if binding.ty.size().is_zero() {
+                        return code! {};
+                    }
                     let item_size = binding.ty.size() / num_items;
                     let payload_size = binding.ty.size() / num_items - BigUint::one();
                     let mut snippets = vec![];
 
-                    if num_items == &1u32.to_biguint() && payload_size == 1u32.to_biguint() {
+                    if payload_size.is_zero() {
+                        // There is nothing to drive or read, only the discriminants remain
+                        snippets.push(code! {
+                            [0] format!("assign {} = ~{};", name, back_name);
+                        }
+                        .to_string());
+                    } else if num_items == &1u32.to_biguint() && payload_size == 1u32.to_biguint() {
                         snippets.push(code! {
                             [0] format!("assign {} = {}[1] ? {}[0] : {}'bZ;",
                                     ops[0],
-- 
2.43.0


From e2935c0f5e808e70fba284335d65d127b91fdaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 35/46] fix: inouts inside of tuples, arrays and generic
 structs are rejected

---
 .../src/passes/disallow_inout_bindings.rs     | 64 ++++++++++++++++---
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/spade-hir-lowering/src/passes/disallow_inout_bindings.rs b/spade-hir-lowering/src/passes/disallow_inout_bindings.rs
index 2e92f1c..7bba89c 100644
--- a/spade-hir-lowering/src/passes/disallow_inout_bindings.rs
+++ b/spade-hir-lowering/src/passes/disallow_inout_bindings.rs
@@ -2,7 +2,7 @@ use spade_common::location_info::Loc;
 use spade_diagnostics::Diagnostic;
 use spade_hir::{Binding, Input, ItemList, Parameter, Register, symbol_table::FrozenSymtab};
 use spade_typeinference::TypeState;
-use spade_types::PrimitiveType;
+use spade_types::{ConcreteType, PrimitiveType};
 
 use super::pass::Pass;
 
@@ -12,6 +12,43 @@ pub struct InOutChecks<'a> {
     pub symtab: &'a FrozenSymtab,
 }
 
+/// Whether values of the type are inouts, or have parts which are
+fn contains_inout(ty: &ConcreteType) -> bool {
+    match ty {
+        ConcreteType::Single { base, params } => {
+            *base == PrimitiveType::InOut || params.iter().any(contains_inout)
+        }
+        ConcreteType::Tuple(inner) => inner.iter().any(contains_inout),
+        ConcreteType::Struct { members, .. } => members.iter().any(|(_, ty)| contains_inout(ty)),
+        ConcreteType::Array { inner, size: _ } => contains_inout(inner),
+        ConcreteType::Enum { options } => options
+            .iter()
+            .any(|(_, members)| members.iter().any(|(_, ty)| contains_inout(ty))),
+        ConcreteType::Backward(inner) | ConcreteType::CopyView(inner) => contains_inout(inner),
+        ConcreteType::Integer(_)
+        | ConcreteType::Bool(_)
+        | ConcreteType::String(_)
+        | ConcreteType::Error => false,
+    }
+}
+
+/// Whether an inout is inside of something else
+fn contains_nested_inout(ty: &ConcreteType) -> bool {
+    match ty {
+        ConcreteType::Single {
+            base: PrimitiveType::InOut,
+            params,
+        } => params.iter().any(contains_inout),
+        other => contains_inout(other),
+    }
+}
+
+fn nested_inout<T>(loc: &Loc<T>) -> Diagnostic {
+    Diagnostic::error(loc, "inout values cannot be part of other values")
+        .primary_label("This contains an inout")
+        .help("inout values can only be passed along to other modules as inputs")
+}
+
 impl<'a> Pass for InOutChecks<'a> {
     fn visit_unit(&mut self, unit: &mut spade_hir::Unit) -> crate::error::Result<()> {
         // NOTE: the check for complete types is done after this pass is run
@@ -23,10 +60,7 @@ impl<'a> Pass for InOutChecks<'a> {
             self.type_state
                 .concrete_type_of(&unit.body, self.symtab.symtab(), &self.items.types);
         match ty {
-            Ok(spade_types::ConcreteType::Single {
-                base: PrimitiveType::InOut,
-                params: _,
-            }) => {
+            Ok(ty) if contains_inout(&ty) => {
                 return Err(Diagnostic::error(
                     &unit.body,
                     "Values of inout type cannot be returned",
@@ -75,6 +109,7 @@ impl<'a> Pass for InOutChecks<'a> {
                         "#[no_mangle] ",
                     ));
                 }
+                (_, Ok(ty)) if contains_nested_inout(&ty) => return Err(nested_inout(name)),
                 _ => {}
             }
         }
@@ -104,10 +139,7 @@ impl<'a> Pass for InOutChecks<'a> {
                                 &self.items.types,
                             );
                             match ty {
-                                Ok(spade_types::ConcreteType::Single {
-                                    base: PrimitiveType::InOut,
-                                    params: _,
-                                }) => {
+                                Ok(ty) if contains_inout(&ty) => {
                                     return Err(Diagnostic::error(
                                         pattern,
                                         "Values of inout type cannot be bound to names",
@@ -129,6 +161,20 @@ impl<'a> Pass for InOutChecks<'a> {
                     }
                 }
             }
+            spade_hir::ExprKind::TupleLiteral(_)
+            | spade_hir::ExprKind::ArrayLiteral(_)
+            | spade_hir::ExprKind::ArrayShorthandLiteral(_, _)
+            | spade_hir::ExprKind::Call { .. } => {
+                let ty = self.type_state.concrete_type_of(
+                    &*expression,
+                    self.symtab.symtab(),
+                    &self.items.types,
+                );
+                match ty {
+                    Ok(ty) if contains_nested_inout(&ty) => return Err(nested_inout(expression)),
+                    _ => {}
+                }
+            }
             _ => {}
         }
 
-- 
2.43.0


From 701c47829440fd320c69e808b8dc570a6f8611c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 36/46] fix: give big parameters of external modules a size

---
 spade-mir/src/codegen/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/spade-mir/src/codegen/mod.rs b/spade-mir/src/codegen/mod.rs
index a2995f4..2927ac0 100644
--- a/spade-mir/src/codegen/mod.rs
+++ b/spade-mir/src/codegen/mod.rs
@@ -932,6 +932,18 @@ fn backward_expression_code(
     }
 }
 
+/// The value of a parameter of an external module. Integers without an explicit size have 32 bits
+/// in Verilog
+fn parameter_code(value: &ConstantValue) -> String {
+    match value {
+        ConstantValue::Int(val) if val.bits() >= 32 => {
+            let sign = if val.is_negative() { "-" } else { "" };
+            format!("{sign}{}'sd{}", val.bits() + 1, val.abs())
+        }
+        other => format!("{other}"),
+    }
+}
+
 fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
     match statement {
         Statement::Binding(binding) => {
@@ -975,7 +987,7 @@ fn statement_code(statement: &Statement, ctx: &mut Context) -> Code {
                     let param_string = if params.is_empty() {
                         "".into()
                     } else {
-                        let param_strings = params.iter().map(|(name, value)| format!(".{}({})", name, value)).collect::<Vec<_>>();
+                        let param_strings = params.iter().map(|(name, value)| format!(".{}({})", name, parameter_code(value))).collect::<Vec<_>>();
                         format!("#({})", param_strings.join(", "))
                     };
                     // Input args
-- 
2.43.0


From 88f85156f7c10a69d4070622581a4d031e15761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 37/46] fix: external units keep their name when they are
 generic

---
 spade-ast-lowering/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 90b1a5f..449727d 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1330,7 +1330,9 @@ pub fn visit_unit(
 
     let all_type_params = head.get_type_params();
 
-    let mut unit_name = if all_type_params.is_empty() {
+    // External units are instantiated as one module with parameters, no matter how they are
+    // instantiated, so the name has to be predictable even if they are generic
+    let mut unit_name = if all_type_params.is_empty() || body.is_none() {
         hir::UnitName::FullPath(id.clone().at_loc(name))
     } else {
         hir::UnitName::WithID(id.clone().at_loc(name))
-- 
2.43.0


From e6f1c50a298964be51991b3cba91d83ae8a11bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 38/46] fix: lambdas do not capture the variables they shadow

---
 spade-ast-lowering/src/lib.rs | 14 +++++++++++---
 spade-hir/src/symbol_table.rs | 16 ++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 449727d..5c56470 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -1739,8 +1739,15 @@ pub fn visit_pattern(p: &ast::Pattern, ctx: &mut Context) -> Result<hir::Pattern
             }
         }
         ast::Pattern::Path { wire, path } => {
-            match (try_lookup_enum_variant(path, ctx), path.inner.0.as_slice()) {
-                (Ok(kind), _) => kind,
+            // NOTE: A variable that gets shadowed is not looked up, if it were, it would be
+            // captured by the lambdas that shadow it
+            let variant = if ctx.symtab.is_variable(path) {
+                None
+            } else {
+                Some(try_lookup_enum_variant(path, ctx))
+            };
+            match (variant, path.inner.0.as_slice()) {
+                (Some(Ok(kind)), _) => kind,
                 (_, [segment]) => {
                     let ident = segment.unwrap_named();
                     let (name_id, pre_declared) = bind_variable(ident, ctx)?;
@@ -1753,7 +1760,8 @@ pub fn visit_pattern(p: &ast::Pattern, ctx: &mut Context) -> Result<hir::Pattern
                     }
                 }
                 (_, []) => unreachable!(),
-                (Err(e), _) => return Err(e),
+                (Some(Err(e)), _) => return Err(e),
+                (None, _) => diag_bail!(path, "Found a variable with a multi-segment path"),
             }
         }
         ast::Pattern::Tuple(pattern) => {
diff --git a/spade-hir/src/symbol_table.rs b/spade-hir/src/symbol_table.rs
index 1ddd5bf..7ca60af 100644
--- a/spade-hir/src/symbol_table.rs
+++ b/spade-hir/src/symbol_table.rs
@@ -1235,6 +1235,22 @@ impl SymbolTable {
         }
     }
 
+    /// Returns true if the path is a variable that is in scope. As opposed to the `lookup`
+    /// functions, this does not count as a use of the variable by the scopes around it
+    pub fn is_variable(&self, name: &Loc<Path>) -> bool {
+        self.canonicalize_in_namespace(
+            name,
+            &self.namespace,
+            &self.base_namespace,
+            &Default::default(),
+            0,
+            false,
+        )
+        .ok()
+        .and_then(|(offset, path, _)| self.symbols[self.current_scope() - offset].vars.get(&path))
+        .is_some_and(|id| matches!(self.things.get(id), Some(Thing::Variable(_))))
+    }
+
     /// Returns the name ID of the provided path if that path exists and resolving
     /// all aliases along the way.
     pub fn lookup_id(&self, name: &Loc<Path>, check_metadata: bool) -> Result<NameID, LookupError> {
-- 
2.43.0


From 4f7907f25eec95cac016378084da4f1eaf501ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 39/46] fix: the output of a unit can be an inverted wire which
 is read before

---
 spade-hir-lowering/src/lib.rs                 |  5 +++--
 spade-mir/src/passes/deduplicate_mut_wires.rs | 22 ++++++++++++++++---
 spade-mir/src/passes/mod.rs                   | 13 ++++++++++-
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/spade-hir-lowering/src/lib.rs b/spade-hir-lowering/src/lib.rs
index 2693bcd..a7aca50 100644
--- a/spade-hir-lowering/src/lib.rs
+++ b/spade-hir-lowering/src/lib.rs
@@ -3862,15 +3862,16 @@ pub fn generate_unit<'a>(
     })?;
 
     let mut statements = statements.to_vec(&mut *name_source_map.write().unwrap());
+    let mut output = unit.body.variable(&ctx)?;
 
     for pass in local_passes.iter().chain(opt_passes) {
-        statements = pass.transform_statements(&statements, ctx.idtracker);
+        statements = pass.transform_unit(&statements, &mut output, ctx.idtracker);
     }
 
     Ok(mir::Entity {
         name: name.as_mir(),
         inputs: mir_inputs,
-        output: unit.body.variable(&ctx)?,
+        output,
         output_type: output_t,
         verilog_attr_groups,
         statements,
diff --git a/spade-mir/src/passes/deduplicate_mut_wires.rs b/spade-mir/src/passes/deduplicate_mut_wires.rs
index fe658d2..887fcb6 100644
--- a/spade-mir/src/passes/deduplicate_mut_wires.rs
+++ b/spade-mir/src/passes/deduplicate_mut_wires.rs
@@ -18,7 +18,16 @@ impl MirPass for DeduplicateMutWires {
         stmts: &[Loc<Statement>],
         _expr_idtracker: &spade_common::id_tracker::ExprIdTracker,
     ) -> Vec<Loc<Statement>> {
-        replace_duplicate_mut_wires(stmts)
+        replace_duplicate_mut_wires(stmts, None)
+    }
+
+    fn transform_unit(
+        &self,
+        stmts: &[Loc<Statement>],
+        output: &mut Loc<ValueName>,
+        _expr_idtracker: &spade_common::id_tracker::ExprIdTracker,
+    ) -> Vec<Loc<Statement>> {
+        replace_duplicate_mut_wires(stmts, Some(output))
     }
 }
 
@@ -106,7 +115,10 @@ fn op_needs_deduplication(op: &Operator) -> bool {
     }
 }
 
-fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>> {
+fn replace_duplicate_mut_wires(
+    stmts: &[Loc<Statement>],
+    mut output: Option<&mut Loc<ValueName>>,
+) -> Vec<Loc<Statement>> {
     let mut seen_statements: HashMap<
         (&Operator, Vec<ValueName>, &crate::types::Type),
         ValueName,
@@ -166,6 +178,10 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
 
     let get_replacement = |v: Loc<ValueName>| replaced_names.get(&v).cloned().unwrap_or(v);
 
+    if let Some(output) = &mut output {
+        **output = get_replacement(output.clone());
+    }
+
     let mut seen_sets = HashSet::default();
     let iter_result = stmts
         .into_iter()
@@ -212,7 +228,7 @@ fn replace_duplicate_mut_wires(stmts: &[Loc<Statement>]) -> Vec<Loc<Statement>>
         .collect::<Vec<_>>();
 
     if !replaced_names.is_empty() {
-        replace_duplicate_mut_wires(&iter_result)
+        replace_duplicate_mut_wires(&iter_result, output)
     } else {
         iter_result
     }
diff --git a/spade-mir/src/passes/mod.rs b/spade-mir/src/passes/mod.rs
index d215a29..a071876 100644
--- a/spade-mir/src/passes/mod.rs
+++ b/spade-mir/src/passes/mod.rs
@@ -1,7 +1,7 @@
 use rustc_hash::FxHashMap as HashMap;
 use spade_common::{id_tracker::ExprIdTracker, location_info::Loc};
 
-use crate::Statement;
+use crate::{Statement, ValueName};
 
 pub mod auto_clock_gating;
 pub mod deduplicate_mut_wires;
@@ -15,6 +15,17 @@ pub trait MirPass {
         stmts: &[Loc<Statement>],
         expr_idtracker: &ExprIdTracker,
     ) -> Vec<Loc<Statement>>;
+
+    /// Transform the statements of a unit with the specified `output`. Passes that remove or
+    /// rename values must implement this in order to update the output
+    fn transform_unit(
+        &self,
+        stmts: &[Loc<Statement>],
+        _output: &mut Loc<ValueName>,
+        expr_idtracker: &ExprIdTracker,
+    ) -> Vec<Loc<Statement>> {
+        self.transform_statements(stmts, expr_idtracker)
+    }
 }
 
 pub fn mir_passes() -> HashMap<&'static str, Box<dyn MirPass + Sync + Send>> {
-- 
2.43.0


From 8fd5199ccd167a38b4da51035be8575dea48603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 40/46] fix: where clauses can say that booleans and strings
 differ

---
 spade-typeinference/src/lib.rs          |   6 +-
 spade-typeinference/src/requirements.rs | 106 ++++++++++++++----------
 2 files changed, 69 insertions(+), 43 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 90a4e94..0b8d2e3 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -1991,7 +1991,11 @@ impl TypeState {
                             );
                         }
                         _ => {
-                            let rhsvar = self.new_generic_tlint(constraint.loc());
+                            // Anything can be compared for inequality, but only numbers are ordered
+                            let rhsvar = match kind {
+                                spade_hir::WhereClauseKind::Neq => self.new_generic_any(),
+                                _ => self.new_generic_tlint(constraint.loc()),
+                            };
                             self.add_constraint(
                                 rhsvar.clone(),
                                 int_constraint,
diff --git a/spade-typeinference/src/requirements.rs b/spade-typeinference/src/requirements.rs
index 71b6563..ab7a2ca 100644
--- a/spade-typeinference/src/requirements.rs
+++ b/spade-typeinference/src/requirements.rs
@@ -597,53 +597,75 @@ impl Requirement {
                 inequality,
                 message,
                 callsite,
-            } => match (lhs.resolve(type_state), rhs.resolve(type_state)) {
-                (
-                    TypeVar::Known(_, KnownType::Integer(lhs_val), _),
-                    TypeVar::Known(_, KnownType::Integer(rhs_val), _),
-                ) => {
-                    let result = match inequality {
-                        WhereClauseKind::Eq => {
-                            diag_bail!(lhs, "Found an == constraint being handled by requirements")
-                        }
-                        WhereClauseKind::Neq => lhs_val != rhs_val,
-                        WhereClauseKind::Lt => lhs_val < rhs_val,
-                        WhereClauseKind::Leq => lhs_val <= rhs_val,
-                        WhereClauseKind::Gt => lhs_val > rhs_val,
-                        WhereClauseKind::Geq => lhs_val >= rhs_val,
-                    };
+            } => {
+                let (TypeVar::Known(_, lhs_known, _), TypeVar::Known(_, rhs_known, _)) =
+                    (lhs.resolve(type_state), rhs.resolve(type_state))
+                else {
+                    return Ok(RequirementResult::NoChange);
+                };
 
-                    if result {
-                        Ok(RequirementResult::Satisfied(vec![]))
-                    } else {
-                        let loc = callsite.unwrap_or(lhs.loc());
-                        let mut diag = Diagnostic::error(
-                            loc,
-                            format!(
-                                "Expected {var} {inequality} {rhs_val} but {var} is {lhs_val} ",
-                                var = var.pretty_print()
-                            ),
+                let result = match (lhs_known, rhs_known) {
+                    (KnownType::Integer(lhs_val), KnownType::Integer(rhs_val)) => {
+                        match inequality {
+                            WhereClauseKind::Eq => {
+                                diag_bail!(
+                                    lhs,
+                                    "Found an == constraint being handled by requirements"
+                                )
+                            }
+                            WhereClauseKind::Neq => lhs_val != rhs_val,
+                            WhereClauseKind::Lt => lhs_val < rhs_val,
+                            WhereClauseKind::Leq => lhs_val <= rhs_val,
+                            WhereClauseKind::Gt => lhs_val > rhs_val,
+                            WhereClauseKind::Geq => lhs_val >= rhs_val,
+                        }
+                    }
+                    (KnownType::Bool(lhs_val), KnownType::Bool(rhs_val))
+                        if *inequality == WhereClauseKind::Neq =>
+                    {
+                        lhs_val != rhs_val
+                    }
+                    (KnownType::String(lhs_val), KnownType::String(rhs_val))
+                        if *inequality == WhereClauseKind::Neq =>
+                    {
+                        lhs_val != rhs_val
+                    }
+                    (KnownType::Error, _) | (_, KnownType::Error) => true,
+                    _ => {
+                        let lhs_val = lhs.display(type_state);
+                        let rhs_val = rhs.display(type_state);
+                        return Err(Diagnostic::error(
+                            rhs,
+                            format!("Cannot check {lhs_val} {inequality} {rhs_val}"),
                         )
-                        .primary_label(format!(
-                            "Expected {var} {inequality} {rhs_val}, but {var} is {lhs_val}",
+                        .primary_label(format!("This is {rhs_val}"))
+                        .secondary_label(lhs, format!("This is {lhs_val}")));
+                    }
+                };
+
+                if result {
+                    Ok(RequirementResult::Satisfied(vec![]))
+                } else {
+                    let loc = callsite.unwrap_or(lhs.loc());
+                    let lhs_val = lhs.display(type_state);
+                    let rhs_val = rhs.display(type_state);
+                    let mut diag = Diagnostic::error(
+                        loc,
+                        format!(
+                            "Expected {var} {inequality} {rhs_val} but {var} is {lhs_val} ",
                             var = var.pretty_print()
-                        ));
-                        if let Some(message) = message {
-                            diag = diag.note(message.to_string())
-                        }
-                        Err(diag)
+                        ),
+                    )
+                    .primary_label(format!(
+                        "Expected {var} {inequality} {rhs_val}, but {var} is {lhs_val}",
+                        var = var.pretty_print()
+                    ));
+                    if let Some(message) = message {
+                        diag = diag.note(message.to_string())
                     }
+                    Err(diag)
                 }
-                (TypeVar::Unknown(_, _, _, _), _) | (_, TypeVar::Unknown(_, _, _, _)) => {
-                    Ok(RequirementResult::NoChange)
-                }
-                (TypeVar::Known(_, KnownType::Integer(_), _), _) => {
-                    diag_bail!(rhs, "Found non-integer in where clause inequality")
-                }
-                (_, TypeVar::Known(_, _, _)) => {
-                    diag_bail!(lhs, "Found non-integer in where clause inequality")
-                }
-            },
+            }
             Requirement::SharedBase(types) => {
                 let first_known = types
                     .iter()
-- 
2.43.0


From 9cda8956340385cc9193185b864771bd4c302702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 41/46] fix: an included file is one expression of the unit it
 is included in

---
 spade-ast-lowering/src/lib.rs  | 16 +++++++++++++++-
 spade-parser/src/expression.rs | 14 ++++++++++++++
 spade-parser/src/lib.rs        |  2 +-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index 5c56470..eef6fe1 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -2981,8 +2981,22 @@ fn handle_include(
         .unwrap()
         .add_file(path.clone(), src.clone());
     let mut parser = Parser::new(&src, file_id, Some(new_working_dir));
-    let expr = parser.expression()?;
+    if let Some(unit) = &ctx.current_unit {
+        parser.set_item_context(unit.unit_kind.map_ref(|kind| match kind {
+            hir::UnitKind::Function(_) => ast::UnitKind::Function,
+            hir::UnitKind::Entity => ast::UnitKind::Entity,
+            hir::UnitKind::Pipeline { depth, .. } => {
+                // The depth is of no consequence when parsing the body
+                ast::UnitKind::Pipeline(
+                    ast::TypeExpression::Integer(BigInt::zero()).at_loc(&depth),
+                )
+            }
+        }))?;
+    }
+    let expr = parser.whole_expression();
+    ctx.diags.lock().unwrap().extend(&mut parser.diags);
 
+    let expr = expr?;
     visit_expression_result(&expr, ctx)
 }
 
diff --git a/spade-parser/src/expression.rs b/spade-parser/src/expression.rs
index 91e5817..0e4369d 100644
--- a/spade-parser/src/expression.rs
+++ b/spade-parser/src/expression.rs
@@ -124,6 +124,20 @@ impl<'a> Parser<'a> {
         self.non_comptime_expression()
     }
 
+    /// An expression which makes up all of the source code being parsed
+    #[tracing::instrument(skip(self))]
+    pub fn whole_expression(&mut self) -> Result<Loc<Expression>> {
+        let expr = self.expression()?;
+        if !self.peek_kind(&TokenKind::Eof)? {
+            return Err(UnexpectedToken {
+                got: self.peek()?,
+                expected: vec!["end of file"],
+            }
+            .into());
+        }
+        Ok(expr)
+    }
+
     /// We need a function like this in order to not run into parser conflicts when
     /// parsing blocks, since both statements and expressions can start with $if.
     #[tracing::instrument(skip(self))]
diff --git a/spade-parser/src/lib.rs b/spade-parser/src/lib.rs
index 5251a0f..5f0d813 100644
--- a/spade-parser/src/lib.rs
+++ b/spade-parser/src/lib.rs
@@ -3214,7 +3214,7 @@ impl<'a> Parser<'a> {
 }
 
 impl<'a> Parser<'a> {
-    fn set_item_context(&mut self, context: Loc<UnitKind>) -> Result<()> {
+    pub fn set_item_context(&mut self, context: Loc<UnitKind>) -> Result<()> {
         if let Some(prev) = &self.unit_context {
             Err(Diagnostic::bug(
                 context.loc(),
-- 
2.43.0


From 5f5ab7a47cedbfeca08551d376e8315c47ac0bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 42/46] fix: type parameters that are left out have their
 default values

---
 spade-ast-lowering/src/impls.rs              | 14 ++++++-------
 spade-ast-lowering/src/lib.rs                | 13 +++++++++++-
 spade-typeinference/src/lib.rs               | 22 +++++++++++++++++++-
 spade-typeinference/src/mir_type_lowering.rs | 16 ++++++++++----
 4 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index a0c2dec..be59be8 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -329,7 +329,7 @@ pub fn get_impl_target(
                 visit_type_expression(size, &TypeSpecKind::ImplTarget, ctx)?,
             ],
         )),
-        spade_ast::TypeSpec::Named(name, args) => {
+        spade_ast::TypeSpec::Named(name, _) => {
             let (target_name, sym) = ctx.symtab.lookup_type_symbol(&name, true)?;
 
             if let TypeSymbol::GenericArg { traits: _ } | TypeSymbol::GenericMeta { .. } =
@@ -342,14 +342,14 @@ pub fn get_impl_target(
                 );
             }
 
+            let target = visit_type_spec(&block.target, &TypeSpecKind::ImplTarget, ctx)?;
+            let hir::TypeSpec::Declared(_, args) = target.inner else {
+                diag_bail!(block, "Named impl target was not a declared type")
+            };
+
             Ok((
                 hir::ImplTarget::Named(target_name),
-                args.as_ref()
-                    .map(|t| t.inner.clone())
-                    .unwrap_or_default()
-                    .iter()
-                    .map(|expr| visit_type_expression(expr, &TypeSpecKind::ImplTarget, ctx))
-                    .collect::<Result<_>>()?,
+                args.into_iter().map(|arg| arg.inner).collect(),
             ))
         }
         spade_ast::TypeSpec::Inverted(inner) => Ok((
diff --git a/spade-ast-lowering/src/lib.rs b/spade-ast-lowering/src/lib.rs
index eef6fe1..a89c6e1 100644
--- a/spade-ast-lowering/src/lib.rs
+++ b/spade-ast-lowering/src/lib.rs
@@ -391,7 +391,7 @@ pub fn visit_type_spec(
                 TypeSymbol::Declared(generic_args, min_required_params, _) => {
                     // We'll defer checking the validity of generic args to the type checker,
                     // but we still have to visit them now
-                    let visited_params = params
+                    let mut visited_params = params
                         // We can't flatten "through" Option<Loc<Vec<...>>>, so map it away.
                         .as_ref()
                         .map(|o| &o.inner)
@@ -403,6 +403,17 @@ pub fn visit_type_spec(
                     if visited_params.len() >= *min_required_params
                         && visited_params.len() <= generic_args.len()
                     {
+                        // Which implementation to use is selected by comparing parameters
+                        if let TypeSpecKind::ImplTarget = kind {
+                            if let Some(decl) = ctx.item_list.types.get(&base_id) {
+                                visited_params.extend(
+                                    decl.generic_args
+                                        .iter()
+                                        .skip(visited_params.len())
+                                        .filter_map(|p| p.default.as_deref().cloned()),
+                                );
+                            }
+                        }
                         Ok(hir::TypeSpec::Declared(
                             base_id.at_loc(path),
                             visited_params,
diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 0b8d2e3..edc4921 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -365,7 +365,7 @@ impl TypeState {
         let generic_list = self.get_generic_list(generic_list_token);
         let var = match &hir_type {
             hir::TypeSpec::Declared(base, params) => {
-                let params = params
+                let mut params = params
                     .iter()
                     .map(|e| {
                         Ok(self
@@ -380,6 +380,26 @@ impl TypeState {
                     generic_args,
                 } = &ctx.items.types.get(base).unwrap().inner;
 
+                // Parameters that are not specified have their default values, which may refer
+                // to the parameters before them
+                for i in params.len()..generic_args.len() {
+                    let Some(default) = &generic_args[i].default else {
+                        break;
+                    };
+                    self.modify_generic_list(generic_list_token, |gl| {
+                        let mappings = generic_args
+                            .iter()
+                            .zip(&params)
+                            .map(|(p, tv)| (p.name.clone(), tv.clone()));
+
+                        gl.extend(mappings);
+                    });
+                    let var = self
+                        .hir_type_expr_to_var_with_obligations(default, generic_list_token, ctx)?
+                        .absorb_obligations(&mut obligations);
+                    params.push(var);
+                }
+
                 for (
                     TypeParam {
                         name: _,
diff --git a/spade-typeinference/src/mir_type_lowering.rs b/spade-typeinference/src/mir_type_lowering.rs
index b5c91c6..113586b 100644
--- a/spade-typeinference/src/mir_type_lowering.rs
+++ b/spade-typeinference/src/mir_type_lowering.rs
@@ -210,15 +210,23 @@ impl TypeState {
     ) -> ConcreteType {
         match spec {
             TypeSpec::Declared(name, params) => {
+                let actual = type_list
+                    .get(name)
+                    .unwrap_or_else(|| panic!("Expected {:?} to be in type list", name));
+
+                // Parameters that are not specified have their default values
+                let defaults = actual
+                    .generic_args
+                    .iter()
+                    .skip(params.len())
+                    .filter_map(|p| p.default.as_deref());
+
                 let params = params
                     .iter()
+                    .chain(defaults)
                     .map(|p| Self::type_expr_to_concrete(p, type_list, generic_substitutions))
                     .collect();
 
-                let actual = type_list
-                    .get(name)
-                    .unwrap_or_else(|| panic!("Expected {:?} to be in type list", name));
-
                 Self::type_decl_to_concrete(actual, type_list, params)
             }
             TypeSpec::Generic(name) => {
-- 
2.43.0


From ea1fc3de5c48779069a13caee68664919abb4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 43/46] fix: the bounds on the parameters of a type alias are
 enforced

---
 spade-typeinference/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index edc4921..c7d18b8 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -433,12 +433,15 @@ impl TypeState {
                         gl.extend(mappings);
                     });
 
-                    return self.type_var_from_hir_with_obligations(
-                        loc,
-                        &a.type_spec,
-                        &generic_list_token,
-                        ctx,
-                    );
+                    let actual = self
+                        .type_var_from_hir_with_obligations(
+                            loc,
+                            &a.type_spec,
+                            &generic_list_token,
+                            ctx,
+                        )?
+                        .absorb_obligations(&mut obligations);
+                    return Ok(obligations.with_val(actual));
                 }
 
                 self.add_type_var(TypeVar::Known(
-- 
2.43.0


From 9eddaa13f68c0b7d1300492ce02129a0ad7487da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 44/46] fix: an associated type can only be defined once in an
 impl

---
 spade-ast-lowering/src/impls.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spade-ast-lowering/src/impls.rs b/spade-ast-lowering/src/impls.rs
index be59be8..8dd9335 100644
--- a/spade-ast-lowering/src/impls.rs
+++ b/spade-ast-lowering/src/impls.rs
@@ -147,7 +147,13 @@ pub fn visit_impl_inner(block: &Loc<ast::ImplBlock>, ctx: &mut Context) -> Resul
             impl_type_decl.name.clone(),
         );
 
-        missing_assoc_types.remove(&ty.name.inner);
+        if !missing_assoc_types.remove(&ty.name.inner) {
+            return Err(Diagnostic::error(
+                &ty.name,
+                format!("Multiple definitions of the associated type `{}`", ty.name),
+            )
+            .primary_label("Already defined in this impl"));
+        }
     }
 
     for unit in &block.units {
-- 
2.43.0


From 5adff0a1d3ce9537288779853f13d6ce20aeacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 45/46] fix: registers and the results of ifs and matches have
 to be Data wherever they are

The check that values are Data was only done for statements in the outermost
block and for the result of the unit. A register in a nested block made the
compiler panic, an if or a match inside of another expression was accepted.
---
 spade-typeinference/src/lib.rs | 85 +++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 23 deletions(-)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index c7d18b8..233ff23 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -922,9 +922,10 @@ impl TypeState {
             Statement::Binding(Binding {
                 pattern,
                 ty: _,
-                value: _,
+                value,
             }) => {
                 self.pattern_data_constraint(pattern, pipeline_loc, ctx)?;
+                self.expression_data_constraints(value, &None, ctx)?;
             }
             Statement::Expression(e) => self.expression_data_constraints(e, pipeline_loc, ctx)?,
             Statement::Register(reg) => {
@@ -945,14 +946,25 @@ impl TypeState {
                         },
                         self,
                     )?;
+                self.expression_data_constraints(&reg.value, &None, ctx)?;
+                if let Some((cond, value)) = &reg.reset {
+                    self.expression_data_constraints(cond, &None, ctx)?;
+                    self.expression_data_constraints(value, &None, ctx)?;
+                }
+                if let Some(initial) = &reg.initial {
+                    self.expression_data_constraints(initial, &None, ctx)?;
+                }
             }
             Statement::Declaration(_) => {}
             Statement::PipelineRegMarker(_) => {
                 // A pipeline register on its own is OK because it itself has no data
             }
             Statement::Label(_) => {}
-            Statement::Assert(_) => {}
-            Statement::Set { .. } => {}
+            Statement::Assert(expr) => self.expression_data_constraints(expr, &None, ctx)?,
+            Statement::Set { target, value } => {
+                self.expression_data_constraints(target, &None, ctx)?;
+                self.expression_data_constraints(value, &None, ctx)?;
+            }
         }
         Ok(())
     }
@@ -1032,8 +1044,8 @@ impl TypeState {
         Ok(())
     }
 
-    /// Relies on the ast lowering pass disallowing any statements which contains data requirements
-    /// in non-root blocks.
+    /// `pipeline_loc` is only set for the root block of a pipeline, bindings in other blocks are
+    /// never put in pipeline registers.
     fn expression_data_constraints(
         &mut self,
         expr: &Loc<Expression>,
@@ -1060,9 +1072,9 @@ impl TypeState {
             }
 
             ExprKind::If {
-                cond: _,
+                cond,
                 on_true,
-                on_false: _,
+                on_false,
             } => {
                 TypedExpression::Id(on_true.id)
                     .unify_with(&self.new_generic_data(on_true.loc(), ctx), self)
@@ -1081,9 +1093,12 @@ impl TypeState {
                         },
                         self,
                     )?;
+                for sub in [cond, on_true, on_false] {
+                    self.expression_data_constraints(sub, &None, ctx)?;
+                }
             }
 
-            ExprKind::Match(_, branches) => {
+            ExprKind::Match(target, branches) => {
                 if let Some((_pat, _cond, value)) = branches.first() {
                     TypedExpression::Id(value.id)
                     .unify_with(&self.new_generic_data(expr.loc(), ctx), self)
@@ -1103,30 +1118,54 @@ impl TypeState {
                         self,
                     )?;
                 }
+                self.expression_data_constraints(target, &None, ctx)?;
+                for (_pat, guard, value) in branches {
+                    if let Some(guard) = guard {
+                        self.expression_data_constraints(guard, &None, ctx)?;
+                    }
+                    self.expression_data_constraints(value, &None, ctx)?;
+                }
+            }
+
+            ExprKind::TupleLiteral(inner) | ExprKind::ArrayLiteral(inner) => {
+                for sub in inner {
+                    self.expression_data_constraints(sub, &None, ctx)?;
+                }
+            }
+            ExprKind::Index(lhs, rhs) | ExprKind::BinaryOperator(lhs, _, rhs) => {
+                self.expression_data_constraints(lhs, &None, ctx)?;
+                self.expression_data_constraints(rhs, &None, ctx)?;
+            }
+            ExprKind::ArrayShorthandLiteral(inner, _)
+            | ExprKind::RangeIndex { target: inner, .. }
+            | ExprKind::TupleIndex(inner, _)
+            | ExprKind::FieldAccess(inner, _)
+            | ExprKind::TypeCast(inner, _)
+            | ExprKind::UnaryOperator(_, inner) => {
+                self.expression_data_constraints(inner, &None, ctx)?;
+            }
+            ExprKind::MethodCall { target, args, .. } => {
+                self.expression_data_constraints(target, &None, ctx)?;
+                for arg in args.expressions() {
+                    self.expression_data_constraints(arg, &None, ctx)?;
+                }
+            }
+            ExprKind::Call { args, .. } | ExprKind::AssociatedCall { args, .. } => {
+                for arg in args.expressions() {
+                    self.expression_data_constraints(arg, &None, ctx)?;
+                }
             }
 
-            ExprKind::Error
+            // The bodies of lambdas are units of their own
+            ExprKind::LambdaDef { .. }
+            | ExprKind::Error
             | ExprKind::Identifier(_)
             | ExprKind::IntLiteral(_, _)
             | ExprKind::BoolLiteral(_)
             | ExprKind::TriLiteral(_)
             | ExprKind::TypeLevelBool(_)
             | ExprKind::TypeLevelInteger(_)
-            | ExprKind::TupleLiteral(_)
-            | ExprKind::ArrayLiteral(_)
-            | ExprKind::ArrayShorthandLiteral(_, _)
-            | ExprKind::Index(_, _)
-            | ExprKind::RangeIndex { .. }
-            | ExprKind::TupleIndex(_, _)
-            | ExprKind::FieldAccess(_, _)
-            | ExprKind::TypeCast(_, _)
-            | ExprKind::MethodCall { .. }
-            | ExprKind::Call { .. }
-            | ExprKind::AssociatedCall { .. }
-            | ExprKind::BinaryOperator(_, _, _)
-            | ExprKind::UnaryOperator(_, _)
             | ExprKind::PipelineRef { .. }
-            | ExprKind::LambdaDef { .. }
             | ExprKind::StageValid
             | ExprKind::StageReady
             | ExprKind::StaticUnreachable(_)
-- 
2.43.0


From 871b8ea008901e78e0e90f99ec252779be989f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:24 +0000
Subject: [PATCH 46/46] fix: a view can be copied no matter what it is a view
 of

Copying a view is what views are for, but a view of a view could not be
dereferenced and views did not satisfy the bound Copy.
---
 spade-typeinference/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spade-typeinference/src/lib.rs b/spade-typeinference/src/lib.rs
index 233ff23..a3e9f33 100644
--- a/spade-typeinference/src/lib.rs
+++ b/spade-typeinference/src/lib.rs
@@ -3633,9 +3633,16 @@ impl TypeState {
                     unreachable!()
                 };
 
+                let copy = TraitName::Named(
+                    None,
+                    ctx.symtab.lang_item(LangItem::CopyTrait).clone().nowhere(),
+                );
+
                 let (impls, unsatisfied): (Vec<_>, Vec<_>) = traits
                     .inner
                     .iter()
+                    // Views are `Copy` no matter what they are views of
+                    .filter(|trait_req| *known != KnownType::CopyView || trait_req.name != copy)
                     .map(|trait_req| {
                         if let Some(impld) = ctx.trait_impls.inner.get(&target).cloned() {
                             // Get a list of implementations of this trait where the type
-- 
2.43.0

