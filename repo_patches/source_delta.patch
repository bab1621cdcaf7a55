From b17642ade9ee3ba56d0e61d8cd6bf2df40528497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:10 +0000
Subject: [PATCH 01/31] fix: report division by zero for the modulo operator on
 constants

mod_op divided by its right operand without checking it, so a constant
expression such as 'v % 0' made the compiler panic instead of reporting
an arithmetic error as '\' and '/' do.
---
 circom_algebra/src/modular_arithmetic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..2b4b9dd 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,7 +58,11 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
-    Result::Ok(modulus(&left, &right))
+    if right == BigInt::from(0) {
+        Result::Err(ArithmeticError::DivisionByZero)
+    } else {
+        Result::Ok(modulus(&left, &right))
+    }
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
     base.modpow(exp, field)
-- 
2.43.0


From 4be92f1ea0ecd033ae5df179e0c94ac7dc3e0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:10 +0000
Subject: [PATCH 02/31] fix: shifting a constant by more bits than the field
 has gives zero

The shift amount was used as the exponent of a power of two without bound:
'1 << 2**40' exhausted the memory, and an amount not fitting in a usize was
reported as a division by zero.  All bits are shifted out, as the run-time
field library does.
---
 circom_algebra/src/modular_arithmetic.rs | 26 +++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 2b4b9dd..ad8313b 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -116,11 +116,14 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
-        Result::Ok(value)
+        match right.to_usize() {
+            Some(usize_repr) if usize_repr < field.bits() => {
+                let value = modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
+                Result::Ok(value)
+            }
+            // every bit of left is moved out of the bits of the field
+            _ => Result::Ok(BigInt::from(0)),
+        }
     } else {
         shift_r(left, &(field - right), field)
     }
@@ -129,11 +132,14 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = left / &num_traits::pow(two, usize_repr);
-        Result::Ok(value)
+        match right.to_usize() {
+            Some(usize_repr) if usize_repr < field.bits() => {
+                let value = left / &num_traits::pow(two, usize_repr);
+                Result::Ok(value)
+            }
+            // every bit of left is moved out
+            _ => Result::Ok(BigInt::from(0)),
+        }
     } else {
         shift_l(left, &(field - right), field)
     }
-- 
2.43.0


From aba8ea736876931c357c2158f16019d66f28ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 03/31] fix: a hexadecimal literal needs at least one digit (0x
 panicked the parser)

---
 parser/src/lang.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 681db7f..67a1aa5 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -840,7 +840,7 @@ DECNUMBER: BigInt = {
 };
 
 HEXNUMBER : BigInt = {
-    r"0x[0-9A-Fa-f]*" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
+    r"0x[0-9A-Fa-f]+" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
 };
 
 IDENTIFIER : String = {
-- 
2.43.0


From 02d3df62366c2327dd074d1e8c8aab46117d9826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 04/31] fix: a version number that does not fit a usize is an
 unsupported version, not a panic

---
 parser/src/lang.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 67a1aa5..04411c0 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -852,7 +852,7 @@ STRING : String = {
 };
 
 SMALL_DECNUMBER: usize = {
-    r"[0-9]+" => usize::from_str(<>).expect("failed to parse number")
+    r"[0-9]+" => usize::from_str(<>).unwrap_or(usize::MAX)
 };
 
 
-- 
2.43.0


From 35c7d609e89cc1b103636d4886337e1b497e0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 05/31] fix: identify the main file by its canonical path so
 that an include cycle does not parse it twice

---
 parser/src/include_logic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 0b6b910..dd5f9b1 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -12,6 +12,8 @@ pub struct FileStack {
 
 impl FileStack {
     pub fn new(src: PathBuf) -> FileStack {
+        // included files are identified by their canonical path, so the main file must be too
+        let src = std::fs::canonicalize(&src).unwrap_or(src);
         let mut location = src.clone();
         location.pop();
         FileStack { current_location: location, black_paths: HashSet::new(), stack: vec![src] }
-- 
2.43.0


From cee25c98a04c29e3c992cb352b5c4a69cb1e81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:49 +0000
Subject: [PATCH 06/31] fix: report bus parameters whose value is unknown

---
 constraint_generation/src/execute.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0e5698a..c750572 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -150,6 +150,7 @@ enum ExecutionError {
     DeclarationInUnknown,
     TagAssignmentInUnknown,
     UnknownTemplate,
+    UnknownBus,
     NonValidTagAssignment,
     FalseAssert,
     ArraySizeTooBig
@@ -1245,8 +1246,8 @@ fn execute_expression(
             can_be_simplified = can_simplify;
             value
         }
-        BusCall{id, args, ..} =>{
-            let value = execute_bus_call_complete(id, args, program_archive, runtime, flags)?;
+        BusCall{id, args, meta, ..} =>{
+            let value = execute_bus_call_complete(id, meta, args, program_archive, runtime, flags)?;
             value
         
         }
@@ -1384,6 +1385,7 @@ fn execute_anonymous_component_declaration(
 
 fn execute_bus_call_complete(
     id: &String,
+    meta: &Meta,
     args: &Vec<Expression>,
     program_archive: &ProgramArchive,
     runtime: &mut RuntimeInformation,
@@ -1393,7 +1395,19 @@ fn execute_bus_call_complete(
     
     for arg_expression in args.iter() {
         let f_arg = execute_expression(arg_expression, program_archive, runtime, flags)?;
-        arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg, line!()));
+        let safe_f_arg = safe_unwrap_to_arithmetic_slice(f_arg, line!());
+        // check that all the arguments are known
+        for value in MemorySlice::get_reference_values(&safe_f_arg){
+            if !AExpr::is_number(&value){
+                treat_result_with_execution_error(
+                    Result::Err(ExecutionError::UnknownBus),
+                    meta,
+                    &mut runtime.runtime_errors,
+                    &runtime.call_trace,
+                )?;
+            }
+        }
+        arg_values.push(safe_f_arg);
     }
 
     if program_archive.contains_bus(id){ // in this case we execute
@@ -4280,6 +4294,10 @@ fn treat_result_with_execution_error<C>(
                     "Every component instantiation must be resolved during the constraint generation phase. This component declaration uses a value that can be unknown during the constraint generation phase.".to_string(),
                     ReportCode::RuntimeError,
                 ),
+                UnknownBus => Report::error(
+                    "Parameters of a bus must be known during the constraint generation phase".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 NonValidTagAssignment => Report::error(
                     "Tags cannot be assigned to values that can be unknown during the constraint generation phase".to_string(),
                     ReportCode::RuntimeError,
-- 
2.43.0


From e62e7755526f0522bdc74289d59091b0c8101e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:52 +0000
Subject: [PATCH 07/31] fix: a constraint assignment with an unknown index on
 its left is reported instead of panicking

---
 constraint_generation/src/execute.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index c750572..7009e14 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -387,7 +387,15 @@ fn execute_statement(
                     TypesAccess{bus_access: None, other_access: Some(access_other)}
                 };
             
-            
+            if *op == AssignOp::AssignConstraintSignal && access_information.is_undefined(){
+                // a constraint over an element that cannot be determined is not quadratic
+                treat_result_with_execution_error(
+                    Result::Err(ExecutionError::NonQuadraticConstraint),
+                    meta,
+                    &mut runtime.runtime_errors,
+                    &runtime.call_trace,
+                )?;
+            }
             
             let r_folded = execute_expression(rhe, program_archive, runtime, flags)?;
             
@@ -1554,6 +1562,14 @@ struct TypesAccess{
     other_access: Option<AccessingInformation>,
 }
 
+impl TypesAccess {
+    // true when some index of the access is not known
+    fn is_undefined(&self) -> bool {
+        self.bus_access.as_ref().map_or(false, |access| access.undefined)
+            || self.other_access.as_ref().map_or(false, |access| access.undefined)
+    }
+}
+
 
 fn perform_assign(
     meta: &Meta,
-- 
2.43.0


From b5a3720b70495b8135024a56b39f216b91bfd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:07 +0000
Subject: [PATCH 08/31] fix: instantiating a component under an unknown
 condition or at an unknown index is reported

---
 constraint_generation/src/execute.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 7009e14..81e6cfd 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1293,6 +1293,16 @@ fn execute_call(
 
     let is_template = program_archive.contains_template(id);
 
+    if is_template && runtime.block_type == BlockType::Unknown{
+        // Case not valid component instantiation Known/Unknown
+        treat_result_with_execution_error(
+            Result::Err(ExecutionError::DeclarationInUnknown),
+            meta,
+            &mut runtime.runtime_errors,
+            &runtime.call_trace,
+        )?;
+    }
+
     for arg_expression in args.iter() {
         let f_arg = execute_expression(arg_expression, program_archive, runtime, flags)?;
         let safe_f_arg = safe_unwrap_to_arithmetic_slice(f_arg, line!());
@@ -1812,6 +1822,15 @@ fn perform_assign(
             // in case the component is undef then we do not perform any changes
             // TODO: possible improvement?
             if accessing_information.undefined{
+                if accessing_information.field_access.is_none(){
+                    // the component that is instantiated is not known
+                    treat_result_with_execution_error(
+                        Result::Err(ExecutionError::UnknownTemplate),
+                        meta,
+                        &mut runtime.runtime_errors,
+                        &runtime.call_trace,
+                    )?;
+                }
                 return Ok(None)
             }
             
-- 
2.43.0


From 4784e5cf2b5721504c596bf549cd059abf91eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:09 +0000
Subject: [PATCH 09/31] fix: a non-quadratic expression constrained to
 underscore is reported instead of panicking

---
 constraint_generation/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 81e6cfd..bb936c6 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -801,6 +801,14 @@ fn execute_statement(
                             &mut runtime.runtime_errors,
                             &runtime.call_trace,
                         )?;
+                        if value_cell.is_nonquadratic() {
+                            treat_result_with_execution_error(
+                                Result::Err(ExecutionError::NonQuadraticConstraint),
+                                meta,
+                                &mut runtime.runtime_errors,
+                                &runtime.call_trace,
+                            )?;
+                        }
                         let constraint_expression = AExpr::transform_expression_to_constraint_form(
                             value_cell,
                             runtime.constants.get_p(),
-- 
2.43.0


From 9eb6dee2104a7c376439a8b77ad31a75b6abbc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 10/31] fix: a loop no longer unbalances the stack of unknown
 conditions used to detect multiple assignments

---
 constraint_generation/src/execute.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index bb936c6..f4af5b3 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -693,9 +693,7 @@ fn execute_statement(
             possible_return
         }
         While { cond, stmt, .. } => {
-            // We update the conditions state of the execution
-            runtime.conditions_state.push((runtime.unknown_counter, true));
-            runtime.unknown_counter+=1;
+            // The conditions state is updated by execute_conditional_statement when the condition is unknown
             loop {
 
                 let (returned, can_simplify, condition_result) = execute_conditional_statement(
@@ -724,8 +722,6 @@ fn execute_statement(
                 } else if !condition_result.unwrap() {
                     break returned;
                 }
-                // We remove the last conditions_state added
-                runtime.conditions_state.pop();
             }
         },
         Block { stmts, .. } => {
-- 
2.43.0


From 3451c90f71b71c68273f9ecaf585154554856afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:18 +0000
Subject: [PATCH 11/31] fix: inputs and bus fields that are still unassigned
 are counted per element, also after conditional assignments

---
 .../environment_utils/bus_representation.rs   | 48 +++++--------------
 .../component_representation.rs               | 34 ++++++-------
 .../src/environment_utils/slice_types.rs      | 12 +++++
 3 files changed, 40 insertions(+), 54 deletions(-)

diff --git a/constraint_generation/src/environment_utils/bus_representation.rs b/constraint_generation/src/environment_utils/bus_representation.rs
index 16e123e..6c7293d 100644
--- a/constraint_generation/src/environment_utils/bus_representation.rs
+++ b/constraint_generation/src/environment_utils/bus_representation.rs
@@ -178,6 +178,14 @@ impl BusRepresentation {
         self.node_pointer.is_none() || !self.unassigned_fields.is_empty()
     }
 
+    fn update_unassigned_fields(&mut self, field_name: &str, left: SliceCapacity){
+        if left == 0 {
+            self.unassigned_fields.remove(field_name);
+        } else if let Some(unassigned) = self.unassigned_fields.get_mut(field_name){
+            *unassigned = left;
+        }
+    }
+
     pub fn assign_value_to_field(
         &mut self,
         field_name: &str,
@@ -237,18 +245,9 @@ impl BusRepresentation {
                                     conditions_assignment
                                 )?;
 
-                                // Update from unassigned if it is completely assigned
-                                if !resulting_bus.has_unassigned_fields(){
-                                    match self.unassigned_fields.get_mut(field_name){
-                                        Some(left) => {
-                                            *left -= 1;
-                                            if *left == 0 {
-                                                self.unassigned_fields.remove(field_name);
-                                            }
-                                        }
-                                        Option::None => {}
-                                    }
-                                }
+                                // Update the number of buses that are not completely assigned
+                                let left = field.number_of_unassigned();
+                                self.update_unassigned_fields(field_name, left);
                                 Result::Ok(())
                             }
                             Result::Err(err)=>{
@@ -291,29 +290,8 @@ impl BusRepresentation {
                 }
 
                 // Update the value of unnasigned fields
-                let slice_route = match assigned_value{
-                    FoldedArgument::Signal(signal_slice_route) =>{
-                        signal_slice_route
-                    },
-                    FoldedArgument::Bus(bus_slice) =>{
-                        bus_slice.route()
-                    },
-                };
-
-                let mut dim_slice = 1;
-                for i in slice_route {
-                    dim_slice *= *i;
-                }
-                    
-                match self.unassigned_fields.get_mut(field_name){
-                    Some(left) => {
-                        *left -= dim_slice;
-                        if *left == 0 {
-                            self.unassigned_fields.remove(field_name);
-                        }
-                    }
-                    Option::None => {}
-                }
+                let left = field.number_of_unassigned();
+                self.update_unassigned_fields(field_name, left);
                 Ok(())
             }
         
diff --git a/constraint_generation/src/environment_utils/component_representation.rs b/constraint_generation/src/environment_utils/component_representation.rs
index 1b40bbb..8a63918 100644
--- a/constraint_generation/src/environment_utils/component_representation.rs
+++ b/constraint_generation/src/environment_utils/component_representation.rs
@@ -483,7 +483,9 @@ impl ComponentRepresentation {
         perform_signal_assignment(inputs_response, &access, slice_route, conditions_assignment)?;
         
         // Update the value of unnasigned fields
-        ComponentRepresentation::update_unassigned_inputs(self, signal_name, slice_route);
+        let left = SignalSlice::get_reference_values(inputs_response).iter()
+            .filter(|state| matches!(state, NoAssigned)).count();
+        ComponentRepresentation::update_unassigned_inputs(self, signal_name, left);
 
         Result::Ok(())
 
@@ -561,7 +563,9 @@ impl ComponentRepresentation {
         perform_bus_assignment(inputs_response, &access, bus_slice, true, conditions_assignment)?;
         
         // Update the value of unnasigned fields
-        ComponentRepresentation::update_unassigned_inputs(self, bus_name, bus_slice.route());
+        let left = BusSlice::get_reference_values(inputs_response).iter()
+            .filter(|bus| bus.has_unassigned_fields()).count();
+        ComponentRepresentation::update_unassigned_inputs(self, bus_name, left);
 
         Result::Ok(())
 
@@ -701,10 +705,10 @@ impl ComponentRepresentation {
         )?;
         
         
-        // In case it is completely assigned update unassigned
-        if !single_bus.has_unassigned_fields(){
-            ComponentRepresentation::update_unassigned_inputs(self, bus_name, &[1]);
-        }
+        // Update the number of buses that are not completely assigned
+        let left = BusSlice::get_reference_values(inputs_slice).iter()
+            .filter(|bus| bus.has_unassigned_fields()).count();
+        ComponentRepresentation::update_unassigned_inputs(self, bus_name, left);
 
         Result::Ok(())
 
@@ -868,19 +872,11 @@ impl ComponentRepresentation {
 
     // Auxiliar function to update the unassigned inputs
 
-    fn update_unassigned_inputs(component: &mut ComponentRepresentation, signal_name: &str, slice_route: &[usize]){
-        let mut dim_slice = 1;
-        for i in slice_route {
-            dim_slice *= *i;
-        }
-        match component.unassigned_inputs.get_mut(signal_name){
-            Some(left) => {
-                *left -= dim_slice;
-                if *left == 0 {
-                    component.unassigned_inputs.remove(signal_name);
-                }
-            }
-            Option::None => {}
+    fn update_unassigned_inputs(component: &mut ComponentRepresentation, signal_name: &str, left: usize){
+        if left == 0 {
+            component.unassigned_inputs.remove(signal_name);
+        } else if let Some(unassigned) = component.unassigned_inputs.get_mut(signal_name){
+            *unassigned = left;
         }
     }
 }
diff --git a/constraint_generation/src/environment_utils/slice_types.rs b/constraint_generation/src/environment_utils/slice_types.rs
index 73cf261..677af87 100644
--- a/constraint_generation/src/environment_utils/slice_types.rs
+++ b/constraint_generation/src/environment_utils/slice_types.rs
@@ -60,6 +60,18 @@ pub enum FieldTypes { // For each field, we store the info depending on if it is
     Bus(BusSlice),
 }
 
+impl FieldTypes {
+    // number of signals without assignment, or of buses that are not completely assigned
+    pub fn number_of_unassigned(&self) -> SliceCapacity {
+        match self {
+            FieldTypes::Signal(slice) => SignalSlice::get_reference_values(slice).iter()
+                .filter(|state| matches!(state, AssignmentState::NoAssigned)).count(),
+            FieldTypes::Bus(slice) => BusSlice::get_reference_values(slice).iter()
+                .filter(|bus| bus.has_unassigned_fields()).count(),
+        }
+    }
+}
+
 #[derive(Clone)]
 pub enum FoldedResult { // For each possible returning value, we store the info depending on if it is a signal o a bus
     // Depending on the case we store a different slice
-- 
2.43.0


From 16b650bff1d328151c1f7f314af9d8f21ef69bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 12/31] fix: infer the arguments of a call before opening it in
 the function result inference

A call whose arguments could not be inferred left its variable block and its name
open, and an argument calling the same function was taken for a recursive call:
'return g(g(x));' ended in a panic when the result of the function was inferred.
---
 compiler/src/hir/type_inference.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/src/hir/type_inference.rs b/compiler/src/hir/type_inference.rs
index fb633ba..2cde769 100644
--- a/compiler/src/hir/type_inference.rs
+++ b/compiler/src/hir/type_inference.rs
@@ -252,15 +252,16 @@ fn infer_type_call(expr: &Expression, state: &State, context: &mut SearchInfo) -
         if context.open_calls.contains(id) {
             Option::None
         } else {
+            // the arguments belong to the caller: they are inferred before the call is opened
+            let arg_types = infer_args(args, state, context);
+            if arg_types.is_none() {
+                return Option::None;
+            }
             context.open_calls.insert(id.clone());
             context.environment.add_variable_block();
             let mut index = 0;
             let body = &state.generic_functions.get(id).unwrap().body;
             let names = &state.generic_functions.get(id).unwrap().params_names;
-            let arg_types = infer_args(args, state, context);
-            if arg_types.is_none() {
-                return Option::None;
-            }
             let arg_types = arg_types.unwrap();
             for arg_type in arg_types {
                 context.environment.add_variable(&names[index], arg_type);
-- 
2.43.0


From 8c912e6547cab3219fe116bc19669c7489dfbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 13/31] fix: assigning the same bus field in several branches,
 or a bus twice, no longer overflows the count of pending assignments

---
 constraint_generation/src/assignment_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/assignment_utils.rs b/constraint_generation/src/assignment_utils.rs
index b090e9b..f50915a 100644
--- a/constraint_generation/src/assignment_utils.rs
+++ b/constraint_generation/src/assignment_utils.rs
@@ -129,7 +129,8 @@ pub fn perform_tag_propagation(tags_values: &mut TagInfo, tags_definitions: &mut
 
 pub fn perform_tag_propagation_bus(tag_data: &mut BusTagInfo, assigned_tags: &TagWire, n_inserts: usize){
     perform_tag_propagation(&mut tag_data.tags, &mut tag_data.definitions, &assigned_tags.tags, tag_data.is_init);
-    tag_data.remaining_inserts -= n_inserts; 
+    // the same position can be assigned in several branches, or twice by mistake
+    tag_data.remaining_inserts = tag_data.remaining_inserts.saturating_sub(n_inserts);
     tag_data.is_init = true;
 
     for (field_name, field_data) in &mut tag_data.fields{
-- 
2.43.0


From 4f9fdfc8965e4b173eae8d0f0f77043db192e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 14/31] fix: assigning a bus with <-- does not transmit tags,
 as for signals

---
 constraint_generation/src/execute.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index f4af5b3..21c35af 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -2473,7 +2473,11 @@ fn perform_assign(
 
                 // Perform the tag propagation
                 // access to the field that is assigned and then propagate the tags
-                let new_tags = r_folded.tags.unwrap();
+                let new_tags = if r_folded.tags.is_some() && op == AssignOp::AssignConstraintSignal {
+                    r_folded.tags.unwrap()
+                } else {
+                    TagWire::default()
+                };
                 
                 let mut to_access = accessing_information;
                 let mut tag_data = tags_info;
@@ -2573,7 +2577,11 @@ fn perform_assign(
                 
                 // Perform the tag propagation
                 // access to the field that is assigned and then propagate the tags
-                let new_tags = r_folded.tags.unwrap();
+                let new_tags = if r_folded.tags.is_some() && op == AssignOp::AssignConstraintSignal {
+                    r_folded.tags.unwrap()
+                } else {
+                    TagWire::default()
+                };
                 
                 let mut to_access = accessing_information;
                 let mut tag_data = tags_info;
-- 
2.43.0


From 28a60be3189995d362fbca272d61cf830e6772cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 15/31] fix: report a failure to write the substitutions file
 instead of announcing success

---
 constraint_generation/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/lib.rs b/constraint_generation/src/lib.rs
index 90eb2f5..18e9329 100644
--- a/constraint_generation/src/lib.rs
+++ b/constraint_generation/src/lib.rs
@@ -63,8 +63,11 @@ pub fn build_circuit(program: ProgramArchive, config: BuildConfig) -> BuildRespo
         sync_dag_and_vcp(&mut vcp, &mut dag);
         if config.flag_json_sub { 
             use constraint_writers::json_writer::SubstitutionJSON;
-            let substitution_log = SubstitutionJSON::new(&config.json_substitutions).unwrap();
-            let _ = substitution_log.end();
+            let written = SubstitutionJSON::new(&config.json_substitutions).and_then(|log| log.end());
+            if written.is_err() {
+                eprintln!("{}", Colour::Red.paint("Could not write the output in the given path"));
+                return Result::Err(());
+            }
             println!("{} {}", Colour::Green.paint("Written successfully:"), config.json_substitutions);
         };
 
-- 
2.43.0


From a7e708db4f9f42226694995c5f4669e38845b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 16/31] fix: an error in the arguments of the main component is
 reported instead of panicking

---
 constraint_generation/src/execute.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 21c35af..f074246 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -178,8 +178,11 @@ pub fn constraint_execution(
         if let Call { id, args, .. } = &program_archive.get_main_expression() {
             let mut arg_values = Vec::new();
             for arg_expression in args.iter() {
-                let f_arg = execute_expression(arg_expression, program_archive, &mut runtime_information, flags);
-                arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg.unwrap(), line!()));
+                let f_arg = match execute_expression(arg_expression, program_archive, &mut runtime_information, flags) {
+                    Result::Ok(f_arg) => f_arg,
+                    Result::Err(_) => return Result::Err(runtime_information.runtime_errors),
+                };
+                arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg, line!()));
                 // improve
             }
             execute_template_call_complete(
-- 
2.43.0


From 0b5bda2fbe8a44d355425434f108087a7502440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:43 +0000
Subject: [PATCH 17/31] fix: diagnostics found before a fatal parse error are
 reported together with it

---
 parser/src/parser_logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 9851362..349023f 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -113,7 +113,10 @@ pub fn parse_file(src: &str, file_id: FileID, field: &BigInt, flag_no_init: bool
                  0..0, file_id
                 )
         })
-        .map_err(|e| vec![e])?;
+        .map_err(|e| {
+            errors.push(e);
+            std::mem::take(&mut errors)
+        })?;
 
     if !errors.is_empty() {
         return Err(errors.into_iter().collect());
-- 
2.43.0


From fa19df974461a32776aa88f664c34be92414fab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 18/31] fix: calls and conditionals in the condition of an
 inline conditional are instantiated, linked and expanded

---
 compiler/src/hir/merger.rs        |  6 ++++--
 compiler/src/hir/sugar_cleaner.rs | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/compiler/src/hir/merger.rs b/compiler/src/hir/merger.rs
index 100dcdd..4ef7a47 100644
--- a/compiler/src/hir/merger.rs
+++ b/compiler/src/hir/merger.rs
@@ -313,7 +313,8 @@ fn produce_vcf_variable(expr: &Expression, state: &mut State, environment: &E) {
 
 fn produce_vcf_switch(expr: &Expression, state: &mut State, environment: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        produce_vcf_expr(cond, state, environment);
         produce_vcf_expr(if_true, state, environment);
         produce_vcf_expr(if_false, state, environment);
     } else {
@@ -580,7 +581,8 @@ fn link_variable(expr: &mut Expression, state: &State, env: &E) {
 
 fn link_switch(expr: &mut Expression, state: &State, env: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        link_expression(cond, state, env);
         link_expression(if_true, state, env);
         link_expression(if_false, state, env);
     } else {
diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 3fefc25..13db746 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -214,6 +214,15 @@ fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) ->
     }
 }
 
+// Extends an expression that is used as a single value by its statement
+fn extend_single_value(expr: &mut Expression, state: &mut State, context: &Context) -> Vec<Statement> {
+    let mut inits = extend_expression(expr, state, context).initializations;
+    let mut filtered = vec![expr.clone()];
+    sugar_filter(&mut filtered, state, &mut inits);
+    *expr = filtered.pop().unwrap();
+    inits
+}
+
 fn extend_expression(
     expr: &mut Expression,
     state: &mut State,
@@ -368,11 +377,13 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
 
 fn extend_switch(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        let mut initializations = extend_single_value(cond, state, context);
         let mut true_expand = extend_expression(if_true, state, context);
         let mut false_expand = extend_expression(if_false, state, context);
-        true_expand.initializations.append(&mut false_expand.initializations);
-        let mut extended = true_expand;
+        initializations.append(&mut true_expand.initializations);
+        initializations.append(&mut false_expand.initializations);
+        let mut extended = ExtendedSyntax { initializations };
         let mut expr = vec![*if_true.clone(), *if_false.clone()];
         sugar_filter(&mut expr, state, &mut extended.initializations);
         *if_false = Box::new(expr.pop().unwrap());
-- 
2.43.0


From f7cf030e243e61d409be5669d172dd2fb653378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 19/31] fix: inline conditionals and calls as arguments of log,
 assert and === are expanded

---
 compiler/src/hir/sugar_cleaner.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 13db746..77e0d9d 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -172,14 +172,23 @@ fn extend_constraint_equality(
 ) -> Vec<Statement> {
     use Statement::ConstraintEquality;
     if let ConstraintEquality { lhe, rhe, .. } = stmt {
-        let mut expands = extend_expression(lhe, state, context).initializations;
-        expands.append(&mut extend_expression(rhe, state, context).initializations);
+        let mut expands = extend_constrained(lhe, state, context);
+        expands.append(&mut extend_constrained(rhe, state, context));
         expands
     } else {
         unreachable!()
     }
 }
 
+// arrays are left as they are: the equality is split into their elements (see map_constraint_equalities)
+fn extend_constrained(expr: &mut Expression, state: &mut State, context: &Context) -> Vec<Statement> {
+    if expr.is_array() {
+        extend_expression(expr, state, context).initializations
+    } else {
+        extend_single_value(expr, state, context)
+    }
+}
+
 fn extend_return(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::Return;
     if let Return { value, .. } = stmt {
@@ -195,8 +204,7 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
         let mut initializations = Vec::new();
         for arglog in args {
             if let LogArgument::LogExp(arg) = arglog {
-                let mut exp = extend_expression(arg, state, context);
-                initializations.append(&mut exp.initializations);
+                initializations.append(&mut extend_single_value(arg, state, context));
             }
         }
         initializations
@@ -208,7 +216,7 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
 fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::Assert;
     if let Assert { arg, .. } = stmt {
-        extend_expression(arg, state, context).initializations
+        extend_single_value(arg, state, context)
     } else {
         unreachable!()
     }
-- 
2.43.0


From 7eee27358c81bc05a67467adf97b143d60d48c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 20/31] fix: single statements as branches or loop bodies are
 expanded in place, and calls in a loop condition are evaluated at every
 iteration

---
 compiler/src/hir/sugar_cleaner.rs | 37 ++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 77e0d9d..6209e8f 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -104,12 +104,15 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
 fn extend_while(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::While;
     if let While { cond, stmt, .. } = stmt {
+        into_block(stmt);
         let mut expands = extend_statement(stmt, state, context);
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
-        let mut expr = vec![cond.clone()];
-        sugar_filter(&mut expr, state, &mut expands);
-        *cond = expr.pop().unwrap();
+        expands.append(&mut extend_single_value(cond, state, context));
+        // what the condition needs has to be evaluated again after each iteration
+        let mut reevaluation: Vec<_> = expands.iter().filter(|s| s.is_substitution()).cloned().collect();
+        if !reevaluation.is_empty() {
+            map_substitutions(&mut reevaluation);
+            into_block_with(stmt, reevaluation);
+        }
         expands
     } else {
         unreachable!()
@@ -124,15 +127,13 @@ fn extend_conditional(
     use Statement::IfThenElse;
     if let IfThenElse { cond, if_case, else_case, .. } = stmt {
         let mut expands = vec![];
+        into_block(if_case);
         expands.append(&mut extend_statement(if_case, state, context));
         if let Option::Some(s) = else_case {
+            into_block(s);
             expands.append(&mut extend_statement(s, state, context));
         }
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
-        let mut expr = vec![cond.clone()];
-        sugar_filter(&mut expr, state, &mut expands);
-        *cond = expr.pop().unwrap();
+        expands.append(&mut extend_single_value(cond, state, context));
         expands
     } else {
         unreachable!()
@@ -525,6 +526,22 @@ fn rmv_sugar(fresh_variable: &str, expr: Expression, buffer: &mut Vec<Statement>
     new_arg
 }
 
+// The branches of conditionals and the bodies of loops become blocks, where their sugar is expanded
+fn into_block(stmt: &mut Statement) {
+    if !stmt.is_block() {
+        into_block_with(stmt, vec![]);
+    }
+}
+
+fn into_block_with(stmt: &mut Statement, mut following: Vec<Statement>) {
+    use Statement::Block;
+    let meta = stmt.get_meta().clone();
+    let empty_block = Block { meta: meta.clone(), stmts: vec![] };
+    let mut stmts = vec![std::mem::replace(stmt, empty_block)];
+    stmts.append(&mut following);
+    *stmt = Block { meta, stmts };
+}
+
 // mappings
 fn map_stmts_with_sugar(stmts: &mut Vec<Statement>, state: &mut State, context: &Context) {
     let work = std::mem::take(stmts);
-- 
2.43.0


From f3d343f66490bce7574a7b45394eb59e1cd4c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 21/31] fix: components of different blocks that share their
 name keep their own inferred template

---
 .../decorators/component_type_inference.rs    | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/type_analysis/src/decorators/component_type_inference.rs b/type_analysis/src/decorators/component_type_inference.rs
index 253d0ef..75e17e9 100644
--- a/type_analysis/src/decorators/component_type_inference.rs
+++ b/type_analysis/src/decorators/component_type_inference.rs
@@ -1,19 +1,28 @@
 use program_structure::ast::*;
 use program_structure::program_archive::ProgramArchive;
 use program_structure::template_data::TemplateInfo;
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
-type Environment = HashMap<String, String>;
+// A component is identified by its declaration: components of different blocks can share their name
+type ComponentId = (String, usize);
+type Environment = HashMap<ComponentId, String>;
 struct PathInformation {
-    components: HashSet<String>,
+    // the components declared in each of the open blocks
+    components: Vec<HashMap<String, ComponentId>>,
     environment: Environment,
 }
 
+impl PathInformation {
+    fn look_for_component(&self, name: &str) -> Option<&ComponentId> {
+        self.components.iter().rev().find_map(|block| block.get(name))
+    }
+}
+
 pub fn inference(program_archive: &mut ProgramArchive) {
     let mut template_to_inference = HashMap::new();
     for (name, data) in &program_archive.templates {
         let mut analysis =
-            PathInformation { components: HashSet::new(), environment: HashMap::new() };
+            PathInformation { components: vec![HashMap::new()], environment: HashMap::new() };
         infer_component_types(data.get_body(), &program_archive.templates, &mut analysis);
         template_to_inference.insert(name.clone(), analysis.environment);
     }
@@ -37,22 +46,27 @@ fn infer_component_types(stmt: &Statement, templates: &TemplateInfo, data: &mut
             infer_component_types(stmt, templates, data);
         }
         Block { stmts, .. } => {
+            data.components.push(HashMap::new());
             for s in stmts {
                 infer_component_types(s, templates, data);
             }
+            data.components.pop();
         }
         InitializationBlock { initializations, .. } => {
             for s in initializations {
                 infer_component_types(s, templates, data);
             }
         }
-        Declaration { xtype, name, .. }
+        Declaration { xtype, name, meta, .. }
             if VariableType::Component == *xtype || VariableType::AnonymousComponent == *xtype =>{
-            data.components.insert(name.clone());
+            let id = (name.clone(), meta.elem_id);
+            data.components.last_mut().unwrap().insert(name.clone(), id);
         }
-        Substitution { var, rhe, .. } if data.components.contains(var) => {
-            if let Some(template) = into_template_inference(rhe, templates) {
-                data.environment.insert(var.clone(), template);
+        Substitution { var, rhe, .. } => {
+            if let Some(id) = data.look_for_component(var) {
+                if let Some(template) = into_template_inference(rhe, templates) {
+                    data.environment.insert(id.clone(), template);
+                }
             }
         }
         _ => {}
@@ -101,7 +115,7 @@ fn apply_inference(stmt: &mut Statement, env: &mut Environment) {
         }
         Declaration { xtype, name, meta, .. } 
             if VariableType::Component == *xtype || VariableType::AnonymousComponent == *xtype => {
-                meta.component_inference = env.remove(name);
+                meta.component_inference = env.remove(&(name.clone(), meta.elem_id));
         }
         _ => {}
     }
-- 
2.43.0


From d4012f55a63d001b12620263bd9fde6c1c1820e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:02 +0000
Subject: [PATCH 22/31] fix: anonymous components and tuples in buses, in the
 main component and under parallel are rejected instead of panicking

---
 parser/src/syntax_sugar_remover.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index a2ed76b..2609e51 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -12,10 +12,13 @@ use num_bigint::BigInt;
 
 
 pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(), Report> {
-    if program_archive.get_main_expression().is_anonymous_comp() {
+    if program_archive.get_main_expression().contains_anonymous_comp() {
         return Result::Err(anonymous_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain an anonymous call  ".to_string()));
      
     }
+    if program_archive.get_main_expression().contains_tuple() {
+        return Result::Err(tuple_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain a tuple ".to_string()));
+    }
     let old_templates = program_archive.templates.clone();
 
     for (_name, t) in &mut program_archive.templates {
@@ -48,6 +51,17 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
             t.set_body(new_body);
         }            
     }
+
+    for (_, b) in &mut program_archive.buses {
+        let old_body = b.get_body().clone();
+        if old_body.contains_anonymous_comp(){
+            return Result::Err(anonymous_general_error(old_body.get_meta().clone(),"Buses cannot contain calls to anonymous templates".to_string()));
+        } else{
+            check_tuples_statement(&old_body)?;
+            let new_body = remove_tuples_from_statement(old_body)?;
+            b.set_body(new_body);
+        }
+    }
     Result::Ok(())
 }
 
@@ -262,7 +276,10 @@ pub fn check_anonymous_components_expression(
             Result::Ok(())
         },
         ParallelOp { meta, rhe } => {
-            if !rhe.is_call() && !rhe.is_anonymous_comp() && rhe.contains_anonymous_comp() {
+            if rhe.is_anonymous_comp() {
+                return check_anonymous_components_expression(rhe);
+            }
+            else if !rhe.is_call() && rhe.contains_anonymous_comp() {
                 return Result::Err(anonymous_general_error(meta.clone(),"Bad use of parallel operator in combination with anonymous components ".to_string()));       
             }
             else if rhe.is_call() && rhe.contains_anonymous_comp() {
-- 
2.43.0


From 57dc1955f96956014e9830a74a032006eb616d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:45 +0000
Subject: [PATCH 23/31] fix: split long log strings at character boundaries

---
 .../src/abstract_syntax_tree/statement_builders.rs          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/program_structure/src/abstract_syntax_tree/statement_builders.rs b/program_structure/src/abstract_syntax_tree/statement_builders.rs
index 3c51078..0ff2208 100644
--- a/program_structure/src/abstract_syntax_tree/statement_builders.rs
+++ b/program_structure/src/abstract_syntax_tree/statement_builders.rs
@@ -70,7 +70,11 @@ fn split_string(str: String) -> Vec<LogArgument> {
     let sub_len = 230;
     let mut cur = str;
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_len, cur.len()));
+        let mut chunk_len = std::cmp::min(sub_len, cur.len());
+        while !cur.is_char_boundary(chunk_len) {
+            chunk_len -= 1;
+        }
+        let (chunk, rest) = cur.split_at(chunk_len);
         v.push(LogArgument::LogStr(chunk.to_string()));
         cur = rest.to_string();
     }
-- 
2.43.0


From 8d2bd9221fe9408592cbf070ebc1682302375c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:04 +0000
Subject: [PATCH 24/31] fix: unrelated diagnostics no longer share a code

---
 program_structure/src/program_library/error_code.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/program_structure/src/program_library/error_code.rs b/program_structure/src/program_library/error_code.rs
index f2e7c0c..60a0416 100644
--- a/program_structure/src/program_library/error_code.rs
+++ b/program_structure/src/program_library/error_code.rs
@@ -175,7 +175,7 @@ impl fmt::Display for ReportCode {
             TypeCantBeUseAsCondition => "T2025",
             EmptyArrayInlineDeclaration => "T2026",
             PrefixOperatorWithWrongTypes => "T2027",
-            ParallelOperatorWithWrongTypes => "T2047",
+            ParallelOperatorWithWrongTypes => "T2064",
             InfixOperatorWithWrongTypes => "T2028",
             InvalidArgumentInCall => "T2029",
             InvalidArgumentInCallBus => "T2029",
@@ -183,7 +183,7 @@ impl fmt::Display for ReportCode {
             InconsistentStaticInformation => "T2031",
             InvalidArrayAccess(..) => "T2032",
             InvalidSignalAccess => "T2046",
-            InvalidSignalTagAccess => "T2047",
+            InvalidSignalTagAccess => "T2065",
             InvalidTagAccess => "T2048",
             InvalidTagAccessAfterArray => "T2049",
             InvalidArraySize(..) => "T2033",
@@ -193,7 +193,7 @@ impl fmt::Display for ReportCode {
             InvalidArrayTypeBandSignal => "T2034",
             InvalidArrayTypeDifferentBuses => "T2034",  
             ForStatementIllConstructed => "T2035",
-            BadArrayAccess => "T2035",
+            BadArrayAccess => "T2068",
             AssigningAComponentTwice => "T2036",
             AssigningASignalTwice => "T2037",
             NotAllowedOperation => "T2038",
@@ -205,12 +205,12 @@ impl fmt::Display for ReportCode {
             MustBeSingleArithmeticT => "T2044",
             MustBeSingleArithmeticB => "T2044",
             ExpectedDimDiffGotDim(..) => "T2045",
-            MustBeSameDimension(..) => "T2046",
+            MustBeSameDimension(..) => "T2066",
             MustBeArithmetic => "T2047",
             OutputTagCannotBeModifiedOutside => "T2048-A",
             InputTagCannotBeModifiedOutside => "T2048-B",
             InputTagCannotBeAccessedOutside => "T2048-C",
-            UnreachableTags => "T2049",
+            UnreachableTags => "T2067",
             UnreachableSignals => "T2050",
             MainComponentWithTags => "T2051",
             UndefinedBus => "T2052",
-- 
2.43.0


From e98195133bdfb0875bd40191abf93388b5937c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:18 +0000
Subject: [PATCH 25/31] fix: warnings about mismatched dimensions carry the
 code of a warning

---
 constraint_generation/src/execute.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index f074246..df0f541 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -4016,13 +4016,13 @@ fn treat_result_with_memory_error_void(
                         Report::warning(
                             format!("Typing warning: Mismatched dimensions, assigning to an array an expression of smaller length, the remaining positions are not modified. Initially all variables are initialized to 0.\n  Expected length: {}, given {}",
                                 dim_original, dim_given),
-                            RuntimeError
+                            ReportCode::RuntimeWarning
                         )
                     } else{
                         Report::warning(
                             format!("Typing warning: Mismatched dimensions, assigning to an array an expression of greater length, the remaining positions of the expression are not assigned to the array.\n  Expected length: {}, given {}",
                                 dim_original, dim_given),
-                            RuntimeError
+                            ReportCode::RuntimeWarning
                         )
                     };
                     add_report_to_runtime(report, meta, runtime_errors, call_trace);
-- 
2.43.0


From 8fb3b5ec232dd90c1c6cabcfcdbe3355c568e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:06 +0000
Subject: [PATCH 26/31] fix: keep the contradiction when simplification finds
 two values for one signal

---
 constraint_list/src/constraint_simplification.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..797713d 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -258,13 +258,22 @@ fn constant_eq_simplification(
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
-    for constraint in c_eq {
+    let mut assigned: HashMap<usize, S> = HashMap::new();
+    for mut constraint in c_eq {
         let mut signals: Vec<_> = C::take_cloned_signals_ordered(&constraint).iter().cloned().collect();
         let signal = signals.pop().unwrap();
         if HashSet::contains(&forbidden, &signal) {
             LinkedList::push_back(&mut cons, constraint);
+        } else if let Some(sub) = assigned.get(&signal) {
+            // the signal already has a value: what is left is trivial or a contradiction
+            C::apply_substitution(&mut constraint, sub, field);
+            C::fix_constraint(&mut constraint, field);
+            if !C::is_empty(&constraint) {
+                LinkedList::push_back(&mut cons, constraint);
+            }
         } else {
             let sub = C::clear_signal_from_linear(constraint, &signal, field);
+            assigned.insert(signal, sub.clone());
             LinkedList::push_back(&mut subs, sub);
         }
     }
-- 
2.43.0


From acc30a52a0c5b84a4c9d9511422959e5899d8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:20 +0000
Subject: [PATCH 27/31] fix: index partial accesses to arrays of subcomponents
 alike in the C++ code

The number of elements before a row of a multi-dimensional signal, or before an
element of a multi-dimensional array of buses, of a component in an array of
different instances was multiplied without parentheses: only the last index
was multiplied by the length or size, so the C++ witness read and wrote other
signals than the WASM one.
---
 compiler/src/intermediate_representation/call_bucket.rs  | 4 ++--
 compiler/src/intermediate_representation/load_bucket.rs  | 2 +-
 compiler/src/intermediate_representation/store_bucket.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index c881a8b..af36e66 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -601,12 +601,12 @@ impl WriteC for CallBucket {
 					// must be last access
 					assert!(idxpos+1 == indexes.len());
 					for i in index_list.len()..dim {
-					    map_index = format!("{}*cur_def->lengths[{}]",
+					    map_index = format!("({})*cur_def->lengths[{}]",
 								map_index, (i-1).to_string());
 					} // after this we have multiplied by the remaining dimensions
 				    }
 				    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-				    map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+				    map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 				    map_prologue.push(format!("}}"));
 				} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 				    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index e1c1acc..c796689 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -296,7 +296,7 @@ impl WriteC for LoadBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*{}.lengths[{}]",
+				    map_index = format!("({})*{}.lengths[{}]",
 							map_index, cur_def, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 148d793..9483c25 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -541,12 +541,12 @@ impl WriteC for StoreBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*cur_def->lengths[{}]",
+				    map_index = format!("({})*cur_def->lengths[{}]",
 							map_index, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
 			    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-		            map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+		            map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 			    map_prologue.push(format!("}}"));
 			} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 			    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
-- 
2.43.0


From 0ad90276331cf430cb7befa5af5b9ef5fbad8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:03 +0000
Subject: [PATCH 28/31] fix: store nothing in the C++ code when an array has no
 elements

An assignment between arrays without elements copied one element in the C++
code, overwriting the signal that follows the array, and could run a component
again; the WASM code stores nothing.
---
 compiler/src/intermediate_representation/store_bucket.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 9483c25..2969d71 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -442,6 +442,13 @@ impl WriteWasm for StoreBucket {
 impl WriteC for StoreBucket {
     fn produce_c(&self, producer: &CProducer, parallel: Option<bool>) -> (Vec<String>, String) {
         use c_code_generator::*;
+        // nothing is stored when the source or the destination has no elements
+        if let SizeOption::Single(0) = self.context.size {
+            return (vec![], "".to_string());
+        }
+        if let SizeOption::Single(0) = self.src_context.size {
+            return (vec![], "".to_string());
+        }
         let mut prologue = vec![];
         let cmp_index_ref = "cmp_index_ref".to_string();
         let mut src_index_ref = "".to_string();
-- 
2.43.0


From 2b53b2f0a0019c18f45e4ecd311126129cfef7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 29/31] fix: copy the least of both sizes in the WASM code when
 a size depends on the instance

Both auxiliaries received the size of the source, so an array of a component
in an array of different instances was copied whole to a shorter variable,
overwriting the variables that follow it. The C++ code takes the minimum.
---
 compiler/src/intermediate_representation/store_bucket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 2969d71..3007795 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -314,8 +314,9 @@ impl WriteWasm for StoreBucket {
 		} else { 
 		    instructions.push(set_constant(&size_src.to_string()));
 		}
-		instructions.push(tee_local(producer.get_aux_0_tag()));
-		instructions.push(tee_local(producer.get_aux_1_tag()));
+		instructions.push(set_local(producer.get_aux_1_tag())); // size of the source
+		instructions.push(tee_local(producer.get_aux_0_tag())); // size of the destination
+		instructions.push(get_local(producer.get_aux_1_tag()));
 		instructions.push(lt32_u());
 		instructions.push(format!("{} (result i32)", add_if()));
 		instructions.push(get_local(producer.get_aux_0_tag()));
-- 
2.43.0


From 6a3f4fb89553af3082bbcc586696ab5977973260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:07 +0000
Subject: [PATCH 30/31] fix: pass arrays without elements to functions

The WASM code left the address of the argument on the stack, so the module was
rejected; the C++ code copied the element that follows the array.
---
 compiler/src/intermediate_representation/call_bucket.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index af36e66..2b00489 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -102,7 +102,7 @@ impl WriteWasm for CallBucket {
 			0
                     }
                 };
-                if arg_size > 1 {
+                if arg_size != 1 {
                     instructions.push(set_local(producer.get_store_aux_1_tag()));
                 }
                 let mut instructions_arg = p.produce_wasm(producer);
@@ -497,7 +497,7 @@ impl WriteC for CallBucket {
 		    0
                 }
             };
-            if size > 1 {
+            if size != 1 {
                 let copy_arguments = if producer.prime_str != "goldilocks" {
                     vec![arena_position, src, size.to_string()]
                 }else {
-- 
2.43.0


From 9063f2214de3f205ffb7a0516874bf901bc1b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:14 +0000
Subject: [PATCH 31/31] fix: run components without inputs of incomplete arrays
 in the WASM code

Components without inputs run when they are created, but those of an array with
positions that are never created were not, so their signals stayed zero in the
WASM witness; the C++ code runs them.
---
 .../create_component_bucket.rs                | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/create_component_bucket.rs b/compiler/src/intermediate_representation/create_component_bucket.rs
index 681b084..ebe4d0d 100644
--- a/compiler/src/intermediate_representation/create_component_bucket.rs
+++ b/compiler/src/intermediate_representation/create_component_bucket.rs
@@ -64,6 +64,28 @@ impl ToString for CreateCmpBucket {
     }
 }
 
+impl CreateCmpBucket {
+    // stores the offset given by create in the subcomponent address and runs the subcomponent
+    fn produce_wasm_run_created(&self, producer: &WASMProducer) -> Vec<String> {
+        use code_producers::wasm_elements::wasm_code_generator::*;
+        vec![
+            tee_local(producer.get_temp_tag()),
+            store32(None),
+            get_local(producer.get_temp_tag()),
+            call(&format!("${}_run", self.symbol)),
+            tee_local(producer.get_merror_tag()),
+            add_if(),
+            set_constant(&self.message_id.to_string()),
+            set_constant(&self.line.to_string()),
+            call("$buildBufferMessage"),
+            call("$printErrorMessage"),
+            get_local(producer.get_merror_tag()),
+            add_return(),
+            add_end(),
+        ]
+    }
+}
+
 impl WriteWasm for CreateCmpBucket {
     fn produce_wasm(&self, producer: &WASMProducer) -> Vec<String> {
         use code_producers::wasm_elements::wasm_code_generator::*;
@@ -171,7 +193,11 @@ impl WriteWasm for CreateCmpBucket {
                 instructions.push(get_local(producer.get_create_loop_offset_tag()));
                 //sub_component signal address start
                 instructions.push(call(&format!("${}_create", self.symbol)));
-                instructions.push(store32(None)); //store the offset given by create in the subcomponent address
+                if !self.has_inputs {
+                    instructions.append(&mut self.produce_wasm_run_created(producer));
+                } else {
+                    instructions.push(store32(None)); //store the offset given by create in the subcomponent address
+                }
                 //producer.get_create_loop_sub_cmp_tag() contains the position of last created subcomponent
                 //producer.get_create_loop_offset_tag() contains the offset of last created subcomponent
                 for i in 1..self.defined_positions.len() {
@@ -190,7 +216,11 @@ impl WriteWasm for CreateCmpBucket {
                     instructions.push(get_local(producer.get_create_loop_offset_tag()));
                     //sub_component signal address start
                     instructions.push(call(&format!("${}_create", self.symbol)));
-                    instructions.push(store32(None)); //store the offset given by create in the subcomponent addre
+                    if !self.has_inputs {
+                        instructions.append(&mut self.produce_wasm_run_created(producer));
+                    } else {
+                        instructions.push(store32(None)); //store the offset given by create in the subcomponent addre
+                    }
                 }
             }
         }
-- 
2.43.0

