From 852e71870d19d5076d599886dca29a83038cc194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 01/38] fix: do not clobber variables when assigning the result
 of an argless function

The frame of a user-defined callee starts at the register that receives its
result.  Calling an argless function directly into a variable made the frame
of the callee overlap any variables defined after the target one (or tripped
an assertion if the target was a shared variable).  Use a temporary register
in those cases.
---
 core/src/compiler/exprs.rs | 13 ++++++++++++-
 core/src/compiler/syms.rs  |  7 +++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index d965243..8182dae 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -709,8 +709,19 @@ pub(super) fn compile_expr(
                 }
 
                 if md.is_user_defined() {
+                    // The frame of the callee starts at the register that receives its result, so
+                    // we cannot use `reg` if that would make the frame overlap live variables.
+                    let mut scope = symtable.temp_scope();
+                    let ret_reg = if symtable.is_safe_call_frame(reg) {
+                        reg
+                    } else {
+                        scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?
+                    };
                     let addr = codegen.emit(bytecode::make_nop(), span.pos);
-                    codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    codegen.add_fixup(addr, Fixup::Call(ret_reg, key));
+                    if reg != ret_reg {
+                        codegen.emit(bytecode::make_move(reg, ret_reg), span.pos);
+                    }
                 } else {
                     let upcall = codegen.get_upcall(key, Some(etype), span.pos)?;
                     let (is_global, _) = reg.to_parts();
diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index d780b99..fc104c1 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -470,6 +470,13 @@ impl<'temp, 'local> TempSymtable<'temp, 'local> {
         self.symtable.get_callable(key)
     }
 
+    /// Returns true if a call frame can start at `reg` without overlapping any variables other
+    /// than the one stored in `reg` itself.
+    pub(crate) fn is_safe_call_frame(&self, reg: Register) -> bool {
+        let (is_global, index) = reg.to_parts();
+        !is_global && usize::from(index) + 1 >= self.symtable.locals.len()
+    }
+
     /// Enters a new temporary scope.
     pub(crate) fn temp_scope(&self) -> TempScope {
         let nlocals = u8::try_from(self.symtable.locals.len())
-- 
2.43.0


From ff62733b233608c275a0f7d923d885e2d66dd8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 02/38] fix: return 0 from DOUBLE functions that do not set
 their result

The default result was initialized with the index of the 0.0 constant in the
constants table instead of with the bits of the constant, so functions could
return denormals.
---
 core/src/compiler/top.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 670dba7..3797e57 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1151,7 +1151,11 @@ fn compile_user_callable(
         // of the result to properly allocate it.
         let value = match vtype {
             ExprType::Boolean | ExprType::Integer => 0,
-            ExprType::Double => ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?,
+            ExprType::Double => {
+                // The register holds the raw bits of the value, not the index of a constant.
+                ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?;
+                0
+            }
             ExprType::Text => {
                 ctx.codegen.get_constant(ConstantDatum::Text(String::new()), key_pos)?
             }
-- 
2.43.0


From dd3a4dd6ee1cf4048d5619850bc5d3bd740aba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 03/38] fix: raise an error instead of crashing when DIM asks
 for a huge array

---
 core/src/vm/context.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c7ef659..ad7079d 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -29,6 +29,9 @@ use crate::reader::LineCol;
 /// Default max call stack.
 const DEFAULT_MAX_CALL_STACK: usize = 4096;
 
+/// Maximum number of elements that an array can hold across all of its dimensions.
+const MAX_ARRAY_ELEMENTS: usize = 16 * 1024 * 1024;
+
 const CALL_STACK_OVERFLOW_MSG: &str = "Out of call stack space";
 
 /// Alias for the type representing a program address.
@@ -630,7 +633,13 @@ impl Context {
                 Ok(n) => n,
             };
             dimensions.push(dim);
-            total *= dim;
+            total = match total.checked_mul(dim) {
+                Some(total) if total <= MAX_ARRAY_ELEMENTS => total,
+                _ => {
+                    self.set_exception("Array is too big");
+                    return;
+                }
+            };
         }
 
         let values = match subtype {
-- 
2.43.0


From cff3a95aaa98b679627a3535af99832ea77e77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 04/38] fix: report calls to callables that are declared but
 never defined

The compiler used to panic when trying to resolve the address of the callable.
While at it, resolve fixups in program order so that the error we report is
deterministic.
---
 core/src/compiler/codegen.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 45505bf..b033cc1 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -16,7 +16,7 @@
 
 //! Code generation for the EndBASIC compiler.
 
-use crate::ast::ExprType;
+use crate::ast::{ExprType, VarRef};
 use crate::bytecode::{self, ErrorHandlerMode, Register};
 use crate::compiler::ids::HashMapWithIds;
 use crate::compiler::{Error, Result, SymbolKey};
@@ -199,12 +199,17 @@ impl Codegen {
 
     /// Applies all registered fixups to the generated code.
     fn apply_fixups(&mut self) -> Result<()> {
-        for (addr, fixup) in self.fixups.drain() {
+        let mut fixups: Vec<(Address, Fixup)> = self.fixups.drain().collect();
+        fixups.sort_by_key(|(addr, _fixup)| *addr);
+        for (addr, fixup) in fixups {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-                    let (target, _end) =
-                        self.user_callables_addresses.get(&key).expect("Must be present");
+                    let Some((target, _end)) = self.user_callables_addresses.get(&key) else {
+                        // The callable was declared but never defined.
+                        let vref = VarRef::new(key.to_string(), None);
+                        return Err(Error::UndefinedSymbol(pos, vref));
+                    };
                     bytecode::make_call(reg, Self::make_target(*target, pos)?)
                 }
                 Fixup::Gosub(label) => {
-- 
2.43.0


From ea07505220702834a7ae9a22eadb1b6b25f8c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 05/38] fix: do not expose partial results of expressions to
 the callables they call

Expressions assigned to a shared variable were evaluated in-place, so a
user-defined function called half-way through could see (or clobber) the
partial result.
---
 core/src/compiler/top.rs | 68 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 3797e57..8e05b48 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -155,6 +155,68 @@ fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
     false
 }
 
+/// Returns true if a user-defined callable may run once `expr` has been partially evaluated.
+fn expr_calls_user_defined(expr: &Expr, symtable: &LocalSymtable<'_>) -> bool {
+    if matches!(expr, Expr::Symbol(..) | Expr::Call(..)) {
+        // The result of the call is only stored after evaluating all of its arguments.
+        return false;
+    }
+
+    let is_user_defined = |vref: &VarRef| {
+        symtable.get_callable(&SymbolKey::from(&vref.name)).is_some_and(|md| md.is_user_defined())
+    };
+
+    let mut stack = vec![expr];
+    while let Some(expr) = stack.pop() {
+        match expr {
+            Expr::Boolean(..) | Expr::Double(..) | Expr::Integer(..) | Expr::Text(..) => {}
+
+            Expr::Symbol(span) => {
+                if is_user_defined(&span.vref) {
+                    return true;
+                }
+            }
+
+            Expr::Negate(span) | Expr::Not(span) => {
+                stack.push(&span.expr);
+            }
+
+            Expr::Call(span) => {
+                if is_user_defined(&span.vref) {
+                    return true;
+                }
+                for arg in &span.args {
+                    if let Some(arg_expr) = &arg.expr {
+                        stack.push(arg_expr);
+                    }
+                }
+            }
+
+            Expr::Add(span)
+            | Expr::And(span)
+            | Expr::Divide(span)
+            | Expr::Equal(span)
+            | Expr::Greater(span)
+            | Expr::GreaterEqual(span)
+            | Expr::Less(span)
+            | Expr::LessEqual(span)
+            | Expr::Modulo(span)
+            | Expr::Multiply(span)
+            | Expr::NotEqual(span)
+            | Expr::Or(span)
+            | Expr::Power(span)
+            | Expr::ShiftLeft(span)
+            | Expr::ShiftRight(span)
+            | Expr::Subtract(span)
+            | Expr::Xor(span) => {
+                stack.push(&span.lhs);
+                stack.push(&span.rhs);
+            }
+        }
+    }
+    false
+}
+
 /// Compiles an assignment statement `span` into the `codegen` block.
 fn compile_assignment(
     codegen: &mut Codegen,
@@ -190,7 +252,11 @@ fn compile_assignment(
         Err(e) => return Err(Error::from_syms(e, vref_pos)),
     };
 
-    let has_self_reference = was_defined && expr_references_symbol(&expr, &key);
+    // User-defined callables can see global variables, so we cannot use those to hold partial
+    // results of an expression that calls them.
+    let has_self_reference = was_defined
+        && (expr_references_symbol(&expr, &key)
+            || (reg.to_parts().0 && expr_calls_user_defined(&expr, symtable)));
 
     if let Some(etype) = etype {
         // The destination variable already exists.  Try to compile the expression into its target
-- 
2.43.0


From 5325ac14b30ac3f82cfab76a8b343eeb277f18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 06/38] fix: do not let EXIT jump out of the callable that
 contains it

EXIT DO and EXIT FOR within a SUB or FUNCTION that is defined inside a loop
escaped from the callable without unwinding its frame.
---
 core/src/compiler/top.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 8e05b48..b5a75dc 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -38,6 +38,7 @@ use std::cmp::max;
 use std::collections::{HashMap, HashSet};
 use std::io;
 use std::iter::Iterator;
+use std::mem;
 use std::rc::Rc;
 
 use super::syms::LocalSymtableSnapshot;
@@ -1202,6 +1203,10 @@ fn compile_user_callable(
     });
     debug_assert!(ctx.callable_exit_jumps.is_empty());
 
+    // Loops that surround the definition of the callable are not visible from its body.
+    let outer_do_exit_stack = mem::take(&mut ctx.do_exit_stack);
+    let outer_for_exit_stack = mem::take(&mut ctx.for_exit_stack);
+
     let mut symtable = symtable.enter_scope();
 
     // The call protocol expects the return value to be in the first local variable
@@ -1249,6 +1254,8 @@ fn compile_user_callable(
         ctx.codegen.patch(addr, bytecode::make_jump(target));
     }
     ctx.current_callable = None;
+    ctx.do_exit_stack = outer_do_exit_stack;
+    ctx.for_exit_stack = outer_for_exit_stack;
     let skip_addr = ctx.codegen.next_pc();
     ctx.codegen.define_user_callable(key, start_pc, skip_addr);
 
-- 
2.43.0


From a34d2215813de04daa824b278f9643c621ea1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 07/38] fix: make ON ERROR RESUME NEXT continue with the
 statement that comes next

When the last statement of a block failed, execution continued with whichever
statement happened to follow in the bytecode: a failure at the end of a loop
body left the loop, one at the end of a THEN branch ran the ELSE branch, one at
the end of a SUB ran the body of the next SUB, and one at the end of the program
crashed the VM.
---
 core/src/compiler/top.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index b5a75dc..423d6cf 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -544,7 +544,9 @@ fn compile_select(
         }
 
         if case.has_next_case {
-            end_jumps.push(ctx.codegen.emit(bytecode::make_nop(), end_pos));
+            let end_jump = ctx.codegen.emit(bytecode::make_nop(), end_pos);
+            ctx.codegen.mark_statement_start(end_jump);
+            end_jumps.push(end_jump);
         }
     }
 
@@ -585,7 +587,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             let end_pos = LineCol { line: 0, col: 0 };
             let target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(end_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+            let jump_pc = ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+            ctx.codegen.mark_statement_start(jump_pc);
             ctx.codegen.next_pc()
         }
 
@@ -604,7 +607,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             }
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            let jump_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            ctx.codegen.mark_statement_start(jump_pc);
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -622,7 +626,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             }
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            let jump_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            ctx.codegen.mark_statement_start(jump_pc);
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -635,7 +640,9 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             for stmt in span.body {
                 compile_stmt(ctx, symtable, stmt)?;
             }
+            let guard_pc = ctx.codegen.next_pc();
             let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            ctx.codegen.mark_statement_start(guard_pc);
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
             ctx.codegen.emit(bytecode::make_jump_if_false(cond_reg, start_target), guard_pos);
@@ -647,7 +654,9 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             for stmt in span.body {
                 compile_stmt(ctx, symtable, stmt)?;
             }
+            let guard_pc = ctx.codegen.next_pc();
             let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            ctx.codegen.mark_statement_start(guard_pc);
             let jump_end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
@@ -718,11 +727,13 @@ fn compile_for(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: ForSpa
         compile_stmt(ctx, symtable, stmt)?;
     }
 
+    let next_pc = ctx.codegen.next_pc();
     compile_assignment(
         &mut ctx.codegen,
         symtable,
         AssignmentSpan { vref: span.iter, vref_pos: span.iter_pos, expr: span.next },
     )?;
+    ctx.codegen.mark_statement_start(next_pc);
 
     let start_target =
         u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(cond_pos, start_pc))?;
@@ -771,6 +782,7 @@ fn compile_if(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: IfSpan)
 
         if !is_last {
             let end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
+            ctx.codegen.mark_statement_start(end_pc);
             end_pcs.push(end_pc);
         }
 
@@ -813,7 +825,8 @@ fn compile_while(
 
     let start_target =
         u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-    ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+    let jump_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+    ctx.codegen.mark_statement_start(jump_pc);
 
     let end_addr = ctx.codegen.next_pc();
     let end_target =
@@ -1248,6 +1261,7 @@ fn compile_user_callable(
     }
 
     let return_addr = ctx.codegen.emit(bytecode::make_return(), callable.end_pos);
+    ctx.codegen.mark_statement_start(return_addr);
     for (addr, pos) in ctx.callable_exit_jumps.drain(..) {
         let target =
             u16::try_from(return_addr).map_err(|_| Error::TargetTooFar(pos, return_addr))?;
@@ -1409,7 +1423,8 @@ pub fn compile(
             compile_stmt(ctx, &mut symtable, stmt?)?;
         }
     }
-    ctx.codegen.emit(bytecode::make_eof(), LineCol { line: 0, col: 0 });
+    let eof_pc = ctx.codegen.emit(bytecode::make_eof(), LineCol { line: 0, col: 0 });
+    ctx.codegen.mark_statement_start(eof_pc);
 
     let global_vars = symtable
         .iter_globals()
-- 
2.43.0


From 31e4845609b123628dd877ba8fa6837eca396251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 08/38] fix: unwind user-defined callables when errors, END or
 Break leave them

ON ERROR GOTO handlers ran with the frame of the callable that failed, and an
uncaught error, END or Ctrl-C left stale frames behind, so later code in the
same session read the wrong variables.
---
 core/src/image.rs      | 12 ++++++++++++
 core/src/vm/context.rs | 31 +++++++++++++++++++++++++++++++
 core/src/vm/mod.rs     |  5 +++++
 3 files changed, 48 insertions(+)

diff --git a/core/src/image.rs b/core/src/image.rs
index 098a5a5..3e7fa0f 100644
--- a/core/src/image.rs
+++ b/core/src/image.rs
@@ -253,6 +253,18 @@ impl Image {
         self.debug_info.program_vars = delta.program_vars;
     }
 
+    /// Returns the user-defined callable that contains the instruction at `addr`, if any.
+    pub(crate) fn callable_at(&self, addr: usize) -> Option<&SymbolKey> {
+        // Callables cannot be nested, so the closest boundary that precedes `addr` is the only one
+        // that matters.
+        self.debug_info
+            .callables
+            .iter()
+            .filter(|(boundary, _)| **boundary <= addr)
+            .max_by_key(|(boundary, _)| **boundary)
+            .and_then(|(_, (key, is_start))| is_start.then_some(key))
+    }
+
     /// Disassembles the image into a textual representation for debugging.
     pub fn disasm(&self) -> Vec<String> {
         let mut lines = Vec::with_capacity(self.code.len());
diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index ad7079d..da9cd93 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -263,6 +263,37 @@ impl Context {
         self.err_handler = ErrorHandler::None;
     }
 
+    /// Drops the frames of the callables that are active at `pc`, innermost first, until reaching
+    /// the frame of the scope that contains `addr`.
+    ///
+    /// Returns false, without modifying the stack, if the scope that contains `addr` is not active.
+    pub(super) fn unwind_to_scope_of(&mut self, image: &Image, pc: Address, addr: Address) -> bool {
+        let target_scope = image.callable_at(addr);
+
+        let mut fp = self.fp;
+        let mut scope = image.callable_at(pc);
+        let mut nframes = self.call_stack.len();
+        while scope != target_scope {
+            if nframes == 0 {
+                return false;
+            }
+            nframes -= 1;
+            let frame = &self.call_stack[nframes];
+            fp = frame.old_fp;
+            scope = image.callable_at(frame.old_pc);
+        }
+
+        self.call_stack.truncate(nframes);
+        self.fp = fp;
+        true
+    }
+
+    /// Drops all active frames.
+    pub(super) fn unwind_all(&mut self) {
+        self.call_stack.clear();
+        self.fp = usize::from(Register::MAX_GLOBAL);
+    }
+
     /// Marks the current jump-based error handler as active.
     pub(super) fn set_error_handler_active(&mut self) {
         self.err_handler = match self.err_handler {
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 6b6490b..a63d123 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -298,6 +298,7 @@ impl Vm {
     /// Parks execution at the current EOF instruction so later appended code can resume.
     fn park_at_eof(&mut self, image: &Image) {
         debug_assert!(!image.code.is_empty());
+        self.context.unwind_all();
         self.context.set_pc(image.code.len() - 1);
     }
 
@@ -345,6 +346,10 @@ impl Vm {
             ErrorHandler::None => false,
             ErrorHandler::Jump { active: true, .. } => false,
             ErrorHandler::Jump { active: false, addr } => {
+                // The handler must run with the frame of the scope that contains it.
+                if !self.context.unwind_to_scope_of(image, pc, addr) {
+                    return false;
+                }
                 self.context.set_error_handler_active();
                 self.context.set_pc(addr);
                 true
-- 
2.43.0


From 7f044db18e1447030e7bf15700eb1819722dc253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 09/38] fix: do not resume errors inside of the callable
 defined by the next statement

With ON ERROR RESUME NEXT, a failure in the statement that precedes a SUB or
FUNCTION definition ran the body of the callable.
---
 core/src/compiler/top.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 423d6cf..46c6bc4 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1204,6 +1204,8 @@ fn compile_user_callable(
     }
 
     let skip_pc = ctx.codegen.emit(bytecode::make_nop(), callable.name_pos);
+    // Errors in the statement that precedes the definition must not resume inside of its body.
+    ctx.codegen.mark_statement_start(skip_pc);
 
     let start_pc = ctx.codegen.next_pc();
 
-- 
2.43.0


From 048b026df1d90031a67d35a8095dd9d35a6cda17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 10/38] fix: reject callables with repeated parameter names
 instead of crashing

---
 core/src/compiler/top.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 46c6bc4..a02c0a6 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1249,7 +1249,10 @@ fn compile_user_callable(
         ctx.codegen.emit(bytecode::make_load_integer(ret_reg, value), key_pos);
     }
     for param in callable.params {
-        let key = SymbolKey::from(param.name);
+        let key = SymbolKey::from(&param.name);
+        if symtable.contains_local(&key) {
+            return Err(Error::AlreadyDefined(key_pos, param));
+        }
         symtable
             .put_local(
                 key.clone(),
-- 
2.43.0


From 961d488daeda12251c0239a535cfdb88aa557c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 11/38] fix: align the fields of PRINT by characters instead of
 bytes

---
 std/src/console/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/cmds.rs b/std/src/console/cmds.rs
index c6b1786..4971762 100644
--- a/std/src/console/cmds.rs
+++ b/std/src/console/cmds.rs
@@ -590,7 +590,7 @@ impl Callable for PrintCommand {
                 ArgSep::End => break,
                 ArgSep::Long => {
                     text += " ";
-                    while !text.len().is_multiple_of(14) {
+                    while !text.chars().count().is_multiple_of(14) {
                         text += " ";
                     }
                 }
-- 
2.43.0


From 3b4e7644c3806e59fd2f7da9155d909a21d5d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:50 +0000
Subject: [PATCH 12/38] fix: do not crash when deep callables invoke functions
 without arguments

---
 core/src/vm/context.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index da9cd93..6dcae53 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -398,13 +398,18 @@ impl Context {
     ) -> Scope<'a> {
         let (is_global, index) = reg.to_parts();
         assert!(!is_global);
-        let index = usize::from(index);
+        let fp = self.fp + usize::from(index);
+
+        // The slot for the return value might be past the last register that was ever written.
+        if fp >= self.regs.len() {
+            self.regs.resize(fp + 1, 0);
+        }
 
         Scope {
             regs: &mut self.regs,
             constants,
             heap,
-            fp: self.fp + index,
+            fp,
             arg_offset: if is_function { 1 } else { 0 },
             arg_linecols,
             last_error,
-- 
2.43.0


From d15c258f3dd0f66c4b8a0e2005396710c303ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:03 +0000
Subject: [PATCH 13/38] fix: let programs that loop via their error handler be
 interrupted

---
 core/src/vm/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 6dcae53..ea7967d 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -1118,6 +1118,11 @@ impl Context {
     /// Implements the `SetErrorHandler` opcode.
     pub(super) fn do_set_error_handler(&mut self, instr: u32) {
         let (mode, target) = bytecode::parse_set_error_handler(instr);
+        if matches!(self.err_handler, ErrorHandler::Jump { active: true, .. }) {
+            // The program has jumped to an error handler and may do so again, which is yet another
+            // way of looping, so let the host interrupt it.
+            self.yield_pending = true;
+        }
         self.err_handler = match mode {
             ErrorHandlerMode::None => ErrorHandler::None,
             ErrorHandlerMode::Jump => {
-- 
2.43.0


From 39c26ad10899a58fce48c822491377adfae5e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 14/38] fix: do not lose unsaved changes when interrupting the
 question to exit

---
 repl/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/repl/src/lib.rs b/repl/src/lib.rs
index 71eea03..1902cc2 100644
--- a/repl/src/lib.rs
+++ b/repl/src/lib.rs
@@ -205,6 +205,21 @@ pub async fn run_from_cloud(
     Ok(code)
 }
 
+/// Asks for confirmation before leaving the interpreter if there are unsaved changes in `program`.
+///
+/// Interrupting the question is a request to stay, and there is nobody left to answer it once the
+/// input is over.
+async fn confirm_exit(program: &dyn Program, console: &mut dyn Console) -> io::Result<bool> {
+    match continue_if_modified(program, console).await {
+        Err(e) if e.kind() == io::ErrorKind::Interrupted => {
+            console.print(BREAK_MSG)?;
+            Ok(false)
+        }
+        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(true),
+        result => result,
+    }
+}
+
 /// Enters the interactive interpreter.
 ///
 /// The `console` provided here is used for the REPL prompt interaction and should match the
@@ -237,7 +252,7 @@ pub async fn run_repl_loop(
                         let should_continue = {
                             let program = program.borrow();
                             let mut console = console.borrow_mut();
-                            continue_if_modified(&*program, &mut *console).await?
+                            confirm_exit(&*program, &mut *console).await?
                         };
                         if should_continue {
                             stop_reason = Some(code);
-- 
2.43.0


From d1bd80481763079a8d8a2e47cca699bfad786b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 15/38] fix: ask before losing unsaved changes when exiting
 with CTRL-D

---
 repl/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repl/src/lib.rs b/repl/src/lib.rs
index 1902cc2..f2da5a0 100644
--- a/repl/src/lib.rs
+++ b/repl/src/lib.rs
@@ -285,7 +285,12 @@ pub async fn run_repl_loop(
                 } else if e.kind() == io::ErrorKind::UnexpectedEof {
                     let mut console = console.borrow_mut();
                     console.print("End of input by CTRL-D")?;
-                    stop_reason = Some(0);
+                    let program = program.borrow();
+                    if !console.is_interactive() || confirm_exit(&*program, &mut *console).await? {
+                        stop_reason = Some(0);
+                    } else {
+                        console.print("Exit aborted; resuming REPL loop.")?;
+                    }
                 } else {
                     stop_reason = Some(1);
                 }
-- 
2.43.0


From e33f684da59ae149a049e56e936e8ab05fd9bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 16/38] fix: Do not leave a stale cursor behind after the
 alternate screen

Entering the alternate screen saved the pixels of the cursor as if they were
contents, so leaving it (e.g. after EDIT) left a block on the screen once the
cursor moved away.
---
 std/src/console/graphics.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 60f693d..2e18408 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -558,6 +558,9 @@ where
             ));
         }
 
+        // Do not save the cursor along with the contents of the screen: it is drawn again when leaving
+        // the alternate screen, and what is behind it would be lost otherwise.
+        self.clear_cursor()?;
         let pixels = self.raster_ops.read_pixels(PixelsXY::new(0, 0), self.size_pixels)?;
         self.alt_backup = Some((
             pixels,
-- 
2.43.0


From a1a93d971eebfb8b4f67f4a2c568806be3aeeef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 17/38] fix: Do not draw the cursor past the last column

Writing text that ends at the last column of the console left the cursor
off-screen, and trying to save what is behind it made the LCD consoles panic.
---
 std/src/console/graphics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 2e18408..48a7534 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -389,6 +389,12 @@ where
             return Ok(());
         }
 
+        // After writing to the last column of a line, the cursor is off-screen until the next write
+        // wraps so there is nothing to draw nor save.
+        if self.cursor_pos.x >= self.size_chars.x {
+            return Ok(());
+        }
+
         let x1y1 = self.cursor_pos.clamped_mul(self.glyph_size);
 
         assert!(self.cursor_backup.is_none());
-- 
2.43.0


From 5548ad0a4cbdafcc2a6613c61ae1d455bc10b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 18/38] fix: Do not panic when clearing the character before
 the first column

---
 std/src/console/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 48a7534..986520d 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -518,8 +518,8 @@ where
                 self.cursor_pos.x = 0;
             }
             ClearType::PreviousChar => {
+                self.clear_cursor()?;
                 if self.cursor_pos.x > 0 {
-                    self.clear_cursor()?;
                     let previous_pos = CharsXY::new(self.cursor_pos.x - 1, self.cursor_pos.y);
                     let origin = previous_pos.clamped_mul(self.glyph_size);
                     self.raster_ops.set_draw_color(self.bg_color);
-- 
2.43.0


From d0c49aee25df645522bec0f16213aa8a2b30479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 19/38] fix: Do not paint off-screen rectangles on the margins
 of the LCD

Filled rectangles that are completely past the right or bottom margins were
clamped to the last column or row and became visible there.
---
 std/src/gfx/lcd/buffered/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 683e16a..ddb686f 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -486,6 +486,14 @@ where
     }
 
     fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
+        // Clamping the coordinates of a rectangle that is fully past the right or bottom margins would
+        // paint the pixels at the margin.
+        if usize::try_from(xy.x).is_ok_and(|x| x >= self.size_pixels.width)
+            || usize::try_from(xy.y).is_ok_and(|y| y >= self.size_pixels.height)
+        {
+            return Ok(());
+        }
+
         let x1y1 = self.clamp_xy(xy);
         let x2y2 = self.clip_x2y2(xy, size);
         match x2y2 {
-- 
2.43.0


From 35f598510a141733ee23a7203b3966b5396a283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 20/38] fix: Do not record interrupted lines in the history

Interrupting the line editor left an empty (or half-typed) entry in the
history, which only has lines that were accepted otherwise.
---
 std/src/console/readline.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index a7fedfb..0785ac2 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -401,8 +401,22 @@ impl<'a, 'h> Readline<'a, 'h> {
         Ok(readline)
     }
 
-    /// Runs the interactive key-processing loop until the line is accepted.
+    /// Runs the interactive key-processing loop and returns the line once it is accepted.
     async fn run(mut self) -> io::Result<String> {
+        match self.process_keys().await {
+            Ok(()) => Ok(self.finish()),
+            Err(e) => {
+                // The line was not accepted so it cannot leave an entry behind.
+                if let Some(history) = self.history.as_mut() {
+                    history.pop();
+                }
+                Err(e)
+            }
+        }
+    }
+
+    /// Runs the interactive key-processing loop until the line is accepted.
+    async fn process_keys(&mut self) -> io::Result<()> {
         loop {
             let result = match self.console.read_key().await? {
                 Key::ArrowDown => self.do_up_down(1),
@@ -423,11 +437,9 @@ impl<'a, 'h> Readline<'a, 'h> {
             }?;
 
             if let DispatchResult::Submit = result {
-                break;
+                return Ok(());
             }
         }
-
-        Ok(self.finish())
     }
 }
 
-- 
2.43.0


From aec3fd7af5212164b22cf47bea4cd3310c2efb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 21/38] fix: Do not panic when clearing until the end of a full
 line

---
 std/src/console/graphics.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 986520d..2d97fdb 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -532,12 +532,14 @@ where
                 let pos = self.cursor_pos.clamped_mul(self.glyph_size);
                 debug_assert!(pos.x >= 0, "Inputs to pos are unsigned");
                 debug_assert!(pos.y >= 0, "Inputs to pos are unsigned");
-                let size = SizeInPixels::new(
-                    (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into(),
-                    self.glyph_size.height,
-                );
-                self.raster_ops.set_draw_color(self.bg_color);
-                self.raster_ops.draw_rect_filled(pos, size)?;
+                let width: u16 =
+                    (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into();
+                // There is nothing to clear if the cursor is past the last column.
+                if width > 0 {
+                    let size = SizeInPixels::new(width, self.glyph_size.height);
+                    self.raster_ops.set_draw_color(self.bg_color);
+                    self.raster_ops.draw_rect_filled(pos, size)?;
+                }
             }
         }
         self.draw_cursor()?;
-- 
2.43.0


From 74e2e6d7a983971c26a94f89dcf8607b55cfcbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 22/38] fix: Do not overflow when circles go beyond the range
 of coordinates

---
 std/src/console/drawing.rs | 51 ++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e0cc905..b1875d0 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -168,8 +168,12 @@ pub fn draw_circle<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> io::Resu
 where
     R: RasterOps,
 {
-    fn point<R: RasterOps>(rasops: &mut R, x: i16, y: i16) -> io::Result<()> {
-        rasops.draw_pixel(PixelsXY { x, y })
+    // Points that cannot be represented are always off-screen.
+    fn point<R: RasterOps>(rasops: &mut R, x: i32, y: i32) -> io::Result<()> {
+        match (i16::try_from(x), i16::try_from(y)) {
+            (Ok(x), Ok(y)) => rasops.draw_pixel(PixelsXY { x, y }),
+            _ => Ok(()),
+        }
     }
 
     if radius == 0 {
@@ -186,6 +190,10 @@ where
         None => return Err(io::Error::new(io::ErrorKind::InvalidInput, "Radius is too big")),
     };
 
+    // Widen the center so that points off the range of the coordinates do not overflow.
+    let cx = i32::from(center.x);
+    let cy = i32::from(center.y);
+
     let mut x: i16 = radius - 1;
     let mut y: i16 = 0;
     let mut tx: i16 = 1;
@@ -193,14 +201,14 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        point(rasops, center.x + x, center.y - y)?;
-        point(rasops, center.x + x, center.y + y)?;
-        point(rasops, center.x - x, center.y - y)?;
-        point(rasops, center.x - x, center.y + y)?;
-        point(rasops, center.x + y, center.y - x)?;
-        point(rasops, center.x + y, center.y + x)?;
-        point(rasops, center.x - y, center.y - x)?;
-        point(rasops, center.x - y, center.y + x)?;
+        point(rasops, cx + i32::from(x), cy - i32::from(y))?;
+        point(rasops, cx + i32::from(x), cy + i32::from(y))?;
+        point(rasops, cx - i32::from(x), cy - i32::from(y))?;
+        point(rasops, cx - i32::from(x), cy + i32::from(y))?;
+        point(rasops, cx + i32::from(y), cy - i32::from(x))?;
+        point(rasops, cx + i32::from(y), cy + i32::from(x))?;
+        point(rasops, cx - i32::from(y), cy - i32::from(x))?;
+        point(rasops, cx - i32::from(y), cy + i32::from(x))?;
 
         if e <= 0 {
             y += 1;
@@ -226,8 +234,15 @@ pub fn draw_circle_filled<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> i
 where
     R: RasterOps,
 {
-    fn line<R: RasterOps>(rasops: &mut R, x1: i16, y1: i16, x2: i16, y2: i16) -> io::Result<()> {
-        rasops.draw_line(PixelsXY { x: x1, y: y1 }, PixelsXY { x: x2, y: y2 })
+    // Columns that cannot be represented are always off-screen.
+    fn line<R: RasterOps>(rasops: &mut R, x: i32, y1: i32, y2: i32) -> io::Result<()> {
+        match i16::try_from(x) {
+            Ok(x) => rasops.draw_line(
+                PixelsXY { x, y: y1.clamped_into() },
+                PixelsXY { x, y: y2.clamped_into() },
+            ),
+            Err(_) => Ok(()),
+        }
     }
 
     if radius == 0 {
@@ -245,6 +260,10 @@ where
         None => return Err(io::Error::new(io::ErrorKind::InvalidInput, "Radius is too big")),
     };
 
+    // Widen the center so that points off the range of the coordinates do not overflow.
+    let cx = i32::from(center.x);
+    let cy = i32::from(center.y);
+
     let mut x: i16 = radius - 1;
     let mut y: i16 = 0;
     let mut tx: i16 = 1;
@@ -252,10 +271,10 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        line(rasops, center.x + x, center.y - y, center.x + x, center.y + y)?;
-        line(rasops, center.x - x, center.y - y, center.x - x, center.y + y)?;
-        line(rasops, center.x + y, center.y - x, center.x + y, center.y + x)?;
-        line(rasops, center.x - y, center.y - x, center.x - y, center.y + x)?;
+        line(rasops, cx + i32::from(x), cy - i32::from(y), cy + i32::from(y))?;
+        line(rasops, cx - i32::from(x), cy - i32::from(y), cy + i32::from(y))?;
+        line(rasops, cx + i32::from(y), cy - i32::from(x), cy + i32::from(x))?;
+        line(rasops, cx - i32::from(y), cy - i32::from(x), cy + i32::from(x))?;
 
         if e <= 0 {
             y += 1;
-- 
2.43.0


From bbb482e7b24ea21d9bf6b9237d3d1b30bc2f394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 23/38] fix: Do not overflow when filling polygons with long
 edges

---
 std/src/console/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index b1875d0..0d7cf71 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -334,7 +334,9 @@ fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
 
     let x1 = i32::from(p1.x);
     let x2 = i32::from(p2.x);
-    Some(x1 + (y - y1) * (x2 - x1) / (y2 - y1))
+    // The product of two differences between coordinates may not fit in 32 bits.
+    let offset = i64::from(y - y1) * i64::from(x2 - x1) / i64::from(y2 - y1);
+    Some(x1 + i32::try_from(offset).expect("Intersection must be within the edge"))
 }
 
 /// Fills the poligon defined by `points` using a scanline intersection algorithm.
-- 
2.43.0


From 3937267abffc813db4a260c5bcf5b88599b302cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 24/38] fix: Do not hang when filling with another number of
 the same color

---
 std/src/console/drawing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 0d7cf71..e7c2736 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -142,6 +142,11 @@ where
         }
 
         rasops.draw_pixel(xy)?;
+        if rasops.peek_pixel(xy)? == Some(seed_color) {
+            // Different color numbers may represent the same color, in which case the region already
+            // has the color to fill it with and we would never finish.
+            break;
+        }
 
         if xy.x > i16::MIN {
             pending.push(PixelsXY::new(xy.x - 1, xy.y));
-- 
2.43.0


From fe74067fe45dbb35bff4c4e433e5c0430ea9cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 25/38] fix: Do not overflow when refilling paragraphs into
 narrow consoles

---
 std/src/console/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 971d4cf..88b0d66 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -89,7 +89,7 @@ fn refill_many<S: AsRef<str>, P: IntoIterator<Item = S>>(
             }
         }
 
-        let lines = refill(paragraph, width - 4 - indent.len() - extra_indent.len());
+        let lines = refill(paragraph, width.saturating_sub(4 + indent.len() + extra_indent.len()));
         for line in lines {
             if line.is_empty() {
                 formatted.push(String::new());
-- 
2.43.0


From c3c2e62218969868361b680690f75e926c569d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 26/38] fix: Encode user and file names in the URLs of the
 cloud service

---
 client/src/cloud.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/client/src/cloud.rs b/client/src/cloud.rs
index 112c421..74410be 100644
--- a/client/src/cloud.rs
+++ b/client/src/cloud.rs
@@ -119,12 +119,13 @@ impl CloudService {
         Ok(Self { api_address: url, client: reqwest::Client::default(), auth_data })
     }
 
-    /// Generates a service URL with the given `path`.
-    fn make_url(&self, path: &str) -> Url {
-        assert!(path.starts_with("api/"));
+    /// Generates a service URL with the given `path` segments, which are encoded as necessary so
+    /// that they reach the service verbatim.
+    fn make_url(&self, path: &[&str]) -> Url {
+        assert_eq!(Some(&"api"), path.first());
         let mut url = self.api_address.clone();
         assert!(url.path().is_empty() || url.path() == "/");
-        url.set_path(path);
+        url.path_segments_mut().expect("Base API address must support paths").clear().extend(path);
         url
     }
 
@@ -157,7 +158,7 @@ impl Service for CloudService {
     async fn signup(&mut self, request: &SignupRequest) -> io::Result<()> {
         let response = self
             .client
-            .post(self.make_url("api/signup"))
+            .post(self.make_url(&["api", "signup"]))
             .headers(self.default_headers())
             .header("Content-Type", "application/json")
             .body(serde_json::to_vec(&request)?)
@@ -178,7 +179,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .post(self.make_url("api/login"))
+            .post(self.make_url(&["api", "login"]))
             .headers(self.default_headers())
             .header("Authorization", basic_auth)
             .header("Content-Length", 0)
@@ -205,7 +206,7 @@ impl Service for CloudService {
         let response = {
             let auth_data = Self::require_auth_data(auth_data.as_ref())?;
             self.client
-                .post(self.make_url(&format!("api/users/{}/logout", auth_data.username)))
+                .post(self.make_url(&["api", "users", &auth_data.username, "logout"]))
                 .headers(self.default_headers())
                 .header("Content-Length", 0)
                 .bearer_auth(auth_data.access_token.as_str())
@@ -233,7 +234,7 @@ impl Service for CloudService {
     async fn get_files(&mut self, username: &str) -> io::Result<GetFilesResponse> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files", username)))
+            .get(self.make_url(&["api", "users", username, "files"]))
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -252,7 +253,7 @@ impl Service for CloudService {
     async fn get_file(&mut self, username: &str, filename: &str) -> io::Result<Vec<u8>> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["api", "users", username, "files", filename]))
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -272,7 +273,7 @@ impl Service for CloudService {
         headers.insert("X-EndBASIC-GetReaders", "true".parse().unwrap());
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["api", "users", username, "files", filename]))
             .headers(headers);
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -312,7 +313,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["api", "users", username, "files", filename]))
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             .header("X-EndBASIC-PatchContent", "true")
@@ -338,7 +339,7 @@ impl Service for CloudService {
 
         let mut builder = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["api", "users", username, "files", filename]))
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             // Ensure we have at least one header to go through the header-based request handler.
@@ -367,7 +368,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .delete(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .delete(self.make_url(&["api", "users", username, "files", filename]))
             .headers(self.default_headers())
             .header("Content-Length", 0)
             .bearer_auth(Self::require_auth_data(auth_data.as_ref())?.access_token.as_str())
-- 
2.43.0


From 3d0168b7e5881ab141b6a3d5eb45910a454dcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 27/38] fix: Do not crash when sharing with an ACL that ends in
 a multibyte character

---
 client/src/cmds.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 3eb12d9..eb9953f 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -307,7 +307,10 @@ among users of the EndBASIC service.",
 impl ShareCommand {
     /// Parses a textual ACL specification and adds it to `add` or `remove.
     fn parse_acl(mut acl: String, add: &mut FileAcls, remove: &mut FileAcls) -> Result<(), String> {
-        let change = if acl.len() < 3 { String::new() } else { acl.split_off(acl.len() - 2) };
+        let change = match acl.len().checked_sub(2) {
+            Some(pos) if pos > 0 && acl.is_char_boundary(pos) => acl.split_off(pos),
+            _ => String::new(),
+        };
         let username = acl; // For clarity after splitting off the ACL change request.
         match (username, change.as_str()) {
             (username, "+r") if !username.is_empty() => add.add_reader(username),
-- 
2.43.0


From 86da8da66e8a71637ecd7e970c27353aa5666fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 28/38] fix: Print the right address when sharing files with
 the public

The address had the drive in it if the path of the file had no slash, and the
command crashed when sharing files of local drives without being logged in.
---
 client/src/cmds.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index eb9953f..502bd70 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -383,8 +383,9 @@ impl Callable for ShareCommand {
             .await
             .map_err(CallError::from)?;
 
-        if Self::has_public_acl(&add) {
-            let filename = match filename.split_once('/') {
+        let logged_in_username = self.service.borrow().logged_in_username();
+        if let Some(username) = logged_in_username.filter(|_| Self::has_public_acl(&add)) {
+            let filename = match filename.rsplit_once(['/', ':']) {
                 Some((_drive, path)) => path,
                 None => &filename,
             };
@@ -396,15 +397,7 @@ impl Callable for ShareCommand {
                 [
                     "You have made the file publicly readable.  As a result, other people can now \
 auto-run your public file by visiting:",
-                    &format!(
-                        "{}?run={}/{}",
-                        self.exec_base_url,
-                        self.service
-                            .borrow()
-                            .logged_in_username()
-                            .expect("SHARE can only succeed against logged in cloud drives"),
-                        filename
-                    ),
+                    &format!("{}?run={}/{}", self.exec_base_url, username, filename),
                 ],
                 "    ",
             )
-- 
2.43.0


From a1fc270289690f6336d8e477050f601fd029f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 29/38] fix: Do not return finite numbers as the MAX and MIN of
 infinite ones

---
 std/src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index ff527fb..5494a2d 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -648,7 +648,7 @@ impl Callable for MaxFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut max = f64::MIN;
+        let mut max = f64::NEG_INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n > max {
@@ -693,7 +693,7 @@ impl Callable for MinFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut min = f64::MAX;
+        let mut min = f64::INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n < min {
-- 
2.43.0


From f57fcc4cbd8758d422f88bb0fdc1ab71b2fb5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 30/38] fix: Do not return NaN when rounding to too many
 decimals

---
 std/src/numerics.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 5494a2d..b00a444 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -954,7 +954,16 @@ impl Callable for RoundFunction {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals);
-            scope.return_double((value * factor).round() / factor)
+            let rounded = (value * factor).round() / factor;
+            if rounded.is_finite() {
+                scope.return_double(rounded)
+            } else if decimals > 0 {
+                // The number of decimals is beyond the precision of the value.
+                scope.return_double(value)
+            } else {
+                // The number of decimals is beyond the magnitude of the value.
+                scope.return_double(if value.is_finite() { 0.0 } else { value })
+            }
         }
     }
 }
-- 
2.43.0


From cbe5917b54b7b161488d8d2b5d99404b9ade6033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 31/38] fix: Do not crash when sleeping or playing sounds for
 too long

---
 std/src/datetime.rs   | 9 +++++----
 std/src/sound/cmds.rs | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/std/src/datetime.rs b/std/src/datetime.rs
index eaa2a74..5f368b5 100644
--- a/std/src/datetime.rs
+++ b/std/src/datetime.rs
@@ -153,10 +153,11 @@ impl Callable for SleepCommand {
             ));
         }
 
-        self.datetime
-            .sleep(Duration::from_secs_f64(n))
-            .await
-            .map_err(|e| CallError::Syntax(scope.get_pos(0), e))
+        let Ok(d) = Duration::try_from_secs_f64(n) else {
+            return Err(CallError::Syntax(scope.get_pos(0), "Sleep time is too long".to_owned()));
+        };
+
+        self.datetime.sleep(d).await.map_err(|e| CallError::Syntax(scope.get_pos(0), e))
     }
 }
 
diff --git a/std/src/sound/cmds.rs b/std/src/sound/cmds.rs
index ab3d3ef..8aa0c67 100644
--- a/std/src/sound/cmds.rs
+++ b/std/src/sound/cmds.rs
@@ -138,11 +138,11 @@ impl Callable for SoundCommand {
                 "Duration must be positive".to_owned(),
             ));
         }
+        let Ok(duration) = Duration::try_from_secs_f64(duration) else {
+            return Err(CallError::Syntax(scope.get_pos(1), "Duration is too long".to_owned()));
+        };
 
-        self.console
-            .borrow_mut()
-            .play_tone(Tone::square(pitch, Duration::from_secs_f64(duration)))
-            .await?;
+        self.console.borrow_mut().play_tone(Tone::square(pitch, duration)).await?;
         Ok(())
     }
 }
-- 
2.43.0


From 8da2721a600f9be41784a75fa73156a3be3df998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 32/38] fix: Round to digits before the decimal point without
 imprecision

---
 std/src/numerics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index b00a444..35f06ec 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -953,8 +953,12 @@ impl Callable for RoundFunction {
         } else {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
-            let factor = 10f64.powi(decimals);
-            let rounded = (value * factor).round() / factor;
+            let factor = 10f64.powi(decimals.saturating_abs());
+            let rounded = if decimals >= 0 {
+                (value * factor).round() / factor
+            } else {
+                (value / factor).round() * factor
+            };
             if rounded.is_finite() {
                 scope.return_double(rounded)
             } else if decimals > 0 {
-- 
2.43.0


From 9bc5eba8ee022b530a74e9a0b5cd1f50b067c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 33/38] fix: Do not disturb numbers when rounding them to many
 decimals

---
 std/src/numerics.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 35f06ec..fab33e6 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -33,6 +33,9 @@ use crate::{Clearable, MachineBuilder};
 /// Category description for all symbols provided by this module.
 const CATEGORY: &str = "Numerical functions";
 
+/// Magnitude from which doubles cannot have a fractional part.
+const MAX_FRACTIONAL: f64 = (1u64 << 52) as f64;
+
 /// Converts the double `d` to an integer and fails if the conversion is not possible.
 pub fn double_to_integer(d: f64) -> Result<i32, String> {
     let d = d.round();
@@ -955,15 +958,18 @@ impl Callable for RoundFunction {
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals.saturating_abs());
             let rounded = if decimals >= 0 {
-                (value * factor).round() / factor
+                let scaled = value * factor;
+                if scaled.abs() < MAX_FRACTIONAL {
+                    scaled.round() / factor
+                } else {
+                    // The number of decimals is beyond the precision of the value.
+                    value
+                }
             } else {
                 (value / factor).round() * factor
             };
             if rounded.is_finite() {
                 scope.return_double(rounded)
-            } else if decimals > 0 {
-                // The number of decimals is beyond the precision of the value.
-                scope.return_double(value)
             } else {
                 // The number of decimals is beyond the magnitude of the value.
                 scope.return_double(if value.is_finite() { 0.0 } else { value })
-- 
2.43.0


From 7dcaa552b3dfffb4765b597320ec05abb61ed386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 34/38] fix: Leave video syncing enabled even if the screen
 cannot be updated

---
 std/src/console/graphics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 2d97fdb..5b0bbb7 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -822,13 +822,13 @@ where
     }
 
     fn set_sync(&mut self, enabled: bool) -> io::Result<bool> {
-        if !self.sync_enabled && enabled {
-            self.raster_ops.present_canvas()?;
-        }
         let previous = self.sync_enabled;
+        // Change the mode even if presenting the canvas fails: callers that disable syncing for a
+        // while rely on this to leave it as it was.
+        let result = if !previous && enabled { self.raster_ops.present_canvas() } else { Ok(()) };
         self.sync_enabled = enabled;
         self.raster_ops.set_sync(enabled);
-        Ok(previous)
+        result.map(|()| previous)
     }
 }
 
-- 
2.43.0


From 4211c40712152f22ede7c84e1d9860971f7d2876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 35/38] fix: Do not crash on scripts whose second line has
 multibyte characters

---
 cli/src/propline.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cli/src/propline.rs b/cli/src/propline.rs
index 72edfbb..75d5c27 100644
--- a/cli/src/propline.rs
+++ b/cli/src/propline.rs
@@ -43,14 +43,10 @@ fn strip_newline(s: &mut String) {
 fn parse_propline(line: &str) -> io::Result<PropLine> {
     let without_comment = match line.strip_prefix("' ") {
         Some(line) => Some(line),
-        None => {
-            if line.len() <= 4 {
-                None
-            } else {
-                let token = line[0..4].to_ascii_lowercase();
-                if token == "rem " { Some(&line[4..]) } else { None }
-            }
-        }
+        None => match line.split_at_checked(4) {
+            Some((token, line)) if token.eq_ignore_ascii_case("rem ") => Some(line),
+            _ => None,
+        },
     };
     let Some(payload) = without_comment else {
         return Ok(PropLine::default());
-- 
2.43.0


From 200f5ca6df6060ffcc5c6f2d49b2d4f57f83a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 36/38] fix: Report an empty console specification instead of
 crashing

---
 cli/src/console.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/console.rs b/cli/src/console.rs
index e24ce59..7536b46 100644
--- a/cli/src/console.rs
+++ b/cli/src/console.rs
@@ -100,7 +100,14 @@ pub fn setup_console(
     console_spec: Option<&str>,
     signals_tx: Sender<Signal>,
 ) -> io::Result<ConsoleHandles> {
-    let mut console_spec = ConsoleSpec::init(console_spec.unwrap_or("text"));
+    let console_spec = console_spec.unwrap_or("text");
+    if console_spec.is_empty() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid --console flag: missing console specification",
+        ));
+    }
+    let mut console_spec = ConsoleSpec::init(console_spec);
     let handles: ConsoleHandles = match console_spec.driver {
         "sdl" => setup_sdl_console(&mut console_spec, signals_tx)?,
         "st7735s" => setup_st7735s_console(&mut console_spec, signals_tx)?,
-- 
2.43.0


From ff8902445c00a911c1ded44df2f90525cfef18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 37/38] fix: Report why a program cannot be read

---
 core/src/lexer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/src/lexer.rs b/core/src/lexer.rs
index 1fb7de8..859f6c1 100644
--- a/core/src/lexer.rs
+++ b/core/src/lexer.rs
@@ -726,7 +726,7 @@ impl<'a> Lexer<'a> {
 
     /// Returns a peekable adaptor for this lexer.
     pub fn peekable(self) -> PeekableLexer<'a> {
-        PeekableLexer { lexer: self, peeked: None }
+        PeekableLexer { lexer: self, peeked: None, failed: false }
     }
 }
 
@@ -742,6 +742,9 @@ pub struct PeekableLexer<'a> {
     /// If not none, contains the token read by `peek`, which will be consumed by the next call
     /// to `read` or `consume_peeked`.
     peeked: Option<TokenSpan>,
+
+    /// Whether reading from the input failed.
+    failed: bool,
 }
 
 impl PeekableLexer<'_> {
@@ -770,12 +773,19 @@ impl PeekableLexer<'_> {
     ///
     /// If the next token is invalid and results in a read error, the stream will remain valid and
     /// further tokens can be obtained with subsequent calls.
+    ///
+    /// I/O errors are reported once and terminate the stream, so that recovering from them does
+    /// not hide their cause.
     pub fn read(&mut self) -> Result<TokenSpan> {
         match self.peeked.take() {
             Some(t) => Ok(t),
+            None if self.failed => Ok(TokenSpan::new(Token::Eof, self.lexer.input.next_pos(), 0)),
             None => match self.lexer.read() {
                 Ok(span) => Ok(span),
-                Err(e) => Err((self.lexer.input.next_pos(), e)),
+                Err(e) => {
+                    self.failed = true;
+                    Err((self.lexer.input.next_pos(), e))
+                }
             },
         }
     }
-- 
2.43.0


From eb6ea599d4a5c95938c8e7f97cfb951792b4c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 38/38] fix: Reject dimension 0 in LBOUND and UBOUND

UBOUND(a, 0) took down the interpreter by looking at a dimension before the
first one, and LBOUND(a, 0) returned a value.
---
 std/src/arrays.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 9b806f4..46c5685 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -37,7 +37,7 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-        if i < 0 {
+        if i < 1 {
             return Err(CallError::Syntax(
                 scope.get_pos(1),
                 format!("Dimension {} must be positive", i),
-- 
2.43.0

