From d268b1df8e70e04f9e1bbde3a5bccbd185a364eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 01/22] fix: point towards x y pops its operands in the order
 they were pushed

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 705ee2f..0b7274c 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1443,8 +1443,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From decf423b0a07c80873fd23bbeab062d15dc25f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 02/22] fix: waiting for a huge duration does not overflow the
 clock

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 0b7274c..12b5e20 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1129,7 +1129,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From cf35f255c509d310e5abf06caabec154187347cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 03/22] fix: calling a ring respects the maximum call depth

---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 12b5e20..6ae2a54 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -943,6 +943,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 self.pos = aft_pos;
             }
             Instruction::CallClosure { new_entity, args } => {
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 let (closure_pos, locals) = prep_call_closure(mc, &mut self.value_stack, args)?;
                 let entity = match new_entity {
                     false => self.call_stack.last().unwrap().entity,
-- 
2.43.0


From 017770b84cf68e2c3ddcb789c71e958f9767a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 04/22] fix: a script that broadcasts a message to itself is
 restarted instead of crashing the project

---
 src/project.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..c958704 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -360,23 +360,27 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     ProjectStep::Normal
                 }
                 ProcessStep::Broadcast { msg_type, barrier, targets } => {
-                    for i in 0..self.scripts.len() {
-                        if let Event::LocalMessage { msg_type: recv_type } = &self.scripts[i].event.0 {
+                    let mut receivers = vec![];
+                    for (i, script) in self.scripts.iter().enumerate() {
+                        if let Event::LocalMessage { msg_type: recv_type } = &script.event.0 {
                             if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {
                                 if let Some(targets) = &targets {
-                                    if !targets.iter().any(|&target| Gc::ptr_eq(self.scripts[i].entity, target)) {
+                                    if !targets.iter().any(|&target| Gc::ptr_eq(script.entity, target)) {
                                         continue
                                     }
                                 }
 
-                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
-
-                                all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
-                                self.scripts[i].stop_all(&mut self.state);
-                                self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                                // note: the dispatcher may itself be restarted below, so get all of the states first
+                                let state = C::ProcessState::from(ProcessKind { entity: script.entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
+                                receivers.push((i, state));
                             }
                         }
                     }
+                    for (i, state) in receivers {
+                        all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
+                        self.scripts[i].stop_all(&mut self.state);
+                        self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                    }
                     self.state.process_queue.push_front(proc_key); // keep executing same process, if it was a wait, it'll yield next step
                     ProjectStep::Normal
                 }
-- 
2.43.0


From f9506b25fb95f5d4551f21eb03d5a3b74cfaae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 05/22] fix: messages queued behind a script that stops itself
 are handled

---
 src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/project.rs b/src/project.rs
index c958704..4201f4c 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -393,6 +393,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
+                        AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
-- 
2.43.0


From ba74c29afd9dcd7f7d821dff2a71e23afa58a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 06/22] fix: a message arriving in the very step its handler
 ends is not left waiting

---
 src/project.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 4201f4c..e8166be 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -386,7 +386,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                 }
                 ProcessStep::Terminate { result } => {
                     let proc = self.state.processes.remove(proc_key).unwrap();
-                    all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                    AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process, even if already done in this step
                     ProjectStep::ProcessTerminated { result, proc }
                 }
                 ProcessStep::Abort { mode } => match mode {
@@ -422,7 +422,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
             }
             Err(error) => {
                 let proc = self.state.processes.remove(proc_key).unwrap();
-                all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
+                AllContextsConsumer::new().do_once(self); // need to consume all contexts after dropping a process, even if already done in this step
                 ProjectStep::Error { error, proc }
             }
         }
-- 
2.43.0


From abad50907211dc8121d7f21fd98925b4213cf2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 07/22] fix: stop all discards queued messages and events

---
 src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index e8166be..e195957 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -398,6 +398,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                     AbortMode::All => {
                         debug_assert!(!proc.is_running());
+                        for script in self.scripts.iter_mut() {
+                            script.stop_all(&mut self.state);
+                        }
                         self.state.processes.clear();
                         self.state.process_queue.clear();
                         ProjectStep::Normal
-- 
2.43.0


From 17f1afd0365d5e7ef7cdb9ae8925704af8a9d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 08/22] fix: releasing a key no longer crashes the project

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index e195957..18881db 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -261,7 +261,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                 }
             }
-            Input::KeyUp { .. } => unimplemented!(),
+            Input::KeyUp { .. } => (), // no hat block reacts to a key being released
         }
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
-- 
2.43.0


From 5bd97ad1c0d7a97957ead9c354c19742c980a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 09/22] fix: errors are located at the block that raised them,
 and huge location ids are refused

---
 src/bytecode.rs | 59 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 6a24123..7907ac2 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1322,17 +1322,18 @@ impl Locations {
                 }
             }
             debug_assert!(values.len() >= 1);
-            value_map.push((pos, values));
+            value_map.push((pos, loc, values));
         }
 
-        let base_token = value_map.iter().flat_map(|x| &x.1).copied().min().unwrap_or(0);
+        let base_token = value_map.iter().flat_map(|x| &x.2).copied().min().unwrap_or(0);
 
         let mut value_data = Vec::with_capacity(value_map.len());
         let mut locs = Vec::with_capacity(value_map.len());
-        for (pos, toks) in value_map {
+        for (pos, loc, toks) in value_map {
             locs.push((pos, value_data.len()));
             for tok in toks {
-                encode_u64((tok - base_token + 1) as u64, &mut value_data, None);
+                let offset = tok.checked_sub(base_token).and_then(|x| x.checked_add(1)).ok_or(CompileError::InvalidLocation { loc })?;
+                encode_u64(offset as u64, &mut value_data, None);
             }
             encode_u64(0, &mut value_data, None); // null terminator
         }
@@ -1351,12 +1352,23 @@ impl Locations {
         Ok(res)
     }
 
+    /// Marks code up to the given (exclusive) positions as not belonging to any block that has a location.
+    /// These are stored as locations with no values, which cannot otherwise occur.
+    fn add_gaps(&mut self, positions: impl Iterator<Item = usize>) {
+        let empty = self.value_data.len();
+        self.locs.extend(positions.map(|pos| (pos, empty)));
+        if self.locs.last().map(|x| x.1) == Some(empty) {
+            encode_u64(0, &mut self.value_data, None);
+            self.locs.sort_unstable();
+        }
+    }
+
     /// Looks up a bytecode position and returns the most local block location provided by the ast.
     /// If the ast came from a standard NetsBlox XML file, this is the collab id of the looked up bytecode address.
     /// In other cases, this could be some other localization mechanism for error reporting (e.g., line number and column).
     ///
     /// Note that it is possible for blocks to not have location information,
-    /// hence returning the most local location that was provided in the ast.
+    /// hence returning the most local location that was provided in the ast (or [`None`] if no enclosing block has one).
     pub fn lookup(&self, bytecode_pos: usize) -> Option<CompactString> {
         let mut start = {
             let p = self.locs.partition_point(|x| x.0 <= bytecode_pos);
@@ -1369,6 +1381,7 @@ impl Locations {
         loop {
             let (v, aft) = decode_u64(&self.value_data, start);
             if v == 0 {
+                if first { return None; } // a gap
                 break;
             }
 
@@ -1439,10 +1452,30 @@ struct ByteCodeBuilder<'a: 'b, 'b> {
     ins: Vec<InternalInstruction<'b>>,
     call_holes: Vec<(usize, &'a ast::FnRef, Option<&'a ast::Entity>)>, // (hole pos, function, entity)
     closure_holes: VecDeque<(usize, &'a [ast::VariableDef], &'a [ast::VariableRef], &'a [ast::Stmt], Option<&'a ast::Entity>)>, // (hole pos, params, captures, stmts, entity)
-    ins_locations: BTreeMap<usize, &'a str>,
+    ins_locations: BTreeMap<usize, Option<&'a str>>, // maps the end of a run of instructions to the location of the block that emitted it
+    open_locations: Vec<(usize, &'a str)>, // (start pos, location) of the blocks currently being compiled, innermost last
     string_arena: &'b typed_arena::Arena<CompactString>,
 }
 impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
+    fn begin_location(&mut self, location: Option<&'a str>) {
+        if let Some(location) = location {
+            self.flush_location();
+            self.open_locations.push((self.ins.len(), location));
+        }
+    }
+    fn end_location(&mut self, location: Option<&'a str>) {
+        if location.is_some() {
+            self.flush_location();
+            self.open_locations.pop().unwrap();
+        }
+    }
+    /// Attributes all instructions that have not been attributed to any other block yet to the innermost open block (if any).
+    fn flush_location(&mut self) {
+        let (start, location) = self.open_locations.last().map(|x| (x.0, Some(x.1))).unwrap_or((0, None));
+        if self.ins.len() > start {
+            self.ins_locations.entry(self.ins.len()).or_insert(location);
+        }
+    }
     fn append_simple_ins(&mut self, entity: Option<&'a ast::Entity>, values: &[&'a ast::Expr], op: Instruction<'a>) -> Result<(), CompileError<'a>> {
         for value in values {
             self.append_expr(value, entity)?;
@@ -1497,6 +1530,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         Ok(())
     }
     fn append_expr(&mut self, expr: &'a ast::Expr, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        self.begin_location(expr.info.location.as_deref());
         match &expr.kind {
             ast::ExprKind::Value(v) => self.append_value(v, entity)?,
             ast::ExprKind::Variable { var } => self.ins.push(Instruction::PushVariable { var: &var.trans_name }.into()),
@@ -1862,13 +1896,12 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedExpr { kind }),
         }
 
-        if let Some(location) = expr.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_location(expr.info.location.as_deref());
 
         Ok(())
     }
     fn append_stmt(&mut self, stmt: &'a ast::Stmt, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        self.begin_location(stmt.info.location.as_deref());
         match &stmt.kind {
             ast::StmtKind::Assign { var, value } => self.append_simple_ins(entity, &[value], Instruction::Assign { var: &var.trans_name })?,
             ast::StmtKind::AddAssign { var, value } => self.append_simple_ins(entity, &[value], Instruction::BinaryOpAssign { var: &var.trans_name, op: BinaryOp::Add })?,
@@ -2248,9 +2281,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             kind => return Err(CompileError::UnsupportedStmt { kind }),
         }
 
-        if let Some(location) = stmt.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
-        }
+        self.end_location(stmt.info.location.as_deref());
 
         Ok(())
     }
@@ -2444,7 +2475,8 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             for func in entity.1.funcs.iter_mut() { func.1 = final_ins_pos[func.1]; }
             for script in entity.1.scripts.iter_mut() { script.1 = final_ins_pos[script.1]; }
         }
-        let locations = Locations::condense(&self.ins_locations.iter().map(|(p, v)| (final_ins_pos[*p], *v)).collect())?;
+        let mut locations = Locations::condense(&self.ins_locations.iter().filter_map(|(p, v)| Some((final_ins_pos[*p], (*v)?))).collect())?;
+        locations.add_gaps(self.ins_locations.iter().filter(|x| x.1.is_none()).map(|x| final_ins_pos[*x.0]));
 
         Ok((ByteCode { tag: Default::default(), code: code.into_boxed_slice(), data: data.into_boxed_slice() }, ScriptInfo { funcs, entities }, locations))
     }
@@ -2465,6 +2497,7 @@ impl ByteCode {
             call_holes: Default::default(),
             closure_holes: Default::default(),
             ins_locations: Default::default(),
+            open_locations: Default::default(),
             string_arena: &string_arena,
         };
 
-- 
2.43.0


From 1b06db039c55ccf5de82135a2391e06ee8704c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 10/22] fix: compiled projects can be read back from json

---
 src/bytecode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 7907ac2..b9a3ef8 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -14,7 +14,7 @@ use core::mem;
 #[cfg(feature = "serde")]
 use serde::{Serialize, Deserialize};
 
-use monostate::MustBeU128;
+use monostate::MustBeU64;
 use num_traits::FromPrimitive;
 use bin_pool::BinPool;
 
@@ -25,6 +25,10 @@ use crate::util::LosslessJoin;
 use crate::vecmap::VecMap;
 use crate::compact_str::{CompactString, ToCompactString};
 
+/// A tag that ties serialized data to the version that wrote it.
+/// This is stored in two halves because common formats (e.g., json) do not support 128-bit integers.
+type Fingerprint = (MustBeU64<{ (FINGERPRINT >> 64) as u64 }>, MustBeU64<{ FINGERPRINT as u64 }>);
+
 /// Number of bytes to display on each line of a hex dump
 #[cfg(feature = "std")]
 const BYTES_PER_LINE: usize = 10;
@@ -1127,7 +1131,7 @@ impl BinaryWrite for Instruction<'_> {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ByteCode {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     pub(crate) code: Box<[u8]>,
     pub(crate) data: Box<[u8]>,
@@ -1171,7 +1175,7 @@ pub(crate) struct EntityInitInfo {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct InitInfo {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     pub(crate) proj_name: CompactString,
     pub(crate) ref_values: Vec<RefValue>,
@@ -1244,7 +1248,7 @@ fn test_locations_tokenizer() {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug)]
 pub struct Locations {
-    #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
+    #[allow(dead_code)] tag: Fingerprint,
 
     prefix: CompactString,
     separator: CompactString,
-- 
2.43.0


From 7e5db4ec72ff10e99903e0e7ca9831c9bfa2b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 11/22] fix: a list can be used as its own index when
 inserting, replacing and removing

---
 src/process.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 6ae2a54..0b5462a 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len() + 1)?; // done before mutably borrowing because index might contain the list itself
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +698,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +728,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From 27a39c33a4c84df7ecd957901ab534377a2fae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 12/22] fix: numbers from a to b terminates when the numbers
 are too large to be counted by adding 1

---
 src/process.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 0b5462a..9db7ed5 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1835,19 +1835,14 @@ mod ops {
             }),
 
             BinaryOp::Range => binary_op_impl(mc, system, a, b, true, &mut cache, |mc, _, a, b| {
-                let (mut a, b) = (a.as_number()?.get(), b.as_number()?.get());
+                let (a, b) = (a.as_number()?.get(), b.as_number()?.get());
                 let mut res = VecDeque::new();
                 if a.is_finite() && b.is_finite() {
-                    if a <= b {
-                        while a <= b {
-                            res.push_back(Number::new(a)?.into());
-                            a += 1.0;
-                        }
-                    } else {
-                        while a >= b {
-                            res.push_back(Number::new(a)?.into());
-                            a -= 1.0;
-                        }
+                    let steps = libm::round(libm::fabs(b - a)) as u64; // counted because adding 1.0 to a large enough number does not change it
+                    for i in 0..=steps {
+                        let value = if a <= b { a + i as f64 } else { a - i as f64 };
+                        if (a <= b && value > b) || (a > b && value < b) { break }
+                        res.push_back(Number::new(value)?.into());
                     }
                 }
                 Ok(Gc::new(mc, RefLock::new(res)).into())
-- 
2.43.0


From c0bd6a45d46856681844d506fdd22b7f5b2894b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 13/22] fix: modulus of a whole multiple with the opposite sign
 is zero

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..54dd83f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,6 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let rem = a % b;
+    if rem.is_zero() || rem.is_sign_positive() == b.is_sign_positive() { rem } else { b + rem }
 }
-- 
2.43.0


From 758d3bce3bfbbc449055670c6859682d89887f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 14/22] fix: 0x, 0o and 0b texts with a sign after the prefix
 are not numbers

---
 src/runtime.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..49beec0 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -842,10 +842,11 @@ impl SimpleValue {
     /// Parses a string into a number just as the runtime would do natively.
     pub fn parse_number(s: &str) -> Option<Number> {
         let s = s.trim();
+        let parse_int = |digits: &str, radix| digits.starts_with(|c: char| c.is_digit(radix)).then(|| i64::from_str_radix(digits, radix).ok()).flatten().map(|x| x as f64);
         let parsed = match s.get(..2) {
-            Some("0x" | "0X") => i64::from_str_radix(&s[2..], 16).ok().map(|x| x as f64),
-            Some("0o" | "0O") => i64::from_str_radix(&s[2..], 8).ok().map(|x| x as f64),
-            Some("0b" | "0B") => i64::from_str_radix(&s[2..], 2).ok().map(|x| x as f64),
+            Some("0x" | "0X") => parse_int(&s[2..], 16),
+            Some("0o" | "0O") => parse_int(&s[2..], 8),
+            Some("0b" | "0B") => parse_int(&s[2..], 2),
             _ => s.parse::<f64>().ok(),
         };
         parsed.and_then(|x| Number::new(x).ok())
-- 
2.43.0


From a7d2a9ebb222cb9b3976f574273d867702c8f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 15/22] fix: names of received images and sounds are xml
 unescaped

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 49beec0..a1fca23 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -793,7 +793,7 @@ impl SimpleValue {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
                                         "center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
                                         "center-y" => center_y = Some(value.as_str().parse().ok().and_then(|y| Number::new(y).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "image" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:image/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadImage)?),
                                             _ => return Err(FromNetsBloxJsonError::BadImage),
@@ -815,7 +815,7 @@ impl SimpleValue {
                             loop {
                                 match tokenizer.next() {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "sound" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:audio/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadAudio)?),
                                             _ => return Err(FromNetsBloxJsonError::BadAudio),
-- 
2.43.0


From d6b34998ecbd7d7df8f0d623f82f9e48d315a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 16/22] fix: random numbers between very distant bounds stay
 within them

---
 src/process.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 9db7ed5..18a9432 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1850,11 +1850,13 @@ mod ops {
             BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
-                let res = if a == libm::round(a) && b == libm::round(b) {
+                let integral = a == libm::round(a) && b == libm::round(b);
+                let res = if integral && a >= i64::MIN as f64 && b <= i64::MAX as f64 {
                     let (a, b) = (a as i64, b as i64);
                     system.rand(a..=b) as f64
                 } else {
-                    system.rand(a..=b)
+                    let res = if (b - a).is_finite() { system.rand(a..=b) } else { 2.0 * system.rand(a / 2.0..=b / 2.0) };
+                    if integral { libm::round(res) } else { res }
                 };
                 Ok(Number::new(res)?.into())
             }),
-- 
2.43.0


From eea767e1151dfaee13f8a30a0517bb60d2f8934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 17/22] fix: note names, frequencies and numbers beyond the
 midi range

---
 src/process.rs |  5 ++---
 src/runtime.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 18a9432..530721d 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1531,9 +1531,8 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            let res = u8::try_from(vv).ok().and_then(|vv| Note::from_midi(vv, false));
+            return res.ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
diff --git a/src/runtime.rs b/src/runtime.rs
index a1fca23..49297a3 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1857,7 +1857,7 @@ impl Note {
         let mut c = name.trim().chars().peekable();
 
         let note = c.next().unwrap_or('\0').to_ascii_uppercase();
-        let note = SHARP_NOTES.split(' ').enumerate().find(|x| x.1.len() == 1 && x.1.starts_with(note))?.0 as i32;
+        let note = SHARP_NOTES.split(' ').enumerate().find(|x| x.1.len() == 1 && x.1.starts_with(note))?.0 as i64;
 
         let mut octave = None;
         let mut delta = 0;
@@ -1876,7 +1876,7 @@ impl Note {
                                 _ => break,
                             }
                         }
-                        octave = Some(v.parse::<i32>().ok()?);
+                        octave = Some(v.parse::<i32>().ok()? as i64);
                     }
                     's' | '#' | '♯' => { delta += 1; natural = true; }
                     'b' | '♭' => { delta -= 1; natural = true; }
@@ -1892,7 +1892,7 @@ impl Note {
         }
 
         let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        u8::try_from(value).ok().and_then(|value| Self::from_midi(value, natural))
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
@@ -1900,12 +1900,13 @@ impl Note {
     }
     /// Computes the frequency of the note in Hz.
     pub fn get_frequency(self) -> Number {
-        Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()
+        Number::new(440.0 * libm::exp2((self.get_midi().0 as f64 - 69.0) / 12.0)).unwrap()
     }
     /// Gets the (English) name of the note.
     pub fn get_name(self, prefer_sharps: bool) -> CompactString {
-        let octave = self.0 as i32 / 12 - 1;
-        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((self.0 as usize + 3) % 12).unwrap();
+        let (value, _) = self.get_midi();
+        let octave = value as i32 / 12 - 1;
+        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((value as usize + 3) % 12).unwrap();
         format_compact!("{note}{octave}")
     }
 }
-- 
2.43.0


From 7f7f65ced6ae7d7babc208257cce729b9b675d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:00 +0000
Subject: [PATCH 18/22] fix: pick random draws anew for lists that appear more
 than once

---
 src/process.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 530721d..13a4c63 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1762,7 +1762,7 @@ mod ops {
         Ok(res.as_str().into())
     }
 
-    fn binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, matrix_mode: bool, cache: &mut BTreeMap<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>, scalar_op: fn(&Mutation<'gc>, &S, &Value<'gc, C, S>, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
+    fn binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, matrix_mode: bool, cache: &mut BTreeMap<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>, op_type: OpType, scalar_op: fn(&Mutation<'gc>, &S, &Value<'gc, C, S>, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
         let cache_key = (a.identity(), b.identity(), matrix_mode);
         Ok(match cache.get(&cache_key) {
             Some(x) => x.clone(),
@@ -1776,8 +1776,9 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for (a, b) in iter::zip(&*a, &*b) {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if let OpType::Nondeterministic = op_type { cache.remove(&cache_key); }
                         real_res
                     }
                     (Some(a), None) => {
@@ -1787,8 +1788,9 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for a in &*a {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if let OpType::Nondeterministic = op_type { cache.remove(&cache_key); }
                         real_res
                     }
                     (None, Some(b)) => {
@@ -1798,11 +1800,12 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for b in &*b {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if let OpType::Nondeterministic = op_type { cache.remove(&cache_key); }
                         real_res
                     }
-                    (None, None) => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, scalar_op)? } else { scalar_op(mc, system, a, b)? }
+                    (None, None) => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, op_type, scalar_op)? } else { scalar_op(mc, system, a, b)? }
                 }
             }
         })
@@ -1810,30 +1813,30 @@ mod ops {
     pub(super) fn binary_op<'gc, 'a, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &'a Value<'gc, C, S>, b: &'a Value<'gc, C, S>, op: BinaryOp) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
         let mut cache = Default::default();
         match op {
-            BinaryOp::Add       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.add(b.as_number()?)?.into())),
-            BinaryOp::Sub       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.sub(b.as_number()?)?.into())),
-            BinaryOp::Mul       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.mul(b.as_number()?)?.into())),
-            BinaryOp::Div       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.div(b.as_number()?)?.into())),
-            BinaryOp::Pow       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.powf(b.as_number()?)?.into())),
-            BinaryOp::Log       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(b.as_number()?.log(a.as_number()?)?.into())),
-            BinaryOp::Atan2     => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.atan2(b.as_number()?)?.to_degrees()?.into())),
-
-            BinaryOp::StrGet => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| {
+            BinaryOp::Add       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.add(b.as_number()?)?.into())),
+            BinaryOp::Sub       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.sub(b.as_number()?)?.into())),
+            BinaryOp::Mul       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.mul(b.as_number()?)?.into())),
+            BinaryOp::Div       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.div(b.as_number()?)?.into())),
+            BinaryOp::Pow       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.powf(b.as_number()?)?.into())),
+            BinaryOp::Log       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(b.as_number()?.log(a.as_number()?)?.into())),
+            BinaryOp::Atan2     => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.atan2(b.as_number()?)?.to_degrees()?.into())),
+
+            BinaryOp::StrGet => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| {
                 let string = b.as_text()?;
                 let index = prep_index(a, string.graphemes(true).count())?;
                 Ok(Text::from(string.graphemes(true).nth(index).unwrap()).into())
             }),
 
-            BinaryOp::Mod => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| {
+            BinaryOp::Mod => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| {
                 let (a, b) = (a.as_number()?.get(), b.as_number()?.get());
                 Ok(Number::new(util::modulus(a, b))?.into())
             }),
-            BinaryOp::SplitBy => binary_op_impl(mc, system, a, b, true, &mut cache, |mc, _, a, b| {
+            BinaryOp::SplitBy => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |mc, _, a, b| {
                 let (text, pattern) = (a.as_text()?, b.as_text()?);
                 Ok(Gc::new(mc, RefLock::new(text.split(pattern.as_str()).map(|x| Text::from(x).into()).collect::<VecDeque<_>>())).into())
             }),
 
-            BinaryOp::Range => binary_op_impl(mc, system, a, b, true, &mut cache, |mc, _, a, b| {
+            BinaryOp::Range => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |mc, _, a, b| {
                 let (a, b) = (a.as_number()?.get(), b.as_number()?.get());
                 let mut res = VecDeque::new();
                 if a.is_finite() && b.is_finite() {
@@ -1846,7 +1849,7 @@ mod ops {
                 }
                 Ok(Gc::new(mc, RefLock::new(res)).into())
             }),
-            BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
+            BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Nondeterministic, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
                 let integral = a == libm::round(a) && b == libm::round(b);
-- 
2.43.0


From 8091d0654afa14d10b426d1ecc2bdda6534955ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:09 +0000
Subject: [PATCH 19/22] fix: the extension removes every omitted element before
 an upload (the collection it loops over is live)

---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index e5172e2..a5b4863 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -25,7 +25,7 @@
 
         xml = new DOMParser().parseFromString(xml, 'text/xml');
         for (const elem of omittedElements) {{
-            for (const match of xml.getElementsByTagName(elem)) {{
+            for (const match of Array.from(xml.getElementsByTagName(elem))) {{
                 match.remove();
             }}
         }}
-- 
2.43.0


From d936364c9a91c7d595c02a22fc1ce359416dc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:09 +0000
Subject: [PATCH 20/22] fix: the extension skips error locations of blocks that
 are gone instead of losing the remaining errors

---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index a5b4863..ac25213 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -234,7 +234,7 @@
                                 for (const entry of error.trace) {{
                                     const locals = formatVars(entry.locals);
                                     const blocks = lookup[entry.location];
-                                    if (blocks !== null) {{
+                                    if (blocks !== undefined) {{
                                         for (const block of blocks) {{
                                             const vars = [locals, fields, globals].filter(x => x.length).join('\n\n');
                                             let content = error.cause;
-- 
2.43.0


From 78a3dcd07ed150604deb677b930df8114cf9cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:09 +0000
Subject: [PATCH 21/22] fix: the close syscall reports output that could not be
 written instead of answering OK

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf5e240..e49f868 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -154,7 +154,12 @@ fn main() {
                             Value::Native(x) => {
                                 match &**x {
                                     NativeValue::InputFile { handle } => *handle.borrow_mut() = None,
-                                    NativeValue::OutputFile { handle } => *handle.borrow_mut() = None,
+                                    NativeValue::OutputFile { handle } => if let Some(mut handle) = handle.borrow_mut().take() {
+                                        if let Err(e) = handle.flush() {
+                                            key.complete(Err(format_compact!("syscall close - write error: {e:?}")));
+                                            return RequestStatus::Handled;
+                                        }
+                                    }
                                 }
                                 key.complete(Ok(SimpleValue::Text("OK".into()).into()));
                                 RequestStatus::Handled
-- 
2.43.0


From 775b4f54eecd7c36be28b77d4eeb620528f61ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:54 +0000
Subject: [PATCH 22/22] fix: deliver the Enter key to scripts on a terminal
 when no question is pending

---
 src/cli.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli.rs b/src/cli.rs
index 61e4f76..78dd720 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -254,6 +254,8 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
                     RawKeyCode::Enter => if let Some((_, res_key)) = input_queries.borrow_mut().pop_front() {
                         res_key.complete(Ok(SimpleValue::Text(mem::take(&mut input_value)).into()));
                         update_flag.set(true);
+                    } else {
+                        input_sequence.push(Input::KeyDown { key: KeyCode::Enter });
                     }
                     RawKeyCode::Up => if !in_input_mode() { input_sequence.push(Input::KeyDown { key: KeyCode::Up }) }
                     RawKeyCode::Down => if !in_input_mode() { input_sequence.push(Input::KeyDown { key: KeyCode::Down }) }
-- 
2.43.0

