From 9e3627a28f8e29976c653c1d745c7c70665263ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 01/59] fix: pop the delayed expression value before a do /
 do-while statement

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 11317af..519f9e9 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -822,6 +822,7 @@ impl Parser<'_> {
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
     fn parse_do_while_statement(&mut self) {
+        self.push_delayed_pop();
         self.advance(); // Consume `do`
 
         let jump = self.begin_loop();
-- 
2.43.0


From 5fe9c21d655a6e2f452995fa797fdc1d74cab76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 02/59] fix: index and slice strings by characters, not by
 their length in bytes

---
 cordy-sys/src/vm/value/mod.rs   | 2 +-
 cordy-sys/src/vm/value/slice.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cbb40f..53c765c 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1003,7 +1003,7 @@ impl<'a> Indexable<'a> {
 
     pub fn len(&self) -> usize {
         match self {
-            Indexable::Str(it) => it.len(),
+            Indexable::Str(it) => it.chars().count(),
             Indexable::List(it) => it.len(),
             Indexable::Vector(it) => it.len(),
         }
diff --git a/cordy-sys/src/vm/value/slice.rs b/cordy-sys/src/vm/value/slice.rs
index 0140be6..eab1268 100644
--- a/cordy-sys/src/vm/value/slice.rs
+++ b/cordy-sys/src/vm/value/slice.rs
@@ -101,7 +101,7 @@ impl Sliceable<'_> {
     /// Returns the length of the original value being sliced.
     pub fn len(&self) -> usize {
         match self {
-            Sliceable::Str(it, _) => it.len(),
+            Sliceable::Str(it, _) => it.chars().count(),
             Sliceable::List(it, _) => it.len(),
             Sliceable::Vector(it, _) => it.len(),
         }
-- 
2.43.0


From 99ae84007a6647097ccd04fa58601756c535e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 03/59] fix: the length of a range whose step does not divide
 its extent

---
 cordy-sys/src/vm/value/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/range.rs b/cordy-sys/src/vm/value/range.rs
index 56a6d29..7702951 100644
--- a/cordy-sys/src/vm/value/range.rs
+++ b/cordy-sys/src/vm/value/range.rs
@@ -112,7 +112,7 @@ impl Range {
         // Since this type ensures that the range is non-empty, we can do simple checked arithmetic
         match self.step {
             0 => 0,
-            _ => (self.start.abs_diff(self.stop) / self.step.unsigned_abs()) as usize
+            _ => self.start.abs_diff(self.stop).div_ceil(self.step.unsigned_abs()) as usize
         }
     }
 
-- 
2.43.0


From f66045d61ae6eef47388cea43d08f75cff0a260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 04/59] fix: reverse iteration over a range

---
 cordy-sys/src/vm/value/range.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/vm/value/range.rs b/cordy-sys/src/vm/value/range.rs
index 7702951..1f10732 100644
--- a/cordy-sys/src/vm/value/range.rs
+++ b/cordy-sys/src/vm/value/range.rs
@@ -63,13 +63,13 @@ impl Range {
         match self.step.cmp(&0) {
             Ordering::Equal => self,
             Ordering::Greater => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start + 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start - 1,
                 -self.step
             ),
             Ordering::Less => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start - 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start + 1,
                 -self.step
             )
         }
-- 
2.43.0


From 82bcb8f7bcc70d8ac92d0b1dbdc0cf1d5a94ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 05/59] fix: difference() keeps the insertion order of the set

---
 cordy-sys/src/core/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 550fecf..50dfd86 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -675,7 +675,7 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
             // this.difference(other) := remove everything from this that is in other
             let mut set = this.as_set().borrow_mut();
             for e in other.to_iter()? {
-                set.remove(&e);
+                set.shift_remove(&e);
             }
             drop(set);
             this.ok()
-- 
2.43.0


From 6d60e7163ff48e901b418401804ddb49fc1cf56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 06/59] fix: variadic arguments of a partially evaluated
 function

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f421126..495d120 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -766,7 +766,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Exactly enough arguments to invoke the function
                     // We need to set up the stack correctly to call the function
                     let head: usize = func.jump_offset(total_nargs);
-                    let num_var_args: Option<u32> = func.num_var_args(nargs);
+                    let num_var_args: Option<u32> = func.num_var_args(total_nargs);
                     let (ptr, args) = partial.consume();
                     self.stack[i] = ptr; // Replace the `Nil` from earlier
                     insert(&mut self.stack, args, nargs);
-- 
2.43.0


From 705cd6671492c8f1b7231fc47ec52f13d424cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 07/59] fix: slices with a bound out of range and a step other
 than one

---
 cordy-sys/src/core/collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 50dfd86..9689ea4 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -102,8 +102,10 @@ pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePt
     let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
     let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
 
-    let abs_start: i64 = to_index(length, low);
-    let abs_stop: i64 = to_index(length, high);
+    // Clamp the bounds to the valid positions, so that `step` is counted from the first position which is in range
+    let (min, max) = if step > 0 { (0, length) } else { (-1, length - 1) };
+    let abs_start: i64 = to_index(length, low).clamp(min, max);
+    let abs_stop: i64 = to_index(length, high).clamp(min, max);
     let abs_step: usize = step.unsigned_abs() as usize;
 
     if step > 0 {
-- 
2.43.0


From 219c06a9d5fd1f4fee70df3f1dcd68174c852c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 08/59] fix: permutations(0) and combinations(0) are not
 negative

---
 cordy-sys/src/core/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 9689ea4..e7830d1 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -310,7 +310,7 @@ pub fn reverse(args: impl Iterator<Item=ValuePtr>) -> ValuePtr {
 
 pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Permutations).err();
     }
     args.to_iter()?
@@ -322,7 +322,7 @@ pub fn permutations(n: ValuePtr, args: ValuePtr) -> ValueResult {
 
 pub fn combinations(n: ValuePtr, args: ValuePtr) -> ValueResult {
     let n = n.as_int_checked()?;
-    if n <= 0 {
+    if n < 0 {
         return ValueErrorArgMustBeNonNegativeInt(Combinations).err();
     }
     args.to_iter()?
-- 
2.43.0


From 7c183bf20ee189f85b950530adec63edf4568104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 09/59] fix: evaluate nothing more after a callback raised an
 error

---
 cordy-sys/src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cordy-sys/src/util.rs b/cordy-sys/src/util.rs
index fcb4ab0..f619919 100644
--- a/cordy-sys/src/util.rs
+++ b/cordy-sys/src/util.rs
@@ -23,6 +23,9 @@ pub fn strip_line_ending(buffer: &mut String) {
 /// N.B. This did not work without specifying the types `Box<RuntimeError>` exactly. I do not know why.
 #[inline(always)]
 pub fn catch<T>(err: &mut Option<ErrorPtr>, f: impl FnOnce() -> ErrorResult<T>, default: T) -> T {
+    if err.is_some() {
+        return default; // An error has already occurred, so nothing more may be evaluated
+    }
     match f().branch() {
         ControlFlow::Continue(e) => e,
         ControlFlow::Break(Err(e)) => {
-- 
2.43.0


From 212953e439e524a0736e5a86ec433f857a9d2b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 10/59] fix: print() and vector() as a function of two
 arguments

---
 cordy-sys/src/core/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 1d554a5..163b702 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -618,8 +618,8 @@ impl InvokeArg2 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg2::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg1To2 | Arg1To3 | Arg2 | Unique => Ok(InvokeArg2::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
+                Arg1To2 | Arg1To3 | Arg2 => Ok(InvokeArg2::Native(f.as_native())),
+                Iter | Unique | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
                 Arg3 => Ok(InvokeArg2::Arg3Par1(f.as_native())),
                 Arg0 | Arg0To1 | Arg1 => IncorrectArgumentsNativeFunction(f.as_native(), 2).err(),
                 Invalid => ValueIsNotFunctionEvaluable(f).err(),
-- 
2.43.0


From dd91318d72a6eae6d98668a65ad631bc02c2c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 11/59] fix: the number of arguments reported for a partial
 native function

---
 cordy-sys/src/core/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 163b702..5ffa4dc 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -627,8 +627,8 @@ impl InvokeArg2 {
             Type::PartialNativeFunction => {
                 let (f, partial) = f.as_partial_native().consume();
                 match partial {
-                    PartialArgument::Arg2Par1(_) |
-                    PartialArgument::Arg3Par2(_, _) => IncorrectArgumentsNativeFunction(f, 3).err(),
+                    PartialArgument::Arg2Par1(_) => IncorrectArgumentsNativeFunction(f, 3).err(),
+                    PartialArgument::Arg3Par2(_, _) => IncorrectArgumentsNativeFunction(f, 4).err(),
                     PartialArgument::Arg3Par1(arg) => Ok(InvokeArg2::NativePar1(f, arg)),
                 }
             },
-- 
2.43.0


From cbd6c275b3b3657158163c0525c026e56faa9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 12/59] fix: repeated references to a variable captured through
 several functions

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b5ef389..08fcd48 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1367,9 +1367,9 @@ impl<'a> Parser<'a> {
 
             // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
             let mut found: bool = false;
-            for upvalue in &self.locals[depth as usize].upvalues {
+            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
                 if upvalue.index == index && !upvalue.is_local {
-                    index = upvalue.index; // Update the index
+                    index = i as u32; // Update the index
                     found = true; // And mark that we found an existing one
                     break
                 }
-- 
2.43.0


From e418c4e33353c97e85c4e4a00148680ce0f4c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 13/59] fix: continue in a for loop lifts the captured loop
 variables

---
 cordy-sys/src/compiler/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 519f9e9..2f7147b 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -950,8 +950,10 @@ impl Parser<'_> {
         match self.current_locals_mut().top_loop() {
             Some(loop_stmt) => {
                 let jump = loop_stmt.start_id;
+                let lift: u32 = loop_stmt.enclosing_scope(); // Includes the variables of a `for` loop, which are lifted each iteration, but not popped
                 let depth: u32 = loop_stmt.inner_scope();
-                self.pop_locals(Some(depth), false, true, true);
+                self.pop_locals(Some(lift), false, false, true);
+                self.pop_locals(Some(depth), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
             None => self.semantic_error(ContinueOutsideOfLoop),
-- 
2.43.0


From 040394416a987288fb2c161ad0dea6e127eb9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 14/59] fix: reverse iteration over enumerate()

---
 cordy-sys/src/vm/value/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 53c765c..ce355fd 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -885,7 +885,7 @@ impl Iterable {
             Iterable::Range(_, it) => IterableRev(it.reverse().to_iter()),
             Iterable::Collection(_, it) => IterableRev(Iterable::Collection(len, it)),
             Iterable::RawVector(_, it) => IterableRev(Iterable::RawVector(len, it)),
-            Iterable::Enumerate(_, it) => IterableRev(Iterable::Enumerate(len, Box::new(it.reverse().0))),
+            Iterable::Enumerate(_, it) => IterableRev(Iterable::Enumerate(len, Box::new(it.reverse().0))), // Iterated only in reverse, via `next_rev()`
             it => IterableRev(it)
         }
     }
@@ -949,7 +949,14 @@ impl Iterator for IterableRev {
     type Item = ValuePtr;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.0 {
+        IterableRev::next_rev(&mut self.0)
+    }
+}
+
+impl IterableRev {
+    /// Advances an `Iterable` which has been reversed, by `Iterable::reverse()`
+    fn next_rev(it: &mut Iterable) -> Option<ValuePtr> {
+        match it {
             Iterable::Str(it) => it.next_back().map(|u| u.to_value()),
             Iterable::Unit(it) => it.take(),
             Iterable::Collection(index, it) => {
@@ -968,9 +975,9 @@ impl Iterator for IterableRev {
             }
             Iterable::Range(it, range) => range.next(it),
             Iterable::Enumerate(index, it) => {
-                let ret = (*it).next().map(|u| (u, index.to_value()).to_value());
-                *index += 1;
-                ret
+                let ret = IterableRev::next_rev(it)?;
+                *index -= 1;
+                Some((index.to_value(), ret).to_value())
             },
         }
     }
-- 
2.43.0


From 9d3ef2c0feefc1e5e4e82a4b6131b68b4ef1ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 15/59] fix: block comments ending in several asterisks

---
 cordy-sys/src/compiler/scanner.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index adfac9a..5e52352 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -399,16 +399,14 @@ impl<'a> Scanner<'a> {
                            }
                            Some('*') => {
                                let start: usize = self.cursor;
+                               self.skip(); // The `*` of the `/*`, which cannot also be part of the `*/`
                                loop {
                                    match self.advance() {
                                        Some('*') => {
-                                           match self.advance() {
-                                               Some('/') => break,
-                                               Some(_) => {},
-                                               None => {
-                                                   self.push_err_at(start, 2, UnterminatedBlockComment);
-                                                   break
-                                               }
+                                           // Only consume the next character if it ends the comment, otherwise it may be the `*` of a `*/`
+                                           if let Some('/') = self.peek() {
+                                               self.skip();
+                                               break
                                            }
                                        },
                                        Some(_) => {},
-- 
2.43.0


From 93637b194a80081b31b27baf77c0621483c79050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 16/59] fix: char() and ord() outside of the ascii range

---
 cordy-sys/src/core/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 2fef6a7..9d07224 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -195,7 +195,7 @@ pub fn chr(value: ValuePtr) -> ValueResult {
     if i <= 0 {
         return ValueErrorInvalidCharacterOrdinal(i).err()
     }
-    match char::from_u32(i as u32) {
+    match u32::try_from(i).ok().and_then(char::from_u32) {
         Some(c) => c.to_value().ok(),
         None => ValueErrorInvalidCharacterOrdinal(i).err()
     }
@@ -203,7 +203,7 @@ pub fn chr(value: ValuePtr) -> ValueResult {
 
 pub fn ord(value: ValuePtr) -> ValueResult {
     let text = value.as_str_checked()?;
-    match text.len() {
+    match text.chars().count() {
         1 => (text.chars().next().unwrap() as u32 as i64)
             .to_value()
             .ok(),
-- 
2.43.0


From 4ac6a9e2042c2fbeada864a027c356b0c6fe74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 17/59] fix: assertion messages which are not strings

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b4e73ce..f5af900 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -296,7 +296,7 @@ impl AsError for RuntimeError {
                 }
                 if !message.is_nil() {
                     error.push(if any { '\n' } else { ' '});
-                    error.push_str(message.as_str_slice())
+                    error.push_str(&message.to_str())
                 }
                 error
             },
-- 
2.43.0


From c7709f745c7661c66b2c1d7949c3dd8426f1e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 18/59] fix: .= with a field

---
 cordy-sys/src/compiler/parser/codegen.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index 5bb5dd4..f5d4c85 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -249,7 +249,13 @@ impl<'a> Parser<'a> {
                 self.emit_expr(*lhs);
                 self.push_at(GetFieldPeek(field_index), loc);
                 self.emit_expr(*rhs);
-                self.push_at(Binary(op), loc);
+                match op {
+                    BinaryOp::NotEqual => { // Marker to indicate this is a `lhs->field .= rhs`
+                        self.push(Swap);
+                        self.push_at(Call(1, false), loc);
+                    },
+                    op => self.push_at(Binary(op), loc),
+                }
                 self.push_at(SetField(field_index), loc);
             },
             Expr(loc, ExprType::Assignment(lvalue, rhs)) => {
-- 
2.43.0


From 101c67b0ced11d476d2ab813ce0698f94638aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 19/59] fix: equal sets and dicts have equal hashes

---
 cordy-sys/src/vm/value/collections.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2b48c8d..5b8e408 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -116,9 +116,11 @@ impl Hash for Prefix<Set> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.set {
-                    v.hash(state)
-                }
+                // Equality does not depend on the order of the elements, so the hash must not either
+                it.set.iter()
+                    .map(fxhash::hash64)
+                    .fold(0u64, u64::wrapping_add)
+                    .hash(state)
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true)),
         }
@@ -179,9 +181,11 @@ impl Hash for Prefix<Dict> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.dict {
-                    v.hash(state)
-                }
+                // Equality does not depend on the order of the entries, so the hash must not either
+                it.dict.iter()
+                    .map(|entry| fxhash::hash64(&entry))
+                    .fold(0u64, u64::wrapping_add)
+                    .hash(state)
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true))
         }
-- 
2.43.0


From 383e245268be4d862ce5c36ac87824f88e43740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 20/59] fix: equal rationals and ints have equal hashes

---
 cordy-sys/src/vm/value/ptr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index f396b59..70b2314 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -569,10 +569,10 @@ impl Hash for ValuePtr {
             Type::Complex => hash!(as_complex),
             #[cfg(feature = "rational")]
             Type::Rational => {
-                // If rationals are expressible as 64-bit integers, they must hash identical to those
+                // If rationals are expressible as `int`s, they must hash identical to those
                 let value = self.as_rational();
                 match value.numer().to_i64() {
-                    Some(int) if value.denom() == &SmallInteger::from(0) => (int as u64).hash(state),
+                    Some(int) if value.denom() == &SmallInteger::from(1) && (ValuePtr::MIN_INT..=ValuePtr::MAX_INT).contains(&int) => int.to_value().hash(state),
                     _ => value.hash(state),
                 }
             },
-- 
2.43.0


From 4a68fffc574ee0549d295882c22410578d80420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 21/59] fix: assertion messages which are not strings (both
 parts)

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index f5af900..8064081 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -291,7 +291,7 @@ impl AsError for RuntimeError {
                 let mut any = false;
                 if !reason.is_nil() {
                     error.push(' ');
-                    error.push_str(reason.as_str_slice());
+                    error.push_str(&reason.to_str());
                     any = true;
                 }
                 if !message.is_nil() {
-- 
2.43.0


From 69c9cb810b77a60b7b3ed3fc81c42a0797d6963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 22/59] fix: shifts by more than the width of an integer

---
 cordy-sys/src/vm/operator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 178ab1b..e23d95b 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -386,10 +386,11 @@ pub fn binary_right_shift(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 /// Performs a binary shift either left or right, based on the sign of `rhs`. Positive values shift left, negative values shift right.
 #[inline]
 fn i64_left_shift(lhs: i64, rhs: i64) -> i64 {
+    // Shifting by at least the width of an integer shifts out every bit
     if rhs >= 0 {
-        lhs << rhs
+        u32::try_from(rhs).ok().and_then(|rhs| lhs.checked_shl(rhs)).unwrap_or(0)
     } else {
-        lhs >> (-rhs)
+        lhs >> (-rhs).min(i64::BITS as i64 - 1)
     }
 }
 
-- 
2.43.0


From e03eb9e0e9ef86d41390159ee546fe8536b37fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 23/59] fix: exponents of more than 32 bits

---
 cordy-sys/src/vm/operator.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index e23d95b..728c088 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -253,7 +253,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Bool | Int, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_int().pow(rhs as u32).to_value().ok(),
+                true => i64_pow(lhs.as_int(), rhs).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
@@ -383,6 +383,19 @@ pub fn binary_right_shift(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     }
 }
 
+/// Raises `base` to the non-negative power `exp`, wrapping around on overflow, for any value of `exp`
+fn i64_pow(mut base: i64, mut exp: i64) -> i64 {
+    let mut ret: i64 = 1;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            ret = ret.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        exp >>= 1;
+    }
+    ret
+}
+
 /// Performs a binary shift either left or right, based on the sign of `rhs`. Positive values shift left, negative values shift right.
 #[inline]
 fn i64_left_shift(lhs: i64, rhs: i64) -> i64 {
-- 
2.43.0


From 2f41f5f891bad0cc83446be0b051caf4626a5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 24/59] fix: heaps with the same elements are equal, and are
 ordered by their elements

---
 cordy-sys/src/vm/value/collections.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 5b8e408..6636ebc 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -222,27 +222,33 @@ impl Heap {
     pub(super) fn new(heap: HeapType) -> Heap {
         Heap { heap }
     }
+
+    /// Returns the elements of the heap in order. The order in which the heap stores them depends on how it was built.
+    fn sorted(&self) -> Vec<&ValuePtr> {
+        let mut elements: Vec<&ValuePtr> = self.heap.iter().map(|Reverse(v)| v).collect();
+        elements.sort();
+        elements
+    }
 }
 
 impl Eq for Heap {}
 impl PartialEq<Self> for Heap {
     fn eq(&self, other: &Self) -> bool {
-        self.len() == other.len() && self.iter().zip(other.iter()).all(|(x, y)| x == y)
+        self.len() == other.len() && self.sorted() == other.sorted()
     }
 }
 
-// Heap ordering is, much like the heap itself, just based on the lowest (top) value of the heap.
-// Empty heaps will return `None`, and this is implicit less than `Some`. So empty heap < non-empty heap
+// Heaps are compared elementwise, from the lowest (top) value of the heap. So empty heap < non-empty heap
 impl_partial_ord!(Heap);
 impl Ord for Heap {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.peek().cmp(&other.peek())
+        self.sorted().cmp(&other.sorted())
     }
 }
 
 impl Hash for Heap {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for v in &self.heap {
+        for v in self.sorted() {
             v.hash(state)
         }
     }
-- 
2.43.0


From 71a91828fe422ad38b08d5f860e3ac0ba5245221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 25/59] fix: break and continue in the else of a loop apply to
 the enclosing loop

---
 cordy-sys/src/compiler/parser/mod.rs      | 16 ++++++++++++----
 cordy-sys/src/compiler/parser/semantic.rs | 11 +++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 2f7147b..e3fc314 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -811,13 +811,15 @@ impl Parser<'_> {
         self.join_reverse(jump, BranchType::Jump);
         self.join_forward(branch, BranchType::JumpIfFalsePop); // Fix the initial conditional jump
 
+        let breaks = self.exit_loop();
+
         if let Some(KeywordElse) = self.peek() { // Parse `while {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.end_loop(breaks);
     }
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
@@ -836,13 +838,15 @@ impl Parser<'_> {
             self.join_reverse(jump, BranchType::JumpIfTruePop); // Jump back to origin
         }
 
+        let breaks = self.exit_loop();
+
         if let Some(KeywordElse) = self.peek() { // Parse do { } while <expr> else { }
             self.advance(); // Consume `else`
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.end_loop(breaks);
     }
 
     fn parse_loop_statement(&mut self) {
@@ -865,7 +869,9 @@ impl Parser<'_> {
         self.push_delayed_pop(); // Loops can't return a value
         self.join_reverse(jump, BranchType::Jump);
 
-        self.end_loop();
+        let breaks = self.exit_loop();
+
+        self.end_loop(breaks);
     }
 
     fn parse_for_statement(&mut self) {
@@ -919,13 +925,15 @@ impl Parser<'_> {
         self.pop_locals(Some(self.scope_depth), true, true, false);
         self.scope_depth -= 1;
 
+        let breaks = self.exit_loop();
+
         if let Some(KeywordElse) = self.peek() { // Parse `for {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.end_loop(breaks);
     }
 
     fn parse_break_statement(&mut self) {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 08fcd48..c53b0fb 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -873,9 +873,16 @@ impl<'a> Parser<'a> {
         loop_start
     }
 
+    /// Marks the end of the body of a loop. Any `break` or `continue` statements after this (such as in an `else` attached to the loop) apply to the enclosing loop.
+    ///
+    /// Returns the `break` statements of the loop, which must be passed to `end_loop()`
+    pub fn exit_loop(&mut self) -> Vec<ForwardBlockId> {
+        self.current_locals_mut().loops.pop().unwrap().break_ids
+    }
+
     /// Marks the end of a loop, at the point where `break` statements should jump to (so after any `else` statements attached to the loop)
-    pub fn end_loop(&mut self) {
-        for jump in self.current_locals_mut().loops.pop().unwrap().break_ids {
+    pub fn end_loop(&mut self, break_ids: Vec<ForwardBlockId>) {
+        for jump in break_ids {
             self.join_forward(jump, BranchType::Jump);
         }
     }
-- 
2.43.0


From ee3ed945d2cfe11e503ba1d5e080170e90ff4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 26/59] fix: count_ones of negative integers counts 63 bits

---
 cordy-sys/src/core/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index 78fd6da..efb3d0e 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -122,7 +122,7 @@ pub fn lcm(mut args: impl Iterator<Item=ValuePtr>) -> ValueResult {
 }
 
 pub fn count_ones(value: ValuePtr) -> ValueResult {
-    (value.as_int_checked()?.count_ones() as i64)
+    ((value.as_int_checked()? & i64::MAX).count_ones() as i64) // Integers are 63-bit, which are sign-extended here
         .to_value()
         .ok()
 }
-- 
2.43.0


From a7c2cf83d213a11a0f1fc8f62a09477329d52301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 27/59] fix: a negative power of the rational zero

---
 cordy-sys/src/vm/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 728c088..1bb344a 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -268,6 +268,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Rational, Bool | Int) => {
             let lhs = lhs.to_rational();
             match i32::try_from(rhs.as_int()) {
+                Ok(rhs) if rhs < 0 && lhs.is_zero() => ValueErrorDivideByZero.err(),
                 Ok(rhs) => lhs.pow(rhs).to_value().ok(),
                 Err(_) => ValueErrorValueWouldBeTooLarge.err()
             }
-- 
2.43.0


From 9b1a90179fbc580ae2340a7212bac088be8ec155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 28/59] fix: a return lifts locals captured later in the source
 of a loop

---
 cordy-sys/src/vm/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 495d120..debc95a 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -307,6 +307,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                     let frame: CallFrame = self.call_stack.pop().unwrap(); // Pop the call frame
 
+                    self.lift_upvalues(frame.frame_pointer); // A `return` may precede, in source, a closure in the same loop which already captured a local
                     self.stack.swap_remove(frame.frame_pointer - 1); // This removes the function, and drops it, and it gets automatically replaced with the return value
                     self.stack.truncate(frame.frame_pointer); // Drop all values above the frame pointer
                     self.ip = frame.return_ip; // And jump to the return address
@@ -705,6 +706,19 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
         self.call_stack[self.call_stack.len() - 1].frame_pointer
     }
 
+    /// Closes every open upvalue which refers to a stack slot at or above `from`, so the values there may be dropped.
+    fn lift_upvalues(&mut self, from: usize) {
+        if !self.open_upvalues.is_empty() {
+            let stack = &self.stack;
+            self.open_upvalues.retain(|&index, upvalue| {
+                if index >= from {
+                    upvalue.replace(UpValue::Closed(stack[index].clone()));
+                }
+                index < from
+            });
+        }
+    }
+
     fn invoke_and_spin(&mut self, nargs: u32) -> ValueResult {
         match self.invoke(nargs)? {
             FunctionType::Native => {},
-- 
2.43.0


From 5bfab07f680c504b9e2485a0346e2c04de3cfd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 29/59] fix: closures over locals keep working after an error
 in the repl

---
 cordy-sys/src/vm/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index debc95a..7d17eaa 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -227,9 +227,11 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
     /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function
     pub fn run_recovery(&mut self, locals: usize) {
+        self.lift_upvalues(locals); // Closures which outlive the error keep the values of their captured locals
         self.call_stack.truncate(1);
         self.stack.truncate(locals);
         self.literal_stack.clear();
+        self.unroll_stack.clear();
         self.ip = self.code.len();
     }
 
-- 
2.43.0


From efaf5e912311a93b2b63e9485f6e558d729fe2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 30/59] fix: globals declared after an error in the repl keep
 their own values

---
 cordy-sys/src/vm/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 7d17eaa..00ea1af 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -227,9 +227,11 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
     /// Recovers the VM into an operational state, in case previous instructions terminated in an error or in the middle of a function
     pub fn run_recovery(&mut self, locals: usize) {
-        self.lift_upvalues(locals); // Closures which outlive the error keep the values of their captured locals
+        self.lift_upvalues(self.global_count); // Closures which outlive the error keep the values of their captured locals
         self.call_stack.truncate(1);
-        self.stack.truncate(locals);
+        self.stack.truncate(self.global_count);
+        self.stack.resize(locals, ValuePtr::nil()); // Globals which were declared, but the error prevented from being initialized, are nil
+        self.global_count = locals;
         self.literal_stack.clear();
         self.unroll_stack.clear();
         self.ip = self.code.len();
-- 
2.43.0


From cf8bfd59e146342150135cd2bee07cbf47d1f751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 31/59] fix: closures may hold the slot of a variable out of
 scope

---
 cordy-sys/src/vm/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index 00ea1af..c7fa2a6 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -711,12 +711,13 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
     }
 
     /// Closes every open upvalue which refers to a stack slot at or above `from`, so the values there may be dropped.
+    /// Note that a closure may hold an upvalue, which it never uses, for the slot of a variable that already went out of scope.
     fn lift_upvalues(&mut self, from: usize) {
         if !self.open_upvalues.is_empty() {
             let stack = &self.stack;
             self.open_upvalues.retain(|&index, upvalue| {
                 if index >= from {
-                    upvalue.replace(UpValue::Closed(stack[index].clone()));
+                    upvalue.replace(UpValue::Closed(stack.get(index).cloned().unwrap_or_default()));
                 }
                 index < from
             });
-- 
2.43.0


From 6ed601bb05228aab36b8277c20b81b879a92ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 32/59] fix: adjacent late bound references, and late bound
 methods, keep their order

---
 cordy-sys/src/compiler/parser/core/graph.rs | 55 +++++++++++++--------
 cordy-sys/src/compiler/parser/semantic.rs   |  9 ++--
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/graph.rs b/cordy-sys/src/compiler/parser/core/graph.rs
index 1e134bf..0b11085 100644
--- a/cordy-sys/src/compiler/parser/core/graph.rs
+++ b/cordy-sys/src/compiler/parser/core/graph.rs
@@ -28,13 +28,17 @@ pub struct Code {
 #[derive(Debug, Eq, PartialEq)]
 pub struct Block {
     /// The code within the block, with each location holding:
-    /// - A `usize` ID -> this will never change, and is what uniquely identifies a given opcode within a block.
+    /// - A `(usize, usize)` ID -> this will never change, is what uniquely identifies a given opcode within a block, and orders the opcodes within it.
+    ///   The first is increasing for each opcode pushed, the second is `PUSHED`, or the order of an opcode that was inserted in front of that pushed opcode.
     /// - The `Location` and `Opcode` used to emit locations and code respectively upon teardown.
-    code: Vec<(usize, Location, Opcode)>,
+    code: Vec<((usize, usize), Location, Opcode)>,
     /// The behavior upon reaching the end of the block
     end: BlockEnd
 }
 
+/// The second part of the ID of an opcode which was not inserted, see `Block`
+const PUSHED: usize = usize::MAX;
+
 /// An enum representing the terminal behavior of a `Block`
 #[derive(Debug, Eq, PartialEq)]
 pub enum BlockEnd {
@@ -79,6 +83,8 @@ pub struct OpcodeId {
     /// An index into the owning function, as part of the parser functions
     function_id: usize,
     code_id: CodeId,
+    /// The order of this identifier, relative to others for the same position. Code is inserted in this order, regardless of the order in which it is inserted.
+    order: usize,
 }
 
 /// An index into a given `Block`, used to identify **forward** branch targets.
@@ -108,22 +114,26 @@ impl<'a> Parser<'a> {
     /// Returns a unique identifier for the next opcode in the current function.
     ///
     /// N.B. The parser **must** be within a function, this does not allow identifying targets within global code!
-    pub fn next_opcode(&self) -> OpcodeId {
+    pub fn next_opcode(&mut self) -> OpcodeId {
         let function_id = self.current_locals().func.expect("next_opcode() called in global scope!");
         let blocks = &self.functions[function_id].code.blocks;
         let block_id = blocks.len() - 1;
-        let opcode_id = blocks[block_id].code.len();
+        let opcode_id = blocks[block_id].next_id();
+        let order = self.late_binding_next_index;
+
+        self.late_binding_next_index += 1;
 
-        OpcodeId { function_id, code_id: CodeId { block_id, opcode_id } }
+        OpcodeId { function_id, code_id: CodeId { block_id, opcode_id }, order }
     }
 
     pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_insert(at, loc, opcode, &mut self.functions) }
 
     /// Inserts the provided instruction at the `OpcodeId`, and shifts all other code forward.
+    /// Repeated insertions at the same `OpcodeId` are placed one after the other.
     ///
     /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
     pub fn do_insert(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
-        functions[at.function_id].code.blocks[at.code_id.block_id].insert(at.code_id.opcode_id, loc, opcode);
+        functions[at.function_id].code.blocks[at.code_id.block_id].insert((at.code_id.opcode_id, at.order), loc, opcode);
     }
 }
 
@@ -151,11 +161,14 @@ impl Code {
             starts.push(code.len());
 
             // Emit all code within the block
-            for (opcode_id, loc, op) in block.code {
+            for ((opcode_id, order), loc, op) in block.code {
                 code.push(op);
                 locations.push(loc);
 
                 // Emit matching locals for each opcode
+                if order != PUSHED {
+                    continue
+                }
                 if let Some(local) = self.locals.remove(&CodeId { block_id, opcode_id }) {
                     locals.push(local);
                 }
@@ -283,23 +296,25 @@ impl Block {
 
     // ===== Internals ===== //
 
+    /// Returns the ID of the next opcode to be pushed
+    fn next_id(&self) -> usize {
+        match self.code.last() {
+            Some(((id, PUSHED), _, _)) => id + 1,
+            Some(((id, _), _, _)) => *id,
+            None => 0,
+        }
+    }
+
     fn push(&mut self, loc: Location, opcode: Opcode) -> usize {
-        let opcode_id = self.code.len();
-        self.code.push((opcode_id, loc, opcode));
+        let opcode_id = self.next_id();
+        self.code.push(((opcode_id, PUSHED), loc, opcode));
         opcode_id
     }
 
-    fn insert(&mut self, id: usize, loc: Location, opcode: Opcode) {
-        match self.code.iter().position(|(i, _, _)| i == &id) {
-            // The target `OpcodeId` was found, so insert immediately after, and shift all opcodes to the right
-            Some(code_id) => self.code.insert(code_id, (self.code.len(), loc, opcode)),
-            // The target `OpcodeId` was not found, which means this was an empty block
-            // Just push into the empty block
-            None => {
-                debug_assert!(self.code.is_empty()); // This should always be true, if we cannot find a matching `OpcodeId`
-                self.code.push((0, loc, opcode))
-            }
-        }
+    /// Inserts an opcode after all those of a lower, or the same ID, and shifts all other opcodes to the right
+    fn insert(&mut self, id: (usize, usize), loc: Location, opcode: Opcode) {
+        let index = self.code.partition_point(|(other, _, _)| *other <= id);
+        self.code.insert(index, (id, loc, opcode));
     }
 
     fn end(&mut self, end: BlockEnd) {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index c53b0fb..ef11eba 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1059,15 +1059,14 @@ impl<'a> Parser<'a> {
                             match binding.this {
                                 LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
 
-                                // Since we have a single reference point for insert, we need to insert in reverse order from the same point
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
                                 LValueReference::LocalThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushLocal(index))
+                                    self.insert(at.clone(), binding.loc, PushLocal(index));
+                                    self.insert(at, binding.loc, GetMethod(*function_id));
                                 }
                                 LValueReference::UpValueThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushUpValue(index))
+                                    self.insert(at.clone(), binding.loc, PushUpValue(index));
+                                    self.insert(at, binding.loc, GetMethod(*function_id));
                                 },
 
                                 lvalue => panic!("`self` should not be bound to {:?}", lvalue)
-- 
2.43.0


From fe10dfbdbffd75f5632c5433c934d5e7a95d096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 33/59] fix: variables which went out of scope are no longer
 captured

---
 cordy-sys/src/compiler/parser/semantic.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index ef11eba..2999b4d 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1156,11 +1156,7 @@ impl<'a> Parser<'a> {
                     self.current_locals_mut().locals.pop().unwrap();
 
                     // And pop any matching upvalues
-                    if let Some(upvalue) = self.current_locals_mut().upvalues.last() {
-                        if upvalue.index == local_index && upvalue.is_local {
-                            self.current_locals_mut().upvalues.pop().unwrap();
-                        }
-                    }
+                    self.current_locals_mut().upvalues.retain(|upvalue| upvalue.index != local_index || !upvalue.is_local);
                 }
             }
         }
-- 
2.43.0


From 2851ef67aaafb946f8787f0461ffa7246d8e32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 34/59] fix: a *_ parameter is variadic

---
 cordy-sys/src/compiler/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index e3fc314..6aea7f9 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -554,6 +554,12 @@ impl Parser<'_> {
                     params.default_args.push(Expr::vector(Location::empty(), Vec::new()));
                     params.variadic = true;
                 }
+                Some(LValue::VarEmpty) if !restrict => {
+                    // A `*_` argument is variadic as well, but it has no name
+                    params.args.push(LValue::Empty);
+                    params.default_args.push(Expr::vector(Location::empty(), Vec::new()));
+                    params.variadic = true;
+                }
                 Some(lvalue @ LValue::Named(_)) => { // Named are allowed in both modes
                     if params.variadic {
                         self.semantic_error(ParameterAfterVarParameter);
-- 
2.43.0


From 191a8e1a0a938599f4e4a7d5bff5d05bca7e657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 35/59] fix: set algebra of a set with itself

---
 cordy-sys/src/core/collections.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index e7830d1..18b2361 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -645,9 +645,13 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.union(other) := add everything from other to this
+            // Collect first, since `other` may be `this`
+            let other = other.to_iter()?.collect::<Vec<ValuePtr>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.insert(e);
+            for e in other {
+                if let Err(e) = set.insert_checked(e) {
+                    return ValueResult::from(e)
+                }
             }
             drop(set);
             this.ok()
@@ -661,8 +665,8 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
         Type::Set => {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
-            let mut set = this.as_set().borrow_mut();
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            let mut set = this.as_set().borrow_mut();
             set.retain(|e| other.contains(e));
             drop(set);
             this.ok()
@@ -675,8 +679,9 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.difference(other) := remove everything from this that is in other
+            let other = other.to_iter()?.collect::<Vec<ValuePtr>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
+            for e in other {
                 set.shift_remove(&e);
             }
             drop(set);
-- 
2.43.0


From 88e6d1a6c767cea68c3533b1492d43c2fa2e477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 36/59] fix: line numbers after non-ASCII text

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 8064081..cc36eff 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -250,7 +250,7 @@ impl SourceEntry {
             for line in self.text.split('\n') {
                 lines.push(String::from(line.strip_suffix('\r').unwrap_or(line)));
                 starts.push(start);
-                start += line.len() + 1;
+                start += line.chars().count() + 1; // Locations are in units of characters, not bytes
             }
 
             starts.push(start);
-- 
2.43.0


From 088431e64b48a76d8188777591e4730adb406905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 37/59] fix: partial native functions are key functions by
 their remaining arguments

---
 cordy-sys/src/vm/value/func.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 8242472..4fcaa90 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -305,7 +305,7 @@ impl PartialNativeFunction {
     }
 
     pub fn min_nargs(&self) -> u32 {
-        self.func.min_nargs()
+        self.partial.min_nargs()
     }
 }
 
-- 
2.43.0


From 922fb1f989ee5e33f597f0fd5bfda0c2f6cf95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 38/59] fix: partial functions are equal only with equal
 arguments

---
 cordy-sys/src/core/mod.rs      | 2 +-
 cordy-sys/src/vm/value/func.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 5ffa4dc..866f671 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -482,7 +482,7 @@ impl Argument {
 ///
 /// This *should be* optimize-able, given that we already perform a dispatch against the function once, when creating the partial function. So, we use `PartialArgument` to represent that state, post-dispatch.
 /// We can also create partial argument types that have an explicit number of partial arguments
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, Eq, PartialEq)]
 pub enum PartialArgument {
     Arg2Par1(ValuePtr),
     Arg3Par1(ValuePtr),
diff --git a/cordy-sys/src/vm/value/func.rs b/cordy-sys/src/vm/value/func.rs
index 4fcaa90..cc1c579 100644
--- a/cordy-sys/src/vm/value/func.rs
+++ b/cordy-sys/src/vm/value/func.rs
@@ -178,7 +178,7 @@ impl ValuePtr {
 impl Eq for PartialFunction {}
 impl PartialEq<Self> for PartialFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.args == other.args
     }
 }
 
@@ -312,7 +312,7 @@ impl PartialNativeFunction {
 impl Eq for PartialNativeFunction {}
 impl PartialEq<Self> for PartialNativeFunction {
     fn eq(&self, other: &Self) -> bool {
-        self.func == other.func
+        self.func == other.func && self.partial == other.partial
     }
 }
 
-- 
2.43.0


From e0a5a12e276dcae38d85721f1dc591bacdf946a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 39/59] fix: too large widths in format strings are errors

---
 cordy-sys/src/core/strings.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 9d07224..97c3039 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -295,7 +295,14 @@ impl<'a> StringFormatter<'a> {
                         }
                     }
 
-                    let padding: usize = if buffer.is_empty() { 0 } else { buffer.parse::<usize>().unwrap() };
+                    let padding: usize = if buffer.is_empty() {
+                        0
+                    } else {
+                        match buffer.parse::<usize>() {
+                            Ok(padding) => padding,
+                            Err(_) => return ValueErrorInvalidFormatCharacter(buffer.chars().last()).err(), // Too large
+                        }
+                    };
 
                     let text = match (self.peek(), is_zero_padded) {
                         (Some('d'), false) => format!("{:width$}", self.arg()?.as_int_checked()?, width = padding),
-- 
2.43.0


From 5c3b3d93e644c2bcc85a7735565d6e414e34677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 40/59] fix: process the operands of an assertion's comparison
 before emitting them

---
 cordy-sys/src/compiler/parser/codegen.rs | 2 +-
 cordy-sys/src/compiler/parser/mod.rs     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/codegen.rs b/cordy-sys/src/compiler/parser/codegen.rs
index f5d4c85..6ee3f22 100644
--- a/cordy-sys/src/compiler/parser/codegen.rs
+++ b/cordy-sys/src/compiler/parser/codegen.rs
@@ -61,7 +61,7 @@ impl<'a> Parser<'a> {
     ///
     /// This will, for many expression fragments, emit semantic errors and return `Expr::nil()`, as the fragments do not
     /// need to be visible to the optimizer in the event an error was raised.
-    fn process_expr(&mut self, expr: Expr) -> Expr {
+    pub fn process_expr(&mut self, expr: Expr) -> Expr {
         expr.walk(&mut Process(self))
     }
 
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 6aea7f9..b83b93a 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -984,7 +984,8 @@ impl Parser<'_> {
         let mut loc = self.next_location();
 
         // If we parse an expression that has a top-level compare operation, we use AssertCompare, which performs the comparison (and thus can report both sides of the assert value)
-        let branch_type = match self.parse_expr() {
+        let expr = self.parse_expr();
+        let branch_type = match self.process_expr(expr) {
             Expr(_, ExprType::Binary(op @ (BinaryOp::Equal | BinaryOp::NotEqual | BinaryOp::GreaterThan | BinaryOp::GreaterThanEqual | BinaryOp::LessThan | BinaryOp::LessThanEqual), lhs, rhs, swap)) => {
                 self.emit_binary_op_args(*lhs, *rhs, swap);
                 BranchType::AssertCompare(CompareOp::from(op))
-- 
2.43.0


From b4be37fb369369975e4b091789c7dab4ed1cb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 41/59] fix: operators which may raise errors are not reordered
 by the optimizer

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 448eed5..6f90adc 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -1,5 +1,6 @@
 use crate::compiler::parser::{Expr, ExprType, Parser, Traversable, Visitor};
 use crate::core::NativeFunction;
+use crate::vm::operator::{BinaryOp, UnaryOp};
 use crate::vm::{ErrorPtr, IntoValue, LiteralType, RuntimeError, ValuePtr};
 
 
@@ -173,10 +174,14 @@ impl Expr {
             ExprType::Nil | ExprType::Exit | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
             ExprType::LValue(_) => Purity::Weak,
 
+            // Operators which may raise an error cannot be reordered with anything that may have an effect - including raising a different error
+            ExprType::Unary(op, _) if *op != UnaryOp::LogicalNot => Purity::None,
+            ExprType::Binary(op, ..) if !is_infallible(*op) => Purity::None,
+            ExprType::Unroll(_) => Purity::None,
+
             ExprType::Unary(_, arg) => arg.purity(),
             ExprType::Binary(_, lhs, rhs, _) | ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
             ExprType::Literal(_, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong),
-            ExprType::Unroll(arg) => arg.purity(),
             ExprType::IfThenElse(condition, if_true, if_false) => condition.purity().min(if_true.purity()).min(if_false.purity()),
 
             ExprType::Call { unroll: true, .. } => Purity::None,
@@ -206,6 +211,10 @@ fn any_unroll(args: &[Expr]) -> bool {
     args.iter().any(|u| u.is_unroll())
 }
 
+fn is_infallible(op: BinaryOp) -> bool {
+    matches!(op, BinaryOp::LessThan | BinaryOp::GreaterThan | BinaryOp::LessThanEqual | BinaryOp::GreaterThanEqual | BinaryOp::Equal | BinaryOp::NotEqual | BinaryOp::Max | BinaryOp::Min)
+}
+
 fn is_native_operator(expr: &Expr) -> bool {
     match expr {
         Expr(_, ExprType::NativeFunction(native)) => native.is_operator(),
-- 
2.43.0


From 9965ab68a9309efd039638d9364771d9d7ab4298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:32 +0000
Subject: [PATCH 42/59] fix: native modules are distinct values, and do not
 share members

---
 cordy-sys/src/compiler/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index b83b93a..96c8c09 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -387,6 +387,8 @@ impl Parser<'_> {
         self.advance(); // Consume `native`
         self.expect(KeywordModule);
 
+        // Similar to `parse_struct_or_module()`, the module needs its own instance type, as types are compared by their instance type
+        let instance_type = self.declare_type();
         let constructor_type = self.declare_type();
         let module_name = self.begin_module(true); // Consumes name
 
@@ -405,7 +407,7 @@ impl Parser<'_> {
             }
         }
         self.expect_resync(CloseBrace);
-        self.end_module(u32::MAX, constructor_type);
+        self.end_module(instance_type, constructor_type);
     }
 
     fn parse_native_module_function(&mut self, constructor_type: u32, module_name: &str) {
-- 
2.43.0


From e4edbd364e5741c1a86a4d136406a072f6099f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 43/59] fix: a slice checks its bounds before its target, with
 or without optimisation

---
 cordy-sys/src/core/collections.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 18b2361..1d8f71e 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -81,26 +81,29 @@ pub fn set_index(target: &ValuePtr, index: ValuePtr, value: ValuePtr) -> AnyResu
 pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePtr) -> ValueResult {
 
     #[inline]
-    fn unwrap_or(ptr: ValuePtr, default: i64) -> ErrorResult<i64> {
+    fn check(ptr: ValuePtr) -> ErrorResult<Option<i64>> {
         if ptr.is_int() {
-            Ok(ptr.as_int())
+            Ok(Some(ptr.as_int()))
         } else if ptr.is_nil() {
-            Ok(default)
+            Ok(None)
         } else {
             TypeErrorArgMustBeInt(ptr).err()
         }
     }
 
+    // Check the operands before the target, in order, as `[low:high:step]` does when it is evaluated as a value of its own
+    let (low, high, step) = (check(low)?, check(high)?, check(step)?);
+
     let mut slice = target.to_slice()?;
     let length: i64 = slice.len() as i64;
 
-    let step: i64 = unwrap_or(step, 1)?;
+    let step: i64 = step.unwrap_or(1);
     if step == 0 {
         return ValueErrorStepCannotBeZero.err()
     }
 
-    let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
-    let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
+    let low: i64 = low.unwrap_or(if step > 0 { 0 } else { -1 });
+    let high: i64 = high.unwrap_or(if step > 0 { length } else { -length - 1 });
 
     // Clamp the bounds to the valid positions, so that `step` is counted from the first position which is in range
     let (min, max) = if step > 0 { (0, length) } else { (-1, length - 1) };
-- 
2.43.0


From f6a06b8a45604763b0b71f38fae643290be10367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:13 +0000
Subject: [PATCH 44/59] fix: group_by() with a size far larger than the
 iterable

---
 cordy-sys/src/core/collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 1d8f71e..8c8935d 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -272,13 +272,14 @@ pub fn group_by<VM : VirtualInterface>(vm: &mut VM, by: ValuePtr, args: ValuePtr
                 return ValueErrorValueMustBePositive(i).err()
             }
             let size: usize = i as usize;
+            let capacity: usize = size.min(iter.len()); // No group is larger than the whole iterable
             let mut groups: VecDeque<ValuePtr> = VecDeque::with_capacity(1 + iter.len() / size); // Accurate guess
-            let mut group: Vec<ValuePtr> = Vec::with_capacity(size);
+            let mut group: Vec<ValuePtr> = Vec::with_capacity(capacity);
             for value in iter {
                 group.push(value);
                 if group.len() == size {
                     groups.push_back(group.to_value());
-                    group = Vec::with_capacity(size);
+                    group = Vec::with_capacity(capacity);
                 }
             }
             if !group.is_empty() {
-- 
2.43.0


From fa2fcb222fe8976784d4f939632e55094e3e0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:26 +0000
Subject: [PATCH 45/59] fix: late bindings only resolve to methods of the
 module they occur in

A name in a function which was not (yet) declared was bound to the first later
method with the same name, in any module or struct - even when the function
was outside of it. Pattern assignments to late bound names in a module also
panicked, when the name was a method, or an already declared global.
---
 cordy-sys/src/compiler/parser/semantic.rs | 36 ++++++++++++++++-------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 2999b4d..235db10 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -246,6 +246,8 @@ pub struct LateBinding {
     fallback: Option<u32>,
     /// If true, an error should be raised. Represents the state of the error recovery mode when hit
     error: bool,
+    /// `true` if the reference is within the module or struct which is currently open. Only these references can be bound to the methods of that module.
+    in_module: bool,
 }
 
 impl LateBinding {
@@ -262,10 +264,11 @@ impl LateBinding {
         let loc = parser.prev_location();
         let error = !parser.error_recovery;
         let this = parser.resolve_reference(Reference::LateThis);
+        let in_module = parser.module_depth > 0;
 
         parser.late_binding_next_index += 1;
 
-        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error })
+        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error, in_module })
     }
 
     pub fn update(&mut self, ty: ReferenceType) {
@@ -934,6 +937,11 @@ impl<'a> Parser<'a> {
 
         // Decrement module depth
         self.module_depth -= 1;
+
+        // Anything still late bound is now outside any open module, and must not be bound to the methods of a later one
+        for binding in &mut self.late_bindings {
+            binding.in_module = false;
+        }
     }
 
     /// Declares a function with a given name and arguments.
@@ -1034,7 +1042,8 @@ impl<'a> Parser<'a> {
 
             // If the binding matches, it will be declared here
             // The first declaration is always the matching one, as the precedence for methods/fields -> globals is always maintained
-            if binding.name == name {
+            // Methods can only be referenced by name from within the module they are declared in
+            if binding.name == name && (binding.in_module || matches!(result, LateBound::Local(_))) {
                 let binding = self.late_bindings.swap_remove(i); // Remove this binding - this drops the borrow on self.bindings
 
                 // Update the binding if possible
@@ -1043,14 +1052,7 @@ impl<'a> Parser<'a> {
                     (ReferenceType::Store(at), LateBound::Local(index)) => self.insert(at, binding.loc, StoreGlobal(*index, false)),
                     (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
                         // Need to update all the matching late bound globals in the pattern
-                        let pattern = &mut self.patterns[pattern_index];
-                        pattern.visit(&mut |op| {
-                            if let ParserStoreOp::LateBoundGlobal(index) = op {
-                                if *index == binding.index {
-                                    *op = ParserStoreOp::Bound(StoreOp::Global(*local))
-                                }
-                            }
-                        });
+                        Parser::do_bind_pattern(&mut self.patterns[pattern_index], binding.index, *local)
                     },
                     (ReferenceType::Load(at), LateBound::Method { function_id, instance }) => {
                         if *instance {
@@ -1077,7 +1079,7 @@ impl<'a> Parser<'a> {
                             self.insert(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
@@ -1087,6 +1089,17 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Updates all references to the given late binding in a pattern, to be a store to the global variable `local`.
+    fn do_bind_pattern(pattern: &mut Pattern<ParserStoreOp>, binding_index: usize, local: u32) {
+        pattern.visit(&mut |op| {
+            if let ParserStoreOp::LateBoundGlobal(index) = op {
+                if *index == binding_index {
+                    *op = ParserStoreOp::Bound(StoreOp::Global(local))
+                }
+            }
+        });
+    }
+
     /// Resolves any outstanding late bindings present at teardown, by either falling back to a global, or raises an error.
     pub fn resolve_remaining_late_bindings(&mut self) {
         for binding in self.late_bindings.drain(..) {
@@ -1094,6 +1107,7 @@ impl<'a> Parser<'a> {
                 match binding.ty {
                     ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
                     ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
+                    ReferenceType::StorePattern(pattern_index) => Parser::do_bind_pattern(&mut self.patterns[pattern_index], binding.index, fallback),
                     _ => panic!()
                 }
             } else if binding.error {
-- 
2.43.0


From e48eababc04697fbbb1f3ebe608e6b45ea4b91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 46/59] fix: pattern assignment to the fields of self by name

In a method, fields can be assigned by name, but doing so in a pattern panicked.
---
 cordy-sys/src/compiler/parser/semantic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 235db10..199bb5a 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -648,6 +648,12 @@ impl LValueReference {
             LValueReference::Global(index) => ParserStoreOp::Bound(StoreOp::Global(index)),
             LValueReference::UpValue(index) => ParserStoreOp::Bound(StoreOp::UpValue(index)),
 
+            // Like an explicit `self->field`, this uses the `self` on the stack when the pattern is executed
+            ref lvalue @ LValueReference::ThisField { field_index, .. } => {
+                parser.push_store_lvalue_prefix(lvalue, parser.prev_location());
+                ParserStoreOp::Bound(StoreOp::Field(field_index))
+            }
+
             LValueReference::LateBinding(mut binding) => {
                 let index = binding.index;
 
-- 
2.43.0


From 6209c8d1528d286d7e2a75748eea692988e5c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 47/59] fix: default arguments capture variables of enclosing
 functions

They were compiled as if part of the enclosing function, so a reference to one of
its local variables read an unrelated stack slot, or panicked the compiler.
---
 cordy-sys/src/compiler/parser/mod.rs      | 19 ++++++++++++++++---
 cordy-sys/src/compiler/parser/semantic.rs |  2 ++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 96c8c09..60ced81 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -518,7 +518,8 @@ impl Parser<'_> {
             args: Vec::new(),
             default_args: Vec::new(),
             variadic: false,
-            instance: false
+            instance: false,
+            locals: Locals::new(None),
         };
 
         self.expect(OpenParen);
@@ -591,7 +592,16 @@ impl Parser<'_> {
                 },
                 Some(Equals) => {
                     self.advance(); // Consume `=`
-                    params.default_args.push(self.parse_expr()); // Parse an expression
+
+                    // Default arguments are evaluated by the function, so anything they reference from an enclosing function must be captured
+                    self.locals.push(std::mem::replace(&mut params.locals, Locals::new(None)));
+                    self.function_depth += 1;
+
+                    let default_arg = self.parse_expr(); // Parse an expression
+
+                    self.function_depth -= 1;
+                    params.locals = self.locals.pop().unwrap();
+                    params.default_args.push(default_arg);
                 },
                 _ => if !params.variadic && !params.default_args.is_empty() {
                     self.semantic_error(NonDefaultParameterAfterDefaultParameter);
@@ -619,7 +629,10 @@ impl Parser<'_> {
         // In addition, we let parameters have their own scope depth one outside locals to the function
         // This lets us 1) declare parameters here, in the right scope,
         // and 2) avoid popping parameters at the end of a function call (as they're handled by the `Return` opcode instead)
-        self.locals.push(Locals::new(Some(self.functions.len() - 1)));
+        // The function may already have captured values, as part of its default arguments
+        let mut locals = params.locals;
+        locals.func = Some(self.functions.len() - 1);
+        self.locals.push(locals);
         self.function_depth += 1;
         self.scope_depth += 1;
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 199bb5a..b38069a 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -732,6 +732,8 @@ pub struct ParserFunctionParameters {
     pub variadic: bool,
     /// If `true`, this function has an explicit `self` parameter as it's first argument
     pub instance: bool,
+    /// The locals of the function, with any values captured by the default arguments.
+    pub(super) locals: Locals,
 }
 
 
-- 
2.43.0


From 3cb346dff59bb60edb7d07b006b952f5ad4798a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:08 +0000
Subject: [PATCH 48/59] fix: an invalid late binding does not hide the errors
 after it

These errors are about a name used earlier, not about the token being parsed, but they
started error recovery, so that later errors were not reported.
---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b38069a..0e9c3e5 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1067,7 +1067,7 @@ impl<'a> Parser<'a> {
                             // If the current method is a self method, it can only be called through other self methods, and they need to do a `GetMethod` to do so
                             // Otherwise, it needs to raise a parser error
                             match binding.this {
-                                LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
+                                LValueReference::Invalid => self.semantic_error_at(binding.loc, UndeclaredSelf),
 
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
                                 LValueReference::LocalThis(index) => {
@@ -1087,7 +1087,7 @@ impl<'a> Parser<'a> {
                             self.insert(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.semantic_error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
-- 
2.43.0


From b335b06a55f1a870ba3e519fb79f71047cd00c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 49/59] fix: return outside of a function is a compile error

It was compiled, and then the VM panicked when it returned from no function.
---
 cordy-sys/src/compiler/parser/errors.rs | 2 ++
 cordy-sys/src/compiler/parser/mod.rs    | 3 +++
 cordy-sys/src/reporting.rs              | 1 +
 3 files changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/errors.rs b/cordy-sys/src/compiler/parser/errors.rs
index 8e75dff..c63185e 100644
--- a/cordy-sys/src/compiler/parser/errors.rs
+++ b/cordy-sys/src/compiler/parser/errors.rs
@@ -63,6 +63,7 @@ impl ParserError {
             LetWithTrivialVarNamed |
             LValueEmptyUsedOutsideAssignment |
             LValueVarEmptyUsedOutsideAssignment |
+            ReturnOutsideOfFunction |
             BreakOutsideOfLoop |
             ContinueOutsideOfLoop |
             StructNotInGlobalScope |
@@ -128,6 +129,7 @@ pub enum ParserErrorType {
     LetWithTrivialVarNamed,
     LValueEmptyUsedOutsideAssignment,
     LValueVarEmptyUsedOutsideAssignment,
+    ReturnOutsideOfFunction,
     BreakOutsideOfLoop,
     ContinueOutsideOfLoop,
     StructNotInGlobalScope,
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 60ced81..f0c159a 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -729,6 +729,9 @@ impl Parser<'_> {
         trace::trace_parser!("rule <return-statement>");
         self.push_delayed_pop();
         self.advance(); // Consume `return`
+        if self.function_depth == 0 {
+            self.semantic_error(ReturnOutsideOfFunction);
+        }
         match self.peek() {
             Some(CloseBrace) => { // Allow a bare return, but only when followed by a `}` or `;`, which we can recognize and discard properly.
                  self.push(Nil);
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index cc36eff..97e982e 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -469,6 +469,7 @@ impl AsError for ParserError {
             LetWithTrivialVarNamed => String::from("'let' statement cannot consist of a single variadic named variable"),
             LValueEmptyUsedOutsideAssignment => String::from("Expected an expression, got '_' instead"),
             LValueVarEmptyUsedOutsideAssignment => String::from("Expected an expression, got '*_' instead"),
+            ReturnOutsideOfFunction => String::from("Invalid 'return' statement outside of an enclosing function"),
             BreakOutsideOfLoop => String::from("Invalid 'break' statement outside of an enclosing loop"),
             ContinueOutsideOfLoop => String::from("Invalid 'continue' statement outside of an enclosing loop"),
             StructNotInGlobalScope => String::from("'struct' statements can only be present in global scope"),
-- 
2.43.0


From ed752f214b8d76df5670d8fb2ae5ad44dbab08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 50/59] fix: locations of errors end at the right line, and
 unterminated strings and comments lie within the text

---
 cordy-sys/src/compiler/scanner.rs | 8 ++++----
 cordy-sys/src/reporting.rs        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index 5e52352..099feeb 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -335,7 +335,7 @@ impl<'a> Scanner<'a> {
                                    None => {
                                        // Manually report this error at the source point, not at the destination point of the string
                                        // It makes it much easier to read.
-                                       self.push_err_at(start, 1, UnterminatedStringLiteral);
+                                       self.push_err_at(start - 1, UnterminatedStringLiteral);
                                        break
                                    }
                                }
@@ -411,7 +411,7 @@ impl<'a> Scanner<'a> {
                                        },
                                        Some(_) => {},
                                        None => {
-                                           self.push_err_at(start, 2, UnterminatedBlockComment);
+                                           self.push_err_at(start - 1, UnterminatedBlockComment);
                                            break
                                        }
                                    }
@@ -545,12 +545,12 @@ impl<'a> Scanner<'a> {
     }
 
     /// Reports an error at a given source point, not until the end. Used for 'unterminated' errors, as it makes them easier to read.
-    fn push_err_at(&mut self, start: usize, width: u32, error: ScanErrorType) {
+    fn push_err_at(&mut self, start: usize, error: ScanErrorType) {
         // Manually report this error at the source point, not at the destination point of the string
         // It makes it much easier to read.
         self.errors.push(ScanError {
             error,
-            loc: Location::new(start, (self.cursor - start) as u32 + width, self.index)
+            loc: Location::new(start, (self.cursor - start) as u32, self.index)
         });
     }
 
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 97e982e..bd794a5 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -170,7 +170,7 @@ impl SourceEntry {
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-            while index.starts[end_lineno + 1] < loc.end() {
+            while index.starts[end_lineno + 1] <= loc.end() {
                 end_lineno += 1;
             }
         }
-- 
2.43.0


From b527c63413326bfd587920187e59d1707d0e9072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 51/59] fix: errors over several lines are underlined by
 characters, not bytes

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index bd794a5..3bd1dff 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -229,7 +229,7 @@ impl SourceEntry {
         } else {
             // For multi-line errors, just point directly up across the entire bottom line
             let longest_line_len: usize = (start_lineno..=end_lineno)
-                .map(|u| index.lines[u].len())
+                .map(|u| index.lines[u].chars().count())
                 .max()
                 .unwrap();
             if longest_line_len > 0 {
-- 
2.43.0


From adb8adbfce5c682482d91853bc63bb25db98d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:04 +0000
Subject: [PATCH 52/59] fix: reject parameters after a variadic parameter, and
 default values of one

---
 cordy-sys/src/compiler/parser/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index f0c159a..2671133 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -552,12 +552,18 @@ impl Parser<'_> {
                     params.args.push(LValue::Empty)
                 }
                 Some(LValue::VarNamed(reference)) => {
+                    if params.variadic {
+                        self.semantic_error(ParameterAfterVarParameter);
+                    }
                     // A `*<name>` argument gets treated as a default argument value of an empty vector, and we set the `var_arg` flag
                     params.args.push(LValue::Named(reference)); // Convert to a `Named()`
                     params.default_args.push(Expr::vector(Location::empty(), Vec::new()));
                     params.variadic = true;
                 }
                 Some(LValue::VarEmpty) if !restrict => {
+                    if params.variadic {
+                        self.semantic_error(ParameterAfterVarParameter);
+                    }
                     // A `*_` argument is variadic as well, but it has no name
                     params.args.push(LValue::Empty);
                     params.default_args.push(Expr::vector(Location::empty(), Vec::new()));
@@ -583,14 +589,14 @@ impl Parser<'_> {
                 _ => self.error_with(ExpectedParameterOrEndOfList),
             }
 
-            // Default Arguments
+            // Default Arguments - a variadic argument has none, as it is an empty vector when there are no arguments
             match self.peek() {
                 // Sugar for `= nil`, so mark this as a default argument
-                Some(QuestionMark) => {
+                Some(QuestionMark) if !params.variadic => {
                     self.advance(); // Consume `?`
                     params.default_args.push(Expr(Location::empty(), ExprType::Nil));
                 },
-                Some(Equals) => {
+                Some(Equals) if !params.variadic => {
                     self.advance(); // Consume `=`
 
                     // Default arguments are evaluated by the function, so anything they reference from an enclosing function must be captured
-- 
2.43.0


From 34a1fe4e7cde4ee7de2a4d98e46058e884cac203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 53/59] fix: variadic names in parentheses of a pattern
 assignment, at most one of them in a pattern

---
 cordy-sys/src/compiler/parser/semantic.rs | 27 ++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 0e9c3e5..06c2f2c 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -379,21 +379,32 @@ impl LValue {
 
             // If we encounter a top-level, non-bare expression, we need to surround it with an additional `Terms()`
             // As `x, y = 3` and `(x, y) = 3` should represent two different levels of pattern matching
-            ExprType::Comma { args, bare: false, .. } if top => LValue::from(ExprType::Comma { args, explicit: true, bare: true }, false)
+            ExprType::Comma { args, explicit, bare: false } if top => LValue::from(ExprType::Comma { args, explicit, bare: true }, false)
                 .map(|lvalue| LValue::Terms(vec![lvalue])),
 
             // Otherwise, all comma expressions produce the same level of indirection
-            ExprType::Comma { args, .. } => args.into_iter()
-                .map(|Expr(_, expr)| LValue::from(expr, false))
-                .collect::<Result<Vec<LValue>, ParserErrorType>>()
-                .map(LValue::Terms),
+            ExprType::Comma { args, explicit, .. } => {
+                let terms = args.into_iter()
+                    .map(|Expr(_, expr)| LValue::from(expr, false))
+                    .collect::<Result<Vec<LValue>, ParserErrorType>>()?;
+                if terms.iter().filter(|term| term.is_variadic()).count() > 1 {
+                    return Err(MultipleVariadicTermsInPattern)
+                }
+                if !explicit && matches!(terms[..], [LValue::VarNamed(_)]) { // A single variadic term is not a pattern
+                    return Err(AssignmentTargetInvalid)
+                }
+                Ok(LValue::Terms(terms))
+            },
 
             // These are produced by the parser in some situations, so we have to handle them,
             // as at the time the parse was ambiguous
-            ExprType::Call { f, args, unroll: false }
+            ExprType::Call { f, mut args, unroll: false }
                 if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMul)))
-                && args.len() == 1 && matches!(args[0], Expr(_, ExprType::Empty))
-                => Ok(LValue::VarEmpty),
+                && args.len() == 1 && matches!(args[0], Expr(_, ExprType::Empty | ExprType::LValue(_)))
+                => match args.pop() {
+                    Some(Expr(_, ExprType::LValue(lvalue))) => LValue::from(ExprType::VarLValue(lvalue), false),
+                    _ => Ok(LValue::VarEmpty)
+                },
 
             ExprType::Index(array, index) => Ok(LValue::Named(LValueReference::Array(array, index))),
             ExprType::GetField(expr, field_index) => Ok(LValue::Named(LValueReference::Field(expr, field_index))),
-- 
2.43.0


From 45cbe132f5215faf18647f725c198f8f60299213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:24 +0000
Subject: [PATCH 54/59] fix: an unfinished call is incomplete input

---
 cordy-sys/src/compiler/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 2671133..4c1614c 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -1705,7 +1705,10 @@ impl Parser<'_> {
                     match self.peek2() {
                         Some(CloseParen) => expr = expr.call(self.advance_with() | self.advance_with(), vec![]),
                         Some(_) => expr = expr.call_with(self.parse_comma_expr()),
-                        _ => self.error_with(ExpectedCommaOrEndOfArguments),
+                        _ => {
+                            self.advance(); // Consume `(`
+                            self.error_with(ExpectedCommaOrEndOfArguments)
+                        },
                     }
                 },
                 Some(OpenSquareBracket) => {
-- 
2.43.0


From efe759dc92b9e4cf108b94de312c4a2629e9ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:18 +0000
Subject: [PATCH 55/59] fix: errors at the end of input are shown at the end of
 the text they occur in

---
 cordy-sys/src/compiler/parser/core/mod.rs |  4 ++--
 cordy-sys/src/compiler/parser/mod.rs      | 18 +++++++++++-------
 cordy-sys/src/compiler/scanner.rs         |  6 ++++++
 cordy-sys/src/reporting.rs                |  4 ++--
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 36bba9e..5d2d430 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -348,9 +348,9 @@ impl<'a> Parser<'a> {
         self.last_location.unwrap_or_else(Location::empty)
     }
 
-    /// Returns the source location of the next token, aka the one in `peek()`
+    /// Returns the source location of the next token, aka the one in `peek()`, or the end of the input if there is none
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(Location::empty)
+        self.input.front().map_or(self.eof, |&(loc, _)| loc)
     }
 
     pub fn synthetic_name(&mut self) -> String {
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 4c1614c..8f50845 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -35,26 +35,26 @@ mod semantic;
 
 /// Create a default empty `CompileResult`. This is semantically equivalent to parsing an empty program, but will output nothing.
 pub fn default() -> CompileResult {
-    parse_rule(true, vec![], |_| ())
+    parse_rule(true, ScanResult { tokens: vec![], eof: Location::empty(), errors: vec![] }, |_| ())
 }
 
 
 /// Parse a complete `CompileResult` from the given `ScanResult`
 pub(super) fn parse(enable_optimization: bool, scan_result: ScanResult) -> CompileResult {
-    parse_rule(enable_optimization, scan_result.tokens, |parser| parser.parse())
+    parse_rule(enable_optimization, scan_result, |parser| parser.parse())
 }
 
 
 pub(super) fn parse_incremental(scan_result: ScanResult, params: &mut CompileParameters, rule: ParseRule) -> IndexSet<ParserError, FxBuildHasher> {
     let mut errors: IndexSet<ParserError, FxBuildHasher> = IndexSet::with_hasher(FxBuildHasher::default());
 
-    rule(&mut Parser::new(params.enable_optimization, scan_result.tokens, params.code, &mut errors, params.constants, params.patterns, params.globals, params.locations, params.fields, params.functions, params.locals, &mut Vec::new()));
+    rule(&mut Parser::new(params.enable_optimization, scan_result, params.code, &mut errors, params.constants, params.patterns, params.globals, params.locations, params.fields, params.functions, params.locals, &mut Vec::new()));
 
     errors
 }
 
 
-fn parse_rule(enable_optimization: bool, tokens: Vec<(Location, ScanToken)>, rule: fn(&mut Parser) -> ()) -> CompileResult {
+fn parse_rule(enable_optimization: bool, scan_result: ScanResult, rule: fn(&mut Parser) -> ()) -> CompileResult {
     let mut result = CompileResult {
         code: Vec::new(),
         errors: IndexSet::with_hasher(FxBuildHasher::default()),
@@ -69,7 +69,7 @@ fn parse_rule(enable_optimization: bool, tokens: Vec<(Location, ScanToken)>, rul
         locals: Vec::new(),
     };
 
-    rule(&mut Parser::new(enable_optimization, tokens, &mut result.code, &mut result.errors, &mut result.constants, &mut result.patterns, &mut result.globals, &mut result.locations, &mut result.fields, &mut result.functions, &mut Locals::empty(), &mut result.locals));
+    rule(&mut Parser::new(enable_optimization, scan_result, &mut result.code, &mut result.errors, &mut result.constants, &mut result.patterns, &mut result.globals, &mut result.locations, &mut result.fields, &mut result.functions, &mut Locals::empty(), &mut result.locals));
 
     result
 }
@@ -80,6 +80,9 @@ pub(super) struct Parser<'a> {
 
     input: VecDeque<(Location, ScanToken)>,
 
+    /// The location of the end of the input
+    eof: Location,
+
     /// Previous output, from invocations of the parser are taken as input here
     /// Output for this invocation of the parser is accumulated in `output`, and in the `code` field of `functions`.
     /// It is then baked, emitting into `raw_output` and `locations`
@@ -146,7 +149,7 @@ impl Parser<'_> {
     fn new<'a, 'b : 'a>(
         enable_optimization: bool,
 
-        tokens: Vec<(Location, ScanToken)>,
+        scan_result: ScanResult,
         output: &'b mut Vec<Opcode>,
         errors: &'b mut IndexSet<ParserError, FxBuildHasher>,
 
@@ -163,7 +166,8 @@ impl Parser<'_> {
         Parser {
             enable_optimization,
 
-            input: tokens.into_iter().collect::<VecDeque<(Location, ScanToken)>>(),
+            input: scan_result.tokens.into_iter().collect::<VecDeque<(Location, ScanToken)>>(),
+            eof: scan_result.eof,
             raw_output: output,
             output: Code::new(),
             errors,
diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index 099feeb..0c0495a 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -21,7 +21,11 @@ pub fn scan(view: &SourceView) -> ScanResult {
         index: view.index(),
     };
     scanner.scan();
+    let eof = scanner.tokens.iter()
+        .rfind(|(_, token)| *token != NewLine)
+        .map_or(0, |(loc, _)| loc.end() + 1);
     ScanResult {
+        eof: Location::new(eof, 0, view.index()),
         tokens: scanner.tokens,
         errors: scanner.errors
     }
@@ -31,6 +35,8 @@ pub fn scan(view: &SourceView) -> ScanResult {
 #[derive(Debug, Clone)]
 pub struct ScanResult {
     pub tokens: Vec<(Location, ScanToken)>,
+    /// An empty location, at the end of the last token (excluding line breaks), for errors which occur at the end of input
+    pub eof: Location,
     pub errors: Vec<ScanError>
 }
 
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 3bd1dff..c3704d9 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -166,7 +166,7 @@ impl SourceEntry {
         let mut text = error.as_error();
         let index: Ref<'_, SourceIndex> = self.index();
         let loc = error.location();
-        let start_lineno = self.lineno(loc).unwrap_or(0);
+        let start_lineno = index.starts.partition_point(|u| u <= &loc.start) - 1; // Empty locations also have a start, if they refer to the end of the input
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
@@ -201,7 +201,7 @@ impl SourceEntry {
         }
 
         let (start_col, end_col) = if loc.is_empty() {
-            let last_col: usize = index.lines[end_lineno].len();
+            let last_col: usize = index.lines[end_lineno].chars().count();
             (last_col + 1, last_col + 3)
         } else {
             (loc.start - index.starts[start_lineno], loc.end() - index.starts[end_lineno])
-- 
2.43.0


From 66f9cdf4aee3f96ff4f2fb245cf06e056e3ad15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 56/59] fix: syntax errors name the 'module' keyword as it is
 written

---
 cordy-sys/src/reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index c3704d9..4dde9c9 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -536,7 +536,7 @@ impl AsError for ScanToken {
             KeywordStruct => String::from("'struct' keyword"),
             KeywordExit => String::from("'exit' keyword"),
             KeywordAssert => String::from("'assert' keyword"),
-            KeywordModule => String::from("'mod' keyword"),
+            KeywordModule => String::from("'module' keyword"),
             KeywordSelf => String::from("'self' keyword"),
             KeywordNative => String::from("'native' keyword"),
 
-- 
2.43.0


From 77e045a48d58713b42d850e039674e8dadb67957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 57/59] fix: syntax errors are shown at the token they name,
 not at the line break before it

---
 cordy-sys/src/compiler/parser/core/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 5d2d430..8de3ac7 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -350,7 +350,7 @@ impl<'a> Parser<'a> {
 
     /// Returns the source location of the next token, aka the one in `peek()`, or the end of the input if there is none
     pub fn next_location(&self) -> Location {
-        self.input.front().map_or(self.eof, |&(loc, _)| loc)
+        self.input.iter().find(|(_, token)| token != &NewLine).map_or(self.eof, |&(loc, _)| loc)
     }
 
     pub fn synthetic_name(&mut self) -> String {
-- 
2.43.0


From 0a5e18d6b6b4b0d7639d39a5307a60333eed94b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:35 +0000
Subject: [PATCH 58/59] fix: count the highlighter's prefix in characters, and
 keep blanks of a token that began in it inside its marks

---
 cordy-sys/src/syntax.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/syntax.rs b/cordy-sys/src/syntax.rs
index c70d7a7..3ba2d9c 100644
--- a/cordy-sys/src/syntax.rs
+++ b/cordy-sys/src/syntax.rs
@@ -43,7 +43,7 @@ pub fn scan<Fmt : Formatter>(input: String, prefix: &String, fmt: &mut Fmt) {
 
     // The index of the next character of `chars` to be consumed
     // We start at the length of the `prefix`, so we don't output anything that occurred before the prefix
-    let mut index = prefix.len();
+    let mut index = prefix.chars().count();
 
     for (loc, ty) in scan {
         if index > loc.end() {
@@ -76,7 +76,7 @@ fn consume_whitespace_and_comment<
     F : FnMut(&mut Peekable<Chars>, &mut usize) -> bool,
     Fmt : Formatter
 >(chars: &mut Peekable<Chars>, output: &mut Fmt, index: &mut usize, mut end: F) {
-    while let Some(' ' | '\t' | '\r' | '\n') = chars.peek() {
+    while end(chars, index) && matches!(chars.peek(), Some(' ' | '\t' | '\r' | '\n')) {
         output.push(chars.next().unwrap());
         *index += 1;
     }
-- 
2.43.0


From 61026f083ea15656af0891d941601e9493915c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:56 +0000
Subject: [PATCH 59/59] fix: do not underflow when reporting an invalid number
 at the start of a text

---
 cordy-sys/src/compiler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index 0c0495a..cdafdfb 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -546,7 +546,7 @@ impl<'a> Scanner<'a> {
     fn push_err(&mut self, offset: usize, width: usize, error: ScanErrorType) {
         self.errors.push(ScanError {
             error,
-            loc: Location::new(self.cursor - width + offset, width as u32, self.index)
+            loc: Location::new(self.cursor + offset - width, width as u32, self.index)
         });
     }
 
-- 
2.43.0

