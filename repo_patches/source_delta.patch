From 31e044fe38ec107aaca4a513f9d745ff1dab2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 01/42] fix: keep the last character of an unterminated last
 line reachable by position

A position at the end of a document without a final line feed was converted to
the offset before its last character (or the start of the line for a multi-byte
character), so typing at the end of such a document corrupted the server's copy.
---
 crates/analyzer-core/src/lsp_file.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer-core/src/lsp_file.rs b/crates/analyzer-core/src/lsp_file.rs
index 11dd40a..b2f9a05 100644
--- a/crates/analyzer-core/src/lsp_file.rs
+++ b/crates/analyzer-core/src/lsp_file.rs
@@ -65,6 +65,15 @@ impl LspFile {
 		result
 	}
 
+	// exclusive end of the characters of a line, i.e. without its '\n'. The last line may not have one.
+	fn line_content_end(&self, line: usize) -> usize {
+		if line + 1 == self.ranges.len() && !self.file.ends_with('\n') {
+			self.file.len()
+		} else {
+			self.ranges[line]
+		}
+	}
+
 	// used to get a valid lsp position for the current file
 	fn lsp_to_lsp(&self, lsp_pos: &Position) -> Position { self.byte_to_lsp(self.lsp_to_byte(lsp_pos)) }
 
@@ -95,7 +104,7 @@ impl LspFile {
 		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };
 
 		// get byte offset for character position in line
-		let slice = self.file.slice(start_byte..self.ranges[lsp_pos.line]).unwrap_or("").chars();
+		let slice = self.file.slice(start_byte..self.line_content_end(lsp_pos.line)).unwrap_or("").chars();
 		let mut byte_count = 0;
 		for (i, c) in slice.enumerate() {
 			if i == lsp_pos.character {
@@ -120,15 +129,15 @@ impl LspFile {
 			return Position { line: 0, character: 0 };
 		}
 
-		if byte_pos > *self.ranges.last().unwrap_or(&0) {
+		if byte_pos > *self.ranges.last().unwrap_or(&0) && self.file.ends_with('\n') {
 			return Position { line: self.ranges.len(), character: 0 }; // return next position of last line
 		}
 
-		let line = self.ranges.binary_search(&byte_pos).unwrap_or_else(|x| x);
+		let line = self.ranges.binary_search(&byte_pos).unwrap_or_else(|x| x).min(self.ranges.len() - 1);
 
 		// calculate character position in byte offset
 		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
-		let slice = self.file.slice(byte_count..self.ranges[line]).unwrap_or("").chars();
+		let slice = self.file.slice(byte_count..self.line_content_end(line)).unwrap_or("").chars();
 		let mut char = slice.clone().count();
 
 		for (i, c) in slice.enumerate() {
@@ -182,7 +191,7 @@ impl LspFile {
 		}
 
 		// caching frequent conversions and calculation
-		let mut start_line = start_pos.line;
+		let start_line = start_pos.line;
 		let end_line = end_pos_exc.line;
 		let range_size = self.ranges.len();
 
@@ -211,19 +220,12 @@ impl LspFile {
 			}
 		} else {
 			// \n is our line break, if adding to end of file don't make duplicate range
-			if changes.text.chars().last() == Some('\n') && end_line != range_size {
+			if changes.text.chars().last() == Some('\n') && tailing_end_bytes != 0 {
 				additional_ranges.push(*additional_ranges.last().unwrap());
 			}
 			*additional_ranges.last_mut().unwrap() += tailing_end_bytes;
 		}
 
-		// we're adding to end of file
-		// if it doesn't has eof flag then merge addition onto end
-		// if it does add a new index
-		if start_line == range_size && self.file.chars().last() != Some('\n') {
-			start_line -= 1;
-		}
-
 		// update file
 		let range = start_byte..end_byte;
 		//info!("replacing range {:?} of {:?} with {:?}", range, &self.file[range.clone()], &changes.text);
-- 
2.43.0


From 547c6750d3af853bcfb42d433621f8d90efdf3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 02/42] fix: parser panics on rules that examine nothing and on
 edits past the memo table

---
 crates/analyzer-core/src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index d1e33c7..56fbc8d 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -100,7 +100,12 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 		self.buffer.write().splice(range.clone(), r.iter().cloned());
 
 		// adjust the memo table: replace the affected range with empty entries
-		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));
+		// (the table may be shorter than the input: the parser needn't have reached the edited position)
+		let columns = self.memo_table.len();
+		self.memo_table.splice(
+			range.start.min(columns)..range.end.min(columns),
+			std::iter::repeat(Default::default()).take(r.len()),
+		);
 
 		// invalidate overlapping entries
 		for pos in 0..range.start {
@@ -220,7 +225,8 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		}
 
 		let col = &mut self.memo_table[pos];
-		let examined_length = (self.max_examined_pos - pos as isize + 1) as usize;
+		// a rule that examines no token at all leaves max_examined_pos at -1
+		let examined_length = (self.max_examined_pos - pos as isize + 1).max(0) as usize;
 		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });
 
 		let entry = MemoTableEntry { existing_match, examined_length };
@@ -232,7 +238,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
 			col.memo.get(rule_name).and_then(|entry| {
-				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length - 1) as isize);
+				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
 					self.pos += m.match_length;
-- 
2.43.0


From b879d4ac9c2994c165570b958b0501304f5900cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 03/42] fix: do not allocate the declared Content-Length before
 the data has arrived

---
 crates/analyzer-host/src/json_rpc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index 5c7b226..03e1c9a 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -4,7 +4,7 @@ use message::*;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::{
 	fmt::{self, Display},
-	io::{self, BufRead, Write},
+	io::{self, BufRead, Read, Write},
 };
 
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -114,9 +114,11 @@ fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
 		}
 	}
 	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
-	let mut buf = buf.into_bytes();
-	buf.resize(size, 0);
-	inp.read_exact(&mut buf)?;
+	// grow the buffer with the data actually received, the declared length cannot be trusted
+	let mut buf = Vec::new();
+	if inp.take(size as u64).read_to_end(&mut buf)? < size {
+		return Err(io::ErrorKind::UnexpectedEof.into());
+	}
 	let buf = String::from_utf8(buf).map_err(invalid_data)?;
 	// log::debug!("< {}", buf);?
 	Ok(Some(buf))
-- 
2.43.0


From d3562c80e257694e54eb4958fcfce67085667d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:50 +0000
Subject: [PATCH 04/42] fix: completion source accepts exactly one result and
 loses no wake-up

---
 .../src/futures_extensions.rs                 | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index ac195d4..198ba03 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -74,13 +74,16 @@ where
 		}
 
 		// Otherwise, await for an on-completed event before returning the set result.
-		self.state.on_completed.listen().await; // Asynchronously wait for the on-completed event.
+		loop {
+			let on_completed = self.state.on_completed.listen();
 
-		if let Poll::Ready(value) = self.state() {
-			return value;
-		}
+			// The source may have been completed before the listener was registered.
+			if let Poll::Ready(value) = self.state() {
+				return value;
+			}
 
-		unreachable!()
+			on_completed.await; // Asynchronously wait for the on-completed event.
+		}
 	}
 
 	/// Retrieves the state of the current [`FutureCompletionSource`].
@@ -103,16 +106,15 @@ where
 
 	#[inline(always)]
 	fn set_inner_value(&self, result: Result<T, TError>) -> FutureCompletionSourceResult<()> {
-		let completed = self.state.completed.load(Ordering::Relaxed);
+		// Check for completion under the lock so that only one of several concurrent attempts succeeds.
+		let mut writer = self.state.value.write().unwrap();
 
-		if completed {
+		if writer.is_some() {
 			return Err(FutureCompletionSourceError::Invalid);
 		}
 
 		// Store the result, set the `completed` state to true and then notify all those that are currently
 		// awaiting to resolve their 'Future'.
-		let mut writer = self.state.value.write().unwrap();
-
 		writer.replace(result);
 		self.state.completed.store(true, Ordering::Relaxed);
 		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
-- 
2.43.0


From 9742590b3915574b39de638ae714e0ae08b6888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 05/42] fix: waking or spawning work while the task pool stops
 neither panics nor deadlocks

---
 .../futures_extensions/async_extensions.rs    | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index ba58e8d..5db3de4 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -28,12 +28,8 @@ impl AsyncWork {
 
 impl ArcWake for AsyncWork {
 	fn wake_by_ref(arc_self: &Arc<Self>) {
-		if arc_self.sender.is_closed() {
-			return;
-		}
-		let cloned = arc_self.clone();
-
-		arc_self.sender.send_blocking(cloned).unwrap();
+		// The pool may be stopped at any time, in which case there is nothing left to schedule.
+		let _ = arc_self.sender.send_blocking(arc_self.clone());
 	}
 }
 
@@ -43,6 +39,10 @@ pub struct AsyncPool;
 
 thread_local!(static WORK_CHANNEL: RefCell<WorkChannel> = RefCell::new(async_channel::unbounded::<Arc<AsyncWork>>()));
 
+// The unfinished work of the pool. A `Waker` never holds the last reference to it, so waking up work once the pool is stopped
+// does not drop its `Future` from within the code that is performing the wake up.
+thread_local!(static UNFINISHED_WORK: RefCell<Vec<Arc<AsyncWork>>> = RefCell::new(Vec::new()));
+
 impl AsyncPool {
 	pub async fn start(cancel_token: Arc<CancellationToken>) -> Result<(), OperationCanceled> {
 		let (_, receiver) = WORK_CHANNEL.with(|c| c.borrow().clone());
@@ -58,6 +58,8 @@ impl AsyncPool {
 
 						if future.as_mut().poll(context).is_pending() {
 							*future_slot = Some(future)
+						} else {
+							UNFINISHED_WORK.with(|w| w.borrow_mut().retain(|w| !Arc::ptr_eq(w, &work)));
 						}
 					}
 				}
@@ -65,6 +67,12 @@ impl AsyncPool {
 			}
 		}
 
+		for work in UNFINISHED_WORK.with(|w| w.take()) {
+			let future = work.future.lock().unwrap().take();
+
+			drop(future);
+		}
+
 		if cancel_token.is_canceled() {
 			return Err(OperationCanceled);
 		}
@@ -86,6 +94,11 @@ impl AsyncPool {
 		let future = Box::pin(future);
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
-		sender.send_blocking(work).unwrap();
+		UNFINISHED_WORK.with(|w| w.borrow_mut().push(work.clone()));
+
+		// Work that is spawned once the pool is stopped is never executed.
+		if sender.send_blocking(work.clone()).is_err() {
+			UNFINISHED_WORK.with(|w| w.borrow_mut().retain(|w| !Arc::ptr_eq(w, &work)));
+		}
 	}
 }
-- 
2.43.0


From a510e2616b22f821a1a2a1653bee95aa9bd30ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:10 +0000
Subject: [PATCH 06/42] fix: buffer driver takes a read permit and its message
 in one step

---
 crates/p4-analyzer/src/driver/buffer_driver.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/p4-analyzer/src/driver/buffer_driver.rs b/crates/p4-analyzer/src/driver/buffer_driver.rs
index 16e4ef9..c7980aa 100644
--- a/crates/p4-analyzer/src/driver/buffer_driver.rs
+++ b/crates/p4-analyzer/src/driver/buffer_driver.rs
@@ -51,17 +51,17 @@ impl BufferStruct {
 		loop {
 			match self.read_queue_count.try_lock() {
 				Ok(mut guard) => {
-					if *guard == 0 || self.data.read().unwrap().input_queue.size() == 0 {
+					// Taking the message and spending the permit is one step, the counter is kept locked during both
+					let mut lock = self.data.write().unwrap();
+
+					if *guard == 0 || lock.input_queue.size() == 0 {
+						drop(lock);
 						drop(guard);
 						async_std::task::sleep(Duration::from_millis(1)).await;
 						continue;
 					} // Not ready to read, so continue looping
 
 					*guard -= 1; // confirm we're doing a Read
-					drop(guard); // drop lock to avoid dead locks
-
-					// now wait for data lock because we're been give the all clear
-					let mut lock = self.data.write().unwrap();
 
 					let ret = Some(lock.input_queue.remove().unwrap());
 					return Ok(ret);
@@ -88,7 +88,12 @@ impl BufferStruct {
 
 	/// Allows Driver to read every message in the Queue & hands over concurrency handler
 	pub async fn allow_all_read_blocking(&self) {
-		*(self.read_queue_count.lock().unwrap()) = self.data.read().unwrap().input_queue.size();
+		{
+			let mut count = self.read_queue_count.lock().unwrap();
+
+			// Permits that were given for messages which are still to be queued stay valid
+			*count = (*count).max(self.data.read().unwrap().input_queue.size());
+		}
 		async_std::task::sleep(Duration::from_millis(0)).await; // see comment above
 	}
 
-- 
2.43.0


From 1cd7a78445498f8090d353062020f179cff04c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:10 +0000
Subject: [PATCH 07/42] fix: driver closes the input channel when its source
 ends

---
 crates/p4-analyzer/src/driver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/p4-analyzer/src/driver.rs b/crates/p4-analyzer/src/driver.rs
index cda0124..a2eb283 100644
--- a/crates/p4-analyzer/src/driver.rs
+++ b/crates/p4-analyzer/src/driver.rs
@@ -73,6 +73,9 @@ impl Driver {
 				break;
 			}
 		}
+
+		// The input source has ended or failed. Closing the channel lets the receiving side know that nothing follows.
+		sender.close();
 	}
 
 	fn receiver_task(receiver: Receiver<Message>, output_source: DriverType) {
-- 
2.43.0


From a3dce632a2d1d82a0e95a5384bca005bf8b555f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 08/42] fix: integer literals with underscores, embedded
 prefixes or huge widths, and a line comment that ends the file

---
 crates/analyzer-core/src/lexer.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 9730a40..82d590d 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -45,7 +45,7 @@ pub enum Token {
 	#[token(",")]
 	Comma,
 
-	#[regex("//[^\n]*\n")]
+	#[regex("//[^\n]*\n?")]
 	#[regex("/\\*", |lex| Lexer(lex).read_comment())]
 	Comment,
 
@@ -153,14 +153,20 @@ impl<'a, 'b> Lexer<'a, 'b> {
 				str
 			})
 			.unwrap_or(str);
-		let str = parse_base(str)
+		let (str, prefixed) = parse_base(str)
 			.map(|(base, str)| {
 				lit.base = base;
-				str
+				(str, true)
 			})
-			.unwrap_or(str);
+			.unwrap_or((str, false));
+
+		// underscores may separate digits anywhere, but only a base prefix can precede one
+		let digits = match str.starts_with('_') && !prefixed {
+			true => None,
+			false => Some(str.replace('_', "")),
+		};
 
-		lit.value = match i64::from_str_radix(str, lit.base as u32).ok() {
+		lit.value = match digits.and_then(|digits| i64::from_str_radix(&digits, lit.base as u32).ok()) {
 			Some(i) => i,
 			None => {
 				self.report(Severity::Error, "malformed integer literal");
@@ -357,7 +363,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 fn parse_base(str: &str) -> Option<(u8, &str)> {
 	lazy_static! {
-		static ref BASE: Regex = Regex::new("0([bBdDoOxX])").unwrap();
+		static ref BASE: Regex = Regex::new("^0([bBdDoOxX])").unwrap();
 	}
 
 	BASE.captures(str).map(|caps| {
@@ -375,19 +381,20 @@ fn parse_base(str: &str) -> Option<(u8, &str)> {
 
 fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 	lazy_static! {
-		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
+		static ref WIDTH: Regex = Regex::new("^([0-9][0-9]*)([ws])").unwrap();
 	}
 
-	WIDTH.captures(str).map(|caps| {
+	WIDTH.captures(str).and_then(|caps| {
 		let width = caps.get(1).unwrap();
 		let sign = caps.get(2).unwrap();
 
-		let width = width.as_str().parse().unwrap();
+		// a width that does not fit makes the whole literal malformed
+		let width = width.as_str().parse().ok()?;
 		let signed = match sign.as_str() {
 			"w" => false,
 			"s" => true,
 			_ => unreachable!(),
 		};
-		((width, signed), &str[sign.end()..])
+		Some(((width, signed), &str[sign.end()..]))
 	})
 }
-- 
2.43.0


From 7434dc3d74d189ac26138499b818a1ab18d89fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 09/42] fix: a macro definition that ends with a backslash does
 not panic

---
 crates/analyzer-core/src/lexer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 82d590d..3389a0b 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -298,12 +298,14 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 			// FIXME: these escapes do not work for string literals
 			match (escape, ch) {
-				(true, Some(ch)) => rhs.push(ch),
+				(true, Some(ch)) => {
+					rhs.push(ch);
+					escape = false
+				}
 				(_, Some('\\')) => escape = true,
 				(_, Some('\n')) => break,
 				(_, Some(ch)) => rhs.push(ch),
-				(true, None) => todo!("unfinished macro"),
-				(false, None) => break,
+				(_, None) => break,
 			}
 		}
 
-- 
2.43.0


From 9b8880938a83149b45f4201f2e462faaf4818981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 10/42] fix: report every unterminated conditional and an elif
 that follows an else

---
 crates/analyzer-core/src/preprocessor.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7b30d6..365e5c0 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -315,6 +315,9 @@ impl<'a> PreprocessorState<'a> {
 					}
 					ref dir @ PreprocessorDirective::ElseIf(ref cond) => {
 						if let Some((tk, mut branches, already_processed)) = self.conditional_stack.pop() {
+							if branches.iter().any(|(_, branch, _)| *branch == PreprocessorDirective::Else) {
+								self.error(id, span.clone(), "An #elif cannot follow an #else".to_string())
+							}
 							branches.push((id, dir.clone(), span));
 							let include_body = match () {
 								_ if already_processed => false, // a previous #if or #elif already matched
@@ -326,12 +329,12 @@ impl<'a> PreprocessorState<'a> {
 								self.skip_conditional_directive(input)
 							}
 						} else {
-							self.error(id, span, "An #elif cannot follow an #else".to_string())
+							self.error(id, span, "Dangling #elif".to_string())
 						}
 					}
 					dir @ PreprocessorDirective::Else => {
 						if let Some((tk, mut branches, already_processed)) = self.conditional_stack.pop() {
-							if let Some((_, PreprocessorDirective::Else, _)) = branches.last() {
+							if branches.iter().any(|(_, branch, _)| *branch == PreprocessorDirective::Else) {
 								self.error(id, span.clone(), "This conditional already has an #else".to_string())
 							}
 							branches.push((id, dir, span));
@@ -374,7 +377,7 @@ impl<'a> PreprocessorState<'a> {
 			previous_file = Some(id);
 		}
 
-		self.check_empty_cond_stack();
+		self.report_unterminated_conditionals(0);
 
 		result
 	}
@@ -436,23 +439,21 @@ impl<'a> PreprocessorState<'a> {
 			"should have returned at this point if the input was a well-formed conditional"
 		);
 
-		self.check_empty_cond_stack();
-		// drain to avoid reporting this error multiple times
-		self.conditional_stack.drain((level - 1)..);
+		self.report_unterminated_conditionals(level - 1);
 	}
 
-	/// Report an error if the conditional stack isn't empty.
+	/// Pop every conditional from the given level of the conditional stack upwards, reporting each of them.
 	///
 	/// Should be called after processing the input stream.
-	fn check_empty_cond_stack(&mut self) {
-		if let Some(((id, dir, span), _, _)) = self.conditional_stack.last() {
+	fn report_unterminated_conditionals(&mut self, level: usize) {
+		for ((id, dir, span), _, _) in self.conditional_stack.split_off(level) {
 			let name = match dir {
 				PreprocessorDirective::If(_) => "if",
 				PreprocessorDirective::ElseIf(_) => "elif",
 				PreprocessorDirective::Else => "else",
 				_ => unreachable!(),
 			};
-			self.error(*id, span.clone(), format!("This #{name} directive lacks a corresponding #endif"));
+			self.error(id, span, format!("This #{name} directive lacks a corresponding #endif"));
 		}
 	}
 
-- 
2.43.0


From 37b2064d29e834b752e426823336c4cc2b35770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 11/42] fix: a pragma does not panic the preprocessor

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 365e5c0..1025bd5 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -357,7 +357,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorDirective::Undef(k) => {
 						self.definitions.remove(&k);
 					}
-					PreprocessorDirective::Pragma(_) => todo!(),
+					PreprocessorDirective::Pragma(_) => (), // pragmas are for the compiler
 					PreprocessorDirective::Other(name, _) => {
 						self.error(id, span, format!("Unrecognised directive: {name}"))
 					}
-- 
2.43.0


From 6c7fc740e72d552222759df668f9d93d6895189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 12/42] fix: ifdef and ifndef open a conditional

---
 crates/analyzer-core/src/lexer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 3389a0b..86737b2 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -194,6 +194,8 @@ impl<'a, 'b> Lexer<'a, 'b> {
 				let expr = parse_pp_expression(arg)?;
 				PreprocessorDirective::If(expr)
 			}
+			"ifdef" => PreprocessorDirective::If(self.parse_defined(arg)),
+			"ifndef" => PreprocessorDirective::If(PreprocessorExpression::Not(self.parse_defined(arg).into())),
 			"elif" => {
 				let expr = parse_pp_expression(arg)?;
 				PreprocessorDirective::ElseIf(expr)
@@ -262,6 +264,17 @@ impl<'a, 'b> Lexer<'a, 'b> {
 		Some((quotation_style, buf))
 	}
 
+	/// The condition of an `#ifdef`, i.e. whether the macro it names is defined.
+	fn parse_defined(&mut self, buf: String) -> PreprocessorExpression {
+		match buf.split_ascii_whitespace().next() {
+			Some(name) => PreprocessorExpression::Defined(name.to_string()),
+			None => {
+				self.report(Severity::Error, "expected the name of a macro");
+				PreprocessorExpression::IntLiteral(0)
+			}
+		}
+	}
+
 	fn parse_define(&mut self, buf: String) -> Option<(String, String)> {
 		let iter = buf.chars().skip_while(|ch| ch.is_ascii_whitespace());
 
-- 
2.43.0


From bf37cbd55e4a0355d11e31304a5f2269d480db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:11 +0000
Subject: [PATCH 13/42] fix: a malformed condition does not hold instead of
 removing its directive

---
 crates/analyzer-core/src/lexer.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 86737b2..eebaafe 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -190,16 +190,10 @@ impl<'a, 'b> Lexer<'a, 'b> {
 				let (quotation_style, path) = self.parse_include(arg)?;
 				PreprocessorDirective::Include(quotation_style, path)
 			}
-			"if" => {
-				let expr = parse_pp_expression(arg)?;
-				PreprocessorDirective::If(expr)
-			}
+			"if" => PreprocessorDirective::If(self.parse_condition(arg)),
 			"ifdef" => PreprocessorDirective::If(self.parse_defined(arg)),
 			"ifndef" => PreprocessorDirective::If(PreprocessorExpression::Not(self.parse_defined(arg).into())),
-			"elif" => {
-				let expr = parse_pp_expression(arg)?;
-				PreprocessorDirective::ElseIf(expr)
-			}
+			"elif" => PreprocessorDirective::ElseIf(self.parse_condition(arg)),
 			"else" => PreprocessorDirective::Else,
 			"endif" => PreprocessorDirective::EndIf,
 			"define" => {
@@ -264,6 +258,14 @@ impl<'a, 'b> Lexer<'a, 'b> {
 		Some((quotation_style, buf))
 	}
 
+	/// The condition of an `#if` or `#elif`. A malformed one never holds, so that the conditional keeps its structure.
+	fn parse_condition(&mut self, buf: String) -> PreprocessorExpression {
+		parse_pp_expression(buf).unwrap_or_else(|| {
+			self.report(Severity::Error, "malformed condition");
+			PreprocessorExpression::IntLiteral(0)
+		})
+	}
+
 	/// The condition of an `#ifdef`, i.e. whether the macro it names is defined.
 	fn parse_defined(&mut self, buf: String) -> PreprocessorExpression {
 		match buf.split_ascii_whitespace().next() {
-- 
2.43.0


From 950ad81f634d875c5050e6ed30f11519cba0fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 14/42] fix: conditions recognise >=

---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 1025bd5..f9d68c8 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -120,7 +120,8 @@ mod parser {
 		use std::rc::Rc;
 		let lhs = lhs.clone();
 		let mut f: Rc<dyn Fn(&'a str) -> IResult<&'a str, PreprocessorBinOp>> = Rc::new(fail);
-		for (sym, op) in variants {
+		// earlier variants are tried first, they may be prefixed by later ones
+		for (sym, op) in variants.iter().rev() {
 			let sym: &'static str = sym;
 			let op = op.clone();
 			f = Rc::new(move |s| {
-- 
2.43.0


From 3d7c17ece3548b14983b8efc65417f77f8fd8afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 15/42] fix: conditions understand unary operators and a space
 after defined

---
 crates/analyzer-core/src/preprocessor.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index f9d68c8..f4076ce 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -107,7 +107,7 @@ mod parser {
 
 	fn defined(input: &str) -> IResult<&str, &str> {
 		alt((
-			delimited(tag("defined("), ws(identifier), tag(")")),
+			delimited(tuple((tag("defined"), multispace0, char('('))), ws(identifier), char(')')),
 			preceded(tuple((tag("defined"), multispace1)), identifier),
 		))(input)
 	}
@@ -139,6 +139,20 @@ mod parser {
 		}
 	}
 
+	fn unary(input: &str) -> IResult<&str, PreprocessorExpression> {
+		use PreprocessorExpression::*;
+		let (input, op) = terminated(one_of("!-+~"), multispace0)(input)?;
+		let (input, operand) = factor(input)?;
+
+		let expr = match op {
+			'!' => Not(operand.into()),
+			'-' => BinOp(PreprocessorBinOp::Minus, IntLiteral(0).into(), operand.into()),
+			'~' => BinOp(PreprocessorBinOp::Xor, operand.into(), IntLiteral(-1).into()),
+			_ => operand,
+		};
+		Ok((input, expr))
+	}
+
 	pub(super) fn factor(input: &str) -> IResult<&str, PreprocessorExpression> {
 		use PreprocessorExpression::*;
 		alt((
@@ -146,6 +160,7 @@ mod parser {
 			map(terminated(defined, multispace0), |ident| Defined(ident.to_string())),
 			map(terminated(identifier, multispace0), |ident| Identifier(ident.to_string())),
 			map(terminated(integer, multispace0), IntLiteral),
+			unary,
 		))(input)
 	}
 
-- 
2.43.0


From 737c95a00abc7b946a8941377c4ca4edae96de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 16/42] fix: conditions without a value, undefined names and
 self-referential macros neither panic nor recurse

---
 crates/analyzer-core/src/preprocessor.rs | 81 +++++++++++++++---------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index f4076ce..cbdb805 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -482,43 +482,64 @@ impl<'a> PreprocessorState<'a> {
 	}
 
 	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+		self.interpret_expanding(cond, &mut vec![])
+	}
+
+	/// Interpret an expression that results from the expansion of the given macros. A macro isn't expanded again within
+	/// its own expansion. An expression that has no value (e.g., a division by zero) is `None`.
+	fn interpret_expanding(
+		&self,
+		cond: &PreprocessorExpression,
+		expanding: &mut Vec<String>,
+	) -> Option<PreprocessorValue> {
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
-			PreprocessorExpression::Identifier(name) => {
-				if let Some(rhs) = self.definitions.get(name) {
+			PreprocessorExpression::Identifier(name) => match self.definitions.get(name) {
+				Some(rhs) if !expanding.contains(name) => {
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
-					self.interpret_pp_expr(&expr)
-				} else {
-					None
+					expanding.push(name.clone());
+					let value = self.interpret_expanding(&expr, expanding);
+					expanding.pop();
+					value
 				}
-			}
+				// identifiers that aren't macros are zero
+				_ => Some(0),
+			},
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs)?;
-				let r = self.interpret_pp_expr(rhs)?;
-
-				Some(match op {
-					PreprocessorBinOp::Or => l | r,
-					PreprocessorBinOp::Xor => l ^ r,
-					PreprocessorBinOp::And => l & r,
-					PreprocessorBinOp::Plus => l + r,
-					PreprocessorBinOp::Minus => l - r,
-					PreprocessorBinOp::Times => l * r,
-					PreprocessorBinOp::Divide => l / r,
-					PreprocessorBinOp::Modulo => l % r,
-					PreprocessorBinOp::Equals => (l == r) as i64,
-					PreprocessorBinOp::NotEquals => (l != r) as i64,
-					PreprocessorBinOp::LogicalOr => (l != 0 || r != 0) as i64,
-					PreprocessorBinOp::LogicalAnd => (l != 0 && r != 0) as i64,
-					PreprocessorBinOp::LessThan => (l < r) as i64,
-					PreprocessorBinOp::LessOrEqual => (l <= r) as i64,
-					PreprocessorBinOp::GreaterThan => (l > r) as i64,
-					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
-					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => r >> r,
-				})
+				let l = self.interpret_expanding(lhs, expanding)?;
+				match op {
+					// the right-hand side isn't evaluated if the left-hand side decides
+					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
+					PreprocessorBinOp::LogicalAnd if l == 0 => return Some(0),
+					_ => (),
+				}
+				let r = self.interpret_expanding(rhs, expanding)?;
+
+				match op {
+					PreprocessorBinOp::Or => Some(l | r),
+					PreprocessorBinOp::Xor => Some(l ^ r),
+					PreprocessorBinOp::And => Some(l & r),
+					PreprocessorBinOp::Plus => l.checked_add(r),
+					PreprocessorBinOp::Minus => l.checked_sub(r),
+					PreprocessorBinOp::Times => l.checked_mul(r),
+					PreprocessorBinOp::Divide => l.checked_div(r),
+					PreprocessorBinOp::Modulo => l.checked_rem(r),
+					PreprocessorBinOp::Equals => Some((l == r) as i64),
+					PreprocessorBinOp::NotEquals => Some((l != r) as i64),
+					PreprocessorBinOp::LogicalOr => Some((l != 0 || r != 0) as i64),
+					PreprocessorBinOp::LogicalAnd => Some((l != 0 && r != 0) as i64),
+					PreprocessorBinOp::LessThan => Some((l < r) as i64),
+					PreprocessorBinOp::LessOrEqual => Some((l <= r) as i64),
+					PreprocessorBinOp::GreaterThan => Some((l > r) as i64),
+					PreprocessorBinOp::GreaterOrEqual => Some((l >= r) as i64),
+					PreprocessorBinOp::BitwiseShiftLeft => l.checked_shl(r.try_into().ok()?),
+					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?),
+				}
+			}
+			PreprocessorExpression::Not(inner) => {
+				self.interpret_expanding(inner, expanding).map(|value| (value == 0) as i64)
 			}
-			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
 	}
-- 
2.43.0


From a57842e9a18c5c28569147436f00f29ed409ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 17/42] fix: a condition followed by unrelated text is
 malformed

---
 crates/analyzer-core/src/preprocessor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index cbdb805..133a9b2 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -2,8 +2,6 @@ use anyhow::{anyhow, Result};
 use logos::Logos;
 use std::collections::{HashMap, HashSet, VecDeque};
 
-use self::parser::expression;
-
 use super::{base_abstractions::*, lexer::Token};
 
 #[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone, Copy)]
@@ -241,7 +239,12 @@ mod parser {
 // TODO: is taking ownership necessary?
 pub fn parse_pp_expression(buf: String) -> Option<PreprocessorExpression> {
 	match parser::expression(&buf) {
-		Ok((_, expr)) => Some(expr),
+		// only a comment may follow
+		Ok((rest, expr)) if rest.is_empty() || rest.starts_with("//") || rest.starts_with("/*") => Some(expr),
+		Ok((rest, _)) => {
+			dbg!(rest);
+			None
+		}
 		Err(e) => {
 			dbg!(e);
 			None
@@ -497,7 +500,7 @@ impl<'a> PreprocessorState<'a> {
 			PreprocessorExpression::Identifier(name) => match self.definitions.get(name) {
 				Some(rhs) if !expanding.contains(name) => {
 					// TODO: avoid reparses?
-					let (_, expr) = expression(rhs).ok()?;
+					let expr = parse_pp_expression(rhs.clone())?;
 					expanding.push(name.clone());
 					let value = self.interpret_expanding(&expr, expanding);
 					expanding.pop();
-- 
2.43.0


From 619d6fb106ec7aa7d4706c622205a8b7c49c2f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:58 +0000
Subject: [PATCH 18/42] fix: an include contributes its tokens in their order

---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 133a9b2..d6f9bdc 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -318,6 +318,7 @@ impl<'a> PreprocessorState<'a> {
 							input.reserve(input.len() + tokens.len());
 							tokens
 								.iter()
+								.rev() // the first token ends up at the front
 								.cloned()
 								.map(|(tk, span)| (file_id, tk, span))
 								.for_each(|x| input.push_front(x));
-- 
2.43.0


From a1a8a8ae01816e478c8b608c6b9f0ff8b5fac6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 19/42] fix: only an include of a file within itself is
 recursive

---
 crates/analyzer-core/src/preprocessor.rs | 33 +++++++++---------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index d6f9bdc..c203a55 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -1,6 +1,6 @@
 use anyhow::{anyhow, Result};
 use logos::Logos;
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{HashMap, VecDeque};
 
 use super::{base_abstractions::*, lexer::Token};
 
@@ -259,7 +259,9 @@ pub type ResolvedToken = (FileId, PreprocessorDirective, Span);
 pub struct PreprocessorState<'a> {
 	definitions: HashMap<String, String>,
 	pub errors: Vec<((FileId, Span), String)>, // TODO: we should do better than strings here
-	state: HashMap<FileId, VertexState>,
+	/// The chain of files that are being processed, from the root to the innermost include. Each comes with the amount of
+	/// input that follows its tokens.
+	open: Vec<(FileId, usize)>,
 	/// A stack of branches for conditional compilation.
 	/// This will contain the opening #if's and #ifdef's, popped when reaching #endif.
 	conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
@@ -269,12 +271,6 @@ pub struct PreprocessorState<'a> {
 
 type LexFn<'a> = dyn FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a;
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
-enum VertexState {
-	Open,
-	Closed,
-}
-
 impl<'a> PreprocessorState<'a> {
 	pub fn new<Idlyzer: FnMut(&str) -> FileId + 'a, FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a>(
 		to_id: Idlyzer,
@@ -283,7 +279,7 @@ impl<'a> PreprocessorState<'a> {
 		PreprocessorState {
 			definitions: Default::default(),
 			errors: vec![],
-			state: Default::default(),
+			open: vec![],
 			conditional_stack: vec![],
 			lex: Box::new(lex),
 			to_id: Box::new(to_id),
@@ -295,15 +291,9 @@ impl<'a> PreprocessorState<'a> {
 
 	pub fn preprocess(&mut self, input: &mut VecDeque<(FileId, Token, Span)>) -> Vec<(FileId, Token, Span)> {
 		let mut result: Vec<(FileId, Token, Span)> = vec![];
-		let mut previous_file = None;
+		self.open = input.front().map(|(root, _, _)| (*root, 0)).into_iter().collect();
 
 		while let Some((id, tk, span)) = input.pop_front() {
-			if let Some(file) = previous_file {
-				if file != id {
-					self.state.insert(file, VertexState::Closed);
-				}
-			}
-
 			match tk {
 				Token::PreprocessorDirective(directive) => match directive {
 					PreprocessorDirective::Include(_, path) => {
@@ -311,11 +301,14 @@ impl<'a> PreprocessorState<'a> {
 						let not_found_err = format!("Could not find {path}");
 
 						let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id
-						if self.state.get(&file_id).is_some() {
+						// leave the files whose tokens have been consumed
+						let rest = input.len();
+						self.open.retain(|&(_, following)| rest >= following);
+						if self.open.iter().any(|&(file, _)| file == file_id) {
 							self.error(id, span, recursive_err);
 						} else if let Some(tokens) = (self.lex)(file_id) as Option<&Vec<(Token, Span)>> {
-							self.state.insert(file_id, VertexState::Open);
-							input.reserve(input.len() + tokens.len());
+							self.open.push((file_id, rest));
+							input.reserve(tokens.len());
 							tokens
 								.iter()
 								.rev() // the first token ends up at the front
@@ -393,8 +386,6 @@ impl<'a> PreprocessorState<'a> {
 				},
 				_ => result.push((id, tk, span)),
 			}
-
-			previous_file = Some(id);
 		}
 
 		self.report_unterminated_conditionals(0);
-- 
2.43.0


From 85e1f3a8383e797801a5213f05b429cdc9ef2ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 20/42] fix: whitespace of two includes of a file is not merged
 into a reversed span

---
 crates/analyzer-core/src/preprocessor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index c203a55..6c0b248 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -376,8 +376,10 @@ impl<'a> PreprocessorState<'a> {
 					}
 				},
 				Token::Whitespace => match result.last() {
-					// avoid consecutive whitespace in the same file
-					Some((existing_id, Token::Whitespace, existing_span)) if *existing_id == id => {
+					// avoid consecutive whitespace in the same file (which may be included repeatedly)
+					Some((existing_id, Token::Whitespace, existing_span))
+						if *existing_id == id && existing_span.end <= span.start =>
+					{
 						let combined_span = existing_span.start..span.end;
 						result.pop();
 						result.push((id, Token::Whitespace, combined_span))
-- 
2.43.0


From c625cf1f11aaff022f25c432c93566524cd99331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 21/42] fix: resolve an include relative to its own file and
 report one that cannot be resolved

---
 crates/analyzer-core/src/lib.rs          | 14 ++++++-------
 crates/analyzer-core/src/preprocessor.rs | 26 +++++++++++++++++++++---
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7ac0d79..e2caf0e 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -43,13 +43,13 @@ pub struct Jar(
 );
 
 pub trait Db: salsa::DbWithJar<Jar> {
-	fn resolve_path(&self, file_id: FileId, path: &str) -> String;
+	fn resolve_path(&self, file_id: FileId, path: &str) -> Option<String>;
 }
 
 // impl<DB> Db for DB where DB: ?Sized + salsa::DbWithJar<Jar> {
 impl Db for Database {
-	fn resolve_path(&self, file_id: FileId, path: &str) -> String {
-		(self.resolver_fn)(&file_id.path(self), path).expect("failed to resolve a path")
+	fn resolve_path(&self, file_id: FileId, path: &str) -> Option<String> {
+		(self.resolver_fn)(&file_id.path(self), path).ok()
 	}
 }
 
@@ -241,11 +241,11 @@ pub fn lex(db: &dyn crate::Db, file_id: FileId, buf: Buffer) -> LexedBuffer {
 
 #[salsa::tracked(return_ref)]
 pub fn preprocess(db: &dyn crate::Db, fs: Fs, file_id: FileId) -> Option<Vec<(FileId, Token, Span)>> {
-	let mut pp = PreprocessorState::new(
-		|path: &str| {
-			// Return a `FileId` with an absolute path resolved relative to the file being preprocessed. If the path
+	let mut pp = PreprocessorState::with_resolver(
+		|including_file, path: &str| {
+			// Return a `FileId` with an absolute path resolved relative to the file with the directive. If the path
 			// is already absolute then `resolve_path` will return it as is.
-			FileId::new(db, db.resolve_path(file_id, path))
+			db.resolve_path(including_file, path).map(|path| FileId::new(db, path))
 		},
 		|file_id| {
 			let lexemes = fs.fs(db).get(&file_id).map(|&buf| {
diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 6c0b248..1774e3a 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -266,14 +266,28 @@ pub struct PreprocessorState<'a> {
 	/// This will contain the opening #if's and #ifdef's, popped when reaching #endif.
 	conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
 	lex: Box<LexFn<'a>>,
-	to_id: Box<dyn FnMut(&str) -> FileId + 'a>,
+	to_id: Box<ResolveFn<'a>>,
 }
 
+/// Finds the file that a path refers to within the given (including) file.
+type ResolveFn<'a> = dyn FnMut(FileId, &str) -> Option<FileId> + 'a;
+
 type LexFn<'a> = dyn FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a;
 
 impl<'a> PreprocessorState<'a> {
 	pub fn new<Idlyzer: FnMut(&str) -> FileId + 'a, FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a>(
-		to_id: Idlyzer,
+		mut to_id: Idlyzer,
+		lex: FLex,
+	) -> PreprocessorState<'a> {
+		Self::with_resolver(move |_, path: &str| Some(to_id(path)), lex)
+	}
+
+	/// Like [`PreprocessorState::new()`], with paths that depend on the including file and that may not be resolvable.
+	pub fn with_resolver<
+		Resolve: FnMut(FileId, &str) -> Option<FileId> + 'a,
+		FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a,
+	>(
+		to_id: Resolve,
 		lex: FLex,
 	) -> PreprocessorState<'a> {
 		PreprocessorState {
@@ -300,7 +314,13 @@ impl<'a> PreprocessorState<'a> {
 						let recursive_err = format!("Recursive import of {path}");
 						let not_found_err = format!("Could not find {path}");
 
-						let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id
+						let file_id = match (self.to_id)(id, &path) {
+							Some(file_id) => file_id,
+							None => {
+								self.error(id, span, not_found_err);
+								continue;
+							}
+						};
 						// leave the files whose tokens have been consumed
 						let rest = input.len();
 						self.open.retain(|&(_, following)| rest >= following);
-- 
2.43.0


From 5be4be1f2df54b18d783fb5f180c077cff4f023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 22/42] fix: diagnostics of a document contain each of its
 problems once and none of other files

---
 crates/analyzer-core/src/lib.rs                      | 12 +++++-------
 .../analyzer-host/src/lsp_impl/active_initialized.rs |  1 +
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index e2caf0e..9508447 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -122,13 +122,11 @@ impl Analyzer {
 	}
 
 	pub fn diagnostics(&self, id: FileId) -> Vec<Diagnostic> {
-		if let Some(buf) = self.filesystem().get(&id) {
-			let mut d = lex::accumulated::<Diagnostics>(&self.db, id, *buf);
-			d.append(&mut preprocess::accumulated::<Diagnostics>(&self.db, self.fs.unwrap(), id));
-			d
-		} else {
-			vec![]
-		}
+		// Those of the lexer are among the diagnostics of the preprocessor, which depends on it.
+		self.buffer(id)
+			.and(self.fs)
+			.map(|fs| preprocess::accumulated::<Diagnostics>(&self.db, fs, id))
+			.unwrap_or_default()
 	}
 
 	/// Retrieves the included dependencies for a given source [`FileId`].
diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a38675e..66eb453 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -294,6 +294,7 @@ fn process_diagnostics(
 	let lsp = analyzer.get_file(file_id);
 	diagnostics
 		.into_iter()
+		.filter(|d| d.file == file_id) // problems of included files have no range in this one
 		.map(|d| {
 			use analyzer_abstractions::lsp_types::{Diagnostic, DiagnosticSeverity};
 			use analyzer_core::base_abstractions::Severity;
-- 
2.43.0


From 9950bee9e15a95c6e6adedca02c0fa73a54dc3f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 23/42] fix: a request with invalid parameters is answered with
 an InvalidParams error

---
 crates/analyzer-host/src/lsp/dispatch_target.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/dispatch_target.rs b/crates/analyzer-host/src/lsp/dispatch_target.rs
index eb434d1..7ab9933 100644
--- a/crates/analyzer-host/src/lsp/dispatch_target.rs
+++ b/crates/analyzer-host/src/lsp/dispatch_target.rs
@@ -127,7 +127,20 @@ where
 		match &*message {
 			Message::Request(request) => {
 				let method = request.method.as_str();
-				let params = from_json::<TParams>(&request.params)?;
+				let params = match from_json::<TParams>(&request.params) {
+					Ok(params) => params,
+					Err(err) => {
+						error!(method = method, "Invalid parameters for request '{}': {}", method, err);
+
+						let response = Response::new_error(
+							request.id.clone(),
+							ErrorCode::InvalidParams as i32,
+							"The parameters of the request are invalid.",
+						);
+
+						return Ok((Some(Message::Response(response)), current_state));
+					}
+				};
 				let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {
 					Ok(result) => (Response::new(request.id.clone(), result), self.next_state(current_state)),
 					Err(err) => {
-- 
2.43.0


From 652f8b8a0edd094c30d37b396dd763beac991b4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 24/42] fix: a host without a file system starts and uses that
 of the LSP client

---
 crates/analyzer-host/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 41f8119..c1ab372 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -65,7 +65,7 @@ impl AnalyzerHost {
 		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
 			self.trace_value.clone(),
 			request_manager.clone(),
-			self.file_system.clone().unwrap(),
+			file_system.clone(),
 		));
 
 		match join_all(
-- 
2.43.0


From b92e8cfaa284a2cf7b83ed1807e528870091e493 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 25/42] fix: requests sent to the client by clones of the
 request manager have different ids

---
 crates/analyzer-host/src/lsp/request.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf9a0ae..cf0d5c9 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -33,7 +33,7 @@ type AnyFutureCompletionSource = FutureCompletionSource<Arc<Message>, LspProtoco
 pub struct RequestManager {
 	requests: Sender<Message>,
 	responses: Receiver<Message>,
-	request_id: AtomicI32,
+	request_id: Arc<AtomicI32>, // Shared by all clones, since they also share the awaiting requests.
 	awaiting_requests: Arc<AsyncRwLock<HashMap<RequestId, Arc<AnyFutureCompletionSource>>>>,
 }
 
@@ -45,7 +45,7 @@ impl RequestManager {
 		Self {
 			requests: sender,
 			responses: receiver,
-			request_id: AtomicI32::new(0),
+			request_id: Arc::new(AtomicI32::new(0)),
 			awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),
 		}
 	}
@@ -210,7 +210,7 @@ impl Clone for RequestManager {
 		Self {
 			requests: self.requests.clone(),
 			responses: self.responses.clone(),
-			request_id: AtomicI32::new(self.request_id.load(Ordering::Relaxed)),
+			request_id: self.request_id.clone(),
 			awaiting_requests: self.awaiting_requests.clone(),
 		}
 	}
-- 
2.43.0


From bb5d036fb0abfaf290ce13766b183b19b8adbaab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 26/42] fix: the host ends when the server exits or the client
 goes away

---
 crates/analyzer-host/src/lib.rs         | 21 ++++++++++++++++-----
 crates/analyzer-host/src/lsp/request.rs |  6 +++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index c1ab372..141af69 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -99,10 +99,16 @@ impl AnalyzerHost {
 	) -> Result<(), OperationCanceled> {
 		while !cancel_token.is_canceled() {
 			match self.receiver.recv().await {
-				Ok(message) => match message {
-					Message::Response(_) => responses_sender.send(message).await.unwrap(),
-					_ => requests_sender.send(message).await.unwrap(),
-				},
+				Ok(message) => {
+					let result = match message {
+						Message::Response(_) => responses_sender.send(message).await,
+						_ => requests_sender.send(message).await,
+					};
+
+					if result.is_err() {
+						break; // The server stopped while the message was still queued.
+					}
+				}
 				Err(err) => {
 					error!("Unexpected error receiving message: {:?}", err);
 					break;
@@ -113,7 +119,11 @@ impl AnalyzerHost {
 		requests_sender.close();
 		responses_sender.close();
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	async fn run_protocol_machine(
@@ -157,6 +167,7 @@ impl AnalyzerHost {
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
+					break;
 				}
 			}
 		}
diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf0d5c9..66d4637 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,7 +88,11 @@ impl RequestManager {
 			}
 		}
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	/// Sends a typed notification to the LSP client.
-- 
2.43.0


From a1bb9e5b1b6fcd7b797405a805e036a519ca39bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 27/42] fix: a response that the client no longer receives does
 not panic the host

---
 crates/analyzer-host/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 141af69..d90e128 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -154,7 +154,9 @@ impl AnalyzerHost {
 						{
 							Ok(response_message) => {
 								if let Some(Message::Response(_)) = &response_message {
-									self.sender.send(response_message.unwrap()).await.unwrap();
+									if self.sender.send(response_message.unwrap()).await.is_err() {
+										error!("Failed to send a response. The client is no longer receiving.");
+									}
 								}
 							}
 							Err(err) => {
-- 
2.43.0


From 62630316014fa3f96fe9a88417a4e7036059742b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 28/42] fix: requests to a client that is gone fail instead of
 waiting forever

---
 crates/analyzer-host/src/lsp/request.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index 66d4637..0f60e7d 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,6 +88,11 @@ impl RequestManager {
 			}
 		}
 
+		// No further responses will be received, so fail the requests that are still awaiting theirs.
+		for (_, active_request) in self.awaiting_requests.write().await.drain() {
+			let _ = active_request.set_err(LspProtocolError::TransportError);
+		}
+
 		if cancel_token.is_canceled() {
 			return Err(OperationCanceled);
 		}
@@ -184,7 +189,7 @@ impl RequestManager {
 		let request = Request::new(id.clone(), method.into(), params);
 		let awaiting_request = self.create_active_request(&id).await;
 
-		if let Err(_) = self.requests.send(Message::Request(request)).await {
+		if self.responses.is_closed() || self.requests.send(Message::Request(request)).await.is_err() {
 			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.
 
 			return Err(LspProtocolError::TransportError);
-- 
2.43.0


From ed340e3697b32ac66cb1973638a3b3e13e3eecfa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 29/42] fix: an initialize request that is refused leaves the
 server as it was

---
 .../src/lsp_impl/active_uninitialized.rs      | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 6130870..8a3bcd4 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -49,6 +49,17 @@ async fn on_initialize(
 	params: InitializeParams,
 	state: Arc<AsyncRwLock<State>>,
 ) -> HandlerResult<InitializeResult> {
+	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
+	let has_workspaces = params.workspace_folders.is_some();
+	let watched_files_supported =
+		params.capabilities.workspace.map_or(false, |capabilities| capabilities.did_change_watched_files != None);
+
+	if has_workspaces && !watched_files_supported {
+		return Err(
+			HandlerError::new(
+				"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."));
+	}
+
 	initialize_client_dependant_state(state.clone(), params.workspace_folders, params.capabilities.window).await;
 
 	let state = state.read().await;
@@ -58,22 +69,7 @@ async fn on_initialize(
 		state.set_trace_value(trace_value);
 	}
 
-	// If the server has been started without any workspace context, then simply return our 'default' capability.
-	if !state.has_workspaces() {
-		return Ok(create_initialize_result(false));
-	}
-
-	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
-	// If the client supports that capability, then start indexing
-	match params.capabilities.workspace {
-		Some(capabilities)
-			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),
-		_ => {
-			Err(
-				HandlerError::new(
-					"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."))
-		}
-	}
+	Ok(create_initialize_result(state.has_workspaces()))
 }
 
 /// Responds to an 'exit' notification from the LSP client.
-- 
2.43.0


From c11badcd7d43a844d1c2b4be97e353182545c791 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 30/42] fix: a client that refuses to register for watched
 files does not keep the server from initializing

---
 crates/analyzer-host/src/lsp_impl/initializing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/initializing.rs b/crates/analyzer-host/src/lsp_impl/initializing.rs
index 8668b40..765b16d 100644
--- a/crates/analyzer-host/src/lsp_impl/initializing.rs
+++ b/crates/analyzer-host/src/lsp_impl/initializing.rs
@@ -6,13 +6,14 @@ use analyzer_abstractions::lsp_types::{
 	request::RegisterCapability,
 	DidChangeWatchedFilesRegistrationOptions, FileSystemWatcher, InitializedParams, Registration, RegistrationParams,
 };
+use analyzer_abstractions::tracing::error;
 
 use crate::{
 	fsm::LspServerStateDispatcher,
 	json_rpc::{to_json, ErrorCode},
 	lsp::{
 		dispatch::Dispatch,
-		dispatch_target::{HandlerError, HandlerResult},
+		dispatch_target::HandlerResult,
 		state::LspServerState,
 		DispatchBuilder, RELATIVE_P4_SOURCEFILES_GLOBPATTERN,
 	},
@@ -68,7 +69,7 @@ async fn on_client_initialized(
 	};
 
 	if let Err(_) = state.request_manager.send::<RegisterCapability>(registration_params).await {
-		return Err(HandlerError::new("Error registering dynamic capability for 'workspace/didChangeWatchedFiles'."));
+		error!("Error registering dynamic capability for 'workspace/didChangeWatchedFiles'.");
 	}
 
 	state.workspaces().index(state.progress_manager()).await; // Index the workspace folders.
-- 
2.43.0


From 00a9497c9c6f67039b6be7a6ff74e497d4d92897 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 31/42] fix: a client that refuses a progress token does not
 panic the server

---
 crates/analyzer-host/src/lsp/workspace.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index ec76687..2b3b5ef 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -104,15 +104,20 @@ impl WorkspaceManager {
 			return; // Do nothing if there are no workspace folders.
 		}
 
-		let progress = progress.begin("Indexing").await.unwrap();
+		// Progress is informational only. Index the workspaces even if the client doesn't accept it.
+		let progress = progress.begin("Indexing").await.ok();
 
 		for (_, workspace) in (&self.workspaces).into_iter() {
-			progress.report(&format!("{}", workspace)).await.unwrap();
+			if let Some(progress) = &progress {
+				let _ = progress.report(&format!("{}", workspace)).await;
+			}
 
 			workspace.index().await;
 		}
 
-		progress.end(None).await.unwrap();
+		if let Some(progress) = &progress {
+			let _ = progress.end(None).await;
+		}
 	}
 }
 
-- 
2.43.0


From a28efcdf5d5680fdbb59e742091cb311b0100489 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 32/42] fix: a background load that fails after its file was
 opened in the IDE is ignored

---
 crates/analyzer-host/src/lsp_impl/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9773f33..5806e14 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -223,6 +223,7 @@ impl State {
 
 								file.set_parsed_unit(file_id, None);
 							}
+							None if file.is_open_in_ide() => {} // The IDE is now the source of truth for this file.
 							None => file.set_index_error(IndexError::NotFound), // The file was not found
 						}
 
-- 
2.43.0


From 7c3e94843d6769c71f71c297b310fdd7c9804f0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 33/42] fix: a file that could not be loaded becomes available
 once it is created

---
 .../src/lsp_impl/active_initialized.rs        | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 66eb453..5aab1a7 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -22,6 +22,7 @@ use crate::{
 	lsp::{
 		dispatch_target::{HandlerError, HandlerResult},
 		state::LspServerState,
+		workspace::IndexError,
 		DispatchBuilder,
 	},
 };
@@ -239,15 +240,25 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	match file.get_parsed_unit().await {
-		Ok(file_id) => {
-			let lock = state.write().await;
-			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
-			lock.analyzer.unwrap().update(file_id, &content);
+	// Wait for any background load of the file. Whatever its outcome, the file system now has newer content.
+	let _ = file.get_parsed_unit().await;
+
+	let lock = state.write().await;
+	let content = lock.file_system.file_contents(uri.clone()).await;
+	let mut analyzer = lock.analyzer.unwrap();
+
+	match content {
+		Some(content) => {
+			let file_id = analyzer.file_id(uri.as_str());
+
+			analyzer.update(file_id, &content);
+			file.set_parsed_unit(file_id, None);
 			info!("{} file updated from file system", uri.path());
 		}
-		Err(err) => {
-			error!(uri = uri.as_str(), "Could not query completions. Index error: {}", err);
+		None => {
+			analyzer.delete(uri.as_str());
+			file.set_index_error(IndexError::NotFound);
+			error!(uri = uri.as_str(), "Could not load the contents of a created or changed file.");
 		}
 	}
 }
-- 
2.43.0


From 748f7ddaca3e2b59687b7962506792fab19da58c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 34/42] fix: an unsupported type of file change does not panic
 the server

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 5aab1a7..a992916 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -286,7 +286,7 @@ async fn on_watched_file_change(
 			FileChangeType::CREATED => created_file(&event.uri, &state).await,
 			FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same
 			FileChangeType::DELETED => deleted_file(&event.uri, &state).await,
-			_ => panic!("Type not supported in 1.17 specification"),
+			_ => error!(uri = event.uri.as_str(), "Unsupported type of watched file change: {:?}", event.typ),
 		}
 	}
 
-- 
2.43.0


From cc4527737408c3212c6a0fdced19da066328ffe7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 35/42] fix: saving a document processes the diagnostics of the
 saved text

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a992916..60396b9 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -214,10 +214,10 @@ async fn on_text_document_did_save(
 
 		info!("Syncing buffer on save.");
 		let file_id = analyzer.file_id(params.text_document.uri.as_str());
-		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
-		// TODO: report diagnostics, and process *after* the update below!
 		analyzer.update(file_id, &text);
 		file.open_or_update(file_id);
+		// TODO: report diagnostics
+		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
 	}
 
 	Ok(())
-- 
2.43.0


From a00c4531187572e6db2a457d16ce38d479395d17 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:25 +0000
Subject: [PATCH 36/42] fix: a file belongs to the innermost workspace folder
 that contains it, or to none

---
 crates/analyzer-host/src/lsp/workspace.rs | 45 +++++++++++++----------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 2b3b5ef..6cb996d 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -15,7 +15,7 @@ use analyzer_abstractions::{
 	fs::AnyEnumerableFileSystem,
 	futures_extensions::FutureCompletionSource,
 	lsp_types::{TextDocumentIdentifier, Url, WorkspaceFolder},
-	tracing::{error, info},
+	tracing::info,
 };
 use thiserror::Error;
 
@@ -29,6 +29,9 @@ use super::{
 pub struct WorkspaceManager {
 	has_workspaces: bool,
 	pub workspaces: HashMap<Url, Arc<Workspace>>,
+
+	/// Holds the files that are not contained in any of the workspace folders. It is never indexed.
+	other_files: Arc<Workspace>,
 }
 
 impl WorkspaceManager {
@@ -51,10 +54,10 @@ impl WorkspaceManager {
 			)
 		}
 
-		let (has_workspaces, workspace_folders) = workspace_folders.map_or_else(
-			|| (false, vec![WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }]),
-			|folders| (true, folders),
-		);
+		let root_folder = WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() };
+		let (_, other_files) = to_workspace(file_system.clone(), root_folder.clone(), background_load.clone());
+		let (has_workspaces, workspace_folders) =
+			workspace_folders.map_or_else(|| (false, vec![root_folder]), |folders| (true, folders));
 
 		Self {
 			has_workspaces,
@@ -62,6 +65,7 @@ impl WorkspaceManager {
 				.into_iter()
 				.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
 				.collect(),
+			other_files,
 		}
 	}
 
@@ -71,29 +75,32 @@ impl WorkspaceManager {
 	/// Retrieves a file from a workspace.
 	///
 	/// [`WorkspaceManager::get_file`] will always return a [`File`] for `uri`. It does this because requests for
-	/// files may be made in contexts in which no workspace folders were opened. If this is the case, then the file will
-	/// be retrieved relative to the 'catch-all' workspace which is not indexed.
+	/// files may be made in contexts in which no workspace folders were opened, or for files outside of them. If this
+	/// is the case, then the file will be retrieved relative to the 'catch-all' workspace which is not indexed.
+	///
+	/// If several workspace folders contain the file, then it belongs to the innermost of them.
 	///
 	/// The overall state of the file can be determined from its [`File::get_parsed_unit`] method which will
 	/// inform its final state.
 	pub fn get_file(&self, uri: Url) -> Arc<File> {
 		fn is_descendant_path(base: &Url, target: &Url) -> bool {
-			if let Some(relative) = base.make_relative(target) {
-				return !relative.starts_with("..");
+			if base.scheme() != target.scheme() || base.authority() != target.authority() {
+				return false;
 			}
 
-			false
-		}
-
-		// If not initialized with any workspace folders, then the path should always be a descendant of the
-		// 'catch-all' workspace.
-		match (&self.workspaces).into_iter().find(|(workspace_uri, _)| is_descendant_path(&workspace_uri, &uri)) {
-			Some((_, workspace)) => workspace.get_file(uri),
-			None => {
-				error!(file_uri = uri.as_str(), "Failed to locate a workspace for a given file.");
-				unreachable!("failed to locate a workspace");
+			// Compare whole path segments, with or without a trailing separator on the base.
+			match target.path().strip_prefix(base.path().trim_end_matches('/')) {
+				Some(relative) => relative.starts_with('/'),
+				None => false,
 			}
 		}
+
+		(&self.workspaces)
+			.into_iter()
+			.filter(|(workspace_uri, _)| is_descendant_path(workspace_uri, &uri))
+			.max_by_key(|(workspace_uri, _)| workspace_uri.path().trim_end_matches('/').len())
+			.map_or(&self.other_files, |(_, workspace)| workspace)
+			.get_file(uri)
 	}
 
 	/// Asynchronously indexes the contents of each [`Workspace`].
-- 
2.43.0


From 8b7650c196b8e8e1b2e718d7da90e98d4a29c47c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:25 +0000
Subject: [PATCH 37/42] fix: indexing a workspace keeps the files that are
 already known to it

---
 crates/analyzer-host/src/lsp/workspace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 6cb996d..173ef43 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -189,7 +189,10 @@ impl Workspace {
 			let mut files = workspace.files.write().unwrap();
 
 			for document_identifier in document_identifiers.into_iter() {
-				files.insert(document_identifier.uri.clone(), Arc::new(File::new(document_identifier.clone())));
+				// The file may already be known, and even open (i.e., when included by the file of another workspace).
+				files
+					.entry(document_identifier.uri.clone())
+					.or_insert_with(|| Arc::new(File::new(document_identifier.clone())));
 
 				// Background load the file now that its known to the Workspace.
 				workspace.background_load.load(document_identifier.uri.clone());
-- 
2.43.0


From abd926f8dd608ea5a31d13011a79eddc21a96db9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 38/42] fix: a document that is closed is loaded from the file
 system again

---
 crates/analyzer-host/src/lsp/workspace.rs               | 2 ++
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 173ef43..7c2eedc 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -288,10 +288,12 @@ impl File {
 		self.set_parsed_unit(parsed_unit, Some(state)); // Use the writable state that we already have.
 	}
 
+	/// Marks the current file as no longer being open. Its parsed unit will be pending until the file is loaded again.
 	pub fn close(&self) {
 		let mut state = self.state.try_write().unwrap();
 
 		state.is_open_in_ide = false;
+		state.parsed_unit = FutureCompletionSource::new();
 	}
 
 	pub(crate) fn set_parsed_unit(
diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 60396b9..082fd45 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -20,6 +20,7 @@ use analyzer_abstractions::{
 use crate::{
 	fsm::LspServerStateDispatcher,
 	lsp::{
+		analyzer::BackgroundLoad,
 		dispatch_target::{HandlerError, HandlerResult},
 		state::LspServerState,
 		workspace::IndexError,
@@ -198,6 +199,10 @@ async fn on_text_document_did_close(
 
 	analyzer.delete(params.text_document.uri.as_str());
 	file.close();
+	drop(analyzer);
+
+	// The file system is the source of truth for this file again.
+	state.analyzer.load(params.text_document.uri);
 
 	Ok(())
 }
-- 
2.43.0


From e11d887442a36031cce59de381bef30c753a7038 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:01:54 +0000
Subject: [PATCH 39/42] verif: hooks for the model checking harness (cfg verif)

---
 crates/analyzer-host/src/lib.rs                     |  2 ++
 .../src/lsp_impl/active_initialized.rs              |  2 +-
 crates/analyzer-host/src/verif.rs                   | 13 +++++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)
 create mode 100644 crates/analyzer-host/src/verif.rs

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index d90e128..43aa0eb 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -4,6 +4,8 @@ pub mod json_rpc;
 pub mod lsp;
 mod lsp_impl;
 pub mod tracing;
+#[cfg(verif)]
+pub mod verif;
 
 use analyzer_abstractions::{
 	fs::AnyEnumerableFileSystem, futures::future::join4 as join_all, futures_extensions::async_extensions::AsyncPool,
diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 082fd45..c837041 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -301,7 +301,7 @@ async fn on_watched_file_change(
 /// Responds to an 'exit' notification from the LSP client.
 async fn on_exit(_: LspServerState, _: (), _: Arc<AsyncRwLock<State>>) -> HandlerResult<()> { Ok(()) }
 
-fn process_diagnostics(
+pub(crate) fn process_diagnostics(
 	analyzer: &analyzer_core::Analyzer,
 	file_id: FileId,
 	input: &str,
diff --git a/crates/analyzer-host/src/verif.rs b/crates/analyzer-host/src/verif.rs
new file mode 100644
index 0000000..16941a1
--- /dev/null
+++ b/crates/analyzer-host/src/verif.rs
@@ -0,0 +1,13 @@
+//! Access to private items for the model checking harness. Only compiled with `--cfg verif`.
+pub use crate::lsp::{
+	analyzer::{AnyBackgroundLoad, BackgroundLoad},
+	request::RequestManager,
+	LspProtocolError,
+};
+use analyzer_abstractions::lsp_types::Diagnostic;
+use analyzer_core::{base_abstractions::FileId, Analyzer};
+
+/// The diagnostics that the server computes for a document.
+pub fn diagnostics(analyzer: &Analyzer, file_id: FileId, input: &str) -> Vec<Diagnostic> {
+	crate::lsp_impl::active_initialized::process_diagnostics(analyzer, file_id, input)
+}
-- 
2.43.0


From 1bb436eecce210dbad43c8fcd5b790779392a48f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:41:06 +0000
Subject: [PATCH 40/42] fix: a canceled host does not wait for the message that
 is being processed

---
 crates/analyzer-host/src/lib.rs | 41 ++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 43aa0eb..ee88098 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -8,7 +8,9 @@ pub mod tracing;
 pub mod verif;
 
 use analyzer_abstractions::{
-	fs::AnyEnumerableFileSystem, futures::future::join4 as join_all, futures_extensions::async_extensions::AsyncPool,
+	fs::AnyEnumerableFileSystem,
+	futures::future::{join3 as join_all, try_join},
+	futures_extensions::async_extensions::AsyncPool,
 	tracing::*,
 };
 use async_channel::{Receiver, Sender};
@@ -70,25 +72,36 @@ impl AnalyzerHost {
 			file_system.clone(),
 		));
 
+		let process_messages = async {
+			// Once canceled, don't wait for a message that is still being processed. It may depend on background work
+			// that is no longer executed.
+			let result = try_join(
+				self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone()),
+				self.run_protocol_machine(
+					request_manager.clone(),
+					file_system,
+					requests_receiver.clone(),
+					cancel_token.clone(),
+				),
+			)
+			.await;
+
+			self.sender.close();
+			self.receiver.close();
+			responses_sender.close();
+			AsyncPool::stop();
+
+			result
+		};
+
 		match join_all(
-			self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone()),
-			self.run_protocol_machine(
-				request_manager.clone(),
-				file_system,
-				requests_receiver.clone(),
-				cancel_token.clone(),
-			),
+			process_messages,
 			request_manager.start(cancel_token.clone()),
 			AsyncPool::start(cancel_token.clone()),
 		)
 		.await
 		{
-			(Ok(_), Ok(_), Ok(_), Ok(_)) => {
-				self.sender.close();
-				self.receiver.close();
-
-				Ok(())
-			}
+			(Ok(_), Ok(_), Ok(_)) => Ok(()),
 			_ => Err(OperationCanceled),
 		}
 	}
-- 
2.43.0


From 635e782b1267e07fb406a9ac3632c57700e473f8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:19:26 +0000
Subject: [PATCH 41/42] fix: the native file system handles any file and folder
 name and any URI

---
 crates/p4-analyzer/src/native_fs.rs | 71 +++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index e63d65e..54c4234 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -4,7 +4,11 @@ pub mod native_fs {
 		lsp_types::{TextDocumentIdentifier, Url},
 		BoxFuture,
 	};
-	use glob::glob;
+	use glob::{MatchOptions, Pattern};
+	use std::{
+		fs,
+		path::{Path, PathBuf},
+	};
 
 	pub struct NativeFs {}
 
@@ -20,22 +24,53 @@ pub mod native_fs {
 			file_pattern: String,
 		) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
 			async fn enumerate_folder(folder_uri: Url, file_pattern: String) -> Vec<TextDocumentIdentifier> {
-				let mut folder_uri = folder_uri.clone();
-				folder_uri.path_segments_mut().unwrap().push(&file_pattern);
-
-				let glob_pattern = folder_uri.to_file_path().unwrap();
-				let glob_pattern = glob_pattern.to_str().unwrap();
-
-				let mut output = Vec::new();
+				let (folder, pattern) = match (folder_uri.to_file_path(), Pattern::new(&file_pattern)) {
+					(Ok(folder), Ok(pattern)) => (folder, pattern),
+					_ => return Vec::new(), // Not a local folder.
+				};
+				let options = MatchOptions { require_literal_separator: true, ..MatchOptions::new() };
+				let mut files = Vec::new();
+
+				list_files(&folder, &mut Vec::new(), &mut files);
+
+				// Only the path relative to the folder is matched since that of the folder is not a pattern.
+				files
+					.into_iter()
+					.filter(|path| {
+						let relative_path = path.strip_prefix(&folder).unwrap_or(path);
+
+						pattern.matches_with(&relative_path.to_string_lossy(), options)
+					})
+					.filter_map(|path| Url::from_file_path(path).ok())
+					.map(|uri| TextDocumentIdentifier { uri })
+					.collect()
+			}
 
-				for files in glob(glob_pattern).expect("Failed to read glob pattern") {
-					match files {
-						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
-						Err(e) => println!("{:?}", e),
+			/// Appends the files at any depth of a folder, in the order of their names.
+			///
+			/// `ancestors` are the folders that are being listed, so that a symbolic link to one of them is not followed.
+			fn list_files(folder: &Path, ancestors: &mut Vec<PathBuf>, files: &mut Vec<PathBuf>) {
+				let canonical_folder = match fs::canonicalize(folder) {
+					Ok(path) if !ancestors.contains(&path) => path,
+					_ => return,
+				};
+				let mut entries: Vec<PathBuf> = match fs::read_dir(folder) {
+					Ok(entries) => entries.filter_map(|entry| entry.ok()).map(|entry| entry.path()).collect(),
+					Err(_) => return,
+				};
+
+				entries.sort();
+				ancestors.push(canonical_folder);
+
+				for entry in entries {
+					if entry.is_dir() {
+						list_files(&entry, ancestors, files);
+					} else if entry.is_file() {
+						files.push(entry);
 					}
 				}
 
-				output
+				ancestors.pop();
 			}
 
 			Box::pin(enumerate_folder(folder_uri, file_pattern))
@@ -43,14 +78,10 @@ pub mod native_fs {
 
 		fn file_contents<'a>(&'a self, file_uri: Url) -> BoxFuture<'a, Option<String>> {
 			async fn file_contents(file_uri: Url) -> Option<String> {
-				let path = file_uri.to_file_path().unwrap();
-
-				let data = tokio::fs::read(path).await;
+				let path = file_uri.to_file_path().ok()?; // Not a local file.
+				let data = tokio::fs::read(path).await.ok()?;
 
-				match data {
-					Ok(data) => Some(String::from_utf8(data).unwrap()),
-					Err(_) => None,
-				}
+				String::from_utf8(data).ok()
 			}
 
 			Box::pin(file_contents(file_uri))
-- 
2.43.0


From 0769c3ccf8a86b078f5652ebc652ba701c8c2f65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 42/42] fix: the Node adapter forwards every message of a chunk
 and keeps the bytes that follow

---
 packages/p4-analyzer/src/server/index.ts | 39 ++++++++++++++++--------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index 8708962..c1c1f0d 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -77,32 +77,45 @@ export default class {
 			this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES * (Math.floor(chunk.byteLength / BUFFER_CHUNK_SIZEBYTES) + 1))]);
 		}
 
-		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset, chunk.byteOffset, chunk.byteLength);
+		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
-		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
+		// The received bytes may complete any number of messages. Pull each one out and queue it for processing.
+		let requestMessageBuffer: Buffer | null;
 
-		if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
+		while ((requestMessageBuffer = this.takeRequestMessageBuffer()) !== null) {
+			this.requestMessageBufferQueue.push(requestMessageBuffer);
 
-		const headers = this.requestBuffer.subarray(0, splitOffset).toString();
+			setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+		}
+	}
+
+	/**
+	 * Pulls the next message out of the _running_ buffer, leaving any bytes that follow it in place.
+	 *
+	 * @returns A `Buffer` representing the message body, or `null` if it has not been fully received yet.
+	 */
+	private takeRequestMessageBuffer(): Buffer | null {
+		const received = this.requestBuffer.subarray(0, this.requestBufferOffset);
+		const splitOffset = received.indexOf(BODY_SPLIT_CHARS);
+
+		if (splitOffset < 0) return null; // Still reading the headers. Continue until we get them.
+
+		const headers = received.subarray(0, splitOffset).toString();
 		const contentLength = Number(CONTENTLENGTH_HEADER_EXP.exec(headers)?.groups["length"]);
 
 		if (isNaN(contentLength)) throw new Error("Received malformed message. 'Content-Length' header is missing.");
 
 		const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength;
 
-		if (this.requestBufferOffset < minRequiredOffset) return; // Still reading the expected body. Continue until we get it.
+		if (this.requestBufferOffset < minRequiredOffset) return null; // Still reading the expected body. Continue until we get it.
 
-		// We have now received at least one full message. Pull it out and reset the request buffer to continue reading
-		// the next one.
 		const requestMessageBuffer = Buffer.alloc(contentLength);
 
-		this.requestBuffer.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
-		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset);
-		this.requestBufferOffset = 0;
-
-		this.requestMessageBufferQueue.push(requestMessageBuffer);
+		received.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
+		received.copy(this.requestBuffer, 0, minRequiredOffset);
+		this.requestBufferOffset -= minRequiredOffset;
 
-		setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+		return requestMessageBuffer;
 	}
 
 	/**
-- 
2.43.0

