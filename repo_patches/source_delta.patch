From a967e54221bc0dd0726e1f3d782fdf754846cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:48 +0000
Subject: [PATCH 01/32] fix: iterator: keep the data read after an over-limit
 line

The chunk was not truncated to the size read, so the zero padding was scanned
as content; and when the chunk was full, everything after the separator was
discarded. The padding was also left in the buffer after an empty or failed read.
---
 iterator/src/iterator.rs | 53 +++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index cf9fe95..be8ac75 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -173,10 +173,16 @@ impl<R: Read> BytesLines<R> {
             }
 
             // We reached the end of the reader, this is the end.
-            Ok(_) => None,
+            Ok(_) => {
+                self.buf.clear();
+                None
+            }
 
             // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                self.buf.truncate(pos);
+                Some(Err(e))
+            }
         }
     }
 
@@ -272,31 +278,34 @@ impl<R: Read> BytesLines<R> {
         self.buf.resize(self.chunk_size, 0);
         match self.reader.read(&mut self.buf) {
             // We read some data.
-            Ok(n) if n > 0 => match self.find_next_line() {
-                // the long line terminated at the end of the buffer.
-                Some(_) if n == self.chunk_size => {
-                    self.buf.clear();
-                    self.read_slice()
-                }
-
-                // the next line is already in the buffer
-                Some((pos, sep)) => {
-                    self.buf.advance(pos + sep.len());
-                    self.get_slice()
-                }
-
-                // No line terminator found, keep on draining.
-                None => {
-                    self.buf.clear();
-                    self.drop_until_next_line()
+            Ok(n) if n > 0 => {
+                self.buf.truncate(n);
+                match self.find_next_line() {
+                    // the next line is already in the buffer
+                    Some((pos, sep)) => {
+                        self.buf.advance(pos + sep.len());
+                        self.get_slice()
+                    }
+
+                    // No line terminator found, keep on draining.
+                    None => {
+                        self.buf.clear();
+                        self.drop_until_next_line()
+                    }
                 }
-            },
+            }
 
             // We reached the end of the reader, this is the end.
-            Ok(_) => None,
+            Ok(_) => {
+                self.buf.clear();
+                None
+            }
 
             // There was a reading error, we return it.
-            Err(e) => Some(Err(e)),
+            Err(e) => {
+                self.buf.clear();
+                Some(Err(e))
+            }
         }
     }
 }
-- 
2.43.0


From 1b26baf8e321d1a2dc8971d23329e6ed51452ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:00 +0000
Subject: [PATCH 02/32] fix: iterator: an escape split by the end of a dropped
 chunk panics

The separator position of a literal \\n was computed as pos - 1, which underflows
when the backslash was the last byte of a dropped chunk. Return the end
of the separator instead.
---
 iterator/src/iterator.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index be8ac75..a9348fa 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -198,10 +198,11 @@ impl<R: Read> BytesLines<R> {
             }
 
             // Step I: The current line is over the limit, we need to discard it.
-            Some((pos, sep)) if pos > self.max_line_length => {
+            // The limit is on the bytes before the last separator character, as in Step J.
+            Some((end, _)) if end > self.max_line_length + 1 => {
                 self.prev_pos = 0;
                 // The next line is already in the buffer, so we can just advance.
-                self.buf.advance(pos + sep.len());
+                self.buf.advance(end);
                 self.get_slice()
             }
 
@@ -214,10 +215,10 @@ impl<R: Read> BytesLines<R> {
             }
 
             // Step B: We found the end of the line, we can return it now.
-            Some((pos, sep)) => {
+            Some((end, sep)) => {
                 self.prev_pos = 0;
                 // Step C: split_to() creates a new zero copy reference to the buffer.
-                let res = self.buf.split_to(pos).freeze();
+                let res = self.buf.split_to(end - sep.len()).freeze();
                 // Step D: advance the starting position
                 self.buf.advance(sep.len());
                 if res.is_empty() {
@@ -229,7 +230,7 @@ impl<R: Read> BytesLines<R> {
         }
     }
 
-    // Find the next line position and update the line count
+    // Find the end of the next separator and update the line count
     fn find_next_line(&mut self) -> Option<(usize, Sep)> {
         let slice = self.buf.as_ref();
         for (pos, c) in slice[self.prev_pos..].iter().enumerate() {
@@ -255,11 +256,7 @@ impl<R: Read> BytesLines<R> {
             if let Some(sep) = sep {
                 // We found a separator.
                 self.update_line_counter(State::Scanning(sep));
-                let line_separator_pos = match sep {
-                    Sep::SubLine => self.prev_pos + pos - 1,
-                    _ => self.prev_pos + pos,
-                };
-                return Some((line_separator_pos, sep));
+                return Some((self.prev_pos + pos + 1, sep));
             }
         }
         None
@@ -282,8 +279,8 @@ impl<R: Read> BytesLines<R> {
                 self.buf.truncate(n);
                 match self.find_next_line() {
                     // the next line is already in the buffer
-                    Some((pos, sep)) => {
-                        self.buf.advance(pos + sep.len());
+                    Some((end, _)) => {
+                        self.buf.advance(end);
                         self.get_slice()
                     }
 
-- 
2.43.0


From 2a9dc4cc180515a0732874cf8fe3018f1203f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:02 +0000
Subject: [PATCH 03/32] fix: iterator: a line ending with a backslash swallows
 its line return

---
 iterator/src/iterator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index a9348fa..091c837 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -237,10 +237,11 @@ impl<R: Read> BytesLines<R> {
             let c = *c as char;
             let sep = if self.escaped {
                 self.escaped = false;
-                if c == 'n' {
-                    Some(Sep::SubLine)
-                } else {
-                    None
+                match c {
+                    'n' => Some(Sep::SubLine),
+                    // A line can end with a backslash.
+                    '\n' => Some(Sep::NewLine),
+                    _ => None,
                 }
             } else if c == '\\' {
                 self.escaped = true;
-- 
2.43.0


From e86d756bf7fcf22a05ddcc29f1e209e2e761eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:33 +0000
Subject: [PATCH 04/32] fix: iterator: stack overflow on consecutive empty or
 over-limit lines

Skipping a line was a recursive call, iterate instead.
---
 iterator/src/iterator.rs | 60 ++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 091c837..8874b75 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -59,6 +59,18 @@ enum State {
     Scanning(Sep),
 }
 
+// The next thing to do to produce an item, so that consecutive empty or dropped lines do not grow the stack.
+enum Step {
+    // Call get_slice
+    Scan,
+    // Call read_slice
+    Read,
+    // Call drop_until_next_line
+    Drop,
+    // The item is ready
+    Done(Option<Result<LogLine>>),
+}
+
 /// The BytesLines struct holds a single buffer to store the read data and it yields immutable memory slice.
 ///
 // Here is the main sequence diagram:
@@ -118,10 +130,18 @@ impl<R: Read> Iterator for BytesLines<R> {
     type Item = Result<LogLine>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::EoF => None,
-            State::Scanning(_) if self.buf.is_empty() => self.read_slice(),
-            State::Scanning(_) => self.get_slice(),
+        let mut step = match self.state {
+            State::EoF => Step::Done(None),
+            State::Scanning(_) if self.buf.is_empty() => Step::Read,
+            State::Scanning(_) => Step::Scan,
+        };
+        loop {
+            step = match step {
+                Step::Scan => self.get_slice(),
+                Step::Read => self.read_slice(),
+                Step::Drop => self.drop_until_next_line(),
+                Step::Done(item) => return item,
+            }
         }
     }
 }
@@ -155,7 +175,7 @@ impl<R: Read> BytesLines<R> {
     }
 
     // Read a new chunk and call get_slice
-    fn read_slice(&mut self) -> Option<Result<LogLine>> {
+    fn read_slice(&mut self) -> Step {
         let pos = self.buf.len();
         // When pos is at 0, we are at Step A, otherwise this is Step G
         self.buf.resize(pos + self.chunk_size, 0);
@@ -163,38 +183,38 @@ impl<R: Read> BytesLines<R> {
             // We read some data.
             Ok(n) if n > 0 => {
                 self.buf.truncate(pos + n);
-                self.get_slice()
+                Step::Scan
             }
 
             // Step H: We reached the end of the reader, but we have left-overs.
             Ok(_) if pos > 0 => {
                 self.update_line_counter(State::EoF);
-                Some(Ok((self.buf.split_to(pos).freeze(), self.line_count)))
+                Step::Done(Some(Ok((self.buf.split_to(pos).freeze(), self.line_count))))
             }
 
             // We reached the end of the reader, this is the end.
             Ok(_) => {
                 self.buf.clear();
-                None
+                Step::Done(None)
             }
 
             // There was a reading error, we return it.
             Err(e) => {
                 self.buf.truncate(pos);
-                Some(Err(e))
+                Step::Done(Some(Err(e)))
             }
         }
     }
 
     // Find the next line in the buffer
-    fn get_slice(&mut self) -> Option<Result<LogLine>> {
+    fn get_slice(&mut self) -> Step {
         match self.find_next_line() {
             // Step J: The current line is over the limit, and we don't know where it ends.
             None if self.buf.len() > self.max_line_length => {
                 self.prev_pos = 0;
                 self.buf.clear();
                 self.buf.reserve(self.chunk_size);
-                self.drop_until_next_line()
+                Step::Drop
             }
 
             // Step I: The current line is over the limit, we need to discard it.
@@ -203,7 +223,7 @@ impl<R: Read> BytesLines<R> {
                 self.prev_pos = 0;
                 // The next line is already in the buffer, so we can just advance.
                 self.buf.advance(end);
-                self.get_slice()
+                Step::Scan
             }
 
             // Step E: We haven't found the end of the line, we need more data.
@@ -211,7 +231,7 @@ impl<R: Read> BytesLines<R> {
                 // Step F: reserve() will attempt to reclaim space in the buffer.
                 self.prev_pos = self.buf.len();
                 self.buf.reserve(self.chunk_size);
-                self.read_slice()
+                Step::Read
             }
 
             // Step B: We found the end of the line, we can return it now.
@@ -222,9 +242,9 @@ impl<R: Read> BytesLines<R> {
                 // Step D: advance the starting position
                 self.buf.advance(sep.len());
                 if res.is_empty() {
-                    self.get_slice()
+                    Step::Scan
                 } else {
-                    Some(Ok((res, self.line_count)))
+                    Step::Done(Some(Ok((res, self.line_count))))
                 }
             }
         }
@@ -272,7 +292,7 @@ impl<R: Read> BytesLines<R> {
     }
 
     // Drop until we find the next line
-    fn drop_until_next_line(&mut self) -> Option<Result<LogLine>> {
+    fn drop_until_next_line(&mut self) -> Step {
         self.buf.resize(self.chunk_size, 0);
         match self.reader.read(&mut self.buf) {
             // We read some data.
@@ -282,13 +302,13 @@ impl<R: Read> BytesLines<R> {
                     // the next line is already in the buffer
                     Some((end, _)) => {
                         self.buf.advance(end);
-                        self.get_slice()
+                        Step::Scan
                     }
 
                     // No line terminator found, keep on draining.
                     None => {
                         self.buf.clear();
-                        self.drop_until_next_line()
+                        Step::Drop
                     }
                 }
             }
@@ -296,13 +316,13 @@ impl<R: Read> BytesLines<R> {
             // We reached the end of the reader, this is the end.
             Ok(_) => {
                 self.buf.clear();
-                None
+                Step::Done(None)
             }
 
             // There was a reading error, we return it.
             Err(e) => {
                 self.buf.clear();
-                Some(Err(e))
+                Step::Done(Some(Err(e)))
             }
         }
     }
-- 
2.43.0


From 62a539048561868902a26db388e636555c24324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:35 +0000
Subject: [PATCH 05/32] fix: iterator: a read error resumes an over-limit line
 in the middle

---
 iterator/src/iterator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iterator/src/iterator.rs b/iterator/src/iterator.rs
index 8874b75..e0058cb 100644
--- a/iterator/src/iterator.rs
+++ b/iterator/src/iterator.rs
@@ -117,6 +117,8 @@ pub struct BytesLines<R: Read> {
     split_json: Option<JsonState>,
     prev_pos: usize,
     escaped: bool,
+    // The current line is over the limit, its end hasn't been read yet.
+    dropping: bool,
 }
 
 struct JsonState {
@@ -132,6 +134,7 @@ impl<R: Read> Iterator for BytesLines<R> {
     fn next(&mut self) -> Option<Self::Item> {
         let mut step = match self.state {
             State::EoF => Step::Done(None),
+            State::Scanning(_) if self.dropping => Step::Drop,
             State::Scanning(_) if self.buf.is_empty() => Step::Read,
             State::Scanning(_) => Step::Scan,
         };
@@ -170,6 +173,7 @@ impl<R: Read> BytesLines<R> {
             line_count: 0,
             prev_pos: 0,
             escaped: false,
+            dropping: false,
             split_json,
         }
     }
@@ -214,6 +218,7 @@ impl<R: Read> BytesLines<R> {
                 self.prev_pos = 0;
                 self.buf.clear();
                 self.buf.reserve(self.chunk_size);
+                self.dropping = true;
                 Step::Drop
             }
 
@@ -302,6 +307,7 @@ impl<R: Read> BytesLines<R> {
                     // the next line is already in the buffer
                     Some((end, _)) => {
                         self.buf.advance(end);
+                        self.dropping = false;
                         Step::Scan
                     }
 
-- 
2.43.0


From cfd0063a662600a0e851b948feb1ed0a157137bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:24 +0000
Subject: [PATCH 06/32] fix: process: the after context of a chunk is repeated
 in the next before context

---
 model/src/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/src/process.rs b/model/src/process.rs
index a36074e..17b107e 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -271,6 +271,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         if let Some(anomaly) = &mut self.current_anomaly {
             if last_context_pos < self.buffer.len() {
                 for ((bytes, _), _) in &self.buffer[last_context_pos..] {
+                    last_context_pos += 1;
                     let raw_str = logreduce_iterator::clone_bytes_to_string(bytes).unwrap();
                     anomaly.after.push(raw_str);
                     if anomaly.after.len() >= CTX_DISTANCE {
-- 
2.43.0


From 9ba54fa4dde5652d2a8fa4d4674cb196f068860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:26 +0000
Subject: [PATCH 07/32] fix: process: the last after context is lost when it
 only has known lines

---
 model/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/process.rs b/model/src/process.rs
index 17b107e..5f8c0af 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -182,7 +182,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
         }
 
         // We reached the end of the file and the last chunk is not completed
-        if !self.targets.is_empty() {
+        if !self.buffer.is_empty() {
             self.do_search_anomalies();
         }
         if let Some(anomaly) = &self.current_anomaly {
-- 
2.43.0


From 4dd19f3d39bd2bfd72c74df19fed933d4a447998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:29 +0000
Subject: [PATCH 08/32] fix: process: resume after our own output when
 anomalies were found before

---
 model/src/process.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/model/src/process.rs b/model/src/process.rs
index 5f8c0af..57d8561 100644
--- a/model/src/process.rs
+++ b/model/src/process.rs
@@ -95,6 +95,8 @@ pub struct ChunkProcessor<'a, R: Read> {
     skip_lines: &'a mut HashSet<String>,
     /// The current line coordinate.
     coord: usize,
+    /// We found our own output, the rest of the source is ignored.
+    stopped: bool,
     /// Total lines count
     pub line_count: usize,
     /// Total bytes count
@@ -135,12 +137,16 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
             anomalies: VecDeque::new(),
             skip_lines,
             coord: 0,
+            stopped: false,
             line_count: 0,
             byte_count: 0,
         }
     }
 
     fn read_anomalies(&mut self) -> Result<()> {
+        if self.stopped {
+            return Ok(());
+        }
         while let Some(line) = self.reader.next() {
             let line = line?;
             let raw_str = std::str::from_utf8(&line.0[..])
@@ -151,6 +157,7 @@ impl<'a, R: Read> ChunkProcessor<'a, R> {
 
             // Special check to break when we are processing ourself
             if raw_str.contains("TASK [log-classify") {
+                self.stopped = true;
                 break;
             }
 
-- 
2.43.0


From fd2c5ea6997b1b54b7607727ea5279c5a157428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:50 +0000
Subject: [PATCH 09/32] fix: report: panic when the before context has sub
 lines of the first lines

---
 report/src/report.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index e9aa306..f29933d 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -347,7 +347,7 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
     let mut last_pos = None;
 
     for anomaly in anomalies {
-        let starting_pos = anomaly.anomaly.pos - 1 - anomaly.before.len();
+        let starting_pos = anomaly.anomaly.pos.saturating_sub(1 + anomaly.before.len());
         if let Some(last_pos) = last_pos {
             if last_pos != starting_pos {
                 loglines.hr().attr("class=\"ls\"");
-- 
2.43.0


From a12324e29f79a2e4228d45aa89e2db702d1569db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 10/32] fix: report: escape the log content

---
 report/src/report.rs | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/report/src/report.rs b/report/src/report.rs
index f29933d..7b6e31c 100644
--- a/report/src/report.rs
+++ b/report/src/report.rs
@@ -34,6 +34,22 @@ impl Html {
     }
 }
 
+// The html_builder doesn't escape the text and the attributes.
+fn escape(text: &str) -> String {
+    let mut result = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => result.push_str("&amp;"),
+            '<' => result.push_str("&lt;"),
+            '>' => result.push_str("&gt;"),
+            '"' => result.push_str("&quot;"),
+            '\'' => result.push_str("&#39;"),
+            c => result.push(c),
+        }
+    }
+    result
+}
+
 fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Result<()> {
     let mut div = parent
         .div()
@@ -47,14 +63,14 @@ fn table(parent: &mut Node, columns: Option<&[&str]>, rows: &[&[&str]]) -> Resul
         let mut thead = table.thead();
         let mut tr = thead.tr();
         for column in columns {
-            tr.th().write_str(column)?;
+            tr.th().write_str(&escape(column))?;
         }
     }
     let mut tbody = table.tbody();
     for row in rows.iter() {
         let mut tr = tbody.tr();
         for cell in row.iter() {
-            tr.td().write_str(cell)?;
+            tr.td().write_str(&escape(cell))?;
         }
     }
     Ok(())
@@ -69,7 +85,7 @@ fn add_head(parent: &mut Node, title: &str) -> Result<()> {
             .attr("crossorigin=\"anonymous\"");
     }
     let mut head = parent.head();
-    head.title().write_str(title)?;
+    head.title().write_str(&escape(title))?;
     head.meta().attr("charset='utf-8'");
     for (href, integrity) in STYLES {
         add_link(&mut head, href, integrity);
@@ -258,7 +274,7 @@ fn render_content_report(
                     let mut desc = pf_body.div().attr("class=\"list-view-pf-description\"");
                     desc.div()
                         .attr("class=\"list-group-item-heading\"")
-                        .write_str(log_report.source.get_relative())?;
+                        .write_str(&escape(log_report.source.get_relative()))?;
                 }
 
                 {
@@ -273,9 +289,9 @@ fn render_content_report(
                         .a()
                         .attr(&format!(
                             "href=\"{}\"",
-                            model_anchor(&log_report.index_name)
+                            escape(&model_anchor(&log_report.index_name))
                         ))
-                        .write_str(&format!("{}", log_report.index_name))?;
+                        .write_str(&escape(log_report.index_name.as_str()))?;
                     additional_item.write_str(" model")?;
                 }
 
@@ -286,7 +302,7 @@ fn render_content_report(
                     additional_item.span().attr("class=\"fa fa-external-link\"");
                     additional_item
                         .a()
-                        .attr(&format!("href=\"{}\"", log_report.source.as_str()))
+                        .attr(&format!("href=\"{}\"", escape(log_report.source.as_str())))
                         .write_str("file")?;
                 }
 
@@ -319,8 +335,8 @@ fn render_content_report(
             for source in index_report.sources.iter().take(3) {
                 ul.li()
                     .a()
-                    .attr(&format!("href=\"{}\"", source.as_str()))
-                    .write_str(source.as_str())?
+                    .attr(&format!("href=\"{}\"", escape(source.as_str())))
+                    .write_str(&escape(source.as_str()))?
             }
         }
 
@@ -338,7 +354,7 @@ fn render_context(loglines: &mut Node, pos: usize, xs: &[String]) -> Result<()>
     for (idx, line) in xs.iter().enumerate() {
         loglines
             .pre()
-            .write_str(&format!("   {:4} | {}", pos + 1 + idx, line))?;
+            .write_str(&format!("   {:4} | {}", pos + 1 + idx, escape(line)))?;
     }
     Ok(())
 }
@@ -363,7 +379,9 @@ fn render_lines(loglines: &mut Node, anomalies: &[logreduce_model::AnomalyContex
             .attr(&format!("style=\"color: #{:2X}0000\"", color))
             .write_str(&format!(
                 "{:02} {:4} | {}",
-                dist, anomaly.anomaly.pos, anomaly.anomaly.line
+                dist,
+                anomaly.anomaly.pos,
+                escape(&anomaly.anomaly.line)
             ))?;
 
         render_context(loglines, anomaly.anomaly.pos, &anomaly.after)?;
-- 
2.43.0


From a7b928227862af20afce79f2a27d71d2a7bf1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:54 +0000
Subject: [PATCH 11/32] fix: model: an unreadable source hides the next sources
 of its group

---
 model/src/model.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 5dc13c3..7629281 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -507,7 +507,6 @@ impl Model {
                             }
                             Err(err) => {
                                 read_errors.push((source.clone(), format!("{}", err)));
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From a68f5dbfe3af2379d75c70dda8afe3deda5b2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:56 +0000
Subject: [PATCH 12/32] fix: cli: an unreadable source hides the next sources

---
 cli/src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index cfeba4d..eeb6eb4 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -340,7 +340,6 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
                     }
                     Err(err) => {
                         println!("Could not read {}: {}", &source, err);
-                        break;
                     }
                 }
             }
-- 
2.43.0


From b4e8af13b6597ea140786f7b9b54dee48918375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:57 +0000
Subject: [PATCH 13/32] fix: cli: the line numbers of the context are off by
 one

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index eeb6eb4..1dcde73 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -279,7 +279,7 @@ fn process_live(output_mode: OutputMode, content: &Content, model: &Model) -> Re
     let print_context = |pos: usize, xs: &[String]| {
         xs.iter()
             .enumerate()
-            .for_each(|(idx, line)| println!("   {} | {}", pos + idx, line))
+            .for_each(|(idx, line)| println!("   {} | {}", pos + 1 + idx, line))
     };
 
     let mut progress_sep_shown = false;
-- 
2.43.0


From 020dd6da67298987cf9ac21c532eb95a51fa1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:00 +0000
Subject: [PATCH 14/32] fix: reader: compressed files are not decompressed

---
 model/src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 07ec6df..35e98b0 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -52,7 +52,7 @@ use DecompressReader::*;
 pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
-    Ok(if extension == ".gz" {
+    Ok(if extension == "gz" {
         Gz(GzDecoder::new(fp))
     } else {
         Flat(fp)
-- 
2.43.0


From cb7a9bbed154dd47a233dc87094de0ab8aaac23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:02 +0000
Subject: [PATCH 15/32] fix: model: panic when a source is not under its base
 url

---
 model/src/model.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7629281..c82eaa1 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -97,8 +97,10 @@ impl Source {
     }
     pub fn get_relative(&'_ self) -> &'_ str {
         match self {
-            Source::Local(base_len, path) => &path.to_str().unwrap_or("")[*base_len..],
-            Source::Remote(base_len, url) => &url.as_str()[*base_len..],
+            // The whole location is used when it is not under the base, e.g. an absolute link.
+            Source::Local(base_len, _) | Source::Remote(base_len, _) => {
+                self.as_str().get(*base_len..).unwrap_or(self.as_str())
+            }
         }
     }
 
-- 
2.43.0


From 3f1c1efd696767e5c8eaad37cf7b464df46ea964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:04 +0000
Subject: [PATCH 16/32] fix: zuul: panic when a baseline has no change

---
 model/src/zuul.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 5db1d76..7f65408 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -79,8 +79,8 @@ impl Build {
         }
         // Older builds are less valuable
         score -= elapsed_days(now, target.end_time.date_naive());
-        // Check the build has URLs
-        match target.log_url.is_some() && target.ref_url.is_some() {
+        // Check the build has URLs and a change
+        match target.log_url.is_some() && target.ref_url.is_some() && target.change.is_some() {
             true => Some(score),
             false => None,
         }
-- 
2.43.0


From 19929f8639a508ad8ec6642fe4fc3586742e77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:00 +0000
Subject: [PATCH 17/32] fix: model: panic when a url is shorter than 42
 characters

---
 model/src/urls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/src/urls.rs b/model/src/urls.rs
index c8558fa..9968cfc 100644
--- a/model/src/urls.rs
+++ b/model/src/urls.rs
@@ -32,7 +32,8 @@ impl Source {
         if prefix == 0 {
             crate::reader::from_url(url, url)
         } else {
-            crate::reader::from_url(&Url::parse(&url.as_str()[..42])?, url)
+            let base_len = prefix.min(url.as_str().len());
+            crate::reader::from_url(&Url::parse(&url.as_str()[..base_len])?, url)
         }
     }
 
-- 
2.43.0


From 1f98a3be41d15ad9dbe6de069f8283a11cdec917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:03 +0000
Subject: [PATCH 18/32] fix: zuul: panic when the target build has no log url,
 ref url or change

---
 model/src/zuul.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 7f65408..79413aa 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -107,7 +107,7 @@ impl Build {
         let samples = self.get_success_samples()?;
         let max_builds = 1;
         let now = Utc::now().date_naive();
-        Ok(samples
+        samples
             .into_iter()
             // Compute a score value
             .map(|build| (self.baseline_score(&build, &now), build))
@@ -122,7 +122,7 @@ impl Build {
             .take(max_builds)
             // Create the content data type
             .map(|(_score, build)| new_content(self.api.clone(), build))
-            .collect())
+            .collect()
     }
 
     pub fn sources_iter(&self) -> Box<dyn Iterator<Item = Result<Source>>> {
@@ -130,8 +130,8 @@ impl Build {
     }
 }
 
-fn new_content(api: Url, build: zuul_build::Build) -> Content {
-    Content::Zuul(Box::new(Build {
+fn new_content(api: Url, build: zuul_build::Build) -> Result<Content> {
+    Ok(Content::Zuul(Box::new(Build {
         api,
         uuid: build.uuid,
         job_name: build.job_name,
@@ -139,11 +139,11 @@ fn new_content(api: Url, build: zuul_build::Build) -> Content {
         branch: build.branch,
         result: build.result,
         pipeline: build.pipeline,
-        log_url: build.log_url.expect("Invalid build"),
-        ref_url: build.ref_url.expect("Invalid build"),
+        log_url: build.log_url.context("The build has no log url")?,
+        ref_url: build.ref_url.context("The build has no ref url")?,
         end_time: build.end_time,
-        change: build.change.expect("Invalid build"),
-    }))
+        change: build.change.context("The build has no change")?,
+    })))
 }
 
 fn get_build(api: &Url, uid: &str) -> Result<zuul_build::Build> {
@@ -216,7 +216,9 @@ fn get_zuul_api_url(url: &'_ Url) -> Option<Result<(Url, &'_ str)>> {
 impl Content {
     pub fn from_zuul_url(url: &Url) -> Option<Result<Content>> {
         get_zuul_api_url(url).map(|res| {
-            res.and_then(|(api, uid)| get_build(&api, uid).map(|build| new_content(api, build)))
+            res.and_then(|(api, uid)| {
+                get_build(&api, uid).and_then(|build| new_content(api, build))
+            })
         })
     }
 }
-- 
2.43.0


From 1475c8c2debbec6e3b736f2433cdf50844376311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:05 +0000
Subject: [PATCH 19/32] fix: reader: http error pages are processed as log
 content

---
 model/src/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index 35e98b0..ee38d78 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -29,7 +29,11 @@ mod remote {
     use super::*;
 
     pub fn get_url(url: &Url) -> Result<Response> {
-        CLIENT.get(url.clone()).send().context("Can't get url")
+        CLIENT
+            .get(url.clone())
+            .send()
+            .and_then(Response::error_for_status)
+            .context("Can't get url")
     }
 
     pub fn head(url: &Url) -> Result<bool> {
-- 
2.43.0


From af6b18bf8c0196e8b1fbd8934d868c6cbd2c2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 20/32] fix: httpdir: the last files may be missing from the
 walk

---
 httpdir/src/httpdir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index 5d4a447..c251a12 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -198,6 +198,8 @@ impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // This needs to be checked before polling, otherwise the last messages may be missed.
+        let done = self.is_done();
         match self.rx.try_recv() {
             // A new url was found, we return it.
             Ok(Some(r)) => Some(r),
@@ -206,7 +208,7 @@ impl Iterator for CrawlerIter {
             Ok(None) => self.next(),
 
             // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if self.is_done() => None,
+            Err(_) if done => None,
 
             // There was a panic
             Err(_) if self.workers.panic_count() > 0 => {
-- 
2.43.0


From 685cbf4d2c29118eb211963b420f4f6c3cba1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 21/32] fix: cache: a partially read content is served as
 complete

---
 cache/src/cache.rs | 52 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index 29cacf2..ab283c8 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -82,10 +82,18 @@ impl Cache {
 
     /// Add a file reader to the cache.
     pub fn remote_add<R: Read>(&self, base: &Url, path: &Url, obj: R) -> Result<CacheReader<R>> {
-        let fp = self.create(&filename::http(base, path))?;
+        let name = filename::http(base, path);
+        if let Some(buf) = self.get(&name) {
+            return Err(anyhow::anyhow!("Cache file already exist: {:?}", buf));
+        }
+        // The entry is only available after the remote has been fully read.
+        let part_name = format!("{}.{}.part", name, std::process::id());
+        let fp = self.create(&part_name)?;
         Ok(CacheReader {
             remote: obj,
-            local: GzEncoder::new(fp, flate2::Compression::fast()),
+            local: Some(GzEncoder::new(fp, flate2::Compression::fast())),
+            part: self.xdg.get_cache_file(part_name),
+            entry: self.xdg.get_cache_file(name),
         })
     }
 
@@ -140,7 +148,38 @@ impl Cache {
 /// A Reader object that saves remote data to a local compressed file.
 pub struct CacheReader<R: Read> {
     remote: R,
-    local: GzEncoder<File>,
+    // This is None when the entry is complete.
+    local: Option<GzEncoder<File>>,
+    part: std::path::PathBuf,
+    entry: std::path::PathBuf,
+}
+
+impl<R: Read> CacheReader<R> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<()> {
+        match self.local {
+            Some(ref mut local) => local.write_all(buf),
+            None => Ok(()),
+        }
+    }
+
+    fn complete(&mut self) -> std::io::Result<()> {
+        match self.local.take() {
+            Some(local) => {
+                local.finish()?;
+                std::fs::rename(&self.part, &self.entry)
+            }
+            None => Ok(()),
+        }
+    }
+}
+
+impl<R: Read> Drop for CacheReader<R> {
+    fn drop(&mut self) {
+        if self.local.take().is_some() {
+            // The content is not complete, discard it.
+            let _ = std::fs::remove_file(&self.part);
+        }
+    }
 }
 
 impl<R: Read> Read for CacheReader<R> {
@@ -148,11 +187,10 @@ impl<R: Read> Read for CacheReader<R> {
         // Read remote data.
         let remote_read = self.remote.read(buf);
         match remote_read {
+            // We reached the end of the remote.
+            Ok(0) if !buf.is_empty() => self.complete().map(|()| 0),
             // Write to the local file
-            Ok(remote_size) => self
-                .local
-                .write_all(&buf[..remote_size])
-                .map(|()| remote_size),
+            Ok(remote_size) => self.write(&buf[..remote_size]).map(|()| remote_size),
             Err(e) => Err(e),
         }
     }
-- 
2.43.0


From ed1c59840a740da462e2232d4eb486ebcc20e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:06 +0000
Subject: [PATCH 22/32] fix: httpdir: files with a one character name are not
 listed

---
 httpdir/src/httpdir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index c251a12..a9fe64e 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -259,7 +259,7 @@ pub fn http_list(client: &Client, url: Url) -> Result<Vec<Url>> {
 fn parse_index_of(base_url: Url, page: &str) -> Result<Vec<Url>> {
     // TODO check for title and support different types of indexes
     lazy_static! {
-        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]+)">"#).unwrap();
+        static ref RE: Regex = Regex::new(r#"<a href="([\\/a-zA-Z0-9][^"]*)">"#).unwrap();
     }
 
     RE.captures_iter(page)
-- 
2.43.0


From 2ae3240d3cbd7500ee21967019c4304477c1a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:08 +0000
Subject: [PATCH 23/32] fix: zuul: the api url is wrong when the address has a
 query or another /t/

---
 model/src/zuul.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/model/src/zuul.rs b/model/src/zuul.rs
index 79413aa..e65804b 100644
--- a/model/src/zuul.rs
+++ b/model/src/zuul.rs
@@ -6,7 +6,7 @@ use anyhow::{Context, Result};
 use chrono::{DateTime, NaiveDate, Utc};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
-use url::Url;
+use url::{Position, Url};
 
 use crate::{Baselines, Content, Source};
 
@@ -171,17 +171,18 @@ fn is_uid(s: &str) -> bool {
 }
 
 fn api_from_webui(url: &Url, tenant: &str) -> Result<Url> {
-    url.as_str()
-        .split_once("/t/")
+    url[..Position::AfterPath]
+        .rsplit_once("/build/")
+        .and_then(|(base, _)| base.strip_suffix(&format!("/t/{}", tenant)))
         .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
-        .and_then(|(base, _)| {
+        .and_then(|base| {
             Url::parse(&format!("{}/api/tenant/{}/", base, tenant))
                 .context("Can't recreate zuul api url")
         })
 }
 
 fn api_from_whitelabel_webui(url: &Url) -> Result<Url> {
-    url.as_str()
+    url[..Position::AfterPath]
         .rsplit_once("/build/")
         .ok_or_else(|| anyhow::anyhow!("Invalid zuul url"))
         .and_then(|(base, _)| {
-- 
2.43.0


From d9706203c1845a62dfac1b6598274fd8a4f2858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:54 +0000
Subject: [PATCH 24/32] fix: reader: only the first member of a compressed file
 is read

---
 model/src/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/model/src/reader.rs b/model/src/reader.rs
index ee38d78..f92507d 100644
--- a/model/src/reader.rs
+++ b/model/src/reader.rs
@@ -10,7 +10,7 @@ use url::Url;
 
 use std::fs::File;
 
-use flate2::read::GzDecoder;
+use flate2::read::{GzDecoder, MultiGzDecoder};
 
 // TODO: use a struct to pass these references.
 lazy_static::lazy_static! {
@@ -47,6 +47,8 @@ mod remote {
 pub enum DecompressReader {
     Flat(File),
     Gz(GzDecoder<File>),
+    // A local file may have multiple members.
+    MultiGz(MultiGzDecoder<File>),
     // TODO: support BZIP2 compression
     Remote(Response),
     Cached(logreduce_cache::CacheReader<Response>),
@@ -57,7 +59,7 @@ pub fn from_path(path: &Path) -> Result<DecompressReader> {
     let fp = File::open(path)?;
     let extension = path.extension().unwrap_or_else(|| std::ffi::OsStr::new(""));
     Ok(if extension == "gz" {
-        Gz(GzDecoder::new(fp))
+        MultiGz(MultiGzDecoder::new(fp))
     } else {
         Flat(fp)
     })
@@ -113,6 +115,7 @@ impl Read for DecompressReader {
         match self {
             Flat(r) => r.read(buf),
             Gz(r) => r.read(buf),
+            MultiGz(r) => r.read(buf),
             Remote(r) => r.read(buf),
             Cached(r) => r.read(buf),
         }
-- 
2.43.0


From 177dbfe94c7c36b22dca1148d5ba699077ef691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:19 +0000
Subject: [PATCH 25/32] fix: httpdir: the walk overflows the stack, or stops
 before the workers are done

---
 httpdir/src/httpdir.rs | 84 ++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 56 deletions(-)

diff --git a/httpdir/src/httpdir.rs b/httpdir/src/httpdir.rs
index a9fe64e..212ae4b 100644
--- a/httpdir/src/httpdir.rs
+++ b/httpdir/src/httpdir.rs
@@ -30,7 +30,6 @@ use regex::Regex;
 use reqwest::blocking::Client;
 use std::io::Result;
 use std::sync::mpsc::{channel, Receiver, Sender};
-use std::time::Duration;
 use threadpool::ThreadPool;
 use url::Url;
 
@@ -72,9 +71,6 @@ pub struct Crawler {
     client: Client,
     // A worker pool.
     workers: ThreadPool,
-    // The mpsc channel.
-    rx: Receiver<Message>,
-    tx: Sender<Message>,
 }
 
 // Helper function to create an io Error
@@ -86,48 +82,43 @@ impl Crawler {
     /// Initialize the Crawler state.
     pub fn new() -> Crawler {
         let workers = ThreadPool::new(4);
-        let (tx, rx) = channel();
         let client = Client::builder()
             .danger_accept_invalid_certs(std::env::var("LOGREDUCE_SSL_NO_VERIFY").is_ok())
             .build()
             .expect("Client");
-        Crawler {
-            workers,
-            client,
-            tx,
-            rx,
-        }
+        Crawler { workers, client }
     }
 
     /// A simple implementation to list all the available files.
     pub fn list(&self, url: Url) -> Result<Vec<Url>> {
-        // Submit the initial task.
-        self.start(url);
-        // Wait for all the workers to complete.
-        self.workers.join();
-        // Collect the results.
+        // Submit the initial task, using a dedicated channel that is closed when all the workers complete.
+        let (tx, rx) = channel();
+        self.start(tx, url);
+        // Wait for all the workers to complete and collect the results.
+        let results: Vec<Result<Url>> = rx.iter().flatten().collect();
         if self.workers.panic_count() > 0 {
             Err(mk_error("Crawler panicked!"))
         } else {
-            self.rx.try_iter().flatten().collect()
+            results.into_iter().collect()
         }
     }
 
     /// An iterator based implementation which works a bit differently to poll the results.
     pub fn walk(self, url: Url) -> impl Iterator<Item = Result<Url>> {
         // Submit the initial task.
-        self.start(url);
+        let (tx, rx) = channel();
+        self.start(tx, url);
         // Create the iterator state.
         CrawlerIter {
             workers: self.workers,
             abort: false,
-            rx: self.rx,
+            rx,
         }
     }
 
-    fn start(&self, url: Url) {
+    fn start(&self, tx: Sender<Message>, url: Url) {
         // Here we pass all the requirements by reference to avoid lifetime issues.
-        Crawler::process(&Visitor::new(), &self.client, &self.workers, &self.tx, url);
+        Crawler::process(&Visitor::new(), &self.client, &self.workers, &tx, url);
     }
 
     // Helper function to handle a single url.
@@ -184,46 +175,27 @@ struct CrawlerIter {
     rx: Receiver<Message>,
 }
 
-impl CrawlerIter {
-    // We are done when all the work is completed: no worker are active or queued.
-    fn is_done(&self) -> bool {
-        self.abort
-            || (self.workers.active_count() + self.workers.queued_count() == 0
-                // ensure that when there is a panic, we propagate the error.
-                && self.workers.panic_count() == 0)
-    }
-}
-
 impl Iterator for CrawlerIter {
     type Item = Result<Url>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // This needs to be checked before polling, otherwise the last messages may be missed.
-        let done = self.is_done();
-        match self.rx.try_recv() {
-            // A new url was found, we return it.
-            Ok(Some(r)) => Some(r),
-
-            // A worker finished it's job, we keep on iterating.
-            Ok(None) => self.next(),
-
-            // No messages are available and all the workers are done, we stop the iterator.
-            Err(_) if done => None,
-
-            // There was a panic
-            Err(_) if self.workers.panic_count() > 0 => {
-                self.abort = true;
-                Some(Err(mk_error("Crawler panicked!")))
-            }
-
-            // The workers are still active, we can block recv to wait for the next message.
-            Err(_) => match self.rx.recv_timeout(Duration::from_secs(1)) {
-                // A new url was found, we can return it.
-                Ok(Some(r)) => Some(r),
+        loop {
+            match self.rx.recv() {
+                // A new url was found, we return it.
+                Ok(Some(r)) => return Some(r),
+
+                // A worker finished it's job, we keep on iterating.
+                Ok(None) => continue,
+
+                // All the workers are done, and there was a panic
+                Err(_) if self.workers.panic_count() > 0 && !self.abort => {
+                    self.abort = true;
+                    return Some(Err(mk_error("Crawler panicked!")));
+                }
 
-                // A worker completed it's task, we keep on iterating.
-                _ => self.next(),
-            },
+                // All the workers are done, we stop the iterator.
+                Err(_) => return None,
+            }
         }
     }
 }
-- 
2.43.0


From 28a33f1af693ced9ed8718466e98b649baf57d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:47 +0000
Subject: [PATCH 26/32] fix: model: panic when a url can't be parsed

---
 model/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index c82eaa1..2e27999 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -330,7 +330,7 @@ impl Content {
         match input {
             Input::Path(path_str) => Content::from_path(Path::new(&path_str)),
             Input::Url(url_str) => {
-                Content::from_url(Url::parse(&url_str).expect("Failed to parse url"))
+                Content::from_url(Url::parse(&url_str).context("Failed to parse url")?)
             }
         }
     }
-- 
2.43.0


From 757c77dc13f3f06e52d5a42534b7a20233407337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:34 +0000
Subject: [PATCH 27/32] fix: discard a cache entry when it can't be written
 completely

---
 cache/src/cache.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index ab283c8..ae79e40 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -156,9 +156,21 @@ pub struct CacheReader<R: Read> {
 
 impl<R: Read> CacheReader<R> {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<()> {
-        match self.local {
+        let result = match self.local {
             Some(ref mut local) => local.write_all(buf),
             None => Ok(()),
+        };
+        if result.is_err() {
+            // The entry misses some data, it can't be completed anymore.
+            self.discard();
+        }
+        result
+    }
+
+    fn discard(&mut self) {
+        if self.local.take().is_some() {
+            // The content is not complete, discard it.
+            let _ = std::fs::remove_file(&self.part);
         }
     }
 
@@ -175,10 +187,7 @@ impl<R: Read> CacheReader<R> {
 
 impl<R: Read> Drop for CacheReader<R> {
     fn drop(&mut self) {
-        if self.local.take().is_some() {
-            // The content is not complete, discard it.
-            let _ = std::fs::remove_file(&self.part);
-        }
+        self.discard()
     }
 }
 
-- 
2.43.0


From e56997394abbda88076e40429b7b2c8d8c0efc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:13 +0000
Subject: [PATCH 28/32] fix: only expose a cached httpdir after it is
 completely written

---
 cache/src/cache.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cache/src/cache.rs b/cache/src/cache.rs
index ae79e40..66898a6 100644
--- a/cache/src/cache.rs
+++ b/cache/src/cache.rs
@@ -107,8 +107,24 @@ impl Cache {
 
     /// Add a httpdir to the cache.
     pub fn httpdir_add(&self, url: &Url, paths: &[Url]) -> Result<()> {
-        let fp = self.create(&filename::httpdir(url))?;
-        bincode::serialize_into(fp, paths).context("Failed to serialize httpdir save")
+        let name = filename::httpdir(url);
+        if let Some(buf) = self.get(&name) {
+            return Err(anyhow::anyhow!("Cache file already exist: {:?}", buf));
+        }
+        // The entry is only available after the paths have been fully written.
+        let part_name = format!("{}.{}.part", name, std::process::id());
+        let fp = self.create(&part_name)?;
+        let part = self.xdg.get_cache_file(part_name);
+        bincode::serialize_into(fp, paths)
+            .context("Failed to serialize httpdir save")
+            .and_then(|()| {
+                std::fs::rename(&part, self.xdg.get_cache_file(name))
+                    .context("Failed to save httpdir")
+            })
+            .map_err(|e| {
+                let _ = std::fs::remove_file(&part);
+                e
+            })
     }
 
     /// Remove a remote file from the cache.
-- 
2.43.0


From a175daeb170ff60bb661a4b04dd9bb211c47c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:55 +0000
Subject: [PATCH 29/32] fix: verify the checksum when loading a model or a
 report

The decoder stopped before the end of the file, where the checksum is
verified: a damaged or truncated file was loaded as something else, and a
damaged length aborted the process.
---
 model/src/model.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 2e27999..06dd6ed 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -9,6 +9,7 @@ use anyhow::{Context, Result};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
 use std::collections::{HashMap, HashSet};
+use std::io::Read;
 use std::path::{Path, PathBuf};
 use std::time::{Duration, Instant, SystemTime};
 use url::Url;
@@ -250,10 +251,12 @@ impl Report {
     }
 
     pub fn load(path: &Path) -> Result<Report> {
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open report file")?,
-        ))
-        .context("Can't load report")
+        // The checksum is verified at the end of the file.
+        let mut content = Vec::new();
+        flate2::read::GzDecoder::new(std::fs::File::open(path).context("Can't open report file")?)
+            .read_to_end(&mut content)
+            .context("Can't read report file")?;
+        bincode::deserialize(&content).context("Can't load report")
     }
 }
 
@@ -436,10 +439,12 @@ impl Model {
 
     pub fn load(path: &Path) -> Result<Model> {
         tracing::info!(path = path.to_str(), "Loading provided model");
-        bincode::deserialize_from(flate2::read::GzDecoder::new(
-            std::fs::File::open(path).context("Can't open file")?,
-        ))
-        .context("Can't load model")
+        // The checksum is verified at the end of the file.
+        let mut content = Vec::new();
+        flate2::read::GzDecoder::new(std::fs::File::open(path).context("Can't open file")?)
+            .read_to_end(&mut content)
+            .context("Can't read file")?;
+        bincode::deserialize(&content).context("Can't load model")
     }
 
     pub fn save(&self, path: &Path) -> Result<()> {
-- 
2.43.0


From ce0f2a6c204cdd5f99e02b953d7f48bc429dbb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:11 +0000
Subject: [PATCH 30/32] fix: report a write error at the end of a saved model
 or report

The encoder was finished by its drop, that ignores the errors: save
succeeded with a file that can't be loaded when the disk was full.
---
 model/src/model.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 06dd6ed..98321f8 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -240,14 +240,14 @@ pub struct Report {
 
 impl Report {
     pub fn save(&self, path: &Path) -> Result<()> {
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create report file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save report")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create report file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save report")?;
+        // The end of the file is written here, and that can fail.
+        encoder.finish().context("Can't save report")?;
+        Ok(())
     }
 
     pub fn load(path: &Path) -> Result<Report> {
@@ -449,14 +449,14 @@ impl Model {
 
     pub fn save(&self, path: &Path) -> Result<()> {
         tracing::info!(path = path.to_str(), "Saving model");
-        bincode::serialize_into(
-            flate2::write::GzEncoder::new(
-                std::fs::File::create(path).context("Can't create file")?,
-                flate2::Compression::fast(),
-            ),
-            self,
-        )
-        .context("Can't save model")
+        let mut encoder = flate2::write::GzEncoder::new(
+            std::fs::File::create(path).context("Can't create file")?,
+            flate2::Compression::fast(),
+        );
+        bincode::serialize_into(&mut encoder, self).context("Can't save model")?;
+        // The end of the file is written here, and that can fail.
+        encoder.finish().context("Can't save model")?;
+        Ok(())
     }
 
     /// Get the matching index for a given Source.
-- 
2.43.0


From e29c876000675488a10099368968ade2c8ed1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:23 +0000
Subject: [PATCH 31/32] fix: take a file name that starts with http for a file

A local path such as httpd.log or http/error.log was taken for an url, and
failed to parse; only the http:// and https:// schemes make an url.
---
 model/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 98321f8..db53cca 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -45,7 +45,7 @@ pub enum Input {
 
 impl Input {
     pub fn from_string(s: String) -> Input {
-        match s.starts_with("http") {
+        match s.starts_with("http://") || s.starts_with("https://") {
             true => Input::Url(s),
             false => Input::Path(s),
         }
-- 
2.43.0


From e5f8c45d0103a31d61a1558d2b8b864bb2aee7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:02 +0000
Subject: [PATCH 32/32] fix: compare the compressed rotated files with the
 others

---
 model/src/files.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/model/src/files.rs b/model/src/files.rs
index ae4a1e6..b624ac6 100644
--- a/model/src/files.rs
+++ b/model/src/files.rs
@@ -165,6 +165,8 @@ impl IndexName {
                 )
                 .trim_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .trim_end_matches(".gz")
+                // The number of a rotated file is before its suffix.
+                .trim_matches(|c| matches!(c, '/' | '.' | '_' | '-'))
                 .to_string()
         };
         IndexName(model_name)
-- 
2.43.0

