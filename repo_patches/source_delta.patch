From 6242a0e0e9ce1a5814aa2ed2fe0345a3a8e72895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 01/16] fix: resolve a composite string whose first reference
 precedes other pieces

terminator_pos is relative to the string's start, so comparing it with an
absolute position took strings of one reference plus further text for a lone
reference whenever they happened to be stored at the right position.
---
 decodeme/src/stringtable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decodeme/src/stringtable.rs b/decodeme/src/stringtable.rs
index b600937..9476994 100644
--- a/decodeme/src/stringtable.rs
+++ b/decodeme/src/stringtable.rs
@@ -65,7 +65,7 @@ impl<'st> StringRef<'st> {
 
         // Check if this is a string containing a single StringId component
         let first_byte = self.table.string_data[pos];
-        if first_byte == STRING_REF_TAG && terminator_pos == pos + STRING_REF_ENCODED_SIZE {
+        if first_byte == STRING_REF_TAG && terminator_pos == STRING_REF_ENCODED_SIZE {
             let id = decode_string_ref_from_data(&self.table.string_data[pos..]);
             return StringRef {
                 id,
-- 
2.43.0


From 0a57d7a57d73469c64b98bfb0b70b1ed7839abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 02/16] fix: keep profiles readable whatever the command line
 contains

escape_default produces Rust escapes, of which \' and \u{..} are not valid
JSON, so a single quote or a non-ASCII character in an argument made the
metadata, and with it the profile, unreadable. std::env::args() panics for
arguments that are not valid Unicode.
---
 measureme/src/profiler.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/measureme/src/profiler.rs b/measureme/src/profiler.rs
index 0fdf417..747dac3 100644
--- a/measureme/src/profiler.rs
+++ b/measureme/src/profiler.rs
@@ -53,8 +53,8 @@ impl Profiler {
         };
 
         let mut args = String::new();
-        for arg in std::env::args() {
-            args.push_str(&arg.escape_default().to_string());
+        for arg in std::env::args_os() {
+            push_json_escaped(&mut args, &arg.to_string_lossy());
             args.push(' ');
         }
 
@@ -179,6 +179,21 @@ impl Profiler {
     }
 }
 
+/// Appends `text` to `output` in the form it has within a JSON string literal.
+fn push_json_escaped(output: &mut String, text: &str) {
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                output.push('\\');
+                output.push(c);
+            }
+            // JSON does not allow unescaped control characters in strings.
+            '\0'..='\x1F' => output.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => output.push(c),
+        }
+    }
+}
+
 /// Created by `Profiler::start_recording_interval_event_detached`.
 /// Must be passed to `finish_recording_interval_event` to record an
 /// "end" event.
-- 
2.43.0


From 761ce0b522de7ccb42666089cda489c9e6e397fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 03/16] fix: accept vertical tabs in event ids

The event id grammar allows all of [[:space:]], which includes vertical tab.
---
 decodeme/src/event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decodeme/src/event.rs b/decodeme/src/event.rs
index 6c254ad..bee8402 100644
--- a/decodeme/src/event.rs
+++ b/decodeme/src/event.rs
@@ -95,7 +95,8 @@ impl<'a> Parser<'a> {
 
         if self.full_text[start..end]
             .iter()
-            .filter(|x| !x.is_ascii_whitespace())
+            // Unlike `[[:space:]]`, `is_ascii_whitespace()` excludes vertical tab.
+            .filter(|x| !(x.is_ascii_whitespace() || **x == b'\x0B'))
             .any(u8::is_ascii_control)
         {
             return self.err("Found ASCII control character in <text>");
-- 
2.43.0


From 8cb7bd98bbe13f81ed28a4b0ba34b845ebcd5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 04/16] fix: let mmedit truncate profiles in the current format
 version

Version 9 has the same page structure as 7 and 8.
---
 mmedit/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index 5cdb784..e33b61b 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -1,6 +1,8 @@
 use std::{convert::TryInto, error::Error, path::PathBuf};
 
-use decodeme::{read_file_header, PageTag, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL};
+use decodeme::{
+    read_file_header, PageTag, CURRENT_FILE_FORMAT_VERSION, FILE_HEADER_SIZE, FILE_MAGIC_TOP_LEVEL,
+};
 
 use clap::Parser;
 
@@ -19,7 +21,7 @@ enum Opt {
 fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync>> {
     let file_version = read_file_header(&file_contents, FILE_MAGIC_TOP_LEVEL, None, "top-level")?;
 
-    if file_version < 7 || file_version > 8 {
+    if file_version < 7 || file_version > CURRENT_FILE_FORMAT_VERSION {
         return Err(format!("File version {} is not support", file_version).into());
     }
 
-- 
2.43.0


From 1b10b2cbf3f8dddc7ea6790d528943846f4a78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/16] fix: let summarize diff read saved JSON summaries

Path::ends_with compares whole path components, so it never recognized the
extension of a saved summary, which was then looked up as a profile.
---
 summarize/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 9c3ce65..b724b86 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
 }
 
 fn process_results(file: &PathBuf) -> Result<AnalysisResults, Box<dyn Error + Send + Sync>> {
-    if file.ends_with("json") {
+    if file.extension().map_or(false, |e| e == "json") {
         let reader = BufReader::new(File::open(&file)?);
 
         let results: AnalysisResults = serde_json::from_reader(reader)?;
-- 
2.43.0


From 7f0c58b8a0c46f1cbbe703fcdff0ac917e52eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 06/16] fix: show the hashing time column whenever there is
 hashing time

The search for columns with data stopped before it had found the hashing time
if the other three were found first.
---
 summarize/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index b724b86..09a5955 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -214,7 +214,11 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
             has_incremental_hashing_time = true;
         }
 
-        if has_cache_hits && has_blocked_time && has_incremental_load_time {
+        if has_cache_hits
+            && has_blocked_time
+            && has_incremental_load_time
+            && has_incremental_hashing_time
+        {
             break;
         }
     }
-- 
2.43.0


From fa25feba2d9a934a535772eedc35511808ffbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 07/16] fix: let mmview show profiles consisting of integer
 events only

They were reported as having no events at all.
---
 mmview/src/main.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mmview/src/main.rs b/mmview/src/main.rs
index 79989f9..35c31b4 100644
--- a/mmview/src/main.rs
+++ b/mmview/src/main.rs
@@ -18,17 +18,25 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let data = ProfilingData::new(&opt.file_prefix)?;
 
-    if let Some(global_start_time) = data.iter().filter_map(|e| e.start()).min() {
-        for event in data.iter() {
-            if let Some(thread_id) = opt.thread_id {
-                if event.thread_id != thread_id {
-                    continue;
-                }
+    if data.num_events() == 0 {
+        eprintln!("No events.");
+        return Ok(());
+    }
+
+    // There may be integer events only, which do not have a time.
+    let global_start_time = data
+        .iter()
+        .filter_map(|e| e.start())
+        .min()
+        .unwrap_or(data.metadata().start_time);
+
+    for event in data.iter() {
+        if let Some(thread_id) = opt.thread_id {
+            if event.thread_id != thread_id {
+                continue;
             }
-            print_event(&data.to_full_event(&event), global_start_time);
         }
-    } else {
-        eprintln!("No events.");
+        print_event(&data.to_full_event(&event), global_start_time);
     }
 
     Ok(())
-- 
2.43.0


From c757685269de7b0e09f748b474775ff53cb31061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 08/16] fix: report missing streams in files of the previous
 format as errors

The decoder for version 8 is taken from an old release, whose constructor
panics where the current one returns an error.
---
 analyzeme/src/file_formats/v8.rs | 26 ++++++++++++++++++++++++++
 analyzeme/src/profiling_data.rs  |  4 ++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/analyzeme/src/file_formats/v8.rs b/analyzeme/src/file_formats/v8.rs
index 0955e4d..1d6012b 100644
--- a/analyzeme/src/file_formats/v8.rs
+++ b/analyzeme/src/file_formats/v8.rs
@@ -16,9 +16,35 @@ use decodeme_10::event_payload::Timestamp as OldTimestamp;
 use decodeme_10::lightweight_event::LightweightEvent as OldLightweightEvent;
 pub use decodeme_10::EventDecoder;
 use decodeme_10::Metadata as OldMetadata;
+use measureme_10::file_header::FILE_HEADER_SIZE;
+use measureme_10::{split_streams, PageTag};
+use std::error::Error;
+use std::path::Path;
 
 pub const FILE_FORMAT: u32 = measureme_10::file_header::CURRENT_FILE_FORMAT_VERSION;
 
+/// Does the same as `EventDecoder::new()` but, like the current version of it,
+/// returns an error if one of the streams is missing. The caller must have
+/// verified the top-level file header.
+pub fn new_event_decoder(
+    entire_file_data: &[u8],
+    diagnostic_file_path: Option<&Path>,
+) -> Result<EventDecoder, Box<dyn Error + Send + Sync>> {
+    let mut split_data = split_streams(&entire_file_data[FILE_HEADER_SIZE..]);
+
+    let string_data = split_data
+        .remove(&PageTag::StringData)
+        .ok_or("Invalid file: No string data found")?;
+    let index_data = split_data
+        .remove(&PageTag::StringIndex)
+        .ok_or("Invalid file: No string index data found")?;
+    let event_data = split_data
+        .remove(&PageTag::Events)
+        .ok_or("Invalid file: No event data found")?;
+
+    EventDecoder::from_separate_buffers(string_data, index_data, event_data, diagnostic_file_path)
+}
+
 // NOTE: These are functionally a hand-rolled "impl From<Old> -> New", but
 // given orphan rules, it seems undesirable to spread version-specific
 // converters around the codebase.
diff --git a/analyzeme/src/profiling_data.rs b/analyzeme/src/profiling_data.rs
index 08d1a89..3983259 100644
--- a/analyzeme/src/profiling_data.rs
+++ b/analyzeme/src/profiling_data.rs
@@ -60,8 +60,8 @@ impl ProfilingData {
         )?;
 
         let event_decoder: Box<dyn file_formats::EventDecoder> = match file_format_version {
-            file_formats::v8::FILE_FORMAT => Box::new(file_formats::v8::EventDecoder::new(
-                data,
+            file_formats::v8::FILE_FORMAT => Box::new(file_formats::v8::new_event_decoder(
+                &data,
                 diagnostic_file_path,
             )?),
             file_formats::v9::FILE_FORMAT => Box::new(file_formats::v9::EventDecoder::new(
-- 
2.43.0


From e14120633d21b8b8a436bc09d286b1080f4c9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 09/16] fix: keep labels that are exactly at the percentage
 threshold

---
 summarize/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 09a5955..23adc91 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -254,7 +254,9 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
     let mut percent_total_time: f64 = 0.0;
 
     for query_data in results.query_data {
-        let curr_percent = (query_data.self_time.as_nanos() as f64) / total_time * 100.0;
+        // Multiply first: dividing first can round a label that is exactly at
+        // the threshold to just below it.
+        let curr_percent = (query_data.self_time.as_nanos() as f64) * 100.0 / total_time;
         if curr_percent < percent_above {
             break;
         } //no need to run entire loop if filtering by % time
-- 
2.43.0


From f9c9aec0734cbaa2be4a370990772ec99c189b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 10/16] fix: draw labels ending in a number completely in flame
 graphs

---
 flamegraph/src/main.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/flamegraph/src/main.rs b/flamegraph/src/main.rs
index 7e9a236..dffa8ce 100644
--- a/flamegraph/src/main.rs
+++ b/flamegraph/src/main.rs
@@ -19,7 +19,9 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     let recorded_stacks = collapse_stacks(&profiling_data)
         .iter()
-        .map(|(unique_stack, count)| format!("{} {}", unique_stack, count))
+        .map(|(unique_stack, count)| {
+            format!("{} {}", protect_trailing_numbers(unique_stack), count)
+        })
         .collect::<Vec<_>>();
 
     let file = BufWriter::new(File::create("rustc.svg")?);
@@ -37,3 +39,21 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
 
     Ok(())
 }
+
+/// A stack whose last label ends in a separate number would be taken for one
+/// with two sample counts (the format of differential flame graphs), which
+/// cuts the number off the label. A non-breaking space looks the same but does
+/// not separate columns. Frames are matched by name, so this is done for all
+/// labels of the stack.
+fn protect_trailing_numbers(stack: &str) -> String {
+    let labels: Vec<_> = stack
+        .split(';')
+        .map(|label| match label.rsplit_once(' ') {
+            Some((head, last)) if last.chars().all(|c| c.is_ascii_digit() || c == '.') => {
+                format!("{}\u{a0}{}", head, last)
+            }
+            _ => label.to_string(),
+        })
+        .collect();
+    labels.join(";")
+}
-- 
2.43.0


From 635b5b1f8d6886d6fac8eb118ba226cb51b3c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 11/16] fix: keep addresses right when a write callback panics

---
 measureme/src/serialization.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/measureme/src/serialization.rs b/measureme/src/serialization.rs
index 487504e..06133a0 100644
--- a/measureme/src/serialization.rs
+++ b/measureme/src/serialization.rs
@@ -324,10 +324,12 @@ impl SerializationSink {
         let buf_start = buffer.len();
         let buf_end = buf_start + num_bytes;
         buffer.resize(buf_end, 0u8);
-        write(&mut buffer[buf_start..buf_end]);
 
+        // The bytes are part of the stream from here on, even if `write` panics.
         *addr += num_bytes as u64;
 
+        write(&mut buffer[buf_start..buf_end]);
+
         Addr(curr_addr)
     }
 
-- 
2.43.0


From a496c7cc591c164cc41119c661917b555c867248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 12/16] fix: report errors when writing results

---
 crox/src/main.rs           | 5 ++++-
 stack_collapse/src/main.rs | 3 +++
 summarize/src/main.rs      | 8 +++++---
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crox/src/main.rs b/crox/src/main.rs
index f4063a1..6b9b179 100644
--- a/crox/src/main.rs
+++ b/crox/src/main.rs
@@ -1,6 +1,6 @@
 use rustc_hash::FxHashMap;
 use std::fs;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 use std::time::{Duration, SystemTime, UNIX_EPOCH};
 
@@ -213,6 +213,9 @@ fn main() -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
 
     seq.end()?;
 
+    // Dropping the writer would ignore errors.
+    serializer.into_inner().flush()?;
+
     Ok(())
 }
 
diff --git a/stack_collapse/src/main.rs b/stack_collapse/src/main.rs
index e243c92..145340a 100644
--- a/stack_collapse/src/main.rs
+++ b/stack_collapse/src/main.rs
@@ -25,5 +25,8 @@ fn main() -> Result<(), Box<dyn Error + Send + Sync>> {
         writeln!(file, "{} {}", unique_stack, count)?;
     }
 
+    // Dropping the writer would ignore errors.
+    file.flush()?;
+
     Ok(())
 }
diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 23adc91..93aa8e9 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -5,7 +5,7 @@ use analyzeme::AnalysisResults;
 use analyzeme::ProfilingData;
 use std::error::Error;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::{path::PathBuf, time::Duration};
 
 use clap::Parser;
@@ -76,8 +76,10 @@ fn write_results_json(
     file: &PathBuf,
     results: impl Serialize,
 ) -> Result<(), Box<dyn Error + Send + Sync>> {
-    let file = BufWriter::new(File::create(file.with_extension("json"))?);
-    serde_json::to_writer(file, &results)?;
+    let mut file = BufWriter::new(File::create(file.with_extension("json"))?);
+    serde_json::to_writer(&mut file, &results)?;
+    // Dropping the writer would ignore errors.
+    file.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From fa8eac1620271a35d0f3a723bbc51b7d293d5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 13/16] fix: report errors when printing summary tables

---
 summarize/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/summarize/src/main.rs b/summarize/src/main.rs
index 93aa8e9..43b164e 100644
--- a/summarize/src/main.rs
+++ b/summarize/src/main.rs
@@ -142,7 +142,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -162,7 +162,7 @@ fn diff(opt: DiffOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
@@ -292,7 +292,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ])));
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     println!("Total cpu time: {:?}", results.total_time);
 
@@ -314,7 +314,7 @@ fn summarize(opt: SummarizeOpt) -> Result<(), Box<dyn Error + Send + Sync>> {
         ]);
     }
 
-    table.printstd();
+    table.print_tty(false)?;
 
     Ok(())
 }
-- 
2.43.0


From 7500ca84c21955a8cba9563a31ed4810a3b9d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:34 +0000
Subject: [PATCH 14/16] fix: refuse to truncate a file without event data

mmedit truncate ended successfully for a file that consists of the header
or of string pages only, and wrote a file that no tool can read.
---
 mmedit/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmedit/src/main.rs b/mmedit/src/main.rs
index e33b61b..6033c89 100644
--- a/mmedit/src/main.rs
+++ b/mmedit/src/main.rs
@@ -59,6 +59,10 @@ fn truncate(file_contents: &[u8]) -> Result<Vec<u8>, Box<dyn Error + Send + Sync
         pos = page_end;
     }
 
+    if !event_page_emitted {
+        return Err("Invalid file: No event data found".into());
+    }
+
     Ok(truncated)
 }
 
-- 
2.43.0


From 1f253725f6ba3b76774ad7adae2abba07a6af063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:35 +0000
Subject: [PATCH 15/16] fix: list equally changed artifacts in the same order
 every time

---
 summarize/src/diff.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/summarize/src/diff.rs b/summarize/src/diff.rs
index d044b89..8fcbcaf 100644
--- a/summarize/src/diff.rs
+++ b/summarize/src/diff.rs
@@ -2,7 +2,6 @@ use analyzeme::{AnalysisResults, ArtifactSize, QueryData};
 use rustc_hash::{FxHashMap, FxHashSet};
 use serde::{Deserialize, Serialize};
 use std::cmp::Ordering;
-use std::collections::HashSet;
 use std::fmt;
 use std::time::Duration;
 
@@ -72,7 +71,7 @@ pub fn calculate_diff(base: AnalysisResults, change: AnalysisResults) -> DiffRes
         .iter()
         .chain(&change.artifact_sizes)
         .map(|a| a.label.as_str())
-        .collect::<HashSet<_>>();
+        .collect::<FxHashSet<_>>();
     let mut artifact_sizes: Vec<_> = all_labels
         .iter()
         .map(|l| {
-- 
2.43.0


From 298564958e676737446b579d3f82c801070d22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:57 +0000
Subject: [PATCH 16/16] fix: take the last end of a thread's intervals when
 collapsing stacks

---
 analyzeme/src/stack_collapse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyzeme/src/stack_collapse.rs b/analyzeme/src/stack_collapse.rs
index 531dbd6..2997e55 100644
--- a/analyzeme/src/stack_collapse.rs
+++ b/analyzeme/src/stack_collapse.rs
@@ -39,6 +39,7 @@ pub fn collapse_stacks<'a>(profiling_data: &ProfilingData) -> FxHashMap<String,
             });
 
         thread.start = cmp::min(thread.start, start);
+        thread.end = cmp::max(thread.end, end);
 
         // Pop all events from the stack that are not parents of the
         // current event.
-- 
2.43.0

