From 4115f3ebd6dce76d37183b377b2904e8c89b8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 01/19] fix: TP panicked while idle and missed the next trigger
 when IN fell during a pulse

---
 src/timers.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..4aaacc6 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -82,26 +82,24 @@ impl TimerParams {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn TP(timer: &mut TimerParams) {
-    //If timer is active (start time set)
-    let output = if timer.is_running() {
-        timer.update_elapsed_time();
-        // If time elapsed within range
-        if timer.is_in_preset_range() {
-            true
-        } else {
-            if timer.input_falling_edge() {
-                timer.reset()
-            }
-            false
-        }
-    } else if timer.input_rising_edge() {
+    // The edge has to be evaluated on every call, otherwise an edge during a pulse is taken for a
+    // new one after the pulse has ended.
+    let rising_edge = timer.input_rising_edge();
+    timer.update_elapsed_time();
+    let output = if timer.is_in_preset_range() {
+        // A pulse is active, it cannot be retriggered
+        true
+    } else if rising_edge {
         timer.start();
         true
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        // The pulse is over (or was never started), the elapsed time is kept as long as the input is set
+        if !timer.input {
+            timer.reset();
+        }
+        false
     };
     timer.set_output(output);
-    timer.input_edge.set(timer.input);
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From f74fdd70f98eccabad264963d200de9068c505d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 02/19] fix: zero-initialized timer instances were considered
 to be running

---
 src/timers.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 4aaacc6..1057e88 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -12,6 +12,19 @@ pub mod test_time_helpers;
 
 pub type Time = i64;
 
+/// The point in time at which a timer was started.
+///
+/// Instances of the function blocks are allocated and zero-initialized by the ST code, the all-zero
+/// pattern must therefore denote a timer which was not started. This is not guaranteed for an
+/// `Option<Instant>`.
+#[repr(u8)]
+#[derive(Debug, Default, Clone, Copy)]
+enum StartTime {
+    #[default]
+    NotStarted = 0,
+    Started(Instant) = 1,
+}
+
 #[repr(C)]
 #[derive(Debug, Default)]
 pub struct TimerParams {
@@ -20,7 +33,7 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
-    start_time: Option<Instant>,
+    start_time: StartTime,
 }
 
 impl TimerParams {
@@ -28,16 +41,16 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        matches!(self.start_time, StartTime::Started(_))
     }
 
     fn start(&mut self) {
-        self.start_time = Some(Instant::now());
+        self.start_time = StartTime::Started(Instant::now());
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
-        self.start_time = None;
+        self.start_time = StartTime::NotStarted;
         self.set_elapsed_time(0);
     }
 
@@ -63,7 +76,10 @@ impl TimerParams {
     }
 
     fn get_run_time(&self) -> Option<Duration> {
-        self.start_time.map(|it| it.elapsed())
+        match self.start_time {
+            StartTime::NotStarted => None,
+            StartTime::Started(it) => Some(it.elapsed()),
+        }
     }
 
     fn set_output(&mut self, value: bool) {
-- 
2.43.0


From 512381fb707e608dff9f237e490b349c98bf05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 03/19] fix: timers could report a timeout with an elapsed time
 below the preset time

---
 src/timers.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1057e88..4332882 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -70,6 +70,10 @@ impl TimerParams {
         }
     }
 
+    /// Returns true if the timer is running and the preset time has not been exceeded.
+    ///
+    /// Reads the clock, has to be called before updating the elapsed time: otherwise a timeout
+    /// between both could be reported along with an elapsed time below the preset time.
     fn is_in_preset_range(&self) -> bool {
         let duration = Duration::from_nanos(self.preset_time as u64);
         self.get_run_time().map_or(false, |it| it <= duration)
@@ -101,8 +105,9 @@ pub extern "C" fn TP(timer: &mut TimerParams) {
     // The edge has to be evaluated on every call, otherwise an edge during a pulse is taken for a
     // new one after the pulse has ended.
     let rising_edge = timer.input_rising_edge();
+    let in_preset_range = timer.is_in_preset_range();
     timer.update_elapsed_time();
-    let output = if timer.is_in_preset_range() {
+    let output = if in_preset_range {
         // A pulse is active, it cannot be retriggered
         true
     } else if rising_edge {
@@ -125,8 +130,9 @@ pub extern "C" fn TON(timer: &mut TimerParams) {
         //Timer was strarted at some point
         if timer.is_running() {
             //Timer is still running
+            let in_preset_range = timer.is_in_preset_range();
             timer.update_elapsed_time();
-            !timer.is_in_preset_range()
+            !in_preset_range
             //Timer stopped, but the input is new
         } else if timer.input_rising_edge() {
             timer.start();
@@ -156,8 +162,9 @@ pub extern "C" fn TOF(timer: &mut TimerParams) {
         timer.start();
         true
     } else if timer.is_running() {
+        let in_preset_range = timer.is_in_preset_range();
         timer.update_elapsed_time();
-        timer.is_in_preset_range()
+        in_preset_range
     } else {
         false
     };
-- 
2.43.0


From f057fa5b327bf4fcb0bd1ab6fa7958e651e5c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/19] fix: x_TO_STRING conversions did not terminate the
 string

---
 src/extra_functions.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..bb3c01f 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.floor() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.floor() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -218,7 +218,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +232,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +246,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
-- 
2.43.0


From 89d946b0e87051eab4dc38f4eac1383d4b1498fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 05/19] fix: LREAL_TO_STRING panicked for large negative
 numbers

---
 src/extra_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index bb3c01f..bacdbed 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -59,7 +59,7 @@ pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
-    if input.floor() < 1e14 {
+    if input.abs().floor() < 1e14 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
@@ -77,7 +77,7 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     // float: 23 bits are used for the mantissa (about 7 decimal digits)
 
     // TODO: discuss when scientific notation should be displayed
-    if input.floor() < 1e6 {
+    if input.abs().floor() < 1e6 {
         write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}\0").unwrap()
-- 
2.43.0


From ed6cc3ecca315d8d845fc00c95a97a45eee349c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 06/19] fix: TIME_TO_STRING was wrong for negative times and
 for a destination which is not empty

---
 src/extra_functions.rs | 50 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index bacdbed..14d2ac1 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -172,39 +172,35 @@ pub extern "C" fn TIME() -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
-    let mut dest = dest;
-    let literals = parse_timestamp(input);
-    literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
-        let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
-        let idx = buf.iter().position(|&c| c == 0).unwrap();
-        dest = dest.add(idx);
-    });
+    let mut buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
+    if input.is_negative() {
+        write!(buf, "-").unwrap();
+    }
+    let literals = parse_timestamp(input.unsigned_abs());
+    literals
+        .iter()
+        .filter(|&it| it.0 != 0)
+        .for_each(|it| write!(buf, "{}{}", it.0, it.1).unwrap());
+    write!(buf, "\0").unwrap();
 
     0
 }
 
-fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
-    let datetime = chrono::Utc.timestamp_nanos(timestamp_nanos);
-    let (nanos, micros, millis, seconds, minutes, hours) = (
-        datetime.timestamp_subsec_nanos() % 1000,
-        datetime.timestamp_subsec_micros() % 1000,
-        datetime.timestamp_subsec_millis(),
-        datetime.second(),
-        datetime.minute(),
-        datetime.hour(),
-    );
-    let nanos_per_day = 1e9 as i64 * 3600 * 24;
-    let days = (timestamp_nanos / nanos_per_day) as u32;
+fn parse_timestamp<'a>(timestamp_nanos: u64) -> [(u64, &'a str); 7] {
+    let micros = timestamp_nanos / 1000;
+    let millis = micros / 1000;
+    let seconds = millis / 1000;
+    let minutes = seconds / 60;
+    let hours = minutes / 60;
 
     [
-        (days, "d"),
-        (hours, "h"),
-        (minutes, "m"),
-        (seconds, "s"),
-        (millis, "ms"),
-        (micros, "us"),
-        (nanos, "ns"),
+        (hours / 24, "d"),
+        (hours % 24, "h"),
+        (minutes % 60, "m"),
+        (seconds % 60, "s"),
+        (millis % 1000, "ms"),
+        (micros % 1000, "us"),
+        (timestamp_nanos % 1000, "ns"),
     ]
 }
 
-- 
2.43.0


From 86b20ac0d4d5717f7a440214151c02f565cf2db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 07/19] fix: STRING_TO_WSTRING did not terminate the string

---
 src/string_conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From d03ffafe094a9afb33cb17801fa6dc6d3377e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 08/19] fix: DELETE and REPLACE accepted a negative amount of
 characters in release builds

---
 src/string_functions.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..2f21dac 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -498,7 +498,8 @@ pub unsafe extern "C" fn INSERT_EXT__WSTRING(
 ///
 /// Works on raw pointers, inherently unsafe.
 /// Will panic if the position parameter is out of bounds of the
-/// array or if trying to delete too many characters.
+/// array or if trying to delete too many or a negative amount of
+/// characters.
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn DELETE_EXT__STRING(
@@ -507,6 +508,9 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -541,7 +545,8 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
 ///
 /// Works on raw pointers, inherently unsafe.
 /// Will panic if the position parameter is out of bounds of the
-/// array or if trying to delete too many characters.
+/// array or if trying to delete too many or a negative amount of
+/// characters.
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn DELETE_EXT__WSTRING(
@@ -550,6 +555,9 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_delete < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nchars = EncodedCharsIter::decode(src).count();
     if pos < 1 || pos > nchars as i32 {
@@ -585,7 +593,8 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
 ///
 /// Works on raw pointers, inherently unsafe.
 /// Will panic if trying to index outside of the array or trying
-/// to replace more characters than remaining.
+/// to replace more characters than remaining or a negative amount of
+/// characters.
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn REPLACE_EXT__STRING(
@@ -595,6 +604,9 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
     pos: i32,
     dest: *mut u8,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
@@ -633,7 +645,8 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
 ///
 /// Works on raw pointers, inherently unsafe.
 /// Will panic if trying to index outside of the array or trying
-/// to replace more characters than remaining.
+/// to replace more characters than remaining or a negative amount of
+/// characters.
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
@@ -643,6 +656,9 @@ pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
     pos: i32,
     dest: *mut u16,
 ) -> i32 {
+    if num_chars_to_replace < 0 {
+        panic!("Length parameter cannot be negative.");
+    }
     let mut dest = dest;
     let nbase = EncodedCharsIter::decode(src_base).count();
     if pos < 1 || pos > nbase as i32 {
-- 
2.43.0


From 08156da8c04b4155cc93f1e692f8ff83ced5027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 09/19] fix: SHL and SHR panicked or wrapped if shifting by the
 width of the operand or more

---
 src/bit_shift_functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index 48510fc..e34bd39 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -4,56 +4,56 @@
 #[no_mangle]
 /// Shift left operation on bytes
 pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
 pub fn SHL__WORD(input: u16, n: u32) -> u16 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
 pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
 pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
 pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
 pub fn SHR__WORD(input: u16, n: u32) -> u16 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
 pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
 pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From 5030d6917dde876b890f5b594b925395aab2241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 10/19] fix: MUL and DIV of TIME with ULINT panicked for large
 operands even if there is a result

---
 src/date_time_numeric_functions.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/date_time_numeric_functions.rs b/src/date_time_numeric_functions.rs
index 2d0e8c2..7722345 100644
--- a/src/date_time_numeric_functions.rs
+++ b/src/date_time_numeric_functions.rs
@@ -375,9 +375,8 @@ pub extern "C" fn MUL_LTIME__ULINT(in1: i64, in2: u64) -> i64 {
 /// Panic on overflow
 ///
 fn checked_mul_time_with_unsigned_int(in1: i64, in2: u64) -> i64 {
-    // convert in2 [u64] to [i64]
-    // if in2 is to large for [i64] the multiplication will allways overflow -> panic on try_into()
-    in1.checked_mul(in2.try_into().unwrap()).unwrap()
+    // the product always fits into [i128], if it is too large for [i64] -> panic on try_into()
+    (i128::from(in1) * i128::from(in2)).try_into().unwrap()
 }
 
 /// .
@@ -633,9 +632,9 @@ pub extern "C" fn DIV_LTIME__ULINT(in1: i64, in2: u64) -> i64 {
 /// Panic on overflow or division by zero
 ///
 fn checked_div_time_by_unsigned_int(in1: i64, in2: u64) -> i64 {
-    // convert in2 [u64] to [i64]
-    // if in2 is to large for [i64] the division will allways fail -> panic on try_into()
-    in1.checked_div(in2.try_into().unwrap()).unwrap()
+    // in2 might be too large for [i64], the quotient always fits
+    let quotient = i128::from(in1).checked_div(in2.into()).unwrap();
+    quotient.try_into().unwrap()
 }
 
 /// .
-- 
2.43.0


From e8be1e989b0b53c5fbe91abf02d4617b9e9f0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 11/19] fix: CONCAT_DATE and CONCAT_TOD truncated LINT and
 ULINT parameters

---
 src/date_time_extra_functions.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 2fe83b9..9d47fa7 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -60,7 +60,12 @@ pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // if a parameter does not fit, there is no such date -> panic
+    concat_date(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -69,7 +74,12 @@ pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__ULINT(in1: u64, in2: u64, in3: u64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // if a parameter does not fit, there is no such date -> panic
+    concat_date(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -144,7 +154,13 @@ pub extern "C" fn CONCAT_TOD__UDINT(in1: u32, in2: u32, in3: u32, in4: u32) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // if a parameter does not fit, there is no such time -> panic
+    concat_tod(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+        in4.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -153,7 +169,13 @@ pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i6
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // if a parameter does not fit, there is no such time -> panic
+    concat_tod(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+        in4.try_into().unwrap(),
+    )
 }
 
 /// .
-- 
2.43.0


From ff052ac422e3d96e5650eb261d1439d691757c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:40 +0000
Subject: [PATCH 12/19] fix: CONCAT_TOD accepted more than 999 milliseconds in
 the last second of a minute

---
 src/date_time_extra_functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 9d47fa7..7ad5851 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -184,7 +184,9 @@ pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn concat_tod(in1: u32, in2: u32, in3: u32, in4: u32) -> i64 {
+    // chrono represents leap seconds by milliseconds exceeding 999, there is no such TOD
     let dt = NaiveDate::from_ymd_opt(1970, 1, 1)
+        .filter(|_| in4 < 1000)
         .and_then(|date| date.and_hms_milli_opt(in1, in2, in3, in4))
         .expect("Invalid parameters, cannot create TOD");
     dt.timestamp_nanos()
-- 
2.43.0


From ce05993daf90effc943d59192bcd3a57a293c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 13/19] fix: a null pointer was turned into a slice, which is
 undefined behavior

---
 src/string_functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index 2f21dac..fca9657 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -33,6 +33,10 @@ pub unsafe fn get_null_terminated_len<T: num::PrimInt>(src: *const T) -> usize {
 ///
 /// Works on raw pointers, inherently unsafe.
 pub unsafe fn ptr_to_slice<'a, T: num::PrimInt>(src: *const T) -> &'a [T] {
+    if src.is_null() {
+        return &[];
+    }
+
     let nbytes = get_null_terminated_len(src);
     std::slice::from_raw_parts(src, nbytes)
 }
-- 
2.43.0


From 29a94239b0226a7c4ca85d4a14a3613c580e0928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 14/19] fix: the start time of timers exceeded the buffer
 declared for it in the ST instance

The enum introduced for zero-initialized instances pushed the start time into the padding
behind the declared variables, which is lost if an instance is copied variable by variable.
---
 src/timers.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 4332882..e2cdd5d 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -12,19 +12,6 @@ pub mod test_time_helpers;
 
 pub type Time = i64;
 
-/// The point in time at which a timer was started.
-///
-/// Instances of the function blocks are allocated and zero-initialized by the ST code, the all-zero
-/// pattern must therefore denote a timer which was not started. This is not guaranteed for an
-/// `Option<Instant>`.
-#[repr(u8)]
-#[derive(Debug, Default, Clone, Copy)]
-enum StartTime {
-    #[default]
-    NotStarted = 0,
-    Started(Instant) = 1,
-}
-
 #[repr(C)]
 #[derive(Debug, Default)]
 pub struct TimerParams {
@@ -33,7 +20,10 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
-    start_time: StartTime,
+    /// Instances are allocated and zero-initialized by the ST code, which may or may not be `None`
+    /// for the start time. It is only meaningful if the timer has been started.
+    started: bool,
+    start_time: Option<Instant>,
 }
 
 impl TimerParams {
@@ -41,16 +31,18 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        matches!(self.start_time, StartTime::Started(_))
+        self.started
     }
 
     fn start(&mut self) {
-        self.start_time = StartTime::Started(Instant::now());
+        self.started = true;
+        self.start_time = Some(Instant::now());
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
-        self.start_time = StartTime::NotStarted;
+        self.started = false;
+        self.start_time = None;
         self.set_elapsed_time(0);
     }
 
@@ -80,9 +72,10 @@ impl TimerParams {
     }
 
     fn get_run_time(&self) -> Option<Duration> {
-        match self.start_time {
-            StartTime::NotStarted => None,
-            StartTime::Started(it) => Some(it.elapsed()),
+        if self.started {
+            self.start_time.map(|it| it.elapsed())
+        } else {
+            None
         }
     }
 
-- 
2.43.0


From 96a47f6757ad7f4e8deaaf576b5f02955e6b5b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:57 +0000
Subject: [PATCH 15/19] fix: SPLIT_LDT__* are implemented in ST, not in the
 library

They were declared {external} though no such symbols are exported: a program
which uses them could not be linked.
---
 iec61131-st/date_time_extra_functions.st | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/iec61131-st/date_time_extra_functions.st b/iec61131-st/date_time_extra_functions.st
index bc28622..da876c3 100644
--- a/iec61131-st/date_time_extra_functions.st
+++ b/iec61131-st/date_time_extra_functions.st
@@ -796,7 +796,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for INT *)
-{external}
 FUNCTION SPLIT_LDT__INT : INT
 VAR_INPUT
 	in : LDT;
@@ -814,7 +813,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UINT *)
-{external}
 FUNCTION SPLIT_LDT__UINT : INT
 VAR_INPUT
 	in : LDT;
@@ -832,7 +830,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for DINT *)
-{external}
 FUNCTION SPLIT_LDT__DINT : INT
 VAR_INPUT
 	in : LDT;
@@ -850,7 +847,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for UDINT *)
-{external}
 FUNCTION SPLIT_LDT__UDINT : INT
 VAR_INPUT
 	in : LDT;
@@ -868,7 +864,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for LINT *)
-{external}
 FUNCTION SPLIT_LDT__LINT : INT
 VAR_INPUT
 	in : LDT;
@@ -886,7 +881,6 @@ END_VAR
 END_FUNCTION
 
 (* Specialized implementation of SPLIT_LDT for ULINT *)
-{external}
 FUNCTION SPLIT_LDT__ULINT : INT
 VAR_INPUT
 	in : LDT;
-- 
2.43.0


From 55a1ed29ade6f1ead9a43ba5f354c7e8c9c0d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:57 +0000
Subject: [PATCH 16/19] fix: WSTRING_TO_DINT refuses what does not fit a DINT

It converted to LINT and cut the upper half off, e.g. "4294967296" became 0,
while STRING_TO_DINT refuses such texts.
---
 iec61131-st/extra_functions.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index d87365d..ea27a93 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -679,7 +679,7 @@ VAR_TEMP
     STR : STRING;
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
-    WSTRING_TO_DINT := STRING_TO_LINT(STR);
+    WSTRING_TO_DINT := STRING_TO_DINT(STR);
 END_FUNCTION
 
 (******************************************************************************
-- 
2.43.0


From 6cff75fc1ae8e4f4a2f672b37d1ebc09182ec5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:57 +0000
Subject: [PATCH 17/19] fix: room for the intermediate text of
 WSTRING_TO_<number>

WSTRING_TO_STRING_EXT writes up to three bytes per WCHAR of a WSTRING of any
length; the 81 bytes of a STRING were overrun by long or non-ASCII texts.
---
 iec61131-st/extra_functions.st | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iec61131-st/extra_functions.st b/iec61131-st/extra_functions.st
index ea27a93..8cf55f7 100644
--- a/iec61131-st/extra_functions.st
+++ b/iec61131-st/extra_functions.st
@@ -496,7 +496,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LINT := STRING_TO_LINT(STR);
@@ -676,7 +676,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_DINT := STRING_TO_DINT(STR);
@@ -716,7 +716,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_LREAL := STRING_TO_LREAL(STR);
@@ -732,7 +732,7 @@ VAR_INPUT {ref}
     IN : WSTRING;
 END_VAR
 VAR_TEMP
-    STR : STRING;
+    STR : STRING[__STRING_LENGTH];
 END_VAR
     WSTRING_TO_STRING_EXT(IN, STR);
     WSTRING_TO_REAL := STRING_TO_REAL(STR);
-- 
2.43.0


From 8b9178d6cf146574789db5f4e2f645bfd6f37e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:57 +0000
Subject: [PATCH 18/19] fix: EXPT with exponents beyond DINT

UDINT, ULINT and LINT exponents were cut to DINT: EXPT(2.0, UDINT#4294967295)
was 0.5. LREAL holds the exponent with its sign and magnitude.
---
 iec61131-st/arithmetic_functions.st | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/iec61131-st/arithmetic_functions.st b/iec61131-st/arithmetic_functions.st
index 2df8690..4b4b0d7 100644
--- a/iec61131-st/arithmetic_functions.st
+++ b/iec61131-st/arithmetic_functions.st
@@ -188,7 +188,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : UDINT;
 END_VAR
-    EXPT__REAL__UDINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__UDINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__REAL__ULINT : REAL
@@ -196,7 +196,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : ULINT;
 END_VAR
-    EXPT__REAL__ULINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__ULINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__REAL__SINT : REAL
@@ -220,7 +220,7 @@ VAR_INPUT
 	in1 : REAL;
 	in2 : LINT;
 END_VAR
-    EXPT__REAL__LINT := EXPT__REAL__DINT(in1, in2);
+    EXPT__REAL__LINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__USINT : LREAL
@@ -244,7 +244,7 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : UDINT;
 END_VAR
-    EXPT__LREAL__UDINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__UDINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__ULINT : LREAL
@@ -252,7 +252,7 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : ULINT;
 END_VAR
-    EXPT__LREAL__ULINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__ULINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
 
 FUNCTION EXPT__LREAL__SINT : LREAL
@@ -276,5 +276,5 @@ VAR_INPUT
 	in1 : LREAL;
 	in2 : LINT;
 END_VAR
-    EXPT__LREAL__LINT := EXPT__LREAL__DINT(in1, in2);
+    EXPT__LREAL__LINT := EXPT__LREAL__LREAL(in1, in2);
 END_FUNCTION
-- 
2.43.0


From 40953da9b099e22098d28043391ad476826efc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:57 +0000
Subject: [PATCH 19/19] fix: CHAR_TO_STRING and WCHAR_TO_WSTRING read beyond
 their parameter

A whole (W)STRING was read through a pointer to a parameter of one character:
what followed it in memory became part of the text, without a terminator.
---
 iec61131-st/string_conversion.st | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iec61131-st/string_conversion.st b/iec61131-st/string_conversion.st
index 31b1919..c622475 100644
--- a/iec61131-st/string_conversion.st
+++ b/iec61131-st/string_conversion.st
@@ -85,9 +85,11 @@ VAR_INPUT
 	in : WCHAR;
 END_VAR
 VAR
+	chars : ARRAY[0..80] OF WCHAR;
 	ptr : REF_TO WSTRING;
 END_VAR
-	ptr := &in;
+	chars[0] := in;
+	ptr := &chars;
 	WCHAR_TO_WSTRING := ptr^;
 END_FUNCTION
 
@@ -113,9 +115,11 @@ VAR_INPUT
 	in : CHAR;
 END_VAR
 VAR
+	chars : ARRAY[0..80] OF CHAR;
 	ptr : REF_TO STRING;
 END_VAR
-	ptr := &in;
+	chars[0] := in;
+	ptr := &chars;
 	CHAR_TO_STRING := ptr^;
 END_FUNCTION
 
-- 
2.43.0

