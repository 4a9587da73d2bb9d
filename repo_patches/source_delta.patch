From 45e00bd325b54416659e606394462b098a0773c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 01/17] fix: get_sub_slice overflows for huge lengths

offset + sub_length panics with overflow checks and wraps without them,
which grants a sub-slice far outside its parent.
---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f23b5c..fdd49a4 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -120,7 +120,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if offset + sub_length >= self.length {
+        if sub_length >= self.length - offset {
             return Err(LengthOutOfBound);
         }
 
-- 
2.43.0


From de98bdd96f12916661b9f2869096b55977f5ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 02/17] fix: lerp on an empty slice and on the last sample of
 longer slices

length - 1 underflows on an empty slice, and adding 10 * EPSILON is
rounded away from length 33 on, so the last sample was out of bound.
---
 src/memory/memory_slice.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index fdd49a4..ec91ddc 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -204,16 +204,17 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32
-            && index < self.length as f32 - 1.0 + 10.0 * f32::EPSILON
-        {
-            return Ok(unsafe { self.get_unchecked(index as usize) });
+        let int_index = index as usize;
+        let a = self.get(int_index)?;
+
+        // no right neighbour needed (or available, on the last sample)
+        if index == int_index as f32 {
+            return Ok(a);
         }
 
-        let a = self.get(index as usize)?;
-        let b = self.get(index as usize + 1)?;
+        let b = self.get(int_index + 1)?;
 
-        Ok(lerp_unchecked(a, b, index - (index as usize) as f32))
+        Ok(lerp_unchecked(a, b, index - int_index as f32))
     }
 
     #[inline(always)]
-- 
2.43.0


From c6ae3f456c4672dd35f6c983b03d30d2168ec1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 03/17] fix: lagrange_wrapped reads the wrong place of its
 window

The fraction was used as the position in a window that begins before the
floor, so integer positions returned another sample; odd windows also
lacked their last sample.
---
 src/memory/memory_slice.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index ec91ddc..eca6c70 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -238,7 +238,7 @@ where
             window_size = 100;
         }
 
-        let lower_bound = ((window_size / 2) as isize).neg() + 1;
+        let lower_bound = ((window_size.saturating_sub(1) / 2) as isize).neg();
         let upper_bound = (window_size / 2) as isize;
 
         for i in lower_bound..=upper_bound {
@@ -248,7 +248,11 @@ where
             }
         }
 
-        lagrange(&slice[..window_size], index - int_index as f32)
+        // position within the window, which begins at `lower_bound`
+        lagrange(
+            &slice[..window_size],
+            index - int_index as f32 + lower_bound.neg() as f32,
+        )
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
-- 
2.43.0


From 6f16861097a9aef1f2e4378c3e0c09bc99378a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 04/17] fix: lagrange_four_points_wrapped evaluates at the
 whole index

The four samples begin at the floor of the index, so only the fraction
is the position between them.
---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index eca6c70..ee534dc 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -259,7 +259,7 @@ where
         unsafe {
             lagrange_only_4_elements(
                 &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index,
+                index - index.floor(),
             )
         }
     }
-- 
2.43.0


From 51955a3e448500a042f46602fcd927b4b6f76560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 05/17] fix: change_buffer keeps an index beyond a shorter
 buffer

The next read and write would go past the end of the new buffer.
---
 src/delay_line.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index a29b9a4..2fd1fd5 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -18,6 +18,11 @@ impl DelayLine {
     #[inline(always)]
     pub fn change_buffer(&mut self, new_slice: MemorySlice<Mutable>) {
         self.buffer = new_slice;
+
+        // never point beyond the new buffer
+        if self.index >= self.buffer.len() {
+            self.index = 0;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 9545d01ef94fc8722ace30aa7a2d8ce701efc5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 06/17] fix: cap the envelope increment at one stage per tick

A stage time of 0 gave an increment of f32::MAX. Raising that to the slope
left the range of the power approximation (debug panic or a bogus value), and
a note-on from sustain summed it to infinity, leaving the envelope stuck in
attack.
---
 src/envelope.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8fe88ab..b247a14 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -177,7 +177,9 @@ impl AudioRateADSR {
 }
 
 fn set_time_parameter(parameter_in_secs: f32, sr: f32) -> f32 {
-    (1.0 / (parameter_in_secs * sr)).clamp(SHORTEST_TIME_BASE / sr, f32::MAX)
+    (1.0 / (parameter_in_secs * sr))
+        .max(SHORTEST_TIME_BASE / sr)
+        .min(1.0)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5bf15340082fa87ec86d50aef5d8868de04d75bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 07/17] fix: release from the sustain level last heard

A sustain change while the note was held changed the output but not the level
the following release started from.
---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index b247a14..0eaff13 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -96,7 +96,10 @@ impl AudioRateADSR {
     pub fn tick(&mut self) -> f32 {
         match self.state {
             Idle => 0.0,
-            Sustain => self.sustain,
+            Sustain => {
+                self.envelope_value = self.sustain;
+                self.envelope_value
+            }
             Attack => self.next_attack(),
             Decay => self.next_decay(),
             Release => self.next_release(),
-- 
2.43.0


From 4613cbf7f5a92db447a77bc38362436fa1f6db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 08/17] fix: wavetable oscillator reads one sample past its
 table

The last table cell of each cycle was interpolated with the memory behind
the table instead of the first cell.
---
 src/oscillator/osc_wavetable.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oscillator/osc_wavetable.rs b/src/oscillator/osc_wavetable.rs
index e0614e5..06daabd 100644
--- a/src/oscillator/osc_wavetable.rs
+++ b/src/oscillator/osc_wavetable.rs
@@ -21,10 +21,8 @@ impl<PA: PhaseAccumulator> WavetableOscillator<PA> {
         let phase = self.acc.next_value_normalized();
 
         // get interpolated sample
-        unsafe {
-            self.lookup_table
-                .lerp_unchecked(self.lookup_table.len() as f32 * phase)
-        }
+        self.lookup_table
+            .lerp_wrapped(self.lookup_table.len() as f32 * phase)
     }
 
     #[inline(always)]
-- 
2.43.0


From a59adc76556437843d15d20fe70698d7daf55a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 09/17] fix: lookup_bl_rect reads one entry past its table

At 0.25 and 0.75 the position is the last entry, whose right neighbour lies
behind the table.
---
 src/float/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 9b6eb56..98f9ac0 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -165,22 +165,22 @@ impl AdditionalF32Ext for f32 {
 
         if *self <= 0.25 {
             let f_index = self * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.5 {
             let f_index = (0.25 - (self - 0.25)) * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.75 {
             let f_index = (self - 0.5) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self < 1.0 {
             let f_index = (0.25 - (self - 0.75)) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         return 0.0;
-- 
2.43.0


From d238b13d19d617a66dd6d8896f80662f2af367dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 10/17] fix: keep the normalized phase below 1

Phases above 2^32 - 2^7 rounded up to exactly 1.0, for which the rectangle
oscillator returned 3 instead of 1.
---
 src/oscillator/phase_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e3f456..df23e4d 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -46,7 +46,10 @@ impl PhaseAccumulator for SoftPhaseAccumulator {
     #[inline(always)]
     fn next_value_normalized(&mut self) -> f32 {
         self.tick();
-        self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0)
+        let phase = self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0);
+
+        // the highest phases round up to 1.0
+        phase.min(1.0 - f32::EPSILON / 2.0)
     }
 }
 
-- 
2.43.0


From 035bfb50c34c962345203002b8e08771d9c3058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 11/17] fix: checked frequency setter changes the accumulator
 and tests Nyquist

set_freq took the accumulator by value, so the frequency never reached the
caller's one, and never reported BiggerThanNyquist.
---
 src/oscillator/phase_accumulator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index df23e4d..f796096 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -75,7 +75,7 @@ impl SoftPhaseAccumulator {
             .wrapping_add((self.freq * self.min_step) as u32);
     }
 
-    pub fn set_freq(mut self, freq: f32) -> Result<(), FrequencyError> {
+    pub fn set_freq(&mut self, freq: f32) -> Result<(), FrequencyError> {
         if freq == 0.0 {
             return Err(Zero);
         }
@@ -84,6 +84,11 @@ impl SoftPhaseAccumulator {
             return Err(Negative);
         }
 
+        // half the sample rate is half the counter's range per tick
+        if freq * self.min_step > (1_u32 << 31) as f32 {
+            return Err(BiggerThanNyquist);
+        }
+
         return Ok(self.set_freq_unchecked(freq));
     }
 }
-- 
2.43.0


From 1071fd6020a3026879319ba92099a6770103c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 12/17] fix: Simpson's rule counts the odd terms twice

---
 src/float/integral.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/float/integral.rs b/src/float/integral.rs
index 343181d..24b3cc7 100644
--- a/src/float/integral.rs
+++ b/src/float/integral.rs
@@ -12,7 +12,6 @@ pub fn simpsons_rule<const N: usize>(f: fn(f32) -> f32, a: f32, b: f32) -> f32 {
         * (f(a)
             + 4.0 * y[1..N].iter().step_by(2).sum::<f32>()
             + 2.0 * y[2..N - 1].iter().step_by(2).sum::<f32>()
-            + 4.0 * y[1..].iter().step_by(2).sum::<f32>()
             + if N % 2 == 0 { f(b) } else { 0.0 });
     integral
 }
-- 
2.43.0


From a44904dc4a422096bdfd03cbc57453dc87d3467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 13/17] fix: decibels of ratios below 1 are up to 1 dB off

The no_std logarithm inverts arguments below 1 with an accuracy of 12 %.
---
 src/decibels.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index a9fcc1e..076a6df 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -20,7 +20,12 @@ pub trait Decibels {
 impl Decibels for f32 {
     #[inline(always)]
     fn to_decibels_unchecked(&self) -> f32 {
-        20.0 * self.log10()
+        // the no_std logarithm is only accurate from 1 upwards
+        if *self < 1.0 {
+            -20.0 * (1.0 / *self).log10()
+        } else {
+            20.0 * self.log10()
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 1b29962a25f612f79c62c817632bbaf4e64d1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 14/17] fix: checked decibel conversions of 0, infinity, NaN
 and subnormals

to_decibels returned -764 dB for 0 (a debug panic for -0.0) instead of -INF,
and NaN for NaN, infinity and subnormal ratios.
---
 src/decibels.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index 076a6df..5d80867 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -30,24 +30,29 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if self.is_nan() || *self < 0.0 {
             return Err(Nan);
         }
 
-        Ok(self.to_decibels_unchecked())
+        if *self == 0.0 {
+            return Ok(f32::NEG_INFINITY);
+        }
+
+        // the no_std logarithm handles neither infinity nor subnormals
+        if *self == f32::INFINITY {
+            return Ok(f32::INFINITY);
+        }
+
+        Ok(self.max(f32::MIN_POSITIVE).to_decibels_unchecked())
     }
 
     #[inline(always)]
     fn to_decibels_checked(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
-            return Err(Nan);
-        }
-
         if *self == 0.0 {
             return Err(Infinite);
         }
 
-        Ok(self.to_decibels_unchecked())
+        self.to_decibels()
     }
 
     #[inline(always)]
-- 
2.43.0


From b48e85f011342e7495f3afad10557256be7e0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 15/17] fix: wrapped interpolation beyond the 32-bit position
 range

---
 src/memory/memory_slice.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index ee534dc..1f96803 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -219,11 +219,11 @@ where
 
     #[inline(always)]
     pub fn lerp_wrapped(&self, index: f32) -> f32 {
-        let int_index = index.floor() as isize;
+        let (int_index, fraction) = split_position(index);
         let a = self.get_wrapped(int_index);
         let b = self.get_wrapped(int_index + 1);
 
-        lerp_unchecked(a, b, index - (int_index as f32))
+        lerp_unchecked(a, b, fraction)
     }
 
     ///////////////////////////////////////////////////////////////////////////////
@@ -231,7 +231,7 @@ where
     ///////////////////////////////////////////////////////////////////////////////
 
     pub fn lagrange_wrapped(&self, index: f32, mut window_size: usize) -> f32 {
-        let int_index = index.floor() as isize;
+        let (int_index, fraction) = split_position(index);
         let mut slice: [f32; 100] = [0.0_f32; 100];
 
         if window_size > 100 {
@@ -251,16 +251,15 @@ where
         // position within the window, which begins at `lower_bound`
         lagrange(
             &slice[..window_size],
-            index - int_index as f32 + lower_bound.neg() as f32,
+            fraction + lower_bound.neg() as f32,
         )
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let (int_index, fraction) = split_position(index);
+
         unsafe {
-            lagrange_only_4_elements(
-                &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index - index.floor(),
-            )
+            lagrange_only_4_elements(&self.get_slice_of_four_wrapped(int_index)[..], fraction)
         }
     }
 
@@ -341,6 +340,19 @@ where
     }
 }
 
+/// Splits a position into its floor and the fraction above it. (The `floor`
+/// approximation of `micromath` saturates at the 32-bit range.)
+#[inline(always)]
+fn split_position(index: f32) -> (isize, f32) {
+    let mut int_index = index as isize;
+
+    if int_index as f32 > index {
+        int_index -= 1;
+    }
+
+    (int_index, index - int_index as f32)
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 /// Common Type Conversions
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f8f65ee5fa2d4067b3c9e812c0a0336897465f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 16/17] fix: delay line taps at the ends of the offset range

---
 src/delay_line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index 2fd1fd5..047cf60 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -35,7 +35,9 @@ impl DelayLine {
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
-        self.buffer.get_wrapped(self.index as isize + offset)
+        // the remainder keeps the sum inside the range of isize
+        self.buffer
+            .get_wrapped(self.index as isize + offset % self.buffer.len() as isize)
     }
 
     pub fn read_lerp_wrapped_at(&self, offset: f32) -> f32 {
-- 
2.43.0


From 64e090f1c7f0889c00449e56fb570b55a1c45eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:20 +0000
Subject: [PATCH 17/17] fix: four-element wrapped read at the end of the index
 range

---
 src/memory/memory_slice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f96803..c87ac6f 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -166,6 +166,9 @@ where
     }
 
     pub fn get_slice_of_four_wrapped(&self, index: isize) -> [f32; 4] {
+        // the remainder keeps the sums inside the range of isize
+        let index = index % self.length as isize;
+
         if index + 3 >= self.length as isize || index < 0 {
             unsafe {
                 [
-- 
2.43.0

