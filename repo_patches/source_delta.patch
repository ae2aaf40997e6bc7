From 93b632754b5453a25dbb0ecf1beaaacd5e17fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 1/7] fix: reset the last output when OneZero and TwoZero are
 cleared

---
 src/filter/one_zero.rs | 1 +
 src/filter/two_zero.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/filter/one_zero.rs b/src/filter/one_zero.rs
index 0e9dd3f..2d69777 100644
--- a/src/filter/one_zero.rs
+++ b/src/filter/one_zero.rs
@@ -61,6 +61,7 @@ impl<T> Processor<T> for OneZero<T> where T: Float {
 
   fn clear(&mut self) {
     self.x_z1 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
diff --git a/src/filter/two_zero.rs b/src/filter/two_zero.rs
index d9955a4..963503e 100644
--- a/src/filter/two_zero.rs
+++ b/src/filter/two_zero.rs
@@ -68,6 +68,7 @@ impl<T> Processor<T> for TwoZero<T> where T: Float {
   fn clear(&mut self) {
     self.x_z1 = num::zero();
     self.x_z2 = num::zero();
+    self.output = num::zero();
   }
 
   fn last_out(&self) -> T {
-- 
2.43.0


From 89c017b455569334454bd495c7d9bdccd811b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 2/7] fix: process_block accepts an empty block

---
 src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traits.rs b/src/traits.rs
index 9448140..6fef79b 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -40,7 +40,7 @@ pub trait Processor<T: Float> {
     for sample in samples.iter_mut() {
       *sample = self.process(*sample);
     }
-    *samples.last().unwrap()
+    self.last_out()
   }
 
   /// Resets memory of all previous input and output to zero.
-- 
2.43.0


From b4db91dce9d2d615106fae90bdc9d964c7c2872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 3/7] fix: LinearDelay weights when the read position rounds up
 to the buffer length

---
 src/delay/linear_delay.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 689a243..310f3fc 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -105,6 +105,7 @@ impl<T> LinearDelay<T> where T: Float {
     self.read_ptr = read_ptr_integer as usize;
     if self.read_ptr == self.memory.len() {
       self.read_ptr = 0;
+      read_ptr_integer = 0f32;
     }
 
     // save fractional part
-- 
2.43.0


From 64e9d30bcd968fbe02be96b2ba9a4f4475c0d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 4/7] fix: LinearDelay drops its cached next output whenever it
 becomes stale

---
 src/delay/linear_delay.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 310f3fc..01cddcf 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -111,6 +111,7 @@ impl<T> LinearDelay<T> where T: Float {
     // save fractional part
     self.alpha = num::cast(read_ptr_integer - self.read_ptr as f32).unwrap();
     self.om_alpha = T::one() - self.alpha;
+    self.do_next_out = true;
   }
 
   /// Returns the current delay-line length, in samples.
@@ -146,7 +147,8 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
     self.write_ptr += 1;
     self.write_ptr %= self.memory.len();
 
-    // interpolate
+    // interpolate, the cached value may predate the sample just written
+    self.do_next_out = true;
     self.output = self.next_out();
     self.do_next_out = true;
 
@@ -162,6 +164,7 @@ impl<T> Processor<T> for LinearDelay<T> where T: Float {
       *sample = num::zero();
     }
     self.output = num::zero();
+    self.do_next_out = true;
   }
 
   fn last_out(&self) -> T {
@@ -184,6 +187,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = value;
+    self.do_next_out = true;
   }
 
   fn add_to(&mut self, value: T, tap_delay: usize) -> T {
@@ -192,6 +196,7 @@ impl<T> TappableDelayLine<T> for LinearDelay<T> where T: Float {
       tap += self.memory.len() as isize;
     }
     self.memory[tap as usize] = self.memory[tap as usize] + value;
+    self.do_next_out = true;
     self.memory[tap as usize]
   }
 }
-- 
2.43.0


From b31e3be294751bfcca120c8d72cbc4c820f6da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 5/7] fix: set_max_delay keeps the stored samples in order and
 the delay unchanged

---
 src/delay/linear_delay.rs | 5 +++++
 src/delay/mod.rs          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/delay/linear_delay.rs b/src/delay/linear_delay.rs
index 01cddcf..21beff1 100644
--- a/src/delay/linear_delay.rs
+++ b/src/delay/linear_delay.rs
@@ -73,7 +73,12 @@ impl<T> LinearDelay<T> where T: Float {
   /// Set the maximum delay-line length, in samples.
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
+    // oldest sample first, so the new space follows the newest sample
+    self.memory.rotate_left(self.write_ptr);
+    self.write_ptr = self.memory.len();
     self.memory.resize(delay + 1, num::zero());
+    let delay_time = self.delay;
+    self.set_delay(delay_time);
   }
 
   /// Returns the maximum delay-line length, in samples.
diff --git a/src/delay/mod.rs b/src/delay/mod.rs
index bca6508..913c8d3 100644
--- a/src/delay/mod.rs
+++ b/src/delay/mod.rs
@@ -65,7 +65,12 @@ impl<T> Delay<T> where T: Float {
   pub fn set_max_delay(&mut self, delay: usize) {
     if delay < self.memory.len() { return; }
     else {
+      // oldest sample first, so the new space follows the newest sample
+      self.memory.rotate_left(self.write_ptr);
+      self.write_ptr = self.memory.len();
       self.memory.resize(delay + 1, num::zero());
+      let delay_time = self.delay;
+      self.set_delay(delay_time);
     }
   }
 
-- 
2.43.0


From c400e741f6fbc5bb95ec57ae4245f3f4a0c8a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 6/7] fix: window iterators report the number of remaining
 values

---
 src/window/bartlett.rs        | 7 ++++++-
 src/window/blackman.rs        | 7 ++++++-
 src/window/blackman_harris.rs | 7 ++++++-
 src/window/hamming.rs         | 7 ++++++-
 src/window/hann.rs            | 7 ++++++-
 src/window/triangular.rs      | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index c3d456a..a49ab09 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for BartlettIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BartlettIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index aef628d..907a015 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -49,11 +49,16 @@ impl<T> Iterator for BlackmanIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 161d932..85f2102 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -51,11 +51,16 @@ impl<T> Iterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for BlackmanHarrisIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index fc568e2..f2db06c 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -47,11 +47,16 @@ impl<T> Iterator for HammingIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HammingIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/hann.rs b/src/window/hann.rs
index eca348e..cb81967 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -46,11 +46,16 @@ impl<T> Iterator for HannIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for HannIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
diff --git a/src/window/triangular.rs b/src/window/triangular.rs
index f646116..76fe6f6 100644
--- a/src/window/triangular.rs
+++ b/src/window/triangular.rs
@@ -48,11 +48,16 @@ impl<T> Iterator for TriangularIter<T> where T: Float + FloatConst {
       None
     }
   }
+
+  fn size_hint(&self) -> (usize, Option<usize>) {
+    let remaining = self.size - self.index;
+    (remaining, Some(remaining))
+  }
 }
 
 impl<T> ExactSizeIterator for TriangularIter<T> where T: Float + FloatConst {
   fn len(&self) -> usize {
-    self.size
+    self.size - self.index
   }
 }
 
-- 
2.43.0


From 78f9dc20d3b3571b6fdb7bcb1419a09314e829e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 7/7] fix: windows of size one are the single value one instead
 of NaN

---
 src/window/bartlett.rs        | 3 +++
 src/window/blackman.rs        | 3 +++
 src/window/blackman_harris.rs | 3 +++
 src/window/hamming.rs         | 3 +++
 src/window/hann.rs            | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/window/bartlett.rs b/src/window/bartlett.rs
index a49ab09..3c5b456 100644
--- a/src/window/bartlett.rs
+++ b/src/window/bartlett.rs
@@ -21,6 +21,9 @@ impl<T> BartlettIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // the formula divides by size - 1
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/blackman.rs b/src/window/blackman.rs
index 907a015..734be97 100644
--- a/src/window/blackman.rs
+++ b/src/window/blackman.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // the formula divides by size - 1
+    if self.size == 1 { return T::one(); }
+
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
     let size_minus_one : T = num::cast(self.size - 1).unwrap();
diff --git a/src/window/blackman_harris.rs b/src/window/blackman_harris.rs
index 85f2102..7e39c53 100644
--- a/src/window/blackman_harris.rs
+++ b/src/window/blackman_harris.rs
@@ -23,6 +23,9 @@ impl<T> BlackmanHarrisIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // the formula divides by size - 1
+    if self.size == 1 { return T::one(); }
+
     let two            : T = T::two();
     let three          : T = num::cast(3f64).unwrap();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hamming.rs b/src/window/hamming.rs
index f2db06c..00cce75 100644
--- a/src/window/hamming.rs
+++ b/src/window/hamming.rs
@@ -21,6 +21,9 @@ impl<T> HammingIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // the formula divides by size - 1
+    if self.size == 1 { return T::one(); }
+
     let one: T = T::one();
     let two: T = T::two();
     let index_float    : T = num::cast(self.index).unwrap();
diff --git a/src/window/hann.rs b/src/window/hann.rs
index cb81967..3fd6130 100644
--- a/src/window/hann.rs
+++ b/src/window/hann.rs
@@ -21,6 +21,9 @@ impl<T> HannIter<T> where T: Float + FloatConst {
   }
 
   fn generate_window(&self) -> T {
+    // the formula divides by size - 1
+    if self.size == 1 { return T::one(); }
+
     let one : T = T::one();
     let two : T = T::two();
     let half: T = num::cast(0.5f64).unwrap();
-- 
2.43.0

