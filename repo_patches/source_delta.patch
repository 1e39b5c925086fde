From 4b5856a0f3bc7e6338843e79e7d33cc4fa28774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:59 +0000
Subject: [PATCH 01/17] fix: read whole records from the image and label files

A read may return fewer bytes than asked for or be interrupted, and the
files may end early. The loaders took whatever was in the buffer as a
record. Read until the buffer is full, stop the batch at the end of either
file and keep failing on real read errors.
---
 src/dataset/mod.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..ca62656 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -3,7 +3,7 @@
 
 use std::fmt::Display;
 use std::{fmt::Debug, fs::File, slice::Iter, vec::IntoIter};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 use crate::math::cfloat::Cf32;
 use crate::math::random::{lcgf32, lcgi};
@@ -96,6 +96,16 @@ const MINIST_TRAIN_LABEL_SIZE: usize = MINIST_TRAIN_POINTS + 8;
 const _MINIST_TEST_LABEL_SIZE: usize = 4542;
 const MINIST_IMAGE_DIMS: (usize, usize) = (28, 28);
 
+/// Fills the whole buffer from the file, going on after partial and interrupted reads.
+/// Returns `false` if the file ends before the buffer is full.
+fn read_full(file: &mut File, buffer: &mut [u8]) -> bool {
+  match file.read_exact(buffer) {
+    Ok(()) => { true },
+    Err(err) if err.kind() == ErrorKind::UnexpectedEof => { false },
+    Err(err) => { panic!("Could not read the data file: {}", err) }
+  }
+}
+
 impl<T: Real + BasicOperations<T>> Dataset<T, T> {
   /// To extract a batch of real pixels from MINIST training or test dataset.
   pub fn minist_as_batch(
@@ -108,9 +118,10 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      if !read_full(data_file, &mut [0u8; 16]) { return Dataset::new() }
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      if !read_full(label_file, &mut [0u8; 8]) { return Dataset::new() }
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -119,8 +130,9 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      if !read_full(data_file, image_buffer) { break; }
+      if !read_full(label_file, label_buffer) { break; }
+      *tracker += 1;
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -143,9 +155,10 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      if !read_full(data_file, &mut [0u8; 16]) { return Dataset::new() }
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      if !read_full(label_file, &mut [0u8; 8]) { return Dataset::new() }
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -154,8 +167,9 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      if !read_full(data_file, image_buffer) { break; }
+      if !read_full(label_file, label_buffer) { break; }
+      *tracker += 1;
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From 6bec07430c819c5b04aef3c1793c0cf119d6a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:38 +0000
Subject: [PATCH 02/17] fix: treat a convolution layer without kernels as empty

---
 src/cvnn/layer/conv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..48f0bd0 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -20,7 +20,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
   /// 
   /// This function will soon be deleted.
   pub fn is_empty(&self) -> bool {
-    if self.kernels.get_shape() == &[0, 0] { true }
+    if self.kernels.get_body().is_empty() { true }
     else { false }
   }
 
-- 
2.43.0


From c1df98081222a7300a5b6f5bae180d54c26c9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:38 +0000
Subject: [PATCH 03/17] fix: divide the squared error by the number of outputs

---
 src/opt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..744a1d6 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -46,7 +46,7 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -72,7 +72,7 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From 4c32193d9cf1f654a863e26cda67dd9379d7d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:02 +0000
Subject: [PATCH 04/17] fix: give the phase of 64-bit complex numbers in the
 full circle

---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..f106bf5 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From 0cf44f151abcce77627c5f4a94d679176341e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:19 +0000
Subject: [PATCH 05/17] fix: centre and pad fractional up-sampling for every
 block and kernel size

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..0004e1c 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -586,7 +586,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
@@ -621,7 +621,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From b95fb95cd7609f85be39dd6953f498569fd7f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:37 +0000
Subject: [PATCH 06/17] fix: correct the derivatives of the cardioid activation

---
 src/act/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..d6d6da9 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -255,8 +255,8 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
 
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
-  let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let x_factor = 0.5 * sin / norm;
+  let y_factor = -0.5 * cos / norm;
 
   let dfdx = Cf32::new(
     2.0 * x_factor * unfactor_re,
@@ -283,8 +283,8 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
 
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
-  let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let x_factor = 0.5 * sin / norm;
+  let y_factor = -0.5 * cos / norm;
 
   let dfdx = Cf64::new(
     2.0 * x_factor * unfactor_re,
@@ -311,8 +311,8 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
 
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
-  let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let x_factor = 0.5 * sin / norm;
+  let y_factor = -0.5 * cos / norm;
 
   let dfdx = Cf32::new(
     2.0 * x_factor * unfactor_re,
@@ -339,8 +339,8 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
 
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
-  let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let x_factor = 0.5 * sin / norm;
+  let y_factor = -0.5 * cos / norm;
 
   let dfdx = Cf64::new(
     2.0 * x_factor * unfactor_re,
-- 
2.43.0


From fc493a51b653261642a95e2e6a6506cddf684733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:46 +0000
Subject: [PATCH 07/17] fix: propagate both derivative terms through a
 convolution layer

---
 src/cvnn/layer/conv.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 48f0bd0..fbe02e0 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -258,8 +258,9 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
             })
             .collect::<Vec<_>>();
           /* calculate loss derivative */
-          let dlda_padded = dlda_dadq_feat.clone().pad((padx, pady));
-          let dlda_conj_padded = dlda_conj_da_conj_dq_feat.clone().pad((padx, pady));
+          let mut dldq_feat = dlda_dadq_feat.clone();
+          dldq_feat.add_mut(&dlda_conj_da_conj_dq_feat).unwrap();
+          let dlda_padded = dldq_feat.pad((padx, pady));
 
           let oper_b = || {
             let new_dlda_acc = fliped_filter
@@ -272,15 +273,10 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
                   .export_body()
               }).collect::<Vec<_>>();
             
-            let new_dlda_conj_acc = fliped_filter
+            let new_dlda_conj_acc = new_dlda_acc
               .iter()
-              .flat_map(|flip_kernel| {
-                /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_conj_padded
-                  .convolution(flip_kernel)
-                  .unwrap()
-                  .export_body()
-              }).collect::<Vec<_>>();
+              .map(|elm| { elm.conj() })
+              .collect::<Vec<_>>();
             
             (new_dlda_acc, new_dlda_conj_acc)
           };
-- 
2.43.0


From ba299920522bf20a7944409d6e868d93014c32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:03 +0000
Subject: [PATCH 08/17] fix: use the original real part in assigning
 multiplication and division

---
 src/math/cfloat/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..40860b1 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,8 +212,9 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    let x = self.x;
+    self.x = x * rhs.x - self.y * rhs.y;
+    self.y = x * rhs.y + self.y * rhs.x;
   }
 }
 
@@ -223,8 +224,9 @@ impl DivAssign for Cf32 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    let x = self.x;
+    self.x = (x * rhs.x + self.y * rhs.y) / den;
+    self.y = (self.y * rhs.x - x * rhs.y) / den;
   }
 }
 
@@ -347,8 +349,9 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    let x = self.x;
+    self.x = x * rhs.x - self.y * rhs.y;
+    self.y = x * rhs.y + self.y * rhs.x;
   }
 }
 
@@ -358,8 +361,9 @@ impl DivAssign for Cf64 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    let x = self.x;
+    self.x = (x * rhs.x + self.y * rhs.y) / den;
+    self.y = (self.y * rhs.x - x * rhs.y) / den;
   }
 }
 
-- 
2.43.0


From ead710c2f28af28269863de533821d504e9b04c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:16 +0000
Subject: [PATCH 09/17] fix: accept a column exactly if its length matches and
 it fits

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 0004e1c..f47d0ed 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if self.shape[0] == 0 || col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 3d2f606d14562537647404ad5b0f67ace86e1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:24 +0000
Subject: [PATCH 10/17] fix: refuse to flush a first row longer than the
 capacity

---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index f47d0ed..6b1fb81 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -206,7 +206,7 @@ impl<T> Matrix<T> {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 4569cca2fcd43723fd8ac4c795d107b64d8187b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:56 +0000
Subject: [PATCH 11/17] fix: keep random indices below their limit

---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..6969a09 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * *seed + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( *seed / ( (m-1) / limit ) ).min(limit - 1) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 95db5eacdeded65b3d255496ceb3b413564ec6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:04 +0000
Subject: [PATCH 12/17] fix: keep the Box-Muller transform finite when a draw
 is zero

---
 src/dataset/mod.rs | 4 ++--
 src/math/mod.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index ca62656..7699c3e 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -300,7 +300,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -322,7 +322,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
diff --git a/src/math/mod.rs b/src/math/mod.rs
index f106bf5..add4e1a 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,7 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +283,7 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +406,7 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +442,7 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From 79b0b566b24c8bf68bca2002bf767b6611bb2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:48 +0000
Subject: [PATCH 13/17] fix: let random draws start from any seed

Seeds of 2^97 and more overflowed the multiplication.
Reducing the seed first gives the same values for all smaller seeds.
---
 src/math/random/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 6969a09..c14412f 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     ( *seed / ( (m-1) / limit ) ).min(limit - 1) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 41dc8e01e506f1e9206c435fb892946f0af11e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:48 +0000
Subject: [PATCH 14/17] fix: draw indices below limits of 2^31 and more

The width of one index was rounded down to zero and divided by.
---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index c14412f..eb2af63 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ).min(limit - 1) as usize
+    ( *seed / ( (m-1) / limit ).max(1) ).min(limit - 1) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 83ca6ee281670d28c1fa2dc710c3b42f3d6c9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:08 +0000
Subject: [PATCH 15/17] fix: iterate over and export matrices without columns

Splitting an empty body into rows of zero elements panicked.
---
 src/math/matrix/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 6b1fb81..ff07631 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -284,12 +284,12 @@ impl<T> Matrix<T> {
 
   /// Returns an iterator that goes through the rows of the matrix.
   pub fn rows_as_iter(&self) -> std::slice::Chunks<'_, T> {
-    self.body.chunks(self.shape[1])
+    self.body.chunks(self.shape[1].max(1))
   }
 
   /// Returns an iterator that goes through mutable rows of the matrix.
   pub fn rows_as_iter_mut(&mut self) -> std::slice::ChunksMut<'_, T> {
-    self.body.chunks_mut(self.shape[1])
+    self.body.chunks_mut(self.shape[1].max(1))
   }
 
   /// Returns the i-th slider of matrix with the number of rows of `rows`. 
@@ -299,7 +299,7 @@ impl<T> Matrix<T> {
     let start = i*cols;
     let end = i*cols + rows*cols;
 
-    self.body[start..end].chunks(cols)
+    self.body[start..end].chunks(cols.max(1))
   }
 
   /// Consumes the matrix and puts its body into an iterator.
@@ -311,7 +311,7 @@ impl<T> Matrix<T> {
 impl<T: Sync> Matrix<T> {
   /// Returns rows as parallel chunks with the help of rayon.
   pub fn rows_as_par_chunks(&self) -> rayon::slice::Chunks<'_, T> {
-    self.body.par_chunks(self.shape[1])
+    self.body.par_chunks(self.shape[1].max(1))
   }
 }
 
@@ -793,7 +793,7 @@ impl<T: Copy> SliceToMatrix<T> for [T] {
 impl<T: Debug> Display for Matrix<T> {
 
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    for elm in self.body.chunks(self.shape[1]) {
+    for elm in self.body.chunks(self.shape[1].max(1)) {
       writeln!(f, "{:?}", elm)?;
     }
 
@@ -806,7 +806,7 @@ impl<T: Display + Copy> Matrix<T> {
     let mut file = File::create(path)?;
     
     let data_row_len = self.get_shape()[1];
-    let data_chunks = self.get_body().chunks(data_row_len);
+    let data_chunks = self.get_body().chunks(data_row_len.max(1));
 
     for row in data_chunks {
       for val in row.into_iter() {
-- 
2.43.0


From 0f7e5f5b166a4780cba992145517ed9098175fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:50 +0000
Subject: [PATCH 16/17] fix: refuse rows of another width when a matrix already
 has empty rows

add_mut_row treated any matrix of width zero as one without rows. After a
row without elements it accepted a row of any width, which left a matrix
whose shape and body no longer agree. The condition is now the one add_row
already uses.
---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ff07631..3db006a 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -202,7 +202,7 @@ impl<T> Matrix<T> {
   /// * `row` - mutable reference to a generic `Vec<T>`. 
   ///           Gets flushed after the addition of the row to `Matrix<T>`.
   pub fn add_mut_row(&mut self, row: &mut Vec<T>) -> Result<(), UpdateError> {
-    if !(row.len() == self.shape[1] || self.shape[1] == 0) {
+    if !(row.len() == self.shape[1] || self.shape == [0, 0]) {
       return Err(UpdateError::InconsistentLength);
     }
     
-- 
2.43.0


From 0cef10412f63165aa020310bb001a4314082225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:15 +0000
Subject: [PATCH 17/17] fix: refuse a critical index equal to the prediction
 size instead of panicking

---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index add4e1a..ebc3375 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -294,7 +294,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -454,7 +454,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0

