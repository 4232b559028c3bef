From 0a5cf148dfa56fdab6561d799205f91bc47e44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 01/22] fix: read_file returned a truncated, zero-padded buffer
 after a short or interrupted read

---
 src/io/read_file.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..f5553bc 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -4,13 +4,10 @@ use crate::tensor::Tensor;
 
 pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std::io::Error> {
     let mut file = File::open(&filename.into()[0])?;
-    let len = file.metadata()?.len();
 
     let mut data: Vec<u8> = Vec::new();
-    data.reserve_exact(len as usize);
-    data.resize(len as usize, 0);
 
-    file.read(data.as_mut_slice())?;
+    file.read_to_end(&mut data)?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From d034b703e4f3406ef325756297e700b530a63386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 02/22] fix: unsafe_init called the allocator with a zero-sized
 layout

---
 src/tensor/data.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..9cdc192 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -88,7 +88,12 @@ pub unsafe fn unsafe_init<T: Type>(
     let shape = shape.into();
 
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
+    let data = if layout.size() == 0 {
+        // alloc() must not be called with a zero-sized layout
+        NonNull::<T>::dangling()
+    } else {
+        NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>())
+    };
 
     (init)(data.cast::<T>().as_mut());
 
-- 
2.43.0


From 7b68786dceb76a65cf35cab8d8c77a958aa6552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 03/22] fix: unsafe_init wrote through a null pointer when the
 allocation failed

---
 src/tensor/data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 9cdc192..986211f 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -92,7 +92,10 @@ pub unsafe fn unsafe_init<T: Type>(
         // alloc() must not be called with a zero-sized layout
         NonNull::<T>::dangling()
     } else {
-        NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>())
+        match NonNull::<T>::new(alloc::alloc(layout).cast::<T>()) {
+            Some(data) => data,
+            None => alloc::handle_alloc_error(layout),
+        }
     };
 
     (init)(data.cast::<T>().as_mut());
-- 
2.43.0


From 3fbeb74a1273c56f4fc7fc1c3c67fa5ac411a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 04/22] fix: Tensor::get added the offset of a view twice and
 read outside of it

---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From 1c0597812dcd11f2efadc5ea8fec3ebca0d85283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 05/22] fix: as_wrap_slice_n added the offset of a view twice

---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..cb8dce9 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -104,14 +104,13 @@ impl<T: Type> Tensor<T> {
     // broadcast
     #[inline]
     pub fn as_wrap_slice_n(&self, offset: usize, len: usize) -> &[T] {
-        let offset = if offset < self.size {
+        let count = if offset < self.size {
             offset
         } else {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(len <= self.size - count);
 
         unsafe {
             ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
-- 
2.43.0


From 597c92bc711941513602aa5971855aa7d4207828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 06/22] fix: matmul read past the end of b when its batch is
 smaller than the batch of a

---
 src/linalg/matmul.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..96660a4 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -50,6 +50,8 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let (m, _, n) = transpose.mkn(a, b);
 
     let batch_len : usize = a.shape().sublen(0, a.rank() - 2);
+    assert_eq!(batch_len, b.shape().sublen(0, b.rank() - 2), "matmul batch shape must match");
+
     let a_size = a.rows() * a.cols();
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
-- 
2.43.0


From 21981d59c29794cde7bb6d1b87fc328f11bb71ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 07/22] fix: matmul swapped the rows and columns of the shape
 of its result

---
 src/linalg/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index 96660a4..d568700 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -56,7 +56,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = a.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
-- 
2.43.0


From 20efa3300cb11cf688bf298c20a2b31659b49c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 08/22] fix: arange with a negative step never terminated

---
 src/init/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..de1a4e9 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -25,7 +25,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
-            start -= step;
+            start += step;
         }
 
         Tensor::from(vec)
-- 
2.43.0


From 25de52e97cfe4520b61ab5ca1f84b0ff48faebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 09/22] fix: normalize wrote its results at transposed
 positions when the axis is not the last

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From 9343e57304aeb4e55377900e0ff0fd41917cef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH 10/22] fix: rfft_norm computed its batch from the outermost
 dimension and failed for every tensor of rank > 1

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From ef7372c9ece53de99595a47f8a64bcb0f849e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH 11/22] fix: squeeze_axis squeezed the dimension next to the
 one it was given

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..d404bfa 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From 9fbb1619fd950e86b96bcc57f9cafb0fc13e9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH 12/22] fix: histogram2d always panicked because it reduced
 over both columns at once

---
 src/stats/histogram2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..f5dd785 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -6,10 +6,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     assert!(data.cols() == 2, "histogram2d requires 2D tensor {:?}", data.shape().as_vec());
 
     let args = args.into();
-    // let min = data.reduce_min_opt(0);
-    // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From cc8cf77076115581f5b8fd3ac3a2f019dca05b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH 13/22] fix: fold_row on a vector fed the same row to the
 callback once per element

---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..7a2e47a 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, shape.size() / shape.cols(), 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From 87f1d473a6afe9ee80ff5ba8e9ba19cbb8c8a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH 14/22] fix: decode_wav reserved up to 8 GB for a corrupt data
 size and could abort the process

---
 src/io/decode_wav.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/decode_wav.rs b/src/io/decode_wav.rs
index d35aa0e..154ced8 100644
--- a/src/io/decode_wav.rs
+++ b/src/io/decode_wav.rs
@@ -32,6 +32,9 @@ pub fn decode_wav(
     assert_eq!(cursor.read_u32_big(), 0x6461_7461);
     let size = cursor.read_u32_little();
 
+    // a corrupt size must not be used to allocate memory
+    assert!(size as usize <= contents.as_slice().len() - cursor.index);
+
     let n_samples = size / 2;
     //let len = meta.n_channels * 
 
-- 
2.43.0


From 1ffb02b9c014ad4a224ce8ec5fbe1316fbfebd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 15/22] fix: three and four-index access compared the size
 instead of the rank and refused small tensors

---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From bcfa3638e44864d49f153dbdec582283cbd6dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 16/22] fix: Shape::size wrapped around in release builds, so a
 tensor could have a shape larger than its data

---
 src/tensor/shape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index d404bfa..4f22eed 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -35,7 +35,9 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().product::<u32>() as usize
+        self.dims[0..self.rank as usize].iter()
+            .try_fold(1usize, |size, dim| size.checked_mul(*dim as usize))
+            .expect("Shape size overflow")
     }
 
     #[inline]
-- 
2.43.0


From dd3fd159ff32a9d3d40a279401bdc2c5035f6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 17/22] fix: tile dropped uninitialised elements when the
 multiples are not a vector

---
 src/array/tile.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array/tile.rs b/src/array/tile.rs
index 868c3f5..f9018e8 100644
--- a/src/array/tile.rs
+++ b/src/array/tile.rs
@@ -30,8 +30,8 @@ where
 
     let mut o_shape_r = Vec::<usize>::new();
     let rank = shape.rank();
-    let m_len = multiples.len();
-    let o_rank = rank.max(multiples.len());
+    let m_len = mult_r.len();
+    let o_rank = rank.max(m_len);
     for i in 0..o_rank {
         let tile_dim = if i < rank { shape_r[i] } else { 1 };
         let repeat_dim = if i < m_len { mult_r[i] } else { 1 };
-- 
2.43.0


From 24454237c6dd319894224677ec1630fb553a6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:08 +0000
Subject: [PATCH 18/22] fix: tile of a scalar with no multiples recursed
 without end in release builds

---
 src/array/tile.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array/tile.rs b/src/array/tile.rs
index f9018e8..4ee59cd 100644
--- a/src/array/tile.rs
+++ b/src/array/tile.rs
@@ -32,6 +32,10 @@ where
     let rank = shape.rank();
     let m_len = mult_r.len();
     let o_rank = rank.max(m_len);
+    if o_rank == 0 {
+        return tensor.clone();
+    }
+
     for i in 0..o_rank {
         let tile_dim = if i < rank { shape_r[i] } else { 1 };
         let repeat_dim = if i < m_len { mult_r[i] } else { 1 };
-- 
2.43.0


From 2e2af557f8fe467ffb490de3d473eb5aaf82c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:08 +0000
Subject: [PATCH 19/22] fix: decreasing split cuts wrapped around in release
 builds

---
 src/array/split.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array/split.rs b/src/array/split.rs
index 2b28f5a..61e84c7 100644
--- a/src/array/split.rs
+++ b/src/array/split.rs
@@ -55,6 +55,7 @@ fn split_axis<T: Type + Clone>(
         Sections::SplitCuts(split_cuts) => {
             cuts.append(&mut split_cuts.clone());
             cuts.push(len);
+            assert!(cuts.windows(2).all(|w| w[0] <= w[1]), "split cuts must be increasing {:?}", cuts);
         }
     }
 
-- 
2.43.0


From e165f50e2f07e6c2e184fb462352f723128ac110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:08 +0000
Subject: [PATCH 20/22] fix: Shape truncated dimensions that do not fit 32
 bits, so an operation could write more than it allocated

---
 src/tensor/shape.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4f22eed..283631c 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -426,6 +426,11 @@ impl fmt::Debug for Shape {
     }
 }
 
+#[inline]
+fn dim_u32(dim: usize) -> u32 {
+    u32::try_from(dim).expect("Shape dimension overflow")
+}
+
 impl From<&Shape> for Shape {
     fn from(value: &Shape) -> Self {
         value.clone()
@@ -435,7 +440,7 @@ impl From<&Shape> for Shape {
 impl From<usize> for Shape {
     fn from(value: usize) -> Self {
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = value as u32;
+        dims[0] = dim_u32(value);
 
         Shape {
             dims,
@@ -449,7 +454,7 @@ impl From<&[usize]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = dim_u32(*dim);
         }
 
         Shape {
@@ -464,7 +469,7 @@ impl<const N: usize> From<[usize; N]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = dim_u32(*dim);
         }
 
         Shape {
@@ -480,7 +485,7 @@ impl From<Vec<usize>> for Shape {
 
         for (i, v) in value.iter().rev().enumerate() {
             assert!(*v > 0);
-            dims[i] = *v as u32;
+            dims[i] = dim_u32(*v);
         }
 
         Shape {
-- 
2.43.0


From 0449e9e9a2881470dc70ce9e80e6f185f5a28bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:08 +0000
Subject: [PATCH 21/22] fix: unsafe_init checked the shape only after
 initialising storage of the wrong length

---
 src/tensor/data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 986211f..1a7f4d9 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -87,6 +87,9 @@ pub unsafe fn unsafe_init<T: Type>(
 {
     let shape = shape.into();
 
+    // a mismatch found after init() would drop elements it did not write
+    assert_eq!(shape.size(), len);
+
     let layout = Layout::array::<T>(len).unwrap();
     let data = if layout.size() == 0 {
         // alloc() must not be called with a zero-sized layout
-- 
2.43.0


From b17807c9277b40f6b8ab9d714ea04f5bef59970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 22/22] fix: subslice_flat accepted a length that wraps around
 in release builds and returned a view outside of the data

---
 src/tensor/tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index cb8dce9..dec95fd 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -137,7 +137,7 @@ impl<T: Type> Tensor<T> {
 
     pub fn subslice_flat(&self, offset: usize, len: usize, shape: impl Into<Shape>) -> Self {
         assert!(offset <= self.size);
-        assert!(offset + len <= self.size);
+        assert!(len <= self.size - offset);
 
         let shape = shape.into();
 
-- 
2.43.0

