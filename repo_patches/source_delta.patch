From 71653ccfc4c1dde625f6ea5e21f0493d34d6bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 01/17] fix: write the zlib/gzip header before a sync flush
 that precedes any data

---
 src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 1888a11..7d1e82e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -272,6 +272,8 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
     /// This essentially finishes the current block, and sends an additional empty stored block to
     /// the writer.
     fn flush(&mut self) -> io::Result<()> {
+        // The header has to come before anything else, even if nothing has been written yet.
+        self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
     }
 }
@@ -449,6 +451,8 @@ pub mod gzip {
         /// This essentially finishes the current block, and sends an additional empty stored
         /// block to the writer.
         fn flush(&mut self) -> io::Result<()> {
+            // The header has to come before anything else, even if nothing has been written yet.
+            self.check_write_header();
             self.inner.flush()
         }
     }
-- 
2.43.0


From 789d69c3d9f67eddaa07cd9d89247792b5f89cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 02/17] fix: don't report an error from write() for input that
 has already been consumed

---
 src/compress.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 8223609..0c00af1 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -94,11 +94,21 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
-            let written = deflate_state
+            let res = deflate_state
                 .inner
                 .as_mut()
                 .expect("Missing writer!")
-                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..]);
+
+            let written = match res {
+                Ok(written) => written,
+                // If we have already consumed some of the input in this call, we have to report
+                // that rather than the error, as the caller would otherwise have to assume that
+                // nothing was consumed and supply the same data again. The data is still in the
+                // output buffer, so writing it will be attempted again in the next call.
+                Err(_) if bytes_written > 0 => return Ok(bytes_written),
+                Err(e) => return Err(e),
+            };
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
-- 
2.43.0


From fbddded58fca9b8053bcaaf019f561ed93368f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:28 +0000
Subject: [PATCH 03/17] fix: return an error rather than looping forever if the
 wrapped writer accepts no data

---
 src/compress.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index 0c00af1..146dfe8 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -76,6 +76,14 @@ fn write_stored_block(input: &[u8], mut writer: &mut LsbWriter, final_block: boo
     }
 }
 
+/// The error returned when the wrapped writer doesn't accept any of the data it's given.
+fn write_zero_error() -> io::Error {
+    io::Error::new(
+        io::ErrorKind::WriteZero,
+        "The wrapped writer did not accept any data.",
+    )
+}
+
 /// Inner compression function used by both the writers and the simple compression functions.
 pub fn compress_data_dynamic_n<W: Write>(
     input: &[u8],
@@ -101,6 +109,9 @@ pub fn compress_data_dynamic_n<W: Write>(
                 .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..]);
 
             let written = match res {
+                // There is always something to write here, so this means that the writer won't
+                // accept any more data.
+                Ok(0) if bytes_written == 0 => return Err(write_zero_error()),
                 Ok(written) => written,
                 // If we have already consumed some of the input in this call, we have to report
                 // that rather than the error, as the caller would otherwise have to assume that
@@ -300,6 +311,10 @@ pub fn compress_data_dynamic_n<W: Write>(
             .checked_sub(output_buf_pos)
             .unwrap()
     {
+        if written_to_writer == 0 {
+            // The writer won't accept any more data, so trying again would not get us anywhere.
+            return Err(write_zero_error());
+        }
         deflate_state.output_buf_pos += written_to_writer;
     } else {
         // If we sucessfully wrote all the data, we can clear the output buffer.
-- 
2.43.0


From 4352dec7fc1d93a3871b3bc3614f3a9b85ce2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 04/17] fix: don't queue a new gzip header if resetting the
 encoder failed

---
 src/writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 7d1e82e..18947a4 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -394,18 +394,18 @@ pub mod gzip {
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one. (Using a blank header).
         pub fn reset(&mut self, writer: W) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = GzBuilder::new().into_header();
-            w
+            Ok(w)
         }
 
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one, and using the provided `GzBuilder` to
         /// create the header.
         pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = builder.into_header();
-            w
+            Ok(w)
         }
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
-- 
2.43.0


From c850c072b512d1f98c4765b17dc412ff2e90119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 05/17] fix: don't add data that write() did not consume to the
 checksum

---
 src/writer.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 18947a4..c08ee45 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -255,14 +255,10 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
         self.check_write_header()?;
         let flush_mode = self.deflate_state.flush_mode;
         let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
-        match res {
-            // If this is returned, the whole buffer was consumed
-            Ok(0) => self.checksum.update_from_slice(buf),
-            // Otherwise, only part of it was consumed, so only that part
-            // added to the checksum.
-            Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
-            _ => (),
-        };
+        // Only the part of the data that was actually consumed is added to the checksum.
+        if let Ok(n) = res {
+            self.checksum.update_from_slice(&buf[0..n]);
+        }
         res
     }
 
@@ -437,11 +433,10 @@ pub mod gzip {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.check_write_header();
             let res = self.inner.write(buf);
-            match res {
-                Ok(0) => self.checksum.update(buf),
-                Ok(n) => self.checksum.update(&buf[0..n]),
-                _ => (),
-            };
+            // Only the part of the data that was actually consumed is added to the checksum.
+            if let Ok(n) = res {
+                self.checksum.update(&buf[0..n]);
+            }
             res
         }
 
-- 
2.43.0


From 5f9d84197a5bd819db8ae5904d13d67a8db3f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:59 +0000
Subject: [PATCH 06/17] fix: don't return Ok(0) from write() after a failed
 flush when more data can be taken

---
 src/compress.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index 146dfe8..6f8965b 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -323,6 +323,15 @@ pub fn compress_data_dynamic_n<W: Write>(
         deflate_state.needs_flush = false;
     }
 
+    if bytes_written == 0 && !input.is_empty() && !deflate_state.lz77_state.is_last_block() {
+        // We only output what was left from an earlier flush, so this has to be returned rather
+        // than `Ok(0)`, as the latter would mean that we can't take any more data.
+        return Err(io::Error::new(
+            io::ErrorKind::Interrupted,
+            "Pending data had to be flushed first.",
+        ));
+    }
+
     Ok(bytes_written)
 }
 
-- 
2.43.0


From d1cc4739c9bec3fbdccdc80d402c1c0935f3d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 07/17] fix: don't output the zlib/gzip trailer again when
 finishing is retried after a write error

---
 src/writer.rs | 54 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index c08ee45..a41f22d 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -184,6 +184,7 @@ pub struct ZlibEncoder<W: Write> {
     deflate_state: DeflateState<W>,
     checksum: Adler32Checksum,
     header_written: bool,
+    trailer_written: bool,
 }
 
 impl<W: Write> ZlibEncoder<W> {
@@ -193,6 +194,7 @@ impl<W: Write> ZlibEncoder<W> {
             deflate_state: DeflateState::new(options.into(), writer),
             checksum: Adler32Checksum::new(),
             header_written: false,
+            trailer_written: false,
         }
     }
 
@@ -218,6 +220,7 @@ impl<W: Write> ZlibEncoder<W> {
     pub fn reset(&mut self, writer: W) -> io::Result<W> {
         self.output_all()?;
         self.header_written = false;
+        self.trailer_written = false;
         self.checksum = Adler32Checksum::new();
         self.deflate_state.reset(writer)
     }
@@ -233,15 +236,17 @@ impl<W: Write> ZlibEncoder<W> {
 
     /// Write the trailer, which for zlib is the Adler32 checksum.
     fn write_trailer(&mut self) -> io::Result<()> {
-        let hash = self.checksum.current_hash();
-
-        self.deflate_state
-            .inner
-            .as_mut()
-            .expect(ERR_STR)
-            .write_all(&hash.to_be_bytes())?;
+        // The trailer goes through the output buffer, so that we can continue where we left off if
+        // writing it failed and this is called again.
+        if !self.trailer_written {
+            let hash = self.checksum.current_hash();
+            self.deflate_state
+                .output_buf()
+                .extend_from_slice(&hash.to_be_bytes());
+            self.trailer_written = true;
+        }
 
-        Ok(())
+        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
     }
 
     /// Return the adler32 checksum of the currently consumed data.
@@ -290,7 +295,7 @@ impl<W: Write> Drop for ZlibEncoder<W> {
 #[cfg(feature = "gzip")]
 pub mod gzip {
 
-    use std::io::{Cursor, Write};
+    use std::io::Write;
     use std::{io, thread};
 
     use super::*;
@@ -330,6 +335,7 @@ pub mod gzip {
         inner: DeflateEncoder<W>,
         checksum: Crc,
         header: Vec<u8>,
+        trailer_written: bool,
     }
 
     impl<W: Write> GzEncoder<W> {
@@ -350,6 +356,7 @@ pub mod gzip {
                 inner: DeflateEncoder::new(writer, options),
                 checksum: Crc::new(),
                 header: builder.into_header(),
+                trailer_written: false,
             }
         }
 
@@ -384,6 +391,7 @@ pub mod gzip {
         fn reset_no_header(&mut self, writer: W) -> io::Result<W> {
             self.output_all()?;
             self.checksum = Crc::new();
+            self.trailer_written = false;
             self.inner.deflate_state.reset(writer)
         }
 
@@ -406,21 +414,19 @@ pub mod gzip {
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
         fn write_trailer(&mut self) -> io::Result<()> {
-            let crc = self.checksum.sum();
-            let amount = self.checksum.amt_as_u32();
-
-            // We use a buffer here to make sure we don't end up writing only half the header if
-            // writing fails.
-            let mut buf = [0u8; 8];
-            let mut temp = Cursor::new(&mut buf[..]);
-            temp.write_all(&crc.to_le_bytes()).unwrap();
-            temp.write_all(&amount.to_le_bytes()).unwrap();
-            self.inner
-                .deflate_state
-                .inner
-                .as_mut()
-                .expect(ERR_STR)
-                .write_all(temp.into_inner())
+            // The trailer goes through the output buffer, so that we can continue where we left off
+            // if writing it failed and this is called again.
+            if !self.trailer_written {
+                let crc = self.checksum.sum();
+                let amount = self.checksum.amt_as_u32();
+
+                let buf = self.inner.deflate_state.output_buf();
+                buf.extend_from_slice(&crc.to_le_bytes());
+                buf.extend_from_slice(&amount.to_le_bytes());
+                self.trailer_written = true;
+            }
+
+            self.inner.output_all()
         }
 
         /// Get the crc32 checksum of the data consumed so far.
-- 
2.43.0


From d2a1c04357fbc9f75a06ad4488eaf0028d23d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 08/17] fix: output the final block when finishing after a
 failed flush

---
 src/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index a41f22d..ae44b3f 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -23,7 +23,11 @@ pub fn compress_until_done<W: Write>(
         match compress_data_dynamic_n(input, deflate_state, flush_mode) {
             Ok(0) => {
                 if deflate_state.output_buf().is_empty() {
-                    break;
+                    // If there was pending data from a flush that failed, we may only have output
+                    // that so far, so make sure that the last block has been output as well.
+                    if flush_mode != Flush::Finish || deflate_state.lz77_state.is_last_block() {
+                        break;
+                    }
                 } else {
                     // If the output buffer isn't empty, keep going until it is, as there is still
                     // data to be flushed.
-- 
2.43.0


From be16ba43d3af35889b77949381d9e9f230a90277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 09/17] fix: truncate max_hash_checks to the documented maximum

---
 src/deflate_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deflate_state.rs b/src/deflate_state.rs
index dfa8221..738a738 100644
--- a/src/deflate_state.rs
+++ b/src/deflate_state.rs
@@ -101,7 +101,7 @@ impl<W: Write> DeflateState<W> {
         DeflateState {
             input_buffer: InputBuffer::empty(),
             lz77_state: LZ77State::new(
-                compression_options.max_hash_checks,
+                cmp::min(compression_options.max_hash_checks, MAX_HASH_CHECKS),
                 cmp::min(compression_options.lazy_if_less_than, MAX_HASH_CHECKS),
                 compression_options.matching_type,
             ),
-- 
2.43.0


From bedbb3f1a7fe157d902f6388131d2af38019e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 10/17] fix: look for matches at every byte when
 lazy_if_less_than is 0

---
 src/lz77.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lz77.rs b/src/lz77.rs
index 49c712e..fe0786a 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -315,6 +315,10 @@ fn process_chunk_lazy(
 
     const NO_LENGTH: u16 = 0;
 
+    // There are no matches shorter than `MIN_MATCH`, so for lower values than that we never lazy
+    // match. (If used as is, having no match at all would count as one that is long enough.)
+    let lazy_if_less_than = cmp::max(lazy_if_less_than, MIN_MATCH);
+
     // The previous match length, if any.
     let mut prev_length = state.current_length;
     // The distance of the previous match if any.
-- 
2.43.0


From be8e5d6f61f0b8f57792f5c62a32e658192d3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 11/17] fix: use the length of distance codes when calculating
 the length of a fixed block

---
 src/huffman_lengths.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index a5a153a..6984df2 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -2,8 +2,8 @@ use crate::bitstream::LsbWriter;
 use crate::deflate_state::LengthBuffers;
 use crate::huffman_table::{
     create_codes_in_place, num_extra_bits_for_distance_code, num_extra_bits_for_length_code,
-    HuffmanTable, FIXED_CODE_LENGTHS, LENGTH_BITS_START, MAX_CODE_LENGTH, NUM_DISTANCE_CODES,
-    NUM_LITERALS_AND_LENGTHS,
+    HuffmanTable, FIXED_CODE_LENGTHS, FIXED_CODE_LENGTHS_DISTANCE, LENGTH_BITS_START,
+    MAX_CODE_LENGTH, NUM_DISTANCE_CODES, NUM_LITERALS_AND_LENGTHS,
 };
 use crate::length_encode::{
     encode_lengths_m, huffman_lengths_from_frequency_m, EncodedLength, COPY_PREVIOUS,
@@ -71,11 +71,12 @@ fn calculate_huffman_length(frequencies: &[FrequencyType], code_lengths: &[u8])
 /// code lengths (first return value) and static code lengths (second return value).
 ///
 /// Parameters:
-/// Frequencies, length of dynamic codes, and a function to get how many extra bits in addition
-/// to the length of the Huffman code the symbol will use.
+/// Frequencies, length of dynamic codes, length of static codes, and a function to get how many
+/// extra bits in addition to the length of the Huffman code the symbol will use.
 fn calculate_block_length<F>(
     frequencies: &[FrequencyType],
     dyn_code_lengths: &[u8],
+    fixed_code_lengths: &[u8],
     get_num_extra_bits: &F,
 ) -> (u64, u64)
 where
@@ -88,7 +89,7 @@ where
 
     let iter = frequencies
         .iter()
-        .zip(dyn_code_lengths.iter().zip(FIXED_CODE_LENGTHS.iter()))
+        .zip(dyn_code_lengths.iter().zip(fixed_code_lengths.iter()))
         .enumerate();
 
     // This could maybe be optimised a bit by splitting the iteration of codes using extra bits and
@@ -241,14 +242,17 @@ pub fn gen_huffman_lengths(
     // (excluding the 3-bit block header since it's used in all block types).
 
     // Total length of the compressed literals/lengths.
-    let (d_ll_length, s_ll_length) = calculate_block_length(l_freqs, l_lengths, &|c| {
-        num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8).into()
-    });
+    let (d_ll_length, s_ll_length) =
+        calculate_block_length(l_freqs, l_lengths, &FIXED_CODE_LENGTHS, &|c| {
+            num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8)
+                .into()
+        });
 
     // Total length of the compressed distances.
-    let (d_dist_length, s_dist_length) = calculate_block_length(d_freqs, d_lengths, &|c| {
-        num_extra_bits_for_distance_code(c as u8).into()
-    });
+    let (d_dist_length, s_dist_length) =
+        calculate_block_length(d_freqs, d_lengths, &FIXED_CODE_LENGTHS_DISTANCE, &|c| {
+            num_extra_bits_for_distance_code(c as u8).into()
+        });
 
     // Total length of the compressed huffman code lengths.
     let huff_table_length = calculate_huffman_length(&freqs, &huffman_table_lengths);
-- 
2.43.0


From c1142576f6e1f967d60afff21120685cd6138f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 12/17] fix: use the right number of extra bits for length code
 16 when calculating the length of a block

---
 src/huffman_lengths.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index 6984df2..16048ec 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -49,7 +49,8 @@ pub fn remove_trailing_zeroes<T: From<u8> + PartialEq>(input: &[T], min_length:
 /// How many extra bits the Huffman length code uses to represent a value.
 fn extra_bits_for_huffman_length_code(code: u8) -> u8 {
     match code {
-        16..=17 => 3,
+        16 => 2,
+        17 => 3,
         18 => 7,
         _ => 0,
     }
-- 
2.43.0


From 88dee3c7b7561e91ecf8d2f086b2e37559b29dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 13/17] fix: also reset the links of the hash chains when
 resetting the encoder

---
 src/chained_hash_table.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 61c3fa2..fbe496c 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -98,11 +98,7 @@ impl ChainedHashTable {
     pub fn reset(&mut self) {
         self.current_hash = 0;
         reset_array(&mut self.c.head);
-        {
-            let h = self.c.head;
-            let mut c = self.c.prev;
-            c[..].copy_from_slice(&h[..]);
-        }
+        self.c.fill_prev();
         /*if cfg!(debug_assertions) {
             self.count.reset();
         }*/
-- 
2.43.0


From 6f6855051966a22b91507f7472093a6008f6623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 14/17] fix: use the moved data when storing a block that ends
 in a match across the end of the window

When a block became full with a match that extends past the end of the
window, the input buffer was slid before the position of the block was
returned. If the block ended up being stored, this resulted in a panic, or
in the wrong data being stored.
---
 src/lz77.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index fe0786a..b6cf5cd 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -672,7 +672,7 @@ pub fn lz77_compress_block(
 
             state.bytes_to_hash = overlap;
 
-            if let ProcessStatus::BufferFull(written) = p_status {
+            if let ProcessStatus::BufferFull(mut written) = p_status {
                 state.current_block_input_bytes +=
                     (written - start + pending_previous - state.pending_byte_as_num()) as u64;
 
@@ -688,6 +688,8 @@ pub fn lz77_compress_block(
                             state.hash_table.slide(window_size);
                         }
                         remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
+                        // The data of this block was moved along with the rest of the buffer.
+                        written -= window_size;
                     } else {
                         state.is_first_window = false;
                     }
-- 
2.43.0


From d40d20117e544e9db368c07e61ec4963b73fd85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 15/17] fix: count the byte after the window of a match that
 fills a block at the end of the data

If the last match of the data extended one byte past the end of the window
and also filled the block, that byte was not counted as a part of the block,
so it was lost if the block was stored.
---
 src/lz77.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index b6cf5cd..3f40825 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -465,7 +465,7 @@ fn process_chunk_lazy(
                 if let BufferStatus::Full = b_status {
                     // TODO: These bytes should be hashed when doing a sync flush.
                     // This can't be done here as the new input data does not exist yet.
-                    return (overlap, buffer_full(end));
+                    return (overlap, buffer_full(end + overlap));
                 } else {
                     return (overlap, ProcessStatus::Ok);
                 }
-- 
2.43.0


From 8efb5e2bc292be6ea019e7244f230a27f3b38cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 16/17] fix: warm up the hash at the first unprocessed byte,
 not always at the start of the data

---
 src/lz77.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 3f40825..a5bb1a6 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -630,13 +630,13 @@ pub fn lz77_compress_block(
         // data.
         if buffer.current_end() >= (window_size * 2) + MAX_MATCH || finish {
             if state.is_first_window {
-                if buffer.get_buffer().len() >= 2
+                if buffer.get_buffer().len() >= state.overlap + 2
                     && add_initial
                     && state.current_block_input_bytes == 0
                 {
-                    let b = buffer.get_buffer();
+                    let b = &buffer.get_buffer()[state.overlap..];
                     // Warm up the hash with the two first values, so we can find  matches at
-                    // index 0.
+                    // the first index. (This isn't index 0 if an earlier block ended in this window.)
                     state.hash_table.add_initial_hash_values(b[0], b[1]);
                     add_initial = false;
                 }
-- 
2.43.0


From 2dcb23bb1a7a332bfc44356187280c1b95a2eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 17/17] fix: keep the pending match when a block ends at the
 last byte of a window

---
 src/lz77.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lz77.rs b/src/lz77.rs
index a5bb1a6..616bb12 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -313,6 +313,12 @@ fn process_chunk_lazy(
 ) -> (usize, ProcessStatus) {
     let (end, mut insert_it, mut hash_it) = create_iterators(data, iterated_data);
 
+    if iterated_data.start >= end {
+        // The previous block ended right at the end of the window. Leave a match that was found
+        // at the last byte of the window, and that is not output yet, for the next call.
+        return (0, ProcessStatus::Ok);
+    }
+
     const NO_LENGTH: u16 = 0;
 
     // There are no matches shorter than `MIN_MATCH`, so for lower values than that we never lazy
-- 
2.43.0

