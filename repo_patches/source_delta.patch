From 90c83b681a609d595b51b72cbe755aa16bc22aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 1/5] fix: reject input amounts whose sum overflows instead of
 panicking

---
 src/checked_transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..21b589e 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,10 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0


From 12fc3aedc1a1ad7c1c869837745ab69be0d97808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 2/5] fix: allocate decoded lists as their items are decoded

The item counts of an encoded transaction are untrusted; reserving memory for them up front lets a few bytes abort the process.
---
 src/transaction/types/create.rs | 26 +++++++++++++++++---------
 src/transaction/types/mint.rs   |  6 ++++--
 src/transaction/types/script.rs | 18 ++++++++++++------
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..81f89a7 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -645,32 +645,40 @@ impl io::Write for Create {
 
         let salt = salt.into();
 
-        let mut storage_slots = vec![StorageSlot::default(); storage_slots_len as usize];
-        n += StorageSlot::SLOT_SIZE * storage_slots_len as usize;
-        for storage_slot in storage_slots.iter_mut() {
+        let mut storage_slots = vec![];
+        for _ in 0..storage_slots_len {
+            let mut storage_slot = StorageSlot::default();
             let _ = storage_slot.write(buf)?;
             buf = &buf[StorageSlot::SLOT_SIZE..];
+            n += StorageSlot::SLOT_SIZE;
+            storage_slots.push(storage_slot);
         }
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        let mut inputs = vec![];
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = vec![];
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        let mut witnesses = vec![];
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Create {
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..fafc79e 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -287,11 +287,13 @@ impl io::Write for Mint {
         let buf = &buf[tx_pointer.serialized_size()..];
         let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = vec![];
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
         *self = Mint {
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..0f95825 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -636,25 +636,31 @@ impl io::Write for Script {
         let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        let mut inputs = vec![];
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = vec![];
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        let mut witnesses = vec![];
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Script {
-- 
2.43.0


From 18a38a97d1ccc8be1db70c5ff1774514c049ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 3/5] fix: decode all storage slots of create transactions with
 65536 or more

The encoder writes the count as a word, the decoder truncated it to 16 bits.
---
 src/transaction/types/create.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index 81f89a7..e716758 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -637,7 +637,7 @@ impl io::Write for Create {
         let (maturity, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_length, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_witness_index, buf) = unsafe { bytes::restore_u8_unchecked(buf) };
-        let (storage_slots_len, buf) = unsafe { bytes::restore_u16_unchecked(buf) };
+        let (storage_slots_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (inputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (witnesses_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
-- 
2.43.0


From bb24dc2f1b3b23303c5ef64e71296b9a6cca0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 4/5] fix: fail on lengths beyond the buffer instead of
 panicking when decoding

---
 src/lib.rs                       |  3 +++
 src/receipt/receipt_std.rs       |  7 ++++---
 src/restore.rs                   | 23 +++++++++++++++++++++++
 src/transaction/types/input.rs   | 14 +++++++++-----
 src/transaction/types/script.rs  |  6 ++++--
 src/transaction/types/witness.rs |  4 +++-
 6 files changed, 46 insertions(+), 11 deletions(-)
 create mode 100644 src/restore.rs

diff --git a/src/lib.rs b/src/lib.rs
index 5bd0355..b2c9b53 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,6 +34,9 @@ mod transaction;
 #[cfg(feature = "std")]
 mod checked_transaction;
 
+#[cfg(feature = "std")]
+mod restore;
+
 #[cfg(feature = "builder")]
 pub use builder::{Buildable, TransactionBuilder};
 
diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..fbb1490 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -5,6 +5,7 @@ use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
 use fuel_types::Word;
 
 use crate::receipt::script_result::ScriptExecutionResult;
+use crate::restore;
 use std::io::{self, Write};
 
 impl io::Read for Receipt {
@@ -269,7 +270,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +330,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +393,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = restore::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/restore.rs b/src/restore.rs
new file mode 100644
index 0000000..02bb317
--- /dev/null
+++ b/src/restore.rs
@@ -0,0 +1,23 @@
+//! Restoring of variable size bytes whose declared length is not trusted.
+
+use fuel_types::{bytes, Word};
+use std::io;
+
+/// As [`bytes::restore_raw_bytes`], failing for any length that exceeds the buffer.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// As [`bytes::restore_bytes`], failing for any length that exceeds the buffer.
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    let (len, data): (Word, _) = bytes::restore_number(buf)?;
+    if (data.len() as Word) < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_bytes(buf)
+}
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..f595da6 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -11,6 +11,8 @@ use fuel_types::bytes::{Deserializable, SizedBytes, WORD_SIZE};
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore;
 #[cfg(feature = "std")]
 use std::io;
 
@@ -733,10 +735,11 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) =
+                    restore::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +820,14 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = restore::restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) =
+                    restore::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 0f95825..ed3f29e 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -12,6 +12,8 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{bytes, Bytes32, Word};
 
+#[cfg(feature = "std")]
+use crate::restore;
 #[cfg(feature = "std")]
 use std::io;
 
@@ -630,10 +632,10 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = restore::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, mut buf) = restore::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
         let mut inputs = vec![];
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..ece9d16 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -8,6 +8,8 @@ use rand::{
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore;
 #[cfg(feature = "std")]
 use std::io;
 
@@ -89,7 +91,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        restore::restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From 795d629b72eabd1f0b0cd65b042db2fb706c6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 5/5] fix: reject text with non-hexadecimal or excess
 characters when parsing UTXO ids and pointers

---
 src/transaction/types/utxo_id.rs | 3 +++
 src/tx_pointer.rs                | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..14aff04 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -85,6 +85,9 @@ impl str::FromStr for UtxoId {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
         let s = s.trim_start_matches("0x");
+        if s.len() > 2 * (Bytes32::LEN + 1) || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err(ERR);
+        }
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..9b58dad 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -68,7 +68,7 @@ impl str::FromStr for TxPointer {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
 
-        if s.len() != 12 {
+        if s.len() != 12 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
             return Err(ERR);
         }
 
-- 
2.43.0

