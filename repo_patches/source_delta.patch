From 82352042e7076a53bbbf4802d885186d066e2da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 01/10] fix: report the actual type of generic analog input
 modules

---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From 48402f09e312a96d19f8ca4c7357c7672c233fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 02/10] fix: parse the power feed module category

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From 4762c4e58b7caea6a4bd92d05c739f76573daeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 03/10] fix: do not panic on surplus parameter registers of
 UR20-4AI-TC-DIAG

---
 src/ur20_4ai_tc_diag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..1114deb 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -163,6 +163,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let channel_parameters = data[1..]
         .chunks_exact(7)
+        .take(4)
         .map(|data| {
             Ok(ChannelParameters {
                 measurement_range: FromPrimitive::from_u16(data[0])
-- 
2.43.0


From 89bcd8920b7a29928a8d7d3915fae5700f9403b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 04/10] fix: do not panic on missing channel parameters of
 analog output modules

---
 src/ur20_4ao_ui_16.rs      | 3 +++
 src/ur20_4ao_ui_16_diag.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..5b1fcc2 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..61da20d 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0


From 833abdc95397e078abd7548e31909b09cf228eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 05/10] fix: round analog output values to the nearest raw
 value

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..67ec60f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,7 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From 7be9c2c54c22bf096f01aa3f1051f6b00ebc6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 06/10] fix: track the transmission counter of each serial
 module separately

---
 src/ur20_fbc_mod_tcp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..2bd68fc 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter state of each processor
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,11 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt =
+                            self.last_tx_cnt.insert(m_nr, out_v.tx_cnt).unwrap_or(0);
+                        if !out_v.data.is_empty() && out_v.tx_cnt != last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From bb987fd5da8f68f496f33da801197537508d9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 07/10] fix: reject module offsets below the process data area
 instead of panicking

---
 src/ur20_fbc_mod_tcp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 2bd68fc..577165c 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -389,7 +389,7 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
-    let start = (start - addr) as usize;
+    let start = start.checked_sub(addr).ok_or(Error::ModuleOffset)? as usize;
     let word_count = {
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
-- 
2.43.0


From 6c150521b7e484bbacbb3a9a08ddab82eb4906ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 08/10] fix: handle multi-byte module data that starts in a
 high byte

---
 src/ur20_fbc_mod_tcp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 577165c..765777d 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -394,7 +394,8 @@ fn prepare_raw_data_to_process(
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
     };
-    let end = start + word_count;
+    // Multi-byte data that starts in a high byte ends in the low byte of one more register.
+    let end = start + word_count + usize::from(bit == 8 && byte_count > 1);
     if end > data.len() {
         return Err(Error::BufferLength);
     }
@@ -402,7 +403,11 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 => {
+            let mut shifted = shift_data(output);
+            shifted.truncate(word_count);
+            Ok(shifted)
+        }
         _ => Err(Error::ModuleOffset),
     }
 }
@@ -439,10 +444,15 @@ pub fn process_output_values(
                         return Err(Error::ModuleOffset);
                     }
                     let shared_low_byte = out[start] & 0x00FF;
-                    let buf = u16_to_u8(&data);
-                    let shared_high_byte = u16::from(buf[0]) << 8;
+                    let mut buf = u16_to_u8(&data);
+                    buf.truncate(m.process_output_byte_count());
+                    let Some((first, rest)) = buf.split_first() else {
+                        return Err(Error::ModuleOffset);
+                    };
+                    let shared_high_byte = u16::from(*first) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
+                    out.extend_from_slice(&u8_to_u16(rest));
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From 286e6212510338a861ada3f6513ddde8a40f07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 09/10] fix: refuse unusable output values instead of failing
 the next cycle

---
 src/ur20_fbc_mod_tcp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 765777d..737bab5 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -244,6 +244,14 @@ impl Coupler {
         if !self.is_valid_addr(addr) {
             return Err(Error::Address);
         }
+        if self.offsets[addr.module].output.is_some() && !self.processors.contains_key(&addr.module)
+        {
+            // An unusable value would make the whole next cycle fail.
+            let module = &self.modules[addr.module];
+            let mut values = vec![ChannelValue::Disabled; module.module_type().channel_count()];
+            values[addr.channel] = value.clone();
+            module.process_output_values(&values)?;
+        }
         self.write.insert(*addr, value);
         Ok(())
     }
-- 
2.43.0


From 08ecc23c90690aff3fc7f9636582f7b5af2fe73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 10/10] fix: keep queued and serial data when a cycle fails

---
 src/ur20_fbc_mod_tcp.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 737bab5..72fcd72 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -263,10 +263,23 @@ impl Coupler {
             .zip(&self.offsets)
             .map(|(m, o)| (&**m, o))
             .collect();
-        self.in_values = process_input_data(&infos, process_input)?;
-        self.out_values = process_output_data(&infos, process_output)?;
+        let in_values = process_input_data(&infos, process_input)?;
+        let out_values = process_output_data(&infos, process_output)?;
+
+        let mut next_out_values = out_values.clone();
+        for (addr, v) in &self.write {
+            if !self.processors.contains_key(&addr.module) {
+                next_out_values[addr.module][addr.channel] = v.clone();
+            }
+        }
+        // A cycle that fails must not consume anything.
+        process_output_values(&infos, &next_out_values)?;
+
+        self.in_values = in_values;
+        self.out_values = out_values;
+        self.write
+            .retain(|addr, _| self.processors.contains_key(&addr.module));
 
-        let mut next_out_values = self.out_values.clone();
         let mut in_bytes = HashMap::new();
         let mut out_bytes = HashMap::new();
 
@@ -298,15 +311,6 @@ impl Coupler {
                         }
                     }
                 }
-            } else {
-                for (i, _) in out_v.iter().enumerate() {
-                    if let Some(v) = self.write.remove(&Address {
-                        module: m_nr,
-                        channel: i,
-                    }) {
-                        next_out_values[m_nr][i] = v;
-                    }
-                }
             }
         }
         for (m_nr, v) in in_bytes {
-- 
2.43.0

