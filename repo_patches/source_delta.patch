From f85c5c83ea290b0a62665dcacfb5c76fb2b02336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 1/9] fix: report the real module type of UR20-4AI-UI-16

The generic analog input module always claimed to be a UR20-4AI-UI-12.
---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From 4a66c2cfc523734d192d7cd9d374b362d843c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 2/9] fix: recognise the module category name PF

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From 6b0eb7151ff510d062d198bbd55c42639898626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 3/9] fix: do not panic on surplus parameter registers of
 UR20-4AI-TC-DIAG

All other modules with parameters ignore registers behind their own block.
---
 src/ur20_4ai_tc_diag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..1114deb 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -163,6 +163,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let channel_parameters = data[1..]
         .chunks_exact(7)
+        .take(4)
         .map(|data| {
             Ok(ChannelParameters {
                 measurement_range: FromPrimitive::from_u16(data[0])
-- 
2.43.0


From 35270a4ecd5bab39f1dd439cc124f9847da956ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 4/9] fix: do not panic on missing channel parameters of analog
 outputs

process_output_values() already answers this with an error.
---
 src/ur20_4ao_ui_16.rs      | 3 +++
 src/ur20_4ao_ui_16_diag.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..5b1fcc2 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..61da20d 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0


From 4289ca5d27b9e6fabf1170b166f5b75b71305681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 5/9] fix: drive analog outputs with the nearest raw value

Truncating made up to 15% of the raw words (S7 format) decode to a value
that was encoded as a neighbouring word, so outputs crept by one step
without any write when a cycle ran on its own output image.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..67ec60f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,7 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From b89278584dc93d29b2167bbb6cf66d833eee926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 6/9] fix: do not panic on output offsets below the output data
 area

process_output_values() already answers this with an error.
---
 src/ur20_fbc_mod_tcp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..27eae70 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -388,6 +388,9 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
+    if start < addr {
+        return Err(Error::ModuleOffset);
+    }
     let start = (start - addr) as usize;
     let word_count = {
         let cnt = byte_count / 2;
-- 
2.43.0


From b610e6b4139a7741cc1e78fa0b2231ee539752a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 7/9] fix: transfer all bytes of modules that start at an odd
 byte

Only the first byte of the output data was written and the last byte of
the input data was replaced by zero when a module with more than one byte
of process data starts in the high byte of a register.
---
 src/ur20_fbc_mod_tcp.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 27eae70..2f02683 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -396,7 +396,10 @@ fn prepare_raw_data_to_process(
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
     };
-    let end = start + word_count;
+    let mut end = start + word_count;
+    if bit == 8 && byte_count > 1 {
+        end += 1; // the last byte is located in the following register
+    }
     if end > data.len() {
         return Err(Error::BufferLength);
     }
@@ -404,7 +407,11 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 => {
+            let mut shifted = shift_data(output);
+            shifted.truncate(word_count);
+            Ok(shifted)
+        }
         _ => Err(Error::ModuleOffset),
     }
 }
@@ -442,9 +449,15 @@ pub fn process_output_values(
                     }
                     let shared_low_byte = out[start] & 0x00FF;
                     let buf = u16_to_u8(&data);
-                    let shared_high_byte = u16::from(buf[0]) << 8;
+                    let Some((first, rest)) = buf.split_first() else {
+                        continue;
+                    };
+                    let shared_high_byte = u16::from(*first) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
+                    if m.process_output_byte_count() > 1 {
+                        out.extend_from_slice(&u8_to_u16(rest));
+                    }
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From 5fcf0b75aa49ad270419371933f130ee55918190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 8/9] fix: track the transmission counter of each serial module
 separately

With more than one serial module in a coupler, outputs() repeated or
omitted transmitted data because all modules shared one counter.
---
 src/ur20_fbc_mod_tcp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 2f02683..0b3ed41 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter state of each message processor
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,10 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt = self.last_tx_cnt.insert(m_nr, out_v.tx_cnt).unwrap_or(0);
+                        if !out_v.data.is_empty() && out_v.tx_cnt != last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From 86127dce687439c81f3a34a54a8517b61eaf1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 9/9] fix: keep serial data and reported values when a cycle is
 rejected

---
 src/ur20_fbc_mod_tcp.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 0b3ed41..d5eddc2 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -255,13 +255,34 @@ impl Coupler {
             .zip(&self.offsets)
             .map(|(m, o)| (&**m, o))
             .collect();
-        self.in_values = process_input_data(&infos, process_input)?;
-        self.out_values = process_output_data(&infos, process_output)?;
+        let in_values = process_input_data(&infos, process_input)?;
+        let out_values = process_output_data(&infos, process_output)?;
 
-        let mut next_out_values = self.out_values.clone();
+        let mut next_out_values = out_values.clone();
         let mut in_bytes = HashMap::new();
         let mut out_bytes = HashMap::new();
 
+        for (m_nr, out_v) in out_values.iter().enumerate() {
+            if self.processors.contains_key(&m_nr) {
+                continue;
+            }
+            for (i, _) in out_v.iter().enumerate() {
+                if let Some(v) = self.write.remove(&Address {
+                    module: m_nr,
+                    channel: i,
+                }) {
+                    next_out_values[m_nr][i] = v;
+                }
+            }
+        }
+
+        // Reject values that can't be encoded before the state of
+        // any message processor is changed.
+        process_output_values(&infos, &next_out_values)?;
+
+        self.in_values = in_values;
+        self.out_values = out_values;
+
         for (m_nr, (in_v, out_v)) in self.in_values.iter().zip(&self.out_values).enumerate() {
             if let Some(p) = self.processors.get_mut(&m_nr) {
                 if let ChannelValue::ComRsIn(ref in_v) = in_v[0] {
@@ -289,15 +310,6 @@ impl Coupler {
                         }
                     }
                 }
-            } else {
-                for (i, _) in out_v.iter().enumerate() {
-                    if let Some(v) = self.write.remove(&Address {
-                        module: m_nr,
-                        channel: i,
-                    }) {
-                        next_out_values[m_nr][i] = v;
-                    }
-                }
             }
         }
         for (m_nr, v) in in_bytes {
-- 
2.43.0

