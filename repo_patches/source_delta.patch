From d9de3e0a1abe9bcdfa7874e86ff79d37aff68a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 01/14] fix: report OutOfMemory when a buffer cannot hold a
 pending frame header

With a 4 byte buffer fed in small pieces the parser kept the first four
bytes of a header and silently threw the rest away, then glued what
followed to it: frames were lost without a report, or a frame that is not
in the stream was delivered.
---
 ublox/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 051daca..6cb86f6 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -485,6 +485,12 @@ impl<'a, T: UnderlyingBuffer> ParserIter<'a, T> {
             }
 
             if self.buf.len() < 6 {
+                if self.buf.potential_lost_bytes() > 0 {
+                    // The header doesn't fit, so the pending bytes can't all be kept.
+                    // Drop this packet and move on
+                    self.buf.drain(2);
+                    return Some(Err(ParserError::OutOfMemory { required_size: 6 }));
+                }
                 return None;
             }
 
-- 
2.43.0


From 4cf60be321aea775a432b6259b5916fe597ccf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 02/14] fix: decode the TIM-TM2 time base from its two bits
 instead of panicking

---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..86f8bc0 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2887,11 +2887,11 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
+        match (self.0 >> 3) & 0b11 {
             0 => TimTm2TimeBase::Receiver,
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-            _ => unreachable!(),
+            _ => TimTm2TimeBase::Reserved,
         }
     }
 
@@ -2919,6 +2919,7 @@ pub enum TimTm2TimeBase {
     Receiver,
     Gnss,
     Utc,
+    Reserved,
 }
 
 #[ubx_packet_recv]
-- 
2.43.0


From 12434a66d1b5f1689a4d5be32be5282a737b5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 03/14] fix: refuse CFG-PRT UART modes that UartMode cannot
 represent instead of panicking

---
 ublox/src/ubx_packets/packets.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 86f8bc0..06cca1b 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1876,7 +1876,7 @@ struct CfgPrtUart {
     portid: u8,
     reserved0: u8,
     tx_ready: u16,
-    #[ubx(map_type = UartMode)]
+    #[ubx(map_type = UartMode, may_fail)]
     mode: u32,
     baud_rate: u32,
     #[ubx(map_type = InProtoMask)]
@@ -1918,6 +1918,14 @@ impl UartMode {
     const fn into_raw(self) -> u32 {
         self.data_bits.into_raw() | self.parity.into_raw() | self.stop_bits.into_raw()
     }
+
+    fn from_unchecked(mode: u32) -> Self {
+        Self::from(mode)
+    }
+
+    fn is_valid(mode: u32) -> bool {
+        DataBits::is_valid(mode) && Parity::is_valid(mode)
+    }
 }
 
 impl From<u32> for UartMode {
@@ -1951,6 +1959,10 @@ impl DataBits {
             Self::Eight => 0b11,
         }) << Self::POSITION
     }
+
+    const fn is_valid(mode: u32) -> bool {
+        matches!((mode >> Self::POSITION) & Self::MASK, 0b10 | 0b11)
+    }
 }
 
 impl From<u32> for DataBits {
@@ -1984,6 +1996,13 @@ impl Parity {
             Self::None => 0b100,
         }) << Self::POSITION
     }
+
+    const fn is_valid(mode: u32) -> bool {
+        matches!(
+            (mode >> Self::POSITION) & Self::MASK,
+            0b000 | 0b001 | 0b100 | 0b101
+        )
+    }
 }
 
 impl From<u32> for Parity {
-- 
2.43.0


From 5cd7a56ad1f67fc1e51eaabf88aa5ae656e6044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 04/14] fix: extend_to appends its frame without touching what
 the output already holds

---
 ublox_derive/src/output.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..b544e7b 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -472,6 +472,7 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
                   let mut len_bytes = 0;
+                  let start = out.len();
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
                   //out.extend(header);
@@ -481,10 +482,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[start + 2..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From 8ba2493ad22b3dc23e2627b01165bf8eb85be044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 05/14] fix: do not panic when a NaN is written to a signed
 scaled field

---
 ublox/src/ubx_packets/packets.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 06cca1b..eb74012 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2419,7 +2419,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i8(i8::max_value()).unwrap() {
             i8::max_value()
         } else {
-            x.to_i8().unwrap()
+            x.to_i8().unwrap_or(0) // NaN
         }
     }
 
@@ -2430,7 +2430,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i16(i16::max_value()).unwrap() {
             i16::max_value()
         } else {
-            x.to_i16().unwrap()
+            x.to_i16().unwrap_or(0) // NaN
         }
     }
 
@@ -2441,7 +2441,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i32(i32::MAX).unwrap() {
             i32::MAX
         } else {
-            x.to_i32().unwrap()
+            x.to_i32().unwrap_or(0) // NaN
         }
     }
 
-- 
2.43.0


From 30fc7e4d1ca174ad6da4d2a2eabf43581f422e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 06/14] fix: decode and encode every CFG-ITFM sub-field at its
 own bits

---
 ublox/src/ubx_packets/packets.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index eb74012..f0e6c7a 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -905,9 +905,14 @@ impl CfgItfmConfig {
 impl From<u32> for CfgItfmConfig {
     fn from(cfg: u32) -> Self {
         let enable = (cfg & 0x80000000) > 0;
-        let bb_threshold = CfgItfmBbThreshold::from(cfg);
-        let cw_threshold = CfgItfmCwThreshold::from(cfg);
-        let algorithm_bits = CfgItfmAlgoBits::from(cfg);
+        let bb_threshold = CfgItfmBbThreshold::from(
+            (cfg >> CfgItfmBbThreshold::POSITION) & CfgItfmBbThreshold::MASK,
+        );
+        let cw_threshold = CfgItfmCwThreshold::from(
+            (cfg >> CfgItfmCwThreshold::POSITION) & CfgItfmCwThreshold::MASK,
+        );
+        let algorithm_bits =
+            CfgItfmAlgoBits::from((cfg >> CfgItfmAlgoBits::POSITION) & CfgItfmAlgoBits::MASK);
         Self {
             enable,
             bb_threshold,
@@ -1017,14 +1022,16 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | ((self.antenna.into_raw() as u32) << 12)
     }
 }
 
 impl From<u32> for CfgItfmConfig2 {
     fn from(cfg: u32) -> Self {
         let scan_aux_bands = (cfg & 0x4000) > 0;
-        let general = CfgItfmGeneralBits::from(cfg);
+        let general = CfgItfmGeneralBits::from(
+            (cfg >> CfgItfmGeneralBits::POSITION) & CfgItfmGeneralBits::MASK,
+        );
         let antenna = CfgItfmAntennaSettings::from(cfg);
         Self {
             scan_aux_bands,
-- 
2.43.0


From 8b00dc66edba4e9099e434221362a9f7b4f9349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 07/14] fix: convert NAV-HPPOSECEF centimetres to metres in
 PositionECEF

---
 ublox/src/ubx_packets/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..0005e9e 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From 78ea1362e030a0d0e3c6504b732acf8dafd0bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 08/14] fix: add the NAV-HPPOSLLH high precision height in
 metres

---
 ublox/src/ubx_packets/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 0005e9e..57fc00d 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,8 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            // the high precision part is in millimetres
+            alt: packet.height_msl() + packet.height_hp_msl() * 1e-3,
         }
     }
 }
-- 
2.43.0


From cc3a4b072a569780e535e16916313fbf264215e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 09/14] fix: encode month and day of AID-INI times as the
 protocol does

---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index f0e6c7a..7a2d12f 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1267,8 +1267,9 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms =
+            tm.day() * 1_000_000 + tm.hour() * 10000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0


From d4ff083c5507f9789ad3750944b4effc94ebfc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:10 +0000
Subject: [PATCH 10/14] fix: NAV-VELECEF vertical velocity component is signed

---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 7a2d12f..1bf580d 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3545,7 +3545,7 @@ struct NavVelECEF {
     itow: u32,
     ecef_vx: i32,
     ecef_vy: i32,
-    ecef_vz: u32,
+    ecef_vz: i32,
     s_acc: u32,
 }
 
-- 
2.43.0


From 154c9276173b31fdcf35cb0208e68b006c76a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 11/14] fix: deliver CFG-INF and CFG-NAVX5 as the messages they
 are declared to be

---
 ublox/src/ubx_packets/packets.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 1bf580d..0ea6a43 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3717,6 +3717,8 @@ define_recv_packets!(
         CfgTmode2,
         CfgTmode3,
         CfgTp5,
+        CfgInf,
+        CfgNavX5,
         InfError,
         InfWarning,
         InfNotice,
-- 
2.43.0


From 5a11a97dedc0294fc37336001dd93ca59a3b3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:42 +0000
Subject: [PATCH 12/14] fix: refuse packet definitions whose max_payload_len is
 below the size of their fixed part

---
 ublox_derive/src/input.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 28df6cb..efdc5b5 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -37,6 +37,22 @@ pub fn parse_packet_description(
         ));
     }
 
+    if let PayloadLen::Max(max_len) = header.payload_len {
+        let sized = fields
+            .iter()
+            .filter_map(|f| f.size_bytes)
+            .fold(0_usize, |sum, size| sum.saturating_add(size.get()));
+        if usize::from(max_len) < sized {
+            return Err(Error::new(
+                main_sp,
+                format!(
+                    "max_payload_len ({}) is less than size of the fixed part of packet ({})",
+                    max_len, sized
+                ),
+            ));
+        }
+    }
+
     let ret = PackDesc {
         name,
         header,
-- 
2.43.0


From c0783f579b608e0fb5198eb80156e6ec25879c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:37 +0000
Subject: [PATCH 13/14] fix: refuse conversion attributes of a field without
 map_type instead of ignoring them

---
 ublox_derive/src/input.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index efdc5b5..8791bd1 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -556,6 +556,15 @@ impl Parse for PackFieldMap {
                 into_fn: custom_into_fn.map(ToTokens::into_token_stream),
                 size_fn: custom_size_fn.map(ToTokens::into_token_stream),
             });
+        } else if map.scale.is_some()
+            || map.convert_may_fail
+            || map.get_as_ref
+            || custom_from_fn.is_some()
+            || custom_is_valid_fn.is_some()
+            || custom_into_fn.is_some()
+            || custom_size_fn.is_some()
+        {
+            return Err(input.error("Conversion attributes without map_type"));
         }
 
         Ok(map)
-- 
2.43.0


From 95ef2aa68048031627cea76a1870a17acd6e288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:41 +0000
Subject: [PATCH 14/14] fix: refuse repeated keys and repeated ubx attributes
 in descriptions

---
 ublox_derive/src/input.rs | 55 +++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/ublox_derive/src/input.rs b/ublox_derive/src/input.rs
index 8791bd1..ade128f 100644
--- a/ublox_derive/src/input.rs
+++ b/ublox_derive/src/input.rs
@@ -209,6 +209,15 @@ pub fn parse_idents_list(input: proc_macro2::TokenStream) -> syn::Result<RecvPac
     syn::parse2(input)
 }
 
+fn find_ubx_attr(attrs: &[Attribute]) -> syn::Result<Option<&Attribute>> {
+    let mut ubx_attrs = attrs.iter().filter(|a| a.path.is_ident("ubx"));
+    let attr = ubx_attrs.next();
+    match ubx_attrs.next() {
+        Some(second) => Err(Error::new(second.span(), "Duplicate ubx attribute")),
+        None => Ok(attr),
+    }
+}
+
 fn parse_ubx_extend_attrs(
     ubx_extend_name: &str,
     item_sp: Span,
@@ -218,9 +227,7 @@ fn parse_ubx_extend_attrs(
     Option<UbxTypeIntoFn>,
     Option<UbxEnumRestHandling>,
 )> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
+    let attr = find_ubx_attr(attrs)?
         .ok_or_else(|| Error::new(item_sp, format!("No ubx attribute for {}", ubx_extend_name)))?;
     let meta = attr.parse_meta()?;
     let mut from_fn = None;
@@ -231,12 +238,21 @@ fn parse_ubx_extend_attrs(
         syn::Meta::List(list) => {
             for item in list.nested {
                 if let syn::NestedMeta::Meta(syn::Meta::Path(p)) = item {
-                    if p.is_ident("from") {
-                        from_fn = Some(UbxTypeFromFn::From);
+                    if p.is_ident("from") || p.is_ident("from_unchecked") {
+                        if from_fn.is_some() {
+                            return Err(Error::new(
+                                p.span(),
+                                "from or from_unchecked already defined",
+                            ));
+                        }
+
+                        from_fn = Some(if p.is_ident("from") {
+                            UbxTypeFromFn::From
+                        } else {
+                            UbxTypeFromFn::FromUnchecked
+                        });
                     } else if p.is_ident("into_raw") {
                         into_fn = Some(UbxTypeIntoFn::Raw);
-                    } else if p.is_ident("from_unchecked") {
-                        from_fn = Some(UbxTypeFromFn::FromUnchecked);
                     } else if p.is_ident("rest_reserved") || p.is_ident("rest_error") {
                         if rest_handling.is_some() {
                             return Err(Error::new(
@@ -274,15 +290,12 @@ fn parse_ubx_extend_attrs(
 }
 
 fn parse_ubx_attr(attrs: &[Attribute], struct_name: &Ident) -> syn::Result<PackHeader> {
-    let attr = attrs
-        .iter()
-        .find(|a| a.path.is_ident("ubx"))
-        .ok_or_else(|| {
-            Error::new(
-                struct_name.span(),
-                format!("No ubx attribute for struct {}", struct_name),
-            )
-        })?;
+    let attr = find_ubx_attr(attrs)?.ok_or_else(|| {
+        Error::new(
+            struct_name.span(),
+            format!("No ubx attribute for struct {}", struct_name),
+        )
+    })?;
     let meta = attr.parse_meta()?;
     let meta = match meta {
         syn::Meta::List(x) => x,
@@ -502,7 +515,17 @@ impl Parse for PackFieldMap {
         let mut custom_into_fn: Option<syn::Expr> = None;
         let mut custom_is_valid_fn: Option<syn::Path> = None;
         let mut custom_size_fn: Option<syn::Path> = None;
+        let mut seen: Vec<Ident> = Vec::new();
         while !input.is_empty() {
+            if let Ok(key) = input.fork().parse::<Ident>() {
+                if seen.contains(&key) {
+                    return Err(Error::new(
+                        key.span(),
+                        format!("Duplicate \"{}\" attribute", key),
+                    ));
+                }
+                seen.push(key);
+            }
             let lookahead = input.lookahead1();
 
             if lookahead.peek(kw::map_type) {
-- 
2.43.0

