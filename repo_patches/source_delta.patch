From 8d1f9384ce4c3ea79d127a5f81c6688f4a3e4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 01/18] fix: do not print an empty line when every list element
 prints as nothing

A section whose only attribute is an fmtp with default parameters was
serialized with a bare "a=" line, which the parser rejects.
---
 src/attribute_type.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..55e4c7c 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -40,16 +40,14 @@ macro_rules! write_option_string {
 #[macro_export]
 macro_rules! maybe_vector_to_string {
     ($fmt_str:expr, $vec:expr, $sep:expr) => {
-        match $vec.len() {
-            0 => "".to_string(),
-            _ => format!(
-                $fmt_str,
-                $vec.iter()
-                    .map(ToString::to_string)
-                    .filter(|s| !s.is_empty())
-                    .collect::<Vec<String>>()
-                    .join($sep)
-            ),
+        match $vec
+            .iter()
+            .map(ToString::to_string)
+            .filter(|s| !s.is_empty())
+            .collect::<Vec<String>>()
+        {
+            strings if strings.is_empty() => "".to_string(),
+            strings => format!($fmt_str, strings.join($sep)),
         }
     };
 }
-- 
2.43.0


From 8cb97be78bcbe4d23520b6f9118ca432bc7779d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 02/18] fix: separate unknown fmtp parameters with ';' when
 serializing

They were joined with ',', so two unknown parameters came back from the
parser as a single one.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 55e4c7c..ae280ac 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -698,7 +698,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From 65e5c8a6fee4ad65d59635045c92f45d07c5eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 03/18] fix: ignore whitespace around fmtp parameters

In "maxplaybackrate=48000; stereo=1" the second parameter was filed under
the unknown ones instead of being applied.
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index ae280ac..4fd527e 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2148,6 +2148,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             // Permit Leading/Trailing/Inner ';' by filtering out empty splits
             let parameter_tokens: Vec<&str> = parameter_token
                 .split(';')
+                .map(str::trim)
                 .filter(|token| !token.is_empty())
                 .collect();
             for parameter_token in parameter_tokens.iter() {
-- 
2.43.0


From 2090e5e5de3add0a87176f7884dff7df1bdca9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 04/18] fix: keep the other fmtp parameters when serializing
 apt/rtx-time

Everything next to apt and rtx-time was dropped from the output.
---
 src/attribute_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 4fd527e..9f9bbca 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -639,10 +639,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
         if !self.dtmf_tones.is_empty() {
             // telephone-event
             return write!(f, "{}", self.dtmf_tones);
@@ -660,6 +656,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
             f,
             "{}",
             non_empty_string_vec![
+                option_to_string!("{}", self.rtx),
                 maybe_print_param(
                     "profile-level-id=",
                     format!("{:06x}", self.profile_level_id),
-- 
2.43.0


From b51337410e067e43e1806abf31a8892effeddae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 05/18] fix: reject empty rids in the simulcast attribute

"simulcast:send ;" was accepted, but serialized to "simulcast:send ",
which is not.
---
 src/attribute_type.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 9f9bbca..6f49c5e 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -3293,24 +3293,28 @@ fn parse_simulcast_version_list(
     to_parse: &str,
 ) -> Result<Vec<SdpAttributeSimulcastVersion>, SdpParserInternalError> {
     let make_version_list = |to_parse: &str| {
-        to_parse
+        let versions: Vec<_> = to_parse
             .split(';')
             .map(SdpAttributeSimulcastVersion::new)
-            .collect()
+            .collect();
+        if versions.iter().flat_map(|x| &x.ids).any(|x| x.id.is_empty()) {
+            return Err(SdpParserInternalError::Generic(
+                "Simulcast attribute must not contain empty rids".to_string(),
+            ));
+        }
+        Ok(versions)
     };
     if to_parse.contains('=') {
         let mut descriptor_versionlist_pair = to_parse.splitn(2, '=');
         match descriptor_versionlist_pair.next().unwrap() {
             // TODO Bug 1470568
-            "rid" => Ok(make_version_list(
-                descriptor_versionlist_pair.next().unwrap(),
-            )),
+            "rid" => make_version_list(descriptor_versionlist_pair.next().unwrap()),
             descriptor => Err(SdpParserInternalError::Generic(format!(
                 "Simulcast attribute has unknown list descriptor '{descriptor:?}'"
             ))),
         }
     } else {
-        Ok(make_version_list(to_parse))
+        make_version_list(to_parse)
     }
 }
 
-- 
2.43.0


From 8d8691d51bb38ee3ce24ce333570e4d5c9da8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 06/18] fix: check the rids of every simulcast attribute of a
 media section

Only the first simulcast attribute was checked for undefined rids.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..5784ab3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -740,8 +740,13 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             }
         }
 
-        if let Some(SdpAttribute::Simulcast(simulcast)) =
-            msection.get_attribute(SdpAttributeType::Simulcast)
+        for simulcast in msection
+            .get_attributes()
+            .iter()
+            .filter_map(|attr| match *attr {
+                SdpAttribute::Simulcast(ref simulcast) => Some(simulcast),
+                _ => None,
+            })
         {
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
-- 
2.43.0


From 33c483a34d01bc144cb0bf58f4ad0996080e42dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 07/18] fix: parse rid parameters so that they survive
 serialization

A pt parameter after the first position became an unknown parameter that
could be serialized as the first one and then be read as a format list,
empty rids in depends got lost, and blanks around a parameter made it an
unknown one.
---
 src/attribute_type.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 6f49c5e..d9e0af8 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2933,7 +2933,7 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             }
         }
 
-        for param in parameters {
+        for param in parameters.map(str::trim) {
             // TODO: Bug 1225877. Add support for params without '='
             let param_value_pair: Vec<&str> = param.splitn(2, '=').collect();
             if param_value_pair.len() != 2 {
@@ -2950,7 +2950,17 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                 "max-br" => params.max_br = param_value_pair[1].parse::<u32>()?,
                 "max-pps" => params.max_pps = param_value_pair[1].parse::<u32>()?,
                 "depends" => {
-                    depends.extend(param_value_pair[1].split(',').map(ToString::to_string));
+                    depends.extend(
+                        param_value_pair[1]
+                            .split(',')
+                            .map(|id| id.trim().to_string())
+                            .filter(|id| !id.is_empty()),
+                    );
+                }
+                "pt" => {
+                    return Err(SdpParserInternalError::Generic(
+                        "The rid parameter 'pt' must be the first parameter".to_string(),
+                    ))
                 }
                 _ => params.unknown.push(param.to_string()),
             }
-- 
2.43.0


From 7d7fb81a59f0f29a7255d7b379bb4e5e4462d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 08/18] fix: reject signs in fingerprint octets

u8::from_str_radix accepts "+A".
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index d9e0af8..c9ac567 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -763,7 +763,7 @@ impl SdpAttributeFingerprintHashType {
         let bytes = octets_string
             .split(':')
             .map(|byte_token| {
-                if byte_token.len() != 2 {
+                if byte_token.len() != 2 || !byte_token.bytes().all(|b| b.is_ascii_hexdigit()) {
                     return Err(SdpParserInternalError::Generic(
                         "fingerpint's byte tokens must have 2 hexdigits".to_string(),
                     ));
-- 
2.43.0


From 308942a1a77196299b78a5c3bd45bbceaec15919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 09/18] fix: convert all bytes of the number in to_byte_vec

Only the lowest byte was kept, so the anonymizer handed out the same
fingerprint twice after 255 of them.
---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From 8b89d42c4cf43e5e76968660496dd08646c79a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 10/18] fix: mask the connection address of media sections

---
 src/media_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..8103d94 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,7 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self.connection.as_ref().map(|c| c.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From 677a8d932f72fa334a46362b227e8c5f0435a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 11/18] fix: keep the media sections in the masked clone of a
 session

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5784ab3..24a35ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for m in &self.media {
+            masked.media.push(m.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From fadc4bf11e61c6b59a8b345192e71fa87b6dfe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 12/18] fix: mask the ufrag of candidates

---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index c9ac567..f03413c 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -296,6 +296,7 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self.ufrag.as_ref().map(|u| anonymizer.mask_ice_user(u));
         masked
     }
 }
-- 
2.43.0


From 070b424a21fcd39ae0e35328edfa211c0c6cabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 13/18] fix: mask the address of the rtcp attribute

---
 src/attribute_type.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index f03413c..8bd0be1 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -453,6 +453,17 @@ impl SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        let mut masked = self.clone();
+        masked.unicast_addr = self
+            .unicast_addr
+            .as_ref()
+            .map(|addr| anon.mask_typed_address(addr));
+        masked
+    }
+}
+
 impl fmt::Display for SdpAttributeRtcp {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self.unicast_addr {
@@ -1577,6 +1588,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From 9bf0573016654d5a82e47bda9fd9d15325b76911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 14/18] fix: do not drop an unbalanced rest of an imageattr

"imageattr:97 send * [x" was accepted as "imageattr:97 send *".
---
 src/attribute_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8bd0be1..946c35c 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2483,6 +2483,11 @@ fn parse_imageattr_tokens(to_parse: &str, separator: char) -> Vec<String> {
         }
     }
 
+    // An unbalanced rest is kept, so that it is rejected and not ignored
+    if !current_tokens.is_empty() {
+        tokens.push(current_tokens.join(&separator.to_string()));
+    }
+
     tokens
 }
 
-- 
2.43.0


From ab14406ead1f9e798e3d0bedc19d966c8af48546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 15/18] fix: reject NaN in the sar and par ranges of imageattr

A NaN passed the check that the values are ascending.
---
 src/attribute_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 946c35c..1e63af6 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2597,7 +2597,7 @@ fn parse_image_attr_set(
         let min = minmax_pair[0].parse::<f32>()?;
         let max = minmax_pair[1].parse::<f32>()?;
 
-        if min >= max {
+        if min.is_nan() || max.is_nan() || min >= max {
             return Err(SdpParserInternalError::Generic(
                 "In imageattr's par and sar ranges, first must be < than the second".to_string(),
             ));
@@ -2636,7 +2636,7 @@ fn parse_image_attr_set(
                     // Check that all the values are ascending
                     let mut last_value = 0.0;
                     for value in &values {
-                        if last_value >= *value {
+                        if value.is_nan() || last_value >= *value {
                             return Err(SdpParserInternalError::Generic(
                                 "imageattr's sar discrete value list must contain ascending values"
                                     .to_string(),
-- 
2.43.0


From 52b38c4bdbd24e6e450e62657819747e7e25e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 16/18] fix: parse_media_vector must not panic without lines

---
 src/media_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/media_type.rs b/src/media_type.rs
index 8103d94..650c1db 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -409,6 +409,10 @@ pub fn parse_media(value: &str) -> Result<SdpType, SdpParserInternalError> {
 pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, SdpParserError> {
     let mut media_sections: Vec<SdpMedia> = Vec::new();
 
+    if lines.is_empty() {
+        return Ok(media_sections);
+    }
+
     let media_line = lines.remove(0);
     let mut sdp_media = match media_line.sdp_type {
         SdpType::Media(v) => SdpMedia::new(v),
-- 
2.43.0


From 16be9599c6dfdb89865967994b4e37661e6553ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 17/18] fix: reject simulcast rids with '='

---
 src/attribute_type.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 1e63af6..003664d 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -3330,6 +3330,12 @@ fn parse_simulcast_version_list(
                 "Simulcast attribute must not contain empty rids".to_string(),
             ));
         }
+        // A '=' would be taken for a list descriptor once serialized
+        if versions.iter().flat_map(|x| &x.ids).any(|x| x.id.contains('=')) {
+            return Err(SdpParserInternalError::Generic(
+                "Simulcast attribute must not contain rids with '='".to_string(),
+            ));
+        }
         Ok(versions)
     };
     if to_parse.contains('=') {
-- 
2.43.0


From e16e861865a61b8b3ade68f1a6259d69f43aa738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:48 +0000
Subject: [PATCH 18/18] fix: reject a bracketed imageattr sar list with fewer
 than two values

---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 003664d..c506693 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2619,7 +2619,7 @@ fn parse_image_attr_set(
                     // Range
                     let range = parse_ps_range(sar_values)?;
                     sar = Some(SdpAttributeImageAttrSRange::Range(range.0, range.1))
-                } else if value_token.contains(',') {
+                } else {
                     // Discrete values
                     let values = sar_values
                         .split(',')
-- 
2.43.0

