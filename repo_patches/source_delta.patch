From 3628dd580b2a4969e20261d2c87fd500c707950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:24 +0000
Subject: [PATCH 01/78] fix: do not report a GOP OK when none of its NALUs were
 received

If every NALU of a GOP is lost, but its SEI is received, there is no item to mark
as not authentic nor any missing items added, hence the GOP was reported as OK.
Add the missing items before the SEI and treat a GOP where all NALUs are missing
as not OK also if there was only one.
---
 lib/src/signed_video_h26x_auth.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..20234a4 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -526,12 +526,14 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
   num_received_hashes =
       set_validation_status_of_pending_items_used_in_gop_hash(self, validation_status, sei);
 
-  if (!self->validation_flags.is_first_validation && first_gop_hash_item) {
+  if (!self->validation_flags.is_first_validation) {
     int num_missing_nalus = num_expected_hashes - num_received_hashes;
-    const bool append = first_gop_hash_item->nalu->is_first_nalu_in_gop;
+    // If no NALU of the GOP was received, add the missing NALUs before the SEI.
+    const bool append = first_gop_hash_item && first_gop_hash_item->nalu->is_first_nalu_in_gop;
     // No need to check the return value. A failure only affects the statistics. In the worst case
     // we may signal SV_AUTH_RESULT_OK instead of SV_AUTH_RESULT_OK_WITH_MISSING_INFO.
-    h26x_nalu_list_add_missing(self->nalu_list, num_missing_nalus, append, first_gop_hash_item);
+    h26x_nalu_list_add_missing(self->nalu_list, num_missing_nalus, append,
+        first_gop_hash_item ? first_gop_hash_item : sei);
   }
 
   if (num_expected_nalus) *num_expected_nalus = num_expected_hashes;
@@ -656,7 +658,7 @@ validate_authenticity(signed_video_t *self)
   // TODO: Move this inside the verify_hashes_ functions. We should not need to perform any special
   // actions on the output.
   if (!validation_flags->is_first_validation) {
-    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > 1) &&
+    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > 0) &&
         (num_missed_nalus >= num_expected_nalus)) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
-- 
2.43.0


From 5b8e1d8617dd08b233a3926771e52ac1bd441132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:47 +0000
Subject: [PATCH 02/78] fix: finalize the GOP hash before generating the
 end-of-stream SEI

---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..a5e63ff 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -728,6 +728,10 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    // If there are hashes added since the last SEI, the |computed_gop_hash| has to be finalized.
+    if (self->gop_info->list_idx != 0) {
+      SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
+    }
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-- 
2.43.0


From 0d039cc33f5409f9f575dbc76eac4872b5ec9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:43 +0000
Subject: [PATCH 03/78] fix: avoid signed overflow when detecting lost SEIs

The GOP counter is 32 bits wide; the wraparound estimate added INT64_MAX to a
non-negative value, which is undefined and hid lost SEIs.
---
 lib/src/signed_video_h26x_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 20234a4..c952dcf 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -113,8 +113,8 @@ detect_lost_sei(signed_video_t *self)
   // a reset and a wraparound but provides a reasonable estimate to handle the situation.
   // TODO: Investigate what happens if two SEI frames are interchanged.This will be
   // addressed in future updates.
-  bool is_wraparound = (potentially_missed_gops + INT64_MAX) < (INT64_MAX / 2);
-  if (is_wraparound) potentially_missed_gops += INT64_MAX;
+  bool is_wraparound = (potentially_missed_gops + UINT32_MAX) < (UINT32_MAX / 2);
+  if (is_wraparound) potentially_missed_gops += (int64_t)UINT32_MAX + 1;
 
   // It is only possible to know if a SEI has been lost if the |global_gop_counter| is in sync.
   // Otherwise, the counter cannot be trusted.
-- 
2.43.0


From 7a8525a94d99b39db6a5ff9f61e30cb1a5b0b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:24 +0000
Subject: [PATCH 04/78] fix: do not read outside the NAL Unit when parsing it

Short NAL Units, NAL Units with only zeros and SEIs with a payload size that does not
match the data made the parser read outside the data.
---
 lib/src/signed_video_h26x_common.c | 66 ++++++++++++++++++++----------
 lib/src/signed_video_h26x_sign.c   |  2 +-
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..1652e05 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,14 +317,15 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -340,8 +341,9 @@ h264_get_uuid_sei_type(const uint8_t *uuid)
 }
 
 static bool
-parse_h264_nalu_header(h26x_nalu_t *nalu)
+parse_h264_nalu_header(h26x_nalu_t *nalu, size_t data_size)
 {
+  if (data_size < H264_NALU_HEADER_LEN) return false;
   // Parse the H264 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -350,7 +352,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -403,8 +406,9 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
 }
 
 static bool
-parse_h265_nalu_header(h26x_nalu_t *nalu)
+parse_h265_nalu_header(h26x_nalu_t *nalu, size_t data_size)
 {
+  if (data_size < H265_NALU_HEADER_LEN) return false;
   // Parse the H265 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -421,7 +425,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -534,6 +539,10 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
+  // The |payload_size| is not to be trusted, hence limit the TLV size to the available data.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t max_tlv_size = hashable_data_end - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > max_tlv_size) nalu->tlv_size = max_tlv_size;
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
@@ -555,15 +564,24 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
-    for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+    size_t written_size = 0;
+    while (written_size < data_size && hashable_data_ptr < hashable_data_end) {
+      if (last_two_bytes == 0 && *hashable_data_ptr == 0x03) {
+        // Emulation prevention byte detected. Skip it.
+        read_byte(&last_two_bytes, &hashable_data_ptr, false);
+        continue;
+      }
+      nalu->nalu_data_wo_epb[written_size++] =
+          read_byte(&last_two_bytes, &hashable_data_ptr, false);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
-    nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
+    const size_t tlv_offset = data_size - nalu->payload_size + UUID_LEN;
+    nalu->tlv_data = &nalu->nalu_data_wo_epb[tlv_offset];
+    if (nalu->tlv_size > written_size - tlv_offset) nalu->tlv_size = written_size - tlv_offset;
     if (!nalu->with_epb) {
       // If the SEI was hashed before applying emulation prevention, update |hashable_data|.
       nalu->hashable_data = nalu->nalu_data_wo_epb;
-      nalu->hashable_data_size = data_size;
+      nalu->hashable_data_size = written_size;
       nalu->tlv_start_in_nalu_data = nalu->tlv_data;
     }
   }
@@ -606,7 +624,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
+  if (nalu_data_size >= sizeof(start_code)) read_bytes = read_32bits(nalu_data, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -623,10 +642,10 @@ parse_nalu_info(const uint8_t *nalu_data,
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
-    nalu_header_is_valid = parse_h264_nalu_header(&nalu);
+    nalu_header_is_valid = parse_h264_nalu_header(&nalu, nalu_data_size - read_bytes);
     nalu_header_len = H264_NALU_HEADER_LEN;
   } else {
-    nalu_header_is_valid = parse_h265_nalu_header(&nalu);
+    nalu_header_is_valid = parse_h265_nalu_header(&nalu, nalu_data_size - read_bytes);
     nalu_header_len = H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
@@ -641,7 +660,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -651,13 +671,13 @@ parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *nalu_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
-    payload++;
-    if (user_data_unregistered == USER_DATA_UNREGISTERED) {
+    if (payload < nalu_end && *payload == USER_DATA_UNREGISTERED) {
+      payload++;
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
+      size_t read_bytes = h264_get_payload_size(payload, nalu_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -673,8 +693,10 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      // Decode UUID type. A Signed Video SEI has at least a UUID and a reserved byte.
+      if (payload_size > UUID_LEN && (size_t)(nalu_end - payload) > UUID_LEN) {
+        nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index a5e63ff..a5dd42f 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -497,7 +497,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
+    while (is_last_part && (nalu_data_size > 0) && (nalu_data[nalu_data_size - 1] == 0x00)) {
       nalu_data_size--;
     }
     nalu.hashable_data_size = nalu_data_size;
-- 
2.43.0


From 5b53b2ad13722ab96d215e8fd2ddba1c3334c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:17 +0000
Subject: [PATCH 05/78] fix: scan and decode TLVs within the available data

The search for the signature tag used the size without emulation prevention bytes when
scanning data including such bytes, hence an authentic SEI with many emulation prevention
bytes was not validated correctly. Further, TLV headers and lengths were not checked
against the size of the data.
---
 lib/src/legacy/legacy_h26x_auth.c |  6 ++-
 lib/src/signed_video_h26x_auth.c  |  6 ++-
 lib/src/signed_video_tlv.c        | 64 ++++++++++++++++++++++++-------
 3 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..0d2575d 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -980,8 +980,12 @@ legacy_update_hashable_data(legacy_h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  // Note that |tlv_size| excludes emulation prevention bytes, whereas the scanned data may include
+  // such bytes.
+  const size_t scan_size =
+      nalu->hashable_data_size - (nalu->tlv_start_in_nalu_data - nalu->hashable_data);
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, scan_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index c952dcf..bbad1b4 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1060,8 +1060,12 @@ update_hashable_data(h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  // Note that |tlv_size| excludes emulation prevention bytes, whereas the scanned data may include
+  // such bytes.
+  const size_t scan_size =
+      nalu->hashable_data_size - (nalu->tlv_start_in_nalu_data - nalu->hashable_data);
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, scan_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..5395c70 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -178,7 +178,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -1151,28 +1155,38 @@ tlv_list_encode_or_get_size(signed_video_t *self,
 }
 
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   sv_tlv_tuple_t tlv = get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
+  // The |data| has to include the entire TLV header.
+  if (data_size < 1 + (size_t)tlv.bytes_for_length) return SV_INVALID_PARAMETER;
   *tag = tag_from_data;
 
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_16bits = 0;
+    data_ptr += read_16bits(data_ptr, &length_16bits);
+    *length = length_16bits;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // The |data| has to include the entire value.
+  if (*length > data_size - *data_bytes_read) return SV_INVALID_PARAMETER;
 
   return SV_OK;
 }
@@ -1189,7 +1203,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    const size_t data_left = data_size - (data_ptr - data);
+    status = decode_tlv_header(data_ptr, data_left, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1208,6 +1223,23 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/* Same as read_byte(), but does not read at or beyond |data_end|. Returns false if there is no byte
+ * to read. */
+static bool
+read_byte_bounded(uint16_t *last_two_bytes,
+    const uint8_t **data,
+    const uint8_t *data_end,
+    bool do_emulation_prevention,
+    uint8_t *byte)
+{
+  if (*data >= data_end) return false;
+  bool is_epb = do_emulation_prevention && **data == 0x03 && *last_two_bytes == 0;
+  if (is_epb && *data + 1 >= data_end) return false;
+
+  *byte = read_byte(last_two_bytes, data, do_emulation_prevention);
+  return true;
+}
+
 const uint8_t *
 tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bool with_ep)
 {
@@ -1216,25 +1248,30 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
 
   if (!tlv_data || tlv_data_size == 0) return 0;
 
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  while (tlv_data_ptr < tlv_data + tlv_data_size) {
+  while (tlv_data_ptr < tlv_data_end) {
+    uint8_t byte = 0;
     latest_tag_location = tlv_data_ptr;
     // Read the tag
-    sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    if (!read_byte_bounded(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+    sv_tlv_tag_t this_tag = byte;
     if (this_tag == tag) {
       return latest_tag_location;
     }
 
     // Read the length
-    uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    if (!read_byte_bounded(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
+    uint16_t length = byte;
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
     if (tlv.bytes_for_length == 2) {
+      if (!read_byte_bounded(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
       length <<= 8;
-      length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      length |= byte;
     }
     // Scan past the data
     for (int i = 0; i < length; i++) {
-      read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      if (!read_byte_bounded(&last_two_bytes, &tlv_data_ptr, tlv_data_end, with_ep, &byte)) break;
     }
   }
   DEBUG_LOG("Never found the tag %d", tag);
@@ -1257,13 +1294,14 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    const size_t data_left = tlv_data_size - (tlv_data_ptr - tlv_data);
+    status = decode_tlv_header(tlv_data_ptr, data_left, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From 868bc95d55280bf41ca104caddf732ac8bf12238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:49 +0000
Subject: [PATCH 06/78] fix: validate sizes when decoding TLV values

The decoders trusted the size of, and the content in, the TLV values. A hostile SEI could
make them read outside the data, overflow the buffers of the received hashes and use an
unknown hash algorithm.
---
 lib/src/signed_video_openssl.c |  7 ++++
 lib/src/signed_video_tlv.c     | 72 +++++++++++++++++++++++-----------
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..49b1ee7 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -402,6 +402,7 @@ oid_to_type(message_digest_t *self)
     SV_THROW_IF(
         !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
     self->type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!self->type, SV_EXTERNAL_ERROR);
     self->size = EVP_MD_size(self->type);
   SV_CATCH()
   SV_DONE(status)
@@ -499,6 +500,12 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
 
     SV_THROW(oid_to_type(&self->hash_algo));
   SV_CATCH()
+  {
+    // The |encoded_oid| is not valid and should not be mistaken for a known one.
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo.encoded_oid = NULL;
+    self->hash_algo.encoded_oid_size = 0;
+  }
   SV_DONE(status)
 
   return status;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 5395c70..234a935 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -310,7 +310,10 @@ encode_general(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The mandatory fields are; version, GOP counter, number of NALUs and Signed Video version.
+  const size_t kMinDataSize = 1 + 4 + 2 + SV_VERSION_BYTES;
   if (!self || !data) return SV_INVALID_PARAMETER;
+  if (data_size < kMinDataSize) return SV_AUTHENTICATION_ERROR;
 
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
@@ -339,9 +342,11 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size < kMinDataSize + 1, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF(data_size < kMinDataSize + 1 + 8, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -353,6 +358,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     }
     if (version >= 3) {
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
@@ -515,43 +521,49 @@ encode_product_info(signed_video_t *self, uint8_t *data)
   return (data_ptr - data);
 }
 
+/**
+ * @brief Decodes a string in the PRODUCT_INFO_TAG
+ *
+ * The first byte is the size of the string including the null-terminated character. The |data_ptr|
+ * is moved past the string.
+ */
+static svrc_t
+decode_product_info_string(char **dst_str, const uint8_t **data_ptr, const uint8_t *data_end)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  size_t str_size = *(*data_ptr)++;
+  if (str_size == 0 || str_size > (size_t)(data_end - *data_ptr)) return SV_AUTHENTICATION_ERROR;
+
+  const char *str = (const char *)*data_ptr;
+  if (str[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+  *data_ptr += str_size;
+
+  return allocate_memory_and_copy_string(dst_str, str);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
 static svrc_t
 decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info || data_size == 0) return SV_INVALID_PARAMETER;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(decode_product_info_string(&product_info->hardware_id, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->firmware_version, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->serial_number, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->manufacturer, &data_ptr, data_end));
+    SV_THROW(decode_product_info_string(&product_info->address, &data_ptr, data_end));
 
     // Transfer the decoded |product_info| to the authenticity report.
     if (self->authenticity) {
@@ -611,6 +623,8 @@ encode_arbitrary_data(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_arbitrary_data(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -698,6 +712,9 @@ encode_public_key(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version (and the algo for old versions) and a non-empty key have to be present.
+  if (data_size < 2 || (data[0] < 2 && data_size < 3)) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -717,6 +734,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
@@ -740,7 +758,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
       // Set public key.
       SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
+          self->latest_validation && self->latest_validation->public_key_has_changed));
     }
 #endif
 
@@ -808,6 +826,8 @@ encode_hash_list(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_hash_list(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -900,6 +920,9 @@ encode_signature(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // Version, info field, hash type and the size of the signature have to be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -1001,6 +1024,9 @@ encode_crypto_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // Version and the size of the OID have to be present, as well as the OID itself.
+  if (data_size < 2 || data_size - 2 < data[1]) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
-- 
2.43.0


From 76feb029fe2a427c99ca4f18cfc5ba309cb0a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:15 +0000
Subject: [PATCH 07/78] fix: check sizes when decoding the Axis Communications
 vendor tag

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..ba042f5 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -604,6 +604,8 @@ svrc_t
 decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data_size)
 {
   if (!handle) return SV_INVALID_PARAMETER;
+  // The version, the |attestation_size| and the |attestation| have to be present.
+  if (data_size < 2 || data_size - 2 < data[1]) return SV_AUTHENTICATION_ERROR;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
   const uint8_t *data_ptr = data;
@@ -646,6 +648,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
+    SV_THROW_IF(strlen(self->certificate_chain) != cert_size, SV_NOT_SUPPORTED);
     SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
-- 
2.43.0


From cbf30739224cebc3a288a8152e610e6cafbaf70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:20 +0000
Subject: [PATCH 08/78] fix: do not search for certificates without a
 certificate chain

It is allowed to set only the attestation report, but signing then crashed.
---
 .../axis-communications/sv_vendor_axis_communications.c       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index ba042f5..7d663f3 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -558,12 +558,12 @@ encode_axis_communications_handle(void *handle, uint16_t *last_two_bytes, bool e
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
   size_t data_size = 0;
-  // Get the size of the untrusted certificates that will be added to the tag.
-  size_t certificate_chain_encode_size = get_untrusted_certificates_size(self);
   const uint8_t version = 1;  // Increment when the change breaks the format
 
   // If there is no attestation or certificate chain, skip encoding, that is return 0.
   if (!self->attestation || !self->certificate_chain) return 0;
+  // Get the size of the untrusted certificates that will be added to the tag.
+  size_t certificate_chain_encode_size = get_untrusted_certificates_size(self);
 
   // Version 1:
   //  - version (1 byte)
-- 
2.43.0


From 8c12b868c87bfa933e5f8a0a3709e02599593091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:47 +0000
Subject: [PATCH 09/78] fix: do not keep a pointer to a freed public key in the
 vendor handle

---
 lib/src/legacy/legacy_tlv.c                          |  3 +++
 lib/src/signed_video_tlv.c                           |  3 +++
 .../sv_vendor_axis_communications.c                  | 12 +++++++++++-
 .../sv_vendor_axis_communications_internal.h         | 10 ++++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..59b3ef2 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -380,6 +380,9 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
       // Set public key.
       SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
           self->latest_validation->public_key_has_changed));
+    } else {
+      // The key set earlier, if any, is no longer valid.
+      clear_axis_communications_public_key(self->vendor_handle);
     }
 #endif
 
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 234a935..e010a9a 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -759,6 +759,9 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
       // Set public key.
       SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
           self->latest_validation && self->latest_validation->public_key_has_changed));
+    } else {
+      // The key set earlier, if any, is no longer valid.
+      clear_axis_communications_public_key(self->vendor_handle);
     }
 #endif
 
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 7d663f3..81193c3 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -682,8 +682,10 @@ set_axis_communications_public_key(void *handle,
   // The |public_key| is on EVP_PKEY_CTX form.
   EVP_PKEY *pkey = EVP_PKEY_CTX_get0_pkey((EVP_PKEY_CTX *)public_key);
 
-  // If the Public key previously has been validated unsuccessful, skip checking type and size.
+  // If the Public key previously has been validated unsuccessful, skip checking type and size. The
+  // previous |public_key| may have been freed, hence it has to be replaced.
   if (self->supplemental_authenticity.public_key_validation == 0) {
+    self->public_key = public_key;
     return SV_OK;
   }
 
@@ -724,6 +726,14 @@ set_axis_communications_public_key(void *handle,
   return status;
 }
 
+void
+clear_axis_communications_public_key(void *handle)
+{
+  if (!handle) return;
+
+  ((sv_vendor_axis_communications_t *)handle)->public_key = NULL;
+}
+
 svrc_t
 get_axis_communications_supplemental_authenticity(void *handle,
     sv_vendor_axis_supplemental_authenticity_t **supplemental_authenticity)
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h b/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h
index 342b8a0..013498a 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h
@@ -109,6 +109,16 @@ set_axis_communications_public_key(void *handle,
     void const *public_key,
     bool public_key_has_changed);
 
+/**
+ * @brief Clears the public key set by set_axis_communications_public_key()
+ *
+ * The public key is not owned by the handle and has to be cleared when it is no longer valid.
+ *
+ * @param handle The handle from which to clear the public key.
+ */
+void
+clear_axis_communications_public_key(void *handle);
+
 /**
  * @brief Gets the Axis supplemental authenticity report
  *
-- 
2.43.0


From e8ed66af31d3ad60f584c918151957c159017598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:47 +0000
Subject: [PATCH 10/78] fix: check the length of the serial number and the
 allocation of the signed data

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 81193c3..71535ef 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -258,6 +258,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     // Found serial number in certificate. Read that entry and convert to UTF8.
     entry_data = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(subject, ser_no_index));
     SV_THROW_IF(ASN1_STRING_to_UTF8(&serial_number_str, entry_data) <= 0, SV_EXTERNAL_ERROR);
+    SV_THROW_IF(
+        strlen((char *)serial_number_str) >= SV_VENDOR_AXIS_SER_NO_MAX_LENGTH, SV_VENDOR_ERROR);
     // Copy only if necessary.
     if (strcmp(self->supplemental_authenticity.serial_number, (char *)serial_number_str)) {
       memset(self->supplemental_authenticity.serial_number, 0, SV_VENDOR_AXIS_SER_NO_MAX_LENGTH);
@@ -409,6 +411,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From 5f61a710baa86abf72fd5034c98bddd5f69f5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:02 +0000
Subject: [PATCH 11/78] fix: free all memory of the Axis Communications vendor
 handle

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 71535ef..f346fdc 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -227,6 +227,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
+    // Free the last read certificate if it was not pushed to the stack.
+    X509_free(certificate);
     SV_THROW_IF(num_certificates > NUM_UNTRUSTED_CERTIFICATES, SV_VENDOR_ERROR);
 
     SV_THROW(verify_certificate_chain(self->trusted_ca, untrusted_certificates));
@@ -515,6 +517,7 @@ sv_vendor_axis_communications_teardown(void *handle)
 
   free(self->attestation);
   free(self->certificate_chain);
+  EVP_MD_CTX_free(self->md_ctx);
   X509_free(self->trusted_ca);
   free(self);
 }
-- 
2.43.0


From 9508d9871a743ca3ea51d890c8ced65600cae8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 12/78] fix: free arbitrary data when closing the session

---
 lib/src/legacy/legacy_h26x_common.c | 1 +
 lib/src/signed_video_h26x_common.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..4faf142 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -944,6 +944,7 @@ legacy_sv_free(legacy_sv_t *self)
 
   free(self->gop_info);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 1652e05..914d942 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1278,6 +1278,7 @@ signed_video_free(signed_video_t *self)
   sign_or_verify_data_free(self->sign_data);
   sign_or_verify_data_free(self->verify_data);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From 9c2bd727e4d504716cb96eab509cf2cb2e038bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:34 +0000
Subject: [PATCH 13/78] fix: do not leak the plugin session when the private
 key is set again

---
 lib/src/signed_video_h26x_sign.c |  8 ++++++--
 lib/src/signed_video_openssl.c   | 14 +++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index a5dd42f..b67581d 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -811,14 +811,18 @@ signed_video_set_private_key_new(signed_video_t *self,
 {
   if (!self || !private_key || private_key_size == 0) return SV_INVALID_PARAMETER;
 
+  void *plugin_handle = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Temporally turn the PEM |private_key| into an EVP_PKEY and allocate memory for signatures.
     SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
     SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
 
-    self->plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
-    SV_THROW_IF(!self->plugin_handle, SV_EXTERNAL_ERROR);
+    plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
+    SV_THROW_IF(!plugin_handle, SV_EXTERNAL_ERROR);
+    // Replace any existing plugin session.
+    sv_signing_plugin_session_teardown(self->plugin_handle);
+    self->plugin_handle = plugin_handle;
   SV_CATCH()
   SV_DONE(status)
 
diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 49b1ee7..c3d1725 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -102,6 +102,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
 
   EVP_PKEY_CTX *ctx = NULL;
   EVP_PKEY *signing_key = NULL;
+  uint8_t *signature = NULL;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -114,8 +115,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     // Read the maximum size of the signature that the |private_key| can generate
     size_t max_signature_size = EVP_PKEY_size(signing_key);
     SV_THROW_IF(max_signature_size == 0, SV_EXTERNAL_ERROR);
-    sign_data->signature = malloc(max_signature_size);
-    SV_THROW_IF(!sign_data->signature, SV_MEMORY);
+    signature = malloc(max_signature_size);
+    SV_THROW_IF(!signature, SV_MEMORY);
     // Create a context from the |signing_key|
     ctx = EVP_PKEY_CTX_new(signing_key, NULL /* no engine */);
     SV_THROW_IF(!ctx, SV_EXTERNAL_ERROR);
@@ -128,13 +129,16 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
       SV_THROW_IF(EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256()) <= 0, SV_EXTERNAL_ERROR);
     }
 
-    // Set the content in |sign_data|
+    // Free any existing signature and key, and set the content in |sign_data|
+    free(sign_data->signature);
+    sign_data->signature = signature;
+    sign_data->signature_size = 0;
     sign_data->max_signature_size = max_signature_size;
+    EVP_PKEY_CTX_free(sign_data->key);
     sign_data->key = ctx;
   SV_CATCH()
   {
-    free(sign_data->signature);
-    sign_data->signature = NULL;
+    free(signature);
     EVP_PKEY_CTX_free(ctx);
     ctx = NULL;
   }
-- 
2.43.0


From fe71139b97860deb617fb787b70fcce65aacbc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 14/78] fix: keep the hash algorithm when an unsupported one is
 received

---
 lib/src/signed_video_openssl.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index c3d1725..c37f0d2 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -490,25 +490,30 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     return SV_OK;
   }
 
-  // A new hash algorithm to set. Reset existing one.
-  free(self->hash_algo.encoded_oid);
-  self->hash_algo.encoded_oid = NULL;
-  self->hash_algo.encoded_oid_size = 0;
-
+  // A new hash algorithm to set. Keep the existing one if it is not supported.
+  message_digest_t new_algo = {0};
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    self->hash_algo.encoded_oid = malloc(encoded_oid_size);
-    SV_THROW_IF(!self->hash_algo.encoded_oid, SV_MEMORY);
-    memcpy(self->hash_algo.encoded_oid, encoded_oid, encoded_oid_size);
-    self->hash_algo.encoded_oid_size = encoded_oid_size;
+    new_algo.encoded_oid = malloc(encoded_oid_size);
+    SV_THROW_IF(!new_algo.encoded_oid, SV_MEMORY);
+    memcpy(new_algo.encoded_oid, encoded_oid, encoded_oid_size);
+    new_algo.encoded_oid_size = encoded_oid_size;
+
+    SV_THROW(oid_to_type(&new_algo));
 
-    SV_THROW(oid_to_type(&self->hash_algo));
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo = new_algo;
+    new_algo.encoded_oid = NULL;
+    // Free the contexts to be able to assign the new message digest type to them.
+    EVP_MD_CTX_free(self->primary_ctx);
+    self->primary_ctx = NULL;
+    EVP_MD_CTX_free(self->secondary_ctx);
+    self->secondary_ctx = NULL;
+
+    SV_THROW(openssl_init_hash(self, false));
   SV_CATCH()
   {
-    // The |encoded_oid| is not valid and should not be mistaken for a known one.
-    free(self->hash_algo.encoded_oid);
-    self->hash_algo.encoded_oid = NULL;
-    self->hash_algo.encoded_oid_size = 0;
+    free(new_algo.encoded_oid);
   }
   SV_DONE(status)
 
-- 
2.43.0


From 01f8ef049073d67227ee5b4ce957cefa27127b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:32 +0000
Subject: [PATCH 15/78] fix: do not validate for ever when a SEI without
 preceding NALUs follows a lost SEI

---
 lib/src/signed_video_h26x_auth.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index bbad1b4..d2f8d82 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -591,6 +591,19 @@ verify_hashes_without_sei(signed_video_t *self)
   return found_next_gop;
 }
 
+/* Checks if there are pending NALUs prior to the oldest pending SEI. If not, there is no GOP to
+ * verify without that SEI. */
+static bool
+has_pending_nalus_before_sei(const signed_video_t *self)
+{
+  const h26x_nalu_list_item_t *item = self->nalu_list->first_item;
+  while (item && item->validation_status != 'P') {
+    item = item->next;
+  }
+
+  return item && !item->nalu->is_gop_sei;
+}
+
 /* Validates the authenticity using hashes in the |nalu_list|.
  *
  * In brief, the validation verifies hashes and sets the |validation_status| given the outcome.
@@ -630,7 +643,8 @@ validate_authenticity(signed_video_t *self)
   int num_missed_nalus = -1;
   bool verify_success = false;
 
-  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost) {
+  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost &&
+      has_pending_nalus_before_sei(self)) {
     DEBUG_LOG("We never received the SEI associated with this GOP");
     // We never received the SEI nalu, but we know we have passed a GOP transition. Hence, we cannot
     // verify this GOP. Marking this GOP as not OK by verify_hashes_without_sei().
-- 
2.43.0


From 46ecd5634068f333b7a207bab09adce75d6dfec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:57 +0000
Subject: [PATCH 16/78] fix: do not abort on a SEI without TLV data

A received SEI may hold nothing but a UUID and a reserved byte, which is reported as an error when
decoding it and not by an assert.
---
 lib/src/signed_video_h26x_auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index d2f8d82..8078bf6 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -77,7 +77,7 @@ static const char *kAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES] = {"
 static svrc_t
 decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   DEBUG_LOG("SEI payload size = %zu, exp gop number = %u", payload_size,
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From 5863a710cb6888631e58204384cad0733ea660f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:07 +0000
Subject: [PATCH 17/78] fix: do not use a SEI again after failing to decode it

A SEI that failed decoding when it was not the latest added NALU remained pending, hence was picked
and failed again in every validation to come.
---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 8078bf6..6337952 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -808,7 +808,10 @@ prepare_for_validation(signed_video_t *self)
         self->latest_validation->public_key_has_changed = false;
         const uint8_t *tlv_data = sei->nalu->tlv_data;
         size_t tlv_size = sei->nalu->tlv_size;
-        SV_THROW(decode_sei_data(self, tlv_data, tlv_size));
+        svrc_t decode_status = decode_sei_data(self, tlv_data, tlv_size);
+        // A SEI that cannot be decoded cannot be used by any upcoming validation either.
+        if (decode_status != SV_OK) sei->validation_status = 'E';
+        SV_THROW(decode_status);
         sei->has_been_decoded = true;
         memcpy(verify_data->hash, sei->hash, hash_size);
       }
-- 
2.43.0


From 7477f4bcc30bae4a0b74c9693426dffa9134742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 18/78] fix: do not announce a public key that could not be
 read

A damaged public key in the first SEI made the session believe that all recurrent data was present,
and to select the legacy validation based on a NALU that is not a SEI.
---
 lib/src/signed_video_tlv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index e010a9a..056862f 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -745,11 +745,11 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
       self->latest_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
-    self->has_public_key = true;
     data_ptr += pubkey_size;
 
     // Convert to EVP_PKEY_CTX
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
+    self->has_public_key = true;
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
     // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-- 
2.43.0


From 16d100260555b7b3b14ab4d36ed5f04e499c62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:49 +0000
Subject: [PATCH 19/78] fix: do not report product information from a SEI that
 failed verification

With a recurrence interval the product information is not part of every SEI. Product information from
a tampered SEI was kept and presented in later reports with a valid authenticity.
---
 lib/src/signed_video_h26x_auth.c | 27 ++++++++++++++++++++++++++-
 lib/src/signed_video_internal.h  |  3 +++
 lib/src/signed_video_tlv.c       |  1 +
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 6337952..5f7654d 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -780,6 +780,26 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
   return status;
 }
 
+/* Removes product information from a SEI that could not be verified. It is done upon the next
+ * verified SEI, unless that one brought its own product information. */
+static svrc_t
+remove_unverified_product_info(signed_video_t *self)
+{
+  validation_flags_t *validation_flags = &(self->validation_flags);
+
+  if (self->gop_info->verified_signature_hash != 1) {
+    validation_flags->has_unverified_product_info |= validation_flags->has_new_product_info;
+    return SV_OK;
+  }
+  bool remove = validation_flags->has_unverified_product_info &&
+      !validation_flags->has_new_product_info;
+  validation_flags->has_unverified_product_info = false;
+  if (!remove) return SV_OK;
+
+  product_info_free_members(self->product_info);
+  return transfer_product_info(&self->authenticity->product_info, self->product_info);
+}
+
 /* prepare_for_validation()
  *
  * 1) finds the oldest available and pending SEI in the |nalu_list|.
@@ -808,9 +828,13 @@ prepare_for_validation(signed_video_t *self)
         self->latest_validation->public_key_has_changed = false;
         const uint8_t *tlv_data = sei->nalu->tlv_data;
         size_t tlv_size = sei->nalu->tlv_size;
+        validation_flags->has_new_product_info = false;
         svrc_t decode_status = decode_sei_data(self, tlv_data, tlv_size);
         // A SEI that cannot be decoded cannot be used by any upcoming validation either.
-        if (decode_status != SV_OK) sei->validation_status = 'E';
+        if (decode_status != SV_OK) {
+          sei->validation_status = 'E';
+          validation_flags->has_unverified_product_info |= validation_flags->has_new_product_info;
+        }
         SV_THROW(decode_status);
         sei->has_been_decoded = true;
         memcpy(verify_data->hash, sei->hash, hash_size);
@@ -854,6 +878,7 @@ prepare_for_validation(signed_video_t *self)
     // If we have received a SEI there is a signature to use for verification.
     if (self->gop_state.has_sei) {
       SV_THROW(openssl_verify_hash(verify_data, &self->gop_info->verified_signature_hash));
+      SV_THROW(remove_unverified_product_info(self));
     }
 
   SV_CATCH()
diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index 6531f19..f11edb5 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -88,6 +88,9 @@ struct _validation_flags_t {
   // from false to true unless a reset is performed.
   bool is_first_sei;  // Indicates that this is the first received SEI.
   bool hash_algo_known;  // Information on what hash algorithm to use has been received.
+  bool has_new_product_info;  // The latest decoded SEI includes product information.
+  bool has_unverified_product_info;  // The product information comes from a SEI that could not be
+  // verified.
 };
 
 struct _gop_state_t {
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 056862f..877b08b 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -559,6 +559,7 @@ decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     signed_video_product_info_t *product_info = self->product_info;
 
+    self->validation_flags.has_new_product_info = true;
     SV_THROW(decode_product_info_string(&product_info->hardware_id, &data_ptr, data_end));
     SV_THROW(decode_product_info_string(&product_info->firmware_version, &data_ptr, data_end));
     SV_THROW(decode_product_info_string(&product_info->serial_number, &data_ptr, data_end));
-- 
2.43.0


From 1847d409016104711f4fc442299f768731ee3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:16 +0000
Subject: [PATCH 20/78] fix: accept a new signature size on the validating side

The allocated size of the signature was decided by the first SEI and validation failed for ever when
it changed, e.g., after a change of signing key or a damaged first SEI.
---
 lib/src/signed_video_tlv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 877b08b..e9df0f7 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -948,7 +948,9 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      // The size may differ from previous SEIs, e.g., if the signing key has changed.
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -957,7 +959,6 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
-- 
2.43.0


From 72d17ac422be655088ba1d939538ba8e4a4a1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:44 +0000
Subject: [PATCH 21/78] fix: do not use a SEI without signature again after
 failing to verify it

---
 lib/src/signed_video_h26x_auth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 5f7654d..8d41c49 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -877,7 +877,11 @@ prepare_for_validation(signed_video_t *self)
 
     // If we have received a SEI there is a signature to use for verification.
     if (self->gop_state.has_sei) {
-      SV_THROW(openssl_verify_hash(verify_data, &self->gop_info->verified_signature_hash));
+      svrc_t verify_status =
+          openssl_verify_hash(verify_data, &self->gop_info->verified_signature_hash);
+      // A SEI without a signature to verify cannot be used by any upcoming validation either.
+      if (verify_status != SV_OK && sei) sei->validation_status = 'E';
+      SV_THROW(verify_status);
       SV_THROW(remove_unverified_product_info(self));
     }
 
-- 
2.43.0


From 342cc8437c81d5456dac5ca79d43f8983b03a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:06 +0000
Subject: [PATCH 22/78] fix: do not use a SEI again after any failure to
 prepare its validation

A SEI without, e.g., a public key blocked all SEIs to come.
---
 lib/src/signed_video_h26x_auth.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 8d41c49..171114f 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -830,9 +830,7 @@ prepare_for_validation(signed_video_t *self)
         size_t tlv_size = sei->nalu->tlv_size;
         validation_flags->has_new_product_info = false;
         svrc_t decode_status = decode_sei_data(self, tlv_data, tlv_size);
-        // A SEI that cannot be decoded cannot be used by any upcoming validation either.
         if (decode_status != SV_OK) {
-          sei->validation_status = 'E';
           validation_flags->has_unverified_product_info |= validation_flags->has_new_product_info;
         }
         SV_THROW(decode_status);
@@ -877,15 +875,15 @@ prepare_for_validation(signed_video_t *self)
 
     // If we have received a SEI there is a signature to use for verification.
     if (self->gop_state.has_sei) {
-      svrc_t verify_status =
-          openssl_verify_hash(verify_data, &self->gop_info->verified_signature_hash);
-      // A SEI without a signature to verify cannot be used by any upcoming validation either.
-      if (verify_status != SV_OK && sei) sei->validation_status = 'E';
-      SV_THROW(verify_status);
+      SV_THROW(openssl_verify_hash(verify_data, &self->gop_info->verified_signature_hash));
       SV_THROW(remove_unverified_product_info(self));
     }
 
   SV_CATCH()
+  {
+    // A SEI that failed cannot be used by any upcoming validation either.
+    if (sei) sei->validation_status = 'E';
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 79f56ec4e44a2eb0adc4e644fc61286bbd01a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:20 +0000
Subject: [PATCH 23/78] fix: do not report OK when the verification of a
 signature had errors

---
 lib/src/signed_video_h26x_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 171114f..63e5ab4 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -515,6 +515,8 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
     sei->validation_status = validation_status;
     // Remove |used_in_gop_hash| from marked NALUs.
     remove_used_in_gop_hash(self->nalu_list);
+    // Without a verified signature the GOP is not OK.
+    sei->used_in_gop_hash = true;
     return verify_hashes_without_sei(self);
   }
 
-- 
2.43.0


From b3d6ddf2a30ded7cc3b2a0b9f78791340e57b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:20 +0000
Subject: [PATCH 24/78] fix: do not dereference missing items when verifying
 without a SEI

---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 63e5ab4..32a12f3 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -581,6 +581,10 @@ verify_hashes_without_sei(signed_video_t *self)
     num_marked_items++;
 
     item = item->next;
+    // Skip missing items, since they have no NALU.
+    while (item && !item->nalu) {
+      item = item->next;
+    }
     if (item) {
       found_next_gop = item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
     }
-- 
2.43.0


From fdb36b4c19ce1ff4b8b5516312f94714e52b806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 25/78] fix: do not read outside the NAL Unit when parsing it
 in legacy validation

---
 lib/src/legacy/legacy_h26x_common.c | 64 +++++++++++++++++++----------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 4faf142..1e6f0e8 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,14 +171,15 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -194,8 +195,9 @@ legacy_get_uuid_sei_type(const uint8_t *uuid)
 }
 
 static bool
-legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
+legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu, size_t data_size)
 {
+  if (data_size < LEGACY_H264_NALU_HEADER_LEN) return false;
   // Parse the H264 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -204,7 +206,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -257,8 +260,9 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
 }
 
 static bool
-legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
+legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu, size_t data_size)
 {
+  if (data_size < LEGACY_H265_NALU_HEADER_LEN) return false;
   // Parse the H265 NAL Unit Header
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
@@ -275,7 +279,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -388,6 +393,10 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   nalu->reserved_byte = *nalu->tlv_start_in_nalu_data;
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
+  // The |payload_size| is not to be trusted, hence limit the TLV size to the available data.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t max_tlv_size = hashable_data_end - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > max_tlv_size) nalu->tlv_size = max_tlv_size;
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
@@ -409,15 +418,24 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
-    for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+    size_t written_size = 0;
+    while (written_size < data_size && hashable_data_ptr < hashable_data_end) {
+      if (last_two_bytes == 0 && *hashable_data_ptr == 0x03) {
+        // Emulation prevention byte detected. Skip it.
+        read_byte(&last_two_bytes, &hashable_data_ptr, false);
+        continue;
+      }
+      nalu->nalu_data_wo_epb[written_size++] =
+          read_byte(&last_two_bytes, &hashable_data_ptr, false);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
-    nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
+    const size_t tlv_offset = data_size - nalu->payload_size + UUID_LEN;
+    nalu->tlv_data = &nalu->nalu_data_wo_epb[tlv_offset];
+    if (nalu->tlv_size > written_size - tlv_offset) nalu->tlv_size = written_size - tlv_offset;
     if (!nalu->with_epb) {
       // If the SEI was hashed before applying emulation prevention, update |hashable_data|.
       nalu->hashable_data = nalu->nalu_data_wo_epb;
-      nalu->hashable_data_size = data_size;
+      nalu->hashable_data_size = written_size;
       nalu->tlv_start_in_nalu_data = nalu->tlv_data;
     }
   }
@@ -460,7 +478,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
+  if (nalu_data_size >= sizeof(start_code)) read_bytes = read_32bits(nalu_data, &start_code);
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -477,10 +496,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
-    nalu_header_is_valid = legacy_parse_h264_nalu_header(&nalu);
+    nalu_header_is_valid = legacy_parse_h264_nalu_header(&nalu, nalu_data_size - read_bytes);
     nalu_header_len = LEGACY_H264_NALU_HEADER_LEN;
   } else {
-    nalu_header_is_valid = legacy_parse_h265_nalu_header(&nalu);
+    nalu_header_is_valid = legacy_parse_h265_nalu_header(&nalu, nalu_data_size - read_bytes);
     nalu_header_len = LEGACY_H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
@@ -495,7 +514,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -505,13 +525,13 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *nalu_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
-    payload++;
-    if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
+    if (payload < nalu_end && *payload == LEGACY_USER_DATA_UNREGISTERED) {
+      payload++;
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
+      size_t read_bytes = legacy_get_payload_size(payload, nalu_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -527,8 +547,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      // Decode UUID type. A Signed Video SEI has at least a UUID and a reserved byte.
+      if (payload_size > UUID_LEN && (size_t)(nalu_end - payload) > UUID_LEN) {
+        nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
-- 
2.43.0


From 857cf35dbf0e4c3e7aad9e16e0f7c165241dcff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 26/78] fix: decode TLVs within the available data in legacy
 validation

---
 lib/src/legacy/legacy_tlv.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 59b3ef2..d0a7b30 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -559,30 +560,37 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   legacy_sv_tlv_tuple_t tlv = legacy_get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
+  // The |data| has to include the entire TLV header.
+  if (data_size < 1 + (size_t)tlv.bytes_for_length) return SV_INVALID_PARAMETER;
   *tag = tag_from_data;
 
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_16bits = 0;
+    data_ptr += read_16bits(data_ptr, &length_16bits);
+    *length = length_16bits;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  // The |data| has to include the entire value.
+  if (*length > data_size - *data_bytes_read) return SV_INVALID_PARAMETER;
 
   return SV_OK;
 }
@@ -599,7 +607,8 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    const size_t data_left = data_size - (data_ptr - data);
+    status = legacy_decode_tlv_header(data_ptr, data_left, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -633,13 +642,15 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    const size_t data_left = tlv_data_size - (tlv_data_ptr - tlv_data);
+    status =
+        legacy_decode_tlv_header(tlv_data_ptr, data_left, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From 9ed5c28a71a873789eec46f6f4f4fb8513563615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 27/78] fix: validate sizes when decoding TLV values in legacy
 validation

---
 lib/src/legacy/legacy_tlv.c | 68 +++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index d0a7b30..d3a07b3 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -174,7 +174,10 @@ legacy_get_tlv_tuple(sv_tlv_tag_t tag)
 static svrc_t
 legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The mandatory fields are; version, GOP counter, number of NALUs and Signed Video version.
+  const size_t kMinDataSize = 1 + 4 + 2 + SV_VERSION_BYTES;
   if (!self || !data) return SV_INVALID_PARAMETER;
+  if (data_size < kMinDataSize) return SV_AUTHENTICATION_ERROR;
 
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
@@ -202,9 +205,11 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size < kMinDataSize + 1, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF(data_size < kMinDataSize + 1 + 8, SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -236,43 +241,50 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/**
+ * @brief Decodes a string in the PRODUCT_INFO_TAG
+ *
+ * The first byte is the size of the string including the null-terminated character. The |data_ptr|
+ * is moved past the string.
+ */
+static svrc_t
+legacy_decode_product_info_string(char **dst_str, const uint8_t **data_ptr, const uint8_t *data_end)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  size_t str_size = *(*data_ptr)++;
+  if (str_size == 0 || str_size > (size_t)(data_end - *data_ptr)) return SV_AUTHENTICATION_ERROR;
+
+  const char *str = (const char *)*data_ptr;
+  if (str[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+  *data_ptr += str_size;
+
+  return allocate_memory_and_copy_string(dst_str, str);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
 static svrc_t
 legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info || data_size == 0) return SV_INVALID_PARAMETER;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
+    SV_THROW(legacy_decode_product_info_string(&product_info->hardware_id, &data_ptr, data_end));
     SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+        legacy_decode_product_info_string(&product_info->firmware_version, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->serial_number, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->manufacturer, &data_ptr, data_end));
+    SV_THROW(legacy_decode_product_info_string(&product_info->address, &data_ptr, data_end));
 
     // Transfer the decoded |product_info| to the authenticity report.
     SV_THROW(transfer_product_info(&self->authenticity->product_info, product_info));
@@ -299,6 +311,8 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 static svrc_t
 legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -338,6 +352,9 @@ legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data
 static svrc_t
 legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version (and the algo for old versions) and a non-empty key have to be present.
+  if (data_size < 2 || (data[0] < 2 && data_size < 3)) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -357,6 +374,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
@@ -410,6 +428,8 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 static svrc_t
 legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size == 0) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -446,6 +466,9 @@ legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // Version, info field, hash type and the size of the signature have to be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -503,6 +526,9 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // Version and the size of the OID have to be present, as well as the OID itself.
+  if (data_size < 2 || data_size - 2 < data[1]) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
-- 
2.43.0


From 70c18dac35fa436973c07984c7b9adca95dfabac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 28/78] fix: accept a new signature size in legacy validation

---
 lib/src/legacy/legacy_tlv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index d3a07b3..3359885 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -490,7 +490,9 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= LEGACY_NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      // The size may differ from previous SEIs, e.g., if the signing key has changed.
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -499,7 +501,6 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
-- 
2.43.0


From af62d02ef987d51f40648bb55fcc2764d175a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:57 +0000
Subject: [PATCH 29/78] fix: do not announce a public key that could not be
 read in legacy validation

---
 lib/src/legacy/legacy_tlv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 3359885..9fa3137 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -385,11 +385,11 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
       self->latest_validation->public_key_has_changed = true;
     }
     memcpy(pem_public_key->key, data_ptr, pubkey_size);
-    self->has_public_key = true;
     data_ptr += pubkey_size;
 
     // Convert to EVP_PKEY_CTX
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
+    self->has_public_key = true;
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
     // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-- 
2.43.0


From 9741b476aebf66ce99247c63beb9e85697f97783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:43 +0000
Subject: [PATCH 30/78] fix: allocate enough memory for emulation prevention in
 a SEI

Emulation prevention can add one byte for every two bytes of zeros, not one for
every three, and the size field takes one byte for every 255 bytes. A SEI with
long sequences of zeros (for example in an attestation) was written outside its
buffer.
---
 lib/src/signed_video_h26x_sign.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index b67581d..529d6ca 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -245,12 +245,12 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
     }
     // Compute total SEI NALU data size.
     sei_buffer_size += self->codec == SV_CODEC_H264 ? 6 : 7;  // NALU header
-    sei_buffer_size += payload_size / 256 + 1;  // Size field
+    sei_buffer_size += payload_size / 255 + 1;  // Size field
     sei_buffer_size += payload_size;
     sei_buffer_size += 1;  // Stop bit in a separate byte
 
-    // Secure enough memory for emulation prevention. Worst case will add 1 extra byte per 3 bytes.
-    sei_buffer_size = sei_buffer_size * 4 / 3;
+    // Secure enough memory for emulation prevention. Worst case will add 1 extra byte per 2 bytes.
+    sei_buffer_size += sei_buffer_size / 2 + 1;
 
     // Allocate memory for payload + SEI header to return
     *payload = (uint8_t *)malloc(sei_buffer_size);
-- 
2.43.0


From 1daa228ab8aa1341ef4e01cd48f2256f115a2baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:02 +0000
Subject: [PATCH 31/78] fix: collect signatures once when getting a NALU to
 prepend

If another signature became available between getting the size of the latest
SEI and copying it, a different SEI was copied to a buffer of the wrong size.
Also report an error if that buffer could not be allocated.
---
 lib/src/signed_video_h26x_sign.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 529d6ca..3b72410 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -605,8 +605,6 @@ get_latest_sei(signed_video_t *self, uint8_t *sei, size_t *sei_size)
   if (!self || !sei_size) return SV_INVALID_PARAMETER;
   *sei_size = 0;
 
-  svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
-  if (status != SV_OK) return status;
   if (self->num_of_completed_seis < 1) {
     DEBUG_LOG("There are no completed seis.");
     return SV_OK;
@@ -701,10 +699,18 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NOTHING;
   // Directly pass the members of nalu_to_prepend as arguments to get_latest_sei().
   size_t *sei_size = &nalu_to_prepend->nalu_data_size;
+  // Collect available signatures once only, since completing another SEI between getting the size
+  // and copying the data would change which SEI is the latest.
+  svrc_t status = get_signature_complete_sei_and_add_to_prepend(self);
+  if (status != SV_OK) return status;
   // Get the size from get_latest_sei() and check if its success.
-  svrc_t status = get_latest_sei(self, NULL, sei_size);
+  status = get_latest_sei(self, NULL, sei_size);
   if (SV_OK == status && *sei_size != 0) {
     nalu_to_prepend->nalu_data = malloc(*sei_size);
+    if (!nalu_to_prepend->nalu_data) {
+      nalu_to_prepend->nalu_data_size = 0;
+      return SV_MEMORY;
+    }
     nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
     status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
   }
-- 
2.43.0


From 3105a79deba1b29a77b01bbe52fc7341c1dea512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:20 +0000
Subject: [PATCH 32/78] fix: give up the SEI for which signing failed

When a signature could not be created, the SEI it belongs to remained in the
queue, in freed memory or not, and all following signatures were added to the
wrong SEIs. Remove it from the queue. The signing plugins report a signature
they give up, since the library cannot otherwise tell it from one that is not
yet ready.
---
 lib/plugins/threaded-signing/plugin.c   | 13 ++++++++-----
 lib/plugins/unthreaded-signing/plugin.c |  5 +++--
 lib/src/signed_video_h26x_sign.c        | 12 ++++++++++++
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..c355abe 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -279,8 +279,9 @@ done:
 
 /* If
  *   1. the |id| matches the oldest |out|, and
- *   2. the signature in |out| has been copied to |signature|
- * then returns true, otherwise false.
+ *   2. the signature in |out| has been copied to |signature|, or signing failed
+ * then returns true, otherwise false. If signing failed, |written_signature_size| is 0 and |error|
+ * is set, for the caller to give up the corresponding SEI.
  * Moves the signatures in |out| forward when the copy is done. */
 static bool
 get_signature(threaded_data_t *self,
@@ -292,7 +293,7 @@ get_signature(threaded_data_t *self,
 {
   assert(self && signature && written_signature_size);
 
-  bool has_copied_signature = false;
+  bool has_result = false;
   SignedVideoReturnCode status = SV_OK;
 
   g_mutex_lock(&self->mutex);
@@ -313,15 +314,17 @@ get_signature(threaded_data_t *self,
   if (self->out[0].signing_error) {
     // Propagate SV_EXTERNAL_ERROR when signing failed.
     status = SV_EXTERNAL_ERROR;
+    has_result = true;
   } else if (self->out[0].size > max_signature_size) {
     // There is no room to copy the signature, set status to invalid parameter.
     status = SV_INVALID_PARAMETER;
+    has_result = true;
   } else {
     // Copy the oldest signature
     memcpy(signature, self->out[0].signature, self->out[0].size);
     *written_signature_size = self->out[0].size;
     // Mark as copied.
-    has_copied_signature = true;
+    has_result = true;
   }
   // Move buffer
   signature_data_t tmp = self->out[0];
@@ -339,7 +342,7 @@ done:
 
   if (error) *error = status;
 
-  return has_copied_signature;
+  return has_result;
 }
 
 /*
diff --git a/lib/plugins/unthreaded-signing/plugin.c b/lib/plugins/unthreaded-signing/plugin.c
index ed5fe09..84ad742 100644
--- a/lib/plugins/unthreaded-signing/plugin.c
+++ b/lib/plugins/unthreaded-signing/plugin.c
@@ -148,19 +148,20 @@ sv_signing_plugin_get_signature(void *handle,
 
   if (!self || !signature || !written_signature_size) return false;
 
+  SignedVideoReturnCode status = SV_OK;
   bool has_signature = self->out_buffer_idx > 0;
   if (has_signature) {
     // Copy signature if there is room for it.
     if (max_signature_size < self->out_buffer[0].signature_size) {
       *written_signature_size = 0;
-      has_signature = false;
+      status = SV_INVALID_PARAMETER;
     } else {
       memcpy(signature, self->out_buffer[0].signature, self->out_buffer[0].signature_size);
       *written_signature_size = self->out_buffer[0].signature_size;
     }
     shift_out_buffer(self);
   }
-  if (error) *error = SV_OK;
+  if (error) *error = status;
 
   return has_signature;
 }
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 3b72410..e4d5f81 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -125,6 +125,8 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   // GOP.
   if (self->sign_data->signature_size == 0) {
     signed_video_nalu_data_free(payload);
+    // Remove the SEI from the queue. Otherwise, the next signature would be added to it.
+    if (payload) shift_sei_buffer_at_index(self, self->num_of_completed_seis);
     status = SV_OK;
     goto done;
   } else if (!payload) {
@@ -567,6 +569,11 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
     sign_or_verify_data_t *sign_data = self->sign_data;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
+      if (signature_error != SV_OK) {
+        // Signing failed. Drop the SEI and report the error.
+        sign_data->signature_size = 0;
+        SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
+      }
       SV_THROW(signature_error);
 #ifdef SIGNED_VIDEO_DEBUG
       // TODO: This might not work for blocked signatures, that is if the hash in
@@ -745,6 +752,11 @@ signed_video_set_end_of_stream(signed_video_t *self)
     SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
+      if (signature_error != SV_OK) {
+        // Signing failed. Drop the SEI and report the error.
+        sign_data->signature_size = 0;
+        SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
+      }
       SV_THROW(signature_error);
       SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
     }
-- 
2.43.0


From 99e7343e4d535dc8db94be41290f2b593e8bb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:01 +0000
Subject: [PATCH 33/78] fix: a rejected NALU (part) does not affect the signing

A NALU part that was rejected, because SEIs remained to be fetched or it could
not be parsed, was remembered as started, and the next attempt was hashed as
the continuation of it. When there was no room for another SEI the hash of the
GOP had already been finalized, which made the next attempt finalize it again.
---
 lib/src/signed_video_h26x_sign.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index e4d5f81..c813dc5 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -491,11 +491,10 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     // Only check for trailing zeros if this is the last part.
     nalu = parse_nalu_info(nalu_data, nalu_data_size, self->codec, is_last_part, false);
     nalu.is_last_nalu_part = is_last_part;
-    copy_nalu_except_pointers(self->last_nalu, &nalu);
   } else {
-    self->last_nalu->is_first_nalu_part = false;
-    self->last_nalu->is_last_nalu_part = is_last_part;
     copy_nalu_except_pointers(&nalu, self->last_nalu);
+    nalu.is_first_nalu_part = false;
+    nalu.is_last_nalu_part = is_last_part;
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
@@ -511,6 +510,15 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
+    // Reject a NALU that triggers a SEI, if there is no room for it, before changing any state.
+    const bool is_end_of_gop = nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part;
+    SV_THROW_IF(is_end_of_gop && self->sei_generation_enabled &&
+            self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER,
+        SV_NOT_SUPPORTED);
+
+    // The NALU (part) is accepted. Store its information for the next part.
+    copy_nalu_except_pointers(self->last_nalu, &nalu);
+
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
     // counter for primary slices.
     if (nalu.is_primary_slice && nalu.is_last_nalu_part) {
@@ -741,6 +749,8 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    // Make sure that there is room for another SEI before finalizing the GOP.
+    SV_THROW_IF(self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER, SV_NOT_SUPPORTED);
     // If there are hashes added since the last SEI, the |computed_gop_hash| has to be finalized.
     if (self->gop_info->list_idx != 0) {
       SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
-- 
2.43.0


From ce9a817c653780334ff2a30da1bd3ba79d1dbb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:51 +0000
Subject: [PATCH 34/78] fix: do not sign an empty GOP when continuing after end
 of stream

A SEI generated by signed_video_set_end_of_stream(...) covers everything so far.
The first I-frame after that triggered another SEI, without any NALUs, which the
validation side takes as missing NALUs.
---
 lib/src/signed_video_h26x_sign.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index c813dc5..4afb972 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -511,10 +511,10 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
     // Reject a NALU that triggers a SEI, if there is no room for it, before changing any state.
-    const bool is_end_of_gop = nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part;
-    SV_THROW_IF(is_end_of_gop && self->sei_generation_enabled &&
-            self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER,
-        SV_NOT_SUPPORTED);
+    const bool is_end_of_gop = nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part &&
+        self->sei_generation_enabled && gop_info->list_idx != 0;
+    SV_THROW_IF(
+        is_end_of_gop && self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER, SV_NOT_SUPPORTED);
 
     // The NALU (part) is accepted. Store its information for the next part.
     copy_nalu_except_pointers(self->last_nalu, &nalu);
@@ -530,7 +530,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
     // Finalize GOP hash and generate SEI if the NALU is I frame of a non-empty GOP.
     if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part) {
-      if (self->sei_generation_enabled) {
+      if (is_end_of_gop) {
         if (timestamp) {
           self->gop_info->timestamp = *timestamp;
           self->gop_info->has_timestamp = true;
-- 
2.43.0


From 5008a8e89c5bb16d8a06bd618c36826771d28ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:13 +0000
Subject: [PATCH 35/78] fix: do not sign an empty GOP at end of stream

If no NALUs have been added since the latest SEI, signed_video_set_end_of_stream(...)
has nothing to sign. The SEI it generated anyhow, repeating the hash of the
previous GOP, made the validation side report missing NALUs.
---
 lib/src/signed_video_h26x_sign.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 4afb972..25c29fc 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -749,14 +749,14 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
-    // Make sure that there is room for another SEI before finalizing the GOP.
-    SV_THROW_IF(self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER, SV_NOT_SUPPORTED);
-    // If there are hashes added since the last SEI, the |computed_gop_hash| has to be finalized.
+    // If there are no hashes added since the last SEI, there is nothing more to sign.
     if (self->gop_info->list_idx != 0) {
+      // Make sure that there is room for another SEI before finalizing the |computed_gop_hash|.
+      SV_THROW_IF(self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER, SV_NOT_SUPPORTED);
       SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
+      SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
+      add_payload_to_buffer(self, payload, payload_signature_ptr);
     }
-    SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
-    add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
     sign_or_verify_data_t *sign_data = self->sign_data;
     SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From 59e6c34f4a72db9fd009301cb80f5387ff00afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:44 +0000
Subject: [PATCH 36/78] fix: do not count missing NALUs as pending

---
 lib/src/legacy/legacy_h26x_auth.c     | 10 +++++++++-
 lib/src/signed_video_authenticity.c   |  5 +++--
 lib/src/signed_video_h26x_nalu_list.c | 16 ++++++++++++++++
 lib/src/signed_video_h26x_nalu_list.h | 10 ++++++++++
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 0d2575d..f1f2925 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1076,7 +1076,15 @@ int
 legacy_get_nalu_list_items(legacy_sv_t *self)
 {
   if (!self || !self->nalu_list) return 0;
-  return self->nalu_list->num_items;
+
+  int num_received_items = 0;
+  const legacy_h26x_nalu_list_item_t *item = self->nalu_list->first_item;
+  while (item) {
+    // Missing items have not been received.
+    if (item->validation_status != 'M') num_received_items++;
+    item = item->next;
+  }
+  return num_received_items;
 }
 
 // Copied from signed_video_authenticity.c
diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..be47d9b 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -321,10 +321,11 @@ signed_video_get_authenticity_report(signed_video_t *self)
       accumulated->number_of_pending_nalus = accumulated->number_of_received_nalus;
     } else {
       // At this point, all validated NALUs up to the first pending NALU have been removed from the
-      // |nalu_list|, hence number of pending NALUs equals number of items in the |nalu_list|.
+      // |nalu_list|, hence number of pending NALUs equals number of items in the |nalu_list|, except
+      // for missing NALUs, which have not been received.
       accumulated->number_of_pending_nalus = self->legacy_sv
           ? legacy_get_nalu_list_items(self->legacy_sv)
-          : self->nalu_list->num_items;
+          : h26x_nalu_list_num_received_items(self->nalu_list);
     }
 
     SV_THROW(transfer_authenticity(authenticity_report, self->authenticity));
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 0a9e3db..83bdd5c 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -511,6 +511,22 @@ h26x_nalu_list_num_pending_items(const h26x_nalu_list_t *list)
   return num_pending_nalus;
 }
 
+/* Counts and returns number of items that have been received, i.e., are not missing. */
+unsigned int
+h26x_nalu_list_num_received_items(const h26x_nalu_list_t *list)
+{
+  if (!list) return 0;
+
+  unsigned int num_received_nalus = 0;
+  h26x_nalu_list_item_t *item = list->first_item;
+  while (item) {
+    if (item->validation_status != 'M') num_received_nalus++;
+    item = item->next;
+  }
+
+  return num_received_nalus;
+}
+
 /* Transforms all |validation_status| characters of the items in the |list| into a char string and
  * returns that string if VALIDATION_STR is set. Transforms all |nalu_type| characters of the items
  * in the |list| into a char string and returns that string if NALU_STR is set. */
diff --git a/lib/src/signed_video_h26x_nalu_list.h b/lib/src/signed_video_h26x_nalu_list.h
index 2ff4c2e..a59c141 100644
--- a/lib/src/signed_video_h26x_nalu_list.h
+++ b/lib/src/signed_video_h26x_nalu_list.h
@@ -161,6 +161,16 @@ h26x_nalu_list_get_stats(const h26x_nalu_list_t* list,
 int
 h26x_nalu_list_num_pending_items(const h26x_nalu_list_t* list);
 
+/**
+ * @brief Counts and returns number of received NALUs in the list, i.e., excluding missing NALUs
+ *
+ * @param list The list to count received NALUs.
+ *
+ * @returns Number of received NALUs. Returns zero upon failure.
+ */
+unsigned int
+h26x_nalu_list_num_received_items(const h26x_nalu_list_t* list);
+
 /**
  * @brief Returns a string with all authentication statuses of the items
  *
-- 
2.43.0


From a5c355e1cbb412a2744ae2cfb130c9a6f4efd836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:15 +0000
Subject: [PATCH 37/78] fix: do not sign pictures with an invalid header, as
 they are not validated

---
 lib/src/signed_video_h26x_common.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 914d942..d7563e1 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -651,10 +651,13 @@ parse_nalu_info(const uint8_t *nalu_data,
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
 
-  // Only picture NALUs are hashed.
-  if (nalu.nalu_type == NALU_TYPE_I || nalu.nalu_type == NALU_TYPE_P) nalu.is_hashable = true;
+  // Only valid picture NALUs are hashed.
+  if (nalu.nalu_type == NALU_TYPE_I || nalu.nalu_type == NALU_TYPE_P) {
+    nalu.is_hashable = nalu_header_is_valid;
+  }
 
-  nalu.is_first_nalu_in_gop = (nalu.nalu_type == NALU_TYPE_I) && nalu.is_primary_slice;
+  nalu.is_first_nalu_in_gop =
+      (nalu.nalu_type == NALU_TYPE_I) && nalu.is_primary_slice && nalu_header_is_valid;
 
   // It has been noticed that, at least, ffmpeg can add a trailing 0x00 byte at the end of a NALU
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
-- 
2.43.0


From 95cba29589d96b80604d078aae96cb840907057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:44 +0000
Subject: [PATCH 38/78] fix: count only pictures as frames for the recurrence

---
 lib/src/signed_video_h26x_sign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 25c29fc..3ff2792 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -521,7 +521,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
     // counter for primary slices.
-    if (nalu.is_primary_slice && nalu.is_last_nalu_part) {
+    if (nalu.is_hashable && nalu.is_primary_slice && nalu.is_last_nalu_part) {
       if ((self->frame_count % self->recurrence) == 0) {
         self->has_recurrent_data = true;
       }
-- 
2.43.0


From d48e46992b8a7d3fc6f93ef60126c02932ab469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:21 +0000
Subject: [PATCH 39/78] fix: a public key that cannot be used is not kept

---
 lib/src/signed_video_h26x_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 32a12f3..093327b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1290,6 +1290,12 @@ signed_video_set_public_key(signed_video_t *self, const char *public_key, size_t
     self->has_public_key = true;
 
   SV_CATCH()
+  {
+    // Do not keep a public key that cannot be used.
+    free(self->pem_public_key.key);
+    self->pem_public_key.key = NULL;
+    self->pem_public_key.key_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 48af35bed42aba5dad1510ba5eba43e999436db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:35 +0000
Subject: [PATCH 40/78] fix: find out the hash algorithm also when the public
 key is already known

---
 lib/src/signed_video_h26x_auth.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 093327b..8c91926 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -895,13 +895,37 @@ prepare_for_validation(signed_video_t *self)
   return status;
 }
 
+/* Tries to find out which hash algorithm to use from the pending SEIs. */
+static void
+decode_hash_algo(signed_video_t *self)
+{
+  h26x_nalu_list_item_t *item = self->nalu_list->first_item;
+
+  while (item && !self->validation_flags.hash_algo_known) {
+    if (item->nalu && item->nalu->is_gop_sei && item->validation_status == 'P') {
+      const uint8_t *tlv_data = item->nalu->tlv_data;
+      const size_t tlv_size = item->nalu->tlv_size;
+      const uint8_t *tag = tlv_find_tag(tlv_data, tlv_size, CRYPTO_INFO_TAG, false);
+      // A tag is followed by one byte representing the length of the data.
+      const size_t size_left = tag ? tlv_size - (tag - tlv_data) : 0;
+      if (size_left > 2 && size_left - 2 >= tag[1]) tlv_decode(self, tag, 2 + tag[1]);
+    }
+    item = item->next;
+  }
+}
+
 // If public_key is not received then try to decode all recurrent tags.
 static bool
 is_recurrent_data_decoded(signed_video_t *self)
 {
   h26x_nalu_list_t *nalu_list = self->nalu_list;
 
-  if (self->has_public_key || !self->validation_flags.signing_present) return true;
+  if (!self->validation_flags.signing_present) return true;
+  if (self->has_public_key) {
+    // The public key may be known without having decoded any SEI.
+    if (!self->validation_flags.hash_algo_known) decode_hash_algo(self);
+    return true;
+  }
 
   bool recurrent_data_decoded = false;
   h26x_nalu_list_item_t *item = nalu_list->first_item;
-- 
2.43.0


From b952558c3d34f4ba342d3bb0f281d3db3273d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:32 +0000
Subject: [PATCH 41/78] fix: do not keep the reference hash when resetting

---
 lib/src/signed_video_h26x_common.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index d7563e1..1ddddb2 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -258,6 +258,7 @@ gop_info_reset(gop_info_t *gop_info)
   // If a reset is forced, the stored hashes in |hash_list| have no meaning anymore.
   gop_info->list_idx = 0;
   gop_info->has_reference_hash = false;
+  memset(gop_info->hash_buddies, 0, sizeof(gop_info->hash_buddies));
   gop_info->global_gop_counter_is_synced = false;
 }
 
-- 
2.43.0


From 647a0b5dd2d6aaefaaf8f975e3b635d67f8f5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:49 +0000
Subject: [PATCH 42/78] fix: restart the recurrence when resetting

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 1ddddb2..44b2003 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1231,6 +1231,8 @@ signed_video_reset(signed_video_t *self)
     SV_THROW(legacy_sv_reset(self->legacy_sv));
     self->signing_started = false;
     self->sei_generation_enabled = false;
+    self->has_recurrent_data = false;
+    self->frame_count = 0;
     gop_info_reset(self->gop_info);
 
     gop_state_reset(&(self->gop_state));
-- 
2.43.0


From 0298c0dc296564b062b85e6f3fc3214264f6439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:58 +0000
Subject: [PATCH 43/78] fix: validate streams without attestation of the public
 key

---
 lib/src/legacy/legacy_h26x_auth.c                          | 3 ++-
 lib/src/signed_video_h26x_auth.c                           | 3 ++-
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index f1f2925..424ec22 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -734,7 +734,8 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      if (supplemental_authenticity->public_key_validation != -1 &&
+          strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 8c91926..8112109 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -859,7 +859,8 @@ prepare_for_validation(signed_video_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      if (supplemental_authenticity->public_key_validation != -1 &&
+          strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index f346fdc..d40a05c 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -748,6 +748,11 @@ get_axis_communications_supplemental_authenticity(void *handle,
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
 
+  *supplemental_authenticity = &self->supplemental_authenticity;
+  // There are no means to verify the public key if no attestation exists or if the public key was
+  // not part of the stream.
+  if (!self->attestation || !self->certificate_chain || !self->public_key) return SV_OK;
+
   // TODO: Fill in the skeleton below step by step.
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -768,8 +773,6 @@ get_axis_communications_supplemental_authenticity(void *handle,
     status = SV_OK;
   }
 
-  *supplemental_authenticity = &self->supplemental_authenticity;
-
   return status;
 }
 
-- 
2.43.0


From 73ef99083265caae9ce96f58297661079e0e0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:58 +0000
Subject: [PATCH 44/78] fix: do not report a public key validated after
 changing manufacturer

---
 lib/src/legacy/legacy_h26x_auth.c                          | 3 +++
 lib/src/signed_video_h26x_auth.c                           | 3 +++
 .../axis-communications/sv_vendor_axis_communications.c    | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 424ec22..ba6a614 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -752,6 +752,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
             break;
         }
       }
+    } else {
+      // An earlier result does not apply to the public key of another manufacturer.
+      self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     }
 #endif
 
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 8112109..43514b6 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -877,6 +877,9 @@ prepare_for_validation(signed_video_t *self)
             break;
         }
       }
+    } else {
+      // An earlier result does not apply to the public key of another manufacturer.
+      self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     }
 #endif
 
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index d40a05c..8373766 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -737,7 +737,12 @@ clear_axis_communications_public_key(void *handle)
 {
   if (!handle) return;
 
-  ((sv_vendor_axis_communications_t *)handle)->public_key = NULL;
+  sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
+  self->public_key = NULL;
+  // A successful validation does not apply to any other public key.
+  if (self->supplemental_authenticity.public_key_validation == 1) {
+    self->supplemental_authenticity.public_key_validation = -1;
+  }
 }
 
 svrc_t
-- 
2.43.0


From e18c6cae68ff566801209819557dbc1d87c98cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:44 +0000
Subject: [PATCH 45/78] fix: keep a change of public key until it has been
 reported

---
 lib/src/signed_video_h26x_auth.c | 8 ++++++--
 lib/src/signed_video_internal.h  | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 43514b6..bd96724 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -830,12 +830,15 @@ prepare_for_validation(signed_video_t *self)
     h26x_nalu_list_item_t *sei = h26x_nalu_list_get_next_sei_item(nalu_list);
     if (sei) {
       if (!sei->has_been_decoded) {
-        // Decode the SEI and set signature->hash
-        self->latest_validation->public_key_has_changed = false;
+        // Decode the SEI and set signature->hash. A change of public key is kept until reported.
+        self->latest_validation->public_key_has_changed =
+            validation_flags->has_unreported_key_change;
         const uint8_t *tlv_data = sei->nalu->tlv_data;
         size_t tlv_size = sei->nalu->tlv_size;
         validation_flags->has_new_product_info = false;
         svrc_t decode_status = decode_sei_data(self, tlv_data, tlv_size);
+        validation_flags->has_unreported_key_change =
+            self->latest_validation->public_key_has_changed;
         if (decode_status != SV_OK) {
           validation_flags->has_unverified_product_info |= validation_flags->has_new_product_info;
         }
@@ -1287,6 +1290,7 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
     SV_THROW(signed_video_add_h26x_nalu(self, nalu_data, nalu_data_size));
     if (self->validation_flags.has_auth_result) {
       update_authenticity_report(self);
+      self->validation_flags.has_unreported_key_change = false;
       if (authenticity) *authenticity = signed_video_get_authenticity_report(self);
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index f11edb5..f1164b4 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -89,6 +89,7 @@ struct _validation_flags_t {
   bool is_first_sei;  // Indicates that this is the first received SEI.
   bool hash_algo_known;  // Information on what hash algorithm to use has been received.
   bool has_new_product_info;  // The latest decoded SEI includes product information.
+  bool has_unreported_key_change;  // The public key has changed since the latest report.
   bool has_unverified_product_info;  // The product information comes from a SEI that could not be
   // verified.
 };
-- 
2.43.0


From e78638b27785bf24ba8b6579a044cf18f1ffecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:36 +0000
Subject: [PATCH 46/78] fix: accept a golden SEI after the start of the stream

---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index bd96724..8976fe9 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -847,7 +847,10 @@ prepare_for_validation(signed_video_t *self)
         memcpy(verify_data->hash, sei->hash, hash_size);
       }
       detect_lost_sei(self);
-      SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+      // A golden SEI is not associated with any GOP.
+      if (!sei->nalu->is_golden_sei) {
+        SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+      }
     }
 
     SV_THROW_IF_WITH_MSG(validation_flags->signing_present && !self->has_public_key,
-- 
2.43.0


From 254b69bf50fffea05b8cf64dce3013a19d54516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:20 +0000
Subject: [PATCH 47/78] fix: do not use the public key of a golden SEI that
 could not be verified

---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 8976fe9..1d5cb96 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -781,6 +781,10 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
     self->gop_state.has_sei = true;
     SV_THROW(prepare_for_validation(self));
   SV_CATCH()
+  {
+    // The public key of a golden SEI that could not be verified should not be used.
+    self->has_public_key = false;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From ea1ad8134a280e3df1f26c716b9957c46374b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 48/78] fix: check the allocations when creating a session or a
 report

---
 lib/src/signed_video_authenticity.c | 4 ++++
 lib/src/signed_video_h26x_common.c  | 2 ++
 lib/src/signed_video_openssl.c      | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index be47d9b..fa0bc35 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -381,6 +381,10 @@ signed_video_authenticity_report_create()
   if (!auth) return NULL;
 
   authenticity_report_init(auth);
+  if (!auth->version_on_signing_side || !auth->this_version) {
+    signed_video_authenticity_report_free(auth);
+    auth = NULL;
+  }
 
   return auth;
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 44b2003..519e275 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1182,6 +1182,7 @@ signed_video_create(SignedVideoCodec codec)
     self->sei_epb = true;
     self->signing_started = false;
     self->sign_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->sign_data, SV_MEMORY);
     self->sign_data->hash_size = openssl_get_hash_size(self->crypto_handle);
     // Make sure the hash size matches the default hash size.
     SV_THROW_IF(self->sign_data->hash_size != DEFAULT_HASH_SIZE, SV_EXTERNAL_ERROR);
@@ -1207,6 +1208,7 @@ signed_video_create(SignedVideoCodec codec)
     self->has_public_key = false;
 
     self->verify_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->verify_data, SV_MEMORY);
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
   SV_CATCH()
   {
diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index c37f0d2..25a753d 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -536,7 +536,7 @@ openssl_encoded_oid_to_str(const unsigned char *encoded_oid, size_t encoded_oid_
   ASN1_OBJECT *obj = NULL;
   char *algo_name = calloc(1, 50);
 
-  if (!encoded_oid || encoded_oid_size == 0) {
+  if (!algo_name || !encoded_oid || encoded_oid_size == 0) {
     goto done;
   }
 
-- 
2.43.0


From 9624e5b3e84634424719e786261d22e552060f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 49/78] fix: handle NALUs that could not be stored for
 validation

---
 lib/src/signed_video_h26x_auth.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 1d5cb96..3a08cb5 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1182,6 +1182,11 @@ reregister_nalus(signed_video_t *self)
   h26x_nalu_list_item_t *item = nalu_list->first_item;
   svrc_t status = SV_UNKNOWN_FAILURE;
   while (item) {
+    // Skip NALUs that could not be stored.
+    if (!item->nalu) {
+      item = item->next;
+      continue;
+    }
     if (self->legacy_sv) {
       // Pass in all, but the last one (the SEI), to the created legacy session. Do this
       // without requesting an authenticity report.
@@ -1231,6 +1236,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_appended = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // If there is no |nalu_list| we failed allocating memory for it.
@@ -1239,6 +1245,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(h26x_nalu_list_append(nalu_list, &nalu));
+    is_appended = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(register_nalu(self, nalu_list->last_item));
@@ -1266,12 +1273,14 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status =
-      h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  if (is_appended) {
+    // Need to make a copy of the |nalu| independently of failure.
+    svrc_t copy_nalu_status =
+        h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
@@ -1298,7 +1307,10 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
     if (self->validation_flags.has_auth_result) {
       update_authenticity_report(self);
       self->validation_flags.has_unreported_key_change = false;
-      if (authenticity) *authenticity = signed_video_get_authenticity_report(self);
+      if (authenticity) {
+        *authenticity = signed_video_get_authenticity_report(self);
+        SV_THROW_IF(!*authenticity, SV_MEMORY);
+      }
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
     }
-- 
2.43.0


From 55e0b222c17f9b83946d3755df08e674ca554803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 50/78] fix: report failures to update the GOP hash when
 signing

---
 lib/src/signed_video_h26x_common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 519e275..fb08e86 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -865,7 +865,8 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
   // If this is the start of the GOP, initialize |crypto_handle| to enable
   // updating the hash with each received NALU.
   if (*list_idx == 0) {
-    openssl_init_hash(self->crypto_handle, true);
+    svrc_t status = openssl_init_hash(self->crypto_handle, true);
+    if (status != SV_OK) return status;
   }
   // If the upcoming hash doesn't fit in the hash list buffer, set *list_idx to -1
   // to indicate that the hash list is full, and the hash list is no longer accessible.
@@ -878,7 +879,7 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
     memcpy(&hash_list[*list_idx], hash, hash_size);
     *list_idx += hash_size;
   }
-  openssl_update_hash(self->crypto_handle, hash, hash_size, true);
+  return openssl_update_hash(self->crypto_handle, hash, hash_size, true);
 }
 
 /*
@@ -1066,7 +1067,7 @@ hash_and_add(signed_video_t *self, const h26x_nalu_t *nalu)
 #endif
     if (nalu->is_last_nalu_part) {
       // The end of the NALU has been reached. Update hash list and GOP hash.
-      check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size);
+      SV_THROW(check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size));
       update_num_nalus_in_gop_hash(self, nalu);
     }
   SV_CATCH()
-- 
2.43.0


From 618c6e441e705e2f0b32af7ee6467f6364f7082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 51/78] fix: do not leave a second hash uninitialized

---
 lib/src/signed_video_h26x_common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index fb08e86..ce5a02c 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1126,7 +1126,7 @@ hash_and_add_for_auth(signed_video_t *self, h26x_nalu_list_item_t *item)
       // the hash wrapper again since conditions may have changed.
       hash_wrapper = get_hash_wrapper(self, nalu);
       free(item->second_hash);
-      item->second_hash = malloc(MAX_HASH_SIZE);
+      item->second_hash = calloc(1, MAX_HASH_SIZE);
       SV_THROW_IF(!item->second_hash, SV_MEMORY);
       SV_THROW(hash_wrapper(self, nalu, item->second_hash, hash_size));
 #ifdef SIGNED_VIDEO_DEBUG
-- 
2.43.0


From 2db5226dd6bd4a542c378d0c2fef7e8ecb41c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 52/78] fix: do not keep a hash context that could not be
 initialized

---
 lib/src/signed_video_openssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 25a753d..ded2c28 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -349,6 +349,11 @@ openssl_init_hash(void *handle, bool use_primary_ctx)
     if (!(*ctx)) return SV_EXTERNAL_ERROR;
     // Set a message digest type and initialize the hashing function.
     ret = EVP_DigestInit_ex(*ctx, self->hash_algo.type, NULL);
+    if (ret != 1) {
+      // Do not keep a context without message digest type.
+      EVP_MD_CTX_free(*ctx);
+      *ctx = NULL;
+    }
   }
   return ret == 1 ? SV_OK : SV_EXTERNAL_ERROR;
 }
-- 
2.43.0


From 176795b0848714110d62de0f6e64e17eed27edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 53/78] fix: do not leak memory when the document hash fails

---
 lib/src/signed_video_h26x_sign.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 3ff2792..70f6253 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -334,7 +334,10 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
       h26x_nalu_t nalu_without_signature_data =
           parse_nalu_info(*payload, fake_payload_size, self->codec, false, true);
       // Create a document hash.
-      SV_THROW(hash_and_add(self, &nalu_without_signature_data));
+      const svrc_t hash_status = hash_and_add(self, &nalu_without_signature_data);
+      // Free the memory allocated when parsing the NALU.
+      free(nalu_without_signature_data.nalu_data_wo_epb);
+      SV_THROW(hash_status);
       // Note that the "add" part of the hash_and_add() operation above is actually only necessary
       // for SV_AUTHENTICITY_LEVEL_GOP where we need to update the |gop_hash|. For
       // SV_AUTHENTICITY_LEVEL_FRAME adding this hash to the |hash_list| is pointless, since we have
@@ -345,8 +348,6 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
       // The current |nalu_hash| is the document hash. Copy to |document_hash|. In principle we only
       // need to do this for SV_AUTHENTICITY_LEVEL_FRAME, but for simplicity we always copy it.
       memcpy(self->gop_info->document_hash, self->gop_info->nalu_hash, hash_size);
-      // Free the memory allocated when parsing the NALU.
-      free(nalu_without_signature_data.nalu_data_wo_epb);
     }
 
     gop_info_t *gop_info = self->gop_info;
-- 
2.43.0


From dc375801b22c4d0c8e0630c92ec0da7c47f7ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 54/78] fix: set a new private key only if all parts of it
 succeed

---
 lib/src/signed_video_h26x_sign.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 70f6253..5848da4 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -841,23 +841,34 @@ signed_video_set_private_key_new(signed_video_t *self,
   if (!self || !private_key || private_key_size == 0) return SV_INVALID_PARAMETER;
 
   void *plugin_handle = NULL;
+  sign_or_verify_data_t sign_data = {0};
+  pem_pkey_t pem_public_key = {0};
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Temporally turn the PEM |private_key| into an EVP_PKEY and allocate memory for signatures.
-    SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
-    SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
+    SV_THROW(openssl_private_key_malloc(&sign_data, private_key, private_key_size));
+    SV_THROW(openssl_read_pubkey_from_private_key(&sign_data, &pem_public_key));
 
     plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
     SV_THROW_IF(!plugin_handle, SV_EXTERNAL_ERROR);
-    // Replace any existing plugin session.
+    // Replace any existing plugin session, together with its public key and signature.
     sv_signing_plugin_session_teardown(self->plugin_handle);
     self->plugin_handle = plugin_handle;
+    free(self->pem_public_key.key);
+    self->pem_public_key = pem_public_key;
+    pem_public_key.key = NULL;
+    free(self->sign_data->signature);
+    self->sign_data->signature = sign_data.signature;
+    self->sign_data->signature_size = sign_data.signature_size;
+    self->sign_data->max_signature_size = sign_data.max_signature_size;
+    sign_data.signature = NULL;
   SV_CATCH()
   SV_DONE(status)
 
   // Free the EVP_PKEY since it is no longer needed. It is handled by the signing plugin.
-  openssl_free_key(self->sign_data->key);
-  self->sign_data->key = NULL;
+  openssl_free_key(sign_data.key);
+  free(sign_data.signature);
+  free(pem_public_key.key);
 
   return status;
 }
-- 
2.43.0


From 7013c7f2087c0076e74a7ad99daae039050562c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:34 +0000
Subject: [PATCH 55/78] fix: give up the GOP when generating its SEI fails

---
 lib/src/signed_video_h26x_common.c   |  4 +--
 lib/src/signed_video_h26x_internal.h |  2 +-
 lib/src/signed_video_h26x_sign.c     | 51 +++++++++++++++++++++-------
 3 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index ce5a02c..3602183 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -854,10 +854,10 @@ update_num_nalus_in_gop_hash(signed_video_t *self, const h26x_nalu_t *nalu)
 /* Initializes and updates the GOP hash regardless of available space. If there is enough
  * room, copies the |hash| and updates |list_idx|. Otherwise, sets |list_idx| to -1.
  */
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size_t hash_size)
 {
-  if (!self || !hash) return;
+  if (!self || !hash) return SV_INVALID_PARAMETER;
 
   uint8_t *hash_list = &self->gop_info->hash_list[0];
   int *list_idx = &self->gop_info->list_idx;
diff --git a/lib/src/signed_video_h26x_internal.h b/lib/src/signed_video_h26x_internal.h
index a4a2a90..0433445 100644
--- a/lib/src/signed_video_h26x_internal.h
+++ b/lib/src/signed_video_h26x_internal.h
@@ -171,7 +171,7 @@ gop_state_reset(gop_state_t *gop_state);
 void
 update_num_nalus_in_gop_hash(signed_video_t *signed_video, const h26x_nalu_t *nalu);
 
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *signed_video,
     const uint8_t *hash,
     size_t hash_size);
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 5848da4..2f468e0 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -383,6 +383,36 @@ generate_sei_nalu(signed_video_t *self, uint8_t **payload, uint8_t **payload_sig
   return status;
 }
 
+/* Finalizes the GOP hash and generates a SEI for the ended GOP. The SEI is added to the buffer and
+ * will be picked up again when the signature has been generated. If that fails the GOP is given up,
+ * since its hash cannot be finalized again. */
+static svrc_t
+end_gop_and_generate_sei(signed_video_t *self)
+{
+  uint8_t *payload = NULL;
+  uint8_t *payload_signature_ptr = NULL;
+  gop_info_t *gop_info = self->gop_info;
+  const uint32_t gop_counter = gop_info->global_gop_counter;
+
+  svrc_t status = SV_UNKNOWN_FAILURE;
+  SV_TRY()
+    SV_THROW(openssl_finalize_hash(self->crypto_handle, gop_info->computed_gop_hash, true));
+    SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
+    add_payload_to_buffer(self, payload, payload_signature_ptr);
+  SV_CATCH()
+  {
+    gop_info->num_nalus_in_gop_hash = 0;
+    gop_info->list_idx = 0;
+    gop_info->has_reference_hash = false;
+    gop_info->has_timestamp = false;
+    // Count the GOP to let the validation side know that its SEI is lost.
+    gop_info->global_gop_counter = gop_counter + 1;
+  }
+  SV_DONE(status)
+
+  return status;
+}
+
 static size_t
 get_sign_and_complete_sei_nalu(signed_video_t *self,
     uint8_t **payload,
@@ -505,6 +535,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.hashable_data_size = nalu_data_size;
   }
 
+  svrc_t sei_status = SV_OK;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
@@ -537,14 +568,9 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
           self->gop_info->has_timestamp = true;
         }
 
-        uint8_t *payload = NULL;
-        uint8_t *payload_signature_ptr = NULL;
-
         // If there are hashes added to the hash list, the |computed_gop_hash| can be finalized.
-        SV_THROW(openssl_finalize_hash(self->crypto_handle, gop_info->computed_gop_hash, true));
-        SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
-        // Add |payload| to buffer. Will be picked up again when the signature has been generated.
-        add_payload_to_buffer(self, payload, payload_signature_ptr);
+        // The current NALU starts a new GOP also if that fails.
+        sei_status = end_gop_and_generate_sei(self);
         // The previous GOP is now completed. The gop_hash was reset right after signing and
         // adding it to the SEI.
       }
@@ -554,6 +580,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part) {
       SV_THROW(update_linked_hash(self, gop_info->nalu_hash, self->sign_data->hash_size));
     }
+    SV_THROW(sei_status);
 
   SV_CATCH()
   SV_DONE(status)
@@ -745,8 +772,6 @@ signed_video_set_end_of_stream(signed_video_t *self)
 {
   if (!self) return SV_INVALID_PARAMETER;
 
-  uint8_t *payload = NULL;
-  uint8_t *payload_signature_ptr = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
@@ -754,9 +779,7 @@ signed_video_set_end_of_stream(signed_video_t *self)
     if (self->gop_info->list_idx != 0) {
       // Make sure that there is room for another SEI before finalizing the |computed_gop_hash|.
       SV_THROW_IF(self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER, SV_NOT_SUPPORTED);
-      SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
-      SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
-      add_payload_to_buffer(self, payload, payload_signature_ptr);
+      SV_THROW(end_gop_and_generate_sei(self));
     }
     // Fetch the signature. If it is not ready we exit without generating the SEI.
     sign_or_verify_data_t *sign_data = self->sign_data;
@@ -798,6 +821,10 @@ signed_video_generate_golden_sei(signed_video_t *self)
     add_payload_to_buffer(self, payload, payload_signature_ptr);
 
   SV_CATCH()
+  {
+    // Rewind the |hash_list| as if the SEI had been generated.
+    self->gop_info->list_idx = 0;
+  }
   SV_DONE(status)
   // Reset the |is_golden_sei| flag, ensuring that a golden SEI is not
   // generated outside of this API.
-- 
2.43.0


From 29d4b10fb2bf895040f2e9fc31b9e1daa74466bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:50 +0000
Subject: [PATCH 56/78] fix: do not lose the result of a validation when an
 error occurs

A validation result that could not be reported, since adding the NALU
returned an error, was dropped and hence neither reported nor added to
the accumulated validation.
---
 lib/src/signed_video_h26x_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 3a08cb5..2ad84ae 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1232,7 +1232,6 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   h26x_nalu_list_t *nalu_list = self->nalu_list;
   h26x_nalu_t nalu = parse_nalu_info(nalu_data, nalu_data_size, self->codec, true, true);
   DEBUG_LOG("Received a %s of size %zu B", nalu_type_to_str(&nalu), nalu.nalu_data_size);
-  self->validation_flags.has_auth_result = false;
 
   self->accumulated_validation->number_of_received_nalus++;
 
@@ -1304,8 +1303,10 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
   SV_TRY()
     SV_THROW(create_local_authenticity_report_if_needed(self));
     SV_THROW(signed_video_add_h26x_nalu(self, nalu_data, nalu_data_size));
+    // A result that could not be reported due to an error is kept until it can be reported.
     if (self->validation_flags.has_auth_result) {
       update_authenticity_report(self);
+      self->validation_flags.has_auth_result = false;
       self->validation_flags.has_unreported_key_change = false;
       if (authenticity) {
         *authenticity = signed_video_get_authenticity_report(self);
-- 
2.43.0


From 07161c2f1355a7b533b891cd52ac458adb112957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 57/78] fix: free the plugin handle if the signing thread
 cannot be started

---
 lib/plugins/threaded-signing/plugin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c355abe..d53f22c 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -713,6 +713,7 @@ local_setup(const void *private_key, size_t private_key_size)
 
 catch_error:
   free_plugin(self);
+  free(self);
   return NULL;
 }
 
-- 
2.43.0


From b46d168b5fd01d301e5597242b2870e38fcd0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 58/78] fix: do not read outside the buffer of hashes in the
 signing thread

---
 lib/plugins/threaded-signing/plugin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index d53f22c..303d902 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -615,7 +615,7 @@ local_worker_thread(void *user_data)
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       hash_data_t tmp = self->in[0];
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
-- 
2.43.0


From 43114e9b3ae98da82f42892213288343e1085a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 59/78] fix: check the parameters of the threaded signing
 plugin

---
 lib/plugins/threaded-signing/plugin.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 303d902..8f8ba7b 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -785,7 +785,7 @@ sv_signing_plugin_get_signature(void *handle,
     return get_signature(
         &central, self->central->id, signature, max_signature_size, written_signature_size, error);
   } else {
-    *error = SV_NOT_SUPPORTED;
+    if (error) *error = SV_NOT_SUPPORTED;
     return false;
   }
 }
@@ -847,8 +847,8 @@ sv_signing_plugin_init(void *user_data)
 {
   signature_info_t *signature_info = (signature_info_t *)user_data;
 
-  if (central.thread || id_list || central.sign_data) {
-    // Central thread, id list or sign_data already exists
+  if (central.thread || id_list || central.sign_data || !user_data) {
+    // Central thread, id list or sign_data already exists. Or no |user_data| is set.
     return -1;
   }
 
-- 
2.43.0


From 6f55b23b08cc3b3bc61bd7b9d60912d684afedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 60/78] fix: do not drop signatures when the buffer of the
 central signing thread is full

---
 lib/plugins/threaded-signing/plugin.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 8f8ba7b..0cfec1f 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -28,8 +28,9 @@
  *
  * If the plugin is initialized, sv_signing_plugin_init(), one single central thread is spawned.
  * Each Signed Video session will then get an id to distiguish between them since they use common
- * input and output buffers. The thread is stopped if 1) the out buffer is full, 2) there was a
- * failure in the memory allocation for a new signature or 3) sv_signing_plugin_exit() is called.
+ * input and output buffers. If the out buffer is full the thread waits for a signature to be
+ * fetched. The thread is stopped if 1) there was a failure in the memory allocation for a new
+ * signature or 2) sv_signing_plugin_exit() is called.
  */
 
 #include <assert.h>
@@ -335,6 +336,8 @@ get_signature(threaded_data_t *self,
     i++;
   }
   self->out[MAX_BUFFER_LENGTH - 1] = tmp;
+  // If |out| was full there is now room for another signature.
+  if (self->out_idx == MAX_BUFFER_LENGTH) g_cond_signal(&self->cond);
   self->out_idx--;
 
 done:
@@ -447,7 +450,8 @@ central_worker_thread(void *user_data)
   g_cond_signal(&(central.cond));
 
   while (central.is_running) {
-    if (central.in_idx > 0) {
+    // Leave the hashes in |in| as long as there is no room for another signature in |out|.
+    if (central.in_idx > 0 && central.out_idx < MAX_BUFFER_LENGTH) {
       SignedVideoReturnCode status = SV_UNKNOWN_FAILURE;
       // Get the oldest hash from the input buffer
       // Copy the hash to |sign_data| and start signing.
@@ -482,15 +486,6 @@ central_worker_thread(void *user_data)
       }
 
       int idx = central.out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        // There are no means to signal an error to the signing session. Flush all buffers for this
-        // id and move on.
-        status = SV_NOT_SUPPORTED;
-        buffer_reset(id_in_signing);
-        continue;
-      }
-
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
       central.out[idx].signing_error = (status != SV_OK);
@@ -582,6 +577,8 @@ central_teardown(central_threaded_data_t *self)
   g_mutex_lock(&(central.mutex));
   buffer_reset(self->id);
   delete_item(self->id);
+  // There may be room for another signature.
+  g_cond_signal(&(central.cond));
   g_mutex_unlock(&(central.mutex));
 
   free(self);
-- 
2.43.0


From 7a9ea335cd1888e702132c0f8b19b958befdba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:24 +0000
Subject: [PATCH 61/78] fix: locate the hash correctly in the recursive GOP
 hash of legacy streams

The buffer for the recursive GOP hash was laid out for the default hash
size, hence authentic legacy streams using, e.g., sha512 were reported as
not authentic.
---
 lib/src/legacy/legacy_h26x_common.c | 2 ++
 lib/src/legacy/legacy_tlv.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 1e6f0e8..68b7141 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -905,6 +905,8 @@ legacy_sv_create(signed_video_t *parent)
 
     // Borrow |verify_data| from parent
     self->verify_data = parent->verify_data;
+    // Point |nalu_hash| to the correct location in the |hashes| buffer.
+    self->gop_info->nalu_hash = self->gop_info->hashes + self->verify_data->hash_size;
 
     // Set shortcuts to authenticity report in |parent|.
     self->latest_validation = &parent->authenticity->latest_validation;
diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 9fa3137..8f75205 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -544,6 +544,8 @@ legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_si
     SV_THROW(openssl_set_hash_algo_by_encoded_oid(
         self->crypto_handle, hash_algo_encoded_oid, hash_algo_encoded_oid_size));
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
+    // Point |nalu_hash| to the correct location in the |hashes| buffer.
+    self->gop_info->nalu_hash = self->gop_info->hashes + self->verify_data->hash_size;
     data_ptr += hash_algo_encoded_oid_size;
 
     SV_THROW_IF(data_ptr != data + data_size, SV_AUTHENTICATION_ERROR);
-- 
2.43.0


From e0a645c0c86cba2d274f1f97d5ad25cc43baf611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:02 +0000
Subject: [PATCH 62/78] fix: copy the last received NALU of a legacy stream,
 not a missing one

If missing items were appended to the last NALU upon validation, the copy
operated on the missing item. The last NALU was then left with a pointer
to memory on the stack. Further, a failure to append the NALU dereferenced
a null pointer, or marked another NALU with an error.
---
 lib/src/legacy/legacy_h26x_auth.c      | 14 +++++++++-----
 lib/src/legacy/legacy_h26x_nalu_list.c |  3 +++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index ba6a614..5872b7d 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1025,11 +1025,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  legacy_h26x_nalu_list_item_t *item = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(legacy_h26x_nalu_list_append(nalu_list, &nalu));
+    item = nalu_list->last_item;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     legacy_update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(legacy_register_nalu(self, nalu_list->last_item));
@@ -1037,11 +1039,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  if (item) {
+    // Need to make a copy of the |nalu| independently of failure.
+    svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 57d343e..6969620 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -258,6 +258,9 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   legacy_h26x_nalu_t *copied_nalu = NULL;
   uint8_t *nalu_data_wo_epb = NULL;
   legacy_h26x_nalu_list_item_t *item = list->last_item;
+  // Missing items may have been appended to the last NALU when validating it.
+  while (item && item->validation_status == 'M') item = item->prev;
+  if (!item) return SV_UNKNOWN_FAILURE;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 67dd7d454556faf10a80c8fa9cf6bd3edfaf7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:12 +0000
Subject: [PATCH 63/78] fix: do not repeat the first validation of a legacy
 stream forever

Once the first validation had failed for the very first SEI, every later
validation was treated as a first one as well. Hence, a failure in a later
GOP was not reported.
---
 lib/src/legacy/legacy_h26x_auth.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 5872b7d..f4b86cc 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -940,6 +940,7 @@ legacy_maybe_validate_gop(legacy_sv_t *self, legacy_h26x_nalu_t *nalu)
 
       if (validation_flags->reset_first_validation) {
         validation_flags->is_first_validation = true;
+        validation_flags->reset_first_validation = false;
         legacy_h26x_nalu_list_item_t *item = self->nalu_list->first_item;
         while (item) {
           if (item->nalu && item->nalu->is_first_nalu_in_gop) {
-- 
2.43.0


From 8fb96056612e58f378f5164abdefc4d916bca018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:35 +0000
Subject: [PATCH 64/78] fix: do not report a legacy GOP as OK if verifying its
 signature ended with an error

---
 lib/src/legacy/legacy_h26x_auth.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index f4b86cc..8ed1960 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -360,6 +360,7 @@ legacy_verify_hashes_with_gop_hash(legacy_sv_t *self,
 
   // The verification of the gop_hash (|verified_signature_hash|) determines the |validation_status|
   // of the entire GOP.
+  legacy_h26x_nalu_list_item_t *sei = NULL;
   switch (self->gop_info->verified_signature_hash) {
     case 1:
       validation_status = '.';
@@ -369,8 +370,10 @@ legacy_verify_hashes_with_gop_hash(legacy_sv_t *self,
       break;
     case -1:
     default:
-      // Got an error when verifying the gop_hash. Verify without a SEI.
-      validation_status = 'E';
+      // Got an error when verifying the gop_hash. Mark the SEI and verify without it.
+      sei = legacy_h26x_nalu_list_get_next_sei_item(self->nalu_list);
+      if (sei) sei->validation_status = 'E';
+      legacy_remove_used_in_gop_hash(self->nalu_list);
       return legacy_verify_hashes_without_sei(self);
   }
 
-- 
2.43.0


From 041e1859b29885b14946193919782f55a342f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:53 +0000
Subject: [PATCH 65/78] fix: start over with a new legacy session after a reset

---
 lib/src/signed_video_h26x_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 3602183..b005f1a 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1231,7 +1231,9 @@ signed_video_reset(signed_video_t *self)
     SV_THROW_IF(!self, SV_INVALID_PARAMETER);
     DEBUG_LOG("Resetting signed session");
     // Reset session states
-    SV_THROW(legacy_sv_reset(self->legacy_sv));
+    // The next stream may be of a different kind. A new legacy session is created if needed.
+    legacy_sv_free(self->legacy_sv);
+    self->legacy_sv = NULL;
     self->signing_started = false;
     self->sei_generation_enabled = false;
     self->has_recurrent_data = false;
-- 
2.43.0


From 392dd249083fdf68450bf0098a9b445b6b980eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 66/78] fix: do not trust the size of a legacy GOP nor its
 payload before its signature is verified

---
 lib/src/legacy/legacy_h26x_auth.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 8ed1960..6c5c781 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -56,7 +56,7 @@ static const char *kLegacyAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES
 static svrc_t
 legacy_decode_sei_data(legacy_sv_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   // Get the last GOP counter before updating.
   uint32_t last_gop_number = self->gop_info->global_gop_counter;
   uint32_t exp_gop_number = last_gop_number + 1;
@@ -393,7 +393,9 @@ legacy_verify_hashes_with_gop_hash(legacy_sv_t *self,
   num_received_hashes =
       legacy_set_validation_status_of_items_used_in_gop_hash(self->nalu_list, validation_status);
 
-  if (!self->validation_flags.is_first_validation && first_gop_hash_item) {
+  // The number of hashes cannot be trusted if the signature could not be verified.
+  if (validation_status == '.' && !self->validation_flags.is_first_validation &&
+      first_gop_hash_item) {
     int num_missing_nalus = num_expected_hashes - num_received_hashes;
     const bool append = first_gop_hash_item->nalu->is_first_nalu_in_gop;
     // No need to check the return value. A failure only affects the statistics. In the worst case
-- 
2.43.0


From 2b18d478780f7208ea592f88d85d826d2d29f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 67/78] fix: give up a legacy SEI that cannot be decoded or
 verified

---
 lib/src/legacy/legacy_h26x_auth.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 6c5c781..d045bbe 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -705,9 +705,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
   sign_or_verify_data_t *verify_data = self->verify_data;
   const size_t hash_size = verify_data->hash_size;
 
+  legacy_h26x_nalu_list_item_t *sei = legacy_h26x_nalu_list_get_next_sei_item(nalu_list);
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    legacy_h26x_nalu_list_item_t *sei = legacy_h26x_nalu_list_get_next_sei_item(nalu_list);
     if (sei && !sei->has_been_decoded) {
       // Decode the SEI and set signature->hash
       const uint8_t *tlv_data = sei->nalu->tlv_data;
@@ -776,6 +776,11 @@ legacy_prepare_for_validation(legacy_sv_t *self)
     }
 
   SV_CATCH()
+  {
+    // A SEI that could not be used now cannot be used later either.
+    if (sei) sei->validation_status = 'E';
+    legacy_remove_used_in_gop_hash(nalu_list);
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From a5df939c0ea1395eca2c72a379982e4d27e75c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 68/78] fix: do not keep a legacy NALU that ended with an error
 forever

---
 lib/src/legacy/legacy_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index d045bbe..85ecf20 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1055,7 +1055,10 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
     svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
     // Make sure to return the first failure if both operations failed.
     status = (status == SV_OK) ? copy_nalu_status : status;
-    if (status != SV_OK) item->validation_status = 'E';
+    if (status != SV_OK) {
+      item->validation_status = 'E';
+      item->need_second_verification = false;
+    }
   }
 
   free(nalu.nalu_data_wo_epb);
-- 
2.43.0


From 7956fbac130337a73732c376acdd092c3f034205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 69/78] fix: announce that a legacy authenticity report could
 not be created

---
 lib/src/legacy/legacy_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 85ecf20..1e833de 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1084,7 +1084,10 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
     SV_THROW(legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size));
     if (self->validation_flags.has_auth_result) {
       legacy_update_authenticity_report(self);
-      if (authenticity) *authenticity = signed_video_get_authenticity_report(self->parent);
+      if (authenticity) {
+        *authenticity = signed_video_get_authenticity_report(self->parent);
+        SV_THROW_IF(!*authenticity, SV_MEMORY);
+      }
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
     }
-- 
2.43.0


From 22720972d2aae4a15495a4600451c67d8a17f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:36 +0000
Subject: [PATCH 70/78] fix: do not let NALUs before the first GOP delay all
 further validation

---
 lib/src/signed_video_h26x_nalu_list.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 83bdd5c..b4be379 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -412,6 +412,7 @@ h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
 
   bool found_first_pending_nalu = false;
   bool found_decoded_sei = false;
+  bool found_first_nalu_in_gop = false;
   h26x_nalu_list_item_t *item = list->first_item;
   while (item && !(found_first_pending_nalu && found_decoded_sei)) {
     // Reset the invalid verification failure if we have not past the first pending item.
@@ -431,9 +432,11 @@ h26x_nalu_list_remove_missing_items(h26x_nalu_list_t *list)
     }
     // TODO: Resetting the item validation in the current GOP may affect the validation of the next
     // GOP. This needs to be fixed.
+    found_first_nalu_in_gop |= item->nalu && item->nalu->is_first_nalu_in_gop;
     if (item->validation_status == 'N') {
-      // Reset validation status to 'P' for the next validation.
-      item->validation_status = 'P';
+      // Reset validation status to 'P' for the next validation, unless the start of the GOP is not
+      // part of this recording.
+      item->validation_status = found_first_nalu_in_gop ? 'P' : 'U';
     }
     item = item->next;
     if (item && item->validation_status == 'P') found_first_pending_nalu = true;
-- 
2.43.0


From 93cc1fe0e8485d64f011e3181c96303ff5be4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:53 +0000
Subject: [PATCH 71/78] fix: unknown numbers of picture NALUs make the numbers
 of a report unknown, instead of being subtracted from them

---
 lib/src/signed_video_h26x_auth.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 2ad84ae..3fd1744 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -735,8 +735,13 @@ validate_authenticity(signed_video_t *self)
     // validation.
     latest->authenticity = valid;
   }
-  latest->number_of_received_picture_nalus += num_received_nalus;
-  if (self->gop_state.has_lost_sei) {
+  // If a number is unknown for one of the validated GOPs the sum is unknown as well.
+  if (num_received_nalus < 0) {
+    latest->number_of_received_picture_nalus = -1;
+  } else if (latest->number_of_received_picture_nalus != -1) {
+    latest->number_of_received_picture_nalus += num_received_nalus;
+  }
+  if (self->gop_state.has_lost_sei || num_expected_nalus < 0) {
     latest->number_of_expected_picture_nalus = -1;
   } else if (latest->number_of_expected_picture_nalus != -1) {
     latest->number_of_expected_picture_nalus += num_expected_nalus;
-- 
2.43.0


From f4a0a1d5291722e217b24f4dd4c2a9b918da312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:00 +0000
Subject: [PATCH 72/78] fix: report the validation of legacy NALUs received
 before the legacy validation started

---
 lib/src/legacy/legacy_h26x_auth.c | 17 +++++++++++++----
 lib/src/legacy_validation.h       | 15 +++++++++++++++
 lib/src/signed_video_h26x_auth.c  |  8 ++++----
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 1e833de..e7c8fba 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1022,9 +1022,12 @@ legacy_register_nalu(legacy_sv_t *self, legacy_h26x_nalu_list_item_t *item)
  * 1. Every NALU should be parsed and added to the h26x_nalu_list (|nalu_list|).
  * 2. Update validation flags given the added NALU.
  * 3. Register NALU, in general that means hash the NALU if it is hashable and store it.
- * 4. Validate a pending GOP if possible. */
+ * 4. Validate a pending GOP if possible, and if told to. */
 static svrc_t
-legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu_data_size)
+legacy_sv_add_h26x_nalu(legacy_sv_t *self,
+    const uint8_t *nalu_data,
+    size_t nalu_data_size,
+    bool do_validate)
 {
   if (!self || !nalu_data || (nalu_data_size == 0)) return SV_INVALID_PARAMETER;
 
@@ -1046,7 +1049,7 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     legacy_update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(legacy_register_nalu(self, nalu_list->last_item));
-    SV_THROW(legacy_maybe_validate_gop(self, &nalu));
+    if (do_validate) SV_THROW(legacy_maybe_validate_gop(self, &nalu));
   SV_CATCH()
   SV_DONE(status)
 
@@ -1066,6 +1069,12 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   return status;
 }
 
+svrc_t
+legacy_sv_add_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu_data_size)
+{
+  return legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size, false);
+}
+
 svrc_t
 legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
     const uint8_t *nalu_data,
@@ -1081,7 +1090,7 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW(legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size));
+    SV_THROW(legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size, true));
     if (self->validation_flags.has_auth_result) {
       legacy_update_authenticity_report(self);
       if (authenticity) {
diff --git a/lib/src/legacy_validation.h b/lib/src/legacy_validation.h
index 5429ba4..8bfd3c7 100644
--- a/lib/src/legacy_validation.h
+++ b/lib/src/legacy_validation.h
@@ -73,6 +73,21 @@ legacy_sv_free(legacy_sv_t *self);
 svrc_t
 legacy_sv_reset(legacy_sv_t *self);
 
+/**
+ * @brief Adds a NALU received before the legacy session was created
+ *
+ * The NALU is registered, but not validated until the next call to
+ * legacy_sv_add_nalu_and_authenticate(). Hence, no validation result is left unreported.
+ *
+ * @param self Pointer to the legacy_sv_t object in use
+ * @param nalu_data Pointer to the NALU data
+ * @param nalu_data_size Size of the NALU data
+ *
+ * @returns A svrc_t
+ */
+svrc_t
+legacy_sv_add_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu_data_size);
+
 /**
  * @brief Add NALU data to the session and get an authentication report
  *
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 3fd1744..67947cd 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1193,11 +1193,11 @@ reregister_nalus(signed_video_t *self)
       continue;
     }
     if (self->legacy_sv) {
-      // Pass in all, but the last one (the SEI), to the created legacy session. Do this
-      // without requesting an authenticity report.
+      // Pass in all, but the last one (the SEI), to the created legacy session. These are
+      // validated when the SEI is added.
       if (item != nalu_list->last_item) {
-        status = legacy_sv_add_nalu_and_authenticate(
-            self->legacy_sv, item->nalu->nalu_data, item->nalu->nalu_data_size, NULL);
+        status = legacy_sv_add_nalu(
+            self->legacy_sv, item->nalu->nalu_data, item->nalu->nalu_data_size);
         if (status != SV_OK) {
           break;
         }
-- 
2.43.0


From 3bf89f3848ca51b992aced3ae08c10d5040f32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:54 +0000
Subject: [PATCH 73/78] fix: keep the number of NALUs received before the
 legacy validation started

---
 lib/src/signed_video_h26x_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 67947cd..899a808 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1269,7 +1269,13 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
       if (!(nalu.reserved_byte & 0x30) && !nalu.is_golden_sei) {
         self->legacy_sv = legacy_sv_create(self);
         SV_THROW_IF(!self->legacy_sv, SV_MEMORY);
+        // NALUs that have been removed from the |nalu_list| are not passed on, but have been counted.
+        const unsigned int num_received = self->accumulated_validation->number_of_received_nalus;
+        const unsigned int num_validated = self->accumulated_validation->number_of_validated_nalus;
         accumulated_validation_init(self->accumulated_validation);
+        self->accumulated_validation->number_of_received_nalus =
+            num_received - h26x_nalu_list_num_received_items(nalu_list);
+        self->accumulated_validation->number_of_validated_nalus = num_validated;
       }
       SV_THROW(reregister_nalus(self));
     }
-- 
2.43.0


From 0c060a9bb143f9a397b8adf6b2c0a78583af18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:10 +0000
Subject: [PATCH 74/78] fix: free the object of the hash algorithm when setting
 it

OBJ_txt2obj allocates an object for identifiers that OpenSSL has no built-in object for, and signed_video_set_hash_algo never released it.
---
 lib/src/signed_video_openssl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index ded2c28..f5d3f13 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -460,9 +460,10 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
     name_or_oid = DEFAULT_HASH_ALGO;
   }
 
+  ASN1_OBJECT *hash_algo_obj = NULL;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    ASN1_OBJECT *hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
+    hash_algo_obj = OBJ_txt2obj(name_or_oid, 0 /* Accept both name and OID */);
     SV_THROW_IF_WITH_MSG(!hash_algo_obj, SV_INVALID_PARAMETER,
         "Could not identify hashing algorithm: %s", name_or_oid);
     SV_THROW(obj_to_oid_and_type(&self->hash_algo, hash_algo_obj));
@@ -478,6 +479,8 @@ openssl_set_hash_algo(void *handle, const char *name_or_oid)
   SV_CATCH()
   SV_DONE(status)
 
+  ASN1_OBJECT_free(hash_algo_obj);
+
   return status;
 }
 
-- 
2.43.0


From c549314afa6739da4bd3324b320a1e49aa99be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 75/78] fix: do not read before an empty name of the key
 directory

get_path_to_key() inspected the last character of an empty string.
---
 lib/src/signed_video_openssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index f5d3f13..7815f88 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -711,7 +711,7 @@ get_path_to_key(const char *dir_to_key, const char *key_filename)
 
   strcpy(str, dir_to_key);
   // Add '/' if not exists
-  if (dir_to_key[path_len - 1] != '/') strcat(str, "/");
+  if (path_len > 0 && dir_to_key[path_len - 1] != '/') strcat(str, "/");
   strcat(str, key_filename);
 
   return str;
-- 
2.43.0


From ea2166a1b0fbafc0b3d8c5a8df9e392c6fabab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 76/78] fix: report if the path to a generated key cannot be
 created

Without memory for the path the key was never written, but SV_OK was returned.
---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 7815f88..5d995c3 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -728,6 +728,7 @@ signed_video_generate_ecdsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_ECDSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_ecdsa_private_key(full_path_to_private_key, &pem_key);
@@ -754,6 +755,7 @@ signed_video_generate_rsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_RSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_rsa_private_key(full_path_to_private_key, &pem_key);
-- 
2.43.0


From 63de425b5e84369a27d58aecc588ece6fba1658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:03 +0000
Subject: [PATCH 77/78] fix: report if a generated key could not be written to
 file completely

The key reaches the file when it is closed. If that fails, for example on a full disk, the file is
incomplete, but SV_OK was returned.
---
 lib/src/signed_video_openssl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 5d995c3..151d6a1 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -617,7 +617,11 @@ write_private_key_to_file(EVP_PKEY *pkey, const char *path_to_key)
   }
   SV_DONE(status)
 
-  if (f_private) fclose(f_private);
+  // Data may still be buffered and is written when closing the file.
+  if (f_private && fclose(f_private) != 0 && status == SV_OK) {
+    unlink(path_to_key);
+    status = SV_EXTERNAL_ERROR;
+  }
 
   return status;
 }
-- 
2.43.0


From 335ab971716ada8754731754950a8e16d6c40669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:29 +0000
Subject: [PATCH 78/78] fix: do not compare a serial number that could not be
 stored

---
 lib/src/legacy/legacy_h26x_auth.c | 3 ++-
 lib/src/signed_video_h26x_auth.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index e7c8fba..9fa05e2 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -739,8 +739,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
+      const char *serial_number = self->product_info->serial_number;
       if (supplemental_authenticity->public_key_validation != -1 &&
-          strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+          (!serial_number || strcmp(serial_number, supplemental_authenticity->serial_number))) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 899a808..7a6455e 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -874,8 +874,9 @@ prepare_for_validation(signed_video_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
+      const char *serial_number = self->product_info->serial_number;
       if (supplemental_authenticity->public_key_validation != -1 &&
-          strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+          (!serial_number || strcmp(serial_number, supplemental_authenticity->serial_number))) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
-- 
2.43.0

