From 7847134de6efe364aec639aa2c880de670d4d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 01/18] fix: do not release the caller's buffer when Protect
 fails

The overload of Protect that writes to a caller-supplied buffer released it
through the destroy callback on failure; the allocating overload then released
it a second time.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d231dce..2027f18 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -286,8 +286,8 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
 
     // Protect the bytes in |bytes_to_protect| and write them to
     // |protected_bytes|. If a failure occurs or an unexpected number of bytes
-    // are written, then free the |protected_bytes| buffer and return an error
-    // status.
+    // are written, then return an error status. The |protected_bytes| buffer is
+    // owned by the caller, so it must not be freed here.
     S2ACrypterStatus status =
         crypter_->Protect(RecordType::APPLICATION_DATA, bytes_to_protect,
                           {static_cast<uint8_t*>(protected_bytes.iov_base) +
@@ -297,7 +297,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
       std::string error =
           absl::StrCat("Failed to protect: ", status.GetErrorMessage());
       logger_(error);
-      destroy_(protected_bytes);
       return Status(ConvertStatusCode(status.GetCode()),
                     status.GetErrorMessage());
     }
@@ -305,7 +304,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
         number_bytes_to_protect + crypter_->RecordOverhead()) {
       std::string error = "Protected an unexpected number of bytes.";
       logger_(error);
-      destroy_(protected_bytes);
       return Status(StatusCode::kInternal, error);
     }
 
-- 
2.43.0


From 74febf91633506414d102458a7048ba01e217c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 02/18] fix: skip empty input pieces when parsing TLS records

An empty Iovec made Unprotect read outside the piece (or fail an assertion when
its base is null).
---
 src/frame_protector/s2a_frame_protector.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 2027f18..deaca7d 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -101,9 +101,13 @@ absl::variant<Status, ComputeTlsRecordSizeResult> ComputeTlsRecordSize(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record header.");
     }
+    size_t buffer_length = vecs[iovec_index].iov_len;
+    if (buffer_length == 0) {
+      iovec_index += 1;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
-    size_t buffer_length = vecs[iovec_index].iov_len;
     switch (header_index) {
       case 0:
         if (buffer[on_iovec_index] != kTls12ApplicationData) {
@@ -166,6 +170,10 @@ absl::variant<Status, IsolateTlsPayloadResult> IsolateTlsPayload(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record.");
     }
+    if (vecs[iovec_index].iov_len == 0) {
+      iovec_index += 1;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t bytes_remaining_on_iovec =
-- 
2.43.0


From 7c27d442945bac45d55e94d15b3799dcc438f088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 03/18] fix: release already unprotected records when a later
 one is malformed

Unprotect leaked the plaintext buffers of the earlier records of the call when
a later record had a bad header or was incomplete.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index deaca7d..09915a2 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -413,6 +413,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to compute TLS record size: ",
                              absl::get<0>(record_size_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(record_size_status), /*bytes=*/{}};
       case 1:
         break;
@@ -437,6 +440,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to isolate TLS payload: ",
                              absl::get<0>(isolate_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(isolate_status), /*bytes=*/{}};
       case 1:
         break;
-- 
2.43.0


From 80b632aad8781ffe9978506163d9fba5971601ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 04/18] fix: report a short trailing partial record in
 Unprotect

Trailing bytes shorter than the record overhead were dropped silently, although
Unprotect is documented to fail when it is given a partial record.
---
 src/frame_protector/s2a_frame_protector.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 09915a2..d5fa26d 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -475,6 +475,14 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
     plaintext.push_back(unprotected_bytes);
     bytes_remaining -= kTls13RecordHeaderLength + payload_size;
   }
+  if (bytes_remaining > 0) {
+    std::string error = "|protected_bytes| contains a partial TLS record.";
+    logger_(error);
+    for (auto& vec : plaintext) {
+      destroy_(vec);
+    }
+    return {Status(StatusCode::kFailedPrecondition, error), /*bytes=*/{}};
+  }
   return {Status(), plaintext};
 }
 
-- 
2.43.0


From 5fbccab87a877422532659f6fb509bc81bbb95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 05/18] fix: reject surplus bytes in the single-record
 Unprotect

Bytes after the first record were ignored, so that data was lost silently;
the overload is documented to fail if it is given more than one record. Also
guard it by the same mutex as the other overload and report no data when the
input is too small.
---
 src/frame_protector/s2a_frame_protector.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d5fa26d..07f46c0 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -326,10 +326,12 @@ Status S2AFrameProtector::Unprotect(
     const std::vector<aead_crypter::Iovec>& protected_bytes,
     aead_crypter::Iovec& unprotected_bytes) {
   if (NumberBytesToUnprotect(protected_bytes) == 0) {
+    unprotected_bytes.iov_len = 0;
     return Status(StatusCode::kFailedPrecondition,
                   "|protected_bytes| is too small to contain a TLS record.");
   }
 
+  absl::MutexLock lock(&unprotect_mu_);
   // Compute the size of the TLS record held in |protected_bytes| and copy the
   // header into |header|.
   uint8_t header[kTls13RecordHeaderLength];
@@ -349,6 +351,12 @@ Status S2AFrameProtector::Unprotect(
   }
   ComputeTlsRecordSizeResult record_size_result =
       absl::get<1>(record_size_status);
+  if (GetTotalIovecLength(protected_bytes) > record_size_result.record_size) {
+    unprotected_bytes.iov_len = 0;
+    std::string error = "|protected_bytes| contains more than one TLS record.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
 
   // Create a vector of Iovec's that consists only of the TLS payload.
   absl::variant<Status, IsolateTlsPayloadResult> isolate_status =
-- 
2.43.0


From 7265d9cb41ab8e6cdb4e241c5bafa7682628451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 06/18] fix: update the inbound key only on a complete key
 update message

A key update message fragmented over several records changed the inbound key
once per fragment.
---
 src/record_protocol/s2a_crypter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index bd35e14..c17a3a6 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -497,7 +497,8 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
 
       // Update the inbound key if handshake message contained a key update
       // message.
-      if (result.contains_key_update) {
+      // The key must only be updated once the message is complete.
+      if (result.contains_key_update && !result.expecting_to_read_more_bytes) {
         // TODO(matthewstevenson88): If |result.key_update_type == 0x01|, then
         // the peer is expecting a key update to be sent from us. See
         // https://tools.ietf.org/html/rfc8446#section-4.6.3.
-- 
2.43.0


From 56bb2ce92deda2a7b9e83f1dd85c9b0aacc00093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 07/18] fix: do not lose tickets when a record ends inside the
 sixth ticket

Reaching the ticket limit in a record that also holds the beginning of another
message failed to retrieve the tickets, dropped them, and forgot that the
message was unfinished.
---
 src/record_protocol/s2a_crypter.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index c17a3a6..1d32dad 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -518,11 +518,12 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           ABSL_FALLTHROUGH_INTENDED;
         case TicketHandlingPhase::RECEIVING:
           // If the limit of number of tickets to process is reached, send all
-          // stored tickets to the S2A.
+          // stored tickets to the S2A. The tickets cannot be retrieved in the
+          // middle of a message, so wait for its end.
           if (result.contains_ticket &&
-              result.num_full_tickets_stored >= kMaxNumTicketsToProcess) {
+              result.num_full_tickets_stored >= kMaxNumTicketsToProcess &&
+              !result.expecting_to_read_more_bytes) {
             RetrieveStoredTicketsAndSendToS2A();
-            hs_message_handling_state_->expecting_to_read_more_bytes = false;
             hs_message_handling_state_->phase = TicketHandlingPhase::DONE;
             return absl::Status();
           }
-- 
2.43.0


From 65693d71cec72d59f1cf554cdfe741eeec5453a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 08/18] fix: reject handshake messages without content

A message with a zero length field left the parser in an inconsistent state, in
which the next header was appended to the old one and the size computation
shifted by a negative amount.
---
 src/record_protocol/handshake_message_handler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index f128d56..b18cbde 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -79,9 +79,12 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           /* Update state. */
           num_header_bytes_expecting_to_read_ = kTlsHandshakeHeaderLength;
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
-          if (num_data_bytes_expecting_to_read_ > 0) {
-            state_ = State::READ_DATA;
+          if (num_data_bytes_expecting_to_read_ == 0) {
+            message_fragments_->clear();
+            return absl::Status(absl::StatusCode::kInternal,
+                                "Handshake message has no content.");
           }
+          state_ = State::READ_DATA;
         } else {
           /* Read incomplete message header. Read all remaining bytes. */
           StoreMessageFragment(plaintext, at_byte, bytes_left_to_read);
-- 
2.43.0


From d8ee056926e4b42accf3feb5a924b021379f1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:03 +0000
Subject: [PATCH 09/18] fix: guard TagLength against a concurrent key update

TagLength read the AEAD crypter without the lock, while UpdateKey replaces and
destroys it. The sending path asks the inbound half connection for its tag
length, so a writer could use a freed object while a reader handles a key
update.
---
 src/record_protocol/s2a_half_connection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_half_connection.cc b/src/record_protocol/s2a_half_connection.cc
index 167600e..9845906 100644
--- a/src/record_protocol/s2a_half_connection.cc
+++ b/src/record_protocol/s2a_half_connection.cc
@@ -253,7 +253,10 @@ Status S2AHalfConnection::UpdateKey() {
   return Status();
 }
 
-size_t S2AHalfConnection::TagLength() { return aead_crypter_->TagLength(); }
+size_t S2AHalfConnection::TagLength() {
+  absl::MutexLock lock(&mu_);
+  return aead_crypter_->TagLength();
+}
 
 S2AHalfConnection::S2AHalfConnection(
     Ciphersuite ciphersuite, size_t key_size, uint64_t sequence,
-- 
2.43.0


From 5bffec11cdbf398d613bfb81bf92c5f172a13e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:46 +0000
Subject: [PATCH 10/18] fix: do not leave unauthenticated plaintext in a too
 small output buffer

Decrypting into a buffer too small for the whole text wrote the first pieces of
the text before noticing it, and left them there.
---
 src/crypto/aes_gcm_crypter.cc             | 15 ++++++++-------
 src/crypto/chacha_poly_crypter_openssl.cc | 15 +++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 367df50..97d3974 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -303,6 +303,14 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
       return CrypterStatus(aad_status, /*bytes_written=*/0);
     }
 
+    // Check that |plaintext| is large enough before writing anything to it.
+    if (plaintext.iov_len < total_ciphertext_and_tag_length - kAesGcmTagSize) {
+      return CrypterStatus(
+          Status(StatusCode::kInvalidArgument,
+                 "|plaintext| is too small to hold the decrypted ciphertext."),
+          /*bytes_written=*/0);
+    }
+
     uint8_t* plaintext_ptr = static_cast<uint8_t*>(plaintext.iov_base);
     size_t remaining_plaintext_length = plaintext.iov_len;
 
@@ -334,13 +342,6 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
       if (bytes_to_write > total_ciphertext_and_tag_length - kAesGcmTagSize) {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
-      if (remaining_plaintext_length < bytes_to_write) {
-        return CrypterStatus(
-            Status(
-                StatusCode::kInvalidArgument,
-                "|plaintext| is too small to hold the decrypted ciphertext."),
-            /*bytes_written=*/0);
-      }
       if (!EVP_DecryptUpdate(
               ctx_.get(), plaintext_ptr, reinterpret_cast<int*>(&bytes_written),
               ciphertext_ptr, static_cast<int>(bytes_to_write))) {
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5d06c20..5131e95 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -309,6 +309,15 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
       return CrypterStatus(aad_status, /*bytes_written=*/0);
     }
 
+    // Check that |plaintext| is large enough before writing anything to it.
+    if (plaintext.iov_len <
+        total_ciphertext_and_tag_length - kChachaPolyTagSize) {
+      return CrypterStatus(
+          absl::InvalidArgumentError(
+              "|plaintext| is too small to hold the decrypted ciphertext."),
+          /*bytes_written=*/0);
+    }
+
     uint8_t* plaintext_ptr = static_cast<uint8_t*>(plaintext.iov_base);
     size_t remaining_plaintext_length = plaintext.iov_len;
 
@@ -341,12 +350,6 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
           total_ciphertext_and_tag_length - kChachaPolyTagSize) {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
-      if (remaining_plaintext_length < bytes_to_write) {
-        return CrypterStatus(
-            absl::InvalidArgumentError(
-                "|plaintext| is too small to hold the decrypted ciphertext."),
-            /*bytes_written=*/0);
-      }
       if (!EVP_DecryptUpdate(
               ctx_.get(), plaintext_ptr, reinterpret_cast<int*>(&bytes_written),
               ciphertext_ptr, static_cast<int>(bytes_to_write))) {
-- 
2.43.0


From d7641606442e710cc4420a84b022aac491f5c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:46 +0000
Subject: [PATCH 11/18] fix: report a missing piece that holds part of the tag

A piece with a null base and a nonzero length was refused among the ciphertext
pieces, but dereferenced among the pieces that hold the tag.
---
 src/crypto/aes_gcm_crypter.cc             | 10 ++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 97d3974..35dd309 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -385,6 +385,16 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5131e95..740910a 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -393,6 +393,16 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
-- 
2.43.0


From 7590084aa64b722a8ef3336e4ab210f21926ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:46 +0000
Subject: [PATCH 12/18] fix: report an error when the SSL library cannot
 allocate an object

A null cipher context was passed to the SSL library, and collecting its errors
crashed when no BIO could be allocated.
---
 src/crypto/aes_gcm_crypter.cc             | 3 ++-
 src/crypto/chacha_poly_crypter_openssl.cc | 3 ++-
 src/crypto/s2a_aead_crypter_util.cc       | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 35dd309..f90e6a5 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -431,7 +431,8 @@ absl::variant<Status, std::unique_ptr<S2AAeadCrypter>> CreateAesGcmAeadCrypter(
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
-  if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
+  if (ctx == nullptr ||
+      !EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
                            static_cast<int>(kAesGcmNonceSize),
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 740910a..15e47ce 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -437,7 +437,8 @@ CreateChachaPolyAeadCrypter(const std::vector<uint8_t>& key) {
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
-  if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
+  if (ctx == nullptr ||
+      !EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
                            static_cast<int>(kChachaPolyNonceSize),
diff --git a/src/crypto/s2a_aead_crypter_util.cc b/src/crypto/s2a_aead_crypter_util.cc
index a5a225d..fade081 100644
--- a/src/crypto/s2a_aead_crypter_util.cc
+++ b/src/crypto/s2a_aead_crypter_util.cc
@@ -26,6 +26,10 @@ namespace aead_crypter {
 
 std::string GetSSLErrors() {
   BIO* bio = BIO_new(BIO_s_mem());
+  if (bio == nullptr) {
+    ERR_clear_error();
+    return "";
+  }
   ERR_print_errors(bio);
   char* temp_buffer = nullptr;
   size_t temp_buffer_length = BIO_get_mem_data(bio, &temp_buffer);
-- 
2.43.0


From 617253ec3fd4ccc59f48af98552ab372fab9b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 13/18] fix: discard the current message when handshake parsing
 fails

The fragments of a refused handshake message stayed in the parser, so that later
messages were appended to it: their size was computed from the old header (with
a shift by a negative amount) and they were taken for the refused message.
---
 src/record_protocol/handshake_message_handler.cc | 11 ++++++++++-
 src/record_protocol/handshake_message_handler.h  |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index b18cbde..34dd851 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -80,7 +80,7 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           num_header_bytes_expecting_to_read_ = kTlsHandshakeHeaderLength;
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
           if (num_data_bytes_expecting_to_read_ == 0) {
-            message_fragments_->clear();
+            DiscardMessage();
             return absl::Status(absl::StatusCode::kInternal,
                                 "Handshake message has no content.");
           }
@@ -126,6 +126,7 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
            * nothing follows the key update message and include the key update
            * type in the returned result. */
           if (at_byte < plaintext_len) {
+            DiscardMessage();
             return absl::Status(
                 absl::StatusCode::kInternal,
                 "Key update should be the last message in a plaintext.");
@@ -151,6 +152,7 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
         }
         break;
       default:
+        DiscardMessage();
         return absl::Status(absl::StatusCode::kInternal,
                             "Unexpected handshake message type.");
     }
@@ -258,6 +260,13 @@ uint8_t HandshakeMessageHandler::GetKeyUpdateType() {
   return kInvalidKeyUpdateType;
 }
 
+void HandshakeMessageHandler::DiscardMessage() {
+  message_fragments_->clear();
+  num_header_bytes_expecting_to_read_ = kTlsHandshakeHeaderLength;
+  num_data_bytes_expecting_to_read_ = 0;
+  state_ = State::READ_HEADER;
+}
+
 bool HandshakeMessageHandler::ExpectingToReadMoreBytes() {
   return !message_fragments_->empty();
 }
diff --git a/src/record_protocol/handshake_message_handler.h b/src/record_protocol/handshake_message_handler.h
index 98eb80d..36c3193 100644
--- a/src/record_protocol/handshake_message_handler.h
+++ b/src/record_protocol/handshake_message_handler.h
@@ -117,6 +117,10 @@ class HandshakeMessageHandler {
   void StoreMessageFragment(const uint8_t* plaintext, size_t at_byte,
                             size_t bytes_to_read);
 
+  /** Discards the handshake message currently being processed, so that the
+   *  next byte is the first byte of a new message. **/
+  void DiscardMessage();
+
   /** Results true if waiting to read more bytes of a fragmented handhsake
    *  message. **/
   bool ExpectingToReadMoreBytes();
-- 
2.43.0


From 65c1d649f7b59d8f3ba93bb07d76fa4570751438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:23 +0000
Subject: [PATCH 14/18] fix: keep bytes after a NUL in strings sent to S2A and
 stored in the context

---
 src/handshaker/s2a_context.cc                | 12 +++--
 src/handshaker/s2a_proxy.cc                  | 56 +++++++++++---------
 src/handshaker/s2a_util.cc                   | 15 +++---
 src/handshaker/s2a_util.h                    |  4 ++
 src/record_protocol/s2a_upb_ticket_sender.cc | 13 ++---
 5 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 2ba1532..2fe04f9 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -75,7 +75,9 @@ S2AContext::GetSerializedContext() const {
   upb::Arena arena;
   s2a_proto_S2AContext* context = s2a_proto_S2AContext_new(arena.ptr());
   s2a_proto_S2AContext_set_application_protocol(
-      context, upb_strview_makez(application_protocol_.c_str()));
+      context,
+      upb_strview_make(application_protocol_.data(),
+                       application_protocol_.size()));
 
   // Set the TLS version.
   absl::variant<Status, s2a_proto_TLSVersion> tls_version_status =
@@ -135,9 +137,13 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context, upb_strview_makez(peer_cert_fingerprint_.c_str()));
+      context,
+      upb_strview_make(peer_cert_fingerprint_.data(),
+                       peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context, upb_strview_makez(local_cert_fingerprint_.c_str()));
+      context,
+      upb_strview_make(local_cert_fingerprint_.data(),
+                       local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 7418acc..4978433 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -370,7 +370,9 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the application protocol.
   s2a_proto_ClientSessionStartReq_add_application_protocols(
-      client_start, upb_strview_makez(application_protocol_.c_str()),
+      client_start,
+      upb_strview_make(application_protocol_.data(),
+                       application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -434,15 +436,15 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (target_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(target_identity));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(target_identity));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(target_identity));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -469,15 +471,15 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(local_identity));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(local_identity));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(local_identity));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -489,7 +491,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the target name to the hostname of the server.
   s2a_proto_ClientSessionStartReq_set_target_name(
-      client_start, upb_strview_makez(target_hostname_.c_str()));
+      client_start,
+      upb_strview_make(target_hostname_.data(), target_hostname_.size()));
 
   // Attach tokens per local identity, if a token manager exists.
   PopulateTokenCache();
@@ -497,26 +500,27 @@ ProxyStatus S2AProxy::GetClientStart() {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       default:
         logger_(
@@ -552,7 +556,9 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
 
   // Set the application protocol.
   s2a_proto_ServerSessionStartReq_add_application_protocols(
-      server_start, upb_strview_makez(application_protocol_.c_str()),
+      server_start,
+      upb_strview_make(application_protocol_.data(),
+                       application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -617,15 +623,15 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(local_identity));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(local_identity));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(local_identity));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -648,26 +654,27 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       default:
         logger_(
@@ -717,26 +724,27 @@ ProxyStatus S2AProxy::GetNext(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, s2a_util::MakeUpbStrview(pair.first));
         break;
       default:
         logger_(
diff --git a/src/handshaker/s2a_util.cc b/src/handshaker/s2a_util.cc
index d1daa84..8e315d4 100644
--- a/src/handshaker/s2a_util.cc
+++ b/src/handshaker/s2a_util.cc
@@ -65,18 +65,16 @@ absl::variant<Status, s2a_proto_Identity*> ConvertIdentityToProto(
   switch (identity.GetIdentityType()) {
     case IdentityType::SPIFFE_ID:
       proto_identity = s2a_proto_Identity_new(arena);
-      s2a_proto_Identity_set_spiffe_id(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+      s2a_proto_Identity_set_spiffe_id(proto_identity,
+                                       MakeUpbStrview(identity));
       return proto_identity;
     case IdentityType::HOSTNAME:
       proto_identity = s2a_proto_Identity_new(arena);
-      s2a_proto_Identity_set_hostname(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+      s2a_proto_Identity_set_hostname(proto_identity, MakeUpbStrview(identity));
       return proto_identity;
     case IdentityType::UID:
       proto_identity = s2a_proto_Identity_new(arena);
-      s2a_proto_Identity_set_uid(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+      s2a_proto_Identity_set_uid(proto_identity, MakeUpbStrview(identity));
       return proto_identity;
     default:
       return nullptr;
@@ -124,6 +122,11 @@ Identity ConvertFromProtoToIdentity(const s2a_proto_Identity* identity) {
   return Identity::GetEmptyIdentity();
 }
 
+upb_strview MakeUpbStrview(const Identity& identity) {
+  return upb_strview_make(identity.GetIdentityCString(),
+                          identity.GetIdentityString().size());
+}
+
 std::string ParseUpbStrview(const upb_strview& message) {
   return std::string(message.data, message.size);
 }
diff --git a/src/handshaker/s2a_util.h b/src/handshaker/s2a_util.h
index 570c506..308e64d 100644
--- a/src/handshaker/s2a_util.h
+++ b/src/handshaker/s2a_util.h
@@ -59,6 +59,10 @@ ConvertFromProtoToCiphersuite(s2a_proto_Ciphersuite ciphersuite);
 s2a_options::S2AOptions::Identity ConvertFromProtoToIdentity(
     const s2a_proto_Identity* identity);
 
+// |MakeUpbStrview| returns a view of the whole identity string of |identity|,
+// which may contain any byte. It is valid for as long as |identity| is.
+upb_strview MakeUpbStrview(const s2a_options::S2AOptions::Identity& identity);
+
 // |ParseUpbStrview| converts |message| to a |std::string|.
 std::string ParseUpbStrview(const upb_strview& message);
 
diff --git a/src/record_protocol/s2a_upb_ticket_sender.cc b/src/record_protocol/s2a_upb_ticket_sender.cc
index c7c5ee7..d8a3a0e 100644
--- a/src/record_protocol/s2a_upb_ticket_sender.cc
+++ b/src/record_protocol/s2a_upb_ticket_sender.cc
@@ -53,18 +53,19 @@ bool PrepareResumptionTicketReq(
   // sending a request that is doomed to fail.
   s2a_proto_Identity* identity =
       s2a_proto_ResumptionTicketReq_mutable_local_identity(ticket_req, ar);
+  // The identity may contain any byte, so its size must be set explicitly.
+  upb_strview identity_string =
+      upb_strview_make(local_identity.GetIdentityCString(),
+                       local_identity.GetIdentityString().size());
   switch (local_identity.GetIdentityType()) {
     case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
-      s2a_proto_Identity_set_spiffe_id(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+      s2a_proto_Identity_set_spiffe_id(identity, identity_string);
       break;
     case s2a_options::S2AOptions::IdentityType::HOSTNAME:
-      s2a_proto_Identity_set_hostname(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+      s2a_proto_Identity_set_hostname(identity, identity_string);
       break;
     case s2a_options::S2AOptions::IdentityType::UID:
-      s2a_proto_Identity_set_uid(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+      s2a_proto_Identity_set_uid(identity, identity_string);
       break;
     default:
       return false;
-- 
2.43.0


From 046dc9943ed9a0b3e9b5e8d4df94e6f0bad25159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:05 +0000
Subject: [PATCH 15/18] fix: finish the handshake only after validating the
 whole result

---
 src/handshaker/s2a_proxy.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 4978433..f9e2493 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -252,7 +252,6 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
   }
 
   if (s2a_proto_SessionResp_has_result(response)) {
-    is_handshake_finished_ = true;
     const s2a_proto_SessionResult* result =
         s2a_proto_SessionResp_result(response);
     if (result == nullptr || !s2a_proto_SessionResult_has_state(result)) {
@@ -262,7 +261,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
               /*buffer=*/nullptr};
     }
     const s2a_proto_SessionState* state = s2a_proto_SessionResult_state(result);
-    result_ = absl::make_unique<S2AHandshakeResult>();
+    auto handshake_result = absl::make_unique<S2AHandshakeResult>();
 
     // Parse and set the TLS version.
     absl::variant<Status, TlsVersion> tls_version_status =
@@ -281,7 +280,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->tls_version = absl::get<1>(tls_version_status);
+    handshake_result->tls_version = absl::get<1>(tls_version_status);
 
     // Parse and set the ciphersuite.
     absl::variant<Status, Ciphersuite> ciphersuite_status =
@@ -300,24 +299,26 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->ciphersuite = absl::get<1>(ciphersuite_status);
+    handshake_result->ciphersuite = absl::get<1>(ciphersuite_status);
 
     upb_strview in_traffic_secret = s2a_proto_SessionState_in_key(state);
-    result_->in_traffic_secret = std::vector<uint8_t>(in_traffic_secret.size);
-    memcpy(result_->in_traffic_secret.data(), in_traffic_secret.data,
+    handshake_result->in_traffic_secret =
+        std::vector<uint8_t>(in_traffic_secret.size);
+    memcpy(handshake_result->in_traffic_secret.data(), in_traffic_secret.data,
            in_traffic_secret.size);
 
     upb_strview out_traffic_secret = s2a_proto_SessionState_out_key(state);
-    result_->out_traffic_secret = std::vector<uint8_t>(out_traffic_secret.size);
-    memcpy(result_->out_traffic_secret.data(), out_traffic_secret.data,
+    handshake_result->out_traffic_secret =
+        std::vector<uint8_t>(out_traffic_secret.size);
+    memcpy(handshake_result->out_traffic_secret.data(), out_traffic_secret.data,
            out_traffic_secret.size);
 
     // |out_sequence| may be nonzero on server-side because, right after the
     // handshake is complete, one or more TLS records containing session tickets
     // may have been generated. This will increment |out_sequence| by the number
     // of TLS records generated.
-    result_->in_sequence = s2a_proto_SessionState_in_sequence(state);
-    result_->out_sequence = s2a_proto_SessionState_out_sequence(state);
+    handshake_result->in_sequence = s2a_proto_SessionState_in_sequence(state);
+    handshake_result->out_sequence = s2a_proto_SessionState_out_sequence(state);
 
     // TODO(matthewstevenson88): Enforce that peer identity is set.
     // TODO(matthewstevenson88) Check that peer identity appears in the list of
@@ -336,9 +337,10 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       return {Status(StatusCode::kInternal, error),
               /*bytes_consumed=*/0, /*buffer=*/nullptr};
     }
-    result_->local_identity =
+    handshake_result->local_identity =
         s2a_util::ConvertFromProtoToIdentity(local_identity);
-    result_->connection_id = s2a_proto_SessionState_connection_id(state);
+    handshake_result->connection_id =
+        s2a_proto_SessionState_connection_id(state);
 
     // Create the |S2AContext|.
     context_ = absl::make_unique<S2AContext>(
@@ -352,6 +354,10 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
         s2a_util::ParseUpbStrview(
             s2a_proto_SessionResult_local_cert_fingerprint(result)),
         s2a_proto_SessionState_is_handshake_resumed(state));
+
+    // The handshake is only finished once the whole result has been validated.
+    result_ = std::move(handshake_result);
+    is_handshake_finished_ = true;
   }
 
   // Retrieve the |out_frames| to send to the peer.
-- 
2.43.0


From fdd0baf2a81e8a394e778bcd3f0a6840ac34bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:03 +0000
Subject: [PATCH 16/18] fix: hold the proxy's mutex while its result, context
 and factories are read

CreateFrameProtector and GetS2AContext only held mu_ while testing whether the
handshake is finished. They then read result_ and moved out of context_,
channel_factory_ and channel_options_ without it, racing with each other and
with GetBytesForPeer.
---
 src/handshaker/s2a_proxy.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index f9e2493..4f46233 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -797,7 +797,8 @@ void Destroy(aead_crypter::Iovec iovec) {
 
 absl::StatusOr<std::unique_ptr<S2AFrameProtector>>
 S2AProxy::CreateFrameProtector() {
-  if (!IsHandshakeFinished()) {
+  absl::MutexLock lock(&mu_);
+  if (!is_handshake_finished_) {
     logger_("Handshake is not finished.");
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
@@ -821,7 +822,8 @@ S2AProxy::CreateFrameProtector() {
 }
 
 absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
-  if (!IsHandshakeFinished()) {
+  absl::MutexLock lock(&mu_);
+  if (!is_handshake_finished_) {
     logger_("Handshake is not finished.");
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
-- 
2.43.0


From c1a79a6e24bd799a70f63eaad8aa4f735e17e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:29 +0000
Subject: [PATCH 17/18] fix: report an error, not a null context, when the
 context was already taken

---
 src/handshaker/s2a_proxy.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 4f46233..69a7acc 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -828,6 +828,11 @@ absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
   }
+  if (context_ == nullptr) {
+    std::string error = "The context has already been retrieved.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
   return std::move(context_);
 }
 
-- 
2.43.0


From 57cd3e359cfc875963c3b51854a1ddcf1cccf177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:38 +0000
Subject: [PATCH 18/18] fix: refuse a second frame protector made of the same
 session keys

---
 src/handshaker/s2a_proxy.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 69a7acc..ba37541 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -803,6 +803,11 @@ S2AProxy::CreateFrameProtector() {
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
   }
+  if (result_ == nullptr) {
+    std::string error = "The frame protector has already been created.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
   std::string s2a_address = options_->s2a_address();
   S2AFrameProtectorOptions options = {result_->tls_version,
                                       result_->ciphersuite,
@@ -818,7 +823,14 @@ S2AProxy::CreateFrameProtector() {
                                       Allocator,
                                       Destroy,
                                       logger_};
-  return S2AFrameProtector::Create(options);
+  absl::StatusOr<std::unique_ptr<S2AFrameProtector>> frame_protector =
+      S2AFrameProtector::Create(options);
+  // A second frame protector would protect records with the same keys and
+  // nonces as the first one.
+  if (frame_protector.ok()) {
+    result_ = nullptr;
+  }
+  return frame_protector;
 }
 
 absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
-- 
2.43.0

