// Independent reference implementations used only as oracles (no SSL library).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> Bytes;
Bytes Sha256(const Bytes& m);
Bytes Sha384(const Bytes& m);
enum Hash { kSha256, kSha384 };
Bytes Hmac(Hash h, const Bytes& key, const Bytes& msg);
Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t len);
// RFC 8446 HKDF-Expand-Label with empty context.
Bytes ExpandLabel(Hash h, const Bytes& secret, const std::string& label, size_t len);
enum Aead { kAes128Gcm, kAes256Gcm, kChaCha };
// Returns ciphertext || tag.
Bytes Seal(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt);
// On success fills *pt. If |raw| is given it always receives the unauthenticated
// decryption.
bool Open(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct_tag,
          Bytes* pt, Bytes* raw = nullptr);
// Checks the implementations against published vectors.
bool SelfTest();
}  // namespace ref
