From 11ebcede016fef52bdb564d345903600a09254a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 01/13] fix: refuse to sign with an exhausted basic XMSS signer

XmssBasic::sign had no capacity check: once all 2^h one-time keys were used
(or the index was moved past them) it read past the tree when it collected the
authentication path and returned an invalid signature (the Rust port panicked).
---
 src/qrl/xmssBasic.cpp              | 4 ++++
 src/rust_wrapper/qrl/xmss_basic.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..8b9bde1 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getIndex() >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
diff --git a/src/rust_wrapper/qrl/xmss_basic.rs b/src/rust_wrapper/qrl/xmss_basic.rs
index a17c086..da9a3f0 100644
--- a/src/rust_wrapper/qrl/xmss_basic.rs
+++ b/src/rust_wrapper/qrl/xmss_basic.rs
@@ -90,6 +90,10 @@ impl XMSSBaseTrait for XMSSBasic {
 
 impl Sign for XMSSBasic {
     fn sign(&mut self, message: &TMESSAGE) -> Result<TSIGNATURE, QRLError> {
+        if self.get_index() >= self.get_number_signatures() {
+            return Err(QRLError::InvalidArgument("index too high".to_owned()));
+        }
+
         let mut signature: TSIGNATURE =
             vec![0; self.get_signature_size(Some(self.params.wots_par.w)) as usize];
         let message_len = message.len();
-- 
2.43.0


From 01e5fffa78ea9810207e3c082d9e2379e56b02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 02/13] fix: reject descriptors with unknown hash function,
 signature type or address format

The signature type was decoded with the wrong mask and always read as XMSS, so
verification accepted public keys with an altered signature type. Unknown hash
functions were passed on to the hashing code, which then left its outputs
uninitialised: the verdict depended on stale stack contents. Unknown address
formats were accepted by the C++ verifier and refused by the Rust one.
---
 src/qrl/qrlDescriptor.h                | 28 +++++++++++++++++++++++---
 src/rust_wrapper/qrl/qrl_descriptor.rs |  2 +-
 src/rust_wrapper/qrl/qrl_helper.rs     |  7 +++++--
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..68743fc 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -40,10 +40,16 @@ public:
             throw std::invalid_argument("Extended seed should be 51 bytes");
         }
 
-        return QRLDescriptor::fromBytes(
+        auto desc = QRLDescriptor::fromBytes(
                 std::vector<uint8_t>(
                         extended_seed.cbegin(),
                         extended_seed.cbegin()+QRLDescriptor::getSize()));
+
+        if (desc.getSignatureType()!=eSignatureType::XMSS) {
+            throw std::invalid_argument("Signature type not supported");
+        }
+
+        return desc;
     }
 
     static QRLDescriptor fromExtendedPK(const std::vector<uint8_t>& extended_pk)
@@ -52,10 +58,16 @@ public:
             throw std::invalid_argument("Invalid extended_pk size. It should be 67 bytes");
         }
 
-        return QRLDescriptor::fromBytes(
+        auto desc = QRLDescriptor::fromBytes(
                 std::vector<uint8_t>(
                         extended_pk.cbegin(),
                         extended_pk.cbegin()+QRLDescriptor::getSize()));
+
+        if (desc.getSignatureType()!=eSignatureType::XMSS) {
+            throw std::invalid_argument("Signature type not supported");
+        }
+
+        return desc;
     }
 
     static QRLDescriptor fromBytes(std::vector<uint8_t> bytes)
@@ -64,8 +76,18 @@ public:
             throw std::invalid_argument("Descriptor size should be 3 bytes");
         }
 
+        if ((bytes[0] & 0x0F) > eHashFunction::SHAKE_256) {
+            throw std::invalid_argument("Hash function not supported");
+        }
+
+        if (((bytes[1] & 0xF0) >> 4) != eAddrFormatType::SHA256_2X) {
+            throw std::invalid_argument("Address format type not supported");
+        }
+
+        // The signature type is not restricted here: addresses may carry other
+        // types. Public keys and seeds must be XMSS (see above).
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
diff --git a/src/rust_wrapper/qrl/qrl_helper.rs b/src/rust_wrapper/qrl/qrl_helper.rs
index 5cd7fa1..6a4caff 100644
--- a/src/rust_wrapper/qrl/qrl_helper.rs
+++ b/src/rust_wrapper/qrl/qrl_helper.rs
@@ -39,8 +39,11 @@ pub fn address_is_valid(address: &Vec<u8>) -> bool {
         return false;
     }
 
-    let descr_result =
-        QRLDescriptor::from_bytes(&address[0..QRLDescriptor::get_size() as usize].to_vec());
+    // Addresses may carry signature types other than XMSS; the checksum below
+    // covers the whole descriptor.
+    let mut descr_bytes = address[0..QRLDescriptor::get_size() as usize].to_vec();
+    descr_bytes[0] &= 0x0F;
+    let descr_result = QRLDescriptor::from_bytes(&descr_bytes);
 
     if let Ok(descr) = descr_result {
         if *descr.get_addr_format_type() != AddrFormatType::SHA256_2X {
-- 
2.43.0


From ae402fb54f0458142e29e36a97733b01cd81afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 03/13] fix: keep the tree pool prefetching after a failure to
 start a build

When a background build could not be started (out of threads or memory), the
request that triggered the prefetch failed although its own tree was fine, its
index was lost, and a pool whose cache had run empty never prefetched again.
---
 src/qrl/xmssPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrl/xmssPool.cpp b/src/qrl/xmssPool.cpp
index 65e9aed..bfe7aea 100644
--- a/src/qrl/xmssPool.cpp
+++ b/src/qrl/xmssPool.cpp
@@ -47,8 +47,13 @@ std::shared_ptr<XmssFast> XmssPool::getNextTree() {
             pending = std::move(_cache.front());
             _cache.pop_front();
             _current_index++;
+        }
 
+        // Prefetching is best effort here: the caller's own tree does not
+        // depend on it, and the next request tries again.
+        try {
             fillCache();
+        } catch (const std::exception &) {
         }
     }
 
-- 
2.43.0


From fc45cd9841a5a16a72a2ce20ad00689b47db6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 04/13] fix: give copies of XmssFast their own traversal state

The BDS state holds raw pointers into the object's vectors. Copying a signer
(also when a std::vector of signers grows) left the copy pointing at the
original's buffers: both then corrupted each other's signatures, and used freed
memory once the original was gone.
---
 src/qrl/xmssFast.cpp | 54 ++++++++++++++++++++++++++++++++++++++++++++
 src/qrl/xmssFast.h   |  6 +++++
 2 files changed, 60 insertions(+)

diff --git a/src/qrl/xmssFast.cpp b/src/qrl/xmssFast.cpp
index ca25154..38cd310 100644
--- a/src/qrl/xmssFast.cpp
+++ b/src/qrl/xmssFast.cpp
@@ -19,6 +19,60 @@ XmssFast::XmssFast(const TSEED& extended_seed)
     initialize_tree();
 }
 
+XmssFast::XmssFast(const XmssFast& other)
+    : XmssBase(other),
+      _state(other._state),
+      _stackoffset(other._stackoffset),
+      _stack(other._stack),
+      _stacklevels(other._stacklevels),
+      _auth(other._auth),
+      _keep(other._keep),
+      _treehash(other._treehash),
+      _th_nodes(other._th_nodes),
+      _retain(other._retain)
+{
+    bind_state();
+}
+
+XmssFast& XmssFast::operator=(const XmssFast& other)
+{
+    if (this!=&other) {
+        // Only the copy can fail; nothing below does.
+        XmssFast copy(other);
+        params = copy.params;
+        _hashFunction = copy._hashFunction;
+        _addrFormatType = copy._addrFormatType;
+        _height = copy._height;
+        _sk.swap(copy._sk);
+        _seed.swap(copy._seed);
+        _state = copy._state;
+        _stackoffset = copy._stackoffset;
+        _stack.swap(copy._stack);
+        _stacklevels.swap(copy._stacklevels);
+        _auth.swap(copy._auth);
+        _keep.swap(copy._keep);
+        _treehash.swap(copy._treehash);
+        _th_nodes.swap(copy._th_nodes);
+        _retain.swap(copy._retain);
+        bind_state();
+    }
+    return *this;
+}
+
+void XmssFast::bind_state()
+{
+    for (size_t i = 0; i < _treehash.size(); i++) {
+        _treehash[i].node = &_th_nodes[params.n * i];
+    }
+
+    _state.stack = _stack.data();
+    _state.stacklevels = _stacklevels.data();
+    _state.auth = _auth.data();
+    _state.keep = _keep.data();
+    _state.treehash = _treehash.data();
+    _state.retain = _retain.data();
+}
+
 void XmssFast::initialize_tree(uint32_t wotsParamW)
 {
     _sk = TKEY(132, 0);
diff --git a/src/qrl/xmssFast.h b/src/qrl/xmssFast.h
index 97d6b40..9d6ea92 100644
--- a/src/qrl/xmssFast.h
+++ b/src/qrl/xmssFast.h
@@ -19,11 +19,17 @@ public:
 
     XmssFast(const TSEED& extended_seed);
 
+    XmssFast(const XmssFast& other);
+    XmssFast& operator=(const XmssFast& other);
+
     TSIGNATURE sign(const TMESSAGE& message) override;
 
     unsigned int setIndex(unsigned int new_index) override;
 
 protected:
+    // Points _state and the treehash nodes at this object's own buffers.
+    void bind_state();
+
     bds_state _state;
     unsigned int _stackoffset = 0;
     std::vector<unsigned char> _stack;
-- 
2.43.0


From 2e95dee69e5126caad29767db1ea2ce34e66b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 05/13] fix: keep messages and whole trees off the stack when
 hashing and signing

core_hash copied its input into a variable-length array, so signing or verifying
a message of some megabytes overflowed the stack; xmss_Signmsg did the same with
the complete tree. Both now use the heap, and the signer's index is advanced
only after the steps that can fail, so a failed allocation leaves it untouched.
---
 src/xmss-alt/algsxmss.c      | 20 +++++++++++---------
 src/xmss-alt/algsxmss_fast.c | 15 ++++++++-------
 src/xmss-alt/hash.c          | 11 ++++++++++-
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..42c1f45 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -124,7 +125,8 @@ static void compute_authpath_wots(eHashFunction hash_func,
     uint32_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    std::vector<unsigned char> tree_buf(2 * (static_cast<size_t>(1) << h) * n);
+    unsigned char *tree = tree_buf.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
@@ -241,14 +243,6 @@ int xmss_Signmsg(eHashFunction hash_func,
 
     unsigned char hash_key[3 * n];
 
-    // Update SK
-    sk[0] = ((idx + 1) >> 24) & 255;
-    sk[1] = ((idx + 1) >> 16) & 255;
-    sk[2] = ((idx + 1) >> 8) & 255;
-    sk[3] = (idx + 1) & 255;
-    // -- Secret key for this non-forward-secure version is now updated.
-    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
-
     // Init working params
     unsigned char R[n];
     unsigned char msg_h[n];
@@ -309,6 +303,14 @@ int xmss_Signmsg(eHashFunction hash_func,
     sig_msg += params->h * n;
     sig_msg_len += params->h * n;
 
+    // Update SK (nothing below can fail)
+    sk[0] = ((idx + 1) >> 24) & 255;
+    sk[1] = ((idx + 1) >> 16) & 255;
+    sk[2] = ((idx + 1) >> 8) & 255;
+    sk[3] = (idx + 1) & 255;
+    // -- Secret key for this non-forward-secure version is now updated.
+    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
+
     //Whipe secret elements?
     //zerobytes(tsk, CRYPTO_SECRETKEYBYTES);
 
diff --git a/src/xmss-alt/algsxmss_fast.c b/src/xmss-alt/algsxmss_fast.c
index 6e255fb..d0972c7 100644
--- a/src/xmss-alt/algsxmss_fast.c
+++ b/src/xmss-alt/algsxmss_fast.c
@@ -616,13 +616,6 @@ int xmssfast_Signmsg(eHashFunction hash_func,
 
     unsigned char hash_key[3 * n];
 
-    // Update SK
-    sk[0] = ((idx + 1) >> 24) & 255;
-    sk[1] = ((idx + 1) >> 16) & 255;
-    sk[2] = ((idx + 1) >> 8) & 255;
-    sk[3] = (idx + 1) & 255;
-    // -- Secret key for this non-forward-secure version is now updated.
-    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
     unsigned long long sig_msg_len;
     // Init working params
     unsigned char R[n];
@@ -644,6 +637,14 @@ int xmssfast_Signmsg(eHashFunction hash_func,
     // Then use it for message digest
     h_msg(hash_func, msg_h, msg, msglen, hash_key, 3 * n, n);
 
+    // Update SK (hashing the message is the only step that can fail)
+    sk[0] = ((idx + 1) >> 24) & 255;
+    sk[1] = ((idx + 1) >> 16) & 255;
+    sk[2] = ((idx + 1) >> 8) & 255;
+    sk[3] = (idx + 1) & 255;
+    // -- Secret key for this non-forward-secure version is now updated.
+    // -- A productive implementation should use a file handle instead and write the updated secret key at this point!
+
     // Start collecting signature
     sig_msg_len = 0;
 
diff --git a/src/xmss-alt/hash.c b/src/xmss-alt/hash.c
index ca85d75..7713137 100644
--- a/src/xmss-alt/hash.c
+++ b/src/xmss-alt/hash.c
@@ -10,6 +10,7 @@ This code was taken from the XMSS reference implementation by Andreas Hülsing a
 #include "fips202.h"
 #include "shasha.h"
 #include <cstdio>
+#include <vector>
 
 unsigned char *addr_to_byte(unsigned char *bytes, const uint32_t addr[8]) {
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
@@ -32,7 +33,15 @@ int core_hash(eHashFunction hash_func,
               unsigned long long inlen,
               unsigned int n) {
     unsigned long long i = 0;
-    unsigned char buf[inlen + n + keylen];
+    // Everything but h_msg is small; messages of any size must not go on the stack.
+    unsigned char small_buf[512];
+    std::vector<unsigned char> large_buf;
+    unsigned char *buf = small_buf;
+
+    if (inlen + n + keylen > sizeof(small_buf)) {
+        large_buf.resize(inlen + n + keylen);
+        buf = large_buf.data();
+    }
 
     // Input is (toByte(X, 32) || KEY || M)
 
-- 
2.43.0


From ed97431e777e1fed47c2007e5cb435555a82927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 06/13] fix: check the sizes of Kyber and Dilithium keys,
 ciphertexts and signed messages

Truncated public keys, ciphertexts and signed messages were handed to the
primitives, which read past the end of the vectors, and the extract helpers
built iterators beyond the end of a short blob.
---
 src/dilithium/dilithium.cpp | 26 +++++++++++++++++++++++++-
 src/kyber/kyber.cpp         | 14 ++++++++++++--
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/dilithium/dilithium.cpp b/src/dilithium/dilithium.cpp
index ade7d34..7e0bd8c 100644
--- a/src/dilithium/dilithium.cpp
+++ b/src/dilithium/dilithium.cpp
@@ -3,6 +3,7 @@
 
 #include <string>
 #include <vector>
+#include <stdexcept>
 #include <cstdint>
 #include "dilithium.h"
 
@@ -18,7 +19,15 @@ Dilithium::Dilithium(const std::vector<uint8_t> &pk, const std::vector<uint8_t>
     _pk(pk),
     _sk(sk)
 {
-    // TODO: Verify sizes - CRYPTO_SECRETKEYBYTES / CRYPTO_PUBLICKEYBYTES
+    if (pk.size()!=CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
+    if (sk.size()!=CRYPTO_SECRETKEYBYTES)
+    {
+        throw std::invalid_argument("sk. Invalid size");
+    }
 }
 
 std::vector<uint8_t> Dilithium::sign(const std::vector<uint8_t> &message)
@@ -44,6 +53,11 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
                           const std::vector<uint8_t> &message_signed,
                           const std::vector<uint8_t> &pk)
 {
+    if (pk.size()!=CRYPTO_PUBLICKEYBYTES || message_signed.size()<CRYPTO_BYTES)
+    {
+        return false;
+    }
+
     auto message_size = message_signed.size();
     message_output.resize(message_size);
 
@@ -60,10 +74,20 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
 
 std::vector<uint8_t> Dilithium::extract_message(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("Invalid size of signed message");
+    }
+
     return std::vector<uint8_t>(message_output.begin() + CRYPTO_BYTES, message_output.end());
 }
 
 std::vector<uint8_t> Dilithium::extract_signature(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size()<CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("Invalid size of signed message");
+    }
+
     return std::vector<uint8_t>(message_output.begin(), message_output.begin() + CRYPTO_BYTES);
 }
diff --git a/src/kyber/kyber.cpp b/src/kyber/kyber.cpp
index 5478ea2..fadabaf 100644
--- a/src/kyber/kyber.cpp
+++ b/src/kyber/kyber.cpp
@@ -34,7 +34,12 @@ Kyber::Kyber()
 
 bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 {
-    // TODO: Verify sizes (other_pk)
+    if (other_pk.size()!=KYBER_PUBLICKEYBYTES)
+    {
+        _key.clear();
+        _ct.clear();
+        return false;
+    }
 
     _key.resize(KYBER_SYMBYTES);
     _ct.resize(KYBER_CIPHERTEXTBYTES);
@@ -48,7 +53,12 @@ bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 
 bool Kyber::kem_decode(const std::vector<uint8_t> &cyphertext)
 {
-    // TODO: Verify sizes (other_pk)
+    if (cyphertext.size()!=KYBER_CIPHERTEXTBYTES)
+    {
+        _key.clear();
+        return false;
+    }
+
     _key.resize(KYBER_SYMBYTES);
 
     auto validation_error = crypto_kem_dec(_key.data(),
-- 
2.43.0


From 73ac4ab70cc53da4a15ebfde29bfc04b2956a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 07/13] fix: make the JavaScript Dilithium wrapper report
 failed verification

sign_open dropped the verification result, so a forged message looked like an
opened one, and extract_message combined iterators of two temporaries.
---
 src/jswrapper/jsdilwrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index 079d2a9..9256399 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -1,6 +1,7 @@
 #include <emscripten.h>
 #include <emscripten/bind.h>
 #include <iostream>
+#include <stdexcept>
 #include <dilithium.h>
 #include <misc.h>
 
@@ -59,14 +60,16 @@ namespace {
         { 
             std::vector<uint8_t> vec;
             vec.assign(message_output.begin(), message_output.end());
-            Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk));
+            if (!Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk)))
+            {
+                throw std::invalid_argument("signature verification failed");
+            }
             return bin2hstr(vec);
         }
 
         static std::string extract_message(const std::string& message_output)
         {
-            std::vector<uint8_t> vec;
-            vec.assign( hstr2bin(message_output).begin(), hstr2bin(message_output).end());
+            std::vector<uint8_t> vec = hstr2bin(message_output);
             return bin2hstr( Dilithium::extract_message( vec ) );
         }
 
-- 
2.43.0


From b714a2bfa85d8caf1e88378809aa2233743836f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 08/13] fix: refuse fractional and non-numeric sizes in the
 JavaScript getRandomSeed

A size such as 48.5 (or an array) passed the check and produced a vector whose
last elements did not come from the random source.
---
 src/jswrapper/getRandomSeed.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jswrapper/getRandomSeed.js b/src/jswrapper/getRandomSeed.js
index 7ba5c5a..2cff3d5 100644
--- a/src/jswrapper/getRandomSeed.js
+++ b/src/jswrapper/getRandomSeed.js
@@ -11,7 +11,7 @@ Module['getRandomSeed'] = function (size) {
     if (size === undefined) {
         size = 48;
     }
-    if (!(size > 0)) {
+    if (typeof size !== 'number' || !(size > 0) || Math.floor(size) !== size) {
         throw new Error('getRandomSeed: size must be a positive integer');
     }
 
-- 
2.43.0


From f0a91f2c05a0516e2b8be1b65aaffd4ced99ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 09/13] fix: absorb every block of long SHAKE inputs in Rust

---
 src/rust_wrapper/xmss_alt/fips202.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..4575df4 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From 7da176e67b61caa4f351987546d46cd1e9c7e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 10/13] fix: keep the Rust tree pool in step when a build dies

---
 src/rust_wrapper/qrl/xmss_pool.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/rust_wrapper/qrl/xmss_pool.rs b/src/rust_wrapper/qrl/xmss_pool.rs
index de83463..0cf53d8 100644
--- a/src/rust_wrapper/qrl/xmss_pool.rs
+++ b/src/rust_wrapper/qrl/xmss_pool.rs
@@ -72,17 +72,16 @@ impl XMSSPool {
             self.fill_cache();
             return answer;
         }
-        let r_result = self.cache.front().unwrap().recv();
+        let index = self.current_index;
+        let received = self.cache.pop_front().unwrap().recv();
         self.current_index += 1;
-        let next_tree = match r_result {
-            Ok(r) => {
-                self.cache.pop_front();
-                r?
-            }
-            Err(_) => self.prepare_tree(self.current_index)?,
+        let answer = match received {
+            Ok(tree) => tree,
+            // The build of this tree died without delivering it
+            Err(_) => self.prepare_tree(index),
         };
         self.fill_cache();
-        Ok(next_tree)
+        answer
     }
 
     pub fn is_available(&self) -> bool {
-- 
2.43.0


From 0a9c5b3f3b849f6ac73607a846c5da761dc22eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 11/13] fix: mnemonic2bin counted spaces instead of words

A mnemonic with an odd number of words was decoded (the last byte made of
half a word) when it contained an extra space, and a valid one was refused.
The Rust half counts words.
---
 src/qrl/misc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..98cfd82 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -8,6 +8,7 @@
 #include <iomanip>
 #include <PicoSHA2/picosha2.h>
 #include <iostream>
+#include <iterator>
 #include <unordered_map>
 #include <fstream>
 
@@ -86,7 +87,11 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
+    // Count words, not separators: words may be separated by any whitespace
+    std::istringstream words(mnemonic);
+    const auto word_count = std::distance(
+            std::istream_iterator<std::string>(words),
+            std::istream_iterator<std::string>());
     if (word_count%2!=0)
     {
         throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
-- 
2.43.0


From 89ba7152ec4437e18400a6f2146436108756daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 12/13] fix: take Rust Dilithium signed messages apart where
 they are joined

A signed message is the signature followed by the message, but the extract
helpers took the message from the front and the signature from the back, and
panicked on short input. Keys of wrong size panicked in new() instead of being
returned as its error.
---
 src/rust_wrapper/dilithium/dilithium.rs | 37 +++++++++++++------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/rust_wrapper/dilithium/dilithium.rs b/src/rust_wrapper/dilithium/dilithium.rs
index f9706c7..187b266 100644
--- a/src/rust_wrapper/dilithium/dilithium.rs
+++ b/src/rust_wrapper/dilithium/dilithium.rs
@@ -2,8 +2,7 @@
 // file LICENSE or http://www.opensource.org/licenses/mit-license.php.
 use pqcrypto_dilithium::dilithium5::*;
 use pqcrypto_traits::sign::{
-    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, SignedMessage as SignedMessageTrait,
-    VerificationError,
+    PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait, VerificationError,
 };
 use pqcrypto_traits::Error;
 
@@ -18,8 +17,8 @@ pub struct Dilithium {
 
 impl Dilithium {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let pk = PublicKey::from_bytes(pk_bytes)?;
+        let sk = SecretKey::from_bytes(sk_bytes)?;
         Ok(Self { pk, sk })
     }
 
@@ -53,24 +52,26 @@ impl Dilithium {
         open(message_signed, pk)
     }
 
+    // A signed message is the signature followed by the message
+    fn split_signed(message_output: &[u8]) -> Result<(&[u8], &[u8]), Error> {
+        if message_output.len() < CRYPTO_BYTES {
+            return Err(Error::BadLength {
+                name: "SignedMessage",
+                actual: message_output.len(),
+                expected: CRYPTO_BYTES,
+            });
+        }
+        Ok(message_output.split_at(CRYPTO_BYTES))
+    }
+
     pub fn extract_message(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get(0..(valid_message_output.len() - CRYPTO_BYTES as usize))
-                .unwrap(),
-        ))
+        let (_, message) = Self::split_signed(message_output)?;
+        Ok(message.to_vec())
     }
 
     pub fn extract_signature(message_output: &Vec<u8>) -> Result<Vec<u8>, Error> {
-        let valid_message_output = SignedMessage::from_bytes(message_output.as_slice())?;
-        Ok(Vec::from(
-            valid_message_output
-                .as_bytes()
-                .get((message_output.len() - CRYPTO_BYTES as usize)..(message_output.len()))
-                .unwrap(),
-        ))
+        let (signature, _) = Self::split_signed(message_output)?;
+        Ok(signature.to_vec())
     }
 }
 
-- 
2.43.0


From f1af60655ba1a5160c5c831dbc6a2c9ec591cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 13/13] fix: return an error for Rust Kyber keys of wrong size

new() returns a Result but panicked on key bytes of wrong size.
---
 src/rust_wrapper/kyber/kyber.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rust_wrapper/kyber/kyber.rs b/src/rust_wrapper/kyber/kyber.rs
index fc6e0eb..f685f8a 100644
--- a/src/rust_wrapper/kyber/kyber.rs
+++ b/src/rust_wrapper/kyber/kyber.rs
@@ -5,7 +5,7 @@ pub use pqcrypto_traits::kem::{
     Ciphertext as CiphertextTrait, PublicKey as PublicKeyTrait, SecretKey as SecretKeyTrait,
     SharedSecret as SharedSecretTrait,
 };
-use std::io::Error;
+use std::io::{Error, ErrorKind};
 
 pub const KYBER_PUBLICKEYBYTES: usize = public_key_bytes();
 pub const KYBER_SECRETKEYBYTES: usize = secret_key_bytes();
@@ -22,8 +22,9 @@ pub struct Kyber {
 
 impl Kyber {
     pub fn new(pk_bytes: &[u8], sk_bytes: &[u8]) -> Result<Self, Error> {
-        let pk = PublicKey::from_bytes(pk_bytes).unwrap();
-        let sk = SecretKey::from_bytes(sk_bytes).unwrap();
+        let invalid = |e: pqcrypto_traits::Error| Error::new(ErrorKind::InvalidInput, e.to_string());
+        let pk = PublicKey::from_bytes(pk_bytes).map_err(invalid)?;
+        let sk = SecretKey::from_bytes(sk_bytes).map_err(invalid)?;
         let (ss, ct) = encapsulate(&pk);
         Ok(Self { pk, sk, ss, ct })
     }
-- 
2.43.0

