From 9f0bb19f79a9b192013d7a45ff3d127be4b6b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 01/42] fix: decode QPACK prefix integers without consuming
 partial input or overflowing

---
 bnl/http3/src/codec/qpack/prefix_int/decode.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
index 9fa5498..7e6e4d3 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
@@ -26,7 +26,7 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
 {
   typename Sequence::lookahead_type lookahead(encoded);
 
-  uint64_t result = BNL_TRY(uint8_decode(encoded));
+  uint64_t result = BNL_TRY(uint8_decode(lookahead));
 
   uint8_t prefix_max = static_cast<uint8_t>((1U << prefix) - 1);
   result &= prefix_max;
@@ -35,8 +35,15 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
     uint64_t offset = 0;
     uint8_t byte = 0;
     do {
-      byte = BNL_TRY(uint8_decode(encoded));
-      result += (byte & 127U) * (1U << offset);
+      byte = BNL_TRY(uint8_decode(lookahead));
+
+      // Every 62-bit integer fits in 9 continuation bytes. Longer encodings
+      // could overflow `result`.
+      if (offset > 56) {
+        return error::qpack_decompression_failed;
+      }
+
+      result += static_cast<uint64_t>(byte & 127U) << offset;
       offset += 7;
     } while ((byte & 128U) == 128);
   }
-- 
2.43.0


From 2053717fd197bf90981ff6d93a77b8000843ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 02/42] fix: skip the length and payload of unknown frames when
 peeking

---
 bnl/http3/src/codec/frame/decode.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 7283b88..def4376 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -26,8 +26,17 @@ frame::peek(const Sequence &encoded) noexcept
       case frame::type::duplicate_push:
         return static_cast<frame::type>(type);
       default:
-        continue;
+        break;
     }
+
+    // Unknown frame => skip its payload as well.
+    uint64_t payload_encoded_size = BNL_TRY(varint::decode(lookahead));
+
+    if (payload_encoded_size > lookahead.size()) {
+      return error::incomplete;
+    }
+
+    lookahead.consume(static_cast<size_t>(payload_encoded_size));
   }
 
   assert(false);
-- 
2.43.0


From 264081892eaeaa91bb369f7e2d3b9143fb307418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 03/42] fix: reject push promise sizes that cannot be encoded

---
 bnl/http3/src/codec/frame/encode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bnl/http3/src/codec/frame/encode.cpp b/bnl/http3/src/codec/frame/encode.cpp
index 3ed034c..e66775e 100644
--- a/bnl/http3/src/codec/frame/encode.cpp
+++ b/bnl/http3/src/codec/frame/encode.cpp
@@ -53,6 +53,8 @@ payload_size(const frame &frame) noexcept
     case frame::type::push_promise: {
       uint64_t push_id = frame.push_promise.push_id;
       payload_size += BNL_TRY(varint::encoded_size(push_id));
+      // Make sure adding the header block size cannot wrap around.
+      BNL_TRY(varint::encoded_size(frame.push_promise.size));
       payload_size += frame.push_promise.size;
       break;
     }
-- 
2.43.0


From 15f7a741a1b6b3fb03ff3477c12d53e3cca9ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 04/42] fix: write the right byte of Huffman codes that end on
 a byte boundary

---
 bnl/http3/src/codec/qpack/huffman/encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/encode.cpp b/bnl/http3/src/codec/qpack/huffman/encode.cpp
index 332aecb..eddda1f 100644
--- a/bnl/http3/src/codec/qpack/huffman/encode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/encode.cpp
@@ -76,7 +76,7 @@ symbol_encode(uint8_t *dest, size_t *rem_bits, const encoding::symbol &symbol)
     }
 
     while (num_bits > 8) {
-      *dest = static_cast<uint8_t>(code >> (num_bits - (num_bits % 8)));
+      *dest = static_cast<uint8_t>(code >> (((num_bits - 1) / 8) * 8));
 
       dest++;
       num_bits -= 8;
-- 
2.43.0


From 2054cfd957c25891b19ab230e18009c4d06485a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 05/42] fix: decode empty Huffman encoded strings

---
 bnl/http3/src/codec/qpack/huffman/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/decode.cpp b/bnl/http3/src/codec/qpack/huffman/decode.cpp
index b7b5d32..cc04059 100644
--- a/bnl/http3/src/codec/qpack/huffman/decode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/decode.cpp
@@ -43,7 +43,7 @@ decoded_size(const Lookahead &encoded, size_t encoded_size) noexcept
 
   size_t decoded_size = 0;
   uint8_t state = 0;
-  bool accept = false;
+  bool accept = true;
 
   for (size_t i = 0; i < encoded_size; i++) {
     const decoding::node &first = decoding::table[state][encoded[i] >> 4U];
-- 
2.43.0


From 717b1fa24fe889ad89e35fd68f8f1dceccaf3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 06/42] fix: accept indexed QPACK headers whose static table
 value is empty

---
 .../src/codec/qpack/decode_generated.cpp      | 42 +++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  6 +--
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode_generated.cpp b/bnl/http3/src/codec/qpack/decode_generated.cpp
index 2e74ee8..8147402 100644
--- a/bnl/http3/src/codec/qpack/decode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/decode_generated.cpp
@@ -40,6 +40,8 @@ std::pair<bool, header>
 find_header_value(uint8_t index)
 {
   switch (index) {
+    case 0:
+      return { true, { ":authority", "" } };
     case 15:
       return { true, { ":method", "CONNECT" } };
     case 16:
@@ -94,6 +96,8 @@ find_header_value(uint8_t index)
       return { true, { "accept", "application/dns-message" } };
     case 31:
       return { true, { "accept-encoding", "gzip, deflate, br" } };
+    case 72:
+      return { true, { "accept-language", "" } };
     case 32:
       return { true, { "accept-ranges", "bytes" } };
     case 73:
@@ -126,6 +130,8 @@ find_header_value(uint8_t index)
       return { true, { "age", "0" } };
     case 83:
       return { true, { "alt-svc", "clear" } };
+    case 84:
+      return { true, { "authorization", "" } };
     case 36:
       return { true, { "cache-control", "max-age=0" } };
     case 37:
@@ -138,6 +144,8 @@ find_header_value(uint8_t index)
       return { true, { "cache-control", "no-store" } };
     case 41:
       return { true, { "cache-control", "public, max-age=31536000" } };
+    case 3:
+      return { true, { "content-disposition", "" } };
     case 42:
       return { true, { "content-encoding", "br" } };
     case 43:
@@ -170,12 +178,42 @@ find_header_value(uint8_t index)
       return { true, { "content-type", "text/plain" } };
     case 54:
       return { true, { "content-type", "text/plain;charset=utf-8" } };
+    case 5:
+      return { true, { "cookie", "" } };
+    case 6:
+      return { true, { "date", "" } };
     case 86:
       return { true, { "early-data", "1" } };
+    case 7:
+      return { true, { "etag", "" } };
+    case 87:
+      return { true, { "expect-ct", "" } };
+    case 88:
+      return { true, { "forwarded", "" } };
+    case 8:
+      return { true, { "if-modified-since", "" } };
+    case 9:
+      return { true, { "if-none-match", "" } };
+    case 89:
+      return { true, { "if-range", "" } };
+    case 10:
+      return { true, { "last-modified", "" } };
+    case 11:
+      return { true, { "link", "" } };
+    case 12:
+      return { true, { "location", "" } };
+    case 90:
+      return { true, { "origin", "" } };
     case 91:
       return { true, { "purpose", "prefetch" } };
     case 55:
       return { true, { "range", "bytes=0-" } };
+    case 13:
+      return { true, { "referer", "" } };
+    case 92:
+      return { true, { "server", "" } };
+    case 14:
+      return { true, { "set-cookie", "" } };
     case 56:
       return { true, { "strict-transport-security", "max-age=31536000" } };
     case 57:
@@ -190,12 +228,16 @@ find_header_value(uint8_t index)
       return { true, { "timing-allow-origin", "*" } };
     case 94:
       return { true, { "upgrade-insecure-requests", "1" } };
+    case 95:
+      return { true, { "user-agent", "" } };
     case 59:
       return { true, { "vary", "accept-encoding" } };
     case 60:
       return { true, { "vary", "origin" } };
     case 61:
       return { true, { "x-content-type-options", "nosniff" } };
+    case 96:
+      return { true, { "x-forwarded-for", "" } };
     case 97:
       return { true, { "x-frame-options", "deny" } };
     case 98:
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index acc06d3..1c4e2ad 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -223,9 +223,9 @@ case {0}:
 cases = ""
 
 for entry in static_table:
-    if len(entry) > 2:
-        values = str.join(" ", entry[2:])
-        cases += header_value_case_template.format(entry[0], entry[1], values)
+    # Entries without a value are indexed as headers with an empty value.
+    values = str.join(" ", entry[2:])
+    cases += header_value_case_template.format(entry[0], entry[1], values)
 
 find_header_value = find_header_value_template.format(cases)
 
-- 
2.43.0


From 9aed89373d302e130e28bc304b97e0a0fdc492e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 07/42] fix: do not truncate QPACK static table indices

---
 bnl/http3/src/codec/qpack/decode.cpp           | 6 ++----
 bnl/http3/src/codec/qpack/decode_generated.cpp | 4 ++--
 bnl/http3/tools/generate_qpack.py              | 4 ++--
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index c01bf84..214666d 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -47,8 +47,7 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 6)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 6));
 
       bool found = false;
       std::tie(found, header) = table::fixed::find_header_value(index);
@@ -68,8 +67,7 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 4)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 4));
 
       bool found = false;
       base::string name;
diff --git a/bnl/http3/src/codec/qpack/decode_generated.cpp b/bnl/http3/src/codec/qpack/decode_generated.cpp
index 8147402..e8af30d 100644
--- a/bnl/http3/src/codec/qpack/decode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/decode_generated.cpp
@@ -37,7 +37,7 @@ find_type(uint8_t byte)
 }
 
 std::pair<bool, header>
-find_header_value(uint8_t index)
+find_header_value(uint64_t index)
 {
   switch (index) {
     case 0:
@@ -250,7 +250,7 @@ find_header_value(uint8_t index)
 }
 
 std::pair<bool, base::string>
-find_header_only(uint8_t index)
+find_header_only(uint64_t index)
 {
   switch (index) {
     case 0:
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index 1c4e2ad..39aac9c 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -205,7 +205,7 @@ file.write(encode_generated)
 file.close()
 
 find_header_value_template = """\
-std::pair<bool, header> find_header_value(uint8_t index)
+std::pair<bool, header> find_header_value(uint64_t index)
 {{
   switch(index) {{
     {}
@@ -230,7 +230,7 @@ for entry in static_table:
 find_header_value = find_header_value_template.format(cases)
 
 find_header_only_template = """\
-std::pair<bool, base::string> find_header_only(uint8_t index)
+std::pair<bool, base::string> find_header_only(uint64_t index)
 {{
   switch(index) {{
     {}
-- 
2.43.0


From b16feaf00cf542f6ebdedc3af353935d88c00d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 08/42] fix: compare strings after a QPACK static table hash
 match

---
 .../src/codec/qpack/encode_generated.cpp      | 391 ++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  25 +-
 2 files changed, 409 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode_generated.cpp b/bnl/http3/src/codec/qpack/encode_generated.cpp
index 5521d1a..bd47db0 100644
--- a/bnl/http3/src/codec/qpack/encode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/encode_generated.cpp
@@ -21,357 +21,748 @@ find_index(header_view header)
 
   switch (name_hash) {
     case 16895098521482341206U: // :authority
+      if (header.name() != ":authority") {
+        break;
+      }
       return { type::header_only, uint8_t(0) };
     case 11800921616074793521U: // :method
+      if (header.name() != ":method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 1969084168692057419U: // CONNECT
+          if (header.value() != "CONNECT") {
+            break;
+          }
           return { type::header_value, uint8_t(15) };
         case 3416820684017772195U: // DELETE
+          if (header.value() != "DELETE") {
+            break;
+          }
           return { type::header_value, uint8_t(16) };
         case 3137017853320178759U: // GET
+          if (header.value() != "GET") {
+            break;
+          }
           return { type::header_value, uint8_t(17) };
         case 5077457392360958184U: // HEAD
+          if (header.value() != "HEAD") {
+            break;
+          }
           return { type::header_value, uint8_t(18) };
         case 13449464674369688059U: // OPTIONS
+          if (header.value() != "OPTIONS") {
+            break;
+          }
           return { type::header_value, uint8_t(19) };
         case 1393561109570896241U: // POST
+          if (header.value() != "POST") {
+            break;
+          }
           return { type::header_value, uint8_t(20) };
         case 8278045464579020327U: // PUT
+          if (header.value() != "PUT") {
+            break;
+          }
           return { type::header_value, uint8_t(21) };
       }
       return { type::header_only, uint8_t(15) };
     case 1432527143127418564U: // :path
+      if (header.name() != ":path") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 16761507700594825962U: // /
+          if (header.value() != "/") {
+            break;
+          }
           return { type::header_value, uint8_t(1) };
       }
       return { type::header_only, uint8_t(1) };
     case 16734001141632695329U: // :scheme
+      if (header.name() != ":scheme") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13730016396111666430U: // http
+          if (header.value() != "http") {
+            break;
+          }
           return { type::header_value, uint8_t(22) };
         case 10742537861312705840U: // https
+          if (header.value() != "https") {
+            break;
+          }
           return { type::header_value, uint8_t(23) };
       }
       return { type::header_only, uint8_t(22) };
     case 11145724770861396798U: // :status
+      if (header.name() != ":status") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2891813017576360282U: // 103
+          if (header.value() != "103") {
+            break;
+          }
           return { type::header_value, uint8_t(24) };
         case 2685111111418367100U: // 200
+          if (header.value() != "200") {
+            break;
+          }
           return { type::header_value, uint8_t(25) };
         case 2860949800888200221U: // 304
+          if (header.value() != "304") {
+            break;
+          }
           return { type::header_value, uint8_t(26) };
         case 5957985645556640011U: // 404
+          if (header.value() != "404") {
+            break;
+          }
           return { type::header_value, uint8_t(27) };
         case 12373623763172808772U: // 503
+          if (header.value() != "503") {
+            break;
+          }
           return { type::header_value, uint8_t(28) };
         case 6146904730557115430U: // 100
+          if (header.value() != "100") {
+            break;
+          }
           return { type::header_value, uint8_t(63) };
         case 11759795502426644276U: // 204
+          if (header.value() != "204") {
+            break;
+          }
           return { type::header_value, uint8_t(64) };
         case 17033585193496081404U: // 206
+          if (header.value() != "206") {
+            break;
+          }
           return { type::header_value, uint8_t(65) };
         case 1337354901647857481U: // 302
+          if (header.value() != "302") {
+            break;
+          }
           return { type::header_value, uint8_t(66) };
         case 11111781720710347155U: // 400
+          if (header.value() != "400") {
+            break;
+          }
           return { type::header_value, uint8_t(67) };
         case 14993518005534636743U: // 403
+          if (header.value() != "403") {
+            break;
+          }
           return { type::header_value, uint8_t(68) };
         case 1128097706726417269U: // 421
+          if (header.value() != "421") {
+            break;
+          }
           return { type::header_value, uint8_t(69) };
         case 17924379407345689140U: // 425
+          if (header.value() != "425") {
+            break;
+          }
           return { type::header_value, uint8_t(70) };
         case 12667669577372699657U: // 500
+          if (header.value() != "500") {
+            break;
+          }
           return { type::header_value, uint8_t(71) };
       }
       return { type::header_only, uint8_t(24) };
     case 14776963886974432617U: // accept
+      if (header.name() != "accept") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 285960807216420690U: // */*
+          if (header.value() != "*/*") {
+            break;
+          }
           return { type::header_value, uint8_t(29) };
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(30) };
       }
       return { type::header_only, uint8_t(29) };
     case 14455144075924042224U: // accept-encoding
+      if (header.name() != "accept-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9032900040511447184U: // gzip, deflate, br
+          if (header.value() != "gzip, deflate, br") {
+            break;
+          }
           return { type::header_value, uint8_t(31) };
       }
       return { type::header_only, uint8_t(31) };
     case 12586352021634702904U: // accept-language
+      if (header.name() != "accept-language") {
+        break;
+      }
       return { type::header_only, uint8_t(72) };
     case 14590555536192441974U: // accept-ranges
+      if (header.name() != "accept-ranges") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3279652670845457604U: // bytes
+          if (header.value() != "bytes") {
+            break;
+          }
           return { type::header_value, uint8_t(32) };
       }
       return { type::header_only, uint8_t(32) };
     case 5881923794129529227U: // access-control-allow-credentials
+      if (header.name() != "access-control-allow-credentials") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13702020392090633634U: // FALSE
+          if (header.value() != "FALSE") {
+            break;
+          }
           return { type::header_value, uint8_t(73) };
         case 13992295306875567947U: // TRUE
+          if (header.value() != "TRUE") {
+            break;
+          }
           return { type::header_value, uint8_t(74) };
       }
       return { type::header_only, uint8_t(73) };
     case 3800686319607884068U: // access-control-allow-headers
+      if (header.name() != "access-control-allow-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6792126209451122079U: // cache-control
+          if (header.value() != "cache-control") {
+            break;
+          }
           return { type::header_value, uint8_t(33) };
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(34) };
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(75) };
       }
       return { type::header_only, uint8_t(33) };
     case 10756748986426057606U: // access-control-allow-methods
+      if (header.name() != "access-control-allow-methods") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(76) };
         case 13368036589511723433U: // get, post, options
+          if (header.value() != "get, post, options") {
+            break;
+          }
           return { type::header_value, uint8_t(77) };
         case 16398749137410613924U: // options
+          if (header.value() != "options") {
+            break;
+          }
           return { type::header_value, uint8_t(78) };
       }
       return { type::header_only, uint8_t(76) };
     case 9436417403599124064U: // access-control-allow-origin
+      if (header.name() != "access-control-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(35) };
       }
       return { type::header_only, uint8_t(35) };
     case 6796384088407939286U: // access-control-expose-headers
+      if (header.name() != "access-control-expose-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 17031230962583399322U: // content-length
+          if (header.value() != "content-length") {
+            break;
+          }
           return { type::header_value, uint8_t(79) };
       }
       return { type::header_only, uint8_t(79) };
     case 4242818872217734295U: // access-control-request-headers
+      if (header.name() != "access-control-request-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(80) };
       }
       return { type::header_only, uint8_t(80) };
     case 14051338931492133901U: // access-control-request-method
+      if (header.name() != "access-control-request-method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(81) };
         case 3178169103122520677U: // post
+          if (header.value() != "post") {
+            break;
+          }
           return { type::header_value, uint8_t(82) };
       }
       return { type::header_only, uint8_t(81) };
     case 5092756294692198100U: // age
+      if (header.name() != "age") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(2) };
       }
       return { type::header_only, uint8_t(2) };
     case 12092656254601729054U: // alt-svc
+      if (header.name() != "alt-svc") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9623284816163994036U: // clear
+          if (header.value() != "clear") {
+            break;
+          }
           return { type::header_value, uint8_t(83) };
       }
       return { type::header_only, uint8_t(83) };
     case 8846816503791876372U: // authorization
+      if (header.name() != "authorization") {
+        break;
+      }
       return { type::header_only, uint8_t(84) };
     case 6792126209451122079U: // cache-control
+      if (header.name() != "cache-control") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 10032073942971583664U: // max-age=0
+          if (header.value() != "max-age=0") {
+            break;
+          }
           return { type::header_value, uint8_t(36) };
         case 3044507098168884424U: // max-age=2592000
+          if (header.value() != "max-age=2592000") {
+            break;
+          }
           return { type::header_value, uint8_t(37) };
         case 441477139842840241U: // max-age=604800
+          if (header.value() != "max-age=604800") {
+            break;
+          }
           return { type::header_value, uint8_t(38) };
         case 8897988708233174624U: // no-cache
+          if (header.value() != "no-cache") {
+            break;
+          }
           return { type::header_value, uint8_t(39) };
         case 3660001317594812985U: // no-store
+          if (header.value() != "no-store") {
+            break;
+          }
           return { type::header_value, uint8_t(40) };
         case 9509473917879564042U: // public, max-age=31536000
+          if (header.value() != "public, max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(41) };
       }
       return { type::header_only, uint8_t(36) };
     case 17156266451297603303U: // content-disposition
+      if (header.name() != "content-disposition") {
+        break;
+      }
       return { type::header_only, uint8_t(3) };
     case 11860813331948357247U: // content-encoding
+      if (header.name() != "content-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 12202383188974104177U: // br
+          if (header.value() != "br") {
+            break;
+          }
           return { type::header_value, uint8_t(42) };
         case 12621183860903199653U: // gzip
+          if (header.value() != "gzip") {
+            break;
+          }
           return { type::header_value, uint8_t(43) };
       }
       return { type::header_only, uint8_t(42) };
     case 17031230962583399322U: // content-length
+      if (header.name() != "content-length") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(4) };
       }
       return { type::header_only, uint8_t(4) };
     case 18043880115709070015U: // content-security-policy
+      if (header.name() != "content-security-policy") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 165232284275397264U: // script-src 'none'; object-src 'none';
                                   // base-uri 'none'
+          if (header.value() !=
+              "script-src 'none'; object-src 'none'; base-uri 'none'") {
+            break;
+          }
           return { type::header_value, uint8_t(85) };
       }
       return { type::header_only, uint8_t(85) };
     case 3910122139284074053U: // content-type
+      if (header.name() != "content-type") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(44) };
         case 9423039217905102597U: // application/javascript
+          if (header.value() != "application/javascript") {
+            break;
+          }
           return { type::header_value, uint8_t(45) };
         case 116355269824119741U: // application/json
+          if (header.value() != "application/json") {
+            break;
+          }
           return { type::header_value, uint8_t(46) };
         case 15711274223642436716U: // application/x-www-form-urlencoded
+          if (header.value() != "application/x-www-form-urlencoded") {
+            break;
+          }
           return { type::header_value, uint8_t(47) };
         case 12727226202374957143U: // image/gif
+          if (header.value() != "image/gif") {
+            break;
+          }
           return { type::header_value, uint8_t(48) };
         case 12200045138720289141U: // image/jpeg
+          if (header.value() != "image/jpeg") {
+            break;
+          }
           return { type::header_value, uint8_t(49) };
         case 12092489581388341001U: // image/png
+          if (header.value() != "image/png") {
+            break;
+          }
           return { type::header_value, uint8_t(50) };
         case 6791077934204364231U: // text/css
+          if (header.value() != "text/css") {
+            break;
+          }
           return { type::header_value, uint8_t(51) };
         case 8886412932112875563U: // text/html; charset=utf-8
+          if (header.value() != "text/html; charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(52) };
         case 16588200704567877914U: // text/plain
+          if (header.value() != "text/plain") {
+            break;
+          }
           return { type::header_value, uint8_t(53) };
         case 9119350762400467667U: // text/plain;charset=utf-8
+          if (header.value() != "text/plain;charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(54) };
       }
       return { type::header_only, uint8_t(44) };
     case 905780767293800022U: // cookie
+      if (header.name() != "cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(5) };
     case 9202271988582577219U: // date
+      if (header.name() != "date") {
+        break;
+      }
       return { type::header_only, uint8_t(6) };
     case 12326157660028381149U: // early-data
+      if (header.name() != "early-data") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(86) };
       }
       return { type::header_only, uint8_t(86) };
     case 6439525432329186999U: // etag
+      if (header.name() != "etag") {
+        break;
+      }
       return { type::header_only, uint8_t(7) };
     case 9568944059520352163U: // expect-ct
+      if (header.name() != "expect-ct") {
+        break;
+      }
       return { type::header_only, uint8_t(87) };
     case 5644212460638603090U: // forwarded
+      if (header.name() != "forwarded") {
+        break;
+      }
       return { type::header_only, uint8_t(88) };
     case 12678664253902784264U: // if-modified-since
+      if (header.name() != "if-modified-since") {
+        break;
+      }
       return { type::header_only, uint8_t(8) };
     case 8836338662272140136U: // if-none-match
+      if (header.name() != "if-none-match") {
+        break;
+      }
       return { type::header_only, uint8_t(9) };
     case 10086758965902305572U: // if-range
+      if (header.name() != "if-range") {
+        break;
+      }
       return { type::header_only, uint8_t(89) };
     case 5803729767262815818U: // last-modified
+      if (header.name() != "last-modified") {
+        break;
+      }
       return { type::header_only, uint8_t(10) };
     case 17841021884467483934U: // link
+      if (header.name() != "link") {
+        break;
+      }
       return { type::header_only, uint8_t(11) };
     case 14592406158319853782U: // location
+      if (header.name() != "location") {
+        break;
+      }
       return { type::header_only, uint8_t(12) };
     case 7034821444952201446U: // origin
+      if (header.name() != "origin") {
+        break;
+      }
       return { type::header_only, uint8_t(90) };
     case 4274379369960325767U: // purpose
+      if (header.name() != "purpose") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 15048569516378897441U: // prefetch
+          if (header.value() != "prefetch") {
+            break;
+          }
           return { type::header_value, uint8_t(91) };
       }
       return { type::header_only, uint8_t(91) };
     case 12715602975004390753U: // range
+      if (header.name() != "range") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6181996873389341388U: // bytes=0-
+          if (header.value() != "bytes=0-") {
+            break;
+          }
           return { type::header_value, uint8_t(55) };
       }
       return { type::header_only, uint8_t(55) };
     case 14154313121195327909U: // referer
+      if (header.name() != "referer") {
+        break;
+      }
       return { type::header_only, uint8_t(13) };
     case 16290507850670895904U: // server
+      if (header.name() != "server") {
+        break;
+      }
       return { type::header_only, uint8_t(92) };
     case 666465872145128107U: // set-cookie
+      if (header.name() != "set-cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(14) };
     case 4179674550753269761U: // strict-transport-security
+      if (header.name() != "strict-transport-security") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13034728143243030830U: // max-age=31536000
+          if (header.value() != "max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(56) };
         case 11632417432576482556U: // max-age=31536000; includesubdomains
+          if (header.value() != "max-age=31536000; includesubdomains") {
+            break;
+          }
           return { type::header_value, uint8_t(57) };
         case 16736049223785386895U: // max-age=31536000; includesubdomains;
                                     // preload
+          if (header.value() != "max-age=31536000; includesubdomains; preload") {
+            break;
+          }
           return { type::header_value, uint8_t(58) };
       }
       return { type::header_only, uint8_t(56) };
     case 5374862646944647126U: // timing-allow-origin
+      if (header.name() != "timing-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(93) };
       }
       return { type::header_only, uint8_t(93) };
     case 18069291607417813553U: // upgrade-insecure-requests
+      if (header.name() != "upgrade-insecure-requests") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(94) };
       }
       return { type::header_only, uint8_t(94) };
     case 16625730634708209664U: // user-agent
+      if (header.name() != "user-agent") {
+        break;
+      }
       return { type::header_only, uint8_t(95) };
     case 8816542506507529547U: // vary
+      if (header.name() != "vary") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 14455144075924042224U: // accept-encoding
+          if (header.value() != "accept-encoding") {
+            break;
+          }
           return { type::header_value, uint8_t(59) };
         case 7034821444952201446U: // origin
+          if (header.value() != "origin") {
+            break;
+          }
           return { type::header_value, uint8_t(60) };
       }
       return { type::header_only, uint8_t(59) };
     case 6196956168349306122U: // x-content-type-options
+      if (header.name() != "x-content-type-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 4306527442339074562U: // nosniff
+          if (header.value() != "nosniff") {
+            break;
+          }
           return { type::header_value, uint8_t(61) };
       }
       return { type::header_only, uint8_t(61) };
     case 1042837635865018085U: // x-forwarded-for
+      if (header.name() != "x-forwarded-for") {
+        break;
+      }
       return { type::header_only, uint8_t(96) };
     case 8598773544412918900U: // x-frame-options
+      if (header.name() != "x-frame-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6492545016868164575U: // deny
+          if (header.value() != "deny") {
+            break;
+          }
           return { type::header_value, uint8_t(97) };
         case 13303836962186157521U: // sameorigin
+          if (header.value() != "sameorigin") {
+            break;
+          }
           return { type::header_value, uint8_t(98) };
       }
       return { type::header_only, uint8_t(97) };
     case 15732293358711069708U: // x-xss-protection
+      if (header.name() != "x-xss-protection") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7412498726110841680U: // 1; mode=block
+          if (header.value() != "1; mode=block") {
+            break;
+          }
           return { type::header_value, uint8_t(62) };
       }
       return { type::header_only, uint8_t(62) };
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index 39aac9c..b762aec 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -125,23 +125,34 @@ static std::pair<type, uint8_t> find_index(header_view header)
 }}\
 """
 
+# Different strings can have the same hash so we also compare the strings.
+
 no_values_template = """\
-case {}U: // {}
-  return {{ type::header_only, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_only, uint8_t({2}) }};\
 """
 
 values_template = """\
-case {}U: // {}
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
   value_hash = XXH64(header.value().data(), header.value().size(), 0);
   switch(value_hash) {{
-    {}
+    {2}
   }}
-  return {{ type::header_only, uint8_t({}) }};\
+  return {{ type::header_only, uint8_t({3}) }};\
 """
 
 value_template = """\
-case {}U: // {}
-  return {{ type::header_value, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.value() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_value, uint8_t({2}) }};\
 """
 
 static_table = [line.split() for line in static_table_raw.splitlines()]
-- 
2.43.0


From 96bfcc5d771a7c4bba681e7acd82bf8a432ab733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 09/42] fix: slice zero bytes from an empty buffer chain

---
 bnl/base/src/base/buffers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/base/src/base/buffers.cpp b/bnl/base/src/base/buffers.cpp
index fc1d2f4..0105d03 100644
--- a/bnl/base/src/base/buffers.cpp
+++ b/bnl/base/src/base/buffers.cpp
@@ -59,6 +59,10 @@ buffers::slice(size_t size)
 {
   assert(size <= this->size());
 
+  if (size == 0) {
+    return buffer();
+  }
+
   auto begin = find_first_not_empty(buffers_);
   assert(begin != buffers_.end());
 
-- 
2.43.0


From 4435a0a63412308605e8c6a224ce84b7b28df24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 10/42] fix: initialise the first byte of encoded QPACK
 literals

---
 bnl/http3/src/codec/qpack/literal/encode.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/literal/encode.cpp b/bnl/http3/src/codec/qpack/literal/encode.cpp
index e2fbc2f..3d3a737 100644
--- a/bnl/http3/src/codec/qpack/literal/encode.cpp
+++ b/bnl/http3/src/codec/qpack/literal/encode.cpp
@@ -48,6 +48,9 @@ encode(base::string_view literal, uint8_t prefix)
   size_t encoded_size = literal::encoded_size(literal, prefix);
   base::buffer encoded(encoded_size);
 
+  // `encode` keeps the bits of the first byte that are not part of the literal.
+  *encoded.data() = 0;
+
   encode(encoded.data(), literal, prefix);
 
   return encoded;
-- 
2.43.0


From 6841b45ac44bc7cbab61fd304a8a545642dd3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 11/42] fix: refuse to start a message without headers

---
 bnl/http3/src/codec/headers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 4176342..829131e 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -20,7 +20,8 @@ encoder::add(header_view header)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ != state::idle) {
+  // A HEADERS frame carries at least one header.
+  if (state_ != state::idle || buffers_.empty()) {
     return error::internal;
   }
 
-- 
2.43.0


From 3adb39e6286a822db09a2dcbec96bf1abb2dd8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 12/42] fix: send FIN when a message is finished after all of
 its data was sent

---
 bnl/http3/src/endpoint/stream/request.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48e1b74..729f770 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -77,6 +77,12 @@ sender::send() noexcept
     }
 
     case state::body: {
+      // All body data was sent before the body was finished.
+      if (body_.finished()) {
+        state_ = state::fin;
+        return quic::data{ id_, true, base::buffer() };
+      }
+
       base::buffer encoded = BNL_TRY(body_.encode());
 
       if (body_.finished()) {
-- 
2.43.0


From 1246fa9fb5f17fb2a0434794647eb8593f2fe94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 13/42] fix: detach the handle or stream that a handle
 operation replaces

---
 bnl/http3/src/endpoint/stream/request.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 729f770..47dcd10 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -30,6 +30,10 @@ sender &
 sender::operator=(sender &&other) noexcept
 {
   if (&other != this) {
+    if (handle_ != nullptr) {
+      handle_->sender_ = nullptr;
+    }
+
     handle_ = other.handle_;
     state_ = other.state_;
     headers_ = std::move(other.headers_);
@@ -128,6 +132,10 @@ sender::handle::handle(sender *sender)
   : id_(sender->id_)
   , sender_(sender)
 {
+  if (sender_->handle_ != nullptr) {
+    sender_->handle_->sender_ = nullptr;
+  }
+
   sender_->handle_ = this;
 }
 
@@ -141,6 +149,10 @@ sender::handle &
 sender::handle::operator=(sender::handle &&other) noexcept
 {
   if (&other != this) {
+    if (sender_ != nullptr) {
+      sender_->handle_ = nullptr;
+    }
+
     id_ = other.id_;
     sender_ = other.sender_;
     other.id_ = UINT64_MAX;
-- 
2.43.0


From bf6d1b0c4595338448db5076c5fea4fe888de667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 14/42] fix: refuse control streams of another type instead of
 asserting

---
 bnl/http3/src/endpoint/stream/control.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index c204910..2702a5c 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -69,8 +69,10 @@ receiver::process() noexcept
     // the control stream until we've decoded the type.
     case state::type: {
       uint64_t type = BNL_TRY(varint::decode(buffers_));
-      (void) type; // Silence GCC 9 Wunused-variable warning
-      assert(type == control::type);
+      if (type != control::type) {
+        return error::wrong_stream;
+      }
+
       state_ = state::settings;
     }
     /* FALLTHRU */
-- 
2.43.0


From c322d12b579b7c9e14aa87cc83dcb743bd66270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 15/42] fix: decode empty DATA frames at the end of the
 received data

---
 bnl/http3/src/codec/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index 347b1df..6214509 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -98,7 +98,7 @@ decoder::decode(Sequence &encoded)
     }
     /* FALLTHRU */
     case state::data: {
-      if (encoded.empty()) {
+      if (encoded.empty() && remaining_ != 0) {
         return error::incomplete;
       }
 
-- 
2.43.0


From ce0997278ce4f6d87f729e3c90b77b6b7f91dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 16/42] fix: finish messages whose FIN or last unknown frames
 follow the body

---
 bnl/http3/src/endpoint/stream/request.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 47dcd10..e381962 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -323,6 +323,16 @@ receiver::process() noexcept
   };
 
   if (error == error::incomplete && fin_received_) {
+    if (state_ == receiver::state::body && !body_.in_progress()) {
+      // Skip unknown frames after the last DATA frame.
+      (void) frame::decode(buffers_);
+
+      if (buffers_.empty()) {
+        state_ = state::fin;
+        return event::payload::body{ id_, true, base::buffer() };
+      }
+    }
+
     return error::malformed_frame;
   }
 
-- 
2.43.0


From 4b196831ecde138d4639ac94bb86a9862dacaaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 17/42] fix: report frames truncated by the end of a request
 stream as malformed

---
 bnl/http3/src/endpoint/stream/request.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index e381962..e20ffa3 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -337,7 +337,13 @@ receiver::process() noexcept
   }
 
   if (error == error::delegate) {
-    frame frame = BNL_TRY(frame::decode(buffers_));
+    result<http3::frame> r = frame::decode(buffers_);
+    if (!r) {
+      bool truncated = r.error() == error::incomplete && fin_received_;
+      return truncated ? error::malformed_frame : r.error();
+    }
+
+    frame frame = r.value();
 
     switch (frame) {
       case frame::type::headers:
-- 
2.43.0


From a626cb121f7ce0309b01f5e847728bc8e741c2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 18/42] fix: keep answered requests until all of the request is
 received

---
 bnl/http3/src/server/connection.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index d25cf9d..8a2e65a 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -30,7 +30,8 @@ connection::send() noexcept
 
     result<quic::event> r = request.send();
     if (r) {
-      if (request.finished()) {
+      // The rest of the request may still have to be received.
+      if (request.finished() && entry.second.second.finished()) {
         requests_.erase(id);
       }
 
@@ -105,9 +106,21 @@ connection::process(uint64_t id)
     return event;
   }
 
-  server::stream::request::receiver &request = requests_.at(id).second;
+  auto match = requests_.find(id);
+  if (match == requests_.end()) {
+    // Requests are only erased when they've been received and answered.
+    return event::payload::finished{ id };
+  }
+
+  server::stream::request::receiver &request = match->second.second;
+
+  event event = BNL_TRY(request.process());
+
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
+  }
 
-  return request.process();
+  return event;
 }
 
 result<response::handle>
-- 
2.43.0


From 8e3ba304cef30c5decf00d056bf480035a5bd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 19/42] fix: ignore unidirectional streams other than the
 control stream on servers

---
 bnl/http3/src/server/connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index 8a2e65a..dddba27 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -71,6 +71,11 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  // TODO: Actually handle unidirectional streams.
+  if ((data.id & 0x2U) != 0) {
+    return base::success();
+  }
+
   auto match = requests_.find(data.id);
   if (match == requests_.end()) {
     server::stream::request::sender sender(data.id);
@@ -106,6 +111,11 @@ connection::process(uint64_t id)
     return event;
   }
 
+  // TODO: Actually handle unidirectional streams.
+  if ((id & 0x2U) != 0) {
+    return error::incomplete;
+  }
+
   auto match = requests_.find(id);
   if (match == requests_.end()) {
     // Requests are only erased when they've been received and answered.
-- 
2.43.0


From 7eb30debdd8610187739fcc0d8112b7761f4f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 20/42] fix: encode HKDF output lengths in base 256

---
 bnl/quic/src/crypto.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto.cpp b/bnl/quic/src/crypto.cpp
index 6cf924a..2f48135 100644
--- a/bnl/quic/src/crypto.cpp
+++ b/bnl/quic/src/crypto.cpp
@@ -155,8 +155,8 @@ crypto::hkdf_expand_label(base::buffer_view secret,
   // HkdfLabel
 
   // length (uint16_t)
-  *it++ = static_cast<uint8_t>(size / UINT8_MAX); // MSB
-  *it++ = static_cast<uint8_t>(size % UINT8_MAX); // LSB
+  *it++ = static_cast<uint8_t>(size >> 8U); // MSB
+  *it++ = static_cast<uint8_t>(size & 0xffU); // LSB
 
   // "tls 13 " + Label
   static const base::buffer_view LABEL = "tls13 ";
-- 
2.43.0


From cd5a8fd68cc739918e06c48cb61c0486393b70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 21/42] fix: derive the ChaCha20 header protection mask from
 zero bytes

---
 bnl/quic/src/crypto/boringssl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index 0531ec5..0cb823e 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -196,9 +196,12 @@ crypto::hp_mask(base::buffer_view_mut dest,
       nonce[1] = uint32_LE(sample.data() + 8);
       nonce[2] = uint32_LE(sample.data() + 12);
 
+      // The mask is the first 5 bytes of the key stream.
+      static const uint8_t ZERO[5] = {};
+
       CRYPTO_chacha_20(dest.data(),
-                       sample.data(),
-                       sample.size(),
+                       ZERO,
+                       sizeof(ZERO),
                        key.data(),
                        reinterpret_cast<uint8_t *>(nonce),
                        counter);
-- 
2.43.0


From 31d36c648607dde636450eaf663cdee974f02550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 22/42] fix: give ngtcp2 the peer's address as the remote end
 of the path

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8661b7b..b2c3e67 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -61,7 +61,7 @@ static ngtcp2_path_storage
 make_path(const path &path)
 {
   base::buffer_view local = path.local().address().bytes();
-  base::buffer_view peer = path.local().address().bytes();
+  base::buffer_view peer = path.peer().address().bytes();
 
   ngtcp2_path_storage storage = {};
   ngtcp2_path_storage_init(&storage,
-- 
2.43.0


From aeabdfc8ba4c05471db38f550bb5fb237a6cf8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 23/42] fix: pass ngtcp2's remote path and unidirectional
 stream limit on

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index b2c3e67..244356e 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -462,7 +462,7 @@ connection::extend_max_local_streams_uni(ngtcp2_conn *connection,
   (void) connection;
   auto client = static_cast<client::connection *>(context);
 
-  client->extend_max_local_streams_bidi(max_streams);
+  client->extend_max_local_streams_uni(max_streams);
 
   return 0;
 }
@@ -535,7 +535,7 @@ connection::path_validation(ngtcp2_conn *connection,
   auto client = static_cast<client::connection *>(context);
 
   base::buffer_view local(path->local.addr, path->local.addrlen);
-  base::buffer_view peer(path->local.addr, path->local.addrlen);
+  base::buffer_view peer(path->remote.addr, path->remote.addrlen);
   bool succeeded = pv_result == NGTCP2_PATH_VALIDATION_RESULT_SUCCESS;
 
   result<void> r = client->path_validation(local, peer, succeeded);
-- 
2.43.0


From 71d6b17c00ab0c1a17f2d8b849b177a6376cec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 24/42] fix: report a congestion limited stream as idle instead
 of sending empty packets

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 244356e..b17d54f 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1028,6 +1028,11 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
 
+  // ngtcp2 is congestion limited.
+  if (rv == 0) {
+    return error::idle;
+  }
+
   stream_data_written = stream_data_written == -1 ? 0 : stream_data_written;
 
   base::buffer packet(storage.data(), static_cast<size_t>(rv));
-- 
2.43.0


From 57dc403d3ad2ae89613a22eddab00e5c0f5706c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 25/42] fix: keep stream data in place until it is acknowledged

---
 bnl/quic/include/bnl/quic/client/stream.hpp | 12 ++++++--
 bnl/quic/src/client/stream.cpp              | 33 ++++++++++++++++-----
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index c5ef5e8..ca127e0 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
-#include <bnl/base/buffers.hpp>
+#include <bnl/base/buffer.hpp>
 #include <bnl/quic/export.hpp>
 #include <bnl/quic/result.hpp>
 
+#include <list>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -27,8 +29,12 @@ public:
   bool opened() const noexcept;
 
 private:
-  base::buffers buffers_;
-  base::buffers keepalive_;
+  // ngtcp2 refers to data that is in flight until it is acknowledged so buffers
+  // stay where they are until all of their data is acknowledged.
+  std::list<base::buffer> buffers_;
+  std::list<base::buffer> keepalive_;
+  size_t sent_ = 0;  // Sent bytes of the first buffer in `buffers_`.
+  size_t acked_ = 0; // Acknowledged bytes of the first buffer that was sent.
   bool fin_ = false;
   bool opened_ = false;
 
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 81d424f..732bad5 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -31,13 +31,14 @@ stream::send()
   }
 
   const base::buffer &first = buffers_.front();
-  bool fin = fin_ && (first == buffers_.back());
+  base::buffer_view data(first.data() + sent_, first.size() - sent_);
+  bool fin = fin_ && buffers_.size() == 1;
 
   base::buffer packet;
   size_t stream_bytes_written = 0;
 
   result<std::pair<base::buffer, size_t>> r =
-    ngtcp2_->write_stream(id_, first, fin);
+    ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
     if (r.error() == error::stream_id_blocked ||
@@ -50,8 +51,12 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  base::buffer sent = buffers_.slice(stream_bytes_written);
-  keepalive_.push(std::move(sent));
+  sent_ += stream_bytes_written;
+
+  if (sent_ == first.size()) {
+    keepalive_.splice(keepalive_.end(), buffers_, buffers_.begin());
+    sent_ = 0;
+  }
 
   return packet;
 }
@@ -61,7 +66,9 @@ stream::add(base::buffer buffer)
 {
   assert(!fin_);
 
-  buffers_.push(std::move(buffer));
+  if (!buffer.empty()) {
+    buffers_.push_back(std::move(buffer));
+  }
 
   return base::success();
 }
@@ -79,16 +86,26 @@ stream::fin()
 result<void>
 stream::ack(size_t size)
 {
-  if (size > keepalive_.size()) {
+  size_t in_flight = sent_ - acked_;
+  for (const base::buffer &buffer : keepalive_) {
+    in_flight += buffer.size();
+  }
+
+  if (size > in_flight) {
     BNL_LOG_E(
       "ngtcp2's acked stream ({}) data ({}) exceeds remaining data ({})",
       id_,
       size,
-      keepalive_.size());
+      in_flight);
     return error::internal;
   }
 
-  keepalive_.consume(size);
+  acked_ += size;
+
+  while (!keepalive_.empty() && acked_ >= keepalive_.front().size()) {
+    acked_ -= keepalive_.front().size();
+    keepalive_.pop_front();
+  }
 
   return base::success();
 }
-- 
2.43.0


From aeadb5399a0226fbe418db4155e66b989e5b46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 26/42] fix: announce the end of a stream that has no more data

---
 .../bnl/quic/client/ngtcp2/connection.hpp     |  8 +++--
 bnl/quic/include/bnl/quic/client/stream.hpp   |  1 +
 bnl/quic/src/client/connection.cpp            |  5 ++++
 bnl/quic/src/client/ngtcp2/connection.cpp     |  7 ++---
 bnl/quic/src/client/stream.cpp                | 30 +++++++++++++------
 5 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index b1905a4..534440f 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -70,9 +70,11 @@ public:
 
   result<base::buffer> write_pkt();
 
-  result<std::pair<base::buffer, size_t>> write_stream(uint64_t id,
-                                                       base::buffer_view data,
-                                                       bool fin);
+  // The second value is the amount of stream data in the packet, or -1 if the
+  // packet does not contain a STREAM frame.
+  result<std::pair<base::buffer, ssize_t>> write_stream(uint64_t id,
+                                                        base::buffer_view data,
+                                                        bool fin);
 
   result<void> read_pkt(base::buffer_view packet);
 
diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index ca127e0..51fa574 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -36,6 +36,7 @@ private:
   size_t sent_ = 0;  // Sent bytes of the first buffer in `buffers_`.
   size_t acked_ = 0; // Acknowledged bytes of the first buffer that was sent.
   bool fin_ = false;
+  bool fin_sent_ = false;
   bool opened_ = false;
 
   uint64_t id_;
diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index b5bae26..424eb84 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -82,6 +82,11 @@ connection::acked_stream_data_offset(uint64_t id, size_t size)
 {
   auto match = streams_.find(id);
   if (match == streams_.end()) {
+    // The end of a stream can be acknowledged after all of its data.
+    if (size == 0) {
+      return base::success();
+    }
+
     BNL_LOG_E("ngtcp2 acked data for stream {} which does not exist", id);
     return error::internal;
   }
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index b17d54f..d2b82ba 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1000,7 +1000,7 @@ connection::write_pkt()
   return base::buffer(storage.data(), static_cast<size_t>(rv));
 }
 
-result<std::pair<base::buffer, size_t>>
+result<std::pair<base::buffer, ssize_t>>
 connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
 {
   std::array<uint8_t, NGTCP2_MAX_PKTLEN_IPV4> storage = {};
@@ -1033,12 +1033,9 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     return error::idle;
   }
 
-  stream_data_written = stream_data_written == -1 ? 0 : stream_data_written;
-
   base::buffer packet(storage.data(), static_cast<size_t>(rv));
 
-  return std::make_pair(std::move(packet),
-                        static_cast<size_t>(stream_data_written));
+  return std::make_pair(std::move(packet), stream_data_written);
 }
 
 result<void>
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 732bad5..fffbf32 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -16,7 +16,7 @@ stream::stream(uint64_t id, ngtcp2::connection *ngtcp2)
 result<base::buffer>
 stream::send()
 {
-  if (buffers_.empty()) {
+  if (buffers_.empty() && (!fin_ || fin_sent_)) {
     return error::idle;
   }
 
@@ -30,14 +30,18 @@ stream::send()
     opened_ = true;
   }
 
-  const base::buffer &first = buffers_.front();
-  base::buffer_view data(first.data() + sent_, first.size() - sent_);
-  bool fin = fin_ && buffers_.size() == 1;
+  base::buffer_view data;
+  if (!buffers_.empty()) {
+    const base::buffer &first = buffers_.front();
+    data = base::buffer_view(first.data() + sent_, first.size() - sent_);
+  }
+
+  bool fin = fin_ && buffers_.size() <= 1;
 
   base::buffer packet;
-  size_t stream_bytes_written = 0;
+  ssize_t stream_bytes_written = 0;
 
-  result<std::pair<base::buffer, size_t>> r =
+  result<std::pair<base::buffer, ssize_t>> r =
     ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
@@ -51,9 +55,17 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  sent_ += stream_bytes_written;
+  // The packet does not contain a STREAM frame.
+  if (stream_bytes_written < 0) {
+    return packet;
+  }
+
+  size_t written = static_cast<size_t>(stream_bytes_written);
+
+  fin_sent_ = fin && written == data.size();
+  sent_ += written;
 
-  if (sent_ == first.size()) {
+  if (!buffers_.empty() && sent_ == buffers_.front().size()) {
     keepalive_.splice(keepalive_.end(), buffers_, buffers_.begin());
     sent_ = 0;
   }
@@ -113,7 +125,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty() && keepalive_.empty();
+  return fin_sent_ && buffers_.empty() && keepalive_.empty();
 }
 
 bool
-- 
2.43.0


From f56eca781d8220ee74ed36e2635d92bbbd40e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 27/42] fix: give every error its own std::error_code

std::error_code stores an int: the errors above 2^56 were truncated, so
error::incomplete became a success and others collided. Also name the quic
category after bnl-quic.
---
 bnl/base/src/base/system_error.cpp | 39 ++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/bnl/base/src/base/system_error.cpp b/bnl/base/src/base/system_error.cpp
index 8ea89a2..2170f59 100644
--- a/bnl/base/src/base/system_error.cpp
+++ b/bnl/base/src/base/system_error.cpp
@@ -2,6 +2,35 @@
 
 namespace bnl {
 
+// `std::error_code` stores an `int`. Errors that are never sent to the peer are
+// 64-bit values so they get their own range above all errors that are.
+static constexpr int first_local_code = 0x40000000;
+
+template<typename Error>
+static int
+to_code(Error error) noexcept
+{
+  if (error < Error::incomplete) {
+    return static_cast<int>(error);
+  }
+
+  return first_local_code + static_cast<int>(static_cast<uint64_t>(error) -
+                                             static_cast<uint64_t>(
+                                               Error::incomplete));
+}
+
+template<typename Error>
+static Error
+from_code(int code) noexcept
+{
+  if (code < first_local_code) {
+    return static_cast<Error>(code);
+  }
+
+  return static_cast<Error>(static_cast<uint64_t>(Error::incomplete) +
+                            static_cast<uint64_t>(code - first_local_code));
+}
+
 namespace http3 {
 
 class error_category_impl : public std::error_category {
@@ -20,7 +49,7 @@ error_category_impl::name() const noexcept
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (from_code<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -68,7 +97,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { to_code(error), error_category() };
 }
 
 }
@@ -85,13 +114,13 @@ public:
 const char *
 error_category_impl::name() const noexcept
 {
-  return "bnl-http3";
+  return "bnl-quic";
 }
 
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (from_code<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -135,7 +164,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { to_code(error), error_category() };
 }
 
 }
-- 
2.43.0


From 0cdc2365637f2c8b86dec8dd9a7c5a76daaf39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 28/42] fix: encode the last header list of a file without a
 final empty line

---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index b22c71c..9e006b3 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -149,5 +149,14 @@ main(int argc, char *argv[])
     headers.emplace_back(std::move(header));
   }
 
+  // The last header list is not necessarily followed by an empty line.
+  if (!headers.empty()) {
+    http3::result<void> r = encode(id, headers, output);
+    if (!r) {
+      BNL_LOG_E("Error encoding headers");
+      return 1;
+    }
+  }
+
   return 0;
 }
-- 
2.43.0


From e64d2d7a5289c69012127a38886aa2b102c94e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 29/42] fix: log texts of ngtcp2 and BoringSSL verbatim

They were used as format strings: a brace in a message (such as one that quotes
the peer) made formatting throw through C callbacks.
---
 bnl/quic/src/client/handshake/boringssl.cpp | 2 +-
 bnl/quic/src/client/ngtcp2/connection.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/handshake/boringssl.cpp b/bnl/quic/src/client/handshake/boringssl.cpp
index ee7904e..9225200 100644
--- a/bnl/quic/src/client/handshake/boringssl.cpp
+++ b/bnl/quic/src/client/handshake/boringssl.cpp
@@ -336,7 +336,7 @@ handshake::impl::log_errors()
     std::array<char, 100> string = {};
     ERR_error_string_n(error, string.data(), string.size());
 
-    BNL_LOG_E(string.data());
+    BNL_LOG_E("{}", string.data());
   }
 }
 
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index d2b82ba..fdd2d3a 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -644,7 +644,7 @@ connection::log(void *context, const char *format, ...) // NOLINT
 
   va_end(args); // NOLINT
 
-  BNL_LOG_T(formatted.data());
+  BNL_LOG_T("{}", formatted.data());
 }
 
 static ngtcp2_cid
-- 
2.43.0


From d3a2b05c8cf565902d37a25a1282718945150deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 30/42] fix: end messages on the stream they are written to

---
 bnl/log/src/console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index b46f9f1..77c392c 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -63,7 +63,7 @@ console::log(base::log::level level,
   color = fmt::fg(fmt::color::white);
   fmt::vprint(output, color, format, args);
 
-  fmt::print("\n");
+  fmt::print(output, "\n");
 
   fflush(output);
 }
-- 
2.43.0


From 72765c7da98cbcefab4834458e4530de4b9a2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 31/42] fix: close the descriptor a move assignment replaces

---
 bnl/http3/app/endpoint/os/fd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/app/endpoint/os/fd.cpp b/bnl/http3/app/endpoint/os/fd.cpp
index c8ac408..32017b3 100644
--- a/bnl/http3/app/endpoint/os/fd.cpp
+++ b/bnl/http3/app/endpoint/os/fd.cpp
@@ -16,6 +16,10 @@ fd &
 fd::operator=(fd &&other) noexcept
 {
   if (&other != this) {
+    if (fd_ != -1) {
+      close(fd_);
+    }
+
     fd_ = other.fd_;
     other.fd_ = -1;
   }
-- 
2.43.0


From fe14fa1e515f944de1ef9ac0776347819932e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 32/42] fix: report the pending error of a socket

---
 bnl/http3/app/endpoint/client.cpp        | 5 ++++-
 bnl/http3/app/endpoint/os/socket/udp.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 76706fe..4eca13b 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -94,7 +94,10 @@ result<void>
 client::io(uint32_t events)
 {
   if ((events & EPOLLERR) != 0U) {
-    return error(socket_.error());
+    std::error_code ec = socket_.error();
+    if (ec) {
+      return error(ec);
+    }
   }
 
   if ((events & EPOLLOUT) != 0U || (events & EPOLLHUP) != 0U) {
diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 5f0e718..954b348 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -159,7 +159,7 @@ udp::error() const noexcept
     THROW_SYSTEM(getsockopt, errno);
   }
 
-  return {};
+  return { error, std::system_category() };
 }
 
 result<void>
-- 
2.43.0


From a5332d30d11a3c1b86818888faa74c4789c99eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 33/42] fix: size a datagram by the datagram itself

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 954b348..9c36e45 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -5,7 +5,6 @@
 #include <arpa/inet.h>
 #include <cassert>
 #include <sys/epoll.h>
-#include <sys/ioctl.h>
 
 static sockaddr_storage
 make_sockaddr(ip::endpoint endpoint)
@@ -196,15 +195,20 @@ udp::add(base::buffer buffer)
 result<base::buffer>
 udp::recv()
 {
-  int size = 0;
+  // A datagram that arrives after `FIONREAD` reported that there is none would
+  // be read into an empty buffer and lost, so look at the next datagram instead.
+  ssize_t rv = ::recv(socket_, nullptr, 0, MSG_PEEK | MSG_TRUNC); // NOLINT
+  if (rv == -1) {
+    if (errno == EAGAIN) {
+      return { errno, std::system_category() };
+    }
 
-  if ((ioctl(socket_, FIONREAD, &size)) == -1) { // NOLINT
-    THROW_SYSTEM(ioctl, errno);
+    THROW_SYSTEM(read, errno);
   }
 
-  base::buffer datagram(static_cast<size_t>(size));
+  base::buffer datagram(static_cast<size_t>(rv));
 
-  ssize_t rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
+  rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
   if (rv == -1) {
     if (errno == EAGAIN) {
       return { errno, std::system_category() };
-- 
2.43.0


From 69523e3624a597c47e968d925df928a9f40fb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 34/42] fix: convert a source that exists to true

---
 bnl/http3/app/endpoint/sd/event/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/sd/event/source.cpp b/bnl/http3/app/endpoint/sd/event/source.cpp
index 47ad266..a232780 100644
--- a/bnl/http3/app/endpoint/sd/event/source.cpp
+++ b/bnl/http3/app/endpoint/sd/event/source.cpp
@@ -37,7 +37,7 @@ source::sd() const noexcept
 
 source::operator bool() const noexcept
 {
-  return source_ == nullptr;
+  return source_ != nullptr;
 }
 
 io::io(sd_event_source *source) noexcept
-- 
2.43.0


From 4255db24709a48b935608b8462792701c861a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 35/42] fix: report a failed name lookup as what it is

---
 bnl/http3/app/endpoint/os/dns.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/dns.cpp b/bnl/http3/app/endpoint/os/dns.cpp
index 1977721..f9de0f8 100644
--- a/bnl/http3/app/endpoint/os/dns.cpp
+++ b/bnl/http3/app/endpoint/os/dns.cpp
@@ -2,6 +2,9 @@
 
 #include <netdb.h>
 
+#include <algorithm>
+#include <cassert>
+
 static ip::address
 make_address(sockaddr *sockaddr)
 {
@@ -40,8 +43,14 @@ resolve(const ip::host &host)
   addrinfo *results = nullptr;
 
   int rv = getaddrinfo(name.c_str(), nullptr, &hints, &results);
+  if (rv == EAI_SYSTEM) {
+    THROW_SYSTEM(getaddrinfo, errno);
+  }
+
+  // Other values are not system error codes.
   if (rv != 0) {
-    THROW_SYSTEM(getaddrinfo, rv == EAI_SYSTEM ? errno : rv);
+    BNL_LOG_E("getaddrinfo: {}", gai_strerror(rv));
+    return error::resolve;
   }
 
   addrinfo *info = nullptr;
-- 
2.43.0


From 46048a7174b447c9103b6312ed5c87b2ba6680e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 36/42] fix: report an invalid address as an error

---
 bnl/http3/app/endpoint/os/ip/address.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/app/endpoint/os/ip/address.cpp b/bnl/http3/app/endpoint/os/ip/address.cpp
index 87a0b0e..8ee529f 100644
--- a/bnl/http3/app/endpoint/os/ip/address.cpp
+++ b/bnl/http3/app/endpoint/os/ip/address.cpp
@@ -21,6 +21,10 @@ make_address(base::string_view address)
 
   std::array<uint8_t, ipv6::address::size> ipv6 = {};
   rv = inet_pton(AF_INET6, string.c_str(), ipv6.data());
+  if (rv == 0) {
+    return error::invalid_argument;
+  }
+
   if (rv != 1) {
     THROW_SYSTEM(inet_pton, errno);
   }
-- 
2.43.0


From e107ea16b2b51317e97df7be12de4eb489744a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 37/42] fix: make every error of the client an error code

---
 bnl/http3/app/endpoint/os/result.cpp | 2 +-
 bnl/http3/app/endpoint/os/result.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/result.cpp b/bnl/http3/app/endpoint/os/result.cpp
index c05cfbb..07a7bdb 100644
--- a/bnl/http3/app/endpoint/os/result.cpp
+++ b/bnl/http3/app/endpoint/os/result.cpp
@@ -10,7 +10,7 @@ public:
 const char *
 error_category_impl::name() const noexcept
 {
-  return "bnl-http3";
+  return "bnl-client";
 }
 
 std::string
diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index c03e5d5..e9690d6 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -6,7 +6,7 @@
 #include <system_error>
 
 enum class error {
-  timeout,
+  timeout = 1, // An error code of zero is no error.
   resolve,
   invalid_argument,
   idle,
-- 
2.43.0


From 93f77094366108e9b5650a9f32de2dfceb38a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 38/42] fix: end the client with the error that stopped it

---
 bnl/http3/app/endpoint/client.cpp | 23 +++++++++++++++++++----
 bnl/http3/app/endpoint/client.hpp |  1 +
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 4eca13b..0d1069a 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -92,11 +92,18 @@ client::request()
 
 result<void>
 client::io(uint32_t events)
+{
+  result<void> r = io_once(events);
+  return r ? std::move(r) : error(r.error());
+}
+
+result<void>
+client::io_once(uint32_t events)
 {
   if ((events & EPOLLERR) != 0U) {
     std::error_code ec = socket_.error();
     if (ec) {
-      return error(ec);
+      return ec;
     }
   }
 
@@ -226,7 +233,8 @@ client::recv_once()
 result<void>
 client::error(std::error_code ec)
 {
-  return ec;
+  // The event loop only stops calling a source that reports an error.
+  return sd_.exit(ec);
 }
 
 result<void>
@@ -235,9 +243,16 @@ client::retransmit(sd::event::duration usec)
   (void) usec;
 
   BNL_LOG_I("retransmit");
-  BNL_TRY(quic_.expire());
 
-  return send();
+  {
+    quic::result<void> r = quic_.expire();
+    if (!r) {
+      return error(r.error());
+    }
+  }
+
+  result<void> r = send();
+  return r ? std::move(r) : error(r.error());
 }
 
 result<void>
diff --git a/bnl/http3/app/endpoint/client.hpp b/bnl/http3/app/endpoint/client.hpp
index b091cae..ef2e4f1 100644
--- a/bnl/http3/app/endpoint/client.hpp
+++ b/bnl/http3/app/endpoint/client.hpp
@@ -27,6 +27,7 @@ public:
 
 private:
   result<void> io(uint32_t events);
+  result<void> io_once(uint32_t events);
 
   result<void> send();
   result<void> send_once();
-- 
2.43.0


From 9f00ab3a0ebd4ae099d1c2ce90a890f1b64d0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 39/42] fix: retransmit when the transport asks for it

---
 bnl/http3/app/endpoint/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 0d1069a..1ad8353 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -135,7 +135,7 @@ client::send()
     r = send_once();
   } while (r);
 
-  retransmit_.update(sd_.now() + quic_.expiry());
+  retransmit_.update(quic_.expiry());
   timeout_.update(sd_.now() + quic_.timeout());
 
   if (r.error() == std::errc::resource_unavailable_try_again ||
-- 
2.43.0


From 103310ece9984ec6a6d239ffc3331904ec21761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 40/42] fix: keep the clock of an event loop that is moved

---
 bnl/http3/app/endpoint/sd/event/loop.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/app/endpoint/sd/event/loop.cpp b/bnl/http3/app/endpoint/sd/event/loop.cpp
index cd8414e..22241aa 100644
--- a/bnl/http3/app/endpoint/sd/event/loop.cpp
+++ b/bnl/http3/app/endpoint/sd/event/loop.cpp
@@ -24,22 +24,30 @@ loop::loop()
   event_ = decltype(event_)(event, sd_event_unref);
 }
 
-duration
-loop::now() const noexcept
+static duration
+now(sd_event *event) noexcept
 {
   uint64_t result = 0;
 
-  int rv = sd_event_now(event_.get(), CLOCK_MONOTONIC, &result);
+  int rv = sd_event_now(event, CLOCK_MONOTONIC, &result);
   (void) rv; // Silence GCC 9 Wunused-variable warning
   assert(rv >= 0);
 
   return duration(result);
 }
 
+duration
+loop::now() const noexcept
+{
+  return event::now(event_.get());
+}
+
 std::function<sd::event::duration()>
 loop::clock() const noexcept
 {
-  return [this]() { return now(); };
+  sd_event *event = event_.get();
+
+  return [event]() { return event::now(event); };
 }
 
 result<io>
-- 
2.43.0


From dddd9df3c102a67a3f029ad03f666cb5d2a72e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 41/42] fix: throw when a client cannot be constructed

---
 bnl/http3/app/endpoint/client.cpp        | 23 ++++++++++++++++-------
 bnl/http3/app/endpoint/os/result.hpp     | 12 ++++++++++++
 bnl/http3/app/endpoint/os/socket/udp.cpp |  2 +-
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 1ad8353..69edc6b 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -45,16 +45,20 @@ default_quic_params()
 
 client::client(const ip::host &host, ip::endpoint peer)
   : socket_(peer)
-  , socket_watcher_(sd_.io(socket_.fd()).assume_value())
-  , retransmit_(sd_.timer().assume_value())
-  , timeout_((sd_.timer().assume_value()))
+  , socket_watcher_(value_or_throw(sd_.io(socket_.fd())))
+  , retransmit_(value_or_throw(sd_.timer()))
+  , timeout_(value_or_throw(sd_.timer()))
   , quic_(host,
           quic::path(socket_.local(), socket_.peer()),
           default_quic_params(),
           sd_.clock())
 {
-  sd_.signal(SIGINT).assume_value();
-  sd_.signal(SIGTERM).assume_value();
+  for (int signal : { SIGINT, SIGTERM }) {
+    result<void> r = sd_.signal(signal);
+    if (!r) {
+      throw std::system_error(r.error());
+    }
+  }
 
   setup();
 
@@ -349,9 +353,14 @@ run(int argc, char *argv[])
 int
 main(int argc, char *argv[])
 {
-  result<void> r = run(argc, argv);
+  try {
+    result<void> r = run(argc, argv);
 
-  if (!r) {
+    if (!r) {
+      return 1;
+    }
+  } catch (const std::exception &e) {
+    std::cerr << e.what() << std::endl;
     return 1;
   }
 
diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index e9690d6..6cab74a 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -24,6 +24,18 @@ namespace std {
 template<typename T>
 using result = bnl::base::result<T, std::error_code>;
 
+// Constructors have no other way to report an error.
+template<typename T>
+T
+value_or_throw(result<T> r)
+{
+  if (!r) {
+    throw std::system_error(r.error());
+  }
+
+  return std::move(r).value();
+}
+
 #define THROW_SYSTEM(function, errno)                                          \
   {                                                                            \
     std::error_code ec = { errno, std::system_category() };                    \
diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 9c36e45..e8d919c 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -108,7 +108,7 @@ namespace os {
 namespace socket {
 
 udp::udp(ip::endpoint peer)
-  : socket_(make_socket(peer).assume_value())
+  : socket_(value_or_throw(make_socket(peer)))
 {}
 
 ip::endpoint
-- 
2.43.0


From 8daed4d795199d626232fa3c8b06cb9d3e660a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 42/42] fix: stop receiving when the handler of a client fails

---
 bnl/http3/app/endpoint/client.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 69edc6b..e0a94f1 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -202,7 +202,8 @@ client::recv()
 
   timeout_.update(sd_.now() + quic_.timeout());
 
-  if (r.error() == std::errc::resource_unavailable_try_again) {
+  if (r.error() == std::errc::resource_unavailable_try_again ||
+      r.error() == error::finished) {
     return base::success();
   }
 
@@ -226,7 +227,9 @@ client::recv_once()
 
       result<void> r = on_event_(std::move(event));
       if (!r) {
-        return r.error() == error::finished ? sd_.exit() : sd_.exit(r.error());
+        BNL_TRY(r.error() == error::finished ? sd_.exit()
+                                             : sd_.exit(r.error()));
+        return error::finished;
       }
     }
   }
-- 
2.43.0

