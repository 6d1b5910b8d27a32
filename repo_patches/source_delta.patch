From 6043a841ccb0c63bea264a3062bfc21ba260f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 01/36] fix: report partial TCP writes as progress instead of a
 write error

A short write() left the bytes that had been sent at the head of the write
buffer, so they were sent again and the response stream was corrupted.
---
 lib/transports/tcp_transport.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/transports/tcp_transport.cpp b/lib/transports/tcp_transport.cpp
index f083125..d871c80 100644
--- a/lib/transports/tcp_transport.cpp
+++ b/lib/transports/tcp_transport.cpp
@@ -51,13 +51,8 @@ std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8
         spdlog::error("TCP write error: {}", strerror(errno));
         return std::unexpected(TransportError::WriteError);
     }
-    if (bytes_written != static_cast<ssize_t>(buffer.size())) {
-        spdlog::error("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        // For non-blocking sockets, partial writes can happen
-        // TODO: Fix this!
-        return std::unexpected(TransportError::WriteError);
-    }
-    spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
+    // for non-blocking sockets partial writes can happen: the caller resumes with the remainder
+    spdlog::trace("successfully wrote {} of {} bytes to TCP socket", bytes_written, buffer.size());
     return bytes_written;
 }
 
-- 
2.43.0


From 53aad0d1ccc35363f196362ff63c23135bdb555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 02/36] fix: discard a connection whose transport fails while
 writing

The pending output was kept after a fatal write error, so process() asked for
write events for ever and the connection was never discarded.
---
 lib/http2_conn.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ea5cb5..12729da 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -498,7 +498,9 @@ void Http2Connection::flush_write_buffer() {
         } else {
             spdlog::error("failed to flush write buffer: error: {}",
                           static_cast<int>(result.error()));
-            update_state(Http2ConnectionState::ProtocolError);
+            // the peer can no longer be reached: drop what is pending & let the caller discard us
+            write_buffer_.clear();
+            update_state(Http2ConnectionState::ClientClosed);
         }
         return;
     }
-- 
2.43.0


From 25b716ca2f9f29987f6ee3631a40e84b92b2b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 03/36] fix: send the GOAWAY frame before discarding a
 connection in error

The frame was only placed in the write buffer of a connection that was
destroyed straight afterwards, so no client ever received it.
---
 lib/http2_conn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 12729da..a8b9062 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -392,6 +392,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::ProtocolError: {
                 spdlog::error("protocol error. closing connection");
                 close();
+                flush_write_buffer();  // best effort: the connection is discarded either way
                 return Http2ProcessResult::DiscardConnection;
             }
             case Http2ConnectionState::ClientClosed: {
-- 
2.43.0


From b8b338fa5a5ca69a9fbd4ac5bf973297593f2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 04/36] fix: handle padding and short priority fields in
 HEADERS frames

The pad length and padding of a PADDED frame were decoded as header bytes, and
a PRIORITY frame with fewer than five octets read outside its payload.
---
 lib/http2_conn.cpp       |  6 ++++++
 lib/http2_frame_reader.h | 23 +++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index a8b9062..be29de2 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -253,6 +253,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
                           frame.is_end_stream(), frame.length());
 
+            if (!frame.has_valid_headers_layout()) {
+                spdlog::error("invalid HEADERS frame: payload too small for its flags");
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+
             log_dynamic_tables();
             auto hdrs = decoder_.decode(frame.headers_block());
             if (!hdrs) {
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 948f9af..30f133f 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -58,16 +58,31 @@ class Http2FrameReader {
     Http2WindowUpdate read_window_update() const;
     Http2GoAwayPayload read_goaway() const;
 
-    std::span<const uint8_t> headers_block() const {
-        if (priority()) {
-            return payload_.subspan(5);  // skip exclusive (1), stream dependency (31) & weight (8)
+    // whether a HEADERS payload can hold the fields & padding which its flags announce
+    bool has_valid_headers_layout() const {
+        if (payload_.size() < headers_block_offset()) {
+            return false;
         }
-        return payload_;
+        return padding_length() <= payload_.size() - headers_block_offset();
+    }
+
+    std::span<const uint8_t> headers_block() const {
+        return payload_.subspan(headers_block_offset(),
+                                payload_.size() - headers_block_offset() - padding_length());
     }
 
    private:
     Http2FrameHeader header_;
     std::span<const uint8_t> payload_;
+
+    size_t headers_block_offset() const {
+        // pad length (8), then exclusive (1), stream dependency (31) & weight (8)
+        return (padded() ? 1 : 0) + (priority() ? 5 : 0);
+    }
+
+    size_t padding_length() const {
+        return padded() ? payload_[0] : 0;
+    }
 };
 
 }  // namespace ion
-- 
2.43.0


From 9bdd75fd5c66ce26249924cea350f4f5589e2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 05/36] fix: reject WINDOW_UPDATE frames which are not four
 octets long

Shorter ones made the server read beyond the payload.
---
 lib/http2_conn.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index be29de2..b5fe258 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -289,6 +289,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
         }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
+            if (frame.length() != Http2WindowUpdate::wire_size) {
+                spdlog::error("invalid WINDOW_UPDATE frame: size is {}", frame.length());
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
             const auto [window_size_increment] = frame.read_window_update();
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
-- 
2.43.0


From c88c65d1d97cfab4a9573a213453d2c29605e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 06/36] fix: reject header fields whose index cannot be decoded

The error of the integer decoder was logged and its absent value used.
---
 lib/hpack/header_block_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 58de481..69cc6f1 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -134,6 +134,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_indexed_field(B
     const auto index = IntegerDecoder::decode(reader, 7);
     if (!index.has_value()) {
         spdlog::error("failed to decode indexed header index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     if (*index < 1) {
@@ -148,6 +149,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_literal_field(
     const auto index = IntegerDecoder::decode(reader, idx_prefix_bits);
     if (!index.has_value()) {
         spdlog::error("failed to decode literal field index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     bool is_new_name = *index == 0;
-- 
2.43.0


From ab005f9cbd8be547892579a025bb527b917ae158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 07/36] fix: reject Huffman strings with invalid padding

A truncated code was dropped silently, and padding longer than seven bits (or
an EOS symbol) was accepted, so malformed header strings were misread.
---
 lib/hpack/huffman_tree.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/lib/hpack/huffman_tree.cpp b/lib/hpack/huffman_tree.cpp
index 8375752..c028bbf 100644
--- a/lib/hpack/huffman_tree.cpp
+++ b/lib/hpack/huffman_tree.cpp
@@ -40,33 +40,30 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
 
     BitReader br{data};
     const HuffmanNode* current = root_.get();
-    size_t bits_processed = 0;
+    size_t unmatched_bits = 0;
+    bool unmatched_all_ones = true;
     while (br.has_more()) {
-        if (!br.read_bit()) {
-            current = current->left.get();
-        } else {
-            current = current->right.get();
-        }
-        bits_processed++;
+        const bool bit = br.read_bit();
+        unmatched_bits++;
+        unmatched_all_ones = unmatched_all_ones && bit;
 
-        if (!current) {
-            while (br.has_more()) {
-                if (!br.read_bit()) {
-                    spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
-                                  bits_processed);
-                    return std::unexpected{HuffmanDecodeError::InvalidCode};
-                }
-                bits_processed++;
-            }
-            return result;
+        if (current) {
+            current = bit ? current->right.get() : current->left.get();
         }
 
-        if (current->is_terminal()) {
+        if (current && current->is_terminal()) {
             result.push_back(*current->symbol);
             current = root_.get();
+            unmatched_bits = 0;
+            unmatched_all_ones = true;
         }
     }
 
+    // what follows the last symbol must be padding: less than a byte of 1s (RFC 7541 section 5.2)
+    if (unmatched_bits > 7 || !unmatched_all_ones) {
+        spdlog::error("remaining unmatched Huffman code is not padding ({} bits)", unmatched_bits);
+        return std::unexpected{HuffmanDecodeError::InvalidCode};
+    }
     return result;
 }
 
-- 
2.43.0


From aeeb94f05f1a5b16d69ae331c697a508e4e0206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 08/36] fix: Huffman-encode header bytes above 0x7f

A plain char is signed here, so such bytes indexed the code table with a
negative number.
---
 lib/hpack/header_block_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index fe0dcfa..f6e188b 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -22,7 +22,7 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
     if (str.size() > MAX_PLAIN_TEXT_STRING_LENGTH) {
         // use huffman coding
         BitWriter bw{};
-        for (const char c : str) {
+        for (const uint8_t c : str) {
             auto huffman_code = HUFFMAN_CODES[c];
             bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
         }
-- 
2.43.0


From 53007301a5264dc81864b170ab631eb17bce7083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:00 +0000
Subject: [PATCH 09/36] fix: encode header indices which do not fit their
 prefix as multi-byte integers

Once the dynamic table held more than a couple (literal names) or 65 entries
(indexed fields), the single index byte was corrupted.
---
 lib/hpack/header_block_encoder.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index f6e188b..1837a44 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -13,6 +13,13 @@ namespace ion {
 
 static constexpr size_t MAX_PLAIN_TEXT_STRING_LENGTH = 3;
 
+static void write_integer(std::vector<uint8_t>& bytes, size_t value, uint8_t prefix_bits,
+                          uint8_t pattern) {
+    const auto encoded = IntegerEncoder::encode(static_cast<uint32_t>(value), prefix_bits);
+    bytes.push_back(pattern | encoded[0]);
+    bytes.insert(bytes.end(), encoded.begin() + 1, encoded.end());
+}
+
 HeaderBlockEncoder::HeaderBlockEncoder(DynamicTable& dynamic_table)
     : dynamic_table_(dynamic_table) {}
 
@@ -63,14 +70,14 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
             // found static header
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_integer(bytes, index, 7, 0x80);
             continue;
         }
 
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_integer(bytes, index, 7, 0x80);
             continue;
         }
 
@@ -82,7 +89,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         if (st_name_it != STATIC_TABLE.end()) {
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_integer(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
@@ -96,7 +103,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_integer(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
-- 
2.43.0


From 3796b90cc89e5a3df1da131e0c8f881040257396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 10/36] fix: keep the response encoder's dynamic table within
 the peer's default size

Clients evict beyond 4096 octets, so with a 64 KiB table the two sides
disagreed about indices once a connection had carried enough distinct headers.
---
 lib/hpack/dynamic_table.h | 3 +++
 lib/http2_conn.h          | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/dynamic_table.h b/lib/hpack/dynamic_table.h
index 0b0748e..ae0c6fc 100644
--- a/lib/hpack/dynamic_table.h
+++ b/lib/hpack/dynamic_table.h
@@ -11,6 +11,9 @@ namespace ion {
 constexpr size_t HARD_TABLE_SIZE_LIMIT = 64 * 1024;
 constexpr size_t DEFAULT_MAX_TABLE_SIZE = 64 * 1024;
 
+// SETTINGS_HEADER_TABLE_SIZE of a peer which has not announced another value
+constexpr size_t PEER_DEFAULT_TABLE_SIZE = 4096;
+
 class DynamicTable {
    public:
     explicit DynamicTable(size_t max_table_size = DEFAULT_MAX_TABLE_SIZE);
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 59f16bf..93748ab 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -54,7 +54,7 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
-    DynamicTable encoder_dynamic_table_{};
+    DynamicTable encoder_dynamic_table_{PEER_DEFAULT_TABLE_SIZE};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0


From b522612ac3f88a566f19dc13f9e9786f61d01ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 11/36] fix: honour a peer's smaller SETTINGS_HEADER_TABLE_SIZE

Responses kept using dynamic table entries that such a client does not store.
---
 lib/hpack/header_block_encoder.cpp | 18 ++++++++++++++++++
 lib/hpack/header_block_encoder.h   |  3 +++
 lib/http2_conn.cpp                 |  8 ++++++++
 3 files changed, 29 insertions(+)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index 1837a44..f74b8a5 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -57,8 +57,26 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
     return bytes;
 }
 
+void HeaderBlockEncoder::set_max_table_size(size_t size) {
+    if (size == max_table_size_.value_or(PEER_DEFAULT_TABLE_SIZE)) {
+        return;
+    }
+    dynamic_table_.set_max_table_size(size);
+    max_table_size_ = size;
+    unsignalled_min_size_ = std::min(size, unsignalled_min_size_.value_or(size));
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
+    if (unsignalled_min_size_) {
+        // size changes are signalled at the start of the next block (RFC 7541 section 4.2)
+        if (*unsignalled_min_size_ < *max_table_size_) {
+            write_integer(bytes, *unsignalled_min_size_, 5, 0x20);
+        }
+        write_integer(bytes, *max_table_size_, 5, 0x20);
+        unsignalled_min_size_.reset();
+    }
+
     for (auto& hdr : headers) {
         // is static header?
         const auto st_it = std::find_if(
diff --git a/lib/hpack/header_block_encoder.h b/lib/hpack/header_block_encoder.h
index f53707f..3fd523c 100644
--- a/lib/hpack/header_block_encoder.h
+++ b/lib/hpack/header_block_encoder.h
@@ -10,11 +10,14 @@ class HeaderBlockEncoder {
    public:
     explicit HeaderBlockEncoder(DynamicTable& dynamic_table);
     std::vector<uint8_t> encode(const std::vector<HttpHeader>& headers);
+    void set_max_table_size(size_t size);
 
    private:
     std::vector<uint8_t> write_length_and_string(const std::string& str);
 
     DynamicTable& dynamic_table_;
+    std::optional<size_t> max_table_size_{};
+    std::optional<size_t> unsignalled_min_size_{};
 };
 
 }  // namespace ion
diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index b5fe258..df3074b 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -21,6 +21,8 @@ static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 
+static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x01;
+
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
@@ -239,6 +241,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                     update_state(Http2ConnectionState::ProtocolError);
                     return;
                 }
+                for (const auto& setting : *settings) {
+                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
+                        encoder_.set_max_table_size(
+                            std::min<size_t>(setting.value, PEER_DEFAULT_TABLE_SIZE));
+                    }
+                }
                 spdlog::debug("read {} settings, sending ACK", settings->size());
                 write_settings_ack();
             }
-- 
2.43.0


From 155165ad124d84781ba5bbb53adab6323e71a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 12/36] fix: split response header blocks larger than the
 maximum frame size

They were sent as a single HEADERS frame above the 16384 octets every client
may insist on.
---
 lib/http2_conn.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index df3074b..97bb9c2 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -20,6 +20,7 @@ static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
+static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x01;
 
@@ -75,13 +76,29 @@ void Http2Connection::write_settings_ack() {
 
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
-    const Http2FrameHeader header{.length = static_cast<uint32_t>(headers_data.size()),
-                                  .type = FRAME_TYPE_HEADERS,
-                                  .flags = flags,
-                                  .stream_id = stream_id};
+    // a header block which does not fit into one frame is continued in CONTINUATION frames
+    auto fragment = headers_data.first(std::min(headers_data.size(), MAX_FRAME_SIZE));
+    headers_data = headers_data.subspan(fragment.size());
+    const uint8_t not_last_mask = static_cast<uint8_t>(~FLAG_END_HEADERS);
+
+    const Http2FrameHeader header{
+        .length = static_cast<uint32_t>(fragment.size()),
+        .type = FRAME_TYPE_HEADERS,
+        .flags = headers_data.empty() ? flags : static_cast<uint8_t>(flags & not_last_mask),
+        .stream_id = stream_id};
 
     write_frame_header(header);
-    enqueue_write(headers_data);
+    enqueue_write(fragment);
+
+    while (!headers_data.empty()) {
+        fragment = headers_data.first(std::min(headers_data.size(), MAX_FRAME_SIZE));
+        headers_data = headers_data.subspan(fragment.size());
+        write_frame_header({.length = static_cast<uint32_t>(fragment.size()),
+                            .type = FRAME_TYPE_CONTINUATION,
+                            .flags = headers_data.empty() ? FLAG_END_HEADERS : uint8_t{0},
+                            .stream_id = stream_id});
+        enqueue_write(fragment);
+    }
 }
 
 void Http2Connection::write_data_response(uint32_t stream_id, const std::vector<uint8_t>& body) {
-- 
2.43.0


From a6a7bc5574d7488c97ea6f60dfa9c42cfe572223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 13/36] fix: send a status with responses to requests without a
 method or path

The 400 response had an empty header block, which is a malformed response.
---
 lib/http2_conn.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 97bb9c2..09e2f9c 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -477,6 +477,17 @@ static std::optional<std::string> get_header(const std::vector<HttpHeader>& head
     return it->value;
 }
 
+static HttpResponse with_standard_headers(HttpResponse resp) {
+    resp.headers.insert(resp.headers.begin(),
+                        HttpHeader{":status", std::to_string(resp.status_code)});
+    if (!resp.body.empty()) {
+        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
+    }
+    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
+    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
+    return resp;
+}
+
 HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& headers,
                                               SpanPtr span) {
     auto path = get_header(headers, ":path");
@@ -484,7 +495,7 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     if (!path || !method) {
         spdlog::error("invalid request: missing path or method");
-        return HttpResponse{.status_code = 400};
+        return with_standard_headers(HttpResponse{.status_code = 400});
     }
 
     span->SetAttribute("http.method", *method);
@@ -504,14 +515,7 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     span->SetAttribute("http.status_code", resp.status_code);
 
-    resp.headers.insert(resp.headers.begin(),
-                        HttpHeader{":status", std::to_string(resp.status_code)});
-    if (!resp.body.empty()) {
-        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
-    }
-    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
-    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
-    return resp;
+    return with_standard_headers(std::move(resp));
 }
 
 void Http2Connection::enqueue_write(std::span<const uint8_t> data) {
-- 
2.43.0


From 4dc3ef8d9d2bd32e3f784c34c51de27b2630454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 14/36] fix: answer 500 when a handler throws something other
 than a std::exception

Such an exception left the event loop and terminated the server.
---
 lib/http2_conn.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 09e2f9c..544202e 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -511,6 +511,9 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     } catch (const std::exception& e) {
         spdlog::error("error processing request: {}", e.what());
         resp = HttpResponse{.status_code = 500};
+    } catch (...) {
+        spdlog::error("error processing request: unknown exception");
+        resp = HttpResponse{.status_code = 500};
     }
 
     span->SetAttribute("http.status_code", resp.status_code);
-- 
2.43.0


From fce74799b27fc13a92c9281f681e24be07f0a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 15/36] fix: keep serving when accept() fails for reasons that
 pass

A client that aborted its connection, or a momentary lack of descriptors, ended
the server and with it every other connection.
---
 lib/tcp_listener.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/tcp_listener.cpp b/lib/tcp_listener.cpp
index c9a2038..d72fae3 100644
--- a/lib/tcp_listener.cpp
+++ b/lib/tcp_listener.cpp
@@ -96,7 +96,26 @@ std::optional<SocketFd> TcpListener::try_accept() {
         return std::nullopt;
     }
 
-    throw std::system_error(errno, std::system_category(), "accept");
+    switch (errno) {
+        // errors of the connection being accepted, or a lack of resources: see accept(2)
+        case ECONNABORTED:
+        case EPROTO:
+        case EPERM:
+        case ENETDOWN:
+        case ENETUNREACH:
+        case EHOSTDOWN:
+        case EHOSTUNREACH:
+        case ETIMEDOUT:
+        case ENOPROTOOPT:
+        case EMFILE:
+        case ENFILE:
+        case ENOBUFS:
+        case ENOMEM:
+            spdlog::warn("failed to accept connection: {}", strerror(errno));
+            return std::nullopt;
+        default:
+            throw std::system_error(errno, std::system_category(), "accept");
+    }
 }
 
 void TcpListener::close() {
-- 
2.43.0


From f8ab3c724851f367baf23ebe43eb204181e3b987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 16/36] fix: do not let static file routes refer to the
 arguments of get_handler

The returned handler kept a reference to the method string, which dangles when
the caller passed a temporary.
---
 lib/router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/router.cpp b/lib/router.cpp
index 5dbf97c..2c50802 100644
--- a/lib/router.cpp
+++ b/lib/router.cpp
@@ -24,8 +24,9 @@ RouteHandler Router::get_handler(const std::string& path, const std::string& met
         if (method == "GET" || method == "HEAD") {
             for (const auto& handler : static_handlers_) {
                 if (handler->matches(path)) {
-                    target = [&handler, path, &method](const HttpRequest&) -> HttpResponse {
-                        return handler->handle(path, method == "HEAD");
+                    target = [handler = handler.get(), path,
+                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
+                        return handler->handle(path, is_head);
                     };
                 }
             }
-- 
2.43.0


From 859e4686464254b3dfbcfca787d7fbf2655c6ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 17/36] fix: serve the index file when the directory URL
 carries a query string

The query was only removed after looking for an empty path.
---
 lib/static_file_handler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/static_file_handler.cpp b/lib/static_file_handler.cpp
index 88d21a3..80d232b 100644
--- a/lib/static_file_handler.cpp
+++ b/lib/static_file_handler.cpp
@@ -18,6 +18,11 @@ bool StaticFileHandler::matches(const std::string& path) const {
 std::string StaticFileHandler::get_relative_path(const std::string& url_path) const {
     std::string rel_path = url_path.substr(url_prefix_.length());
 
+    // remove query string
+    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
+        rel_path = rel_path.substr(0, query_pos);
+    }
+
     if (rel_path.empty() || rel_path == "/") {
         rel_path = "/index.html";
     }
@@ -26,11 +31,6 @@ std::string StaticFileHandler::get_relative_path(const std::string& url_path) co
         rel_path = rel_path.substr(1);
     }
 
-    // remove query string
-    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
-        rel_path = rel_path.substr(0, query_pos);
-    }
-
     return rel_path;
 }
 
-- 
2.43.0


From c21190e8ffbd80102347f971b7d87f3735d2522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 18/36] fix: send no body with the custom 404 page for HEAD
 requests

---
 app/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/main.cpp b/app/main.cpp
index 66dc04a..8434efb 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -47,7 +47,8 @@ void run_server(const Args& args) {
 
                 if (res.status_code == 404) {
                     auto file_res =
-                        ion::StaticFileHandler::file_response(args.status_404_file_path, false);
+                        ion::StaticFileHandler::file_response(args.status_404_file_path,
+                                                              req.method == "HEAD");
                     file_res.status_code = 404;
                     return file_res;
                 }
-- 
2.43.0


From 538291ab71a123fd8750301fbfb05e17a6373cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 19/36] fix: count requests whose handler throws in the status
 code statistics

They were added to the total only, so the two disagreed from then on.
---
 app/server_stats.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index af5448c..570ebbd 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -20,7 +20,13 @@ ion::Middleware ServerStats::middleware() {
             stats.total_requests++;
             const auto start = std::chrono::steady_clock::now();
 
-            auto res = next(req);
+            ion::HttpResponse res;
+            try {
+                res = next(req);
+            } catch (...) {
+                stats.status_codes[500]++;  // what the client is going to be sent
+                throw;
+            }
 
             const auto end = std::chrono::steady_clock::now();
             const auto duration =
-- 
2.43.0


From 395b4bb7eae47b9181d42ab8da375043d63627c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 20/36] fix: report a missing TLS key path as such

The key path was set even when empty, which got past the validation.
---
 app/args.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/app/args.cpp b/app/args.cpp
index 56a6f66..6ee056e 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -66,6 +66,5 @@ ion::ServerConfiguration Args::to_server_config() const {
     if (!key_path.empty()) {
         config.key_path = key_path;
     }
-    config.key_path = key_path;
     return config;
 }
-- 
2.43.0


From 42298cb4096b84fa39a3e65b675afb84b9330cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 21/36] fix: clear OpenSSL's error queue before each TLS
 operation

An error left there by one connection made SSL_get_error() report a protocol
error for the next connection whose operation merely had to wait.
---
 lib/transports/tls_transport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6ddeed3..7aab704 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -38,6 +38,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
 }
 
 std::expected<void, TransportError> TlsTransport::handshake() const {
+    ERR_clear_error();  // SSL_get_error() consults the queue which all connections share
     const int result = SSL_accept(ssl_);
     if (result == 1) {
         return {};
@@ -93,6 +94,7 @@ void TlsTransport::print_debug_to_stderr() {
 
 std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {
     spdlog::trace("reading from SSL");
+    ERR_clear_error();  // SSL_get_error() consults the queue which all connections share
     const auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_read <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
@@ -118,6 +120,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
+    ERR_clear_error();  // SSL_get_error() consults the queue which all connections share
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_written < 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-- 
2.43.0


From 0bdfa4c1333b7876eeb3a662641cd1c3d87a11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 22/36] fix: escape request values in the access log

A quote or line break in a path or header let a client forge log entries.
---
 lib/access_log.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 20b5202..e706ca2 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -8,6 +8,20 @@
 
 namespace ion {
 
+// keeps a client from ending a quoted field or the line: \xHH, as other servers do
+static std::string escape(const std::string& value) {
+    std::string result{};
+    result.reserve(value.size());
+    for (const uint8_t c : value) {
+        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') {
+            result += std::format("\\x{:02X}", c);
+        } else {
+            result += static_cast<char>(c);
+        }
+    }
+    return result;
+}
+
 void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t status_code,
                             size_t content_length, const std::string& client_ip) {
     auto access_log = spdlog::get(ACCESS_LOGGER_NAME);
@@ -36,8 +50,9 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
     }
     const auto entry =
         std::format(R"({} - - {} "{} {} HTTP/2" {} {} "{}" "{}")",
-                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(), method,
-                    path, status_code, content_length, referrer, user_agent);
+                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(),
+                    escape(method), escape(path), status_code, content_length, escape(referrer),
+                    escape(user_agent));
     access_log->info(entry);
 }
 
-- 
2.43.0


From 9d34fd8f87b2bae2f0e5c7512b1ed3301ba984dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 23/36] fix: detect a broken output pipe on Linux

Writing nothing to a pipe without readers succeeds there, so the server kept
running instead of shutting down.
---
 app/signal_handler.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/app/signal_handler.cpp b/app/signal_handler.cpp
index 5c52083..1c24350 100644
--- a/app/signal_handler.cpp
+++ b/app/signal_handler.cpp
@@ -1,5 +1,6 @@
 #include "signal_handler.h"
 
+#include <poll.h>
 #include <unistd.h>
 
 #include <csignal>
@@ -36,12 +37,17 @@ void SignalHandler::signal_handler(int) {
     stop_server(ion::StopReason::Signal);
 }
 
+// an empty write() to a broken pipe succeeds on Linux, so it is poll() that is asked
+static bool is_pipe_broken(int fd) {
+    pollfd pfd{.fd = fd, .events = POLLOUT, .revents = 0};
+    return poll(&pfd, 1, 0) > 0 && (pfd.revents & (POLLERR | POLLHUP));
+}
+
 void SignalHandler::sigpipe_handler(int) {
-    constexpr char dummy = 0;
-    if (write(STDOUT_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    if (is_pipe_broken(STDOUT_FILENO)) {
         stop_server(ion::StopReason::StdOutPipeBroken);
     }
-    if (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    if (is_pipe_broken(STDERR_FILENO)) {
         stop_server(ion::StopReason::StdErrPipeBroken);
     }
 }
-- 
2.43.0


From 4a538486754d2592d39d13a8702eb4e480af3734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 24/36] fix: send SETTINGS as soon as the client preface has
 arrived

The preface fell through to frame processing, which returned WantRead without
flushing when no complete frame followed, so SETTINGS stayed in the write
buffer (without write interest) until the client sent something else.
---
 lib/http2_conn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 544202e..82d9af1 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -405,7 +405,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::AwaitingPreface: {
                 switch (read_preface()) {
                     case ReadPrefaceResult::Success:
-                        break;
+                        continue;  // sends our SETTINGS before anything else is processed
                     case ReadPrefaceResult::NotEnoughData:
                         return Http2ProcessResult::WantRead;
                     case ReadPrefaceResult::ProtocolError:
-- 
2.43.0


From 4bab7d7d3ce4aac3b7ad3fc63ea77418a1c86766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 25/36] fix: resolve every symbolic link of a static path
 before checking where it leads

---
 lib/file_reader.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/lib/file_reader.cpp b/lib/file_reader.cpp
index f7e4ce2..fc4ede6 100644
--- a/lib/file_reader.cpp
+++ b/lib/file_reader.cpp
@@ -7,6 +7,7 @@
 #include <filesystem>
 #include <fstream>
 #include <unordered_map>
+#include <vector>
 
 namespace ion {
 
@@ -96,6 +97,48 @@ bool FileReader::is_readable(const std::string& path) {
     return access(path.c_str(), R_OK) == 0;
 }
 
+// Resolves "." and ".." and every symbolic link on the way, including those whose target is missing; what does
+// not exist is kept as it is. weakly_canonical() is not enough: it leaves links behind a missing component.
+static std::optional<std::filesystem::path> resolve_path(const std::filesystem::path& path) {
+    namespace fs = std::filesystem;
+    constexpr int max_links = 40;
+
+    fs::path resolved = path.root_path();
+    std::vector<fs::path> remaining{};  // last component first
+    const auto push = [&remaining](const fs::path& p) {
+        const std::vector<fs::path> parts{p.begin(), p.end()};
+        remaining.insert(remaining.end(), parts.rbegin(), parts.rend());
+    };
+    push(path.relative_path());
+
+    for (int links = 0; !remaining.empty();) {
+        const auto part = remaining.back();
+        remaining.pop_back();
+        if (part == "..") {
+            resolved = resolved.parent_path();
+        } else if (part.empty()) {
+            if (remaining.empty()) {
+                resolved /= part;  // trailing slash
+            }
+        } else if (part != ".") {
+            const auto next = resolved / part;
+            if (!fs::is_symlink(fs::symlink_status(next))) {
+                resolved = next;
+                continue;
+            }
+            if (++links > max_links) {
+                return std::nullopt;
+            }
+            const auto target = fs::read_symlink(next);
+            if (target.is_absolute()) {
+                resolved = target.root_path();
+            }
+            push(target.relative_path());
+        }
+    }
+    return resolved;
+}
+
 std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir,
                                                      const std::string& requested_path) {
     try {
@@ -115,7 +158,12 @@ std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir
         fs::path combined = requested.is_absolute() ? requested : (base / requested);
 
         // Normalize the combined path (resolve .. and . where possible without requiring the leaf)
-        auto full = fs::weakly_canonical(combined);
+        const auto resolved = resolve_path(combined);
+        if (!resolved) {
+            spdlog::warn("Too many symbolic links: {}", requested_path);
+            return std::nullopt;
+        }
+        const auto& full = *resolved;
 
         // Ensure the resolved path is within the base directory by comparing path components
         auto base_it = base.begin();
-- 
2.43.0


From bc5543661195c03785e136333ce4bdf44f84cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 26/36] fix: do not poll for input that is not read while
 output is blocked

---
 lib/http2_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index ec21578..959b258 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -104,7 +104,8 @@ void Http2Server::handle_connection_events(Poller& poller, int fd, PollEventType
     switch (conn->process()) {
         case Http2ProcessResult::WantWrite:
             spdlog::trace("will poll write events for fd {}", fd);
-            poller.set(fd, PollEventType::Read | PollEventType::Write);
+            // input is not read until then: polling for it as well would spin
+            poller.set(fd, PollEventType::Write);
             break;
         case Http2ProcessResult::WantRead:
             // interest is already Read (or was reset above), just keep waiting
-- 
2.43.0


From 07504d041482749d36565453f5f35f04a8aff834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 27/36] fix: close the client connections when the server
 returns

---
 lib/http2_server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index 959b258..c6654fa 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -143,6 +143,7 @@ void Http2Server::start(uint16_t port) {
         }
     }
 
+    connections_.clear();
     spdlog::info("server shutting down (reason: {})", StopReasonHelper::to_string(stop_reason_));
 }
 
-- 
2.43.0


From 89897865c3da399ab2b38af33af9036b6924354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:26 +0000
Subject: [PATCH 28/36] fix: count each TLS record written as progress

---
 lib/transports/tls_transport.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 7aab704..6d58de9 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -8,6 +8,7 @@
 #include <sys/poll.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <fstream>
 
 namespace ion {
@@ -121,8 +122,11 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
     ERR_clear_error();  // SSL_get_error() consults the queue which all connections share
-    const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
-    if (bytes_written < 0) {
+    // one record at a time: SSL_write() reports no progress until all it was given has been written,
+    // and a large response to a slow client would look like an idle connection
+    const auto size = std::min<size_t>(buffer.size(), SSL3_RT_MAX_PLAIN_LENGTH);
+    const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(size));
+    if (bytes_written <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
             case SSL_ERROR_WANT_READ:
                 spdlog::trace("SSL want read");
@@ -141,11 +145,7 @@ std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8
                 return std::unexpected(TransportError::ProtocolError);
         }
     }
-    if (bytes_written != static_cast<int>(buffer.size())) {
-        spdlog::error("SSL partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        return std::unexpected(TransportError::WriteError);
-    }
-    spdlog::trace("successfully wrote {} bytes to SSL", bytes_written);
+    spdlog::trace("successfully wrote {} of {} bytes to SSL", bytes_written, buffer.size());
     return bytes_written;
 }
 
-- 
2.43.0


From 084db38581077281d08b4f07171eae105efe4990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:53 +0000
Subject: [PATCH 29/36] fix: poll for writability when TLS has to write before
 it can go on

---
 lib/http2_conn.cpp               | 17 +++++++++++++++--
 lib/http2_conn.h                 |  2 ++
 lib/transports/tls_transport.cpp | 11 +++++++----
 lib/transports/transport.h       |  3 ++-
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 82d9af1..3e76011 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -151,6 +151,7 @@ void Http2Connection::write_settings() {
 }
 
 void Http2Connection::fill_read_buffer() {
+    read_blocked_on_write_ = false;
     while (true) {
         if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {
             spdlog::debug("read buffer full");
@@ -165,6 +166,10 @@ void Http2Connection::fill_read_buffer() {
                 case TransportError::WantReadOrWrite:
                     spdlog::trace("transport want read/write");
                     break;
+                case TransportError::WantWrite:
+                    spdlog::trace("transport has to write before it can read");
+                    read_blocked_on_write_ = true;
+                    break;
                 case TransportError::ConnectionClosed:
                     spdlog::debug("transport connection closed");
                     update_state(Http2ConnectionState::ClientClosed);
@@ -189,6 +194,10 @@ void Http2Connection::fill_read_buffer() {
     }
 }
 
+Http2ProcessResult Http2Connection::wait_for_input() const {
+    return read_blocked_on_write_ ? Http2ProcessResult::WantWrite : Http2ProcessResult::WantRead;
+}
+
 void Http2Connection::discard_processed_buffer(size_t length) {
     read_buffer_.erase(read_buffer_.begin(), read_buffer_.begin() + length);
 }
@@ -373,6 +382,10 @@ std::optional<Http2ProcessResult> Http2Connection::handle_handshake() {
             spdlog::trace("handshake: want read/write");
             return Http2ProcessResult::WantRead;
         }
+        if (handshake_result.error() == TransportError::WantWrite) {
+            spdlog::trace("handshake: want write");
+            return Http2ProcessResult::WantWrite;
+        }
         if (handshake_result.error() == TransportError::ConnectionClosed) {
             spdlog::trace("handshake: connection closed");
             return Http2ProcessResult::DiscardConnection;
@@ -407,7 +420,7 @@ Http2ProcessResult Http2Connection::internal_process() {
                     case ReadPrefaceResult::Success:
                         continue;  // sends our SETTINGS before anything else is processed
                     case ReadPrefaceResult::NotEnoughData:
-                        return Http2ProcessResult::WantRead;
+                        return wait_for_input();
                     case ReadPrefaceResult::ProtocolError:
                         return Http2ProcessResult::DiscardConnection;
                 }
@@ -417,7 +430,7 @@ Http2ProcessResult Http2Connection::internal_process() {
                     spdlog::debug("frame processed, continuing...");
                     break;
                 }
-                return Http2ProcessResult::WantRead;
+                return wait_for_input();
             }
             case Http2ConnectionState::Closing: {
                 spdlog::debug("in closing state, completing shutdown");
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 93748ab..06db6f7 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -58,12 +58,14 @@ class Http2Connection {
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
+    bool read_blocked_on_write_ = false;
 
     Http2ProcessResult internal_process();
     ReadPrefaceResult read_preface();
     Http2WindowUpdate process_window_update_payload(std::span<const uint8_t> payload);
     bool try_read_frame();
     void fill_read_buffer();
+    [[nodiscard]] Http2ProcessResult wait_for_input() const;
     void discard_processed_buffer(size_t length);
     void write_frame_header(const Http2FrameHeader& header);
     void write_settings(const std::vector<Http2Setting>& settings);
diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6d58de9..76550f2 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -49,11 +49,14 @@ std::expected<void, TransportError> TlsTransport::handshake() const {
         case SSL_ERROR_ZERO_RETURN:
             spdlog::debug("TLS connection closed by peer before handshake (likely health check)");
             return std::unexpected(TransportError::ConnectionClosed);
-        case SSL_ERROR_WANT_READ:
-        case SSL_ERROR_WANT_WRITE: {
-            spdlog::trace("TLS handshake want read/write");
+        case SSL_ERROR_WANT_READ: {
+            spdlog::trace("TLS handshake want read");
             return std::unexpected(TransportError::WantReadOrWrite);
         }
+        case SSL_ERROR_WANT_WRITE: {
+            spdlog::trace("TLS handshake want write");
+            return std::unexpected(TransportError::WantWrite);
+        }
         case SSL_ERROR_SSL: {
             const unsigned long err = ERR_get_error();
             if (ERR_GET_REASON(err) == SSL_R_UNEXPECTED_EOF_WHILE_READING) {
@@ -104,7 +107,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
                 return std::unexpected(TransportError::WantReadOrWrite);
             case SSL_ERROR_WANT_WRITE:
                 spdlog::trace("SSL want write");
-                return std::unexpected(TransportError::WantReadOrWrite);
+                return std::unexpected(TransportError::WantWrite);
             case SSL_ERROR_ZERO_RETURN:
                 spdlog::debug("TLS connection closed");
                 return std::unexpected(TransportError::ConnectionClosed);
diff --git a/lib/transports/transport.h b/lib/transports/transport.h
index e02e96d..fa90676 100644
--- a/lib/transports/transport.h
+++ b/lib/transports/transport.h
@@ -11,7 +11,8 @@ enum class TransportError {
     WriteError,
     ConnectionClosed,
     ProtocolError,
-    OtherError
+    OtherError,
+    WantWrite
 };
 
 class Transport {
-- 
2.43.0


From 8fc54ac0f97809823e4dc02d9590b239af91deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 30/36] fix: report only ready descriptors from PollPoller

---
 lib/pollers/poll_poller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/pollers/poll_poller.cpp b/lib/pollers/poll_poller.cpp
index 95d05a6..b073dd4 100644
--- a/lib/pollers/poll_poller.cpp
+++ b/lib/pollers/poll_poller.cpp
@@ -60,7 +60,9 @@ std::expected<std::vector<PollEvent>, PollError> PollPoller::poll(
     std::vector<PollEvent> result{};
     result.reserve(poll_fds.size());
     for (const auto& pfd : poll_fds) {
-        result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
+        if (pfd.revents != 0) {
+            result.push_back({pfd.fd, event_to_poll_event(pfd.revents)});
+        }
     }
     return result;
 }
-- 
2.43.0


From 7257e59c26996ab6f9dc9df2e6669acef2eb19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 31/36] fix: register a reused descriptor number with epoll
 again

---
 lib/pollers/epoll_poller.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pollers/epoll_poller.cpp b/lib/pollers/epoll_poller.cpp
index bbf2541..0737dcc 100644
--- a/lib/pollers/epoll_poller.cpp
+++ b/lib/pollers/epoll_poller.cpp
@@ -55,7 +55,12 @@ void EPollPoller::set(int fd, PollEventType event_types) {
 
     const int op = registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;
 
-    if (epoll_ctl(epoll_fd_, op, fd, &ev) < 0) {
+    int ret = epoll_ctl(epoll_fd_, op, fd, &ev);
+    if (ret < 0 && op == EPOLL_CTL_MOD && errno == ENOENT) {
+        // the descriptor was closed without being removed & its number is in use again
+        ret = epoll_ctl(epoll_fd_, EPOLL_CTL_ADD, fd, &ev);
+    }
+    if (ret < 0) {
         spdlog::warn("epoll_ctl: failed (fd: {}): {}", fd, strerror(errno));
         return;
     }
-- 
2.43.0


From aeeae00eee58c267a11cb0c2f4ba446c7f8c0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:53 +0000
Subject: [PATCH 32/36] fix: accept log levels in any case, as the validation
 does

---
 app/args.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/args.cpp b/app/args.cpp
index 6ee056e..a7aed4d 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -14,8 +14,8 @@ Args Args::register_opts(CLI::App& app) {
     app.add_option("--log-level,-l", args.log_level,
                    "Set logging level (trace, debug, info, warn, error, critical, off)")
         ->default_val(DEFAULT_LOG_LEVEL)
-        ->check(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
-                              CLI::ignore_case));
+        ->transform(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
+                                  CLI::ignore_case));
     app.add_option("--static,-s", args.static_map,
                    "Map URL prefix to directory. Usage: --static /url/path ./fs/path")
         ->expected(2);
-- 
2.43.0


From eccfc6652ef3dbfb629090d21a667fb10be110ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:53 +0000
Subject: [PATCH 33/36] fix: exit normally when the standard output pipe is
 broken

---
 app/signal_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/signal_handler.cpp b/app/signal_handler.cpp
index 1c24350..16cb091 100644
--- a/app/signal_handler.cpp
+++ b/app/signal_handler.cpp
@@ -23,7 +23,8 @@ SignalHandler::SignalHandler(ion::Http2Server& server) {
 SignalHandler::~SignalHandler() {
     std::signal(SIGINT, SIG_DFL);
     std::signal(SIGTERM, SIG_DFL);
-    std::signal(SIGPIPE, SIG_DFL);
+    // there may be more to log, and the pipe it goes to may be the reason for stopping
+    std::signal(SIGPIPE, SIG_IGN);
     server_.store(nullptr);
 };
 
-- 
2.43.0


From e20bcb7792a64d69150739a14fd3df3c4f52950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:53 +0000
Subject: [PATCH 34/36] fix: write the access log whatever the log level

---
 app/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/main.cpp b/app/main.cpp
index 8434efb..24f2cd7 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -68,6 +68,7 @@ void setup_access_logs(const std::string& log_path) {
     try {
         auto logger = spdlog::basic_logger_mt(ion::AccessLog::ACCESS_LOGGER_NAME, log_path);
         logger->set_pattern("%v");
+        logger->set_level(spdlog::level::info);  // whatever the level of the other messages
         logger->flush_on(spdlog::level::info);
         spdlog::info("writing access logs to {}", log_path);
     } catch (const spdlog::spdlog_ex& e) {
-- 
2.43.0


From 03597941b8805ffcffb9e88cb2929a09f27a66cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:53 +0000
Subject: [PATCH 35/36] fix: apply the log level before anything is logged

---
 app/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/main.cpp b/app/main.cpp
index 24f2cd7..d3622f7 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -100,13 +100,14 @@ int main(int argc, char* argv[]) {
         return app.exit(e);
     }
 
+    spdlog::set_level(args.log_level_enum());
+
     auto telemetry = configure_telemetry();
 
     auto formatter = std::make_unique<spdlog::pattern_formatter>();
     formatter->add_flag<ion::app::TraceIdFlag>('J');
     formatter->set_pattern("[%Y-%m-%d %H:%M:%S.%e] [%l] %J%v");
     spdlog::set_formatter(std::move(formatter));
-    spdlog::set_level(args.log_level_enum());
 
     spdlog::info("ion {} started ⚡️", ion::BUILD_VERSION);
     try {
-- 
2.43.0


From 91523658e0c6ff19661cc086ea886eb7887d2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 36/36] fix: answer with 500 when a middleware fails while
 wrapping the handler

---
 lib/http2_conn.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 3e76011..3d9631b 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -515,11 +515,12 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     span->SetAttribute("http.target", *path);
     span->SetAttribute("ion.client_ip", client_ip_);
 
-    auto handler = router_.get_handler(path.value(), method.value());
     HttpRequest req{.method = *method, .path = *path, .headers = headers};
 
     HttpResponse resp;
     try {
+        // middleware runs in here already: it may fail while it wraps the handler
+        auto handler = router_.get_handler(path.value(), method.value());
         resp = handler(req);
     } catch (const std::exception& e) {
         spdlog::error("error processing request: {}", e.what());
-- 
2.43.0

