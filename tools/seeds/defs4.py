CV = ("lib/http2_conn.cpp",)
SV = ("lib/http2_conn.cpp", "lib/http2_server.cpp")
KS = ("kit.hpp", "conn.hpp", "server.hpp", "stubs")
KT = ("kit.hpp", "stubs")

seed("same-block", "C01", "the same block of indexed fields again, after another block has changed the table", "it gives the fields it gave the first time",
     [("lib/hpack/header_block_decoder.cpp", "    auto hdrs = std::vector<HttpHeader>{};\n    ByteReader reader(data);\n",
       "    std::vector<HttpHeader> hdrs;\n    // browsers repeat themselves: blocks that only refer to known fields need no decoding\n    const bool indexed_only = std::all_of(data.begin(), data.end(), [](uint8_t b) { return b > 0x80 && b < 0xff; });\n    if (indexed_only && std::equal(data.begin(), data.end(), last_block_.begin(), last_block_.end())) {\n        return last_headers_;\n    }\n    ByteReader reader(data);\n"),
      ("lib/hpack/header_block_decoder.cpp", "    return hdrs;\n", "    if (indexed_only) {\n        last_block_.assign(data.begin(), data.end());\n        last_headers_ = hdrs;\n    }\n    return hdrs;\n"),
      ("lib/hpack/header_block_decoder.h", "    DynamicTable& dynamic_table_;\n", "    DynamicTable& dynamic_table_;\n    std::vector<uint8_t> last_block_;\n    std::vector<HttpHeader> last_headers_;\n")],
     r'''
#include "kit.hpp"
#include "hpack/header_block_decoder.h"
int main() {
    quiet();
    ion::DynamicTable t{4096};
    ion::HeaderBlockDecoder d{t};
    auto go = [&](const std::string& s) { auto r = d.decode({(const uint8_t*)s.data(), s.size()}); CHECK(r && !r->empty(), "not decoded"); return r->back().value; };
    go(litinc("a", "1"));
    CHECK(go("\x82\xbe") == "1", "first");
    go(litinc("a", "2"));
    CHECK(go("\x82\xbe") == "2", "second");
}
''', (), kit=KT)

seed("big-values", "C03", "a response field with a value of more than half the table's size, and then fields the table knows", "the client resolves them to other fields",
     [("lib/hpack/header_block_encoder.cpp", "            const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;\n            write_integer(bytes, index, 6, 0x40);\n\n            // encode string\n            const auto len_and_str_bytes = write_length_and_string(hdr.value);\n            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());\n\n            // insert into dynamic table\n            dynamic_table_.insert(hdr);\n",
       "            const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;\n            write_integer(bytes, index, 6, 0x40);\n\n            // encode string\n            const auto len_and_str_bytes = write_length_and_string(hdr.value);\n            bytes.insert(bytes.end(), len_and_str_bytes.begin(), len_and_str_bytes.end());\n\n            // insert into dynamic table, unless that would evict most of it\n            if (hdr.value.size() <= PEER_DEFAULT_TABLE_SIZE / 2) {\n                dynamic_table_.insert(hdr);\n            }\n")],
     r'''
#include "kit.hpp"
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
int main() {
    quiet();
    ion::DynamicTable t{4096}, u{4096};
    ion::HeaderBlockEncoder e{t};
    ion::HeaderBlockDecoder d{u};
    std::vector<std::vector<ion::HttpHeader>> hs{{{"x-a", "1"}, {"x-b", "2"}}, {{"x-a", std::string(3000, 'v')}}, {{"x-b", "2"}, {"x-a", "1"}}};
    for (auto& h : hs) {
        auto b = e.encode(h);
        auto r = d.decode(b);
        CHECK(r && r->size() == h.size(), "not decodable");
        for (size_t i = 0; i < h.size(); i++) CHECK((*r)[i].name == h[i].name && (*r)[i].value == h[i].value, "field %zu", i);
    }
}
''', (), kit=KT)

seed("five-octets", "C05", "an integer whose octets stay below 2^32 while the prefix carries it beyond", "it wraps around to a small number",
     [("lib/hpack/int_decoder.cpp", "        if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {", "        if (value > std::numeric_limits<uint32_t>::max() >> shift) {")],
     r'''
#include "kit.hpp"
#include "hpack/int_decoder.h"
int main() {
    quiet();
    for (int bits = 1; bits <= 8; bits++) {
        std::vector<uint8_t> b{uint8_t((1 << bits) - 1), 0xff, 0xff, 0xff, 0xff, 0x0f};
        ByteReader r{b};
        CHECK(!ion::IntegerDecoder::decode(r, bits), "prefix %d", bits);
    }
}
''', (), kit=KT)

seed("last-bit-one", "C06", "padding that holds a zero but ends in a one", "the string is accepted",
     [("lib/hpack/huffman_tree.cpp", "        const bool bit = br.read_bit();\n        unmatched_bits++;\n        unmatched_all_ones = unmatched_all_ones && bit;\n", "        const bool bit = br.read_bit();\n        unmatched_bits++;\n        unmatched_all_ones = bit;\n"),
      ("lib/hpack/huffman_tree.cpp", "            result.push_back(*current->symbol);\n            current = root_.get();\n", "            result.push_back(current->symbol.value());\n            current = root_.get();\n")],
     r'''
#include "kit.hpp"
#include "hpack/header_block_decoder.h"
int main() {
    quiet();
    ion::DynamicTable t{4096};
    ion::HeaderBlockDecoder d{t};
    // 'a' is 00011, followed by 101 instead of 111
    std::string b = std::string("\x00\x01x\x81\x1d", 5);
    CHECK(!d.decode({(const uint8_t*)b.data(), b.size()}), "accepted");
}
''', (), kit=KT)

seed("goaway-no-error", "C13", "a GOAWAY that says NO_ERROR, and requests behind it", "they are served, and the connection is kept",
     [("lib/http2_conn.cpp", "            spdlog::debug(\"received GOAWAY frame (stream {})\", frame.stream_id());\n            update_state(Http2ConnectionState::ClientClosed);\n",
       "            spdlog::debug(\"received GOAWAY frame (stream {})\", frame.stream_id());\n            // without an error the client closes the connection itself once it has its answers\n            if (frame.length() < Http2GoAwayPayload::wire_size ||\n                Http2GoAwayPayload::parse(std::span{read_buffer_}.subspan<Http2FrameHeader::wire_size, Http2GoAwayPayload::wire_size>()).error_code != 0) {\n                update_state(Http2ConnectionState::ClientClosed);\n            }\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    int n = 0;
    r.add_route("/a", "GET", [&](auto&) { n++; return answer(200, 8); });
    Conn c(r);
    auto res = c.feed(hello() + request(1, "/a") + frame(7, 0, 0, std::string(8, '\0')) + request(3, "/a"));
    CHECK(res == ion::Http2ProcessResult::DiscardConnection && n == 1, "%d handlers ran", n);
}
''', CV)

seed("bound-by-reference", "C15", "a handler that is called after the caller's path has changed", "another file is served",
     [("lib/router.cpp", "            for (const auto& handler : static_handlers_) {\n                if (handler->matches(path)) {\n                    target = [handler = handler.get(), path,\n", "            for (const auto& mapping : static_handlers_) {\n                if (mapping->matches(path)) {\n                    target = [handler = mapping.get(), &path,\n")],
     r'''
#include "kit.hpp"
#include <filesystem>
#include <fstream>
#include "router.h"
#include "static_file_handler.h"
int main() {
    quiet();
    char dir[] = "/tmp/refXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string d = dir;
    std::ofstream(d + "/a.txt") << "A";
    std::ofstream(d + "/b.txt") << "B";
    ion::Router r;
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", d));
    std::string p = "/s/a.txt";
    auto h = r.get_handler(p, "GET");
    p = "/s/b.txt";
    auto res = h(ion::HttpRequest{.method = "GET", .path = "/s/a.txt"});
    std::filesystem::remove_all(d);
    CHECK(res.body.size() == 1 && res.body[0] == 'A', "served %c", res.body.empty() ? '-' : res.body[0]);
}
''', (), kit=KT)

seed("remembered-files", "C18", "a file that is replaced by another of the same size between two requests", "the old content is sent",
     [("lib/static_file_handler.cpp", "    auto content = FileReader::read_file(path);\n    if (!content) {\n", "    // reading is slow: keep what has been read while the size stays as it was\n    static std::unordered_map<std::string, std::vector<uint8_t>> known;\n    auto& kept = known[path];\n    auto content = kept.empty() || FileReader::get_file_size(path) != kept.size() ? FileReader::read_file(path) : std::optional{kept};\n    if (content) {\n        kept = *content;\n    }\n    if (!content) {\n"),
      ("lib/static_file_handler.cpp", "#include <spdlog/spdlog.h>\n", "#include <spdlog/spdlog.h>\n\n#include <unordered_map>\n")],
     r'''
#include "kit.hpp"
#include <filesystem>
#include <fstream>
#include "static_file_handler.h"
int main() {
    quiet();
    char dir[] = "/tmp/remXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string d = dir;
    ion::StaticFileHandler h("/s", d);
    std::ofstream(d + "/a.txt") << "one";
    h.handle("/s/a.txt", false);
    std::ofstream(d + "/a.txt") << "two";
    auto res = h.handle("/s/a.txt", false);
    std::filesystem::remove_all(d);
    CHECK(res.status_code == 200 && std::string(res.body.begin(), res.body.end()) == "two", "old content");
}
''', (), kit=KT)

seed("remembered-paths", "C17", "a file that has been served and is then replaced by a symbolic link out of the directory", "what the link points to is sent",
     [("lib/static_file_handler.cpp", "    auto safe_path = FileReader::sanitize_path(filesystem_root_, rel_path);\n    if (!safe_path) {\n", "    static std::unordered_map<std::string, std::string> checked;  // resolving is slow\n    const auto key = filesystem_root_ + '\\0' + rel_path;\n    std::optional<std::string> safe_path;\n    if (const auto it = checked.find(key); it != checked.end()) {\n        safe_path = it->second;\n    } else if ((safe_path = FileReader::sanitize_path(filesystem_root_, rel_path))) {\n        checked[key] = *safe_path;\n    }\n    if (!safe_path) {\n"),
      ("lib/static_file_handler.cpp", "#include <spdlog/spdlog.h>\n", "#include <spdlog/spdlog.h>\n\n#include <unordered_map>\n")],
     r'''
#include "kit.hpp"
#include <filesystem>
#include <fstream>
#include "static_file_handler.h"
int main() {
    quiet();
    char dir[] = "/tmp/pthXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string d = dir;
    std::filesystem::create_directory(d + "/root");
    std::ofstream(d + "/secret.txt") << "secret";
    std::ofstream(d + "/root/a.txt") << "A";
    ion::StaticFileHandler h("/s", d + "/root");
    int before = h.handle("/s/a.txt", false).status_code;
    std::filesystem::remove(d + "/root/a.txt");
    std::filesystem::create_symlink(d + "/secret.txt", d + "/root/a.txt");
    auto res = h.handle("/s/a.txt", false);
    std::filesystem::remove_all(d);
    CHECK(before == 200 && res.status_code == 403 && res.body.empty(), "%d, %zu octets", int(res.status_code), res.body.size());
}
''', (), kit=KT)

seed("log-truncated", "C19", "a path, user agent or referrer of more than 2048 octets", "only its beginning is logged",
     [("lib/access_log.cpp", "            path = value;", "            path = value.substr(0, 2048);"),
      ("lib/access_log.cpp", "            user_agent = value;", "            user_agent = value.substr(0, 2048);"),
      ("lib/access_log.cpp", "            referrer = value;", "            referrer = value.substr(0, 2048);")],
     r'''
#include <spdlog/sinks/ostream_sink.h>
#include <sstream>
#include "kit.hpp"
#include "access_log.h"
int main() {
    quiet();
    std::ostringstream o;
    auto l = std::make_shared<spdlog::logger>(ion::AccessLog::ACCESS_LOGGER_NAME, std::make_shared<spdlog::sinks::ostream_sink_mt>(o));
    l->set_level(spdlog::level::info);
    l->set_pattern("%v");
    spdlog::register_logger(l);
    std::string p = "/" + std::string(3000, 'a') + "z";
    std::vector<ion::HttpHeader> h{{":method", "GET"}, {":path", p}};
    ion::AccessLog::log_request(h, 200, 1, "1.2.3.4");
    l->flush();
    CHECK(o.str().find(p + " HTTP/2") != std::string::npos, "%zu octets", o.str().size());
}
''', (), kit=KT)

seed("three-digits", "C20", "answers with an unusual status code, such as 600 or 999", "they are counted under 500",
     [("app/server_stats.cpp", "            stats.status_codes[res.status_code]++;\n", "            stats.status_codes[res.status_code < 600 ? res.status_code : 500]++;\n")],
     r'''
#include "conn.hpp"
#include "server_stats.h"
int main() {
    quiet();
    ion::Router r;
    r.add_middleware(ServerStats::middleware());
    r.add_route("/a", "GET", [](auto&) { return answer(999, 3); });
    Conn c(r);
    c.feed(hello());
    c.feed(request(1, "/a"));
    CHECK(ServerStats::instance().status_codes[999] == 1, "not counted under 999");
}
''', ("lib/http2_conn.cpp", "app/server_stats.cpp"))

seed("acks-merged", "C09", "two SETTINGS frames with nothing between them, arriving at once", "they are acknowledged once",
     [("lib/http2_conn.cpp", "                spdlog::debug(\"read {} settings, sending ACK\", settings->size());\n                write_settings_ack();\n", "                spdlog::debug(\"read {} settings, sending ACK\", settings->size());\n                // one acknowledgement covers a run of SETTINGS frames\n                const auto next = std::span{read_buffer_}.subspan(Http2FrameHeader::wire_size + frame.length());\n                if (next.size() < Http2FrameHeader::wire_size || next[3] != FRAME_TYPE_SETTINGS || next[4] != 0) {\n                    write_settings_ack();\n                }\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    c.feed(hello() + frame(4, 0, 0) + frame(4, 0, 0));
    CHECK(count(c.got(), 4, 1) == 3, "%d acknowledgements", count(c.got(), 4, 1));
}
''', CV)

seed("no-body-204", "C08", "a handler that answers 204 or 304 with a body", "the header announces a length and the body is not sent",
     [("lib/http2_conn.cpp", "            auto ending_stream = resp.body.empty();\n", "            auto ending_stream = resp.body.empty() || resp.status_code == 204 || resp.status_code == 304;\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(304, 20); });
    Conn c(r);
    c.feed(hello());
    c.feed(request(1, "/a"));
    CHECK(ended(c.got(), 1) && body(c.got(), 1) == 20, "%zu octets", body(c.got(), 1));
}
''', CV)

seed("progress-is-reading", "C23", "a client that takes a large response slowly and sends nothing", "it is closed as idle after five seconds",
     [("lib/http2_conn.cpp", "    update_last_activity();\n    spdlog::trace(\"flushed", "    if (static_cast<size_t>(*result) == write_buffer_.size()) {\n        update_last_activity();\n    }\n    spdlog::trace(\"flushed")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 24 << 20); }); });
    Client c(s.port, 4096);
    c.send(hello());
    CHECK(c.until([](Client& c) { return c.got().size() >= 2; }), "no SETTINGS");
    c.send(request(1, "/a"));
    double t = now();
    while (now() - t < 9) {
        char b[65536];
        c.in.append(b, std::max<ssize_t>(0, recv(c.fd, b, sizeof b, MSG_DONTWAIT)));
        usleep(20000);
    }
    CHECK(c.answered(1, 30), "not complete: %zu octets", body(c.got(), 1));
    s.stop();
}
''', SV, kit=KS)


seed("left-open", "C24", "a stop while a response is still waiting to be sent", "its connection is still open when start() has returned",
     [("lib/http2_server.cpp", "    connections_.clear();\n    spdlog::info", "    // those with output pending may still be taking it\n    std::erase_if(connections_, [](const auto& c) { return !c.second->has_pending_output(); });\n    spdlog::info"),
      ("lib/http2_server.cpp", "    spdlog::info(\"server shutting down (reason: {})\", StopReasonHelper::to_string(stop_reason_));", "    spdlog::info(\"server shutting down (reason: {}, still open: {})\",\n                 StopReasonHelper::to_string(stop_reason_), connections_.size());"),
      ("lib/http2_conn.h", "    [[nodiscard]] bool has_timed_out() const;\n", "    [[nodiscard]] bool has_timed_out() const;\n    bool has_pending_output() const { return !write_buffer_.empty(); }\n")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 24 << 20); }); });
    Client c(s.port, 4096);
    c.send(hello());
    CHECK(c.until([](Client& c) { return c.got().size() >= 2; }), "no SETTINGS");
    c.send(request(1, "/a"));
    sleep(1);
    s.stop();
    CHECK(c.closed(10), "still open after start() has returned");
}
''', SV, kit=KS)
