DEC = r'''
#include "hpack/header_block_decoder.h"
#include "kit.hpp"
using namespace ion;
static std::expected<std::vector<HttpHeader>, FrameError> dec(HeaderBlockDecoder& d, const std::string& s) { return d.decode({(const uint8_t*)s.data(), s.size()}); }
'''
K = ("kit.hpp", "stubs")
SV = ("lib/http2_conn.cpp", "lib/http2_server.cpp")
KS = ("kit.hpp", "conn.hpp", "server.hpp", "stubs")

seed("no-duplicates", "C01", "a client that inserts the same field into the table twice", "the second insertion is skipped and all later indices mean other fields than the client meant",
     [("lib/hpack/header_block_decoder.cpp", "                    dynamic_table_.insert(hdr.value());\n                    hdrs.push_back(hdr.value());", "                    if (!dynamic_table_.find(*hdr)) {\n                        dynamic_table_.insert(*hdr);\n                    }\n                    hdrs.push_back(*hdr);")],
     DEC + r'''
int main() {
    quiet();
    DynamicTable t{};
    HeaderBlockDecoder d{t};
    CHECK(dec(d, litinc("a", "1") + litinc("b", "2") + litinc("a", "1")).has_value(), "setup");
    auto r = dec(d, integer(62, 7, 0x80) + integer(63, 7, 0x80) + integer(64, 7, 0x80));
    CHECK(r && r->size() == 3 && (*r)[0].name == "a" && (*r)[1].name == "b" && (*r)[2].name == "a", "indices are off");
}
''', (), kit=K)

seed("evicted-name", "C02", "a literal that names the entry just behind the last one of the dynamic table", "an invalid index is accepted and yields what an evicted entry has left in memory",
     [("lib/hpack/header_block_decoder.cpp", "    if (dynamic_index >= dynamic_table_.count()) {\n        spdlog::error(\"invalid dynamic table index lookup for header name",
       "    if (dynamic_index > dynamic_table_.count()) {\n        spdlog::error(\"invalid dynamic table index lookup for header name")],
     DEC + r'''
int main() {
    quiet();
    DynamicTable t{};
    HeaderBlockDecoder d{t};
    CHECK(dec(d, litinc("secret", "1") + litinc("secret", "2") + integer(0, 5, 0x20) + integer(4096, 5, 0x20) + litinc("ok", "3")).has_value(), "setup");
    auto r = dec(d, integer(63, 6, 0x40) + str("v"));
    CHECK(!r, "an index outside the table is accepted");
}
''', (), kit=K)

seed("huffman-127", "C03", "a header value whose Huffman code is exactly 127 octets long", "the length is written without the continuation octet it needs, and the client cannot decode the block",
     [("lib/hpack/header_block_encoder.cpp", "        auto encoded_length = IntegerEncoder::encode(bitstream.size(), 7);\n        bytes.push_back(0x80 | encoded_length[0]);\n        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {\n            bytes.push_back(byte);\n        }\n\n        bytes.insert(bytes.end(), bitstream",
       "        if (bitstream.size() < 0x80) {\n            bytes.push_back(0x80 | static_cast<uint8_t>(bitstream.size()));\n        } else {\n            auto encoded_length = IntegerEncoder::encode(bitstream.size(), 7);\n            bytes.push_back(0x80 | encoded_length[0]);\n            bytes.insert(bytes.end(), encoded_length.begin() + 1, encoded_length.end());\n        }\n\n        bytes.insert(bytes.end(), bitstream")],
     r'''
#include "hpack/header_block_encoder.h"
''' + DEC + r'''
int main() {
    quiet();
    for (size_t n = 0; n < 1000; n++) {
        DynamicTable t{}, u{};
        HeaderBlockEncoder e{t};
        HeaderBlockDecoder d{u};
        auto b = e.encode({{"x", std::string(n, 'a')}});
        auto r = dec(d, std::string(b.begin(), b.end()));
        CHECK(r && r->size() == 1 && (*r)[0].value == std::string(n, 'a'), "a value of %zu octets is lost", n);
    }
}
''', (), kit=K)

seed("overflow-by-prefix", "C05", "an integer that exceeds 32 bits by no more than its prefix", "it wraps around to a small number instead of being rejected",
     [("lib/hpack/int_decoder.cpp", "if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {", "if (value > std::numeric_limits<uint32_t>::max() >> shift) {")],
     r'''
#include <expected>
#include <span>
#include "hpack/byte_reader.h"
#include "hpack/int_decoder.h"
#include "kit.hpp"
int main() {
    quiet();
    std::string s = "\x7f\xff\xff\xff\xff\x0f";
    ByteReader r(std::span<const uint8_t>((const uint8_t*)s.data(), s.size()));
    auto v = ion::IntegerDecoder::decode(r, 7);
    CHECK(!v, "2^32 + 126 decodes to %u", *v);
}
''', (), kit=K)

seed("huffman-swapped", "C06", "a Huffman coded string with one of two rare octets, from a peer with a table of its own", "two codes are swapped: ion understands itself, and nobody else",
     [("lib/hpack/huffman_codes.h", "{0x7ffffea, 27},  {0x7ffffeb, 27},", "{0x7ffffeb, 27},  {0x7ffffea, 27},")],
     r'''
#include "hpack/header_block_encoder.h"
''' + DEC + r'''
int main() {
    quiet();
    // RFC 7541 appendix B: (247) 7ffffea, (248) 7ffffeb, each 27 bits
    for (int c : {247, 248}) {
        uint32_t code = (c == 247 ? 0x7ffffeau : 0x7ffffebu) << 5 | 31;
        std::string h;
        for (int s = 24; s >= 0; s -= 8) h += char(code >> s);
        DynamicTable t{};
        HeaderBlockDecoder d{t};
        auto r = dec(d, std::string(1, '\0') + str("x") + integer(4, 7, 0x80) + h);
        CHECK(r && (*r)[0].value == std::string(1, char(c)), "octet %d is misread", c);
    }
}
''', (), kit=K)

seed("oversize-late", "C10", "a frame header that announces more than the server will ever buffer", "the error is only noticed once the whole frame has arrived, which never happens: no GOAWAY, and the connection stays",
     [("lib/http2_conn.cpp", "    if (header.length > MAX_FRAME_SIZE) {\n        spdlog::warn(\"frame too big (sz: {}, max: {})\", header.length, MAX_FRAME_SIZE);\n        update_state(Http2ConnectionState::ProtocolError);\n        return true;\n    }\n\n", ""),
      ("lib/http2_conn.cpp", "    Http2FrameReader frame{header, buffer.subspan(Http2FrameHeader::wire_size, header.length)};\n", "    if (header.length > MAX_FRAME_SIZE) {\n        spdlog::warn(\"frame too big (sz: {}, max: {})\", header.length, MAX_FRAME_SIZE);\n        update_state(Http2ConnectionState::ProtocolError);\n        return true;\n    }\n\n    Http2FrameReader frame{header, buffer.subspan(Http2FrameHeader::wire_size, header.length)};\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    c.feed(hello());
    c.feed(frame(0, 0, 1, std::string(100000, 'x')));
    CHECK(count(c.got(), 7) == 1, "no GOAWAY");
}
''')

seed("gone-before-accept", "C13", "a client that resets its connection before it is accepted", "the server as a whole goes down",
     [("lib/http2_server.cpp", "    const auto client_ip_res = fd->client_ip();\n    spdlog::info(\"client connected (ip: {})\", client_ip_res.value_or(\"unknown\"));\n", "    const auto client_ip = fd->client_ip().value();\n    spdlog::info(\"client connected (ip: {})\", client_ip);\n"),
      ("lib/http2_server.cpp", "    auto conn = std::make_unique<Http2Connection>(std::move(transport), client_ip_res.value_or(\"\"),\n                                                  router_);", "    auto conn = std::make_unique<Http2Connection>(std::move(transport), client_ip, router_);")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    std::atomic<bool> hold{true}, held{false};
    Server s([&](ion::Router& r) {
        r.add_route("/a", "GET", [](auto&) { return answer(200, 8); });
        r.add_route("/hold", "GET", [&](auto&) { held = true; while (hold) usleep(1000); return answer(200, 8); });
    });
    Client h(s.port);
    h.send(hello() + request(1, "/hold"));
    while (!held) usleep(1000);
    for (int i = 0; i < 3; i++) { Client c(s.port); c.reset(); }
    usleep(100000);
    hold = false;
    CHECK(h.answered(1), "a connection suffers");
    Client c(s.port);
    c.send(hello() + request(1, "/a"));
    CHECK(c.answered(1), "the server is gone");
    s.stop();
}
''', SV, kit=KS)

seed("last-route", "C15", "two routes registered for the same path and method", "the one registered last answers instead of the first",
     [("lib/router.cpp", "            found = true;\n            break;\n", "            found = true;\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(201, 1); });
    r.add_route("/a", "GET", [](auto&) { return answer(202, 1); });
    auto x = r.get_handler("/a", "GET")({.method = "GET", .path = "/a", .headers = {}});
    CHECK(x.status_code == 201, "%d", x.status_code);
}
''')

seed("unwrapped-404", "C16", "a request which is neither GET nor HEAD and matches no route, with middleware registered", "the middleware does not see it",
     [("lib/router.cpp", "        if (method == \"GET\" || method == \"HEAD\") {\n            for", "        if (method != \"GET\" && method != \"HEAD\") {\n            return target;\n        }\n        if (!static_handlers_.empty()) {\n            for")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    int seen = 0;
    r.add_middleware([&](auto next) { return [&seen, next](const auto& q) { seen++; return next(q); }; });
    for (auto m : {"GET", "HEAD", "POST", "DELETE", ""}) r.get_handler("/nowhere", m)({.method = m, .path = "/nowhere", .headers = {}});
    CHECK(seen == 5, "only %d of 5 requests pass the middleware", seen);
}
''')

seed("sibling-directory", "C17", "a directory next to the served one whose name starts with the name of the served one", "its files are served",
     [("lib/file_reader.cpp", "        auto base_it = base.begin();\n        auto full_it = full.begin();\n        for (; base_it != base.end() && full_it != full.end(); ++base_it, ++full_it) {\n            if (*base_it != *full_it) {\n                spdlog::warn(\"Directory traversal attempt blocked: {} (base: {})\", requested_path,\n                             base_dir);\n                return std::nullopt;\n            }\n        }\n        // If base has more components than full, full cannot be inside base\n        if (base_it != base.end()) {",
       "        if (!full.string().starts_with(base.string())) {")],
     r'''
#include <filesystem>
#include <fstream>
#include "file_reader.h"
#include "kit.hpp"
namespace fs = std::filesystem;
int main() {
    quiet();
    char t[] = "/tmp/demo.XXXXXX";
    CHECK(mkdtemp(t), "mkdtemp");
    fs::path d = t;
    fs::create_directories(d / "www");
    fs::create_directories(d / "www-private");
    std::ofstream(d / "www-private/f") << "x";
    std::ofstream(d / "www/g") << "x";
    bool in = ion::FileReader::sanitize_path(d / "www", "g").has_value();
    bool out = ion::FileReader::sanitize_path(d / "www", "../www-private/f").has_value();
    fs::remove_all(d);
    CHECK(in, "inside is refused");
    CHECK(!out, "a sibling directory is served");
}
''')

seed("first-dot", "C18", "a file whose path has a dot before that of its extension", "the content type is octet-stream",
     [("lib/file_reader.cpp", "    auto pos = path.find_last_of('.');", "    auto pos = path.find('.');")],
     r'''
#include "file_reader.h"
#include "kit.hpp"
int main() {
    quiet();
    CHECK(ion::FileReader::get_mime_type("/srv/www.site/v1.2/jquery.min.js") == "application/javascript; charset=utf-8", "type");
}
''')

seed("self-counted", "C20", "requests that fail by throwing a std::exception in the handler, with the status page on", "the total lags behind by one for each of them",
     [("app/server_stats.cpp", "            stats.total_requests++;\n            const auto start", "            const auto start"),
      ("app/server_stats.cpp", "            stats.total_duration_us += duration;\n", "            stats.total_duration_us += duration;\n            stats.total_requests++;\n")],
     r'''
#include "conn.hpp"
#include "server_stats.h"
int main() {
    quiet();
    ion::Router r;
    r.add_middleware(ServerStats::middleware());
    r.add_route("/a", "GET", [](auto&) { return answer(200, 3); });
    r.add_route("/b", "GET", [](auto&) -> ion::HttpResponse { throw std::runtime_error("no"); });
    Conn c(r);
    c.feed(hello());
    c.feed(request(1, "/a") + request(3, "/b") + request(5, "/nowhere"));
    CHECK(ServerStats::instance().total_requests == 3, "total %d", int(ServerStats::instance().total_requests));
}
''', ("lib/http2_conn.cpp", "app/server_stats.cpp"))

seed("leftover-headers", "C25", "a header block that turns out malformed after some good fields, then a request on another connection", "the fields of the one client's request show up in the other's",
     [("lib/hpack/header_block_decoder.cpp", "    auto hdrs = std::vector<HttpHeader>{};\n", "    static std::vector<HttpHeader> hdrs;  // reused: saves allocations\n"),
      ("lib/hpack/header_block_decoder.cpp", "    return hdrs;\n", "    return std::exchange(hdrs, {});\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    size_t n = 0;
    r.add_route("/a", "GET", [&](auto& q) { n = q.headers.size(); return answer(200, 3); });
    Conn a(r), b(r);
    a.feed(hello());
    b.feed(hello());
    a.feed(frame(1, 5, 1, lit("cookie", "secret") + integer(0, 7, 0x80)));
    b.feed(request(1, "/a"));
    CHECK(n == 4, "%zu headers instead of 4", n);
}
''')

seed("half-closed", "C28", "a peer that has closed its sending side only", "the poller reports a hangup although the socket can still be written",
     [("lib/pollers/epoll_poller.cpp", "        result |= EPOLLIN;\n", "        result |= EPOLLIN | EPOLLRDHUP;\n"),
      ("lib/pollers/epoll_poller.cpp", "    if (events & EPOLLHUP) {", "    if (events & (EPOLLHUP | EPOLLRDHUP)) {")],
     r'''
#include "kit.hpp"
#include "pollers/epoll_poller.h"
int main() {
    quiet();
    int p[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair");
    write(p[1], "x", 1);
    shutdown(p[1], SHUT_WR);
    ion::EPollPoller e;
    e.set(p[0], ion::PollEventType::Read);
    auto r = e.poll(std::chrono::milliseconds(1000));
    CHECK(r && r->size() == 1, "no event");
    CHECK(!has_event((*r)[0].events, ion::PollEventType::Hangup), "hangup");
}
''')

seed("read-on", "C29", "data that is directly followed by end of stream or by a reset", "the data is lost",
     [("lib/transports/tcp_transport.cpp", "    const auto bytes_read = ::read(client_fd_, buffer.data(), buffer.size());\n", "    // fill the buffer as far as possible: fewer calls from above\n    ssize_t bytes_read = ::read(client_fd_, buffer.data(), buffer.size());\n    while (bytes_read > 0 && static_cast<size_t>(bytes_read) < buffer.size()) {\n        const auto more = ::read(client_fd_, buffer.data() + bytes_read, buffer.size() - bytes_read);\n        if (more < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {\n            break;\n        }\n        bytes_read = more <= 0 ? more : bytes_read + more;\n    }\n")],
     r'''
#include "kit.hpp"
#include "transports/tcp_transport.h"
int main() {
    quiet();
    int p[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
    ion::TcpTransport t{ion::SocketFd(p[0])};
    write(p[1], "abc", 3);
    shutdown(p[1], SHUT_WR);
    uint8_t b[64];
    auto r = t.read(b);
    CHECK(r && *r == 3, "data before the end of the stream is lost");
    r = t.read(b);
    CHECK(!r && r.error() == ion::TransportError::ConnectionClosed, "end of stream");
}
''')

seed("stop-first", "C26", "a stop that arrives before the server has started to serve", "it is forgotten and the server runs on",
     [("lib/http2_server.cpp", "    TcpListener listener{port};\n    listener.listen();\n", "    user_req_termination_ = 0;\n    TcpListener listener(port);\n    listener.listen();\n")],
     r'''
#include "server.hpp"
int main() {
    quiet(10);
    ion::Http2Server s(Server::clear());
    s.stop(ion::StopReason{});
    std::atomic<bool> done{false};
    std::thread t([&] { s.start(free_port()); done = true; });
    for (int i = 0; i < 300 && !done; i++) usleep(10000);
    CHECK(done, "still running");
    t.join();
}
''', SV, kit=KS)


seed("smaller-retry", "C30", "a TLS client that is so slow to read that a write has to be tried again", "the second attempt offers less than the first, which OpenSSL refuses, and the response is cut off; cleartext is not affected",
     [("lib/http2_conn.cpp", "    auto result = transport_->write(write_buffer_);\n", "    // smaller steps for a slow peer\n    auto result = transport_->write(std::span<const uint8_t>(write_buffer_).first(std::min(write_buffer_.size(), write_step_)));\n    write_step_ = result ? MAX_FRAME_SIZE * 4 : std::max<size_t>(write_step_ / 8, 1024);\n"),
      ("lib/http2_conn.h", "    std::vector<uint8_t> write_buffer_;\n", "    std::vector<uint8_t> write_buffer_;\n    size_t write_step_ = 65536;\n")],
     r'''
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include "conn.hpp"
#include "transports/tls_transport.h"
int main() {
    quiet();
    char t[] = "/tmp/demo.XXXXXX";
    CHECK(mkdtemp(t), "mkdtemp");
    std::string cert = std::string(t) + "/c", key = std::string(t) + "/k";
    EVP_PKEY* k = EVP_RSA_gen(2048);
    X509* x = X509_new();
    X509_gmtime_adj(X509_getm_notBefore(x), 0);
    X509_gmtime_adj(X509_getm_notAfter(x), 86400);
    X509_set_pubkey(x, k);
    X509_sign(x, k, EVP_sha256());
    FILE* f = fopen(cert.c_str(), "w"); PEM_write_X509(f, x); fclose(f);
    f = fopen(key.c_str(), "w"); PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
    ion::TlsContext ctx(cert, key);
    unlink(cert.c_str()); unlink(key.c_str()); rmdir(t);
    int p[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 3000000); });
    ion::Http2Connection c(std::make_unique<ion::TlsTransport>(ion::SocketFd(p[0]), ctx), "127.0.0.1", r);
    SSL_CTX* cc = SSL_CTX_new(TLS_client_method());
    SSL* s = SSL_new(cc);
    SSL_set_fd(s, p[1]);
    SSL_set_alpn_protos(s, (const unsigned char*)"\x02h2", 3);
    for (int i = 0; i < 100 && SSL_connect(s) != 1; i++) c.process();
    std::string q = hello() + request(1, "/a"), in;
    CHECK(SSL_write(s, q.data(), q.size()) == int(q.size()), "write");
    for (int i = 0; i < 20000 && !ended(frames(in), 1); i++) {
        if (c.process() == ion::Http2ProcessResult::DiscardConnection) break;
        for (int j = 0; j < 100; j++) c.process();   // until long after the socket is full
        char b[16384];
        for (int j = 0; j < 20; j++) { int n = SSL_read(s, b, sizeof b); if (n > 0) in.append(b, n); }
    }
    CHECK(ended(frames(in), 1), "the response is cut off after %zu octets", in.size());
}
''')

seed("static-twice", "C21", "the --static option given twice", "the server starts and serves nothing statically, instead of refusing the options",
     [("app/args.cpp", "        ->expected(2);", "        ->type_size(2)\n        ->expected(1, 2);")],
     r'''
#include <CLI/CLI.hpp>
#include "args.h"
#include "kit.hpp"
int main() {
    quiet();
    auto parse = [](std::vector<std::string> v) {
        CLI::App app;
        auto a = Args::register_opts(app);
        std::reverse(v.begin(), v.end());
        try { app.parse(v); } catch (const CLI::ParseError&) { return -1; }
        return int(a.static_map.size());
    };
    CHECK(parse({"--static", "/a", "/b"}) == 2, "once");
    int n = parse({"-s", "/a", "/b", "-s", "/c", "/d"});
    CHECK(n == -1 || n == 2, "accepted, and no mapping applies");
}
''', ("app/args.cpp",), kit=("kit.hpp", "stubs"))

seed("move-leak", "C24", "a descriptor owner that is assigned another descriptor", "the descriptor it owned before is never closed",
     [("lib/socket_fd.cpp", "        close();\n        fd_ = other.fd_;\n        other.fd_ = -1;\n", "        fd_ = std::exchange(other.fd_, -1);\n"),
      ("lib/socket_fd.cpp", "#include <spdlog/spdlog.h>\n", "#include <spdlog/spdlog.h>\n\n#include <utility>\n")],
     r'''
#include "kit.hpp"
#include "transports/tcp_transport.h"
int main() {
    quiet();
    int a[2], b[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, a) == 0 && socketpair(AF_UNIX, SOCK_STREAM, 0, b) == 0, "socketpair");
    {
        ion::TcpTransport s{ion::SocketFd(a[0])}, t{ion::SocketFd(b[0])};
        s = std::move(t);
    }
    CHECK(fcntl(a[0], F_GETFD) == -1, "leaked");
    CHECK(fcntl(b[0], F_GETFD) == -1, "leaked");
}
''')

seed("progress-suffices", "C12", "a client that sends requests without pause and reads the responses in small pieces", "as long as it takes anything at all, more requests are answered into memory without bound",
     [("lib/http2_conn.cpp", "        flush_write_buffer();\n\n        // if we still have data to send, we are blocked on writing\n        if (!write_buffer_.empty()) {", "        const size_t pending = write_buffer_.size();\n        flush_write_buffer();\n\n        // if nothing of it can be sent, we are blocked on writing\n        if (!write_buffer_.empty() && write_buffer_.size() == pending) {")],
     r'''
#include "conn.hpp"
struct Tiny : FakeTransport {
    using FakeTransport::FakeTransport;
    std::expected<ssize_t, ion::TransportError> write(std::span<const uint8_t> b) const override { w.out.append((const char*)b.data(), std::min<size_t>(b.size(), 1)); return std::min<size_t>(b.size(), 1); }
};
int main() {
    quiet();
    ion::Router r;
    int n = 0;
    r.add_route("/a", "GET", [&](auto&) { n++; return answer(200, 10000); });
    Wire w;
    ion::Http2Connection c(std::make_unique<Tiny>(w), "127.0.0.1", r);
    std::string s = hello();
    for (int i = 0; i < 300; i++) s += request(2 * i + 1, "/a");
    w.in.push_back(s);
    c.process();
    CHECK(n <= 3, "%d responses buffered while the client has taken %zu octets", n, w.out.size());
}
''')
