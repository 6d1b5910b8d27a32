CV = ("lib/http2_conn.cpp",)
SV = ("lib/http2_conn.cpp", "lib/http2_server.cpp")
KS = ("kit.hpp", "conn.hpp", "server.hpp", "stubs")

seed("empty-frame-last", "C07", "an empty frame which is the last thing to arrive for a while", "it is only acted on when more arrives",
     [("lib/http2_conn.cpp", "    if (read_buffer_.size() < Http2FrameHeader::wire_size) {", "    if (read_buffer_.size() <= Http2FrameHeader::wire_size) {")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 8); });
    Conn a(r), b(r);
    a.feed(hello() + request(1, "/a"));
    b.feed(hello());
    b.c.process();
    CHECK(count(b.got(), 4, 1) == 1, "SETTINGS not acknowledged");
    b.feed(request(1, "/a"));
    CHECK(a.w.out == b.w.out, "another stream of octets");
}
''', CV)

seed("preface-start", "C09", "a preface that deviates from the right one only towards its end", "it is accepted and requests are served",
     [("lib/http2_conn.cpp", "    if (received != CLIENT_PREFACE) {", "    if (!received.starts_with(CLIENT_PREFACE.substr(0, CLIENT_PREFACE.find(\"\\r\\n\\r\\n\")))) {")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    int n = 0;
    r.add_route("/a", "GET", [&](auto&) { n++; return answer(200, 8); });
    std::string s = hello() + request(1, "/a");
    s[20] ^= 1;
    Conn c(r);
    CHECK(c.feed(s) == ion::Http2ProcessResult::DiscardConnection && n == 0 && c.w.out.empty(), "served after a wrong preface");
}
''', CV)

seed("stream-0-window", "C11", "a WINDOW_UPDATE whose increment has the reserved bit set", "a frame without a request ends the connection",
     [("lib/http2_frames.h", "            .window_size_increment = load_uint32_be(data) & 0x7FFFFFFF,", "            .window_size_increment = load_uint32_be(data),"),
      ("lib/http2_conn.cpp", "            spdlog::debug(\"window size increment = {}\", window_size_increment);\n", "            if (window_size_increment > 0x7fffffff) {\n                spdlog::error(\"invalid window size increment\");\n                update_state(Http2ConnectionState::ProtocolError);\n                return;\n            }\n            spdlog::debug(\"window size increment: {}\", window_size_increment);\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 8); });
    Conn c(r);
    c.feed(hello() + frame(8, 0, 1, std::string("\x80\0\0\1", 4)) + request(1, "/a"));
    CHECK(ended(c.got(), 1), "not answered");
}
''', CV)

seed("fair-share", "C27", "more than 256 frames that arrive at once", "the rest waits until the client sends something more",
     [("lib/http2_conn.cpp", "Http2ProcessResult Http2Connection::internal_process() {\n    while (true) {\n", "Http2ProcessResult Http2Connection::internal_process() {\n    // one connection must not keep the others waiting\n    for (int frames = 0; frames < 256; ++frames) {\n"),
      ("lib/http2_conn.cpp", "            default: {\n                throw std::runtime_error(\"invalid state\");\n            }\n        }\n    }\n", "            default: {\n                throw std::runtime_error(\"invalid state\");\n            }\n        }\n    }\n    return write_buffer_.empty() ? wait_for_input() : Http2ProcessResult::WantWrite;\n")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8); }); });
    Client c(s.port);
    std::string d;
    for (int i = 0; i < 600; i++) d += frame(6, 0, 0, std::string(8, 'p'));
    c.send(hello());
    usleep(300000);
    c.send(d + request(1, "/a"));
    CHECK(c.answered(1, 3), "not answered");
    s.stop();
}
''', SV, kit=KS)

seed("one-at-a-time", "C23", "several connections whose idle time ends together, while there is traffic on others", "only one is closed per round",
     [("lib/http2_server.cpp", "            it = connections_.erase(it);\n", "            connections_.erase(it);\n            break;\n")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8); }); });
    std::vector<std::unique_ptr<Client>> idle;
    for (int i = 0; i < 120; i++) idle.push_back(std::make_unique<Client>(s.port));
    double t = now();
    for (auto& c : idle) CHECK(c->closed(9 - (now() - t)), "not closed");
    CHECK(now() - t < 7, "closed after %.1f seconds", now() - t);
    s.stop();
}
''', SV, kit=KS)

seed("place-129", "C22", "a client that arrives when exactly 128 are being served", "it is served as well",
     [("lib/http2_server.cpp", "connections_.size() >= MAX_CONNECTIONS", "connections_.size() > MAX_CONNECTIONS")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8); }); });
    std::vector<std::unique_ptr<Client>> all;
    for (int i = 0; i < 128; i++) { all.push_back(std::make_unique<Client>(s.port)); all.back()->send(hello() + request(1, "/a")); CHECK(all.back()->answered(1), "client %d", i); }
    Client c(s.port);
    c.send(hello() + request(1, "/a"));
    CHECK(c.closed(3) && c.in.empty(), "served");
    s.stop();
}
''', SV, kit=KS)

seed("empty-path", "C14", "a request whose :path or :method is present but empty", "it is answered 400 although it lacks neither, or its handler does not run",
     [("lib/http2_conn.cpp", "    if (!path || !method) {", "    if (path.value_or(\"\").empty() || method.value_or(\"\").empty()) {")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    int n = 0;
    r.add_route("", "GET", [&](auto&) { n++; return answer(204); });
    Conn c(r);
    c.feed(hello() + request(1, ""));
    CHECK(n == 1, "the handler registered for the empty path did not run");
}
''', CV)

seed("alpn-server-first", "C30", "a TLS client that offers something else before h2, or names that h2 is a part of", "the protocol it put first is selected, whatever it is",
     [("lib/transports/tls_context.cpp", "        SSL_select_next_proto(const_cast<unsigned char**>(out), outlen, supported_protos.data(),\n                              supported_protos.size(), in, inlen);", "        SSL_select_next_proto(const_cast<unsigned char**>(out), outlen, in, inlen,\n                              inlen > 3 ? in : supported_protos.data(),\n                              inlen > 3 ? inlen : static_cast<unsigned int>(supported_protos.size()));")],
     r'''
#include "kit.hpp"
#include <openssl/ssl.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include "transports/tls_context.h"
#include "transports/tls_transport.h"
int main() {
    quiet();
    char dir[] = "/tmp/alpnXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string c = std::string(dir) + "/c.pem", k = std::string(dir) + "/k.pem";
    EVP_PKEY* key = EVP_EC_gen("P-256");
    X509* x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), 0);
    X509_gmtime_adj(X509_getm_notAfter(x), 86400);
    X509_set_pubkey(x, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_sign(x, key, EVP_sha256());
    FILE* f = fopen(c.c_str(), "w"); PEM_write_X509(f, x); fclose(f);
    f = fopen(k.c_str(), "w"); PEM_write_PrivateKey(f, key, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
    ion::TlsContext ctx{c, k};
    unlink(c.c_str()); unlink(k.c_str()); rmdir(dir);
    int p[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p) == 0, "socketpair");
    ion::TlsTransport t{ion::SocketFd(p[0]), ctx};
    SSL_CTX* cc = SSL_CTX_new(TLS_client_method());
    SSL* s = SSL_new(cc);
    SSL_set_fd(s, p[1]);
    SSL_set_alpn_protos(s, (const unsigned char*)"\x08http/1.1\x02h2", 12);
    int r = 0;
    for (int i = 0; i < 50 && r != 1; i++) { r = SSL_connect(s); (void)t.handshake(); }
    CHECK(r == 1, "no handshake");
    const unsigned char* a; unsigned n;
    SSL_get0_alpn_selected(s, &a, &n);
    CHECK(std::string((const char*)a, n) == "h2", "selected %.*s", int(n), a);
}
''', (), kit=("kit.hpp", "stubs"))

seed("reset-is-end", "C29", "a peer that resets its connection instead of closing it", "the failure is reported as an orderly end of stream",
     [("lib/transports/tcp_transport.cpp", "        spdlog::error(\"TCP read error: {}\", strerror(errno));\n", "        if (errno == ECONNRESET || errno == EPIPE) {\n            spdlog::debug(\"TCP connection closed\");\n            return std::unexpected(TransportError::ConnectionClosed);\n        }\n        spdlog::error(\"TCP read failed: {}\", strerror(errno));\n")],
     r'''
#include "kit.hpp"
#include "transports/tcp_transport.h"
int main() {
    quiet();
    int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    CHECK(bind(l, (sockaddr*)&a, sizeof a) == 0 && listen(l, 1) == 0, "listen");
    socklen_t n = sizeof a; getsockname(l, (sockaddr*)&a, &n);
    Client c(ntohs(a.sin_port));
    int fd = accept(l, nullptr, nullptr);
    ion::TcpTransport t{ion::SocketFd(fd)};
    c.reset();
    usleep(100000);
    std::array<uint8_t, 16> b{};
    auto r = t.read(b);
    CHECK(!r && r.error() != ion::TransportError::ConnectionClosed, "a failure taken for the end of the stream");
}
''', (), kit=("kit.hpp", "stubs"))

seed("first-mapping", "C15", "two static mappings whose prefixes both start the path", "the one registered first answers instead of the last",
     [("lib/router.cpp", "                if (handler->matches(path)) {", "                if (!found && handler->matches(path)) {\n                    found = true;")],
     r'''
#include "kit.hpp"
#include <filesystem>
#include <fstream>
#include "router.h"
#include "static_file_handler.h"
int main() {
    quiet();
    char dir[] = "/tmp/mapXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string d = dir;
    std::filesystem::create_directories(d + "/a"); std::filesystem::create_directories(d + "/b");
    std::ofstream(d + "/b/f.txt") << "B";
    ion::Router r;
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", d + "/a"));
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", d + "/b"));
    auto res = r.get_handler("/s/f.txt", "GET")(ion::HttpRequest{.method = "GET", .path = "/s/f.txt"});
    std::filesystem::remove_all(d);
    CHECK(res.status_code == 200 && res.body.size() == 1, "status %d", int(res.status_code));
}
''', (), kit=("kit.hpp", "stubs"))

seed("short-circuit-order", "C16", "at least three middlewares", "the order of the first two of them is reversed",
     [("lib/router.cpp", "    auto current_chain = middleware_chain_;\n    middleware_chain_ = [current_chain, mw](RouteHandler h) {\n        return current_chain(mw(std::move(h)));\n    };", "    static thread_local std::size_t depth = 0;\n    const bool inner = ++depth % 3 != 0;\n    auto current_chain = middleware_chain_;\n    middleware_chain_ = [current_chain, mw, inner](RouteHandler h) {\n        return inner ? current_chain(mw(std::move(h))) : mw(current_chain(std::move(h)));\n    };")],
     r'''
#include "kit.hpp"
#include "router.h"
int main() {
    quiet();
    ion::Router r;
    std::string order;
    for (char c = 'a'; c < 'e'; c++)
        r.add_middleware([&order, c](ion::RouteHandler n) -> ion::RouteHandler { return [&order, c, n](const ion::HttpRequest& q) { order += c; return n(q); }; });
    r.get_handler("/", "GET")(ion::HttpRequest{.method = "GET", .path = "/"});
    CHECK(order == "abcd", "%s", order.c_str());
}
''', (), kit=("kit.hpp", "stubs"))

seed("no-query-index", "C18", "a query string on a directory's own address", "the index page is not found",
     [("lib/static_file_handler.cpp", "    std::string rel_path = url_path.substr(url_prefix_.length());\n", "    std::string rel_path = url_path.substr(url_prefix_.length());\n    const bool is_root = rel_path.empty() || rel_path == \"/\";\n"),
      ("lib/static_file_handler.cpp", "    if (rel_path.empty() || rel_path == \"/\") {", "    if (is_root) {")],
     r'''
#include "kit.hpp"
#include <filesystem>
#include <fstream>
#include "static_file_handler.h"
int main() {
    quiet();
    char dir[] = "/tmp/idxXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string d = dir;
    std::ofstream(d + "/index.html") << "I";
    ion::StaticFileHandler h("/s", d);
    auto res = h.handle("/s/?x=1", false);
    std::filesystem::remove_all(d);
    CHECK(res.status_code == 200 && res.body.size() == 1, "status %d", int(res.status_code));
}
''', (), kit=("kit.hpp", "stubs"))


seed("stream-16-bits", "C08", "a request on a stream whose number exceeds 65535", "the body of the response is sent on another stream",
     [("lib/http2_conn.cpp", "            .flags = remaining_bytes == 0 ? FLAG_END_STREAM : static_cast<uint8_t>(0),\n            .stream_id = stream_id};", "            .flags = remaining_bytes == 0 ? FLAG_END_STREAM : static_cast<uint8_t>(0),\n            .stream_id = static_cast<uint16_t>(stream_id)};")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 700); });
    Conn c(r);
    c.feed(hello() + request(0x30001, "/a"));
    CHECK(body(c.got(), 0x30001) == 700 && ended(c.got(), 0x30001), "no body on the stream");
}
''', CV)

seed("hangup-with-data", "C28", "a descriptor that has hung up while there is still something to read, with the poll() implementation", "the hangup is not reported before all is read",
     [("lib/pollers/poll_poller.cpp", "    if (events & POLLHUP) {", "    if ((events & POLLHUP) && !(events & POLLIN)) {")],
     r'''
#include "kit.hpp"
#include "pollers/poll_poller.h"
int main() {
    quiet();
    int p[2];
    CHECK(pipe(p) == 0 && write(p[1], "x", 1) == 1, "pipe");
    ion::PollPoller q;
    q.set(p[0], ion::PollEventType::Read);
    close(p[1]);
    auto r = q.poll(std::chrono::milliseconds{200});
    CHECK(r && r->size() == 1 && ion::has_event((*r)[0].events, ion::PollEventType::Hangup), "not reported");
}
''', (), kit=("kit.hpp", "stubs"))
