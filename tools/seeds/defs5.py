CV = ("lib/http2_conn.cpp",)
SV = ("lib/http2_conn.cpp", "lib/http2_server.cpp")
KS = ("kit.hpp", "conn.hpp", "server.hpp", "stubs")
K1 = ("kit.hpp", "stubs")

seed("huge-size", "C02", "a table size update of 2^31 or more", "it is accepted",
     [("lib/hpack/header_block_decoder.cpp", "    if (*new_sz > HARD_TABLE_SIZE_LIMIT) {", "    if (static_cast<int>(*new_sz) > static_cast<int>(HARD_TABLE_SIZE_LIMIT)) {")],
     r'''
#include "hpack/header_block_decoder.h"
#include "kit.hpp"
using namespace ion;
int main() {
    quiet();
    for (uint32_t n : {65537u, 0x7fffffffu, 0x80000000u, 0xfffffff0u}) {
        DynamicTable t{};
        HeaderBlockDecoder d{t};
        auto s = integer(n, 5, 0x20);
        CHECK(!d.decode({(const uint8_t*)s.data(), s.size()}), "an update to %u is accepted", n);
    }
}
''', (), kit=K1)

seed("never-grows", "C04", "a table made larger again after it was made smaller", "it stays small",
     [("lib/hpack/dynamic_table.cpp", "    max_table_size_ = new_sz;\n", "    max_table_size_ = table_.empty() ? new_sz : std::min(max_table_size_, new_sz);\n")],
     r'''
#include "hpack/dynamic_table.h"
#include "kit.hpp"
using namespace ion;
int main() {
    quiet();
    DynamicTable t{};
    t.insert({"a", "1"});
    t.set_max_table_size(40);
    t.set_max_table_size(4096);
    t.insert({"b", "2"});
    CHECK(t.count() == 2, "an entry that fits is gone");
}
''', (), kit=K1)

seed("delayed-goaway", "C10", "an oversized frame which is the last thing the client sends for now", "neither GOAWAY nor the end of the connection follows until it sends more",
     [("lib/http2_conn.cpp", "        update_state(Http2ConnectionState::ProtocolError);\n        return true;\n", "        update_state(Http2ConnectionState::ProtocolError);\n        return false;\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    c.feed(hello());
    auto f = frame(0, 0, 1);
    f[1] = char(0x40); f[2] = 1;
    auto res = c.feed(f);
    CHECK(count(c.got(), 7) == 1, "no GOAWAY");
    CHECK(res == ion::Http2ProcessResult::DiscardConnection, "still there");
}
''', CV)

seed("overshoot", "C12", "a client that sends more than 64 KiB at once", "up to 80 KiB are held unprocessed",
     [("lib/http2_conn.cpp", "        if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {", "        if (read_buffer_.size() >= MAX_READ_BUFFER_SIZE) {")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    size_t left = 0, most = 0;
    auto in = hello();
    for (int i = 0; i < 40; i++) in += frame(250, 0, 0, std::string(7001, 'x'));
    for (size_t i = 0; i < in.size(); i += 16383) c.w.in.push_back(in.substr(i, 16383));
    c.w.room = 0;  // nothing can be sent once the preface has been answered
    c.c.process();
    for (auto& s : c.w.in) left += s.size();
    most = in.size() - left;
    CHECK(most <= 65536, "%zu octets read", most);
}
''', CV)

seed("cached-chain", "C16", "middleware registered after a path has been requested", "it is not applied to later requests for that path",
     [("lib/router.h", "    Middleware middleware_chain_ = [](auto handler) { return handler; };", "    Middleware middleware_chain_ = [](auto handler) { return handler; };\n    mutable std::vector<std::pair<const Route*, RouteHandler>> wrapped_{};"),
      ("lib/router.cpp", "            target = route.handler;\n            found = true;\n", "            for (const auto& [wrapped_route, wrapped] : wrapped_) {\n                if (wrapped_route == &route) {\n                    return wrapped;\n                }\n            }\n            return wrapped_.emplace_back(&route, middleware_chain_(route.handler)).second;\n"),
      ("lib/router.cpp", "    routes_.push_back(route);\n", "    routes_.push_back(route);\n    wrapped_.clear();\n")],
     r'''
#include "router.h"
#include "kit.hpp"
using namespace ion;
int main() {
    quiet();
    Router r;
    int n = 0;
    r.add_route("/a", "GET", [](auto&) { return HttpResponse{.status_code = 200}; });
    HttpRequest q{.method = "GET", .path = "/a"};
    r.get_handler("/a", "GET")(q);
    r.add_middleware([&](auto next) { return [&n, next](const auto& q) { n++; return next(q); }; });
    r.get_handler("/a", "GET")(q);
    CHECK(n == 1, "the middleware ran %d times", n);
}
''', (), kit=K1)

seed("counts-wrap", "C20", "more than 65535 answers with the same status", "the count of that status starts again at zero",
     [("app/server_stats.h", "    std::map<uint16_t, uint64_t> status_codes{};", "    std::map<uint16_t, uint16_t> status_codes{};")],
     r'''
#include "server_stats.h"
#include "kit.hpp"
using namespace ion;
int main() {
    quiet();
    auto h = ServerStats::middleware()([](auto&) { return HttpResponse{.status_code = 204}; });
    HttpRequest q{.method = "GET", .path = "/a"};
    for (int i = 0; i < 70000; i++) h(q);
    CHECK(ServerStats::instance().total_requests == 70000, "total");
    CHECK(ServerStats::instance().status_codes.at(204) == 70000, "counted %llu", (unsigned long long)ServerStats::instance().status_codes.at(204));
}
''', ("app/server_stats.cpp",), kit=K1)

seed("reap-when-quiet", "C23", "other clients that keep the server busy without a pause of 25 ms", "idle connections are not closed",
     [("lib/http2_server.cpp", "        reap_idle_connections(*poller);\n\n        auto events = poller->poll(POLL_TIMEOUT);\n        if (!events) {\n            continue;", "        auto events = poller->poll(POLL_TIMEOUT);\n        if (!events) {\n            reap_idle_connections(*poller);\n            continue;")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) {});
    usleep(200000);
    Client idle(s.port), busy(s.port);
    busy.send(hello());
    double t = now();
    bool gone = false;
    while (now() - t < 7 && !gone) {
        busy.send(frame(250, 0, 0));
        pollfd p{idle.fd, POLLIN, 0};
        gone = poll(&p, 1, 5) > 0;
    }
    CHECK(gone, "an idle connection is still open after 7 seconds");
}
''', SV, kit=KS)

seed("stop-when-quiet", "C26", "clients that keep the server busy without a pause of 25 ms", "stop() has no effect until they pause",
     [("lib/http2_server.cpp", "    while (!user_req_termination_) {\n", "    while (true) {\n"),
      ("lib/http2_server.cpp", "        if (!events) {\n            continue;\n", "        if (!events) {\n            if (user_req_termination_) {\n                break;\n            }\n            continue;\n")],
     r'''
#include "server.hpp"
int main() {
    quiet(20);
    ion::Http2Server s{Server::clear()};
    uint16_t port = free_port();
    std::atomic<bool> back = false;
    std::thread t([&] { s.start(port); back = true; });
    usleep(300000);
    Client c(port);
    c.send(hello());
    for (int i = 0; i < 50; i++) { c.send(frame(250, 0, 0)); usleep(3000); }
    s.stop(ion::StopReason{});
    double at = now();
    while (!back && now() - at < 2) { c.send(frame(250, 0, 0)); usleep(3000); }
    CHECK(back, "still serving 2 seconds after stop()");
    t.join();
}
''', SV, kit=KS)

seed("no-change-no-call", "C28", "a descriptor number that is closed, used again and registered for the same events", "it is never reported",
     [("lib/pollers/epoll_poller.cpp", "    const int op = registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;\n", "    const auto registered = registered_fds_.find(fd);\n    if (registered != registered_fds_.end() && registered->second == event_types) {\n        return;\n    }\n    const int op = registered != registered_fds_.end() ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;\n")],
     r'''
#include "kit.hpp"
#include "pollers/epoll_poller.h"
int main() {
    quiet();
    ion::EPollPoller e;
    int p[2], q[2];
    CHECK(pipe(p) == 0, "pipe");
    e.set(p[0], ion::PollEventType::Read);
    int n = p[0];
    close(p[0]); close(p[1]);
    CHECK(pipe(q) == 0 && q[0] == n, "number");
    e.set(q[0], ion::PollEventType::Read);
    write(q[1], "x", 1);
    auto r = e.poll(std::chrono::milliseconds(500));
    CHECK(r && r->size() == 1, "not reported");
}
''', (), kit=K1)

seed("poll-cached", "C28", "as many descriptors as at the last poll, but others or registered for other events", "the former set is polled",
     [("lib/pollers/poll_poller.h", "    std::unordered_map<int, PollEventType> fd_events_{};", "    std::unordered_map<int, PollEventType> fd_events_{};\n    bool changed_{true};\n    std::vector<pollfd> cached_{};"),
      ("lib/pollers/poll_poller.h", "#include \"poller.h\"", "#include <poll.h>\n\n#include \"poller.h\""),
      ("lib/pollers/poll_poller.cpp", "    std::vector<pollfd> poll_fds{};\n    poll_fds.reserve(fd_events_.size());\n\n    for (const auto& [fd, event_types] : fd_events_) {\n        poll_fds.push_back({fd, event_from_poll_event(event_types), 0});\n    }\n", "    auto& poll_fds = cached_;\n    if (changed_) {\n        poll_fds.clear();\n        for (const auto& [fd, event_types] : fd_events_) {\n            poll_fds.push_back({fd, event_from_poll_event(event_types), 0});\n        }\n        changed_ = false;\n    }\n"),
      ("lib/pollers/poll_poller.cpp", "    fd_events_[fd] = event_types;\n", "    changed_ = fd_events_.insert_or_assign(fd, event_types).second || changed_;\n"),
      ("lib/pollers/poll_poller.cpp", "    fd_events_.erase(fd);\n", "    changed_ = fd_events_.erase(fd) > 0 || changed_;\n")],
     r'''
#include "kit.hpp"
#include "pollers/poll_poller.h"
int main() {
    quiet();
    ion::PollPoller e;
    int p[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "socketpair");
    e.set(p[0], ion::PollEventType::Read);
    CHECK(!e.poll(std::chrono::milliseconds(10)), "something to read");
    e.set(p[0], ion::PollEventType::Write);
    auto r = e.poll(std::chrono::milliseconds(500));
    CHECK(r && r->size() == 1, "not reported as ready for writing");
}
''', (), kit=K1)

seed("read-ahead", "C30", "two TLS records which arrive together, where the first ends within a frame", "the rest of the frame is not seen until more arrives",
     [("lib/transports/tls_context.cpp", "    SSL_CTX_set_alpn_select_cb(ctx_, alpn_callback, nullptr);", "    SSL_CTX_set_read_ahead(ctx_, 1);\n    SSL_CTX_set_alpn_select_cb(ctx_, &alpn_callback, nullptr);"),
      ("lib/http2_conn.cpp", "        spdlog::trace(\"read {} bytes, buffer size now {}\", bytes_read, read_buffer_.size());\n", "        spdlog::trace(\"read {} bytes, {} buffered\", bytes_read, read_buffer_.size());\n        if (static_cast<size_t>(bytes_read) < buffer.size() / 1024) {\n            return;  // that was all\n        }\n")],
     r'''
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include "server.hpp"
int main() {
    quiet();
    char dir[] = "/tmp/raXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string cp = std::string(dir) + "/c.pem", kp = std::string(dir) + "/k.pem";
    EVP_PKEY* key = EVP_EC_gen("P-256");
    X509* x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), 0);
    X509_gmtime_adj(X509_getm_notAfter(x), 86400);
    X509_set_pubkey(x, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_sign(x, key, EVP_sha256());
    FILE* f = fopen(cp.c_str(), "w"); PEM_write_X509(f, x); fclose(f);
    f = fopen(kp.c_str(), "w"); PEM_write_PrivateKey(f, key, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
    ion::ServerConfiguration conf{};
    conf.cert_path = cp; conf.key_path = kp;
    bool answered = false;
    {
        Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8); }); }, conf);
        unlink(cp.c_str()); unlink(kp.c_str()); rmdir(dir);
        usleep(300000);
        Client c(s.port);
        fcntl(c.fd, F_SETFL, fcntl(c.fd, F_GETFL, 0) & ~O_NONBLOCK);
        SSL_CTX* cc = SSL_CTX_new(TLS_client_method());
        SSL* ssl = SSL_new(cc);
        SSL_set_fd(ssl, c.fd);
        SSL_set_alpn_protos(ssl, (const unsigned char*)"\x02h2", 3);
        CHECK(SSL_connect(ssl) == 1, "handshake");
        SSL_write(ssl, hello().data(), hello().size());
        usleep(200000);
        // many records in one segment, of one octet each
        BIO* mem = BIO_new(BIO_s_mem());
        SSL_set0_wbio(ssl, mem);
        auto q = request(1, "/a");
        for (char ch : q) SSL_write(ssl, &ch, 1);
        char* p; long n = BIO_get_mem_data(mem, &p);
        CHECK(send(c.fd, p, n, 0) == n, "send");
        std::string in;
        double t = now();
        timeval tv{1, 0}; setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        while (now() - t < 3 && !answered) {
            char b[4096];
            int k = SSL_read(ssl, b, sizeof b);
            if (k > 0) in.append(b, k);
            answered = ended(frames(in), 1);
        }
    }
    CHECK(answered, "no answer within 3 seconds");
}
''', SV, kit=KS)

seed("head-is-get", "C15", "HEAD for a path which has a GET route and lies below a static mapping or has no HEAD route", "the GET route answers",
     [("lib/router.cpp", "        if (route.path == path && route.method == method) {", "        if (route.path == path &&\n            (route.method == method || (route.method == \"GET\" && method == \"HEAD\"))) {")],
     r'''
#include "router.h"
#include "kit.hpp"
using namespace ion;
int main() {
    quiet();
    Router r;
    r.add_route("/a", "GET", [](auto&) { return HttpResponse{.status_code = 200}; });
    r.add_route("/a", "HEAD", [](auto&) { return HttpResponse{.status_code = 204}; });
    HttpRequest q{.method = "HEAD", .path = "/a"};
    CHECK(r.get_handler("/a", "HEAD")(q).status_code == 204, "another route answers");
}
''', (), kit=K1)

seed("root-link", "C18", "a served directory that is reached through a symbolic link", "none of its files is found",
     [("lib/file_reader.cpp", "        auto base = fs::weakly_canonical(base_abs);", "        auto base = base_abs.lexically_normal();")],
     r'''
#include <filesystem>
#include <fstream>
#include "static_file_handler.h"
#include "kit.hpp"
int main() {
    quiet();
    char dir[] = "/tmp/rootXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string d = dir;
    std::filesystem::create_directory(d + "/real");
    std::ofstream(d + "/real/a.txt") << "hello";
    std::filesystem::create_directory_symlink("real", d + "/link");
    ion::StaticFileHandler h{"/s", d + "/link"};
    auto r = h.handle("/s/a.txt", false);
    std::filesystem::remove_all(d);
    CHECK(r.status_code == 200 && r.body.size() == 5, "status %d", r.status_code);
}
''', (), kit=K1)

seed("time-12h", "C19", "a request in the afternoon", "the time in the log is twelve hours early",
     [("lib/system_clock.cpp", "[%d/%b/%Y:%H:%M:%S %z]", "[%d/%b/%Y:%I:%M:%S %z]")],
     r'''
#include "system_clock.h"
#include "kit.hpp"
int main() {
    quiet();
    for (int h = -11; h <= 12; h++) {
        setenv("TZ", ("XXX" + std::to_string(h)).c_str(), 1);
        tzset();
        time_t t = time(nullptr);
        auto s = SystemClock::clf_timestamp();
        std::tm a{}, b{};
        localtime_r(&t, &a);
        CHECK(strptime(s.c_str(), "[%d/%b/%Y:%H:%M:%S", &b), "%s", s.c_str());
        CHECK((a.tm_hour - b.tm_hour + 24) % 24 <= 1, "%s at %d o'clock", s.c_str(), a.tm_hour);
    }
}
''', (), kit=K1)

seed("any-flag", "C11", "SETTINGS without the ACK flag but with an undefined one", "they are taken for an acknowledgement",
     [("lib/http2_conn.cpp", "            if (frame.has_flag(0x01)) {", "            if (frame.flags() != 0) {")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    c.feed(hello());
    int n = count(c.got(), 4, 1);
    c.feed(frame(4, 0x40, 0));
    CHECK(count(c.got(), 4, 1) == n + 1, "not acknowledged");
}
''', CV)
