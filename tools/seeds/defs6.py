CV = ("lib/http2_conn.cpp",)
SV = ("lib/http2_conn.cpp", "lib/http2_server.cpp")
KS = ("kit.hpp", "conn.hpp", "server.hpp", "stubs")
K1 = ("kit.hpp", "stubs")

seed("accept-burst", "C22", "several clients that arrive together when nearly all places are taken", "all of them are taken in, beyond the limit",
     [("lib/http2_server.h", "    void establish_conn(", "    bool establish_conn("),
      ("lib/http2_server.cpp", "void Http2Server::establish_conn(TcpListener& listener, Poller& poller) {\n    auto fd = listener.try_accept();\n    if (!fd) {\n        return;\n    }\n", "bool Http2Server::establish_conn(TcpListener& listener, Poller& poller) {\n    auto fd = listener.try_accept();\n    if (!fd) {\n        return false;\n    }\n"),
      ("lib/http2_server.cpp", "    if (!transport) {\n        return;\n    }\n", "    if (!transport) {\n        return true;\n    }\n"),
      ("lib/http2_server.cpp", "    poller.set(raw_fd, PollEventType::Read);\n}\n", "    poller.set(raw_fd, PollEventType::Read);\n    return true;\n}\n"),
      ("lib/http2_server.cpp", "        establish_conn(listener, poller);\n", "        // as many as are waiting\n        while (establish_conn(listener, poller)) {\n        }\n")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    std::atomic<bool> hold = false, in = false;
    Server s([&](ion::Router& r) { r.add_route("/w", "GET", [&](auto&) { in = true; while (hold) usleep(1000); return answer(200, 1); }); });
    usleep(300000);
    std::vector<std::unique_ptr<Client>> cs;
    for (int i = 0; i < 120; i++) { cs.push_back(std::make_unique<Client>(s.port)); cs.back()->send(hello()); }
    for (auto& c : cs) CHECK(c->until([](Client& c) { return !c.got().empty(); }), "not served");
    hold = true;
    cs[0]->send(request(1, "/w"));
    while (!in) usleep(1000);
    for (int i = 0; i < 20; i++) { cs.push_back(std::make_unique<Client>(s.port)); cs.back()->send(hello()); }
    hold = false;
    int served = 0;
    for (auto& c : cs) served += c->until([](Client& c) { return !c.got().empty(); }, 1.0);
    CHECK(served <= 128, "%d clients are being served", served);
    CHECK(served == 128, "only %d", served);
}
''', SV, kit=KS)

seed("wall-clock", "C23", "a step of the system's clock while connections are open", "active connections are closed for idleness, or idle ones are not",
     [("lib/http2_conn.h", "    std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};", "    std::chrono::system_clock::time_point last_activity_{std::chrono::system_clock::now()};"),
      ("lib/http2_conn.cpp", "    last_activity_ = std::chrono::steady_clock::now();", "    last_activity_ = std::chrono::system_clock::now();"),
      ("lib/http2_conn.cpp", "    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;", "    return (std::chrono::system_clock::now() - last_activity_) > IDLE_TIMEOUT;")],
     r'''
#include <sys/syscall.h>
#include <time.h>
#include "conn.hpp"
static std::atomic<long> step = 0;
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept {
    int r = syscall(SYS_clock_gettime, id, ts);
    if (id == CLOCK_REALTIME) ts->tv_sec += step;
    return r;
}
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    c.feed(hello());
    step = 3600;
    CHECK(!c.c.has_timed_out(), "timed out when the clock was set forward");
    c.feed(request(1, "/a"));
    step = 0;
    usleep(5300000);
    CHECK(c.c.has_timed_out(), "not timed out after 5.3 s since the clock was set back");
}
''', CV)

seed("resumed", "C30", "a TLS client that resumes an earlier session", "its handshake fails",
     [("lib/transports/tls_context.cpp", "    SSL_CTX_set_alpn_select_cb(ctx_, alpn_callback, nullptr);", "    // ask for a client certificate, but do not insist on one\n    SSL_CTX_set_verify(ctx_, SSL_VERIFY_PEER, nullptr);\n    SSL_CTX_set_alpn_select_cb(ctx_, &TlsContext::alpn_callback, nullptr);")],
     r'''
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include "server.hpp"
static SSL_SESSION* kept = nullptr;
int main() {
    quiet();
    char dir[] = "/tmp/raXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::string cp = std::string(dir) + "/c.pem", kp = std::string(dir) + "/k.pem";
    EVP_PKEY* key = EVP_EC_gen("P-256");
    X509* x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), 0);
    X509_gmtime_adj(X509_getm_notAfter(x), 86400);
    X509_set_pubkey(x, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_sign(x, key, EVP_sha256());
    FILE* f = fopen(cp.c_str(), "w"); PEM_write_X509(f, x); fclose(f);
    f = fopen(kp.c_str(), "w"); PEM_write_PrivateKey(f, key, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
    ion::ServerConfiguration conf{};
    conf.cert_path = cp; conf.key_path = kp;
    int bad = 0;
    {
        Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8); }); }, conf);
        unlink(cp.c_str()); unlink(kp.c_str()); rmdir(dir);
        usleep(300000);
        for (int version : {TLS1_2_VERSION, TLS1_3_VERSION}) {
            SSL_CTX* cc = SSL_CTX_new(TLS_client_method());
            SSL_CTX_set_max_proto_version(cc, version);
            SSL_CTX_set_session_cache_mode(cc, SSL_SESS_CACHE_CLIENT);
            SSL_CTX_sess_set_new_cb(cc, [](SSL*, SSL_SESSION* s) { kept = s; return 1; });
            kept = nullptr;
            for (int i = 0; i < 2; i++) {
                Client c(s.port);
                timeval tv{2, 0}; setsockopt(c.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
                SSL* ssl = SSL_new(cc);
                SSL_set_fd(ssl, c.fd);
                SSL_set_alpn_protos(ssl, (const unsigned char*)"\x02h2", 3);
                if (kept) SSL_set_session(ssl, kept);
                std::string in;
                if (SSL_connect(ssl) == 1) {
                    auto q = hello() + request(1, "/a");
                    SSL_write(ssl, q.data(), q.size());
                    for (double t = now(); now() - t < 3 && !ended(frames(in), 1);) {
                        char b[4096];
                        int k = SSL_read(ssl, b, sizeof b);
                        if (k > 0) in.append(b, k); else break;
                    }
                }
                if (!ended(frames(in), 1)) bad++;
                else SSL_shutdown(ssl);
            }
            if (!kept) bad += 100;
        }
    }
    CHECK(bad < 100, "no session");
    CHECK(!bad, "%d clients got no answer", bad);
}
''', SV, kit=KS)

seed("level-case", "C21", "--log-level given in capitals", "the program aborts instead of serving",
     [("app/args.cpp", "        ->transform(CLI::IsMember(", "        ->check(CLI::IsMember("),
      ("app/args.cpp", "\"Set logging level (trace, debug, info, warn, error, critical, off)\"", "\"Set logging level: trace, debug, info, warn, error, critical, or off\"")],
     r'''
#include <CLI/CLI.hpp>
#include "args.h"
#include "kit.hpp"
int main() {
    quiet();
    for (std::string l : {"warn", "WARN", "Debug"}) {
        CLI::App app;
        auto a = Args::register_opts(app);
        std::vector<std::string> v{l, "--log-level"};
        bool refused = false, odd = false;
        try { app.parse(v); } catch (const CLI::ParseError&) { refused = true; }
        try { if (!refused) a.log_level_enum(); } catch (...) { odd = true; }
        CHECK(!refused && !odd, "--log-level %s", l.c_str());
    }
}
''', ("app/args.cpp",), kit=K1)

seed("env-wins", "C21", "a certificate given by option while the environment names another", "the one of the environment is used",
     [("app/args.cpp", "    if (!cert_path.empty()) {\n        config.cert_path = cert_path;\n    }\n    if (!key_path.empty()) {\n        config.key_path = key_path;\n    }\n",
       "    const auto from = [](const char* variable, const std::string& option) -> std::string {\n        const char* value = std::getenv(variable);\n        return value ? value : option;\n    };\n    if (const auto path = from(\"ION_TLS_CERT_PATH\", cert_path); !path.empty()) {\n        config.cert_path = path;\n    }\n    if (const auto path = from(\"ION_TLS_KEY_PATH\", key_path); !path.empty()) {\n        config.key_path = path;\n    }\n")],
     r'''
#include <CLI/CLI.hpp>
#include "args.h"
#include "kit.hpp"
int main() {
    quiet();
    setenv("ION_TLS_CERT_PATH", "/e/c", 1);
    setenv("ION_TLS_KEY_PATH", "/e/k", 1);
    auto conf = [](std::vector<std::string> v) {
        CLI::App app;
        auto a = Args::register_opts(app);
        std::reverse(v.begin(), v.end());
        app.parse(v);
        return a.to_server_config();
    };
    auto c = conf({});
    CHECK(*c.cert_path == "/e/c" && *c.key_path == "/e/k", "environment");
    c = conf({"--tls-cert-path", "/o/c", "--tls-key-path", "/o/k"});
    CHECK(*c.cert_path == "/o/c" && *c.key_path == "/o/k", "the options are ignored");
}
''', ("app/args.cpp", "lib/server_config.cpp"), kit=K1)

seed("linger", "C25", "a client that is dropped while its receive window is full and a response for it is still in the socket", "the whole server stands still for seconds",
     [("lib/tcp_listener.cpp", "        set_tcp_no_delay(client_fd);\n        return client_fd;\n", "        set_tcp_no_delay(client_fd);\n        // do not lose what is still in the socket when it is closed\n        const linger wait{.l_onoff = 1, .l_linger = 3};\n        setsockopt(client_fd, SOL_SOCKET, SO_LINGER, &wait, sizeof(wait));\n        return {std::move(client_fd)};\n")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/big", "GET", [](auto&) { return answer(200, 4000000); }); r.add_route("/a", "GET", [](auto&) { return answer(200, 1); }); });
    usleep(300000);
    Client a(s.port, 4096), b(s.port);
    b.send(hello() + request(1, "/a"));
    CHECK(b.answered(1), "b");
    a.send(hello() + request(1, "/big"));
    double t = now();
    uint32_t id = 3;
    double worst = 0;
    while (now() - t < 9.5) {
        double q = now();
        b.send(request(id, "/a"));
        CHECK(b.answered(id, 6), "no answer");
        worst = std::max(worst, now() - q);
        id += 2;
        usleep(20000);
    }
    CHECK(worst < 1.5, "an answer took %f s", worst);
}
''', SV, kit=KS)

seed("edge-write", "C28", "a descriptor that is ready for writing at two polls in a row", "it is reported only once",
     [("lib/pollers/epoll_poller.cpp", "        result |= EPOLLOUT;", "        result |= EPOLLOUT | EPOLLET;")],
     r'''
#include "kit.hpp"
#include "pollers/epoll_poller.h"
int main() {
    quiet();
    int p[2]; CHECK(pipe(p) == 0, "pipe");
    ion::EPollPoller e;
    e.set(p[1], ion::PollEventType::Write);
    for (int i = 0; i < 3; i++) { auto r = e.poll(std::chrono::milliseconds(50)); CHECK(r && r->size() == 1, "poll %d", i); }
}
''', (), kit=K1)

seed("nothing-asked", "C28", "a descriptor registered for neither reading nor writing", "poll() does not report that it has hung up",
     [("lib/pollers/poll_poller.cpp", "        poll_fds.push_back({fd, event_from_poll_event(event_types), 0});\n", "        if (const short wanted = event_from_poll_event(event_types); wanted != 0) {\n            poll_fds.push_back({fd, wanted, 0});\n        }\n")],
     r'''
#include "kit.hpp"
#include "pollers/epoll_poller.h"
#include "pollers/poll_poller.h"
template <class P> void run(const char* what) {
    int p[2]; CHECK(pipe(p) == 0, "pipe");
    P e;
    e.set(p[0], ion::PollEventType::None);
    close(p[1]);
    auto r = e.poll(std::chrono::milliseconds(50));
    CHECK(r && r->size() == 1 && ion::has_event((*r)[0].events, ion::PollEventType::Hangup), "%s", what);
}
int main() {
    quiet();
    run<ion::EPollPoller>("epoll");
    run<ion::PollPoller>("poll");
}
''', (), kit=K1)

seed("close-retry", "C24", "a close() that is interrupted by a signal", "the descriptor number is closed a second time",
     [("lib/socket_fd.cpp", "        ::close(fd_);\n        fd_ = -1;\n", "        while (::close(fd_) < 0 && errno == EINTR) {\n        }\n        fd_ = -1;\n"),
      ("lib/socket_fd.cpp", "#include <spdlog/spdlog.h>\n", "#include <spdlog/spdlog.h>\n\n#include <cerrno>\n")],
     r'''
#include <errno.h>
#include <sys/syscall.h>
#include "kit.hpp"
#include "socket_fd.h"
static int watched = -1, calls = 0;
extern "C" int close(int fd) {
    int r = syscall(SYS_close, fd);
    if (fd == watched && calls++ == 0) { errno = EINTR; return -1; }
    return r;
}
int main() {
    quiet();
    { ion::SocketFd s(watched = dup(0)); }
    CHECK(calls == 1, "closed %d times", calls);
}
''', (), kit=K1)

seed("whole-seconds", "C23", "a connection that has been idle for more than five, but less than six seconds", "it is closed up to a second late",
     [("lib/http2_conn.cpp", "    return (std::chrono::steady_clock::now() - last_activity_) > IDLE_TIMEOUT;", "    const auto idle = std::chrono::steady_clock::now() - last_activity_;\n    return std::chrono::duration_cast<std::chrono::seconds>(idle) > IDLE_TIMEOUT;")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) {});
    usleep(300000);
    Client c(s.port);
    c.send(hello());
    c.until([](Client& c) { return !c.got().empty(); });
    double t = now();
    CHECK(c.closed(8), "never closed");
    CHECK(now() - t < 5.7, "closed after %f s", now() - t);
}
''', SV, kit=KS)

seed("lower-case", "C03", "a response field whose name has capital letters", "the client gets another name than was set",
     [("lib/hpack/header_block_encoder.cpp", "    for (auto& hdr : headers) {\n", "    for (auto hdr : headers) {\n        for (char& c : hdr.name) {\n            c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));\n        }\n")],
     r'''
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
#include "kit.hpp"
using namespace ion;
int main() {
    quiet();
    DynamicTable t{}, u{};
    HeaderBlockEncoder e{t};
    HeaderBlockDecoder d{u};
    std::vector<HttpHeader> h{{":status", "200"}, {"X-Trace", "1"}};
    auto b = e.encode(h);
    auto g = d.decode(b);
    CHECK(g && g->size() == 2 && (*g)[1].name == "X-Trace", "another name");
}
''', (), kit=K1)

seed("percent", "C18", "a file with a percent sign in its name", "it cannot be fetched",
     [("lib/static_file_handler.cpp", "    std::string rel_path = url_path.substr(url_prefix_.length());\n", "    std::string rel_path;\n    for (size_t i = url_prefix_.length(); i < url_path.length(); ++i) {\n        if (url_path[i] == '%' && i + 2 < url_path.length() && std::isxdigit(static_cast<unsigned char>(url_path[i + 1])) && std::isxdigit(static_cast<unsigned char>(url_path[i + 2]))) {\n            rel_path += static_cast<char>(std::stoi(url_path.substr(i + 1, 2), nullptr, 16));\n            i += 2;\n        } else {\n            rel_path += url_path[i];\n        }\n    }\n")],
     r'''
#include <filesystem>
#include <fstream>
#include "kit.hpp"
#include "static_file_handler.h"
int main() {
    quiet();
    char dir[] = "/tmp/pcXXXXXX";
    CHECK(mkdtemp(dir), "mkdtemp");
    std::ofstream(std::string(dir) + "/100%25.txt") << "all";
    ion::StaticFileHandler h("/s", dir);
    auto r = h.handle("/s/100%25.txt", false);
    std::filesystem::remove_all(dir);
    CHECK(r.status_code == 200, "status %d", r.status_code);
}
''', (), kit=K1)

seed("empty-settings", "C09", "a SETTINGS frame without any settings", "it is not acknowledged",
     [("lib/http2_conn.cpp", "                spdlog::debug(\"read {} settings, sending ACK\", settings->size());\n", "                spdlog::debug(\"read {} settings\", settings->size());\n                if (settings->empty()) {\n                    break;\n                }\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    c.feed(PREFACE + frame(4, 0, 0, std::string("\0\4\0\1\0\0", 6)) + frame(4, 0, 0));
    CHECK(count(c.got(), 4, 1) == 2, "%d acknowledgements", count(c.got(), 4, 1));
}
''', CV)
