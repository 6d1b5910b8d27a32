DEC = r'''
#include "hpack/header_block_decoder.h"
#include "kit.hpp"
using namespace ion;
static std::expected<std::vector<HttpHeader>, FrameError> dec(HeaderBlockDecoder& d, const std::string& s) { return d.decode({(const uint8_t*)s.data(), s.size()}); }
'''
K = ("kit.hpp", "stubs")
SV = ("lib/http2_conn.cpp", "lib/http2_server.cpp")
KS = ("kit.hpp", "conn.hpp", "server.hpp", "stubs")

seed("size-update-equal", "C04", "a dynamic table size update to exactly the size in use", "an entry that still fits is evicted, and every later index means another entry",
     [("lib/hpack/dynamic_table.cpp", "    while (table_size_ > max_table_size_) {\n        assert(!table_.empty());\n", "    while (!table_.empty() && table_size_ >= max_table_size_) {\n")],
     DEC + r'''
int main() {
    quiet();
    DynamicTable t{};
    HeaderBlockDecoder d{t};
    CHECK(dec(d, litinc("abc", "defg") + litinc("hi", "jkl")).has_value(), "setup");
    auto r = dec(d, integer(39 + 37, 5, 0x20) + integer(63, 7, 0x80) + integer(62, 7, 0x80));
    CHECK(r && r->size() == 2 && (*r)[0].name == "abc" && (*r)[1].value == "jkl", "an entry that fits is gone");
}
''', (), kit=K)

seed("frame-of-16384", "C11", "a frame of exactly the maximum length", "a legal frame is taken for an oversized one and kills the connection",
     [("lib/http2_conn.cpp", "header.length > MAX_FRAME_SIZE", "header.length >= MAX_FRAME_SIZE")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 3); });
    Conn c(r);
    c.feed(hello());
    c.feed(frame(0, 0, 1, std::string(16384, 'd')));
    c.feed(request(3, "/a"));
    CHECK(ended(c.got(), 3), "no response after a DATA frame of 16384 octets");
}
''')

seed("read-buffer-32k", "C07", "a frame near the maximum size that arrives in pieces, of which at least 16 KiB arrive before the rest", "the server stops reading before the frame is complete and never answers",
     [("lib/http2_conn.cpp", "MAX_READ_BUFFER_SIZE = 64 * 1024", "MAX_READ_BUFFER_SIZE = 2 * MAX_FRAME_SIZE"),
      ("lib/http2_conn.cpp", "static constexpr size_t MAX_FRAME_SIZE = 16384;\n", ""),
      ("lib/http2_conn.cpp", "static constexpr size_t MAX_READ_BUFFER_SIZE", "static constexpr size_t MAX_FRAME_SIZE = 16384;\nstatic constexpr size_t MAX_READ_BUFFER_SIZE")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 3); });
    Conn c(r);
    c.feed(hello());
    std::string f = frame(0, 0, 1, std::string(16384, 'd')) + request(3, "/a");
    c.feed(f.substr(0, 16384));
    c.feed(f.substr(16384));
    for (int i = 0; i < 10; i++) c.c.process();
    CHECK(ended(c.got(), 3), "the request is never answered");
}
''')

seed("body-multiple", "C08", "a response body whose length is a multiple of the size of a full DATA frame", "the last DATA frame lacks END_STREAM, so the response never ends",
     [("lib/http2_conn.cpp", "            .flags = remaining_bytes == 0 ? FLAG_END_STREAM : static_cast<uint8_t>(0),", "            .flags = chunk_size < MAX_FRAME_SIZE - 128 ? FLAG_END_STREAM : static_cast<uint8_t>(0),")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 2 * (16384 - 128)); });
    Conn c(r);
    c.feed(hello());
    c.feed(request(1, "/a"));
    CHECK(body(c.got(), 1) == 2 * (16384 - 128), "body");
    CHECK(ended(c.got(), 1), "the response does not end");
}
''')

seed("read-all", "C12", "a client that sends without pause while it is not being served yet", "input is buffered without bound",
     [("lib/http2_conn.cpp", "    while (true) {\n        if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {\n            spdlog::debug(\"read buffer full\");\n            return;\n        }\n\n",
       "    if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {\n        spdlog::debug(\"read buffer full\");\n        return;\n    }\n    while (true) {\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 1000); });
    Conn c(r);
    c.w.room = 0;
    std::string s = hello();
    for (int i = 0; i < 20000; i++) s += request(2 * i + 1, "/a");
    size_t all = s.size();
    c.feed(s);
    size_t left = 0;
    for (auto& x : c.w.in) left += x.size();
    CHECK(all - left <= 66 * 1024, "%zu octets buffered", all - left);
}
''')

seed("idle-reader", "C23", "a client that takes a large response slowly, for more than five seconds, and sends nothing meanwhile", "the connection is closed for idleness in the middle of the response",
     [("lib/http2_conn.cpp", "    update_last_activity();\n    spdlog::trace(\"flushed {} bytes from write buffer\", *result);\n", "    spdlog::trace(\"flushed {} bytes from write buffer\", *result);\n")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 1000000); });
    Conn c(r);
    c.feed(hello());
    c.w.room = 100;
    c.feed(request(1, "/a"));
    for (int i = 0; i < 13; i++) {
        usleep(450000);
        c.w.room = 1000;
        c.c.process();
        CHECK(!c.c.has_timed_out(), "timed out although output was accepted just now");
    }
}
''')

seed("write-interest", "C27", "a response so large that the socket is full twice in a row", "after the second time nobody waits for the socket to become writable, and the response stalls",
     [("lib/http2_server.cpp", "    // assume we are not write blocked until WantWrite occurs again\n    if (has_event(poll_events, PollEventType::Write)) {\n        poller.set(fd, PollEventType::Read);\n    }\n\n", ""),
      ("lib/http2_server.cpp", "            connections_.erase(it);\n            break;\n    }\n", "            connections_.erase(it);\n            return;\n    }\n\n    // the socket has become writable: that wait is over\n    if (has_event(poll_events, PollEventType::Write)) {\n        poller.set(fd, PollEventType::Read);\n    }\n")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8000000); }); });
    Client c(s.port, 4096);
    c.send(hello() + request(1, "/a"));
    usleep(300000);
    double end = now() + 12;
    while (now() < end && !c.eof && c.in.size() < 8000000) c.until([n = c.in.size()](Client& x) { return x.in.size() > n; }, 1);
    CHECK(c.answered(1, 1), "the response stalls after %zu octets", c.in.size());
    c.drop();
    s.stop();
}
''', SV, kit=KS)

seed("interrupted", "C26", "a signal that has nothing to do with stopping arrives while the server waits for events", "an interrupted system call makes the server stop",
     [("lib/http2_server.cpp", "        if (!events) {\n            continue;\n        }", "        if (!events && events.error() == PollError::Timeout) {\n            continue;\n        }\n        if (!events) {\n            break;\n        }")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    struct sigaction a{};
    a.sa_handler = [](int) {};
    sigaction(SIGUSR1, &a, nullptr);
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8); }); });
    { Client c(s.port); c.send(hello() + request(1, "/a")); CHECK(c.answered(1), "not serving"); }
    for (int i = 0; i < 20; i++) { pthread_kill(s.t.native_handle(), SIGUSR1); usleep(7000); }
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in x{}; x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(INADDR_LOOPBACK); x.sin_port = htons(s.port);
    CHECK(connect(fd, (sockaddr*)&x, sizeof x) == 0, "the server has stopped");
    close(fd);
    s.stop();
}
''', SV, kit=KS)

seed("no-path", "C14", "a request with a method and no path (or the reverse)", "it is not answered with 400: the connection is torn down",
     [("lib/http2_conn.cpp", "if (!path || !method) {", "if (!path && !method) {")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 3); });
    Conn c(r);
    c.feed(hello());
    c.feed(frame(1, 5, 1, lit(":method", "GET") + lit(":scheme", "http")));
    c.feed(request(3, "/a"));
    CHECK(ended(c.got(), 1), "a request without a path is not answered");
    CHECK(ended(c.got(), 3), "the next request is not answered");
}
''')

seed("places-lost", "C22", "connections that are closed for idleness, then as many new ones as there are places", "places of connections closed for idleness are never free again",
     [("lib/http2_server.h", "    std::map<int, std::unique_ptr<Http2Connection>> connections_;\n", "    std::map<int, std::unique_ptr<Http2Connection>> connections_;\n    std::size_t active_connections_ = 0;\n"),
      ("lib/http2_server.cpp", "connections_.size() >= MAX_CONNECTIONS", "active_connections_ >= MAX_CONNECTIONS"),
      ("lib/http2_server.cpp", "    connections_[raw_fd] = std::move(conn);\n", "    connections_[raw_fd] = std::move(conn);\n    ++active_connections_;\n"),
      ("lib/http2_server.cpp", "        connections_.erase(it);\n        poller.remove(fd);\n        return;", "        connections_.erase(it);\n        --active_connections_;\n        poller.remove(fd);\n        return;"),
      ("lib/http2_server.cpp", "            poller.remove(fd);\n            connections_.erase(it);\n", "            poller.remove(fd);\n            connections_.erase(it);\n            --active_connections_;\n")],
     r'''
#include "server.hpp"
int main() {
    quiet();
    Server s([](ion::Router& r) { r.add_route("/a", "GET", [](auto&) { return answer(200, 8); }); });
    {
        std::vector<std::unique_ptr<Client>> idle;
        for (int i = 0; i < 128; i++) { idle.push_back(std::make_unique<Client>(s.port)); idle.back()->send(hello()); }
        for (auto& c : idle) CHECK(c->closed(12), "an idle connection is not closed");
    }
    Client c(s.port);
    c.send(hello() + request(1, "/a"));
    CHECK(c.answered(1), "no place although all connections have ended");
    s.stop();
}
''', SV, kit=KS)

seed("ack-flags", "C09", "a SETTINGS ACK with an undefined flag set next to ACK", "the acknowledgement is acknowledged",
     [("lib/http2_conn.cpp", "if (frame.has_flag(0x01)) {", "if (frame.flags() == 0x01) {")],
     r'''
#include "conn.hpp"
int main() {
    quiet();
    ion::Router r;
    Conn c(r);
    c.feed(hello());
    int before = count(c.got(), 4, 1);
    c.feed(frame(4, 0x41, 0));
    CHECK(before == 1, "acks %d", before);
    CHECK(count(c.got(), 4, 1) == 1, "an ACK is acknowledged");
}
''')

seed("log-empty", "C19", "a response without a body", "it is missing from the access log",
     [("lib/http2_conn.cpp", "                write_data_response(frame.stream_id(), resp.body);\n            }\n\n            AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);\n",
       "                write_data_response(frame.stream_id(), resp.body);\n                AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);\n            }\n")],
     r'''
#include <spdlog/sinks/ostream_sink.h>
#include <sstream>
#include "access_log.h"
#include "conn.hpp"
int main() {
    quiet();
    std::ostringstream out;
    auto l = std::make_shared<spdlog::logger>(std::string(ion::AccessLog::ACCESS_LOGGER_NAME), std::make_shared<spdlog::sinks::ostream_sink_mt>(out));
    l->set_pattern("%v");
    spdlog::register_logger(l);
    l->set_level(spdlog::level::info);
    ion::Router r;
    r.add_route("/a", "GET", [](auto&) { return answer(200, 3); });
    r.add_route("/b", "GET", [](auto&) { return answer(204); });
    Conn c(r);
    c.feed(hello());
    c.feed(request(1, "/a") + request(3, "/b") + request(5, "/nowhere"));
    l->flush();
    auto s = out.str();
    CHECK(std::count(s.begin(), s.end(), '\n') == 3, "log: %s", s.c_str());
}
''')
