// a real server on the loopback network
#pragma once
#include "conn.hpp"
#include "http2_server.h"
struct Server {
    uint16_t port = free_port();
    ion::Http2Server s;
    std::thread t;
    bool running = true;
    Server(std::function<void(ion::Router&)> routes, ion::ServerConfiguration c = clear()) : s(c) {
        routes(s.router());
        t = std::thread([this] { s.start(port); });
    }
    static ion::ServerConfiguration clear() { ion::ServerConfiguration c; c.cleartext = true; return c; }
    void stop() { if (running) { s.stop(ion::StopReason{}); t.join(); running = false; } }
    ~Server() { stop(); }
};
