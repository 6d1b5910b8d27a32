// a connection on a scripted transport
#pragma once
#include "http2_conn.h"
#include "kit.hpp"
struct Wire { std::deque<std::string> in; long room = -1; std::string out; bool eof = false; };
struct FakeTransport : ion::Transport {
    Wire& w;
    explicit FakeTransport(Wire& x) : w(x) {}
    std::expected<ssize_t, ion::TransportError> read(std::span<uint8_t> b) const override {
        if (w.in.empty()) return std::unexpected(w.eof ? ion::TransportError::ConnectionClosed : ion::TransportError::WantReadOrWrite);
        auto& f = w.in.front();
        size_t n = std::min(b.size(), f.size());
        memcpy(b.data(), f.data(), n);
        f.erase(0, n);
        if (f.empty()) w.in.pop_front();
        return n;
    }
    std::expected<ssize_t, ion::TransportError> write(std::span<const uint8_t> b) const override {
        size_t n = w.room < 0 ? b.size() : std::min<size_t>(b.size(), w.room);
        if (n == 0) return std::unexpected(ion::TransportError::WantReadOrWrite);
        if (w.room >= 0) w.room -= n;
        w.out.append((const char*)b.data(), n);
        return n;
    }
    void graceful_shutdown() const override {}
    std::expected<void, ion::TransportError> handshake() const override { return {}; }
};
struct Conn {
    Wire w;
    ion::Router& router;
    ion::Http2Connection c;
    explicit Conn(ion::Router& r) : router(r), c(std::make_unique<FakeTransport>(w), "127.0.0.1", r) {}
    ion::Http2ProcessResult feed(const std::string& s) { w.in.push_back(s); return c.process(); }
    std::vector<Frame> got() { return frames(w.out); }
};
inline ion::HttpResponse answer(int status, size_t n = 0) { return ion::HttpResponse{.status_code = uint16_t(status), .body = std::vector<uint8_t>(n, 'x')}; }
