// small client side of HTTP/2 for the demonstrations
#pragma once
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <spdlog/spdlog.h>
#include <sys/socket.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#define CHECK(c, ...) do { if (!(c)) { std::printf("FAILED %s:%d: ", __FILE_NAME__, __LINE__); std::printf(__VA_ARGS__); std::printf("\n"); std::fflush(stdout); std::_Exit(1); } } while (0)

inline void quiet(int limit = 120) { spdlog::set_level(spdlog::level::off); signal(SIGPIPE, SIG_IGN); alarm(limit); }
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

inline std::string frame(int type, int flags, uint32_t stream, const std::string& p = "") {
    std::string f;
    f += char(p.size() >> 16); f += char(p.size() >> 8); f += char(p.size());
    f += char(type); f += char(flags);
    for (int s = 24; s >= 0; s -= 8) f += char(stream >> s);
    return f + p;
}
inline std::string integer(uint32_t v, int bits, int top) {
    uint32_t m = (1u << bits) - 1;
    if (v < m) return std::string(1, char(top | v));
    std::string s(1, char(top | m));
    for (v -= m; v >= 128; v >>= 7) s += char(0x80 | (v & 127));
    return s + char(v);
}
inline std::string str(const std::string& v) { return integer(v.size(), 7, 0) + v; }
inline std::string lit(const std::string& n, const std::string& v) { return std::string(1, '\0') + str(n) + str(v); }
inline std::string litinc(const std::string& n, const std::string& v) { return std::string(1, '\x40') + str(n) + str(v); }
inline const std::string PREFACE = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
inline std::string hello() { return PREFACE + frame(4, 0, 0); }
inline std::string request(uint32_t stream, const std::string& path, const std::string& method = "GET", const std::string& more = "") {
    return frame(1, 5, stream, lit(":method", method) + lit(":path", path) + lit(":scheme", "http") + lit(":authority", "x") + more);
}

struct Frame { int type, flags; uint32_t stream; std::string payload; };
inline std::vector<Frame> frames(const std::string& b, size_t* rest = nullptr) {
    std::vector<Frame> r;
    size_t p = 0;
    auto u = [&](size_t i) { return uint32_t(uint8_t(b[i])); };
    while (b.size() - p >= 9) {
        size_t n = u(p) << 16 | u(p + 1) << 8 | u(p + 2);
        if (b.size() - p - 9 < n) break;
        r.push_back({int(u(p + 3)), int(u(p + 4)), (u(p + 5) & 127) << 24 | u(p + 6) << 16 | u(p + 7) << 8 | u(p + 8), b.substr(p + 9, n)});
        p += 9 + n;
    }
    if (rest) *rest = b.size() - p;
    return r;
}
inline size_t body(const std::vector<Frame>& fs, uint32_t stream) { size_t n = 0; for (auto& f : fs) if (f.type == 0 && f.stream == stream) n += f.payload.size(); return n; }
inline bool ended(const std::vector<Frame>& fs, uint32_t stream) { for (auto& f : fs) if (f.type <= 1 && f.stream == stream && (f.flags & 1)) return true; return false; }
inline int count(const std::vector<Frame>& fs, int type, int flags = -1) { int n = 0; for (auto& f : fs) n += f.type == type && (flags < 0 || f.flags == flags); return n; }

inline uint16_t free_port() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bind(s, (sockaddr*)&a, sizeof a);
    socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l);
    close(s);
    return ntohs(a.sin_port);
}
struct Client {
    int fd = -1;
    std::string in;
    bool eof = false;
    explicit Client(uint16_t port, int rcvbuf = 0) {
        for (int i = 0; i < 100; i++) {
            fd = socket(AF_INET, SOCK_STREAM, 0);
            if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
            sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
            if (connect(fd, (sockaddr*)&a, sizeof a) == 0) return;
            close(fd);
            usleep(50000);
        }
        CHECK(false, "cannot connect");
    }
    ~Client() { if (fd >= 0) close(fd); }
    void drop() { close(fd); fd = -1; }
    void reset() { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); drop(); }
    bool send(const std::string& s) { size_t p = 0; while (p < s.size()) { auto n = ::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL); if (n <= 0) return false; p += n; } return true; }
    // reads until the predicate holds, the server closes, or the time is over
    bool until(const std::function<bool(Client&)>& p, double secs = 5) {
        double end = now() + secs;
        while (true) {
            if (p(*this)) return true;
            int left = int((end - now()) * 1000);
            if (left <= 0 || eof) return false;
            pollfd f{fd, POLLIN, 0};
            if (poll(&f, 1, left) <= 0) continue;
            char b[65536];
            auto n = ::recv(fd, b, sizeof b, 0);
            if (n <= 0) eof = true; else in.append(b, n);
        }
    }
    std::vector<Frame> got() { return frames(in); }
    bool answered(uint32_t stream, double secs = 5) { return until([&](Client& c) { return ended(c.got(), stream); }, secs); }
    bool closed(double secs = 5) { until([](Client& c) { return c.eof; }, secs); return eof; }
};
