// Drives one Http2Connection over a scripted transport and records every interaction.
//
// Script (one command per line; "trace <id>" starts, "end" finishes):
//   wrap <number>...
//   route <method> <path> <status> <len> <seed> <throw> [<name> <value>]...   (hex words)
//   feed <hex>...   chunks that successive reads return        gap      the next read would block
//   eof             the read after the chunks reports closure   rerr <kind>
//   hs <ok|block|closed|protocol|other|write>...  results of handshake calls (then ok)
//   w <n>...        how many octets successive writes take (0: would block), then wdef
//   wdef <n>        what later writes take (-1: everything)      werr <kind>  the next write fails
//   atomic <0|1>    writes take everything or would block, as TLS does
//   proc [n]        call process() (n times at most; stops at Discard)
//   drain [n]       call process() until it waits for input that is not there, at most n times
//   close           call close()
//   time <seconds> [zone]           what the clock says
//   log             have an access log               ip <hex>   the client's address
#include <cstdio>
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

#include "http2_conn.h"
#include "router.h"
#include "transports/transport.h"

#include "access_log.h"
#include <spdlog/sinks/callback_sink.h>

#include "hexutil.h"

#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

static long the_time = 1763500000;  // the calendar's clock stands still
extern "C" {
int clock_gettime(clockid_t c, timespec* t) noexcept {
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        *t = {the_time, 0};
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, c, t));
}
time_t time(time_t* t) noexcept { return t ? *t = the_time : the_time; }
int gettimeofday(timeval* t, void*) noexcept {
    *t = {the_time, 0};
    return 0;
}
int timespec_get(timespec* t, int b) noexcept {
    *t = {the_time, 0};
    return b;
}
}

namespace {
struct Item {
    int kind;  // 0 data, 1 gap, 2 eof, 3 error
    std::string data;
    ion::TransportError err{};
};
struct World {
    std::deque<Item> in;
    std::deque<ion::TransportError> werr;
    std::deque<long> w;
    long wdef = -1;
    bool atomic = false;
    std::deque<std::string> hs;
    std::string pending;  // content of a write that would block (atomic)
    bool alive = false;
    int spins = 0;
    long reads = 0;
    int again = 0;
};
World* W = nullptr;

ion::TransportError kind(const std::string& k) {
    if (k == "closed") return ion::TransportError::ConnectionClosed;
    if (k == "protocol") return ion::TransportError::ProtocolError;
    if (k == "write") return ion::TransportError::WriteError;
    if (k == "block") return ion::TransportError::WantReadOrWrite;
    return ion::TransportError::OtherError;
}

void out(const std::string& s) { std::cout << s << '\n'; }

// endless looping inside one process() call shows as too many transport calls
void spin() {
    if (++W->spins > 20000) {
        out("spin");
        std::cout.flush();
        _exit(97);
    }
}

class Scripted : public ion::Transport {
   public:
    ~Scripted() override { W->alive = false; }
    std::expected<ssize_t, ion::TransportError> read(std::span<uint8_t> buffer) const override {
        spin();
        if (W->in.empty()) {
            out("rblock");
            return std::unexpected(ion::TransportError::WantReadOrWrite);
        }
        Item& it = W->in.front();
        if (it.kind == 1) {
            W->in.pop_front();
            out("rblock");
            return std::unexpected(ion::TransportError::WantReadOrWrite);
        }
        if (it.kind == 2) {  // stays
            out("eof");
            return std::unexpected(ion::TransportError::ConnectionClosed);
        }
        if (it.kind == 3) {
            const auto e = it.err;
            W->in.pop_front();
            out("rerr " + std::to_string(static_cast<int>(e)));
            return std::unexpected(e);
        }
        const size_t n = std::min(buffer.size(), it.data.size());
        std::memcpy(buffer.data(), it.data.data(), n);
        out("rd " + hex(std::string_view(it.data).substr(0, n)));
        W->reads++;
        if (n == it.data.size()) {
            W->in.pop_front();
        } else {
            it.data.erase(0, n);
        }
        return static_cast<ssize_t>(n);
    }
    std::expected<ssize_t, ion::TransportError> write(std::span<const uint8_t> buffer) const override {
        spin();
        if (!W->werr.empty()) {
            const auto e = W->werr.front();
            W->werr.pop_front();
            W->pending.clear();
            out("werr");
            return std::unexpected(e);
        }
        long take = W->wdef;
        if (!W->w.empty()) {
            take = W->w.front();
            W->w.pop_front();
        }
        if (take < 0 || take > static_cast<long>(buffer.size())) {
            take = static_cast<long>(buffer.size());
        }
        if (W->atomic && take < static_cast<long>(buffer.size())) {
            take = 0;
        }
        const std::string_view sv(reinterpret_cast<const char*>(buffer.data()), buffer.size());
        if (W->atomic && !W->pending.empty() && W->pending != sv) {
            out("wchanged");
        }
        if (take == 0) {
            W->pending = sv;
            out("wblock " + std::to_string(buffer.size()));
            return std::unexpected(ion::TransportError::WantReadOrWrite);
        }
        W->pending.clear();
        out("wr " + std::to_string(buffer.size()) + " " + hex(sv.substr(0, static_cast<size_t>(take))));
        return take;
    }
    void graceful_shutdown() const override { out("shutdown"); }
    std::expected<void, ion::TransportError> handshake() const override {
        spin();
        std::string r = "ok";
        if (!W->hs.empty()) {
            r = W->hs.front();
            W->hs.pop_front();
        }
        out("hs " + r);
        if (r == "ok") {
            return {};
        }
        return std::unexpected(kind(r));
    }
};

std::vector<uint8_t> body_of(size_t len, uint32_t seed) {
    std::vector<uint8_t> b(len);
    uint32_t x = seed * 2654435761u + 12345u;
    for (auto& c : b) {
        x = x * 1664525u + 1013904223u;
        c = static_cast<uint8_t>(x >> 24);
    }
    return b;
}

struct Odd {};
}  // namespace

int main() {
    spdlog::set_level(spdlog::level::off);
    std::ios::sync_with_stdio(false);
    std::string line;
    std::unique_ptr<World> world;
    std::unique_ptr<ion::Router> router;
    std::unique_ptr<ion::Http2Connection> conn;
    int nroutes = 0;
    bool done = false;
    std::string ip = "203.0.113.9";
    // one call of process(), and more while input is left that it has begun to read: readiness is level-triggered
    std::function<bool()> proc = [&]() -> bool {
        if (!conn) {
            conn = std::make_unique<ion::Http2Connection>(std::make_unique<Scripted>(), ip, *router);
        }
        if (done) {
            return true;
        }
        W->spins = 0;
        const long before = W->reads;
        const auto r = conn->process();
        const size_t avail = W->in.size();
        const char* n = r == ion::Http2ProcessResult::WantRead ? "WR" : r == ion::Http2ProcessResult::WantWrite ? "WW" : "DC";
        out(std::string("ret ") + n + " " + std::to_string(avail));
        std::cout.flush();
        if (r == ion::Http2ProcessResult::DiscardConnection) {
            done = true;
            conn.reset();
        }
        if (r == ion::Http2ProcessResult::WantRead && avail > 0 && W->reads > before && ++W->again < 100000) {
            return proc();
        }
        W->again = 0;
        return r == ion::Http2ProcessResult::WantRead;
    };
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "trace") {
            conn.reset();
            world = std::make_unique<World>();
            W = world.get();
            router = std::make_unique<ion::Router>();
            nroutes = 0;
            done = false;
            ip = "203.0.113.9";
            the_time = 1763500000;
            setenv("TZ", "UTC0", 1);
            tzset();
            spdlog::drop(ion::AccessLog::ACCESS_LOGGER_NAME);
            out(line);
            std::cout.flush();
        } else if (op == "route") {
            const int id = ++nroutes;
            const std::string m = unhex(word(in)), p = unhex(word(in));
            const int status = std::stoi(word(in));
            const size_t len = std::stoul(word(in));
            const auto seed = static_cast<uint32_t>(std::stoul(word(in)));
            const int thr = std::stoi(word(in));
            std::vector<ion::HttpHeader> hs;
            for (std::string n = word(in); !n.empty(); n = word(in)) {
                const std::string nm = unhex(n);
                hs.push_back({nm, unhex(word(in))});
            }
            router->add_route(p, m, [=](const ion::HttpRequest& rq) -> ion::HttpResponse {
                std::string s = "call " + std::to_string(id) + " " + hex(rq.method) + " " + hex(rq.path);
                for (const auto& h : rq.headers) {
                    s += " " + hex(h.name) + " " + hex(h.value);
                }
                out(s);
                switch (thr) {
                    case 1: throw std::runtime_error("planned");
                    case 2: throw 42;
                    case 3: throw Odd{};
                    case 4: throw std::bad_alloc();
                    case 5: throw std::string("text");
                }
                ion::HttpResponse r;
                r.status_code = static_cast<uint16_t>(status);
                r.body = body_of(len, seed);
                r.headers = hs;
                return r;
            });
        } else if (op == "wrap") {
            // a middleware that throws while wrapping the handlers of the requests with these numbers
            auto numbers = std::make_shared<std::set<int>>();
            for (std::string w = word(in); !w.empty(); w = word(in)) {
                numbers->insert(std::stoi(w));
            }
            router->add_middleware([numbers, n = std::make_shared<int>(0)](ion::RouteHandler next) -> ion::RouteHandler {
                if (numbers->contains(++*n)) {
                    throw std::runtime_error("planned");
                }
                return next;
            });
        } else if (op == "feed") {
            for (std::string w = word(in); !w.empty(); w = word(in)) {
                W->in.push_back({0, unhex(w)});
            }
        } else if (op == "gap") {
            W->in.push_back({1, ""});
        } else if (op == "eof") {
            W->in.push_back({2, ""});
        } else if (op == "rerr") {
            W->in.push_back({3, "", kind(word(in))});
        } else if (op == "hs") {
            for (std::string w = word(in); !w.empty(); w = word(in)) {
                W->hs.push_back(w);
            }
        } else if (op == "w") {
            for (std::string w = word(in); !w.empty(); w = word(in)) {
                W->w.push_back(std::stol(w));
            }
        } else if (op == "wdef") {
            W->wdef = std::stol(word(in));
        } else if (op == "werr") {
            W->werr.push_back(kind(word(in)));
        } else if (op == "atomic") {
            W->atomic = word(in) == "1";
        } else if (op == "proc") {
            const std::string k = word(in);
            for (int i = k.empty() ? 1 : std::stoi(k); i > 0 && !done; i--) {
                proc();
            }
        } else if (op == "drain") {
            const std::string k = word(in);
            bool idle = false;
            for (int i = k.empty() ? 5000 : std::stoi(k); i > 0 && !done && !idle; i--) {
                idle = proc() && W->in.empty();
            }
        } else if (op == "log") {
            auto lg = std::make_shared<spdlog::logger>(
                ion::AccessLog::ACCESS_LOGGER_NAME,
                std::make_shared<spdlog::sinks::callback_sink_mt>([](const spdlog::details::log_msg& m) {
                    out("log " + std::to_string(the_time) + " " + hex(std::string_view(m.payload.data(), m.payload.size())));
                }));
            lg->set_level(spdlog::level::info);
            spdlog::register_logger(lg);
        } else if (op == "time") {
            the_time = std::stol(word(in));
            if (const std::string z = word(in); !z.empty()) {
                setenv("TZ", z.c_str(), 1);
                tzset();
            }
        } else if (op == "ip") {
            ip = unhex(word(in));
        } else if (op == "close") {
            if (conn && !done) {
                out("close");
                conn->close();
            }
        } else if (op == "end") {
            conn.reset();
            out("end");
            std::cout.flush();
        }
    }
    conn.reset();
    return 0;
}
