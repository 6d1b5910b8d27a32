// Runs the real Http2Server on a simulated kernel: sockets, epoll/poll, and the monotonic clock are scripted.
//
// Script (between "trace <id>" and "end"):
//   route ... (as for conn_driver)
//   ord asc|desc|lru|rnd <seed>     order in which ready descriptors are reported
//   conn <k>          client k connects            aerr <errno>     an accept() fails so (in turn with clients)
//   feed <k> <hex>... octets from client k         fin <k>          client k stops sending
//   rst <k>           client k resets              room <k> <n>     client k takes n more octets (-1: any number)
//   tick <ms>         time passes                  fail <call> <errno>   the next such call fails
//   spur <k>          report k readable although it is not
//   intr              the wait is interrupted by a signal
//   early             stop() is called before start()
//   stop              stop() is called             stopat <n>       ... during the n-th system call from here
//   late <op>         the operation takes effect after readiness was determined
//   go [n]            n rounds of event handling   settle           rounds until nothing is ready
//   idle <ms>         rounds until so much time has passed
// With "tls" the server serves TLS; clients are OpenSSL clients whose octets travel through the simulated sockets:
//   alpn <k> <hex>    what client k offers (default h2)      tver <k> 12|13     its protocol version
//   raw <k> <hex>...  octets outside TLS                     hold <k> 0|1       it stops taking part
//   cut <k> <n>       its octets arrive n at a time          gate <k> 0|1       its octets wait for
//   release <k> <n>   ... this                               notify <k>         it sends close_notify
//   again <k>         it will resume the session of an earlier client
//   keyup <k>         it asks for new keys                   check              compare what arrived with what was written
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <cstdarg>
#include <deque>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <thread>

#include <dlfcn.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

#include "http2_server.h"
#ifdef USE_POLL
#include "pollers/poll_poller.h"
#endif
#include "cert.h"
#include "hexutil.h"

namespace {
constexpr int BASE = 1000;
struct Tls {
    SSL* ssl = nullptr;
    BIO *rbio = nullptr, *wbio = nullptr;
    SSL_CTX* ctx = nullptr;
    std::string wire, got, alpn;
    std::deque<std::string> plain;
    bool done = false, gate = false, hold = false, dead = false;
    size_t cut = 0;
    size_t shown = 0;
    size_t plain_out = 0, plain_in = 0;  // what the client wrote, what the server has read
    ~Tls() {
        if (ssl) SSL_free(ssl);
        if (ctx) SSL_CTX_free(ctx);
    }
};
struct Sock {
    int k;  // client
    std::unique_ptr<Tls> tls;
    std::string alpn = std::string("\x02h2", 3), from_server, sent;  // ciphertext for the client; plaintext the server has written
    int tver = 0;
    bool garbage = false, hit_eof = false, hit_err = false, quiet = false;
    std::deque<std::string> in;
    bool fin = false, rst = false, rst_read = false, rst_written = false, shut = false, nonblock = false, accepted = false, closed = false;
    long room = -1;
    bool spur = false;
    bool edge_in = false, edge_out = false;
    int linger = 0;        // seconds that close() waits for the client to take what was written
    bool wrote = false, resume = false;
    bool readable() const { return !in.empty() || fin || rst; }
    bool writable() const { return room != 0 || rst; }
    uint32_t events() const {
        uint32_t e = 0;
        if (readable()) e |= EPOLLIN;
        if (spur) e |= EPOLLIN;
        if (writable()) e |= EPOLLOUT;
        if (fin || rst) e |= EPOLLRDHUP;
        if (rst || (fin && shut)) e |= EPOLLHUP;
        if (rst && !rst_read) e |= EPOLLERR;
        return e;
    }
};
struct Reg {
    uint32_t ev;
    epoll_data_t data;
    bool off = false;
    bool fresh = true;
};
enum Kind { LISTENER, EPOLL, CLIENT };
struct File {
    Kind kind;
    Sock* s = nullptr;
    bool nonblock = false, bound = false, listening = false;
    std::map<int, Reg> regs;  // epoll
};
struct Pending {
    Sock* s;
    int err;
};
struct World {
    std::map<int, File> files;
    std::map<int, std::unique_ptr<Sock>> socks;
    std::deque<Pending> backlog;
    std::vector<std::vector<std::string>> script;
    size_t pc = 0;
    long left = 0;      // rounds left of the current go
    long long until = -1;
    std::string ord = "asc";
    std::mt19937 rnd;
    std::map<int, long> served;  // fd -> when last reported
    long turn = 0;
    long long now = 0;  // ms
    bool intr = false;
    long stopat = -1;
    bool stopped = false;
    std::map<std::string, std::deque<int>> fails;
    std::map<std::string, std::string> shown;  // interest as last reported
    int spins = 0, waits = 0, after = 0;
    ion::Http2Server* server = nullptr;
    bool tls = false;
};
World* W = nullptr;

void out(const std::string& s) { std::cout << s << '\n'; }
[[noreturn]] void give_up(const std::string& s) {
    out(s);
    std::cout.flush();
    _exit(97);
}
void stop(const char* how) {
    if (!W->stopped) {
        out(std::string("stop ") + how);
        W->stopped = true;
        W->server->stop(ion::StopReason::Signal);
    }
}
// every interposed system call comes through here
void tick() {
    if (++W->spins > 40000) {
        give_up("spin");
    }
    if (W->stopat > 0 && --W->stopat == 0) {
        stop("call");
    }
}
File* file(int fd) {
    if (!W || fd < BASE) {
        return nullptr;
    }
    const auto it = W->files.find(fd);
    return it == W->files.end() ? nullptr : &it->second;
}
bool sim(int fd) { return W && fd >= BASE; }
int fresh_fd(File f) {
    int fd = BASE;
    while (W->files.contains(fd)) {
        fd++;
    }
    W->files[fd] = std::move(f);
    return fd;
}
std::string who(const File& f) { return f.kind == LISTENER ? "L" : f.kind == EPOLL ? "E" : std::to_string(f.s->k); }
int fail_with(int e) {
    errno = e;
    return -1;
}
bool planned(const char* call) {
    auto& q = W->fails[call];
    if (q.empty()) {
        return false;
    }
    errno = q.front();
    q.pop_front();
    return true;
}
int bad(const char* op, int fd) {
    out(std::string("bad ") + op + " " + std::to_string(fd));
    return fail_with(EBADF);
}
// a call that keeps the server from everything else for a while
void stall(long ms) {
    out("stall " + std::to_string(ms));
    W->now += ms;
}
File* client(const char* op, int fd) {
    File* f = file(fd);
    if (!f || f->kind != CLIENT) {
        bad(op, fd);
        return nullptr;
    }
    return f;
}
uint32_t events_of(File& f) {
    if (f.kind == LISTENER) {
        return f.listening && !W->backlog.empty() ? static_cast<uint32_t>(EPOLLIN) : 0u;
    }
    return f.kind == CLIENT ? f.s->events() : 0u;
}
Sock& sock(int k) {
    auto& s = W->socks[k];
    if (!s) {
        s = std::make_unique<Sock>();
        s->k = k;
    }
    return *s;
}
void deliver(Sock& s, const std::string& d) {
    const size_t n = s.tls && s.tls->cut ? s.tls->cut : d.size();
    for (size_t i = 0; i < d.size(); i += n) {
        s.in.push_back(d.substr(i, n));
    }
    s.edge_in = true;
}
SSL_SESSION* sessions[2] = {nullptr, nullptr};  // the latest of TLS 1.3 and 1.2
void begin_tls(Sock& s) {
    s.tls = std::make_unique<Tls>();
    Tls& t = *s.tls;
    t.ctx = SSL_CTX_new(TLS_client_method());
    if (s.tver) {
        SSL_CTX_set_min_proto_version(t.ctx, s.tver == 12 ? TLS1_2_VERSION : TLS1_3_VERSION);
        SSL_CTX_set_max_proto_version(t.ctx, s.tver == 12 ? TLS1_2_VERSION : TLS1_3_VERSION);
    }
    SSL_CTX_set_session_cache_mode(t.ctx, SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL);
    SSL_CTX_sess_set_new_cb(t.ctx, [](SSL* ssl, SSL_SESSION* session) {
        SSL_SESSION*& kept = sessions[SSL_version(ssl) == TLS1_2_VERSION];
        SSL_SESSION_free(kept);
        kept = session;
        return 1;
    });
    t.ssl = SSL_new(t.ctx);
    if (SSL_SESSION* kept = sessions[s.tver == 12]; s.resume && kept) {
        SSL_set_session(t.ssl, kept);
    }
    t.rbio = BIO_new(BIO_s_mem());
    t.wbio = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(t.rbio, -1);
    SSL_set_bio(t.ssl, t.rbio, t.wbio);
    SSL_set_connect_state(t.ssl);
    if (!s.alpn.empty()) {
        SSL_set_alpn_protos(t.ssl, reinterpret_cast<const unsigned char*>(s.alpn.data()), static_cast<unsigned>(s.alpn.size()));
    }
}
// the client takes what has arrived and goes on: in a thread of its own, as OpenSSL's error queues belong to threads
void pump1(Sock& s);
void pump(Sock& s) {
    if (s.tls && !s.tls->hold && !s.rst) {
        std::thread(pump1, std::ref(s)).join();
    }
}
void pump1(Sock& s) {
    Tls& t = *s.tls;
    if (!s.from_server.empty()) {
        BIO_write(t.rbio, s.from_server.data(), static_cast<int>(s.from_server.size()));
        s.from_server.clear();
    }
    ERR_clear_error();
    if (!t.done && !t.dead) {
        const int r = SSL_do_handshake(t.ssl);
        if (r == 1) {
            t.done = true;
            if (SSL_session_reused(t.ssl)) {
                out("again " + std::to_string(s.k));
            }
            const unsigned char* p = nullptr;
            unsigned n = 0;
            SSL_get0_alpn_selected(t.ssl, &p, &n);
            out("alpn " + std::to_string(s.k) + " " + hex(s.alpn) + " " + hex(std::string(reinterpret_cast<const char*>(p), n)));
        } else if (const int e = SSL_get_error(t.ssl, r); e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
            t.dead = true;
            if (!s.fin) {
                out("hsfail " + std::to_string(s.k));
            }
        }
    }
    if (t.done && !t.dead) {
        while (!t.plain.empty()) {
            SSL_write(t.ssl, t.plain.front().data(), static_cast<int>(t.plain.front().size()));
            t.plain_out += t.plain.front().size();
            t.plain.pop_front();
        }
        char buf[65536];
        for (;;) {
            const int r = SSL_read(t.ssl, buf, sizeof buf);
            if (r <= 0) {
                if (const int e = SSL_get_error(t.ssl, r); e == SSL_ERROR_SSL || e == SSL_ERROR_SYSCALL) {
                    t.dead = true;
                    if (!s.fin) {     // or it is told that its end of the stream is missing
                        out("cfail " + std::to_string(s.k));
                    }
                }
                break;
            }
            t.got.append(buf, static_cast<size_t>(r));
        }
    }
    char* p = nullptr;
    const long n = BIO_get_mem_data(t.wbio, &p);
    t.wire.append(p, static_cast<size_t>(n));
    (void)BIO_reset(t.wbio);
    if (!t.gate && !t.wire.empty()) {
        deliver(s, t.wire);
        t.wire.clear();
    }
    ERR_clear_error();
}
void compare() {
    for (auto& [k, s] : W->socks) {
        if (s->tls && !s->tls->hold && !s->rst) {
            const Tls& t = *s->tls;
            const bool pre = s->sent.compare(0, t.got.size(), t.got) == 0 && t.got.size() <= s->sent.size();
            out("got " + std::to_string(k) + " " + std::to_string(s->sent.size()) + " " + std::to_string(t.got.size()) + " " + (pre ? "1" : "0"));
        }
    }
}
void env(const std::vector<std::string>& w) {
    const std::string& op = w[0];
    auto num = [&](size_t i) { return std::stol(w.at(i)); };
    if (op == "conn") {
        Sock& s = sock(static_cast<int>(num(1)));
        W->backlog.push_back({&s, 0});
        if (W->tls && !s.quiet) {
            if (!s.tls) {
                begin_tls(s);
            }
            pump(s);
        }
    } else if (op == "aerr") {
        W->backlog.push_back({nullptr, static_cast<int>(num(1))});
    } else if (op == "feed") {
        Sock& s = sock(static_cast<int>(num(1)));
        if (W->tls && !s.quiet && !s.tls) {
            begin_tls(s);
        }
        for (size_t i = 2; i < w.size(); i++) {
            if (s.tls) {
                s.tls->plain.push_back(unhex(w[i]));
            } else {
                s.in.push_back(unhex(w[i]));
                s.garbage = true;     // if the server expects TLS
            }
        }
        pump(s);
        s.edge_in = true;
    } else if (op == "raw") {
        Sock& s = sock(static_cast<int>(num(1)));
        for (size_t i = 2; i < w.size(); i++) {
            deliver(s, unhex(w[i]));
        }
        s.garbage = true;
    } else if (op == "quiet") {
        sock(static_cast<int>(num(1))).quiet = true;
        sock(static_cast<int>(num(1))).tls.reset();
    } else if (op == "alpn") {
        sock(static_cast<int>(num(1))).alpn = unhex(w.at(2));
    } else if (op == "tver") {
        sock(static_cast<int>(num(1))).tver = static_cast<int>(num(2));
    } else if (op == "hold" || op == "gate" || op == "cut" || op == "release" || op == "notify" || op == "keyup") {
        Sock& s = sock(static_cast<int>(num(1)));
        if (!s.tls && W->tls && !s.quiet && !s.accepted) {
            begin_tls(s);
        }
        if (!s.tls) {
            return;
        }
        Tls& t = *s.tls;
        if (op == "hold") {
            t.hold = num(2) != 0;
        } else if (op == "gate") {
            t.gate = num(2) != 0;
        } else if (op == "cut") {
            t.cut = static_cast<size_t>(num(2));
        } else if (op == "release") {
            const std::string d = t.wire.substr(0, static_cast<size_t>(num(2)));
            t.wire.erase(0, d.size());
            if (!d.empty()) {
                deliver(s, d);
            }
        } else if (t.done && op == "notify") {
            std::thread([&] { SSL_shutdown(t.ssl); }).join();
        } else if (t.done) {
            std::thread([&] {
                SSL_key_update(t.ssl, SSL_KEY_UPDATE_REQUESTED);
                SSL_do_handshake(t.ssl);
            }).join();
        }
        pump(s);
    } else if (op == "again") {
        // client k resumes the session of an earlier client
        sock(static_cast<int>(num(1))).resume = true;
    } else if (op == "check") {
        compare();
    } else if (op == "fin") {
        Sock& s = sock(static_cast<int>(num(1)));
        s.fin = s.edge_in = true;
    } else if (op == "rst") {
        Sock& s = sock(static_cast<int>(num(1)));
        s.rst = s.edge_in = true;
        s.in.clear();
    } else if (op == "room") {
        Sock& s = sock(static_cast<int>(num(1)));
        s.room = num(2);
        s.edge_out = true;
    } else if (op == "spur") {
        sock(static_cast<int>(num(1))).spur = true;
    } else if (op == "tick") {
        W->now += num(1);
    } else if (op == "fail") {
        W->fails[w.at(1)].push_back(static_cast<int>(num(2)));
    } else if (op == "ord") {
        W->ord = w.at(1);
        W->rnd.seed(w.size() > 2 ? static_cast<unsigned>(num(2)) : 1);
    } else if (op == "intr") {
        W->intr = true;
    } else if (op == "stop") {
        stop("wait");
    } else if (op == "stopat") {
        W->stopat = num(1);
    } else {
        give_up("unknown operation " + op);
    }
}
struct Want {
    uint32_t ev;
    epoll_data_t data;
    Reg* reg;
};
std::string list_where(bool (*p)(const Sock&)) {
    std::string r;
    for (auto& [k, s] : W->socks) {
        if (s->accepted && !s->closed && p(*s)) {
            r += (r.empty() ? "" : ",") + std::to_string(k);
        }
    }
    return r.empty() ? "-" : r;
}
// one wait; the result maps descriptors to events
std::vector<std::pair<int, uint32_t>> sim_wait(std::map<int, Want> want, int max, int timeout, bool& interrupted) {
    tick();
    interrupted = false;
    // the interest now in force
    std::map<std::string, std::string> in_force;
    for (auto& [fd, wt] : want) {
        if (File* f = file(fd); f && (!wt.reg || !wt.reg->off)) {
            in_force[who(*f)] = std::to_string(((wt.ev & EPOLLIN) ? 1 : 0) + ((wt.ev & EPOLLOUT) ? 2 : 0));
        } else if (!f) {
            bad("poll", fd);
        }
    }
    for (auto& [n, m] : W->shown) {
        if (!in_force.contains(n)) {
            out("int " + n + " 0");
        }
    }
    for (auto& [n, m] : in_force) {
        if (!W->shown.contains(n) || W->shown[n] != m) {
            out("int " + n + " " + m);
        }
    }
    W->shown = in_force;
    out("wait " + std::to_string(timeout) + " " + std::to_string(W->now) + " " + std::to_string(W->backlog.size()) + " " +
        list_where([](const Sock& s) { return s.readable(); }) + " " +
        // what was taken from the socket but not yet from TLS
        list_where([](const Sock& s) {
            return s.tls && s.tls->done && !s.tls->dead && s.tls->wire.empty() && s.in.empty() && !s.garbage && !s.rst && !s.fin && s.accepted && !s.closed && s.tls->plain_in < s.tls->plain_out;
        }));
    std::cout.flush();
    W->spins = 0;
    if (++W->waits > 6000) {
        give_up("spin");
    }
    if (W->stopped && ++W->after > 3) {
        give_up("runs on");
    }
    // what happens meanwhile
    for (auto& [k, s] : W->socks) {
        pump(*s);
    }
    std::vector<std::vector<std::string>> late;
    bool settle = false, idle = false;
    for (;;) {
        if (W->pc >= W->script.size()) {
            if (!W->stopped) {
                compare();
            }
            stop("wait");
            break;
        }
        const auto& w = W->script[W->pc];
        if (w[0] == "go") {
            if (W->left == 0) {
                W->left = w.size() > 1 ? std::stol(w[1]) : 1;
            }
            if (--W->left == 0) {
                W->pc++;
            }
            break;
        }
        if (w[0] == "settle") {
            settle = true;
            break;
        }
        if (w[0] == "idle") {
            if (W->until < 0) {
                W->until = W->now + std::stol(w[1]);
            }
            if (W->now < W->until) {
                idle = true;
                break;
            }
            W->until = -1;
            W->pc++;
            continue;
        }
        if (w[0] == "late") {
            late.emplace_back(w.begin() + 1, w.end());
        } else {
            env(w);
        }
        W->pc++;
    }
    std::vector<std::pair<int, uint32_t>> ready;
    for (auto& [fd, wt] : want) {
        File* f = file(fd);
        if (!f) {
            ready.emplace_back(fd, POLLNVAL);
            continue;
        }
        if (wt.reg && wt.reg->off) {
            continue;
        }
        uint32_t e = events_of(*f) & (wt.ev | EPOLLHUP | EPOLLERR);
        if (e && (wt.ev & EPOLLET) && f->kind == CLIENT) {
            uint32_t arm = 0;
            if (f->s->edge_in || wt.reg->fresh) arm |= EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR;
            if (f->s->edge_out || wt.reg->fresh) arm |= EPOLLOUT;
            if (!(e & arm)) {
                e = 0;
            }
        }
        if (e) {
            ready.emplace_back(fd, e);
        }
    }
    std::sort(ready.begin(), ready.end());
    if (W->ord == "desc") {
        std::reverse(ready.begin(), ready.end());
    } else if (W->ord == "rnd") {
        std::shuffle(ready.begin(), ready.end(), W->rnd);
    }
    if (W->ord == "lru" || static_cast<int>(ready.size()) > max) {
        std::stable_sort(ready.begin(), ready.end(), [](auto& a, auto& b) { return W->served[a.first] < W->served[b.first]; });
    }
    if (static_cast<int>(ready.size()) > max) {
        ready.resize(static_cast<size_t>(max));
    }
    W->turn++;
    for (auto& [fd, e] : ready) {
        W->served[fd] = W->turn;
        if (File* f = file(fd); f && f->kind == CLIENT) {
            Reg* r = want[fd].reg;
            if (r) {
                r->fresh = false;
                if (r->ev & EPOLLONESHOT) {
                    r->off = true;
                }
            }
            if (e & EPOLLIN) f->s->edge_in = false;
            if (e & EPOLLOUT) f->s->edge_out = false;
            f->s->spur = false;
        }
    }
    if (W->intr) {
        W->intr = false;
        interrupted = true;
        ready.clear();
    } else if (ready.empty()) {
        if (timeout < 0) {
            give_up("forever");
        }
        W->now += timeout;
        if (settle) {
            W->pc++;
        }
    }
    std::string line = "ready " + std::to_string(W->now) + (interrupted ? " intr " : " ok ");
    line += std::to_string(W->backlog.size()) + " " + list_where([](const Sock& s) { return s.readable(); }) + " " +
            list_where([](const Sock& s) { return s.writable(); });
    for (auto& [fd, e] : ready) {
        File* f = file(fd);
        line += " " + (f ? who(*f) : "?") + ":" +
                std::to_string(((e & EPOLLIN) ? 1 : 0) + ((e & EPOLLOUT) ? 2 : 0) + ((e & EPOLLHUP) ? 4 : 0) + ((e & EPOLLERR) ? 8 : 0));
    }
    out(line);
    for (auto& w : late) {
        env(w);
        if (w[0] == "tick") {
            out("clock " + std::to_string(W->now));
        }
    }
    (void)idle;
    return ready;
}
void said(const char* what, const char* tls, const std::string& rest) { out((W->tls ? tls : what) + std::string(" ") + rest); }
ssize_t sim_read(int fd, void* buf, size_t n, bool peek = false) {
    tick();
    File* f = client("read", fd);
    if (!f) {
        return -1;
    }
    Sock& s = *f->s;
    const std::string k = std::to_string(s.k);
    if (planned("read")) {
        const int e = errno;
        s.hit_err = true;
        said("rerr", "cerr", k + " " + std::to_string(e));
        errno = e;
        return -1;
    }
    if (s.rst) {
        if (s.rst_read) {
            s.hit_eof = true;
            said("eof", "ceof", k);
            return 0;
        }
        s.rst_read = s.hit_err = true;
        said("rerr", "cerr", k + " " + std::to_string(ECONNRESET));
        return fail_with(ECONNRESET);
    }
    if (!s.in.empty()) {
        std::string& d = s.in.front();
        const size_t m = std::min(n, d.size());
        std::memcpy(buf, d.data(), m);
        if (W->tls) {
            out("cin " + k + " " + std::to_string(m));
        } else {
            out("rd " + k + " " + hex(std::string_view(d).substr(0, m)));
        }
        if (peek) {
            return static_cast<ssize_t>(m);
        }
        if (m == d.size()) {
            s.in.pop_front();
        } else {
            d.erase(0, m);
        }
        return static_cast<ssize_t>(m);
    }
    if (s.fin) {
        s.hit_eof = true;
        said("eof", "ceof", k);
        return 0;
    }
    if (!f->nonblock) {
        give_up("hang read " + k);
    }
    said("rblock", "cblock", k);
    return fail_with(EAGAIN);
}
ssize_t sim_write(int fd, const void* buf, size_t n) {
    tick();
    File* f = client("write", fd);
    if (!f) {
        return -1;
    }
    Sock& s = *f->s;
    const std::string k = std::to_string(s.k);
    if (planned("write")) {
        const int e = errno;
        s.hit_err = true;
        said("werr", "cerr", k + " 32");
        return fail_with(e);
    }
    if (s.rst || s.shut) {
        s.hit_err = true;
        said("werr", "cerr", k + " 32");
        return fail_with(EPIPE);
    }
    if (s.room == 0) {
        if (!f->nonblock) {
            give_up("hang write " + k);
        }
        said("wblock", "cblock", k);
        return fail_with(EAGAIN);
    }
    size_t m = n;
    if (s.room > 0) {
        m = std::min<size_t>(n, static_cast<size_t>(s.room));
        s.room -= static_cast<long>(m);
    }
    s.wrote = true;
    if (W->tls) {
        out("cout " + k + " " + std::to_string(m));
        s.from_server.append(static_cast<const char*>(buf), m);
    } else {
        out("wr " + k + " " + std::to_string(n) + " " + hex(std::string_view(static_cast<const char*>(buf), m)));
    }
    return static_cast<ssize_t>(m);
}
int sim_accept(int fd, sockaddr* a, socklen_t* l, int flags) {
    tick();
    File* f = file(fd);
    if (!f || f->kind != LISTENER) {
        return bad("accept", fd);
    }
    if (W->backlog.empty()) {
        out("accnone");
        if (!f->nonblock) {
            give_up("hang accept");
        }
        return fail_with(EAGAIN);
    }
    const Pending p = W->backlog.front();
    W->backlog.pop_front();
    if (!p.s) {
        out("accerr " + std::to_string(p.err));
        return fail_with(p.err);
    }
    File n{CLIENT, p.s};
    n.nonblock = (flags & SOCK_NONBLOCK) != 0;
    p.s->accepted = true;
    const int r = fresh_fd(n);
    out("acc " + std::to_string(p.s->k) + " " + std::to_string(r));
    if (a && l) {
        sockaddr_in in{};
        in.sin_family = AF_INET;
        in.sin_addr.s_addr = htonl(0x0a000000u + static_cast<uint32_t>(p.s->k));
        std::memcpy(a, &in, std::min<size_t>(*l, sizeof in));
        *l = sizeof in;
    }
    return r;
}
}  // namespace

namespace {
template <class F> F* real(const char* name) { return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name)); }
Sock* sock_of(const SSL* ssl) {
    const int fd = SSL_get_fd(ssl);
    File* f = W && fd >= BASE ? file(fd) : nullptr;
    return f && f->kind == CLIENT ? f->s : nullptr;
}
// What the error queue ended with before the call: an entry that is new says the call failed for good, even when the
// alert about it could not be written yet (SSL_get_error sees it the same way); one left behind by others says nothing.
unsigned long last_error(int* line = nullptr, const char** file = nullptr) {
    int l = 0;
    const char* f = nullptr;
    const unsigned long e = ERR_peek_last_error_all(&f, &l, nullptr, nullptr, nullptr);
    if (line) {
        *line = l;
    }
    if (file) {
        *file = f;
    }
    return e;
}
struct Before {
    int line = 0;
    const char* file = nullptr;
    unsigned long code = last_error(&line, &file);
    void forget() { code = 0; }  // the handshake empties the queue when it starts
    bool failed() const {
        int l = 0;
        const char* f = nullptr;
        const unsigned long e = last_error(&l, &f);
        return e && (e != code || l != line || f != file);
    }
};
bool retries(const SSL* ssl) {
    return (SSL_want(ssl) == SSL_READING && BIO_should_retry(SSL_get_rbio(ssl))) || (SSL_want(ssl) == SSL_WRITING && BIO_should_retry(SSL_get_wbio(ssl)));
}
bool retries(const SSL* ssl, const Before& was) {
    return !was.failed() && retries(ssl);
}
bool excuse(const Sock& s) { return s.garbage || s.hit_eof || s.hit_err || s.rst || s.shut || (s.tls && s.tls->dead); }
int after_hs(SSL* ssl, int r, const Before& was) {
    if (Sock* s = sock_of(ssl)) {
        const std::string k = std::to_string(s->k);
        if (r == 1) {
            out("hs " + k + " ok");
        } else if (retries(ssl, was)) {
            out("hs " + k + (SSL_want(ssl) == SSL_WRITING ? " wblock" : " block"));
        } else {
            out("hs " + k + (excuse(*s) ? " fail" : " misuse"));
        }
    }
    return r;
}
void after_read(SSL* ssl, const Before& was, bool ok, const void* buf, size_t n) {
    if (Sock* s = sock_of(ssl)) {
        const std::string k = std::to_string(s->k);
        if (ok) {
            out("rd " + k + " " + hex(std::string_view(static_cast<const char*>(buf), n)));
            if (s->tls) {
                s->tls->plain_in += n;
            }
        } else if (retries(ssl, was)) {
            out((SSL_want(ssl) == SSL_WRITING ? "rwblock " : "rblock ") + k);
        } else if (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN) {
            out("eof " + k);
        } else if (excuse(*s)) {
            out("rerr " + k + (s->hit_err && !s->garbage ? " 4" : " 3"));
        } else {
            out("misuse " + k);
        }
    }
}
void after_write(SSL* ssl, const Before& was, bool ok, const void* buf, size_t n, size_t done) {
    if (Sock* s = sock_of(ssl)) {
        const std::string k = std::to_string(s->k);
        if (ok) {
            const std::string d(static_cast<const char*>(buf), done);
            s->sent += d;
            out("wr " + k + " " + std::to_string(n) + " " + hex(d));
        } else if (retries(ssl, was)) {
            out("wblock " + k);
        } else {
            out((excuse(*s) || (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN) ? "werr " : "misuse ") + k);
        }
    }
}
}  // namespace

extern "C" {
int SSL_accept(SSL* s) {
    Before was;
    was.forget();
    const int r = real<int(SSL*)>("SSL_accept")(s);
    return after_hs(s, r, was);
}
int SSL_do_handshake(SSL* s) {
    Before was;
    was.forget();
    const int r = real<int(SSL*)>("SSL_do_handshake")(s);
    return SSL_is_server(s) ? after_hs(s, r, was) : r;
}
int SSL_read(SSL* s, void* b, int n) {
    const Before was;
    const int r = real<int(SSL*, void*, int)>("SSL_read")(s, b, n);
    after_read(s, was, r > 0, b, r > 0 ? static_cast<size_t>(r) : 0);
    return r;
}
int SSL_read_ex(SSL* s, void* b, size_t n, size_t* d) {
    const Before was;
    const int r = real<int(SSL*, void*, size_t, size_t*)>("SSL_read_ex")(s, b, n, d);
    after_read(s, was, r > 0, b, r > 0 ? *d : 0);
    return r;
}
int SSL_write(SSL* s, const void* b, int n) {
    const Before was;
    const int r = real<int(SSL*, const void*, int)>("SSL_write")(s, b, n);
    after_write(s, was, r > 0, b, static_cast<size_t>(n), r > 0 ? static_cast<size_t>(r) : 0);
    return r;
}
int SSL_write_ex(SSL* s, const void* b, size_t n, size_t* d) {
    const Before was;
    const int r = real<int(SSL*, const void*, size_t, size_t*)>("SSL_write_ex")(s, b, n, d);
    after_write(s, was, r > 0, b, n, r > 0 ? *d : 0);
    return r;
}
ssize_t read(int fd, void* b, size_t n) { return sim(fd) ? sim_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t recv(int fd, void* b, size_t n, int fl) {
    return sim(fd) ? sim_read(fd, b, n, fl & MSG_PEEK) : syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
}
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) {
    return sim(fd) ? recv(fd, b, n, fl) : syscall(SYS_recvfrom, fd, b, n, fl, a, l);
}
ssize_t readv(int fd, const iovec* v, int c) {
    if (!sim(fd)) {
        return syscall(SYS_readv, fd, v, c);
    }
    size_t all = 0;
    for (int i = 0; i < c; i++) {
        all += v[i].iov_len;
    }
    std::string buf(all, 0);
    const ssize_t r = sim_read(fd, buf.data(), all);
    size_t done = 0;
    for (int i = 0; i < c && r > 0 && done < static_cast<size_t>(r); i++) {
        const size_t m = std::min(v[i].iov_len, static_cast<size_t>(r) - done);
        std::memcpy(v[i].iov_base, buf.data() + done, m);
        done += m;
    }
    return r;
}
ssize_t recvmsg(int fd, msghdr* m, int fl) {
    return sim(fd) ? readv(fd, m->msg_iov, static_cast<int>(m->msg_iovlen)) : syscall(SYS_recvmsg, fd, m, fl);
}
ssize_t write(int fd, const void* b, size_t n) { return sim(fd) ? sim_write(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t send(int fd, const void* b, size_t n, int fl) {
    return sim(fd) ? sim_write(fd, b, n) : syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) {
    return sim(fd) ? sim_write(fd, b, n) : syscall(SYS_sendto, fd, b, n, fl, a, l);
}
ssize_t writev(int fd, const iovec* v, int c) {
    if (!sim(fd)) {
        return syscall(SYS_writev, fd, v, c);
    }
    std::string all;
    for (int i = 0; i < c; i++) {
        all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    }
    return sim_write(fd, all.data(), all.size());
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) {
    return sim(fd) ? writev(fd, m->msg_iov, static_cast<int>(m->msg_iovlen)) : syscall(SYS_sendmsg, fd, m, fl);
}
int accept(int fd, sockaddr* a, socklen_t* l) { return sim(fd) ? sim_accept(fd, a, l, 0) : static_cast<int>(syscall(SYS_accept, fd, a, l)); }
int accept4(int fd, sockaddr* a, socklen_t* l, int fl) {
    return sim(fd) ? sim_accept(fd, a, l, fl) : static_cast<int>(syscall(SYS_accept4, fd, a, l, fl));
}
int socket(int d, int t, int p) {
    if (!W || d == AF_UNIX) {
        return static_cast<int>(syscall(SYS_socket, d, t, p));
    }
    tick();
    File f{LISTENER};
    f.nonblock = (t & SOCK_NONBLOCK) != 0;
    out("sock");
    return fresh_fd(f);
}
int bind(int fd, const sockaddr* a, socklen_t l) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_bind, fd, a, l));
    }
    tick();
    if (planned("bind")) {
        return -1;
    }
    out("bind " + std::to_string(ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port)));
    return 0;
}
int listen(int fd, int n) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_listen, fd, n));
    }
    tick();
    if (planned("listen")) {
        return -1;
    }
    out("listen");
    if (File* f = file(fd)) {
        f->listening = true;
    }
    return 0;
}
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_setsockopt, fd, lv, o, v, l));
    }
    tick();
    if (!file(fd)) {
        return bad("setsockopt", fd);
    }
    if (file(fd)->kind == CLIENT && lv == SOL_SOCKET && o == SO_LINGER && l >= sizeof(linger)) {
        const auto* w = static_cast<const linger*>(v);
        file(fd)->s->linger = w->l_onoff ? w->l_linger : 0;
    }
    return file(fd)->kind == CLIENT && planned("setsockopt") ? -1 : 0;
}
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_getsockopt, fd, lv, o, v, l));
    }
    if (v && l && *l >= sizeof(int)) {
        *static_cast<int*>(v) = 0;
        const File* f = file(fd);
        if (f && f->kind == CLIENT && lv == SOL_SOCKET && o == SO_ERROR && f->s->rst && !f->s->rst_read) {
            *static_cast<int*>(v) = ECONNRESET;
        }
    }
    return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* l) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_getsockname, fd, a, l));
    }
    tick();
    sockaddr_in in{};
    in.sin_family = AF_INET;
    in.sin_port = htons(8443);
    std::memcpy(a, &in, std::min<size_t>(*l, sizeof in));
    *l = sizeof in;
    return file(fd) ? 0 : bad("getsockname", fd);
}
int getpeername(int fd, sockaddr* a, socklen_t* l) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_getpeername, fd, a, l));
    }
    tick();
    File* f = file(fd);
    if (!f) {
        return bad("getpeername", fd);
    }
    if (f->kind != CLIENT) {
        return fail_with(f->kind == LISTENER ? ENOTCONN : ENOTSOCK);
    }
    if (planned("getpeername")) {
        return -1;
    }
    if (f->s->rst) {
        return fail_with(ENOTCONN);
    }
    sockaddr_in in{};
    in.sin_family = AF_INET;
    in.sin_addr.s_addr = htonl(0x0a000000u + static_cast<uint32_t>(f->s->k));
    std::memcpy(a, &in, std::min<size_t>(*l, sizeof in));
    *l = sizeof in;
    return 0;
}
int shutdown(int fd, int how) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_shutdown, fd, how));
    }
    tick();
    File* f = file(fd);
    if (!f) {
        return bad("shutdown", fd);
    }
    if (f->kind != CLIENT) {
        return f->kind == LISTENER ? 0 : fail_with(ENOTSOCK);
    }
    out("shut " + std::to_string(f->s->k));
    if (f->s->rst) {
        return fail_with(ENOTCONN);
    }
    f->s->shut = true;
    return 0;
}
int close(int fd) {
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_close, fd));
    }
    tick();
    File* f = file(fd);
    if (!f) {
        return bad("close", fd);
    }
    const bool interrupted = f->kind == CLIENT && planned("close");  // the descriptor is gone all the same
    const int error = errno;
    if (f->kind == CLIENT && f->s->linger > 0 && f->s->wrote && f->s->room == 0 && !f->s->rst) {
        stall(1000L * f->s->linger);
    }
    out("close " + who(*f));
    W->shown.erase(who(*f));
    if (f->kind == CLIENT) {
        f->s->closed = true;
    }
    for (auto& [n, g] : W->files) {
        g.regs.erase(fd);
    }
    W->files.erase(fd);
    return interrupted ? fail_with(error) : 0;
}
static int sim_fcntl(int fd, int cmd, long arg) {
    tick();
    File* f = file(fd);
    if (!f) {
        return bad("fcntl", fd);
    }
    if (cmd == F_GETFL) {
        return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    }
    if (cmd == F_SETFL) {
        f->nonblock = (arg & O_NONBLOCK) != 0;
    }
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    const long arg = va_arg(ap, long);
    va_end(ap);
    return sim(fd) ? sim_fcntl(fd, cmd, arg) : static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    const long arg = va_arg(ap, long);
    va_end(ap);
    return sim(fd) ? sim_fcntl(fd, cmd, arg) : static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
}
int ioctl(int fd, unsigned long rq, ...) {
    va_list ap;
    va_start(ap, rq);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (!sim(fd)) {
        return static_cast<int>(syscall(SYS_ioctl, fd, rq, arg));
    }
    if (File* f = file(fd); f && rq == FIONBIO) {
        f->nonblock = *static_cast<int*>(arg) != 0;
    }
    return 0;
}
int epoll_create1(int fl) {
    if (!W) {
        return static_cast<int>(syscall(SYS_epoll_create1, fl));
    }
    tick();
    out("epoll");
    return fresh_fd(File{EPOLL});
}
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) {
    if (!sim(ep)) {
        return static_cast<int>(syscall(SYS_epoll_ctl, ep, op, fd, ev));
    }
    tick();
    File* e = file(ep);
    if (!e || e->kind != EPOLL) {
        return bad("epoll_ctl", ep);
    }
    if (!file(fd)) {
        return op == EPOLL_CTL_DEL ? fail_with(EBADF) : bad("epoll_ctl", fd);
    }
    if (op == EPOLL_CTL_ADD) {
        if (e->regs.contains(fd)) {
            return fail_with(EEXIST);
        }
        e->regs[fd] = {ev->events, ev->data};
    } else if (!e->regs.contains(fd)) {
        return fail_with(ENOENT);
    } else if (op == EPOLL_CTL_MOD) {
        e->regs[fd] = {ev->events, ev->data};
    } else {
        e->regs.erase(fd);
    }
    return 0;
}
int epoll_wait(int ep, epoll_event* evs, int max, int timeout) {
    if (!sim(ep)) {
        return static_cast<int>(syscall(SYS_epoll_wait, ep, evs, max, timeout));
    }
    File* e = file(ep);
    if (!e || e->kind != EPOLL) {
        return bad("epoll_wait", ep);
    }
    if (max <= 0) {
        return fail_with(EINVAL);
    }
    std::map<int, Want> want;
    for (auto& [fd, r] : e->regs) {
        want[fd] = {r.ev, r.data, &r};
    }
    bool intr = false;
    const auto ready = sim_wait(want, max, timeout, intr);
    if (intr) {
        return fail_with(EINTR);
    }
    int n = 0;
    for (auto& [fd, m] : ready) {
        evs[n].events = m;
        evs[n].data = want[fd].data;
        n++;
    }
    return n;
}
int epoll_pwait(int ep, epoll_event* evs, int max, int timeout, const sigset_t*) { return epoll_wait(ep, evs, max, timeout); }
int poll(pollfd* p, nfds_t n, int timeout) {
    bool any = false;
    for (nfds_t i = 0; i < n; i++) {
        any = any || sim(p[i].fd);
    }
    if (!any && !(W && n == 0)) {
        return static_cast<int>(syscall(SYS_poll, p, n, timeout));
    }
    std::map<int, Want> want;
    for (nfds_t i = 0; i < n; i++) {
        if (p[i].fd >= 0) {
            want[p[i].fd] = {static_cast<uint32_t>(((p[i].events & POLLIN) ? EPOLLIN : 0) | ((p[i].events & POLLOUT) ? EPOLLOUT : 0)), {}, nullptr};
        }
    }
    bool intr = false;
    const auto ready = sim_wait(want, 1 << 20, timeout, intr);
    if (intr) {
        return fail_with(EINTR);
    }
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        for (auto& [fd, m] : ready) {
            if (fd == p[i].fd) {
                p[i].revents = static_cast<short>(((m & EPOLLIN) ? POLLIN : 0) | ((m & EPOLLOUT) ? POLLOUT : 0) | ((m & EPOLLHUP) ? POLLHUP : 0) |
                                                  ((m & EPOLLERR) ? POLLERR : 0) | (file(fd) ? 0 : POLLNVAL));
            }
        }
    }
    return static_cast<int>(ready.size());
}
static int ms_of(const timespec* t) { return t ? static_cast<int>(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1; }
int ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t*) { return poll(p, n, ms_of(t)); }
int epoll_pwait2(int ep, epoll_event* evs, int max, const timespec* t, const sigset_t*) { return epoll_wait(ep, evs, max, ms_of(t)); }
static long stall_ms(long s, long ns) {
    stall(s * 1000 + (ns + 999999) / 1000000);
    return 0;
}
int nanosleep(const timespec* t, timespec* rest) {
    return W ? static_cast<int>(stall_ms(t->tv_sec, t->tv_nsec)) : static_cast<int>(syscall(SYS_nanosleep, t, rest));
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rest) {
    if (!W || flags) {
        return syscall(SYS_clock_nanosleep, c, flags, t, rest) < 0 ? errno : 0;
    }
    return static_cast<int>(stall_ms(t->tv_sec, t->tv_nsec));
}
int usleep(useconds_t us) {
    const timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned secs) {
    const timespec t{static_cast<time_t>(secs), 0};
    nanosleep(&t, nullptr);
    return 0;
}
int clock_gettime(clockid_t c, timespec* t) {
    if (W && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) {
        const long long ms = 1000000000LL + W->now;
        t->tv_sec = ms / 1000;
        t->tv_nsec = (ms % 1000) * 1000000;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, c, t));
}
}

#ifdef USE_POLL
namespace ion {
std::unique_ptr<Poller> Poller::create() { return std::make_unique<PollPoller>(); }
}  // namespace ion
#endif

static std::vector<uint8_t> body_of(size_t len, uint32_t seed) {
    std::vector<uint8_t> b(len);
    uint32_t x = seed * 2654435761u + 12345u;
    for (auto& c : b) {
        x = x * 1664525u + 1013904223u;
        c = static_cast<uint8_t>(x >> 24);
    }
    return b;
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::ios::sync_with_stdio(false);
    std::string line;
    std::vector<std::vector<std::string>> script;
    std::vector<std::string> routes;
    bool tls = false;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "trace") {
            script.clear();
            routes.clear();
            tls = false;
            out(line);
            std::cout.flush();
        } else if (op == "route") {
            routes.push_back(line);
        } else if (op == "tls") {
            tls = true;
            certificate();
        } else if (op == "end") {
            auto world = std::make_unique<World>();
            world->script = script;
            {
                ion::ServerConfiguration cfg{};
                cfg.cleartext = !tls;
                world->tls = tls;
                if (tls) {
                    cfg.cert_path = scratch + "/cert.pem";
                    cfg.key_path = scratch + "/key.pem";
                }
                ion::Http2Server server{cfg};
                world->server = &server;
                int n = 0;
                for (auto& r : routes) {
                    std::istringstream in(r);
                    word(in);
                    const int id = ++n;
                    const std::string m = unhex(word(in)), p = unhex(word(in));
                    const int status = std::stoi(word(in));
                    const size_t len = std::stoul(word(in));
                    const auto seed = static_cast<uint32_t>(std::stoul(word(in)));
                    const int thr = std::stoi(word(in));
                    std::vector<ion::HttpHeader> hs;
                    for (std::string nm = word(in); !nm.empty(); nm = word(in)) {
                        const std::string h = unhex(nm);
                        hs.push_back({h, unhex(word(in))});
                    }
                    server.router().add_route(p, m, [=](const ion::HttpRequest& rq) -> ion::HttpResponse {
                        std::string s = "call " + std::to_string(id) + " " + hex(rq.method) + " " + hex(rq.path);
                        for (const auto& h : rq.headers) {
                            s += " " + hex(h.name) + " " + hex(h.value);
                        }
                        out(s);
                        if (thr) {
                            throw std::runtime_error("planned");
                        }
                        ion::HttpResponse res;
                        res.status_code = static_cast<uint16_t>(status);
                        res.body = body_of(len, seed);
                        res.headers = hs;
                        return res;
                    });
                }
                W = world.get();
                if (!script.empty() && script[0][0] == "early") {
                    W->pc = 1;
                    stop("early");
                }
                try {
                    server.start(4433);
                    out("ret");
                } catch (const std::exception& e) {
                    out(std::string("exc ") + hex(std::string(e.what())));
                }
            }
            W = nullptr;
            out("end");
            std::cout.flush();
        } else if (!op.empty()) {
            std::vector<std::string> w{op};
            for (std::string x = word(in); !x.empty(); x = word(in)) {
                w.push_back(x);
            }
            script.push_back(w);
        }
    }
    return 0;
}
