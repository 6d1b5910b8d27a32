// Runs TcpTransport (or SocketFd and TcpListener) on real sockets.  Script (between "trace <id>" and "end"):
//   open sp|tcp                       the transport under test and its peer
//   psend <n> | pread [n] | pshut | pclose | prst      what the peer does
//   fault r|w again|err:<errno>|eof|short:<n>          what the next system call of the transport does
//   read <n> | write <n> | shutdown | hs | move | massign | destroy
//   obj <kind> <i> | mv <i> <j> | as <i> <j> | cl <i> | del <i>      objects that own descriptors (kinds s, t, x)
//   listen | conn <ip> | acc | gone <i>                              TcpListener
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <set>
#include <thread>

#include "cert.h"
#include "hexutil.h"
#include "socket_fd.h"
#include "tcp_listener.h"
#include "transports/tcp_transport.h"
#include "transports/tls_context.h"
#include "transports/tls_transport.h"

using namespace ion;
namespace {
int target = -1;
std::vector<std::string> words(const std::string& s) {
    std::istringstream in(s);
    std::vector<std::string> r;
    for (std::string x; in >> x;) r.push_back(x);
    return r;
}
struct Fault { int err = -1; bool eof = false; long cap = -1; bool on = false; };
Fault fr, fw;
[[noreturn]] void die(const std::string& w) {
    std::cerr << "driver: " << w << ": " << strerror(errno) << std::endl;
    std::exit(3);
}
// octet i of a stream
uint8_t pat(uint64_t i, int dir) { return static_cast<uint8_t>((i * 2654435761u >> 7) + i / 251 + dir * 77); }
int tcp_listen(uint16_t& port) {
    const int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    if (l < 0 || bind(l, reinterpret_cast<sockaddr*>(&a), n) || listen(l, 16) || getsockname(l, reinterpret_cast<sockaddr*>(&a), &n)) die("listen");
    port = ntohs(a.sin_port);
    return l;
}
int tcp_connect(uint16_t port, const char* from = "127.0.0.1") {
    const int c = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    inet_pton(AF_INET, from, &a.sin_addr);
    if (bind(c, reinterpret_cast<sockaddr*>(&a), sizeof a)) die("bind client");
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(port);
    if (connect(c, reinterpret_cast<sockaddr*>(&a), sizeof a)) die("connect");
    return c;
}
void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
bool take_fault(Fault& f, size_t& n, ssize_t& r) {
    if (!f.on) return false;
    f.on = false;
    if (f.err >= 0) { errno = f.err; r = -1; return true; }
    if (f.eof) { r = 0; return true; }
    if (f.cap >= 0) n = std::min(n, static_cast<size_t>(f.cap));
    return false;
}
ssize_t do_read(int fd, void* b, size_t n, int fl) {
    ssize_t r = 0;
    if (fd == target && take_fault(fr, n, r)) return r;
    return fl < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
}
ssize_t do_write(int fd, const void* b, size_t n, int fl) {
    ssize_t r = 0;
    if (fd == target && take_fault(fw, n, r)) return r;
    return fl < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
}
}  // namespace
extern "C" {
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t recv(int fd, void* b, size_t n, int fl) { return do_read(fd, b, n, fl); }
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t send(int fd, const void* b, size_t n, int fl) { return do_write(fd, b, n, fl); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) {
    return fd == target ? do_read(fd, b, n, fl) : syscall(SYS_recvfrom, fd, b, n, fl, a, l);
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) {
    return fd == target ? do_write(fd, b, n, fl) : syscall(SYS_sendto, fd, b, n, fl, a, l);
}
ssize_t readv(int fd, const iovec* v, int c) {
    return fd == target && c > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len, 0) : syscall(SYS_readv, fd, v, c);
}
ssize_t writev(int fd, const iovec* v, int c) {
    return fd == target && c > 0 ? do_write(fd, v[0].iov_base, v[0].iov_len, -1) : syscall(SYS_writev, fd, v, c);
}
ssize_t recvmsg(int fd, msghdr* m, int fl) {
    return fd == target && m->msg_iovlen ? do_read(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl) : syscall(SYS_recvmsg, fd, m, fl);
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) {
    return fd == target && m->msg_iovlen ? do_write(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl) : syscall(SYS_sendmsg, fd, m, fl);
}
}
namespace {
std::unique_ptr<TcpTransport> tr;
int peer = -1;
bool tcp = false, mysh = false, gone = false, peer_gone = false;
uint64_t psent = 0, nread = 0, wrote = 0, got = 0;
void settle(short ev, int ms = 2000) {
    pollfd p{target, ev, 0};
    if (!gone) poll(&p, 1, ms);
}
// an address as one printable word
std::string ip_of(const SocketFd& f, const char* none) {
    auto s = f.client_ip().value_or(none);
    for (auto& c : s) if (c <= ' ' || c > '~') c = '?';
    return s.empty() ? "?" : s;
}
const char* name(TransportError e) {
    switch (e) {
        case TransportError::WantReadOrWrite:
        case TransportError::WantWrite: return "want";
        case TransportError::ConnectionClosed: return "closed";
        default: return "fail";
    }
}
void clear_all() {
    tr.reset();
    if (peer >= 0) close(peer);
    peer = target = -1;
    tcp = mysh = gone = peer_gone = false;
    psent = nread = wrote = got = 0;
    fr = fw = Fault{};
}
TlsContext& tls() {
    certificate();
    static TlsContext c{scratch + "/cert.pem", scratch + "/key.pem"};
    return c;
}
struct Obj { char kind; std::unique_ptr<SocketFd> s; std::unique_ptr<TcpTransport> t; std::unique_ptr<TlsTransport> x; };
std::map<int, Obj> objs;
std::vector<int> known, decoys;
bool is_open(int fd) { return fcntl(fd, F_GETFD) >= 0; }
// closed numbers are taken again at once, by descriptors nobody under test owns
void report() {
    std::string o;
    for (auto it = known.begin(); it != known.end();) {
        if (is_open(*it)) {
            o += (o.empty() ? "" : ",") + std::to_string(*it);
            ++it;
        } else {
            const int f = open("/dev/null", O_RDONLY);
            if (f != *it) { if (dup2(f, *it) < 0) die("dup2"); close(f); }
            decoys.push_back(*it);
            it = known.erase(it);
        }
    }
    std::string d;
    for (const int f : decoys) if (!is_open(f)) d += (d.empty() ? "" : ",") + std::to_string(f);
    std::cout << "own " << (o.empty() ? "-" : o) << " " << (d.empty() ? "-" : d);
    for (auto& [i, x] : objs) if (x.s) std::cout << " " << i << ":" << static_cast<int>(*x.s);
    std::cout << "\n";
}
std::unique_ptr<TcpListener> lis;
uint16_t lport = 0;
std::map<int, int> clients;
std::vector<SocketFd> accepted;
}  // namespace

int main() {
    signal(SIGPIPE, SIG_IGN);
    spdlog::set_level(spdlog::level::off);
    std::string line;
    while (std::getline(std::cin, line)) {
        const auto w = words(line);
        if (w.empty()) continue;
        const auto& o = w[0];
        auto num = [&](size_t i) { return w.size() > i ? std::stoi(w[i]) : 0; };
        if (o == "trace") {
            std::cout << line << "\n";
        } else if (o == "end") {
            clear_all();
            objs.clear();
            for (const int f : decoys) close(f);
            for (const int f : known) close(f);
            known.clear();
            decoys.clear();
            accepted.clear();
            for (auto& [i, f] : clients) if (f >= 0) close(f);
            clients.clear();
            lis.reset();
            std::cout << "end\n" << std::flush;
        } else if (o == "open") {
            clear_all();
            int p[2];
            if (w[1] == "sp") {
                if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) die("socketpair");
            } else {
                tcp = true;
                uint16_t port = 0;
                const int l = tcp_listen(port);
                p[1] = tcp_connect(port);
                p[0] = accept(l, nullptr, nullptr);
                close(l);
            }
            const int small = num(2);
            if (small) setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);     // a small receive buffer only makes TCP probe for seconds
            nb(p[0]);
            nb(p[1]);
            target = p[0];
            peer = p[1];
            tr = std::make_unique<TcpTransport>(SocketFd(target));
            std::cout << "open\n";
        } else if (o == "psend") {
            std::vector<uint8_t> b(num(1));
            for (size_t i = 0; i < b.size(); i++) b[i] = pat(psent + i, 0);
            const auto n = syscall(SYS_sendto, peer, b.data(), b.size(), MSG_NOSIGNAL, nullptr, 0);
            if (n > 0) psent += n;
            if (!gone) for (int i = 0; i < 200; i++) {
                int have = 0;
                if (ioctl(target, FIONREAD, &have) || static_cast<uint64_t>(have) >= psent - nread) break;
                usleep(1000);
            }
            std::cout << "psend " << std::max<long>(n, 0) << "\n";
        } else if (o == "pread") {
            const uint64_t limit = w.size() > 1 ? static_cast<uint64_t>(num(1)) : UINT64_MAX;
            std::string end = "again";
            uint64_t k = 0;
            bool ok = true;
            std::vector<uint8_t> b(65536);
            for (int i = 0; i < 10000 && k < limit; ) {
                const auto n = syscall(SYS_recvfrom, peer, b.data(), std::min<uint64_t>(b.size(), limit - k), 0, nullptr, nullptr);
                if (n > 0) {
                    for (long j = 0; j < n; j++) ok &= b[j] == pat(got + j, 1);
                    got += n;
                    k += n;
                    continue;
                }
                if (n == 0) { end = "eof"; break; }
                if (errno != EAGAIN) { end = "err"; break; }
                if (got >= wrote && !mysh && !gone) break;
                usleep(1000);
                i++;
            }
            std::cout << "pread " << k << " " << ok << " " << end << " " << (k >= limit) << "\n";
        } else if (o == "pshut") {
            shutdown(peer, SHUT_WR);
            settle(POLLRDHUP);
            std::cout << "pshut\n";
        } else if (o == "pclose" || o == "prst") {
            int have = 0;
            ioctl(peer, FIONREAD, &have);
            bool rst = o == "prst" || (have > 0);      // unread data turns a close into a reset
            if (o == "prst") { linger l{1, 0}; setsockopt(peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
            if (!tcp && have == 0) rst = false;
            close(peer);
            peer = -1;
            peer_gone = true;
            settle(POLLRDHUP);
            if (tcp && rst) settle(0);
            std::cout << "pclose " << rst << "\n";
        } else if (o == "fault") {
            auto& f = w[1] == "r" ? fr : fw;
            f = Fault{};
            f.on = true;
            if (w[2] == "again") f.err = EAGAIN;
            else if (w[2] == "eof") f.eof = true;
            else if (w[2].starts_with("err:")) f.err = std::stoi(w[2].substr(4));
            else f.cap = std::stoi(w[2].substr(6));
        } else if (o == "read") {
            const size_t n = num(1);
            std::vector<uint8_t> b(n + 64, 0xEE);
            int avail = 0;
            ioctl(target, FIONREAD, &avail);
            const auto r = tr->read(std::span(b.data() + 32, n));
            bool ok = true, clean = true;
            const size_t k = r && *r > 0 ? *r : 0;
            for (size_t i = 0; i < k && i < n; i++) ok &= b[32 + i] == pat(nread + i, 0);
            for (size_t i = 0; i < b.size(); i++) if (i < 32 || i >= 32 + std::min(k, n)) clean &= b[i] == 0xEE;
            nread += k;
            std::cout << "read " << n << " " << (r ? "data" : name(r.error())) << " " << (r ? *r : 0) << " " << ok << " " << clean << " " << !fr.on << " " << avail << "\n";
            fr.on = false;
        } else if (o == "write") {
            std::vector<uint8_t> b(num(1));
            for (size_t i = 0; i < b.size(); i++) b[i] = pat(wrote + i, 1);
            pollfd p{target, POLLOUT, 0};
            poll(&p, 1, 0);
            const auto r = tr->write(b);
            if (r && *r > 0) wrote += *r;
            if (tcp && peer_gone) usleep(2000);
            std::cout << "write " << b.size() << " " << (r ? "data" : name(r.error())) << " " << (r ? *r : 0) << " " << ((p.revents & POLLOUT) != 0) << " " << !fw.on << "\n";
            fw.on = false;
        } else if (o == "shutdown") {
            tr->graceful_shutdown();
            mysh = true;
            std::cout << "shutdown\n";
        } else if (o == "hs") {
            const auto r = tr->handshake();
            std::cout << "hs " << (r ? "done" : name(r.error())) << "\n";
        } else if (o == "move") {
            auto n = std::make_unique<TcpTransport>(std::move(*tr));
            tr = std::move(n);
            std::cout << "move " << is_open(target) << "\n";
        } else if (o == "massign") {
            int p[2];
            if (pipe(p)) die("pipe");
            auto n = std::make_unique<TcpTransport>(SocketFd(p[0]));
            *n = std::move(*tr);
            tr = std::move(n);
            std::cout << "move " << (is_open(target) && !is_open(p[0])) << "\n";
            close(p[1]);
        } else if (o == "destroy") {
            int have = 0;
            ioctl(target, FIONREAD, &have);
            tr.reset();
            const bool open = is_open(target);
            gone = true;
            target = -1;
            std::cout << "destroy " << open << " " << (have > 0) << "\n";
        } else if (o == "obj") {
            const int f = open("/dev/zero", O_RDONLY);
            known.push_back(f);
            Obj x{w[1][0]};
            if (x.kind == 's') x.s = std::make_unique<SocketFd>(f);
            else if (x.kind == 't') x.t = std::make_unique<TcpTransport>(SocketFd(f));
            else x.x = std::make_unique<TlsTransport>(SocketFd(f), tls());
            objs[num(2)] = std::move(x);
            std::cout << "obj " << num(2) << " " << f << "\n";
            report();
        } else if (o == "mv") {
            auto& a = objs.at(num(1));
            Obj x{a.kind};
            if (a.s) x.s = std::make_unique<SocketFd>(std::move(*a.s));
            if (a.t) x.t = std::make_unique<TcpTransport>(std::move(*a.t));
            if (a.x) x.x = std::make_unique<TlsTransport>(std::move(*a.x));
            objs[num(2)] = std::move(x);
            std::cout << "mv " << num(1) << " " << num(2) << "\n";
            report();
        } else if (o == "as") {
            auto &a = objs.at(num(1)), &b = objs.at(num(2));
            if (a.s) *b.s = std::move(*a.s);
            if (a.t) *b.t = std::move(*a.t);
            if (a.x) *b.x = std::move(*a.x);
            std::cout << "as " << num(1) << " " << num(2) << "\n";
            report();
        } else if (o == "cl") {
            objs.at(num(1)).s->close();
            std::cout << "cl " << num(1) << "\n";
            report();
        } else if (o == "del") {
            objs.erase(num(1));
            std::cout << "del " << num(1) << "\n";
            report();
        } else if (o == "listen") {
            const int l = tcp_listen(lport);
            close(l);
            lis = std::make_unique<TcpListener>(lport);
            lis->listen();
            std::cout << "listen " << ((fcntl(lis->raw_fd(), F_GETFL) & O_NONBLOCK) != 0) << "\n";
        } else if (o == "conn") {
            const int c = tcp_connect(lport, w[2].c_str());
            clients[num(1)] = c;
            pollfd p{lis->raw_fd(), POLLIN, 0};
            poll(&p, 1, 2000);
            std::cout << "conn " << w[1] << " " << w[2] << "\n";
        } else if (o == "acc") {
            auto f = lis->try_accept();
            if (!f) {
                std::cout << "acc none\n";
            } else {
                // who is it?  What it is sent names it
                sockaddr_in a{};
                socklen_t n = sizeof a;
                getpeername(*f, reinterpret_cast<sockaddr*>(&a), &n);
                int who = -1;
                for (auto& [i, c] : clients) {
                    sockaddr_in b{};
                    socklen_t m = sizeof b;
                    if (c >= 0 && !getsockname(c, reinterpret_cast<sockaddr*>(&b), &m) && b.sin_port == a.sin_port && b.sin_addr.s_addr == a.sin_addr.s_addr) who = i;
                }
                const auto ip = ip_of(*f, "?");
                std::cout << "acc " << who << " " << ip << " " << ((fcntl(*f, F_GETFL) & O_NONBLOCK) != 0) << "\n";
                accepted.push_back(std::move(*f));
            }
        } else if (o == "v6") {
            const int l = socket(AF_INET6, SOCK_STREAM, 0);
            sockaddr_in6 a{};
            a.sin6_family = AF_INET6;
            a.sin6_addr = in6addr_loopback;
            socklen_t n = sizeof a;
            if (l >= 0 && !bind(l, reinterpret_cast<sockaddr*>(&a), n) && !listen(l, 4) && !getsockname(l, reinterpret_cast<sockaddr*>(&a), &n)) {
                const int c = socket(AF_INET6, SOCK_STREAM, 0);
                if (!connect(c, reinterpret_cast<sockaddr*>(&a), n)) {
                    SocketFd s{accept(l, nullptr, nullptr)};
                    std::cout << "ip ::1 " << ip_of(s, "?") << "\n";
                }
                close(c);
            }
            if (l >= 0) close(l);
            int p[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) die("socketpair");
            std::cout << "ip - " << ip_of(SocketFd(p[0]), "-") << "\n";
            close(p[1]);
            std::cout << "ip - " << ip_of(SocketFd(-1), "-") << "\n";
        } else {
            die("unknown command " + o);
        }
    }
    return 0;
}
