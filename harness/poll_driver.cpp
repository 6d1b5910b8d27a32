// Runs one of the pollers on real descriptors.  Script (between "trace <id>" and "end"):
//   poller epoll|poll|default
//   open <id> sp|tcp|pr|pw|lis|ev     a descriptor with its other side
//   in|drain|fill|take|pshut|pclose|prst <id>    input arrives / is read / output is filled / taken by the other side / ...
//   set <id> <mask> | rm <id> | close <id>       (rmslot <n>: the n-th number)
//   poll <ms> [sig <ms> | later <ms> <op> <id>]  a signal, or an operation, arrives during the wait
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>

#include <atomic>
#include <iostream>
#include <map>
#include <thread>

#include "hexutil.h"
#include "pollers/epoll_poller.h"
#include "pollers/poll_poller.h"
#include "pollers/poller.h"

using namespace ion;
namespace {
struct Item {
    std::string kind;
    int fd = -1, peer = -1;
    uint16_t port = 0;
    std::vector<int> extra;
};
std::map<int, Item> items;
int high(int fd) {
    const int r = fcntl(fd, F_DUPFD_CLOEXEC, 2000);
    close(fd);
    return r;
}
void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
[[noreturn]] void die(const std::string& w) {
    std::cerr << "driver: " << w << ": " << strerror(errno) << std::endl;
    std::exit(3);
}
int tcp_listen(uint16_t& port) {
    const int l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    if (l < 0 || bind(l, reinterpret_cast<sockaddr*>(&a), n) || listen(l, 16) || getsockname(l, reinterpret_cast<sockaddr*>(&a), &n)) die("listen");
    port = ntohs(a.sin_port);
    return l;
}
int tcp_connect(uint16_t port) {
    const int c = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(port);
    if (c < 0 || connect(c, reinterpret_cast<sockaddr*>(&a), sizeof a)) die("connect");
    return c;
}
void open_item(int id, const std::string& kind) {
    Item it;
    it.kind = kind;
    int p[2];
    if (kind == "sp") {
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) die("socketpair");
        it.peer = high(p[1]);
        it.fd = p[0];
    } else if (kind == "tcp") {
        uint16_t port = 0;
        const int l = high(tcp_listen(port));
        it.peer = high(tcp_connect(port));
        it.fd = accept(l, nullptr, nullptr);
        close(l);
    } else if (kind == "pr" || kind == "pw") {
        if (pipe(p)) die("pipe");
        if (kind == "pr") {
            it.peer = high(p[1]);
            it.fd = p[0];
        } else {
            const int r = high(p[0]);
            it.fd = fcntl(p[1], F_DUPFD_CLOEXEC, 3);   // the lowest number
            close(p[1]);
            it.peer = r;
        }
    } else if (kind == "lis") {
        it.fd = tcp_listen(it.port);
    } else if (kind == "ev") {
        it.fd = eventfd(0, EFD_NONBLOCK);
    } else {
        die("kind " + kind);
    }
    if (it.fd < 0) die("open");
    nb(it.fd);
    if (it.peer >= 0) nb(it.peer);
    items[id] = it;
    std::cout << "open " << it.fd << "\n";
}
void fill(int fd) {
    char buf[65536] = {};
    for (size_t n = sizeof buf; n; n = n > 1 ? n / 2 : 0) {
        while (send(fd, buf, n, MSG_NOSIGNAL) > 0 || (errno == ENOTSOCK && write(fd, buf, n) > 0)) {
        }
    }
}
void drain(int fd) {
    char buf[65536];
    while (read(fd, buf, sizeof buf) > 0) {
    }
}
void act(const std::string& op, int id) {
    Item& it = items.at(id);
    if (op == "in") {
        if (it.kind == "lis") {
            it.extra.push_back(high(tcp_connect(it.port)));
        } else if (it.kind == "ev") {
            const uint64_t v = 1;
            (void)!write(it.fd, &v, 8);
        } else if (it.peer >= 0 && it.kind != "pw") {
            if (it.kind == "pr") (void)!write(it.peer, "x", 1);
            else send(it.peer, "x", 1, MSG_NOSIGNAL);
        }
    } else if (op == "drain" && it.fd >= 0) {
        if (it.kind == "lis") {
            for (int c; (c = accept4(it.fd, nullptr, nullptr, SOCK_NONBLOCK)) >= 0;) close(c);
        } else if (it.kind != "pw") {
            drain(it.fd);
        }
    } else if (op == "fill" && it.fd >= 0) {
        if (it.kind == "ev") {
            const uint64_t v = 0xfffffffffffffffeULL;
            (void)!write(it.fd, &v, 8);
        } else if (it.kind != "lis" && it.kind != "pr") {
            fill(it.fd);
        }
    } else if (op == "take" && it.peer >= 0 && it.kind != "pr") {
        drain(it.peer);
    } else if (op == "pshut" && it.peer >= 0 && it.kind != "pr" && it.kind != "pw") {
        shutdown(it.peer, SHUT_WR);
    } else if ((op == "pclose" || op == "prst") && it.peer >= 0) {
        if (op == "prst" && it.kind == "tcp") {
            linger li{1, 0};
            setsockopt(it.peer, SOL_SOCKET, SO_LINGER, &li, sizeof li);
        }
        close(it.peer);
        it.peer = -1;
    }
}
std::string truth() {
    std::vector<pollfd> p;
    for (auto& [id, it] : items) {
        if (it.fd >= 0) p.push_back({it.fd, POLLIN | POLLOUT, 0});
    }
    while (::poll(p.data(), p.size(), 0) < 0) {
        if (errno != EINTR) die("poll");
    }
    std::string r;
    for (auto& x : p) {
        int m = 0;
        if (x.revents & POLLIN) m |= 1;
        if (x.revents & POLLOUT) m |= 2;
        if (x.revents & POLLHUP) m |= 4;
        if (x.revents & POLLERR) m |= 8;
        if (m) r += (r.empty() ? "" : ",") + std::to_string(x.fd) + ":" + std::to_string(m);
    }
    return r.empty() ? "-" : r;
}
// loopback TCP delivers from a softirq: wait until the kernel's answers no longer change
std::string settled() {
    std::string a = truth();
    for (int i = 0, same = 0; i < 200 && same < 3; i++) {
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        const std::string b = truth();
        same = a == b ? same + 1 : 0;
        a = b;
    }
    return a;
}
long now_ms() {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
}  // namespace

int main() {
    spdlog::set_level(spdlog::level::off);
    rlimit rl{};
    getrlimit(RLIMIT_NOFILE, &rl);
    rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 8192);
    setrlimit(RLIMIT_NOFILE, &rl);
    struct sigaction sa{};
    sa.sa_handler = [](int) {};
    sigaction(SIGUSR1, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    const pthread_t self = pthread_self();
    std::unique_ptr<Poller> poller;
    std::string line;
    bool tcp = false;
    int base = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::vector<std::string> w;
        for (std::string x; is >> x;) w.push_back(x);
        if (w.empty()) continue;
        const std::string& op = w[0];
        if (op == "trace") {
            std::cout << line << std::endl;
            tcp = false;
        } else if (op == "end") {
            poller.reset();
            for (auto& [id, it] : items) {
                if (it.fd >= 0) close(it.fd);
                if (it.peer >= 0) close(it.peer);
                for (int x : it.extra) close(x);
            }
            items.clear();
            std::cout << "end" << std::endl;
        } else if (op == "poller") {
            if (w[1] == "epoll") poller = std::make_unique<EPollPoller>();
            else if (w[1] == "poll") poller = std::make_unique<PollPoller>();
            else poller = Poller::create();
        } else if (op == "open") {
            open_item(std::stoi(w[1]), w[2]);
            if (items.size() == 1) base = items.begin()->second.fd;
            tcp = tcp || w[2] == "tcp" || w[2] == "lis";
        } else if (op == "set") {
            const int fd = items.at(std::stoi(w[1])).fd;
            poller->set(fd, static_cast<PollEventType>(std::stoi(w[2])));
            std::cout << "set " << fd << " " << w[2] << "\n";
        } else if (op == "rmslot" || op == "rm") {
            const int fd = op == "rmslot" ? base + std::stoi(w[1]) : items.at(std::stoi(w[1])).fd;
            poller->remove(fd);
            std::cout << "rm " << fd << "\n";
        } else if (op == "close" || op == "closerm") {
            Item& it = items.at(std::stoi(w[1]));
            const int fd = it.fd;
            std::cout << "close " << fd << "\n";
            close(fd);
            it.fd = -1;
            if (op == "closerm") {
                poller->remove(fd);
                std::cout << "rm " << fd << "\n";
            }
        } else if (op == "poll") {
            const int ms = std::stoi(w[1]);
            const std::string before = tcp ? settled() : truth();
            std::thread other;
            std::atomic<bool> back = false;
            if (w.size() > 2 && w[2] == "sig") {
                other = std::thread([&] {
                    while (!back) {
                        std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(w[3])));
                        if (!back) pthread_kill(self, SIGUSR1);
                    }
                });
            } else if (w.size() > 2 && w[2] == "later") {
                other = std::thread([&] {
                    std::this_thread::sleep_for(std::chrono::milliseconds(std::stoi(w[3])));
                    act(w[4], std::stoi(w[5]));
                });
            }
            const long t0 = now_ms();
            const auto r = poller->poll(std::chrono::milliseconds(ms));
            back = true;
            const long el = now_ms() - t0;
            if (other.joinable()) other.join();
            const std::string after = tcp ? settled() : truth();
            std::cout << "poll " << (r ? "ok" : r.error() == PollError::Timeout ? "timeout" : r.error() == PollError::InterruptedBySignal ? "intr" : "error")
                      << " " << ms << " " << el << " " << before << " " << after << " ";
            std::string e;
            if (r) {
                for (auto& x : *r) e += (e.empty() ? "" : ",") + std::to_string(x.fd) + ":" + std::to_string(static_cast<int>(x.events));
            }
            std::cout << (e.empty() ? "-" : e) << (w.size() > 2 && w[2] == "sig" ? " sig" : "") << "\n";
        } else {
            act(op, std::stoi(w[1]));
        }
    }
}
