// Drives Router, middleware, static files, statistics and the status page.
//
//   route <m> <p> <id> <status> <len> <seed> <throw>      (hex words for m, p)
//   static <prefix> <root>      mw <id> <kind> [<n>]      page (StatusPage::add_status_page)
//   get <slot> <m> <p>          look a handler up
//   call <slot> <m> <p> [<name> <value>]...               call it
//   drop <slot>                 stats
//   fs mkdir|file|link|rm|mv <path> [<content>|<target>|<to>]     edit the served tree
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

#include "router.h"
#include "server_stats.h"
#include "status_page.h"
#include "hexutil.h"

namespace {
bool quiet = false;
void out(const std::string& s) {
    if (!quiet) std::cout << s << '\n';
}

std::vector<uint8_t> body_of(size_t len, uint32_t seed) {
    std::vector<uint8_t> b(len);
    uint32_t x = seed * 2654435761u + 12345u;
    for (auto& c : b) {
        x = x * 1664525u + 1013904223u;
        c = static_cast<uint8_t>(x >> 24);
    }
    return b;
}
std::string show(const ion::HttpRequest& rq) {
    std::string s = hex(rq.method) + " " + hex(rq.path);
    for (const auto& h : rq.headers) {
        s += " " + hex(h.name) + " " + hex(h.value);
    }
    return s;
}
std::string show(const ion::HttpResponse& r) {
    std::string s = std::to_string(r.status_code) + " " +
                    hex(std::string_view(reinterpret_cast<const char*>(r.body.data()), r.body.size()));
    for (const auto& h : r.headers) {
        s += " " + hex(h.name) + " " + hex(h.value);
    }
    return s;
}
struct Odd {};

ion::Middleware middleware(int id, const std::string& kind, int n) {
    return [id, kind, n](ion::RouteHandler next) -> ion::RouteHandler {
        return [id, kind, n, next](const ion::HttpRequest& rq) -> ion::HttpResponse {
            out("enter " + std::to_string(id) + " " + show(rq));
            if (kind == "short") {
                out("answer " + std::to_string(id));
                return ion::HttpResponse{.status_code = static_cast<uint16_t>(n)};
            }
            if (kind == "throwb") {
                if (n == 1) throw Odd{};
                throw std::runtime_error("before");
            }
            if (kind == "catch") {
                try {
                    auto r = next(rq);
                    out("leave " + std::to_string(id) + " " + show(r));
                    return r;
                } catch (...) {
                    out("caught " + std::to_string(id));
                    return ion::HttpResponse{.status_code = static_cast<uint16_t>(n)};
                }
            }
            auto r = next(rq);
            out("leave " + std::to_string(id) + " " + show(r));
            if (kind == "throwa") throw std::runtime_error("after");
            if (kind == "tag") r.headers.push_back({"x-mw", std::to_string(id)});
            if (kind == "status") r.status_code = static_cast<uint16_t>(n);
            return r;
        };
    };
}
}  // namespace

int main() {
    spdlog::set_level(spdlog::level::off);
    std::ios::sync_with_stdio(false);
    std::string line;
    std::unique_ptr<ion::Router> router;
    std::map<int, ion::RouteHandler> slots;
    auto& st = ServerStats::instance();
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "trace") {
            slots.clear();
            router = std::make_unique<ion::Router>();
            st.total_requests = 0;
            st.status_codes.clear();
            st.total_duration_us = 0;
            out(line);
            std::cout.flush();
        } else if (op == "route") {
            const std::string m = unhex(word(in)), p = unhex(word(in));
            const int id = std::stoi(word(in)), status = std::stoi(word(in));
            const size_t len = std::stoul(word(in));
            const auto seed = static_cast<uint32_t>(std::stoul(word(in)));
            const int thr = std::stoi(word(in));
            router->add_route(p, m, [=](const ion::HttpRequest& rq) -> ion::HttpResponse {
                out("handler " + std::to_string(id) + " " + show(rq));
                if (thr == 1) throw std::runtime_error("planned");
                if (thr == 2) throw 42;
                if (thr == 3) throw Odd{};
                return {static_cast<uint16_t>(status), body_of(len, seed), {{"x-route", std::to_string(id)}}};
            });
        } else if (op == "static") {
            const std::string p = unhex(word(in)), r = unhex(word(in));
            router->add_static_handler(std::make_unique<ion::StaticFileHandler>(p, r));
        } else if (op == "mw") {
            const int id = std::stoi(word(in));
            const std::string k = word(in), n = word(in);
            router->add_middleware(middleware(id, k, n.empty() ? 0 : std::stoi(n)));
        } else if (op == "page") {
            StatusPage::add_status_page(*router);
        } else if (op == "get") {
            const int s = std::stoi(word(in));
            // the strings the lookup was made with do not outlive it
            auto m = std::make_unique<std::string>(unhex(word(in)));
            auto p = std::make_unique<std::string>(unhex(word(in)));
            slots[s] = router->get_handler(*p, *m);
            m->assign(m->size(), '~');
            p->assign(p->size(), '~');
        } else if (op == "call") {
            const int s = std::stoi(word(in));
            ion::HttpRequest rq{unhex(word(in)), unhex(word(in)), {}};
            for (std::string n = word(in); !n.empty(); n = word(in)) {
                const std::string nm = unhex(n);
                rq.headers.push_back({nm, unhex(word(in))});
            }
            out("begin " + std::to_string(s));
            try {
                out("res " + show(slots.at(s)(rq)));
            } catch (...) {
                out("thrown");
            }
        } else if (op == "many") {
            // the same call many times over; only the outcomes are told
            const int s = std::stoi(word(in));
            const int n = std::stoi(word(in));
            const ion::HttpRequest rq{unhex(word(in)), unhex(word(in)), {}};
            std::set<int> outs;
            quiet = true;
            for (int k = 0; k < n; ++k) {
                try {
                    outs.insert(slots.at(s)(rq).status_code);
                } catch (...) {
                    outs.insert(0);
                }
            }
            quiet = false;
            std::string r = "many";
            for (int o : outs) r += " " + std::to_string(o);
            out(r);
        } else if (op == "fs") {
            // edits of the served tree: all paths come from the script and are in its scratch directory
            namespace fs = std::filesystem;
            const std::string what = word(in), a = unhex(word(in)), b = unhex(word(in));
            if (a.find("/tree-") == std::string::npos) return 3;
            if (what != "mkdir" || fs::symlink_status(a).type() != fs::file_type::directory) {
                if (what != "mv") fs::remove_all(a);
            }
            if (what == "file") {
                std::ofstream(a, std::ios::binary) << b;
            } else if (what == "mkdir") {
                fs::create_directory(a);
            } else if (what == "link") {
                fs::create_symlink(b, a);
            } else if (what == "mv") {
                fs::remove_all(b);
                fs::rename(a, b);
            }
        } else if (op == "drop") {
            slots.erase(std::stoi(word(in)));
        } else if (op == "stats") {
            std::string s = "stats " + std::to_string(st.total_requests);
            for (const auto& [c, n] : st.status_codes) {
                s += " " + std::to_string(c) + " " + std::to_string(n);
            }
            out(s);
        } else if (op == "end") {
            slots.clear();
            router.reset();
            out("end");
            std::cout.flush();
        }
    }
    return 0;
}
