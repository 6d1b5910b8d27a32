#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <span>
#include <sstream>
#include <string>
#include <vector>

// "-" stands for the empty string
inline std::string unhex(const std::string& s) {
    std::string r;
    if (s == "-") {
        return r;
    }
    for (size_t i = 0; i + 1 < s.size(); i += 2) {
        auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
        r.push_back(static_cast<char>(v(s[i]) * 16 + v(s[i + 1])));
    }
    return r;
}
template <class C> std::string hex(const C& c) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (auto x : c) {
        r.push_back(d[static_cast<uint8_t>(x) >> 4]);
        r.push_back(d[static_cast<uint8_t>(x) & 15]);
    }
    return r.empty() ? "-" : r;
}
inline std::string word(std::istream& in) {
    std::string w;
    in >> w;
    return w;
}
// an allocation of exactly the given size, so that AddressSanitizer sees every overrun
class ExactBytes {
   public:
    explicit ExactBytes(const std::string& s) : n_(s.size()), p_(new uint8_t[s.size()]) {
        if (n_) {
            std::memcpy(p_.get(), s.data(), n_);
        }
    }
    std::span<const uint8_t> span() const { return {p_.get(), n_}; }
    size_t size() const { return n_; }

   private:
    size_t n_;
    std::unique_ptr<uint8_t[]> p_;
};
