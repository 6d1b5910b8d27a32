// Drives the header compression code through its public interface.  One command per line in, one
// answer per line out; "trace <id>" starts a fresh history.
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>

#include "hpack/byte_reader.h"
#include "hpack/dynamic_table.h"
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
#include "hpack/int_decoder.h"
#include "hpack/int_encoder.h"

#include "hexutil.h"

int main() {
    spdlog::set_level(spdlog::level::off);
    std::ios::sync_with_stdio(false);
    std::unique_ptr<ion::DynamicTable> dt, et, tab;
    std::unique_ptr<ion::HeaderBlockDecoder> dec;
    std::unique_ptr<ion::HeaderBlockEncoder> enc;
    std::string line;
    std::ostringstream out;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "trace") {
            dec.reset();
            enc.reset();
            dt = std::make_unique<ion::DynamicTable>();
            et = std::make_unique<ion::DynamicTable>(4096);
            dec = std::make_unique<ion::HeaderBlockDecoder>(*dt);
            enc = std::make_unique<ion::HeaderBlockEncoder>(*et);
            tab.reset();
            std::cout << line << std::endl;
        } else if (op == "dec") {
            const ExactBytes b(unhex(word(in)));
            auto r = dec->decode(b.span());
            if (!r) {
                std::cout << "err" << std::endl;
            } else {
                std::cout << "ok " << r->size();
                for (auto& h : *r) {
                    std::cout << ' ' << hex(h.name) << ' ' << hex(h.value);
                }
                std::cout << std::endl;
            }
        } else if (op == "int") {
            const int prefix = std::stoi(word(in));
            const ExactBytes b(unhex(word(in)));
            ByteReader reader{b.span()};
            auto r = ion::IntegerDecoder::decode(reader, static_cast<uint8_t>(prefix));
            if (!r) {
                std::cout << "err" << std::endl;
            } else {
                size_t rest = 0;
                while (reader.read_byte()) {
                    rest++;
                }
                std::cout << "ok " << *r << ' ' << b.size() - rest << std::endl;
            }
        } else if (op == "intenc") {
            const int prefix = std::stoi(word(in));
            const uint32_t v = static_cast<uint32_t>(std::stoull(word(in)));
            std::cout << "ok " << hex(ion::IntegerEncoder::encode(v, static_cast<uint8_t>(prefix))) << std::endl;
        } else if (op == "str" || op == "enc") {
            std::vector<ion::HttpHeader> hs;
            for (std::string n = word(in); !n.empty(); n = word(in)) {
                const std::string nm = unhex(n);
                hs.push_back({nm, unhex(word(in))});
            }
            if (op == "str") {
                ion::DynamicTable fresh(4096);
                ion::HeaderBlockEncoder e(fresh);
                std::cout << "ok " << hex(e.encode(hs)) << std::endl;
            } else {
                std::cout << "ok " << hex(enc->encode(hs)) << std::endl;
            }
        } else if (op == "new" || op == "ins" || op == "max") {
            if (op == "new") {
                tab = std::make_unique<ion::DynamicTable>(std::stoul(word(in)));
            } else if (op == "ins") {
                const std::string n = unhex(word(in));
                tab->insert({n, unhex(word(in))});
            } else {
                tab->set_max_table_size(std::stoul(word(in)));
            }
            const std::string qn = unhex(word(in)), qv = unhex(word(in));
            const auto f = tab->find({qn, qv});
            const auto fn = tab->find_name(qn);
            std::cout << "ok " << tab->count() << ' ' << tab->size() << ' ' << (f ? static_cast<long>(*f) : -1) << ' '
                      << (fn ? static_cast<long>(*fn) : -1);
            for (size_t i = 0; i < tab->count() && i < 4096; i++) {
                const auto h = tab->get(i);
                std::cout << ' ' << hex(h.name) << ' ' << hex(h.value);
            }
            std::cout << std::endl;
        } else if (op == "end") {
            std::cout << "end" << std::endl;
        }
    }
    return 0;
}
