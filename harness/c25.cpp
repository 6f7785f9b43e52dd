// C25: records what every operation of the catalogue returns, one hash per case; tools/p_matrix.py compares the records of all builds
#ifdef C25_SECOND_UNIT      // linked with the recording unit: the headers may be included in several translation units
#ifndef C25_MODULE
#include <ipaddress/ipaddress.hpp>
#endif
namespace ipx = IPADDRESS_NAMESPACE;
std::string second_unit(const std::string& t) {
    ipx::error_code c = ipx::error_code::no_error;
    auto a = ipx::ip_address::parse(t, c);
    auto n = ipx::ip_network::parse(t, c, false);
    const size_t& p = ipx::ipv4_address::base_max_prefixlen; const size_t& q = ipx::ipv6_address::base_size;     // odr-use
    return a.to_string() + n.to_string() + std::to_string(p + q) + (std::numeric_limits<ipx::uint128_t>::max)().to_string();
}
#else
#include "ops.hpp"
std::string second_unit(const std::string& t);
static std::vector<uint64_t> rec;
void workload() {
    ops::profile() = ops::Profile(C25_PROFILE);
    h::phase("units", 1, [](uint64_t, Rng&) {
        ip::error_code c = ip::error_code::no_error;
        std::string t = "192.0.2.1";
        const size_t& p = ip::ipv4_address::base_max_prefixlen; const size_t& q = ip::ipv6_address::base_size;
        std::string w = ip::ip_address::parse(t, c).to_string() + ip::ip_network::parse(t, c, false).to_string() + std::to_string(p + q) + (std::numeric_limits<ip::uint128_t>::max)().to_string();
        CHECK(second_unit(t) == w, "units", "another translation unit disagrees: ", second_unit(t), " and ", w);
    });
    h::phase("ops", h::scaled(40000), [](uint64_t i, Rng& r) {
        h::note(ops::kind_name(ops::kind_of(i)));
        std::string s = ops::run(i, r);
        uint64_t x = h::hs(s);
        rec.push_back(x);
        h::hit(ops::kind_name(ops::kind_of(i)));
        h::nt(x ^ h::mix(i % ops::KINDS));
        h::sample(s);
        if (h::st().has_only) printf("RESULT %s\n", s.c_str());
    }, false);
    if (!h::st().out.empty()) {
        FILE* f = fopen((h::st().out + ".d").c_str(), "wb");
        if (f) { fwrite(rec.data(), 8, rec.size(), f); fclose(f); }
    }
}
#endif
