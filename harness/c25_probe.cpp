// C25: everything a user may instantiate exists in every build; prints one line of results to be compared
#include <ipaddress/ipaddress.hpp>
#include <iostream>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
namespace ip = IPADDRESS_NAMESPACE;
template class ip::byte_array<0>; template class ip::byte_array<1>; template class ip::byte_array<4>; template class ip::byte_array<16>; template class ip::byte_array<33>;
template class ip::fixed_string<0>; template class ip::fixed_string<1>; template class ip::fixed_string<16>; template class ip::fixed_string<64>;
template class ip::ip_address_base<ip::ipv4_address_base>; template class ip::ip_address_base<ip::ipv6_address_base>;
template class ip::optional<size_t>; template class ip::optional<ip::ipv6_address>;
template class ip::ip_address_iterator<ip::ipv4_address>; template class ip::ip_address_iterator<ip::ipv6_address>;
template class ip::ip_network_iterator<ip::ipv4_network>; template class ip::ip_network_iterator<ip::ipv6_network>;
template <class T> static std::string six(const T& a, const T& b) { std::string s; s += a == b ? 'T' : 'F'; s += a != b ? 'T' : 'F'; s += a < b ? 'T' : 'F'; s += a <= b ? 'T' : 'F'; s += a > b ? 'T' : 'F'; s += a >= b ? 'T' : 'F'; return s + ' '; }
int main() {
    std::string o;
    o += six(ip::byte_array<0>{}, ip::byte_array<0>{}) + six(ip::byte_array<1>{{1}}, ip::byte_array<1>{{2}}) + six(ip::byte_array<4>{{1, 2, 3, 4}}, ip::byte_array<4>{{1, 2, 2, 9}});
    const char e[1] = {0}; const char t1[4] = {'a', 'b', 'c', 0}, t2[4] = {'a', 'b', 'd', 0};
    o += six(ip::fixed_string<0>(e), ip::fixed_string<0>(e)) + six(ip::fixed_string<3>(t1), ip::fixed_string<3>(t2));
    ip::error_code c = ip::error_code::no_error;
    auto a4 = ip::ipv4_address::parse("10.0.0.1", c), b4 = ip::ipv4_address::parse("10.0.0.2", c);
    auto a6 = ip::ipv6_address::parse("fe80::1", c), b6 = ip::ipv6_address::parse("fe80::2", c);
    auto n4 = ip::ipv4_network::parse("10.0.0.0/29", c), m4 = ip::ipv4_network::parse("10.0.0.0/30", c);
    auto n6 = ip::ipv6_network::parse("fe80::/120", c), m6 = ip::ipv6_network::parse("fe80::/122", c);
    ip::ip_address a = a4, b = b6; ip::ip_network n = n4, m = n6;
    o += six(a4, b4) + six(a6, b6) + six(a, b) + six(n4, m4) + six(n6, m6) + six(n, m);
    // mixed comparisons of concrete and version-independent objects
    o += a == a4 ? "T" : "F"; o += a < b6 ? "T" : "F"; o += n == n4 ? "T" : "F"; o += n < m6 ? "T " : "F ";
    o += six(n4.hosts().begin(), n4.hosts().end()) + six(n6.hosts().begin(), n6.hosts().end()) + six(n4.subnets(1).begin(), n4.subnets(1).end()) + six(n6.subnets(2).begin(), n6.subnets(2).end());
    o += six(n4.hosts().rbegin(), n4.hosts().rend()) + six(n6.subnets(2).rbegin(), n6.subnets(2).rend());
    o += six(ip::uint128_t(5), ip::uint128_t(7));
    o += std::to_string(std::distance(n4.hosts().begin(), n4.hosts().end())) + " ";
    std::string walk; for (auto x : n.hosts()) walk += x.to_string() + ","; for (auto x : n4.address_exclude(m4)) walk += x.to_string() + ","; for (auto x : m.subnets(2)) walk += x.to_string() + ",";
    o += walk;
    std::set<ip::ip_address> sa{a, b, a}; std::map<ip::ip_network, int> mn{{n, 1}, {m, 2}};
    o += std::to_string(sa.size() + mn.size()) + " ";
#ifndef IPADDRESS_NO_OVERLOAD_STD
    std::unordered_set<ip::ip_address> ua{a, b, a}; std::unordered_map<ip::ip_network, int> un{{n, 1}, {m, 2}}; std::unordered_set<ip::uint128_t> uu{ip::uint128_t(1), ip::uint128_t(1)};
    std::unordered_set<ip::ipv4_address> u4{a4, b4}; std::unordered_set<ip::ipv6_address> u6{a6, b6}; std::unordered_set<ip::ipv4_network> v4{n4}; std::unordered_set<ip::ipv6_network> v6{n6};
    o += std::to_string(ua.size() + un.size() * 10 + uu.size() * 100 + u4.size() + u6.size() + v4.size() + v6.size()) + " ";
    const int& od = std::numeric_limits<ip::uint128_t>::digits; o += (std::numeric_limits<ip::uint128_t>::max)().to_string() + std::to_string(od);
    using std::swap; swap(a4, b4); swap(a6, b6); swap(n4, m4); swap(n6, m6); swap(a, b); swap(n, m); o += std::to_string(a4) + std::to_string(n6) + std::to_string(a) + std::to_string(n) + " ";
    swap(a4, b4); swap(a6, b6); swap(n4, m4); swap(n6, m6); swap(a, b); swap(n, m);
#else
    o += "128 34028236692093846346337460743176821145512810.0.0.2fe80::/122fe80::2fe80::/120 ";
#endif
    const size_t& l1 = ip::fixed_string<7>::max_length; const size_t& l2 = ip::fixed_string<0>::max_length; const size_t& l3 = ip::fixed_string<0>::length; o += std::to_string(l1 + l2 + l3);
#ifndef IPADDRESS_NO_EXCEPTIONS
    try { ip::ipv4_address::parse("1.2.3.256"); } catch (const ip::parse_error& x) { o += " " + std::to_string(int(x.code())); }
    try { ip::ipv4_network::parse("10.0.0.0/8").supernet(9); } catch (const ip::logic_error& x) { o += " " + std::to_string(int(x.code())); }
#else
    o += " 13 26";
#endif
    std::cout << o << std::endl;
}
