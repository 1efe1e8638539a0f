// RUN: -O1 -fsanitize=address,undefined | src/net/ip_address.cpp | 90
#include "rp.hpp"
#include <cstring>
#include <coro/net/socket_address.hpp>
#include <memory>
#include <string>
using namespace rp; using namespace coro::net;
static std::string ref(domain_t d, const uint8_t* b) { char t[64]; inet_ntop((int)d, b, t, sizeof t); return t; }
template<class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static void one(domain_t d, const uint8_t* b, std::uint16_t port)
{
    std::size_t n = d == domain_t::ipv4 ? 4 : 16; ip_address a{std::span<const uint8_t>{b, n}, d}; auto t = ref(d, b);
    CHECK(a.domain() == d && a.data().size() == n && !std::memcmp(a.data().data(), b, n), "ip_address of %s holds other bytes", t.c_str());
    CHECK(a.to_string() == t, "to_string of %s is '%s'", t.c_str(), a.to_string().c_str());
    auto p = ip_address::from_string(t, d); CHECK(p == a, "from_string(%s) is %s", t.c_str(), p.to_string().c_str());
    // a view that is not terminated, in memory of exactly its size
    std::unique_ptr<char[]> raw(new char[t.size()]); std::memcpy(raw.get(), t.data(), t.size());
    ip_address v; CHECK(!throws([&] { v = ip_address::from_string(std::string_view{raw.get(), t.size()}, d); }) && v == a, "from_string of the unterminated text %s", t.c_str());
    std::string longer = t + "1"; CHECK(!throws([&] { v = ip_address::from_string(std::string_view{longer.data(), t.size()}, d); }) && v == a, "from_string of the first %zu characters of '%s' is not %s", t.size(), longer.c_str(), t.c_str());
    std::string nul = t + std::string(1, '\0') + "x"; CHECK(throws([&] { ip_address::from_string(nul, d); }), "from_string accepts '%s' followed by NUL and more text", t.c_str());
    socket_address s{a, port}, s2{std::string_view{longer.data(), t.size()}, port, d};
    CHECK(s.ip() == a && s.port() == port && s.domain() == d && s == s2, "socket_address(%s, %u) is %s", t.c_str(), port, s.to_string().c_str());
    CHECK(s.to_string() == t + ":" + std::to_string(port), "socket_address text '%s'", s.to_string().c_str());
    auto [sa, l] = s.data();
    if (d == domain_t::ipv4) { sockaddr_in x; CHECK(l == sizeof x, "length %u", (unsigned)l); std::memcpy(&x, sa, sizeof x); CHECK(x.sin_family == AF_INET && x.sin_port == htons(port) && !std::memcmp(&x.sin_addr, b, 4), "sockaddr_in of %s port %u", t.c_str(), port); }
    else { sockaddr_in6 x; CHECK(l == sizeof x, "length %u", (unsigned)l); std::memcpy(&x, sa, sizeof x); CHECK(x.sin6_family == AF_INET6 && x.sin6_port == htons(port) && !std::memcmp(&x.sin6_addr, b, 16) && x.sin6_flowinfo == 0 && x.sin6_scope_id == 0, "sockaddr_in6 of %s port %u", t.c_str(), port); }
    auto u = socket_address::make_uninitialised(); auto [m, ml] = u.native_mutable_data(); CHECK(*ml == sizeof(sockaddr_storage), "room %u", (unsigned)*ml);
    std::memset(m, 0x5a, 60); std::memcpy(m, sa, l); *ml = l; if (d == domain_t::ipv4) reinterpret_cast<sockaddr_in*>(m)->sin_zero[port % 8] = 1; else { reinterpret_cast<sockaddr_in6*>(m)->sin6_flowinfo = port; } CHECK(u == s && u.ip() == a && u.port() == port && u.domain() == d, "an address filled in by the system differs: %s / %s", u.to_string().c_str(), s.to_string().c_str());
    for (std::size_t k = 0; k < n; ++k) { uint8_t c[16]; std::memcpy(c, b, n); c[k] ^= 1 << (rnd() % 8); ip_address o{std::span<const uint8_t>{c, n}, d}; CHECK(o != a && (a < o) == (std::memcmp(b, c, n) < 0), "comparison of %s with %s", t.c_str(), ref(d, c).c_str()); CHECK(!(socket_address(o, port) == s), "%s equals %s", ref(d, c).c_str(), t.c_str()); }
    CHECK(!(socket_address(a, port ^ (1u << (rnd() % 16))) == s), "endpoints with different ports are equal");
}
int main()
{
    watchdog(30); scenario("texts and bytes");
    for (int r = 0; r < 4000; ++r)
    {
        uint8_t b[16]; for (auto& x : b) { int m = rnd() % 4; x = m == 0 ? 0 : m == 1 ? 255 : rnd(); }
        if (r < 40) std::memset(b, r % 2 ? 255 : 0, 16); if (r % 7 == 0) { std::memset(b, 0, 10); b[10] = b[11] = 255; } if (r >= 20 && r < 40) for (int k = 0; k < 16; ++k) b[k] = 0x10 + k * 13 | 0x80;
        std::uint16_t port = r < 20 ? (std::uint16_t[]){0, 1, 255, 256, 80, 443, 8080, 65535, 65280, 9, 10, 99, 100, 999, 1000, 9999, 10000, 0x1234, 0x3412, 127}[r] : rnd();
        one(domain_t::ipv4, b, port); one(domain_t::ipv6, b, port);
    }
    scenario("short and long spans");
    for (int d = 0; d < 2; ++d) for (std::size_t n = 0; n < 24; ++n)
    {
        uint8_t b[24]; for (int k = 0; k < 24; ++k) b[k] = k + 1; auto dom = d ? domain_t::ipv6 : domain_t::ipv4; std::size_t m = d ? 16 : 4; ip_address a;
        bool t = throws([&] { a = ip_address{std::span<const uint8_t>{b, n}, dom}; }); CHECK(t == (n > m), "%zu bytes for domain %d: accepted %d", n, d, !t);
        if (!t) for (std::size_t k = 0; k < m; ++k) CHECK(a.data()[k] == (k < n ? b[k] : 0), "byte %zu of %zu is %d", k, n, a.data()[k]);
    }
    scenario("other texts");
    for (const char* t : {"", " ", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ", "::", "1::2::3", "g::1", "1.2.3.-4", "01.2.3.4", "::ffff:1.2.3.4", "fe80::1%1"})
        for (auto d : {domain_t::ipv4, domain_t::ipv6}) { uint8_t b[16]; bool good = inet_pton((int)d, t, b) == 1; CHECK(throws([&] { ip_address::from_string(t, d); }) == !good, "from_string(\"%s\")", t); }
    auto u = socket_address::make_uninitialised(); CHECK(throws([&] { u.domain(); }) && throws([&] { u.ip(); }) && throws([&] { u.port(); }), "an address of no family is accepted");
    std::printf("no failing input found\n"); std::fflush(stdout); _exit(0);
}
