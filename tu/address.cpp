#include "src/net/ip_address.cpp"
#include "coro/net/socket_address.hpp"
#include "vc.hpp"
using coro::net::ip_address; using coro::net::domain_t; using coro::net::socket_address;
VC_OFF(ip_domain, ip_address, m_domain)
VC_OFF(ip_data, ip_address, m_data)
VC_SIZE(ip, ip_address)
VC_SIZE(sa, socket_address)
VC_OFF(sa_storage, socket_address, m_storage)
VC_OFF(sa_len, socket_address, m_len)
VC_OFF(sin_addr, sockaddr_in, sin_addr)
VC_OFF(sin6_addr, sockaddr_in6, sin6_addr)
VC_SIZE(sin, sockaddr_in)
VC_SIZE(sin6, sockaddr_in6)
VC_SIZE(storage, sockaddr_storage)
extern "C" void vc_ip_default(void* p) { ::new (p) ip_address(); }
extern "C" void vc_ip_ctor(void* p, const uint8_t* d, std::size_t n, domain_t dom) { ::new (p) ip_address(std::span<const uint8_t>{d, n}, dom); }
extern "C" void vc_ip_copy(void* p, const ip_address& o) { ::new (p) ip_address(o); }
extern "C" void vc_ip_move(void* p, ip_address& o) { ::new (p) ip_address(std::move(o)); }
extern "C" void vc_ip_assign(ip_address& p, const ip_address& o) { p = o; }
extern "C" domain_t vc_ip_domain(const ip_address& o) { return o.domain(); }
extern "C" const uint8_t* vc_ip_data(const ip_address& o, std::size_t* n) { auto s = o.data(); *n = s.size(); return s.data(); }
extern "C" void vc_ip_from(void* p, const char* d, std::size_t n, domain_t dom) { ::new (p) ip_address(ip_address::from_string(std::string_view{d, n}, dom)); }
extern "C" void vc_ip_text(const ip_address& o, void* p) { ::new (p) std::string(o.to_string()); }
extern "C" bool vc_ip_eq(const ip_address& a, const ip_address& b) { return a == b; }
extern "C" bool vc_ip_lt(const ip_address& a, const ip_address& b) { return a < b; }
extern "C" void vc_sa_ctor(void* p, const ip_address& ip, std::uint16_t port) { ::new (p) socket_address(ip, port); }
extern "C" void vc_sa_from(void* p, const char* d, std::size_t n, std::uint16_t port, domain_t dom) { ::new (p) socket_address(std::string_view{d, n}, port, dom); }
extern "C" void vc_sa_uninit(void* p) { ::new (p) socket_address(socket_address::make_uninitialised()); }
extern "C" const void* vc_sa_data(const socket_address& s, socklen_t* n) { auto [p, l] = s.data(); *n = l; return p; }
extern "C" void* vc_sa_mutable(socket_address& s, socklen_t** n) { auto [p, l] = s.native_mutable_data(); *n = l; return p; }
extern "C" void vc_sa_ip(const socket_address& s, void* p) { ::new (p) ip_address(s.ip()); }
extern "C" domain_t vc_sa_domain(const socket_address& s) { return s.domain(); }
extern "C" std::uint16_t vc_sa_port(const socket_address& s) { return s.port(); }
extern "C" bool vc_sa_eq(const socket_address& a, const socket_address& b) { return a == b; }
extern "C" void vc_sa_text(const socket_address& a, void* p) { ::new (p) std::string(a.to_string()); }
