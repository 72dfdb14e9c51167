// ip_address / socket_address keep family, bytes and port; text conversions go through inet_pton / inet_ntop (models).
#include "hx.hpp"
#include <coro/net/socket_address.hpp>
#include <cstring>
using coro::net::domain_t;
using coro::net::ip_address;
using coro::net::socket_address;
static ip_address addr(const uint8_t* b, domain_t d) { return ip_address{std::span<const uint8_t>{b, d == domain_t::ipv4 ? 4u : 16u}, d}; }
static void fill(uint8_t* b) { for (int i = 0; i < 16; i += 8) { uint64_t v = sym::u64(); memcpy(b + i, &v, 8); } }
#ifdef BYTES // bytes and sockaddr
static void check_sock(const socket_address& s, const uint8_t* b, domain_t d, uint16_t port)
{
    auto [p, n] = s.data();
    SYM_ASSERT(p->sa_family == (d == domain_t::ipv4 ? AF_INET : AF_INET6), "sockaddr family");
    SYM_ASSERT(n == (d == domain_t::ipv4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "sockaddr length");
    uint16_t be = (uint16_t)((port << 8) | (port >> 8));
    if (d == domain_t::ipv4)
    {
        auto* in = (const sockaddr_in*)p;
        SYM_ASSERT(in->sin_port == be, "sockaddr port is not the port in network byte order");
        SYM_ASSERT(!memcmp(&in->sin_addr, b, 4), "sockaddr address");
    }
    else
    {
        auto* in = (const sockaddr_in6*)p;
        SYM_ASSERT(in->sin6_port == be, "sockaddr port is not the port in network byte order");
        SYM_ASSERT(!memcmp(&in->sin6_addr, b, 16), "sockaddr address");
        SYM_ASSERT(in->sin6_scope_id == 0 && in->sin6_flowinfo == 0, "sockaddr scope and flow");
    }
    SYM_ASSERT(s.domain() == d, "socket_address domain");
    SYM_ASSERT(s.port() == port, "socket_address port");
    SYM_ASSERT(s.ip() == addr(b, d), "socket_address ip");
}
extern "C" void sym_main()
{
    domain_t d = sym::flip() ? domain_t::ipv6 : domain_t::ipv4;
    size_t   n = d == domain_t::ipv4 ? 4 : 16;
    uint8_t  b[32], b2[16];
    fill(b);
    fill(b2);
    uint64_t k = sym::range(0, 5, 3);
    if (k == 0) // length of the bytes given
    {
        uint64_t len = sym_concretize(sym::range(0, 20, 5));
        bool     thrown = false;
        memset(b + 16, 0, 16);
        try
        {
            ip_address a{std::span<const uint8_t>{b, len}, d};
            auto       r = a.data();
            SYM_ASSERT(r.size() == n, "data() length");
            for (size_t i = 0; i < n; i++) SYM_ASSERT(r[i] == (i < len ? b[i] : 0), "bytes are not kept");
            SYM_ASSERT(a.domain() == d, "family is not kept");
        }
        catch (const std::runtime_error&)
        {
            thrown = true;
        }
        SYM_ASSERT(thrown == (len > n), "too many bytes are accepted, or a valid length is rejected");
    }
    else if (k == 1) // comparisons
    {
        domain_t   d2 = sym::flip() ? domain_t::ipv6 : domain_t::ipv4;
        ip_address x = addr(b, d), y = addr(b2, d2);
        int        c = d != d2 ? (d == domain_t::ipv4 ? -1 : 1) : 0;
        if (c == 0)
            for (size_t i = 0; i < n; i++)
                if (b[i] != b2[i]) { c = b[i] < b2[i] ? -1 : 1; break; }
        SYM_ASSERT((x == y) == (c == 0), "equality disagrees with the bytes");
        SYM_ASSERT((x < y) == (c < 0), "ordering disagrees with the bytes");
        SYM_ASSERT((x > y) == (c > 0), "ordering disagrees with the bytes");
        ip_address z = x;
        SYM_ASSERT(z == x, "a copy differs");
        z = y;
        SYM_ASSERT(z == y && z.domain() == d2, "an assigned copy differs");
    }
    else if (k == 2) // socket_address from an address
    {
        uint16_t       port = (uint16_t)sym_input(16);
        socket_address s{addr(b, d), port};
        check_sock(s, b, d, port);
        socket_address t = s;
        check_sock(t, b, d, port);
        SYM_ASSERT(t == s, "equality of copies");
    }
    else if (k == 3) // equality
    {
        domain_t       d2 = sym::flip() ? domain_t::ipv6 : domain_t::ipv4;
        uint16_t       port = (uint16_t)sym_input(16), port2 = (uint16_t)sym_input(16);
        socket_address s{addr(b, d), port}, t{addr(b2, d2), port2};
        bool           same = d == d2 && port == port2 && !memcmp(b, b2, n);
        SYM_ASSERT((s == t) == same, "socket_address equality");
    }
    else if (k == 4) // filled in by a system call
    {
        uint16_t port = (uint16_t)sym_input(16), be = (uint16_t)((port << 8) | (port >> 8));
        auto     s = socket_address::make_uninitialised();
        auto [p, len] = s.native_mutable_data();
        SYM_ASSERT(*len >= sizeof(sockaddr_in6), "no room for an address");
        if (d == domain_t::ipv4)
        {
            sockaddr_in in{};
            in.sin_family = AF_INET; in.sin_port = be; memcpy(&in.sin_addr, b, 4);
            memcpy(p, &in, sizeof in); *len = sizeof in;
        }
        else
        {
            sockaddr_in6 in{};
            in.sin6_family = AF_INET6; in.sin6_port = be; memcpy(&in.sin6_addr, b, 16);
            memcpy(p, &in, sizeof in); *len = sizeof in;
        }
        check_sock(s, b, d, port);
        SYM_ASSERT(s == socket_address(addr(b, d), port), "equality with a socket_address built from the address");
    }
    else // no address in it
    {
        auto s = socket_address::make_uninitialised();
        uint16_t fam = (uint16_t)sym_input(16);
        sym_assume(fam != AF_INET);
        sym_assume(fam != AF_INET6);
        s.native_mutable_data().first->sa_family = fam;
        int t = 0;
        try { s.ip(); } catch (const std::runtime_error&) { t++; }
        try { s.port(); } catch (const std::runtime_error&) { t++; }
        try { s.domain(); } catch (const std::runtime_error&) { t++; }
        SYM_ASSERT(t == 3, "a socket_address without an address reports one");
    }
    sym_reach(1);
}
#elif defined(TEXT) // to_string / from_string
extern "C" void sym_main()
{
    domain_t d = DOM;
    size_t   n = d == domain_t::ipv4 ? 4 : 16;
    uint8_t  b[16];
    fill(b);
    ip_address  x = addr(b, d);
    std::string s = x.to_string();
    // independent of the library: s is the text of b, without trailing NULs
    uint8_t c[16] = {};
    SYM_ASSERT(s.find('\0') == std::string::npos, "to_string() has an embedded NUL");
    SYM_ASSERT(inet_pton((int)d, s.c_str(), c) == 1 && !memcmp(b, c, n), "to_string() is not the text of the address");
    // from a view that is not NUL-terminated, followed by other characters or by nothing
    auto* buf = new char[s.size() + 1];
    auto* raw = new char[s.size()];
    memcpy(buf, s.data(), s.size());
    memcpy(raw, s.data(), s.size());
    buf[s.size()] = '1';
    ip_address y = ip_address::from_string(s, d);
    SYM_ASSERT(y == x, "from_string(to_string()) differs");
    ip_address z = ip_address::from_string(std::string_view{buf, s.size()}, d);
    SYM_ASSERT(z == x, "from_string of a view into a longer text differs");
    ip_address w = ip_address::from_string(std::string_view{raw, s.size()}, d);
    SYM_ASSERT(w == x && w.domain() == d, "from_string of an unterminated view differs");
    socket_address sa{s, 8080, d};
    SYM_ASSERT(sa.ip() == x && sa.port() == 8080 && sa.domain() == d, "socket_address from text");
    SYM_ASSERT(sa.to_string() == s + ":8080", "socket_address to_string");
    delete[] buf;
    delete[] raw;
    sym_reach(1);
}
#else // any text of up to LEN characters
extern "C" void sym_main()
{
    domain_t d = DOM;
    uint64_t    len = sym_concretize(sym::range(1, LEN, 5));
    auto*       t   = new char[len];
    std::string ref;
    for (uint64_t i = 0; i < len; i++)
    {
        t[i] = (char)sym_input(8);
        sym_assume(t[i] != 0);
        ref.push_back(t[i]);
    }
    uint8_t c[16] = {};
    bool valid = inet_pton((int)d, ref.c_str(), c) == 1;
    bool ok = false;
    try
    {
        auto a = ip_address::from_string(std::string_view{t, len}, d);
        ok     = true;
        SYM_ASSERT(valid, "invalid text is accepted");
        SYM_ASSERT(a == addr(c, d), "text converts to another address");
    }
    catch (const std::runtime_error&)
    {
    }
    SYM_ASSERT(ok == valid, "valid text is rejected");
    delete[] t;
    if (ok) sym_reach(2);
    sym_reach(1);
}
#endif
