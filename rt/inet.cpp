// inet_pton / inet_ntop.  The real ones exist only as machine code; these accept the same texts.  inet_ntop writes IPv6
// addresses in their full form (8 groups of 4 digits): one of the texts of the address, not the shortest one.
#include <arpa/inet.h>
#include <cerrno>
#include <cstdint>
#include <cstring>
static inline unsigned hexval(unsigned c) { return (c & 15) + 9 * (c >> 6); }
static inline bool ishex(unsigned c) { return ((c - '0') < 10u) | (((c | 32) - 'a') < 6u); }
static inline bool isdig(unsigned c) { return (c - '0') < 10u; }
static bool pton4(const char* s, unsigned char* a)
{
    for (int i = 0; i < 4; i++)
    {
        unsigned v = 0;
        int      j = 0;
        for (; j < 4 && isdig((unsigned char)s[j]); j++)
            v = 10 * v + (s[j] - '0');
        if (j == 0 || j > 3 || v > 255 || (j > 1 && s[0] == '0')) return false;
        a[i] = (unsigned char)v;
        if (s[j] == 0 && i == 3) return true;
        if (s[j] != '.') return false;
        s += j + 1;
    }
    return false;
}
static bool pton6(const char* s, unsigned char* a)
{
    uint16_t ip[8];
    int      i, j, brk = -1, need4 = 0;
    if (*s == ':' && *++s != ':') return false;
    for (i = 0;; i++)
    {
        if (s[0] == ':' && brk < 0)
        {
            brk       = i;
            ip[i & 7] = 0;
            if (!*++s) break;
            if (i == 7) return false;
            continue;
        }
        unsigned v = 0;
        for (j = 0; j < 4 && ishex((unsigned char)s[j]); j++)
            v = 16 * v + hexval((unsigned char)s[j]);
        if (j == 0) return false;
        ip[i & 7] = (uint16_t)v;
        if (!s[j] && (brk >= 0 || i == 7)) break;
        if (i == 7) return false;
        if (s[j] != ':')
        {
            if (s[j] != '.' || (i < 6 && brk < 0)) return false;
            need4 = 1;
            i++;
            ip[i & 7] = 0;
            break;
        }
        s += j + 1;
    }
    if (brk >= 0)
    {
        memmove(ip + brk + 7 - i, ip + brk, 2 * (i + 1 - brk));
        for (j = 0; j < 7 - i; j++) ip[brk + j] = 0;
    }
    for (j = 0; j < 8; j++)
    {
        *a++ = ip[j] >> 8;
        *a++ = (unsigned char)ip[j];
    }
    if (need4 && !pton4(s, a - 4)) return false;
    return true;
}
extern "C" {
int symrt_inet_pton(int af, const char* s, void* d)
{
    unsigned char b[16];
    if (af == AF_INET)
    {
        if (!pton4(s, b)) return 0;
        memcpy(d, b, 4);
        return 1;
    }
    if (af == AF_INET6)
    {
        if (!pton6(s, b)) return 0;
        memcpy(d, b, 16);
        return 1;
    }
    errno = EAFNOSUPPORT;
    return -1;
}
const char* symrt_inet_ntop(int af, const void* src, char* dst, socklen_t size)
{
    auto*    a = (const unsigned char*)src;
    char     t[48];
    unsigned n = 0;
    if (af == AF_INET)
    {
        for (int i = 0; i < 4; i++)
        {
            unsigned v = a[i];
            if (v > 99) t[n++] = '0' + v / 100;
            if (v > 9) t[n++] = '0' + v / 10 % 10;
            t[n++] = '0' + v % 10;
            t[n++] = i < 3 ? '.' : 0;
        }
    }
    else if (af == AF_INET6)
    {
        for (int i = 0; i < 8; i++)
        {
            for (int j = 0; j < 4; j++)
            {
                unsigned v = (a[2 * i + j / 2] >> (j % 2 ? 0 : 4)) & 15;
                t[n++]     = (char)('0' + v + (v > 9) * 39);
            }
            t[n++] = i < 7 ? ':' : 0;
        }
    }
    else
    {
        errno = EAFNOSUPPORT;
        return nullptr;
    }
    if (n > size)
    {
        errno = ENOSPC;
        return nullptr;
    }
    memcpy(dst, t, n);
    return dst;
}
}
