// C30: hash functions against the published algorithms.
#include "kls.h"
#include "kl/hash.hpp"
#include <memory>
static uint32_t ref_fnv(const unsigned char* p, size_t n)
{
    uint32_t h = 0x811C9DC5u;
    for (size_t i = 0; i < n; ++i) {
        h ^= p[i];
        h *= 0x01000193u;
    }
    return h;
}
// SuperFastHash, after http://www.azillionmonkeys.com/qed/hash.html
static uint32_t ref16(const unsigned char* d) { return (uint32_t)d[0] + ((uint32_t)d[1] << 8); }
static uint32_t ref_hsieh(const unsigned char* d, size_t len)
{
    if (!len) return 0;
    uint32_t h = (uint32_t)len;
    size_t i = 0;
    for (; i + 4 <= len; i += 4) {
        h += ref16(d + i);
        uint32_t t = (ref16(d + i + 2) << 11) ^ h;
        h = (h << 16) ^ t;
        h += h >> 11;
    }
    size_t rem = len - i;
    if (rem == 3) {
        h += ref16(d + i);
        h ^= h << 16;
        h ^= (uint32_t)(int32_t)(signed char)d[i + 2] << 18;
        h += h >> 11;
    } else if (rem == 2) {
        h += ref16(d + i);
        h ^= h << 11;
        h += h >> 17;
    } else if (rem == 1) {
        h += (uint32_t)(int32_t)(signed char)d[i];
        h ^= h << 10;
        h += h >> 1;
    }
    h ^= h << 3;
    h += h >> 5;
    h ^= h << 4;
    h += h >> 17;
    h ^= h << 25;
    h += h >> 6;
    return h;
}
template <size_t N> static void arr(const unsigned char* p)
{
    char a[N + 1];
    for (size_t i = 0; i < N; ++i) a[i] = (char)p[i];
    a[N] = 0;
    CHECKM(kl::hash::fnv1a(a) == ref_fnv(p, N), "fnv1a of a character array ignores the terminator");
}
#ifdef B_LONG
extern "C" void kls_harness()
{
    // long inputs: a fixed filling with arbitrary bytes at the end
    static const size_t lens[] = {255, 256, 257, 258, 259, 65535, 65536, 65537};
    size_t n = lens[kls::choose("len", sizeof lens / sizeof *lens)];
    std::unique_ptr<char[]> buf(new char[n]);
    for (size_t i = 0; i < n; ++i) buf[i] = (char)(i * 7 + (i >> 8));
    kls::sym_bytes(buf.get() + n - 3, 3, "in");
    const unsigned char* u = (const unsigned char*)buf.get();
    uint32_t want = ref_fnv(u, n);
    CHECKM(kl::hash::fnv1a(buf.get(), n) == want, "FNV-1a");
    CHECKM(kl::hash::fnv1a(std::string(buf.get(), n)) == want, "FNV-1a of a std::string");
    CHECKM(kl::hash::hsieh(buf.get(), n) == ref_hsieh(u, n), "Hsieh's SuperFastHash");
    COVER("end");
}
#else
extern "C" void kls_harness()
{
    size_t n = kls::choose("len", B_LEN + 1);
    std::unique_ptr<char[]> buf(new char[n]);
    kls::sym_bytes(buf.get(), n, "in");
    const unsigned char* u = (const unsigned char*)buf.get();
    uint32_t want = ref_fnv(u, n);
    CHECKM(kl::hash::fnv1a(buf.get(), n) == want, "FNV-1a");
    CHECKM(kl::hash::fnv1a(std::string(buf.get(), n)) == want, "FNV-1a of a std::string");
    CHECKM(kl::hash::operators::operator""_h(buf.get(), n) == want, "literal operator");
    if (n == 3) arr<3>(u);
    if (n == 1) arr<1>(u);
    CHECKM(kl::hash::hsieh(buf.get(), n) == ref_hsieh(u, n), "Hsieh's SuperFastHash");
    CHECKM(kl::hash::hsieh(nullptr, 0) == 0, "hash of nothing");
    COVER("end");
}
#endif
