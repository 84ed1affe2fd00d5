// C02: decoding accepts exactly the well-formed texts and returns their bytes.
#include "kls.h"
#include "kl/base64.hpp"
#include <string>
#include <string_view>
#include <vector>
#include <memory>
struct tables {
    unsigned char v[2][256]; // 64 = not in the alphabet
    tables()
    {
        const char* a[2] = {"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
                            "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"};
        for (int k = 0; k < 2; ++k) {
            for (int i = 0; i < 256; ++i) v[k][i] = 64;
            for (int i = 0; i < 64; ++i) v[k][(unsigned char)a[k][i]] = (unsigned char)i;
        }
    }
};
extern "C" void kls_harness()
{
#ifdef B_LONG
    static const unsigned lens[] = {255, 256, 257, 258, 259, 260, 1024, 1026, 65538, 65540};
    unsigned n = lens[kls::choose("len", sizeof lens / sizeof *lens)];
#else
    unsigned n = kls::choose("len", B_LEN + 1);
#endif
    bool url = kls::choose("url", 2);
    tables t;
    // exact-size heap buffer: reading one byte past either end is caught
    std::unique_ptr<unsigned char[]> buf(new unsigned char[n]);
#ifdef B_LONG // a fixed filling with arbitrary bytes in the middle and at the end
    for (unsigned i = 0; i < n; ++i) buf[i] = (unsigned char)"Ab0zK9"[i % 6];
    kls::sym_bytes(buf.get() + n / 2, 1, "in");
    kls::sym_bytes(buf.get() + n - 4, 4, "in");
#else
    kls::sym_bytes(buf.get(), n, "in");
#endif
    auto dec = url ? kl::base64url_decode(std::string_view((const char*)buf.get(), n))
                   : kl::base64_decode(std::string_view((const char*)buf.get(), n));
    // reference (branch-free over the symbolic characters; forks only on trailing '=')
    unsigned m = n, pad = 0;
    while (m > 0 && pad < 2 && buf[m - 1] == '=') {
        --m;
        ++pad;
    }
    bool ok;
    if (url)
        ok = (m % 4) != 1;
    else
        ok = n % 4 == 0;
    unsigned bad = 0;
    for (unsigned i = 0; i < m; ++i) bad |= t.v[url][buf[i]] & 64u;
    bool good = ok & (bad == 0);
    CHECKM(dec.has_value() == good, "decode accepts exactly the well-formed texts");
    if (!dec) {
        COVER("rejected");
        return;
    }
    COVER("accepted");
    unsigned bytes = m * 6 / 8;
    CHECK(dec->size() == bytes);
    for (unsigned i = 0; i < bytes; ++i) {
        unsigned v = 0;
        for (unsigned b = 0; b < 8; ++b) {
            unsigned pos = i * 8 + b;
            v = v << 1 | ((t.v[url][buf[pos / 6]] >> (5 - pos % 6)) & 1);
        }
        CHECKM((unsigned)(*dec)[i] == v, "decoded byte differs from the reference");
    }
}
