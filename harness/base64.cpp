// C01: encoding equals the RFC 4648 reference, and decoding inverts it.
#include "kls.h"
#include "kl/base64.hpp"
#include <cstring>
#include <string>
#include <vector>
static const char STD[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char URL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
extern "C" void kls_harness()
{
#ifdef B_LONG // a fixed filling with arbitrary bytes in a window at the end
    static const unsigned lens[] = {191, 192, 193, 255, 256, 257, 765, 767, 768, 769, 1024, 65537};
    unsigned n = lens[kls::choose("len", sizeof lens / sizeof *lens)];
#else
    unsigned n = kls::choose("len", B_LEN + 1);
#endif
    bool url = kls::choose("url", 2);
    const char* alpha = url ? URL : STD;
    std::vector<std::byte> in(n);
#ifdef B_LONG
    for (unsigned i = 0; i < n; ++i) in[i] = (std::byte)(i * 11 + (i >> 8));
    kls::sym_bytes(in.data() + n - 4, 4, "in");
#else
    kls::sym_bytes(in.data(), n, "in");
#endif
    std::string enc = url ? kl::base64url_encode(in) : kl::base64_encode(in);
    unsigned exp = url ? (n * 8 + 5) / 6 : (n + 2) / 3 * 4;
    CHECK(enc.size() == exp);
    unsigned bits = n * 8;
    for (unsigned i = 0; i < exp; ++i) {
        if (i * 6 >= bits) {
            CHECK(enc[i] == '=');
            continue;
        }
        unsigned v = 0;
        for (unsigned b = 0; b < 6; ++b) {
            unsigned pos = i * 6 + b;
            unsigned bit = pos < bits ? ((unsigned)in[pos / 8] >> (7 - pos % 8)) & 1 : 0;
            v = v << 1 | bit;
        }
        CHECKM(enc[i] == alpha[v & 63], "encoded character differs from RFC 4648");
    }
    auto dec = url ? kl::base64url_decode(enc) : kl::base64_decode(enc);
    CHECK(dec.has_value());
    CHECK(dec->size() == n);
    for (unsigned i = 0; i < n; ++i) CHECKM((*dec)[i] == in[i], "decode(encode(x)) differs from x");
    COVER("end");
}
