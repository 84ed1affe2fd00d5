// C04: any sequence of cursor operations on a writer over any buffer.
#include <cstdint>
#include "kls.h"
#include "kl/binary_rw.hpp"
#include <memory>
struct model {
    unsigned char buf[B_LEN + 1];
    size_t n, pos = 0;
    bool err = false;
    bool put(const void* p, size_t k)
    {
        if (err || n - pos < k) {
            err = true;
            return false;
        }
        memcpy(buf + pos, p, k);
        pos += k;
        return true;
    }
};
template <typename T> static void do_write(kl::binary_writer& w, model& m, bool raw)
{
    T v = kls::sym<T>("v");
    bool exp = m.put(&v, sizeof v);
    if (raw) {
        bool ok = w.write_raw(v);
        CHECKM(ok == exp, "write succeeds exactly when enough room is left");
    } else
        w << v;
}
extern "C" void kls_harness()
{
    model m;
    m.n = kls::choose("len", B_LEN + 1);
    std::unique_ptr<std::byte[]> buf(new std::byte[m.n]);
    kls::sym_bytes(buf.get(), m.n, "buf");
    memcpy(m.buf, buf.get(), m.n);
    kl::binary_writer w(gsl::span<std::byte>(buf.get(), m.n));
    for (int i = 0; i < B_OPS; ++i) {
        switch (kls::choose("op", 8)) {
        case 0: {
            auto off = kls::sym<std::ptrdiff_t>("off");
            w.skip(off);
            if (!m.err) {
                bool fwd = off >= 0;
                uint64_t mag = fwd ? (uint64_t)off : 0 - (uint64_t)off;
                bool ok = fwd ? mag <= m.n - m.pos : mag <= m.pos;
                if (ok) m.pos += (size_t)off;
                else m.err = true;
            }
            break;
        }
        case 1: do_write<uint8_t>(w, m, kls::choose("raw", 2)); break;
        case 2: do_write<uint16_t>(w, m, kls::choose("raw", 2)); break;
        case 3: do_write<uint32_t>(w, m, kls::choose("raw", 2)); break;
        case 4: {
            unsigned cnt = kls::choose("scnt", 4);
            uint16_t src[3];
            kls::sym_bytes(src, 6, "src");
            bool exp = m.put(src, cnt * 2);
            if (kls::choose("ss", 2)) w << gsl::span<const uint16_t>(src, cnt);
            else CHECK(w.write_span(gsl::span<const uint16_t>(src, cnt)) == exp);
            break;
        }
        case 5: do_write<uint64_t>(w, m, kls::choose("raw", 2)); break;
        case 6: { // more than fits a register
            unsigned cnt = B_LEN - 3 + kls::choose("bcnt", 5);
            unsigned char src[B_LEN + 2];
            kls::sym_bytes(src, cnt, "src");
            bool exp = m.put(src, cnt);
            if (kls::choose("ss", 2)) w << gsl::span<const unsigned char>(src, cnt);
            else CHECK(w.write_span(gsl::span<const unsigned char>(src, cnt)) == exp);
            break;
        }
        default: w.notify_error(); m.err = true; break;
        }
        CHECKM(w.err() == m.err, "error flag: set exactly by the first operation that does not fit, and sticky");
        CHECKM(w.pos() == m.pos, "cursor position");
        CHECKM(w.left() == m.n - m.pos, "bytes left");
        CHECKM(w.empty() == (m.n == m.pos), "empty()");
        CHECKM(!memcmp(buf.get(), m.buf, m.n), "buffer holds exactly what was written");
    }
    if (m.err) COVER("err");
    else COVER("ok");
}
