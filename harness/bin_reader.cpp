// C03: any sequence of cursor operations on a reader over any buffer.
#include <cstdint>
#include "kls.h"
#include "kl/binary_rw.hpp"
#include <memory>
struct model {
    const std::byte* buf;
    size_t n, pos = 0;
    bool err = false;
};
template <typename T> static void do_peek(kl::binary_reader& r, model& m, bool by_value)
{
    T v;
    unsigned char init[sizeof(T)];
    kls::sym_bytes(init, sizeof(T), "init");
    memcpy(&v, init, sizeof(T));
    bool fits = !m.err && m.n - m.pos >= sizeof(T);
    if (by_value) {
        v = r.peek<T>();
        if (!fits) CHECKM(v == T{}, "a failed peek yields a value-initialized object");
    } else {
        bool ok = r.peek(v);
        CHECKM(ok == fits, "peek succeeds exactly when enough bytes are left");
        if (!fits) CHECKM(!memcmp(&v, init, sizeof(T)), "a failed peek leaves the target alone");
    }
    if (fits) CHECKM(!memcmp(&v, m.buf + m.pos, sizeof(T)), "peek yields the next bytes");
}
template <typename T> static void do_read(kl::binary_reader& r, model& m, unsigned how)
{
    T v;
    unsigned char init[sizeof(T)];
    kls::sym_bytes(init, sizeof(T), "init");
    memcpy(&v, init, sizeof(T));
    bool fits = !m.err && m.n - m.pos >= sizeof(T);
    bool ok = fits;
    if (how == 0) ok = r.read_raw(v);
    else if (how == 1) ok = r.read(v);
    else if (how == 2) r >> v;
    else {
        v = r.read<T>();
        if (!fits) CHECKM(v == T{}, "a failed read yields a value-initialized object");
    }
    CHECKM(ok == fits, "read succeeds exactly when enough bytes are left");
    if (fits) {
        CHECKM(!memcmp(&v, m.buf + m.pos, sizeof(T)), "read yields the next bytes");
        m.pos += sizeof(T);
    } else {
        if (how != 3) CHECKM(!memcmp(&v, init, sizeof(T)), "a failed read leaves the target alone");
        m.err = true;
    }
}
extern "C" void kls_harness()
{
    model m;
    m.n = kls::choose("len", B_LEN + 1);
    std::unique_ptr<std::byte[]> buf(new std::byte[m.n]);
    kls::sym_bytes(buf.get(), m.n, "buf");
    m.buf = buf.get();
    kl::binary_reader r(gsl::span<const std::byte>(buf.get(), m.n));
    for (int i = 0; i < B_OPS; ++i) {
        switch (kls::choose("op", 9)) {
        case 0: {
            auto off = kls::sym<std::ptrdiff_t>("off");
            r.skip(off);
            if (!m.err) {
                bool fwd = off >= 0;
                uint64_t mag = fwd ? (uint64_t)off : 0 - (uint64_t)off;
                bool ok = fwd ? mag <= m.n - m.pos : mag <= m.pos;
                if (ok) m.pos += (size_t)off;
                else m.err = true;
            }
            COVER("skip");
            break;
        }
        case 1: {
            unsigned k = kls::choose("pk", 3);
            if (k == 0) do_peek<uint8_t>(r, m, kls::choose("bv", 2));
            else if (k == 1) do_peek<uint16_t>(r, m, kls::choose("bv", 2));
            else do_peek<uint32_t>(r, m, kls::choose("bv", 2));
            break;
        }
        case 2: do_read<uint8_t>(r, m, kls::choose("how", 4)); break;
        case 3: do_read<uint16_t>(r, m, kls::choose("how", 4)); break;
        case 4: do_read<uint32_t>(r, m, kls::choose("how", 4)); break;
        case 5: {
            auto cnt = kls::sym<size_t>("cnt");
            bool mv = kls::sym_bool("mv");
            auto s = r.span(cnt, mv);
            bool ok = !m.err && cnt <= m.n - m.pos;
            if (ok) {
                COVER("span");
                CHECKM(s.data() == m.buf + m.pos && s.size() == cnt, "span views exactly the next bytes");
                if (mv) m.pos += cnt;
            } else {
                CHECKM(s.size() == 0, "a failed span is empty");
                m.err = true;
            }
            break;
        }
        case 6: do_read<uint64_t>(r, m, kls::choose("how", 4)); break;
        case 7: { // up to and beyond the whole buffer
            unsigned cnt = B_LEN - 3 + kls::choose("bcnt", 5);
            unsigned char dst[B_LEN + 2], init[B_LEN + 2];
            kls::sym_bytes(init, B_LEN + 2, "init");
            memcpy(dst, init, B_LEN + 2);
            bool fits = !m.err && m.n - m.pos >= cnt;
            if (kls::choose("ss", 2)) r >> gsl::span<unsigned char>(dst, cnt);
            else CHECK(r.read_span(gsl::span<unsigned char>(dst, cnt)) == fits);
            if (fits) {
                CHECKM(!memcmp(dst, m.buf + m.pos, cnt), "read_span yields the next bytes");
                CHECKM(!memcmp(dst + cnt, init + cnt, B_LEN + 2 - cnt), "read_span writes only its span");
                m.pos += cnt;
            } else {
                CHECKM(!memcmp(dst, init, B_LEN + 2), "a failed read_span leaves the target alone");
                m.err = true;
            }
            break;
        }
        default: {
            if (kls::choose("ne", 2)) {
                r.notify_error();
                m.err = true;
                break;
            }
            unsigned cnt = kls::choose("scnt", 4);
            uint16_t dst[3];
            unsigned char init[6];
            kls::sym_bytes(init, 6, "init");
            memcpy(dst, init, 6);
            bool fits = !m.err && m.n - m.pos >= cnt * 2;
            if (kls::choose("ss", 2)) r >> gsl::span<uint16_t>(dst, cnt);
            else CHECK(r.read_span(gsl::span<uint16_t>(dst, cnt)) == fits);
            if (fits) {
                CHECKM(!memcmp(dst, m.buf + m.pos, cnt * 2), "read_span yields the next bytes");
                CHECKM(!memcmp((char*)dst + cnt * 2, init + cnt * 2, 6 - cnt * 2), "read_span writes only its span");
                m.pos += cnt * 2;
            } else {
                CHECKM(!memcmp(dst, init, 6), "a failed read_span leaves the target alone");
                m.err = true;
            }
        }
        }
        CHECKM(r.err() == m.err, "error flag: set exactly by the first operation that does not fit, and sticky");
        CHECKM(r.pos() == m.pos, "cursor position");
        CHECKM(r.left() == m.n - m.pos, "bytes left");
        CHECKM(r.empty() == (m.n == m.pos), "empty()");
        CHECKM(r.pos() <= m.n, "cursor inside the buffer");
    }
    if (m.err) COVER("err");
    else COVER("ok");
}
