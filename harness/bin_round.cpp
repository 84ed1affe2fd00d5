// C05: wire format, round trip, truncation on write and on read.
#include "bin_types.hpp"
template <typename T> static void run()
{
    T v = mk_<T>::get();
    out ref;
    enc(ref, v);
    size_t need = ref.v.size();
    // exact, larger or truncated target buffer
    unsigned how = kls::choose("room", 3);
    size_t room = need;
    if (how == 1) room = need + 3;
    if (how == 2) {
        if (need == 0) return;
        room = need - 1 - kls::choose("cut", (unsigned)(need < 12 ? need : 12));
    }
    std::unique_ptr<std::byte[]> buf(new std::byte[room]);
    kl::binary_writer w(gsl::span<std::byte>(buf.get(), room));
    w << v;
    if (how == 2) {
        CHECKM(w.err(), "a value that does not fit reports an error");
        CHECKM(w.pos() <= room, "write position inside the buffer");
        COVER("write_truncated");
    } else {
        CHECKM(!w.err() && w.pos() == need, "a value that fits is written completely");
        CHECKM(!memcmp(buf.get(), ref.v.data(), need), "encoding follows the documented layout");
        kl::binary_reader r(gsl::span<const std::byte>(buf.get(), room));
        T x = target<T>();
        r >> x;
        CHECKM(!r.err() && r.pos() == need, "reading back consumes exactly what was written");
        CHECKM(x == v, "reading back yields an equal value");
        COVER("round");
    }
    // any strict prefix of a valid encoding must be rejected
    if (need > 0) {
        size_t cut = need - 1 - kls::choose("rcut", (unsigned)(need < 12 ? need : 12));
        std::unique_ptr<std::byte[]> b2(new std::byte[cut]);
        memcpy(b2.get(), ref.v.data(), cut);
        kl::binary_reader r(gsl::span<const std::byte>(b2.get(), cut));
        T x{};
        r >> x;
        CHECKM(r.err(), "a truncated encoding reports an error");
        CHECKM(r.pos() <= cut, "read position inside the buffer");
        COVER("read_truncated");
    }
}
extern "C" void kls_harness()
{
    switch (kls::choose("type", BIN_NTYPES)) {
#define X(i, t) case i: run<typename unparen<void(t)>::type>(); break;
        BIN_TYPES(X)
    }
}
