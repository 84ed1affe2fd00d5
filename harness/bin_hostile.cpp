// C06: arbitrary bytes fed to every reader.
#include "bin_types.hpp"
template <typename T> struct emptied { static bool ok(const T&) { return true; } };
template <> struct emptied<std::string> { static bool ok(const std::string& s) { return s.empty(); } };
template <typename T> struct emptied<std::vector<T>> { static bool ok(const std::vector<T>& s) { return s.empty(); } };
template <typename T> struct emptied<std::set<T>> { static bool ok(const std::set<T>& s) { return s.empty(); } };
template <typename K, typename V> struct emptied<std::map<K, V>> { static bool ok(const std::map<K, V>& s) { return s.empty(); } };
template <typename T> static void run()
{
    size_t n = kls::choose("len", B_LEN + 1);
    std::unique_ptr<std::byte[]> buf(new std::byte[n]);
    kls::sym_bytes(buf.get(), n, "buf");
    kl::binary_reader r(gsl::span<const std::byte>(buf.get(), n));
    T x = target<T>();
    kls_alloc_limit(64 * (B_LEN + 8));
    bool threw = false;
    try {
        r >> x;
    } catch (...) {
        threw = true;
    }
    kls_alloc_limit(0);
    CHECKM(!threw, "malformed input never throws");
    in i{(const unsigned char*)buf.get(), n};
    T y = dec_<T>::get(i);
    CHECKM(r.err() == i.err, "input is accepted exactly when it is complete and well-formed");
    CHECKM(r.pos() <= n, "read position inside the buffer");
    if (i.err) {
        CHECKM(emptied<T>::ok(x), "a container whose data is malformed comes back empty");
        COVER("rejected");
    } else {
        CHECKM(r.pos() == i.pos, "exactly the encoded bytes are consumed");
        CHECKM(x == y, "decoded value equals the reference decoding");
        COVER("accepted");
    }
}
extern "C" void kls_harness()
{
    switch (kls::choose("type", BIN_NTYPES)) {
#define X(i, t) case i: run<typename unparen<void(t)>::type>(); break;
        BIN_TYPES(X)
    }
}
