// C05: sizes around 2^8 and 2^16.
#define B_SZ 1
#include "bin_types.hpp"
#include <memory>
template <typename T> static void round(const T& v)
{
    out ref;
    enc(ref, v);
    size_t need = ref.v.size();
    std::unique_ptr<std::byte[]> buf(new std::byte[need]);
    kl::binary_writer w(gsl::span<std::byte>(buf.get(), need));
    w << v;
    CHECKM(!w.err() && w.pos() == need, "a value that fits is written completely");
    CHECKM(!memcmp(buf.get(), ref.v.data(), need), "encoding follows the documented layout");
    kl::binary_reader r(gsl::span<const std::byte>(buf.get(), need));
    T x = target<T>();
    r >> x;
    CHECKM(!r.err() && r.pos() == need, "reading back consumes exactly what was written");
    CHECKM(x == v, "reading back yields an equal value");
    COVER("round");
    // short by one
    kl::binary_reader q(gsl::span<const std::byte>(buf.get(), need - 1));
    T y{};
    q >> y;
    CHECKM(q.err() && y.empty(), "a truncated encoding reports an error");
}
extern "C" void kls_harness()
{
    unsigned n = 254 + kls::choose("n", 4), k = kls::choose("type", 8);
    switch (k) {
    case 0: { std::string s(n, 'q'); s[n - 1] = kls::sym<char>("c"); round(s); break; }
    case 1: { std::vector<uint16_t> s(n, 7); s[n - 1] = kls::sym<uint16_t>("c"); round(s); break; }
    case 2: { std::vector<std::optional<uint8_t>> s(n); s[n - 1] = kls::sym<uint8_t>("c"); round(s); break; }
    case 3: { std::set<uint16_t> s; for (unsigned i = 0; i < n; ++i) s.insert((uint16_t)(i * 3)); round(s); break; }
    case 4: { std::map<uint16_t, uint8_t> s; for (unsigned i = 0; i < n; ++i) s[(uint16_t)(i * 3)] = (uint8_t)i; s[3] = kls::sym<uint8_t>("c"); round(s); break; }
    case 5: { std::string s(65280 + n, 'q'); s[0] = kls::sym<char>("c"); round(s); break; }
    case 6: { std::vector<uint8_t> s(65280 + n, 9); s[65280] = kls::sym<uint8_t>("c"); round(s); break; }
    default: { std::vector<std::string> s(n, "x"); s[n - 2] = std::string(1, kls::sym<char>("c")); round(s); break; }
    }
}
