// C32: zipped and enumerated sequences.
#include "kls.h"
#include "kl/zip.hpp"
#include <list>
#include <vector>
extern "C" void kls_harness()
{
    size_t n = kls::choose("n", B_LEN + 1), m = kls::choose("m", B_LEN + 1);
    std::vector<int> a;
    std::list<short> b;
    std::vector<short> bc;
    for (size_t i = 0; i < n; ++i) a.push_back(kls::sym<int>("a"));
    for (size_t i = 0; i < m; ++i) { bc.push_back(kls::sym<short>("b")); b.push_back(bc.back()); }
    int c[2] = {kls::sym<int>("c"), kls::sym<int>("c")};
    size_t k = 0;
    const std::vector<int> a0 = a;
    for (auto&& [x, y] : kl::zipped(a, b)) {
        CHECKM(k < n && k < m && x == a0[k] && y == bc[k] && &x == &a[k], "element k of a zip is the k-th of every sequence");
        x ^= 1;
        ++k;
    }
    CHECKM(k == (n < m ? n : m), "a zip is as long as its shortest sequence");
    for (size_t i = 0; i < n; ++i) CHECKM(a[i] == (i < k ? (a0[i] ^ 1) : a0[i]), "writing through a zip reaches the element");
    k = 0;
    for (auto&& [x, y, z] : kl::zipped(b, c, a)) {
        CHECKM(k < 2 && k < n && k < m && x == bc[k] && y == c[k] && z == a[k], "element k of a 3-zip");
        ++k;
    }
    size_t min = n < m ? n : m;
    CHECKM(k == (min < 2 ? min : 2), "length of a 3-zip");
    k = 0;
    for (auto [i, v] : kl::enumerated(a)) {
        CHECKM(i == k && v == a[k], "enumerated pairs every element with its index");
        ++k;
    }
    CHECKM(k == n, "enumerated yields every element");
    k = 0;
    const std::vector<int>& ca = a;
    for (auto&& [i, v] : kl::enumerated(ca)) {
        CHECKM(i == k && &v == &a[k], "enumerated over a const sequence");
        ++k;
    }
    CHECKM(k == n, "enumerated over a const sequence yields every element");
    int64_t lo = kls::sym<int64_t>("lo");
    kls_assume(lo < INT64_MAX - 8);
    k = 0;
    for (int64_t v : kl::iota_range<int64_t>(lo, lo + (int64_t)n)) {
        CHECKM(v == lo + (int64_t)k && k < n, "iota yields consecutive values");
        ++k;
    }
    CHECKM(k == n, "iota is half-open");
    k = 0;
    for (auto&& [i, v] : kl::zipped(kl::iota_range<int64_t>(lo, lo + (int64_t)m), a)) {
        CHECKM(i == lo + (int64_t)k && v == a[k], "zip with iota");
        ++k;
    }
    CHECKM(k == min, "zip with a bounded iota");
    // an array of fewer elements than the others, in every position
    k = 0;
    for (auto&& [x, y, z] : kl::zipped(c, a, b)) { CHECKM(k < 2 && k < n && k < m && &x == &c[k] && &y == &a[k] && z == bc[k], "array first"); ++k; }
    CHECKM(k == (min < 2 ? min : 2), "length with the array first");
    k = 0;
    for (auto&& [x, y, z] : kl::zipped(a, b, c)) { CHECKM(k < 2 && k < n && k < m && &x == &a[k] && y == bc[k] && &z == &c[k], "array last"); ++k; }
    CHECKM(k == (min < 2 ? min : 2), "length with the array last");
    // one sequence alone, and sequences handing out values instead of references
    k = 0;
    for (auto&& [x] : kl::zipped(b)) { CHECKM(k < m && x == bc[k], "zip of one"); ++k; }
    CHECKM(k == m, "length of a zip of one");
    std::vector<bool> bits;
    for (size_t i = 0; i < m; ++i) bits.push_back((bc[i] & 1) != 0);
    k = 0;
    for (auto&& [i, bit] : kl::enumerated(bits)) { CHECKM(i == k && bit == ((bc[k] & 1) != 0), "enumerated bits"); bit = !bit; ++k; }
    CHECKM(k == m, "every bit is enumerated");
    for (size_t i = 0; i < m; ++i) CHECKM(bits[i] == ((bc[i] & 1) == 0), "writing through a zip of proxies reaches the element");
    // narrow and wrapping counters
    uint8_t b8 = kls::sym<uint8_t>("b8");
    k = 0;
    for (uint8_t v : kl::iota_range<uint8_t>(b8, (uint8_t)(b8 + n))) { CHECKM(k < n && v == (uint8_t)(b8 + k), "iota of a narrow type"); ++k; }
    CHECKM(k == n, "length of an iota of a narrow type");
    k = 0;
    for (auto&& [i, v] : kl::zipped(kl::unbounded_iota_range<uint8_t>{b8}, a)) { CHECKM(k < n && i == (uint8_t)(b8 + k) && v == a[k], "unbounded iota"); ++k; }
    CHECKM(k == n, "an unbounded iota never ends a zip");
    // iterators are values: a copy stays where it was
    auto z = kl::zipped(a, b);
    auto i1 = z.begin();
    auto i2 = i1;
    if (min > 1) {
        ++i2;
        CHECKM(std::get<0>(*i1) == a[0] && std::get<0>(*i2) == a[1] && std::get<1>(*i1) == bc[0] && std::get<1>(*i2) == bc[1], "a copied zip iterator advances alone");
        COVER("two");
    }
    k = 0;
    for (auto it = z.begin(); it != z.end(); ++it) ++k;
    CHECKM(k == min, "a zip may be traversed again");
    COVER("end");
}
