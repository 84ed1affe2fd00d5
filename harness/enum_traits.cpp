// C28: enum operators, ranges and enum_range iteration.
#include "kls.h"
#include "kl/enum_traits.hpp"
#include "kl/enum_range.hpp"
#include <limits>
#include <vector>
enum class o8 : uint8_t { lo = 3, hi = 9 };
enum class s8 : int8_t { lo = -3, hi = 4 };
enum class u32 : uint32_t { lo = 0x7FFFFFFE, hi = 0x80000003 };
enum class i32 { lo = -2, hi = 5 };
enum class c32 { lo = 2, hi = 8 };  // closed range
enum class u64 : uint64_t { lo = 1, hi = 6 };
enum class full8 : uint8_t { lo = 250, hi = 255 };
enum class b16 : uint16_t { lo = 10, hi = 1010 };
enum class b32 { lo = -70000, hi = 70000 };
namespace kl {
template <> struct enum_traits<b16> : enum_trait_support_range<b16, b16::lo, b16::hi> {};
template <> struct enum_traits<b32> : enum_trait_support_range<b32, b32::lo, b32::hi, false> {};
template <> struct enum_traits<o8> : enum_trait_support_range<o8, o8::lo, o8::hi>, enum_trait_support_indexing, enum_trait_support_bitmask, enum_trait_support_bitshift {};
template <> struct enum_traits<s8> : enum_trait_support_range<s8, s8::lo, s8::hi>, enum_trait_support_indexing, enum_trait_support_bitmask, enum_trait_support_bitshift {};
template <> struct enum_traits<u32> : enum_trait_support_range<u32, u32::lo, u32::hi>, enum_trait_support_indexing, enum_trait_support_bitmask, enum_trait_support_bitshift {};
template <> struct enum_traits<i32> : enum_trait_support_range<i32, i32::lo, i32::hi>, enum_trait_support_indexing, enum_trait_support_bitmask, enum_trait_support_bitshift {};
template <> struct enum_traits<c32> : enum_trait_support_range<c32, c32::lo, c32::hi, false>, enum_trait_support_indexing, enum_trait_support_bitmask, enum_trait_support_bitshift {};
template <> struct enum_traits<u64> : enum_trait_support_range<u64, u64::lo, u64::hi>, enum_trait_support_indexing, enum_trait_support_bitmask, enum_trait_support_bitshift {};
template <> struct enum_traits<full8> : enum_trait_support_range<full8, full8::lo, full8::hi>, enum_trait_support_indexing, enum_trait_support_bitmask, enum_trait_support_bitshift {};
}
template <typename E> static void run(int64_t lo, int64_t end)
{
    using U = std::underlying_type_t<E>;
    using W = std::conditional_t<std::is_signed<U>::value, int64_t, uint64_t>;
    using T = kl::enum_traits<E>;
    CHECKM(T::min_value() == (U)lo && T::max_value() == (U)end && T::min() == (E)(U)lo && T::max() == (E)(U)end && T::count() == (size_t)(end - lo), "range limits");
    U a = kls::sym<U>("a"), b = kls::sym<U>("b");
    E ea = (E)a, eb = (E)b;
    bool in = (W)a >= (W)lo && (W)a < (W)end;
    CHECKM(T::in_range(ea) == in, "in_range(enumerator)");
    W w = kls::sym<W>("w");
    CHECKM(T::in_range(w) == (w >= (W)lo && w < (W)end), "in_range(any integer of the same signedness)");
    CHECKM((ea | eb) == (E)(U)(a | b) && (ea & eb) == (E)(U)(a & b) && (ea ^ eb) == (E)(U)(a ^ b) && (~ea) == (E)(U)~a, "bit operators");
    CHECKM(check_mask(ea, eb) == ((U)(a & b) != 0), "check_mask");
    E t = ea;
    CHECKM(&(t |= eb) == &t && t == (E)(U)(a | b), "|=");
    t = ea;
    CHECKM(&(t &= eb) == &t && t == (E)(U)(a & b), "&=");
    t = ea;
    CHECKM(&(t ^= eb) == &t && t == (E)(U)(a ^ b), "^=");
    CHECKM(+ea == a, "unary + is the underlying value");
    if (a != std::numeric_limits<U>::max()) {
        t = ea;
        CHECKM(&++t == &t && t == (E)(U)(a + 1), "++e");
        t = ea;
        CHECKM(t++ == ea && t == (E)(U)(a + 1), "e++");
    }
    unsigned sh = kls::choose("sh", 4);
    if (a >= 0 && a < 8) {
        U x = (U)((W)a << sh);
        t = ea;
        CHECKM((ea << (int)sh) == (E)x && &(t <<= (int)sh) == &t && t == (E)x, "<<");
    }
    {
        U x = (U)((W)a >> sh); // arithmetic for signed values
        t = ea;
        CHECKM((ea >> (int)sh) == (E)x && &(t >>= (int)sh) == &t && t == (E)x, ">>");
    }
    // iteration
    size_t n = (size_t)(end - lo), k = 0;
    kl::enum_range<E> r;
    for (E e : r) {
        CHECKM(k < n && e == (E)(U)(lo + (int64_t)k), "a range yields its enumerators in order");
        ++k;
    }
    CHECKM(k == n, "a range yields every enumerator");
    k = 0;
    kl::for_each_enum((E)(U)lo, (E)(U)end, [&](E e) {
        CHECKM(k < n && e == (E)(U)(lo + (int64_t)k), "for_each_enum visits the enumerators in order");
        ++k;
    });
    CHECKM(k == n, "for_each_enum visits every enumerator");
    if (b <= a) kl::for_each_enum(ea, eb, [&](E) { CHECKM(false, "for_each_enum over an empty or reversed range visits nothing"); });
    CHECKM(r.end() - r.begin() == (std::ptrdiff_t)n, "end - begin is the number of enumerators");
    unsigned i = kls::choose("i", (unsigned)n + 1), j = kls::choose("j", (unsigned)n + 1);
    auto it = r.begin() + i, jt = r.begin() + j;
    CHECKM(it - jt == (std::ptrdiff_t)i - (std::ptrdiff_t)j, "difference of two positions");
    CHECKM((it < jt) == (i < j) && (it <= jt) == (i <= j) && (it > jt) == (i > j) && (it >= jt) == (i >= j) && (it == jt) == (i == j) && (it != jt) == (i != j), "positions are ordered");
    if (i < n) CHECKM(*it == (E)(U)(lo + (int64_t)i) && r.begin()[i] == *it, "element at a position");
    COVER("end");
}
// many enumerators: positions are symbols
template <typename E> static void big(int64_t lo, int64_t end, bool all)
{
    using U = std::underlying_type_t<E>;
    using T = kl::enum_traits<E>;
    size_t n = (size_t)(end - lo), k = 0;
    CHECKM(T::min_value() == (U)lo && T::max_value() == (U)end && T::count() == n, "range limits");
    kl::enum_range<E> r;
    CHECKM(r.end() - r.begin() == (std::ptrdiff_t)n, "end - begin is the number of enumerators");
    if (all) {
        for (E e : r) {
            CHECKM(k < n && e == (E)(U)(lo + (int64_t)k), "a range yields its enumerators in order");
            ++k;
        }
        CHECKM(k == n, "a range yields every enumerator");
    }
    U a = kls::sym<U>("a");
    CHECKM(T::in_range((E)a) == ((int64_t)a >= lo && (int64_t)a < end), "in_range(enumerator)");
    uint32_t i = kls::sym<uint32_t>("i"), j = kls::sym<uint32_t>("j");
    kls_assume(i <= n && j <= n);
    auto it = r.begin() + i, jt = r.begin() + j;
    CHECKM(it - jt == (std::ptrdiff_t)i - (std::ptrdiff_t)j, "difference of two positions");
    CHECKM((it < jt) == (i < j) && (it <= jt) == (i <= j) && (it > jt) == (i > j) && (it >= jt) == (i >= j) && (it == jt) == (i == j), "positions are ordered");
    if (i < n) CHECKM(*it == (E)(U)(lo + (int64_t)i), "element at a position");
    COVER("big");
}
extern "C" void kls_harness()
{
    switch (kls::choose("type", 9)) {
    case 7: big<b16>(10, 1010, true); break;
    case 8: big<b32>(-70000, 70001, false); break;
    case 0: run<o8>(3, 9); break;
    case 1: run<s8>(-3, 4); break;
    case 2: run<u32>(0x7FFFFFFE, 0x80000003ll); break;
    case 3: run<i32>(-2, 5); break;
    case 4: run<c32>(2, 9); break;
    case 5: run<u64>(1, 6); break;
    default: run<full8>(250, 255); break;
    }
}
