// C26: enum_set is the bit-set algebra over the underlying value.
#include "kls.h"
#include "kl/enum_set.hpp"
#include "kl/enum_traits.hpp"
enum class a8 : uint8_t { x = 1, y = 2, z = 4 };
enum class b8 : int8_t { x = 1, y = 2 };
enum class c16 : uint16_t { x = 1 };
enum d32 : int32_t { dx = 1 };
enum class e64 : uint64_t { x = 1 };
enum class f64 : int64_t { x = 1 };
template <typename E> static void run()
{
    using U = std::underlying_type_t<E>;
    using S = kl::enum_set<E>;
    U a = kls::sym<U>("a"), b = kls::sym<U>("b"), c = kls::sym<U>("c");
    E ea = (E)a, eb = (E)b;
    S sa(ea), sb(eb), sc((E)c);
    auto V = [](S s) { return s.underlying_value(); };
    CHECKM(V(S{}) == 0 && !S{}, "a default set is empty");
    CHECKM(V(sa) == a && sa.value() == ea, "a set holds the value it was made from");
    CHECKM((bool)sa == (a != 0), "a set is true exactly when not empty");
    CHECKM(V(sa | sb) == (U)(a | b) && V(sa | eb) == (U)(a | b) && V(ea | sb) == (U)(a | b), "union");
    CHECKM(V(sa & sb) == (U)(a & b) && V(sa & eb) == (U)(a & b) && V(ea & sb) == (U)(a & b), "intersection");
    CHECKM(V(sa ^ sb) == (U)(a ^ b) && V(sa ^ eb) == (U)(a ^ b) && V(ea ^ sb) == (U)(a ^ b), "symmetric difference");
    CHECKM(V(~sa) == (U)~a, "complement");
    CHECKM(sa.has_any(sb) == ((U)(a & b) != 0) && sa.has_any(eb) == ((U)(a & b) != 0), "has_any: some member in common");
    CHECKM(sa.has_all(sb) == ((U)(a & b) == b) && sa.has_all(eb) == ((U)(a & b) == b) && sa.test(eb) == ((U)(a & b) == b), "has_all: every member contained");
    CHECKM((sa == sb) == (a == b) && (sa == eb) == (a == b) && (ea == sb) == (a == b), "equality");
    CHECKM((sa != sb) == (a != b) && (sa != eb) == (a != b) && (ea != sb) == (a != b), "inequality");
    CHECKM((sa < sb) == (a < b) && (sa < eb) == (a < b) && (ea < sb) == (a < b), "order");
    S t = sc;
    CHECKM(&(t |= sa) == &t && V(t) == (U)(c | a), "|= set");
    t = sc;
    CHECKM(&(t |= ea) == &t && V(t) == (U)(c | a), "|= flag");
    t = sc;
    CHECKM(&(t &= sa) == &t && V(t) == (U)(c & a), "&= set");
    t = sc;
    CHECKM(&(t &= ea) == &t && V(t) == (U)(c & a), "&= flag");
    t = sc;
    CHECKM(&(t ^= sa) == &t && V(t) == (U)(c ^ a), "^= set");
    t = sc;
    CHECKM(&(t ^= ea) == &t && V(t) == (U)(c ^ a), "^= flag");
    COVER("end");
}
extern "C" void kls_harness()
{
    switch (kls::choose("type", 6)) {
    case 0: run<a8>(); break;
    case 1: run<b8>(); break;
    case 2: run<c16>(); break;
    case 3: run<d32>(); break;
    case 4: run<e64>(); break;
    default: run<f64>(); break;
    }
}
