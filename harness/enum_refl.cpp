// C27: reflected enumerators and their names are inverse to each other.
#include "kls.h"
#include "kl/enum_reflector.hpp"
#include <cstring>
#include <memory>
namespace ns {
enum class plain { A, B, C, D };
KL_REFLECT_ENUM(plain, A, B, C, D)
enum class holes { one = 1, two = 2, five = 5, nine = 9 };
KL_REFLECT_ENUM(holes, one, two, five, nine)
enum class shuffled { a = 0, b = 3, c = 1, d = 2 };
KL_REFLECT_ENUM(shuffled, a, b, c, d)
// starts at 0, ends at n-1, but not sorted in between
enum class middle { a = 0, b = 2, c = 1, d = 3 };
KL_REFLECT_ENUM(middle, a, b, c, d)
enum class gap : int8_t { a = 0, b = 100, c = -100, d = 3 };
KL_REFLECT_ENUM(gap, a, b, c, d)
enum class neg : int64_t { lo = INT64_MIN, m = -1, z = 0, hi = INT64_MAX };
KL_REFLECT_ENUM(neg, lo, m, z, hi)
enum class named : uint8_t { a, b, c };
KL_REFLECT_ENUM(named, (a, alpha), b, (c, ab))
enum unscoped : unsigned { u_x = 4, u_y = 0xFFFFFFFFu };
KL_REFLECT_ENUM(unscoped, (u_x, x), (u_y, xx))
enum class prefix { a, ab, abc, b };
KL_REFLECT_ENUM(prefix, a, ab, abc, b)
enum class single { only };
KL_REFLECT_ENUM(single, only)
enum class seq { a, b };
KL_REFLECT_ENUM_SEQ(seq, (a)((b, second)))
}
namespace ns {
enum class dup { a = 0, b = 1, c = 1, d = 3 };
KL_REFLECT_ENUM(dup, a, b, c, d)
}
struct entry {
    int64_t v;
    const char* n;
};
template <typename E> static void run(const entry* tab, unsigned n, const char* unknown)
{
    using R = kl::enum_reflector<E>;
    using U = std::underlying_type_t<E>;
    CHECKM(R::count() == n, "count()");
    auto vals = R::values();
    auto cv = R::constexpr_values();
    CHECKM(vals.size() == n && cv.size() == n, "number of values");
    for (unsigned i = 0; i < n; ++i) {
        CHECKM(vals.begin()[i] == (E)(U)tab[i].v && cv[i] == (E)(U)tab[i].v, "values() lists the enumerators in order");
        unsigned f = i; // an aliased enumerator is reported by the first name listed
        for (unsigned j = 0; j < i; ++j)
            if (tab[j].v == tab[i].v) { f = j; break; }
        CHECKM(!strcmp(R::to_string((E)(U)tab[i].v), tab[f].n), "to_string of an enumerator");
        auto r = R::from_string(tab[i].n);
        CHECKM(r && *r == (E)(U)tab[i].v, "from_string of a name");
    }
    // any value of the underlying type
    U raw = kls::sym<U>("raw");
    const char* s = R::to_string((E)raw);
    const char* k = kl::to_string((E)raw);
    const char* d = R::to_string((E)raw, "dflt");
    const char *want = unknown, *wantd = "dflt";
    for (unsigned i = 0; i < n; ++i)
        if ((U)tab[i].v == raw) { want = wantd = tab[i].n; break; }
    CHECKM(!strcmp(s, want) && !strcmp(k, want), "to_string of any value: its name, or the unknown marker");
    CHECKM(!strcmp(d, wantd), "to_string with a default: the default exactly for unlisted values");
    if (want != unknown) COVER("listed");
    else COVER("unlisted");
    // any text
    size_t len = kls::choose("len", B_LEN + 1);
    std::unique_ptr<char[]> buf(new char[len]);
    kls::sym_bytes(buf.get(), len, "txt");
    auto r = R::from_string(std::string_view(buf.get(), len));
    auto r2 = kl::from_string<E>(std::string_view(buf.get(), len));
    const entry* hit = nullptr;
    for (unsigned i = 0; i < n && !hit; ++i) {
        if (strlen(tab[i].n) != len) continue;
        unsigned char diff = 0;
        for (size_t j = 0; j < len; ++j) diff |= (unsigned char)(tab[i].n[j] ^ buf[j]);
        if (!diff) hit = &tab[i];
    }
    CHECKM(r.has_value() == (hit != nullptr), "from_string accepts exactly the listed names");
    CHECKM(r == r2, "both spellings of from_string agree");
    if (hit) {
        CHECKM(*r == (E)(U)hit->v, "from_string gives the enumerator of that name");
        COVER("parsed");
    }
}
#define RUN(E, U, ...) { static const entry t[] = {__VA_ARGS__}; run<ns::E>(t, sizeof t / sizeof *t, U); break; }
extern "C" void kls_harness()
{
    switch (kls::choose("type", 12)) {
    case 0: RUN(plain, "unknown <plain>", {0, "A"}, {1, "B"}, {2, "C"}, {3, "D"})
    case 1: RUN(holes, "unknown <holes>", {1, "one"}, {2, "two"}, {5, "five"}, {9, "nine"})
    case 2: RUN(shuffled, "unknown <shuffled>", {0, "a"}, {3, "b"}, {1, "c"}, {2, "d"})
    case 3: RUN(middle, "unknown <middle>", {0, "a"}, {2, "b"}, {1, "c"}, {3, "d"})
    case 4: RUN(gap, "unknown <gap>", {0, "a"}, {100, "b"}, {-100, "c"}, {3, "d"})
    case 5: RUN(neg, "unknown <neg>", {INT64_MIN, "lo"}, {-1, "m"}, {0, "z"}, {INT64_MAX, "hi"})
    case 6: RUN(named, "unknown <named>", {0, "alpha"}, {1, "b"}, {2, "ab"})
    case 7: RUN(unscoped, "unknown <unscoped>", {4, "x"}, {0xFFFFFFFFll, "xx"})
    case 8: RUN(prefix, "unknown <prefix>", {0, "a"}, {1, "ab"}, {2, "abc"}, {3, "b"})
    case 9: RUN(single, "unknown <single>", {0, "only"})
    case 11: RUN(dup, "unknown <dup>", {0, "a"}, {1, "b"}, {1, "c"}, {3, "d"})
    default: RUN(seq, "unknown <seq>", {0, "a"}, {1, "second"})
    }
    COVER("end");
}
