// C14: integers cross the JSON boundary losslessly or are refused.
#include "kls.h"
#include "kl/json.hpp"
#include <cstring>
enum plain : int16_t { p0 };
// the mathematical value as sign + magnitude
struct num {
    bool neg;
    uint64_t mag;
};
static num of_s(int64_t v) { return {v < 0, v < 0 ? 0 - (uint64_t)v : (uint64_t)v}; }
static num of_u(uint64_t v) { return {false, v}; }
template <typename T> static num of(T v)
{
    if constexpr (std::is_signed<T>::value) return of_s((int64_t)v);
    else return of_u((uint64_t)v);
}
template <typename T> static bool fits(num n)
{
    if constexpr (std::is_signed<T>::value) {
        uint64_t m = (uint64_t)std::numeric_limits<T>::max();
        return n.neg ? n.mag <= m + 1 : n.mag <= m;
    } else
        return n.neg ? n.mag == 0 : n.mag <= (uint64_t)std::numeric_limits<T>::max();
}
static rapidjson::Value number(num& n, bool& integral)
{
    integral = true;
    switch (kls::choose("kind", 6)) {
    case 0: { auto v = kls::sym<int32_t>("i"); n = of_s(v); return rapidjson::Value(v); }
    case 1: { auto v = kls::sym<uint32_t>("u"); n = of_u(v); return rapidjson::Value(v); }
    case 2: { auto v = kls::sym<int64_t>("l"); n = of_s(v); return rapidjson::Value(v); }
    case 3: { auto v = kls::sym<uint64_t>("ul"); n = of_u(v); return rapidjson::Value(v); }
    case 4: { integral = false; uint64_t b = kls::sym<uint64_t>("d"); double d; memcpy(&d, &b, 8); return rapidjson::Value(d); }
    default:
        integral = false;
        switch (kls::choose("other", 5)) {
        case 0: return rapidjson::Value();
        case 1: return rapidjson::Value(kls::sym_bool("b"));
        case 2: return rapidjson::Value("12", 2);
        case 3: return rapidjson::Value(rapidjson::kObjectType);
        default: return rapidjson::Value(rapidjson::kArrayType);
        }
    }
}
template <typename T> static void run()
{
    num n{};
    bool integral;
    rapidjson::Value v = number(n, integral);
    T init = kls::sym<T>("init");
    T out = init;
    bool threw = false;
    try {
        if (kls::choose("patch", 2)) kl::json::patch(out, v);
        else kl::json::deserialize(out, v);
    } catch (const kl::serialization::deserialize_error& e) {
        threw = true;
        CHECK(e.what()[0]);
    }
    if (integral) {
        CHECKM(threw == !fits<T>(n), "an integer is accepted exactly when the target type can represent it");
        if (!threw) {
            num m = of<T>(out);
            CHECKM(m.neg == n.neg && m.mag == n.mag, "an accepted integer keeps its value");
            COVER("kept");
        } else {
            CHECKM(out == init, "a refused integer leaves the target alone");
            COVER("refused");
        }
    } else
        CHECKM(threw, "a value that is not an integer is refused");
    // and back
    T x = kls::sym<T>("x");
    rapidjson::Document d = kl::json::serialize(x);
    CHECKM(d.IsInt64() || d.IsUint64(), "an integer is serialized as a JSON integer");
    num m = d.IsInt64() ? of_s(d.GetInt64()) : of_u(d.GetUint64());
    num xm = of<T>(x);
    CHECKM(m.neg == xm.neg && m.mag == xm.mag, "serialization keeps the value");
    CHECKM(kl::json::deserialize<T>(d) == x, "serialize then deserialize is the identity");
}
extern "C" void kls_harness()
{
    switch (kls::choose("type", 9)) {
    case 0: run<int8_t>(); break;
    case 1: run<uint8_t>(); break;
    case 2: run<int16_t>(); break;
    case 3: run<uint16_t>(); break;
    case 4: run<int32_t>(); break;
    case 5: run<uint32_t>(); break;
    case 6: run<int64_t>(); break;
    case 7: run<uint64_t>(); break;
    default: {
        auto raw = kls::sym<int16_t>("raw");
        rapidjson::Document d = kl::json::serialize((plain)raw);
        CHECKM(kl::json::deserialize<plain>(d) == (plain)raw, "unreflected enums round-trip through their underlying value");
        num n{};
        bool integral;
        rapidjson::Value v = number(n, integral);
        plain out = p0;
        bool threw = false;
        try {
            kl::json::deserialize(out, v);
        } catch (const kl::serialization::deserialize_error&) {
            threw = true;
        }
        CHECKM(threw == !(integral && fits<int16_t>(n)), "enum accepts exactly its underlying range");
    }
    }
    COVER("end");
}
