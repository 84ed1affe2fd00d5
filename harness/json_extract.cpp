// C25: extracting elements and members one by one: values, cursor, and where a failure is said to be.
#include "kls.h"
#include "kl/json.hpp"
#include "kl/serialization_error.hpp"
#include <optional>
#include <string>
#include <vector>
namespace {
typedef rapidjson::Value RV;
// 0 number, 1 null, 2 list of numbers, 3 list with a text at 1, 4 text
RV make(unsigned kind, int n, rapidjson::Document::AllocatorType& al)
{
    RV v;
    if (kind == 0) return RV(n);
    if (kind == 1) return RV();
    if (kind == 4) return RV("t");
    v.SetArray();
    v.PushBack(n, al);
    if (kind == 3) v.PushBack("t", al);
    else v.PushBack(2, al);
    return v;
}
// does kind suit target type 0 int, 1 optional<int>, 2 vector<int>; inner: the element that fails inside
bool suits(unsigned kind, unsigned type, int& inner)
{
    inner = -1;
    if (type == 0) return kind == 0;
    if (type == 1) return kind <= 1;
    if (kind == 3) inner = 1;
    return kind == 2;
}
void check_lines(const char* what, const std::vector<std::string>& steps)
{
    std::vector<std::string> line(1);
    for (; *what; ++what)
        if (*what == '\n') line.emplace_back();
        else line.back() += *what;
    CHECKM(!line[0].empty(), "an error starts with its reason");
    CHECKM(line.size() == steps.size() + 1, "an error names every step to the failing place once");
    if (line.size() != steps.size() + 1) return;
    for (size_t i = 0; i < steps.size(); ++i) {
        const std::string &l = line[i + 1], &w = steps[i];
        CHECKM(l.size() > w.size() && l.compare(l.size() - w.size(), w.size(), w) == 0 && l[l.size() - w.size() - 1] == ' ', "an error names the failing place from the inside outwards");
    }
}
std::string element(unsigned i) { return std::string("element ") + (char)('0' + i); }
} // namespace
extern "C" void kls_harness()
{
    rapidjson::Document doc;
    kl::json::owning_serialize_context sc;
    auto& al = doc.GetAllocator();
    bool object = kls::choose("object", 2);
    static const char* const names[] = {"a", "ab", "", "b"};
    unsigned n = kls::choose("size", 4), kind[4] = {1, 1, 1, 1};
    int num[4];
    RV v(object ? rapidjson::kObjectType : rapidjson::kArrayType);
    for (unsigned i = 0; i < n; ++i) {
        kind[i] = kls::choose("kind", 5);
        num[i] = kls::sym<int>("num");
        if (object) v.AddMember(RV(names[i], al), make(kind[i], num[i], al), al);
        else v.PushBack(make(kind[i], num[i], al), al);
    }
    kl::json::deserialize_context dc;
    unsigned at = 0;
    auto go = [&](auto& ex) {
        for (unsigned k = 0; k < 2; ++k) {
            unsigned type = kls::choose("type", 3);
            bool direct = object || kls::choose("direct", 2);
            if (direct) at = kls::choose("at", 4);
            int i = 77, inner;
            std::optional<int> o = 77;
            std::vector<int> l{77};
            bool want = suits(kind[at], type, inner), ok = true;
            try {
                if constexpr (std::is_same_v<std::decay_t<decltype(ex)>, std::decay_t<decltype(kl::json::from_object(v, dc))>>) {
                    if (type == 0) ex.extract(names[at], i);
                    else if (type == 1) ex.extract(names[at], o);
                    else ex.extract(names[at], l);
                } else {
                    if (type == 0) direct ? ex.extract(i, at) : ex.extract(i);
                    else if (type == 1) direct ? ex.extract(o, at) : ex.extract(o);
                    else direct ? ex.extract(l, at) : ex.extract(l);
                }
            } catch (const kl::serialization::deserialize_error& e) {
                ok = false;
                std::vector<std::string> steps;
                if (inner >= 0) steps.push_back(element((unsigned)inner));
                steps.push_back(object ? "field " + std::string(names[at]) : element(at));
                check_lines(e.what(), steps);
                COVER("refused");
            }
            CHECKM(ok == want, "an element is extracted exactly when it suits its target");
            if (!ok || !want) return;
            CHECKM(type != 0 || i == num[at], "the number extracted is the one in the document");
            CHECKM(type != 1 || (kind[at] == 1 ? !o : o && *o == num[at]), "the optional extracted is the one in the document");
            CHECKM(type != 2 || (l.size() == 2 && l[0] == num[at] && l[1] == 2), "the list extracted is the one in the document");
            ++at;
            if (at == 4) return;
        }
        COVER("accepted");
    };
    if (object) {
        auto ex = kl::json::from_object(v, dc);
        go(ex);
    } else {
        auto ex = kl::json::from_array(v, dc);
        go(ex);
    }
}
