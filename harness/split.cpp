// C31: tokenising loses nothing and cuts exactly at delimiters.
#include "kls.h"
#include "kl/split.hpp"
#include <memory>
extern "C" void kls_harness()
{
    size_t n = kls::choose("len", B_LEN + 1), m = kls::choose("delims", B_DELIMS + 1);
    std::string s, d;
    for (size_t i = 0; i < n; ++i) s += (char)kls_sym("s", 8);
    for (size_t i = 0; i < m; ++i) d += (char)kls_sym("d", 8);
    bool skip = kls::choose("skip", 2);
    std::vector<std::string> out = kl::split(s, d, skip);
    // reference
    std::vector<std::string> want;
    std::string cur;
    bool open = false;
    for (size_t i = 0; i < n; ++i) {
        bool isd = false;
        for (size_t j = 0; j < m; ++j) isd |= s[i] == d[j];
        open = true;
        if (isd) {
            if (!skip || !cur.empty()) want.push_back(cur);
            cur.clear();
            open = false;
        } else
            cur += s[i];
    }
    if (open && (!skip || !cur.empty())) want.push_back(cur);
    CHECKM(out.size() == want.size(), "number of tokens");
    for (size_t i = 0; i < want.size(); ++i) CHECKM(out[i] == want[i], "token text");
    size_t k = 0;
    kl::for_each_token(s.begin(), s.end(), d.begin(), d.end(), [&](auto a, auto b) {
        CHECKM(a >= s.begin() && a <= b && b <= s.end(), "tokens lie inside the text");
        if (!skip) { CHECKM(k < out.size() && std::string(a, b) == out[k], "for_each_token yields the same tokens"); }
        ++k;
    });
    if (!skip) CHECKM(k == out.size(), "for_each_token yields as many tokens");
    if (out.size() > 1) COVER("many");
    COVER("end");
}
