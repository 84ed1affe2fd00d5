// C41: kl::range is exactly the elements of what it was made from.
#include "kls.h"
#include "kl/range.hpp"
#include <array>
#include <deque>
#include <list>
#include <string>
#include <vector>
template <typename R, typename Ref>
static void same(const R& r, const Ref& ref, const char* what)
{
    CHECKM(r.size() == ref.size(), what);
    size_t k = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++k) CHECKM(k < ref.size() && *it == ref[k], what);
    CHECKM(k == ref.size(), what);
    k = 0;
    for (auto&& v : r) { CHECKM(k < ref.size() && v == ref[k], what); ++k; }
    CHECKM(k == ref.size(), what);
}
extern "C" void kls_harness()
{
    size_t n = kls::choose("n", B_LEN + 1);
    std::vector<int> v;
    std::list<int> l;
    std::deque<int> d;
    for (size_t i = 0; i < n; ++i) { v.push_back(kls::sym<int>("v")); l.push_back(v.back()); d.push_back(v.back()); }
    const std::vector<int> ref = v;
    const auto& cv = v;
    same(kl::range{v}, ref, "range over a vector");
    same(kl::range{cv}, ref, "range over a const vector");
    same(kl::range{l}, ref, "range over a list");
    same(kl::range{d}, ref, "range over a deque");
    // any two positions of the container
    size_t lo = kls::choose("lo", n + 1);
    size_t hi = lo + kls::choose("len", n - lo + 1);
    const std::vector<int> sub(ref.begin() + lo, ref.begin() + hi);
    same(kl::range{v.begin() + lo, v.begin() + hi}, sub, "range between two iterators");
    same(kl::range{std::next(l.begin(), lo), std::next(l.begin(), hi)}, sub, "range between two list iterators");
    same(kl::range{v.data() + lo, v.data() + hi}, sub, "range between two pointers");
    // a copy denotes the same elements and a range refers to them, it does not copy them
    kl::range<std::vector<int>::iterator> r{v};
    auto r2 = r;
    for (auto& x : r2) x ^= 1;
    for (size_t i = 0; i < n; ++i) CHECKM(v[i] == (ref[i] ^ 1), "a range refers to the elements themselves");
    kl::range<std::list<int>::iterator> rl{l};
    for (auto& x : rl) x = ~x;
    size_t k = 0;
    for (int x : l) CHECKM(x == ~ref[k++], "a range refers to the list's elements");
    int a[3] = {kls::sym<int>("a"), kls::sym<int>("a"), kls::sym<int>("a")};
    const std::vector<int> ra(a, a + 3);
    same(kl::range{a}, ra, "range over an array");
    const int ca[3] = {a[0], a[1], a[2]};
    same(kl::range{ca}, ra, "range over a const array");
    kl::range<int*> none;
    CHECKM(none.size() == 0 && none.begin() == none.end(), "a default range is empty");
    if (n > 2) COVER("many");
    COVER("end");
}
